import json
T={
"node":("deterministic simulation of 2-6 whole node processes (real threads, codec, gob) under a seeded scheduler, network and clock with fault injection; reference-model invariants online and over the recorded history",
 "Seeded search over schedules, network conditions, loads and fault sequences; every violation is minimised and replayed exactly in a fresh process. No exhaustiveness."),
"race":("deterministic simulation of whole node processes with vector-clock happens-before race detection in the simulator, under seeded schedules and faults",
 "A race is reported for every pair of accesses executed in a run that the program's own synchronisation does not order, whatever the schedule; search over seeds for the executions."),
"codec":("deterministic simulation of senders, a lossy/duplicating/reordering/corrupting channel and receivers around the real codecs, checked step by step against a small executable reference model",
 "Seeded search over delivery schedules, faults and histories; violations minimised and replayed exactly."),
"sims":("deterministic simulation of the repository's own simulators inside a controlled runtime (scheduler, randomness, files, map order), with fault injection on link delays and topology, checked against a reference model of the observed messages",
 "Seeded search over topologies, parameters, delays and schedules; violations minimised and replayed exactly."),
"testbed":("deterministic simulation of the whole command-line tool as a process, with its goroutines, files, terminal, SSH, scp and HTTP under a seeded scheduler and fault injection, against simulated servers and cloud providers whose state is the reference model",
 "Seeded search over server lists, accounts, command sequences, latencies, faults and interruptions; happens-before race detection throughout; violations minimised and replayed exactly."),
}
have=open('/verif/tools/claimed.txt').read().split()
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na={}
checks=[]
for i in range(1,60):
    p="C%02d"%i
    if p not in props or p in na: continue
    if p not in have:
        na[p]="check under construction"
        continue
    g="testbed" if i in (29,33) else "race" if p=="C10" else "node" if i<10 or i in (32,35) else "codec" if i<19 or i==28 else "sims"
    checks.append({"property":p,"quick_cmd":"./check.sh %s quick"%p,"thorough_cmd":"./check.sh %s thorough"%p,"evidence_file":"evidence/%s.json"%p,"technique":T[g][0],"level":"exploration","level_note":T[g][1]})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":na[k]} for k in sorted(na)]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write('\n')
