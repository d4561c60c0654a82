import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
NT="No test exercises package node at all (no _test.go there) and ldpc's own tests do not compile, so nothing samples even one schedule; "
p("C01","A node decodes from a peer only what that peer sent",
 "Every transaction a node recovers from a peer's connection is byte-for-byte a transaction that this very peer had earlier put in its coding window for that connection. This holds under every delay, segmentation of the byte stream, stall, backpressure, window overrun, decoding timeout and order in which the node's threads run.",
 ["schedules","fault_sequences","histories"],"all thread schedules, network timings/segmentations, stalls and transaction histories of a network of nodes",
 NT+"the property ranges over interleavings of sender, receiver and controller threads with network faults.",
 ["node/receiver.go","node/sender.go","node/controller.go","ldpc/decoder.go","ldpc/encoder.go"],
 [("codeword = XOR of window members plus salted hashes","ldpc/encoder.go:produceCodeword"),("peeling with salted-hash verification","ldpc/decoder.go:decodeCodewords"),("per-connection salts exchanged on connect","node/controller.go:handleConn")],
 observe=["ldpc Encoder/Decoder exported methods inside a simulated node","bytes on the simulated connection"])
p("C02","A node relays every transaction it learns exactly once to every peer",
 "Each transaction a node generates locally, or recovers from some peer, is handed exactly once per such event to the decoder of every connected peer and to the encoder of every connected peer; the one exception is a transaction recovered only through a codeword that had already timed out, which goes to the decoders but is not re-advertised. A node never advertises a transaction it has not learned.",
 ["schedules","fault_sequences","histories"],"all schedules of controller, sender and receiver threads, peer counts, bursts, and connection/stall timings",
 NT+"exactly-once relay across bounded queues and several peers depends on interleavings no test runs.",
 ["node/controller.go","node/receiver.go","node/sender.go"],
 [("fan-out of local and decoded transactions","node/controller.go:loop"),("Expired flag chooses the notification","node/controller.go:notifyExpiredTransaction"),("receivers report every decoded transaction","node/receiver.go:decode")],
 observe=["ldpc Encoder.AddTransaction / Decoder.AddTransaction per connection"])
p("C03","Transactions in a sender's window reach the peer once disturbances stop",
 "When no new transactions are generated and network disturbances and stalls have ended, every transaction still in a node's coding window for a live connection becomes known to the peer at the other end after a bounded number of further codewords. Earlier losses of progress (delays, stalls, bursts, timeouts, dropped codewords under backpressure) never make this impossible.",
 ["schedules","fault_sequences","histories"],"all fault and schedule histories followed by a quiet period",
 NT+"a liveness property over histories cannot be sampled by a unit test; the codec tests decode one fresh block with a fresh decoder.",
 ["node/sender.go","node/receiver.go","ldpc/encoder.go","ldpc/decoder.go"],
 [("rateless codeword stream, rate never below the minimum","node/sender.go:loop"),("pending codewords stay decodable after their timeout","ldpc/decoder.go:Free/decodeCodewords")],
 observe=["ldpc Decoder results at the receiving node"])
p("C04","A running node never wedges",
 "However many peers deliver transactions at once and however bursty the arrival, a node never reaches a state in which its threads wait on each other forever: after the burst, every transaction and codeword already accepted is processed and newly generated transactions are still relayed. A slow or blocked connection only delays that connection.",
 ["schedules","fault_sequences","histories"],"all interleavings of the node's threads over bounded queues, all burst sizes, peer counts, node and thread stalls",
 NT+"a deadlock over bounded queues needs thousands of queued items and a particular interleaving.",
 ["node/controller.go","node/receiver.go","node/sender.go"],
 [("bounded queues between receiver, controller and sender threads","node/controller.go:newPeer"),("receiver keeps accepting notifications while handing over decoded transactions","node/receiver.go:decode"),("non-blocking hand-off of codewords to the socket writer","node/sender.go:loop")],
 observe=["threads blocked at quiescence in the simulated scheduler"])
p("C05","Codeword-loss reports are conserved",
 "Each codeword a node gives up on (its decoding timeout passed while it was undecoded) is reported to the peer that sent it exactly once: the total loss carried by codewords a node puts on a connection never exceeds the number of codewords from that connection it has given up on, and equals it once codewords have flowed in both directions again. Codewords skipped because the connection is backed up lose no report and repeat none.",
 ["schedules","fault_sequences","histories"],"all schedules, timeouts, backpressure episodes and stalls",
 NT+"conservation across three queues and a skipping sender is a whole-history property.",
 ["node/receiver.go","node/sender.go","node/message.go"],
 [("count undecoded codewords at timeout","node/receiver.go:decode"),("accumulate until a codeword is really queued","node/sender.go:loop")],
 observe=["Loss field on the wire","PendingCodeword.Free/Decoded"])
p("C06","Codeword sending rate follows the control law",
 "On every connection the number of codewords a node produces over any interval equals its current rate integrated over that time (up to one codeword of rounding): the rate starts at the configured initial value, rises by the configured increment for each codeword the peer reports lost, falls by increment times target loss for each codeword queued for sending, and never drops below the configured minimum as a result.",
 ["schedules","histories","configurations","fault_sequences"],"all loss-report histories, rate parameters, network delays and thread schedules",
 NT+"the law integrates over the whole history of reports and ticks.",
 ["node/sender.go","node/receiver.go","node/main.go"],
 [("credit accumulation per tick and rate update","node/sender.go:loop"),("forwarding of the peer's loss reports","node/receiver.go:decode")],
 observe=["Encoder.ProduceCodeword calls with simulated time","Loss field received"])
p("C07","A codeword is given up exactly once and only after its timeout",
 "A node releases every codeword it received exactly once, in arrival order, never before the configured decoding timeout has elapsed since the node processed it, and always before it processes the next codeword that arrives after that timeout. Jumps of the wall clock do not change this.",
 ["schedules","fault_sequences","histories"],"all arrival times, stalls, wall-clock jumps and thread schedules",
 NT+"needs control over clocks and arrival times.",
 ["node/receiver.go"],
 [("FIFO receive window scanned against the timeout","node/receiver.go:decode")],
 observe=["PendingCodeword.Free relative to Decoder.AddCodeword in simulated time"])
p("C08","Connections come up whatever the start order and however bytes arrive",
 "If two nodes are configured so that one dials the other, then in whatever order they start and however the first bytes are delayed or fragmented by the network, they end up with one working connection, and each side decodes with exactly the 16-byte key the other side encodes with. Refused or timed-out dial attempts are retried until they succeed, with a pause between them, so that a peer that is down is not hammered.",
 ["schedules","fault_sequences","configurations"],"all start orders, dial failures, and fragmentations/delays of the handshake bytes",
 NT+"tests over loopback would practically never see a fragmented 16-byte read.",
 ["node/controller.go","node/main.go"],
 [("key exchange before the codeword stream","node/controller.go:handleConn"),("dial retry loop","node/main.go:main")],
 observe=["bytes on the simulated connection","NewEncoder/NewDecoder salts"])
p("C09","A failing connection never harms the node's other connections",
 "When a connection is reset, closed, ends in garbage bytes, fails on writing, or stalls in the middle of its handshake, or when the peer process crashes and restarts, the node itself keeps running: all its other connections keep being served, new connections are still accepted, and transactions keep being relayed to the remaining peers. A connection on which reading or writing has failed is closed and no longer worked for, so failing connections never use up the node's sockets.",
 ["schedules","fault_sequences","crash_points"],"all points at which a connection or peer process fails, with all schedules",
 NT+"needs connection failures injected at arbitrary byte positions.",
 ["node/controller.go","node/main.go","node/receiver.go","node/sender.go"],
 [("per-connection error handling","node/controller.go:newPeer"),("accept loop","node/main.go:main")],
 observe=["process liveness, relaying and accepting after the fault"])
p("C10","Per-connection state is never accessed by two threads at once",
 "Inside a node any two accesses to the same connection's coding state (encoder, decoder, received codewords) or to the same mutable field of the node's own data, at least one of them a write, are ordered by the node's own synchronisation. No schedule yields a data race.",
 ["schedules"],"all thread schedules of a node with any number of peers",
 NT+"the race detector only sees the schedules a test happens to run, and there is no test.",
 ["node/controller.go","node/receiver.go","node/sender.go"],
 [("thread confinement, all hand-over through channels","node/controller.go:newPeer")],
 observe=["happens-before relation recorded by the simulated scheduler"])
LT="The codec tests feed one decoder one in-order, loss-free stream from one encoder; "
p("C11","Fountain decoders never output a transaction nobody encoded",
 "Whatever codewords reach an LT decoder (packages lt, iblt, ldpc), lost, duplicated, reordered, mixed from several senders, bit-flipped in transit, or suffering salted-hash collisions, every transaction it reports as decoded is identical in content to one some sender put in its window (up to the 2^-32 chance of a checksum accident), and the decoder neither panics nor hangs.",
 ["fault_sequences","inputs","histories"],"all sequences of codeword loss, duplication, reordering, corruption, sender mixes and locally added transactions",
 LT+"no loss, reorder, corruption or collision is ever exercised.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("verification of the salted hash before a transaction is accepted","lt/decoder.go:decodeCodewords"),("discarding a codeword that fails verification","lt/decoder.go:failToDecode")],
 observe=["AddCodeword / AddTransaction results"])
p("C12","What an LT decoder knows depends only on what it received, not on order",
 "After any sequence of received codewords and locally added transactions, an LT decoder (lt, iblt, ldpc) with sufficient memory knows exactly the transactions derivable by peeling: nothing derivable is left undecoded, and the same inputs in any order, with any duplicates, lead to the same knowledge.",
 ["fault_sequences","histories","schedules"],"all delivery orders, duplications and losses of codewords and interleavings with local additions",
 LT+"order independence and completeness quantify over all delivery orders.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("cascade of peeling through the pending graph","lt/decoder.go:markDecoded"),("peeling of known members on arrival","lt/decoder.go:AddCodeword")],
 observe=["AddCodeword / AddTransaction results"])
p("C13","Decoded transactions are reported once and codeword status is truthful",
 "An LT decoder reports each transaction it recovers in the result of exactly the call that made it recoverable, once while it remembers it, and never reports one that was added locally and is still remembered. A codeword's status turns to decoded exactly when all of its transactions have become known (or it proved inconsistent), and never back.",
 ["fault_sequences","histories"],"all delivery orders, duplications and interleavings",
 LT+"status of earlier codewords is never looked at again.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("queue of decodable codewords","lt/decoder.go:decodeCodewords"),("stub returned by AddCodeword","lt/decoder.go:PendingCodeword")],
 observe=["AddCodeword / AddTransaction results","PendingCodeword.Decoded"])
p("C14","Decoder memory is a sliding window of the last M transactions",
 "Salted-hash collisions aside, a decoder created with memory M treats exactly the M most recently learned transactions as known: a transaction within the last M is peeled from new codewords and never reported again, while an older one is forgotten and is decoded and reported anew when it shows up again. Forgetting never corrupts codewords that are still pending.",
 ["histories","fault_sequences","configurations"],"all memory sizes and histories of learning and re-receiving transactions",
 LT+"tests use memories larger than everything they decode.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go"],
 [("eviction in order of learning","lt/decoder.go:storeNewTransaction")],
 observe=["AddCodeword / AddTransaction results","HasDecoded"])
p("C15","Every codeword is the XOR of distinct transactions of the current window",
 "Whatever the interleaving of adding transactions, producing codewords and resetting, each codeword an LT encoder produces names min(degree, window) distinct transactions, all among the most recently accepted ones that fit the window, and its payload is the XOR of exactly those. Transactions leave the window strictly in the order in which they were accepted, a transaction already in the window is refused, and one that has left it is accepted again.",
 ["histories","configurations"],"all interleavings of additions, productions and resets; all window sizes and degree draws",
 "The encoder tests produce one codeword from a static window and never interleave productions with evictions.",
 ["lt/encoder.go","iblt/encoder.go","ldpc/encoder.go"],
 [("sampling without replacement, order restored afterwards","lt/encoder.go:produceCodeword"),("FIFO window with membership set","lt/encoder.go:AddTransaction")],
 observe=["Codeword contents","AddTransaction result"])
p("C16","Recycling codewords and the late-decode flag are safe",
 "In the pooled codec (ldpc), releasing codewords and reusing their storage never changes the status, contents or later decoding of any other codeword, of any connection in the process, whatever the recycling order. A transaction is flagged as decoded late exactly when a codeword it was recovered from had been released before.",
 ["schedules","fault_sequences","histories"],"all release points relative to decoding, all pool reuse orders, several decoders sharing the pool",
 "ldpc's tests do not compile, never release anything, and use one decoder.",
 ["ldpc/decoder.go","ldpc/encoder.go"],
 [("codeword and transaction-stub pools","ldpc/decoder.go:pendingCodewordPool"),("freed flag","ldpc/decoder.go:Free")],
 observe=["AddCodeword results and Expired flag","PendingCodeword.Decoded"])
p("C17","Delivering a codeword again or to several decoders does not disturb it",
 "Handing a codeword to an LT decoder (lt, iblt, ldpc) leaves the caller's codeword and transactions intact, also for transaction types that are references: the same codeword can be delivered again, or to any number of decoders in any order, and each behaves as if it had received its own copy.",
 ["fault_sequences","schedules","histories"],"all duplications and fan-outs of in-memory codewords, value and reference transaction types",
 LT+"each codeword is used once.",
 ["lt/decoder.go","iblt/decoder.go","ldpc/decoder.go","lt/transaction.go"],
 [("decoder works on its own copy of the symbol","lt/decoder.go:AddCodeword")],
 observe=["decode results of sibling decoders"])
p("C18","riblt stream reconciliation yields exactly the set difference",
 "However coded symbols arrive in batches, and however attempts to decode are interleaved with them, a riblt decoder that has received at least one coded symbol never claims completion before it holds the exact difference of the two sets: once it does, the remote-only and local-only symbols it lists are precisely the symmetric difference, each once with its content and hash. It reaches completion on a prefix independent of the batching, stays complete when surplus coded symbols arrive, and behaves the same for every later session after a reset.",
 ["schedules","histories","fault_sequences"],"all batchings of arrival and decode attempts, set sizes, multi-session histories with resets and surplus symbols in flight",
 "One test reconciles one pair of sets with one fresh decoder decoding after every symbol.",
 ["riblt/decoder.go","riblt/encoder.go","riblt/random.go"],
 [("incremental peeling with dirty list and pending count","riblt/decoder.go:TryDecode"),("window mapping heap","riblt/encoder.go:applyWindow")],
 observe=["Decoded/Remote/Local after any prefix"])
p("C19","Coding-based gossip delivers every transaction to every server",
 "In the riblt-based gossip protocol (newsim, coding), once new transactions stop, every transaction generated anywhere reaches every server of a connected network within a bounded number of reconciliation rounds, with its content intact, over links that deliver in order but with arbitrary positive delays and stalls (at most one link between two servers, and every server has generated or learned at least one transaction, which is what starts its links). A server never treats the same transaction as new twice.",
 ["schedules","fault_sequences","histories","configurations"],"all in-order link timings, stalls, topologies, shard counts and generation histories",
 "No test runs newsim.",
 ["newsim/coding.go","newsim/module.go"],
 [("sharded block reconciliation","newsim/coding.go:tryProduceCodeword"),("acknowledgement carrying the receiver's surplus","newsim/coding.go:onCodeword"),("forwarding to other peers","newsim/module.go:HandleMessage")],
 observe=["messages and received sets of simulated servers"])
p("C20","Coding-based gossip keeps its block discipline",
 "On each link the sending side opens a new block only after the receiving side reported the previous one decoded; the receiving side answers every coded symbol of an open block exactly once, marks the first as the block's start and exactly one as its completion, and stays silent until the next block. Successive blocks of a link visit the shards of the hash space in a fixed cycle that covers every transaction exactly once per cycle: each end takes every transaction it is to exchange over the link (all it generates or learns, except those it learned over this very link) into one block, and only one, within a cycle, and the two ends agree which shard a transaction belongs to.",
 ["schedules","fault_sequences","histories"],"all in-order link timings and traffic histories",
 "No test runs newsim.",
 ["newsim/coding.go","newsim/messages.go"],
 [("block state on both sides","newsim/coding.go:onAck"),("shard schedule","newsim/coding.go:tryProduceCodeword")],
 observe=["messages exchanged on a link"])
p("C21","Pull-based gossip delivers every transaction and requests it once per link",
 "In the announce/request/response protocol (newsim, pull), once new transactions stop, every transaction reaches every server of a connected network, even when the network reorders messages and duplicates announcements. A server announces a transaction at most once per link and never over the link it learned it over, answers every request with the requested transaction and, without duplication by the network, asks for a transaction at most once per link and never for one it already passed on over that link; when the network neither duplicates nor floods, never for one it already has.",
 ["schedules","fault_sequences","histories"],"all message timings, reorderings, duplications and topologies",
 "No test runs newsim.",
 ["newsim/pull.go","newsim/module.go"],
 [("per-link known set","newsim/pull.go:handleMessage")],
 observe=["messages and received sets of simulated servers"])
p("C22","LT block gossip accounts for every codeword and block",
 "In the LT-based gossip simulator, a server answers every codeword with exactly one acknowledgement; a sender keeps no more codewords unacknowledged than its window allows and starts a new block only after the previous block was acknowledged as received; a receiver acknowledges a block at most once, as soon as, and only when, it has received more than the threshold number of its codewords and all but the tolerated fraction of them are decoded. A sender keeps its window full while a block is open. As long as the decoder memory covers all recent transactions, no server ever decodes the same transaction twice or decodes one it generated.",
 ["schedules","fault_sequences","histories","configurations"],"all in-order link timings, stalls, topologies and protocol parameters",
 "No test runs simulator.",
 ["simulator/node.go","simulator/module.go"],
 [("ack per codeword, window, block state","simulator/node.go:tryFillSendWindow"),("loss-limit detector","simulator/node.go:onCodeword")],
 observe=["messages exchanged between simulated servers","lt decoder calls"])
p("C23","The event kernel delivers in time order, once, and never early",
 "Every message scheduled in the discrete-event kernel is delivered exactly once, at exactly its send time plus delay, in order of arrival time and, at equal times, in the order it was scheduled; a message without recipient returns to its sender. Running until a time delivers everything due by then, the clock never goes backwards, and delivered plus queued always equals scheduled.",
 ["schedules","histories"],"all histories of scheduling with arbitrary delays, ties and run-until calls",
 "No test exercises des.",
 ["des/simulator.go"],
 [("priority queue ordered by arrival and sequence","des/simulator.go:Less"),("delivery loop","des/simulator.go:deliverNextMessage")],
 observe=["HandleMessage calls"])
p("C24","A simulation run is reproducible from its parameters",
 "Running either gossip simulator twice with the same parameters, topology and seed yields the same printed results, whatever the Go runtime's map iteration order and the speed of the machine.",
 ["schedules","configurations"],"all map-iteration orders, wall-clock behaviours and parameter sets",
 "No test runs a simulator even once.",
 ["newsim/main.go","newsim/module.go","simulator/main.go","simulator/module.go"],
 [("seeded generators","newsim/main.go:main"),("ordered peer list","newsim/module.go:collectOutgoingMessages")],
 observe=["printed results"])
p("C25","Printed simulation statistics match the simulated history",
 "The received, duplicate and overhead figures newsim prints, and the decoded-transaction and overhead figures and the codeword trace simulator prints, equal the values computed from the messages actually delivered and transactions actually generated and decoded since the metrics were reset at the end of the warm-up, rates being per unit of the simulated time those counters cover; printed latency quantiles and the overlap files match the observed distributions within the accuracy of the sketch, for every timing of the network.",
 ["schedules","histories","configurations"],"all link timings, warm-up points and traffic histories",
 "No test runs a simulator.",
 ["newsim/module.go","newsim/main.go","newsim/messages.go","simulator/module.go","simulator/main.go"],
 [("per-server counters and reset at warm-up","newsim/module.go:serverMetric"),("moments over servers","newsim/main.go:collectMoments")],
 observe=["printed results vs. delivered messages"])
p("C26","Smoothed forwarding loses nothing, keeps order and spacing",
 "In the LT-based gossip simulator every transaction a server generates or decodes is forwarded to its peers exactly once, in the order in which it was learned, not before it was learned, no two forwards of one server are closer than the configured smoothing interval, and none is delayed more than that interval makes necessary.",
 ["schedules","histories","configurations"],"all arrival timings, bursts and smoothing intervals",
 "No test runs simulator.",
 ["simulator/module.go"],
 [("forward rate limiter with loop-back messages","simulator/module.go:scheduleForwardingTransactions")],
 observe=["loop-back messages and codewords of simulated servers"])
p("C27","Parallel microbenchmarks do not depend on worker scheduling",
 "The overlap microbenchmarks, which run their repetitions concurrently, return the same number for the same arguments under every scheduling of their workers, equal to what running the repetitions one after another gives.",
 ["schedules"],"all interleavings of the worker threads",
 "No test runs them; a single run shows one schedule.",
 ["microbenchmarks/onesender.go"],
 [("per-repetition generators and state, results summed over a channel","microbenchmarks/onesender.go:SimulateOneSenderOverlap")],
 observe=["returned averages"])
p("C28","Exchanged sketches recover exactly the difference, whenever peeling can",
 "Parties whose sets grow over time exchange fixed-size riblt sketches (at least one cell, the same size everywhere). Whenever a party subtracts a sketch it received from its own, or its own from the received one, and decodes the result, the remote list holds only symbols of the first set that are not in the second and the local list only symbols of the second that are not in the first, each once, with its correct hash. Decode reports success exactly when peeling the cells recovers the whole difference, and then the lists are the complete difference. This holds for any order in which symbols were added, for value and reference symbol types (of which XOR is defined only for arguments that are not the default value), and for sketches that were delayed, reordered, repeated, given to several parties or taken while the set kept growing: Subtract leaves its argument unchanged, Decode leaves the sketch unchanged so that decoding again gives the same result, and the symbols of the caller are never modified.",
 ["inputs","schedules","fault_sequences","histories"],"all histories of set growth and sketch exchange between parties, all sketch sizes",
 "No test covers Sketch at all.",
 ["riblt/sketch.go","riblt/decoder.go"],[("cell-wise subtraction","riblt/sketch.go:Subtract"),("one-shot decoding","riblt/sketch.go:Decode")],observe=["Decode results","the symbols of the caller"])
p("C29","Experiments run phase by phase on all listed servers and lose no failure",
 "The test-bed tool's exp command first opens an SSH connection to every server of the server list (with the listed user, port and key) and acts on none of them unless all succeed; a connection that fails is reported and ends it with a nonzero status, as does a list or topology file that cannot be read. Then it carries out the phases asked for in the order install, ping, run, download, every phase on all servers concurrently and complete on all of them before the next begins, and nothing that was not asked for. Install stops a running node before copying the given program to the server's txcode-node; ping prints for every link of the topology, once, half the mean round-trip time measured from its From to its To server; run stops a running node, turns the firewall off, selects BBR and starts one node in the background that writes log.txt, listens on the port that all servers of the run share, has exactly the topology's To servers of that server as peers and gets the remaining arguments in order; download stops the node before copying log.txt to PREFIX-INDEX, so the copy is complete. All copies go to the listed address and port. Every failed or incomplete action is printed with the index of its server, once per server and phase, no error is printed for a server where nothing failed, and a slow or failing server neither stops nor delays the others within a phase. This holds for every latency, schedule, refused or lost connection, failing or stalled remote command or copy, and interrupted and repeated command.",
 ["inputs","schedules","fault_sequences","histories"],"all server lists, topologies and phase combinations, all SSH and scp failures and delays, all interruptions",
 "No test; it needs SSH servers.",
 ["testbed/exp.go","testbed/sshutil.go","testbed/cluster.go"],[("phases and their barrier","testbed/exp.go:runAll"),("what is done per phase","testbed/exp.go:dispatchBwTest"),("stopping a node","testbed/exp.go:killServer"),("copies","testbed/exp.go:uploadFile")],observe=["SSH connections and remote commands","scp commands","printed lines and exit status"])
p("C30","LT block gossip never stalls once load and disturbances stop",
 "In the LT-code gossip (the block protocol of the simulator), with a decoder memory that covers the recent transactions and a threshold of at least one transaction, whatever the load, the topology, the link delays and the disturbances before: once they stop, a node that is owed enough transactions on a link for a block to be worth opening, and has no block open there, starts a block within a round trip (plus, in synchronised mode, a synchronisation period); every open block is reported received, and closed, after a number of codewords linear in its size; and no block stays open for ever.",
 ["inputs","schedules","fault_sequences","histories"],"all topologies, parameters, delays, stalls and load histories",
 "No test runs the simulator; a stall needs a rate or window at an edge value, or messages crossing at particular points.",
 ["simulator/node.go","simulator/main.go","lt/encoder.go","lt/decoder.go"],[("blocks start and end","simulator/node.go:sendCodewords"),("block reported received","simulator/node.go:HandleMessage")],observe=["messages between simulated nodes"])
p("C31","Simulated traffic obeys the topology file and the load parameters",
 "In both discrete-event simulators, whose results stand or fall with it: messages travel only between servers that the topology connects, each exactly the configured delay later, in both directions and in every design and mode; with -flood a server sends every transaction it generates to all its peers at once, and without never; every server generates transactions in bursts of exactly the configured size with exponential intervals whose mean gives the configured rate, one arrival pending at a time, independently of the other servers; and every transaction is stamped with the simulated time at which it was generated and is unique.",
 ["inputs","schedules","histories"],"all topologies, designs, modes, loads and seeds",
 "No test runs the simulators; a wrong delay or rate shifts the results without any error.",
 ["newsim/main.go","newsim/module.go","newsim/topology.go","newsim/types.go","simulator/module.go","simulator/topology.go","des/simulator.go"],[("arrivals","newsim/module.go:HandleMessage"),("links","newsim/main.go:main")],observe=["messages, their delivery times and their contents"])
p("C32","A node's own statistics report what really happened",
 "Once a second a node reports on its log how many transactions it generated; how many it recovered; for every connection the current codeword rate, how many codewords were dropped for want of queue space, how many codewords were received, and the median, 95th percentile and mean of the transit delay of those received since the previous report; and, from the first report after the warm-up time has elapsed, the number and the 5th, 50th and 95th percentile and mean of the latency (recovery time minus the generation time in the transaction) of all transactions recovered since then. Counts are exact, the rate is that of the control law, means are exact and quantiles have a relative error of at most 0.1 percent, up to rounding. This holds for every schedule, stall, backlog and lost connection, and for clocks that differ between nodes or jump (then delays may be negative); the warm-up follows elapsed time, not the wall clock.",
 ["inputs","schedules","fault_sequences","histories"],"all schedules, stalls, link conditions, clock offsets and jumps, and transaction histories",
 NT+"the measurements of the paper are taken from these lines, and nothing compares them with what the node did.",
 ["node/controller.go","node/receiver.go","node/sender.go","node/main.go"],[("recovered transactions and latency","node/controller.go:loop"),("arrivals and delays","node/receiver.go:decode"),("rate and drops","node/sender.go:loop"),("generated transactions","node/main.go:main")],observe=["log lines"])
p("C33","Cloud commands act on exactly the machines meant, every failure is reported",
 "The test-bed tool's cluster command asks the chosen provider for what the action means and nothing else. Without -y it does nothing unless the answer to its question is y or Y; start, stop and (Vultr) reboot are refused for an empty tag, and an unknown action or vendor is refused, with a nonzero status and without any request. Vultr start creates exactly the asked number of servers, with the given tag and the account's test-bed SSH key, startup script and operating system, at every location that offers the plan at the given price and whose name contains the -d text (ignoring case), Seoul excepted; stop deletes and reboot restarts exactly the servers with the tag that are neither pending, closed nor locked, mentioning those passed over, and stop prints how many servers remain in the account; status prints the counts of servers by state. AWS start runs exactly the asked number of instances, tagged, with the region's Ubuntu 20.04 amd64 image, the test-bed key and a security group that lets them be reached (both created when absent, including when an earlier attempt was cut short), in every enabled region whose name matches; stop terminates all running instances with the tag in all enabled regions and none without it; status lists the running ones. Regions are handled concurrently: a slow or failing region does not keep the others from being handled. -l writes the list (IDs, addresses, locations, tags, sorted by location and ID) completely or the command fails. A failing request that no retry makes good is never lost: for Vultr, and for the region list of AWS, the command prints it and ends with a nonzero status; for an AWS region its error is printed. No command hangs or crashes, whatever fails or is delayed and wherever an earlier command was interrupted.",
 ["inputs","schedules","fault_sequences","crash_points","histories"],"all account states, command lines, request failures, lost, delayed and damaged responses, full disks and interruptions",
 "No test; it needs AWS and Vultr accounts.",
 ["testbed/cluster.go","testbed/vultr.go","testbed/aws.go","testbed/sshutil.go"],[("dispatch, confirmation, list file","testbed/cluster.go:dispatchCluster"),("creation","testbed/vultr.go:StartServers"),("concurrent restart","testbed/vultr.go:RestartServers"),("per-region start","testbed/aws.go:AWSStartInstanceAtRegion"),("running instances","testbed/aws.go:AWSListServersAtRegion"),("image list shared by the regions","testbed/aws.go:AWSGetImageID")],observe=["requests to the providers","the server list file","printed lines and exit status"])
p("C34","Coding-based gossip fills its send window and never exceeds it",
 "On each link of the riblt-based gossip protocol (newsim, coding) the sending side always has a block open, from the first event it handles on, and controls what it has under way by the control overhead c it is configured with: the window of a block begins at c times the number of codewords acknowledged in the previous block (whether or not the acknowledgement reporting it decoded counts; at least 1) and grows by c with every codeword of the block acknowledged. After every event the codewords of the open block sent and not yet acknowledged fill the window (there are at least as many as it says) and do not exceed it (one fewer is less than it says), except that with the first codeword of a block the sender may send a burst of two thirds of the codewords acknowledged in the previous block, which the window has to outgrow before more are sent.",
 ["schedules","fault_sequences","histories","configurations"],"all in-order link timings, stalls, topologies, control overheads and traffic histories",
 "No test runs newsim; a wrong window slows reconciliation down or floods a link, and delivers everything all the same.",
 ["newsim/coding.go"],
 [("window filled after every event","newsim/coding.go:tryFillSendWindow"),("growth by acknowledgements","newsim/coding.go:onAck"),("start and burst of a block","newsim/coding.go:tryProduceCodeword")],
 observe=["messages exchanged on a link"])
p("C35","Nodes generate the load asked for, independently of each other",
 "A node started with -tx r generates transactions as a Poisson process of rate r from its start to its end (none for 0), whatever happens to its connections, as long as its threads are given time to run. Every transaction is stamped with the moment of its generation, in microseconds of the node's clock, and is otherwise random: all transactions of all nodes differ. The times at which a node generates, the contents it generates and the key it chooses for each connection are independent of those of every other node and of every earlier run of the same node, also if nodes have been started shortly after one another (within the same second, say, as the testbed does).",
 ["schedules","fault_sequences","histories","configurations"],"all networks of nodes, rates, start times, restarts, connection failures and clock jumps",
 "A test generates a few transactions in one process; that processes do not repeat each other shows only when several are started at nearly the same time, and a wrong rate or distribution only in long histories.",
 ["node/main.go","node/controller.go"],
 [("seeding","node/main.go:main"),("content and stamp","node/main.go:randomTransaction"),("generation times","node/main.go:main"),("key of a connection","node/controller.go:handleConn")],
 observe=["transactions generated","keys chosen"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
