package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aws/aws-sdk-go/aws/corehandlers"
	"github.com/aws/aws-sdk-go/aws/request"
	real "golang.org/x/crypto/ssh"

	"verif/harness/core"
	"verif/simrt"
)

// ---------------------------------------------------------------- plan

// VRegion is a location of the first provider.
type VRegion struct {
	ID   int    `json:"id"`
	Name string `json:"name"`
	Plan bool   `json:"plan"` // offers the plan
}

// VServer is a server of the first provider.
type VServer struct {
	Reg    int    `json:"reg"`
	Tag    string `json:"tag"`
	Status string `json:"status"`
	State  string `json:"state"`
}

// ARegion is a region of the second provider.
type ARegion struct {
	Name  string `json:"name"`
	Off   bool   `json:"off,omitempty"` // not opted in
	Key   bool   `json:"key,omitempty"`
	SG    bool   `json:"sg,omitempty"`
	Image bool   `json:"image,omitempty"`
}

// AInst is an instance of the second provider.
type AInst struct {
	Reg  int    `json:"reg"`
	Tag  string `json:"tag"` // "": not of the test bed
	Code int    `json:"code"`
	High int    `json:"high,omitempty"`
	NoIP bool   `json:"noip,omitempty"`
}

// CFault hits the n-th request of a kind.
type CFault struct {
	Reg  int    `json:"reg"` // second provider: region; -1: anything global
	Op   string `json:"op"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	K    int    `json:"k"` // so many times in a row
}

// CCmd is one invocation of the tool.
type CCmd struct {
	Vendor  string   `json:"vendor"`
	Action  string   `json:"action"`
	Tag     string   `json:"tag"`
	List    bool     `json:"list,omitempty"`
	Yes     bool     `json:"yes,omitempty"`
	Answer  string   `json:"answer,omitempty"`
	Price   float64  `json:"price"`
	Loc     string   `json:"loc,omitempty"`
	Count   int      `json:"count"`
	Disk    string   `json:"disk,omitempty"`
	Quota   int      `json:"quota,omitempty"`
	NoCreds bool     `json:"nocreds,omitempty"`
	Key     string   `json:"key,omitempty"` // the local key: "", missing, bad
	KillMs  int64    `json:"killms,omitempty"`
	Faults  []CFault `json:"faults"`
	Seed    int64    `json:"seed"`
}

// CCfg is a run of C33.
type CCfg struct {
	Run
	VRegs    []VRegion `json:"vregions"`
	VPrice   float64   `json:"vprice"`
	VMissing string    `json:"vmissing,omitempty"`
	VSrv     []VServer `json:"vservers"`
	ARegs    []ARegion `json:"aregions"`
	AInst    []AInst   `json:"ainstances"`
	Page     int       `json:"page"`
	LatMs    int64     `json:"lat"`
	Cmds     []CCmd    `json:"commands"`
	Seed     int64     `json:"seed"`
}

var (
	vNames = []string{"New Jersey", "Tokyo", "Seoul", "Amsterdam", "Silicon Valley", "Sao Paulo", "Seoul North", "new delhi"}
	aNames = []string{"us-east-1", "us-east-2", "us-west-2", "eu-north-1", "ap-northeast-1", "ap-northeast-3", "sa-east-1", "af-south-1", "ap-east-1"}
	vOps   = []string{"plans/list", "regions/list", "sshkey/list", "os/list", "startupscript/list", "server/list", "server/create", "server/destroy", "server/reboot"}
	aOps   = []string{"DescribeInstances", "TerminateInstances", "DescribeKeyPairs", "ImportKeyPair", "DescribeSecurityGroups", "CreateSecurityGroup", "AuthorizeSecurityGroupIngress", "DescribeVpcs", "RunInstances"}
	tags   = []string{"ouroboros", "pika", "x y&z", "Ouroboros"}
)

func genCloud(p *core.Plan, r *rand.Rand, big bool) {
	c := &CCfg{Seed: r.Int63n(1 << 40), Page: 1 + r.Intn(4), LatMs: pick(r, int64(0), 5, 50, 400)}
	p.Scenario = "cloud"
	c.Acc = pick(r, int64(0), 0, 1, 3, 10)
	c.Loop = pick(r, int64(0), 0, 1, 2)
	more := 1
	if big {
		more = 3
	}
	mode := pick(r, "vultr", "aws", "aws", "both")
	if mode != "aws" {
		for _, i := range r.Perm(len(vNames))[:1+r.Intn(len(vNames))] {
			c.VRegs = append(c.VRegs, VRegion{ID: 1 + i + 10*r.Intn(3), Name: vNames[i], Plan: r.Intn(4) > 0})
		}
		for k := r.Intn(8 * more); k > 0; k-- {
			c.VSrv = append(c.VSrv, VServer{Reg: r.Intn(len(c.VRegs)), Tag: pick(r, append(tags, "", "ouroboros", "ouroboros", "ouroboros2")...),
				Status: pick(r, "active", "active", "active", "active", "pending", "closed", "suspended"), State: pick(r, "ok", "ok", "ok", "installingbooting", "locked", "none")})
		}
		c.VPrice = pick(r, 80.0, 80.0, 80.0, 40, 5.5)
		c.VMissing = pick(r, "", "", "", "", "", "", "", "key", "os", "script", "plan")
	}
	if mode != "vultr" {
		for _, i := range r.Perm(len(aNames))[:1+r.Intn(min(len(aNames), 3+3*more))] {
			c.ARegs = append(c.ARegs, ARegion{Name: aNames[i], Off: r.Intn(5) == 0, Key: r.Intn(3) > 0, SG: r.Intn(3) > 0, Image: r.Intn(8) > 0})
		}
		for k := r.Intn(8 * more); k > 0; k-- {
			c.AInst = append(c.AInst, AInst{Reg: r.Intn(len(c.ARegs)), Tag: pick(r, append(tags, "", "ouroboros", "ouroboros", "ouroboros2")...), Code: pick(r, 16, 16, 16, 16, 0, 32, 48, 64, 80),
				High: pick(r, 0, 0, 1, 5), NoIP: r.Intn(8) == 0})
		}
	}
	c.Cmds = []CCmd{}
	for k := pick(r, 1, 1, 2, 2, 3, 4); k > 0; k-- {
		m := CCmd{Seed: r.Int63n(1 << 40), Vendor: mode, Tag: pick(r, "ouroboros", "ouroboros", "ouroboros", tags[r.Intn(len(tags))]), Price: 80, Count: pick(r, 1, 1, 2, 3, 5), Yes: r.Intn(4) > 0, List: r.Intn(2) == 0}
		if mode == "both" {
			m.Vendor = pick(r, "vultr", "aws")
		}
		m.Action = pick(r, "start", "stop", "reboot", "status", "status")
		if m.Vendor == "aws" {
			m.Action = pick(r, "start", "start", "stop", "status", "status")
		}
		if c.VPrice != 80 && r.Intn(4) > 0 {
			m.Price = c.VPrice
		}
		switch r.Intn(16) {
		case 0:
			m.Action = pick(r, "launch", "Start", "terminate", "", "reboot")
		case 1:
			m.Vendor = pick(r, "gcp", "AWS", "vultr2")
		case 2, 3:
			m.Tag = ""
		}
		if !m.Yes {
			m.Answer = pick(r, "y\n", "Y\n", "y", "n\n", "N\n", "yes\n", "\n", "", "yy\n", "q\n")
		}
		if r.Intn(2) == 0 {
			m.Loc = pick(r, "seoul", "NEW", "tokyo", "us", "US-EAST", "ap-northeast-1", "o", "nowhere", "e")
		}
		if m.List && r.Intn(6) == 0 {
			m.Disk = pick(r, "full", "full", "create", "close")
			m.Quota = pick(r, 0, 3, 150, 400)
		}
		m.NoCreds = m.Vendor == "aws" && r.Intn(14) == 0
		if r.Intn(10) == 0 {
			m.Key = pick(r, "missing", "bad")
		}
		if r.Intn(8) == 0 {
			m.KillMs = 1 + r.Int63n(1+8*c.LatMs)
		}
		for f := pick(r, 0, 0, 1, 1, 2, 3); f > 0; f-- {
			x := CFault{Reg: -1, N: pick(r, 0, 0, 0, 1, 2, 3), Kind: pick(r, "client", "client", "server", "server", "net", "net", "cut", "html", "slow", "lost"), K: pick(r, 1, 1, 2, 3, 4, 5, 9)}
			if m.Vendor == "vultr" {
				switch m.Action {
				case "start":
					x.Op = pick(r, "plans/list", "regions/list", "sshkey/list", "os/list", "startupscript/list", "server/create", "server/create", "server/create")
				case "stop":
					x.Op = pick(r, "server/list", "server/destroy", "server/destroy")
				case "reboot":
					x.Op = pick(r, "server/list", "server/reboot", "server/reboot")
				default:
					x.Op = "server/list"
				}
				if x.Op == "server/create" && x.Kind == "lost" {
					x.Kind = "net"
				}
			} else if len(c.ARegs) > 0 {
				x.Reg = r.Intn(len(c.ARegs))
				x.N = pick(r, 0, 0, 0, 1)
				switch m.Action {
				case "start":
					x.Op = pick(r, "DescribeKeyPairs", "ImportKeyPair", "DescribeSecurityGroups", "CreateSecurityGroup", "AuthorizeSecurityGroupIngress", "DescribeVpcs", "RunInstances", "RunInstances", "image", "image")
				case "stop":
					x.Op = pick(r, "DescribeInstances", "TerminateInstances")
				default:
					x.Op = "DescribeInstances"
				}
				if x.Op == "image" {
					x.Reg = -1
				}
				if r.Intn(8) == 0 {
					x.Reg, x.Op = -1, "DescribeRegions"
				}
			}
			m.Faults = append(m.Faults, x)
		}
		c.Cmds = append(c.Cmds, m)
	}
	p.Cfg, _ = json.Marshal(c)
}

func fixCloud(p *core.Plan) bool {
	var c CCfg
	if json.Unmarshal(p.Cfg, &c) != nil || len(c.Cmds) == 0 {
		return false
	}
	if c.Page < 1 {
		c.Page = 1
	}
	var vs []VServer
	for _, v := range c.VSrv {
		if v.Reg < len(c.VRegs) {
			vs = append(vs, v)
		}
	}
	c.VSrv = vs
	seen := map[int]bool{}
	for i := range c.VRegs {
		if seen[c.VRegs[i].ID] || c.VRegs[i].ID == 0 {
			return false
		}
		seen[c.VRegs[i].ID] = true
	}
	var as []AInst
	for _, v := range c.AInst {
		if v.Reg < len(c.ARegs) {
			as = append(as, v)
		}
	}
	c.AInst = as
	for i := range c.Cmds {
		m := &c.Cmds[i]
		if m.Count < 1 {
			m.Count = 1
		}
		var fs []CFault
		for _, f := range m.Faults {
			if f.Reg < len(c.ARegs) && f.K > 0 {
				fs = append(fs, f)
			}
		}
		m.Faults = fs
	}
	p.Cfg, _ = json.Marshal(&c)
	return true
}

// ---------------------------------------------------------------- providers

type vsrv struct {
	id, ip  string
	reg     int
	tag     string
	status  string
	state   string
	reboots int
	cmd     int // command that created it, -1: earlier
	key     string
	script  string
	os      string
	plan    string
	gone    bool
}

type ainst struct {
	id, priv, pub string
	reg           int
	tag           string
	code, high    int
	cmd           int
	image, key    string
	sg            []string
	data          string
	killed        bool // by the current command
}

type areg struct {
	c      ARegion
	keys   []string // names of the test bed's keys
	keyMat string
	sgs    []string
	open   map[string]bool // group lets everything in
	tokens map[string]bool
	other  []string // groups and keys of others
}

type attempt struct {
	task   *simrt.Task
	key    string
	op     string
	reg    int
	t0, t1 int64
	ok     bool
	fault  string
	marker string
	last   bool // not repeated
	open   bool // under way
	dup    bool // refused because it has been done
}

type cworld struct {
	s     *simrt.Sim
	c     *CCfg
	m     *CCmd
	cmd   int
	rng   *rand.Rand
	v     []*vsrv
	a     []*ainst
	ar    []*areg
	n     int
	count map[string]int
	used  map[int]int // faults consumed
	fly   map[string]int
	tries []*attempt
	req   int
}

func (w *cworld) bad(class, f string, a ...any) { w.s.Fail("C33", class, f, a...) }

var cloud *cworld

type transport struct{}

// setupCloud puts the simulated providers behind the clients.
func setupCloud() {
	http.DefaultTransport = transport{}
	http.DefaultClient = &http.Client{}
	old := corehandlers.AfterRetryHandler.Fn
	corehandlers.AfterRetryHandler.Fn = func(r *request.Request) {
		r.Config.SleepDelay = func(time.Duration) { simrt.Sleep(simDur(200e6)) }
		old(r)
	}
	f, err := os.CreateTemp("", "verif-cred")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	f.WriteString("[default]\naws_access_key_id = WRONG\naws_secret_access_key = wrong\n[pika]\naws_access_key_id = AKIDPIKA\naws_secret_access_key = pikasecret\n")
	credFile = f
}

var credFile *os.File

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	w := cloud
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	form, _ := url.ParseQuery(string(body))
	op, reg := "", -1
	host := r.URL.Hostname()
	switch {
	case host == "api.vultr.com":
		op = strings.TrimPrefix(r.URL.Path, "/v1/")
	case host == "cloud-images.ubuntu.com":
		op = "image"
	case strings.HasPrefix(host, "ec2.") && strings.HasSuffix(host, ".amazonaws.com"):
		op = form.Get("Action")
		name := strings.TrimSuffix(strings.TrimPrefix(host, "ec2."), ".amazonaws.com")
		if op != "DescribeRegions" {
			for i, x := range w.c.ARegs {
				if x.Name == name {
					reg = i
				}
			}
			if reg < 0 {
				w.bad("wrong-region", "%s is asked of region %q, which does not exist", op, name)
				return nil, errors.New("no such host")
			}
		}
	default:
		w.bad("wrong-host", "the tool talks to %s", host)
		return nil, errors.New("no such host")
	}
	w.req++
	k := form
	k.Del("ClientToken")
	at := &attempt{task: w.s.Cur(), key: host + " " + op + " " + r.URL.RawQuery + " " + form.Encode(), op: op, reg: reg, t0: w.s.Now(), marker: fmt.Sprintf("req-%d-%d", w.cmd, w.req), open: true}
	form, _ = url.ParseQuery(string(body))
	// the position of a request is that of its first attempt
	again := false
	for i := len(w.tries) - 1; i >= 0; i-- {
		if p := w.tries[i]; p.task == at.task {
			again = p.key == at.key && !p.ok
			break
		}
	}
	ck := fmt.Sprint(op, " ", reg)
	if !again {
		w.count[ck]++
	}
	n := w.count[ck] - 1
	for i, f := range w.m.Faults {
		if f.Op == op && f.Reg == reg && f.N == n && w.used[i] < f.K {
			w.used[i]++
			at.fault = f.Kind
			w.s.FaultN["cloud_"+f.Kind]++
		}
	}
	w.tries = append(w.tries, at)
	rname := ""
	if reg >= 0 {
		rname = w.c.ARegs[reg].Name
	}
	if w.s.TraceOn {
		w.s.Tracef("request %d: %s %s %s %s %s", w.req, op, rname, r.URL.RawQuery, k.Encode(), at.fault)
	}
	w.s.Note("request "+op+" "+at.fault, int64(reg), int64(n))
	lat := func() {
		if w.c.LatMs > 0 {
			simrt.Sleep(simDur(w.c.LatMs*500e3 + w.rng.Int63n(w.c.LatMs*500e3)))
		} else {
			simrt.Gosched()
		}
	}
	fail := func(e error) (*http.Response, error) {
		at.t1, at.open = w.s.Now(), false
		return nil, e
	}
	lat()
	if at.fault == "slow" {
		simrt.Sleep(simDur(300 * sec))
	}
	if at.fault == "net" {
		return fail(&net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused " + at.marker)})
	}
	status, text := 200, ""
	aws := reg >= 0 || op == "DescribeRegions"
	switch at.fault {
	case "client":
		status, text = 412, "Unable to serve this request: "+at.marker
		if aws {
			status, text = 400, awsError("UnauthorizedOperation", "You are not authorized to perform this operation", at.marker)
		}
	case "server":
		status, text = 503, "Service unavailable: "+at.marker
		if aws {
			text = awsError("Unavailable", "The service is unavailable", at.marker)
		}
	default:
		switch {
		case op == "image":
			text = w.images()
		case aws:
			status, text = w.ec2(op, reg, form, at.marker)
			at.dup = (at.fault == "" || at.fault == "slow") && strings.Contains(text, "InvalidPermission.Duplicate")
		default:
			status, text = w.vultr(op, r, form, at.marker)
		}
	}
	lat()
	if at.fault == "lost" {
		return fail(&net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer " + at.marker)})
	}
	at.t1, at.open = w.s.Now(), false
	at.ok = status == 200
	h := http.Header{"Content-Type": {"text/xml"}}
	var rd io.Reader = strings.NewReader(text)
	switch at.fault {
	case "html":
		at.ok = at.ok && (op == "server/destroy" || op == "server/reboot") // the answer is not looked at
		rd = strings.NewReader("<html><body>Sign in to the hotel network " + at.marker + "</body>")
	case "cut":
		at.ok = false
		rd = io.MultiReader(strings.NewReader(text[:len(text)/2]), badReader{errors.New("unexpected EOF " + at.marker)})
	}
	if w.s.TraceOn {
		w.s.Tracef("request %d: %d %s", w.req, status, strings.ReplaceAll(text, "\n", " "))
	}
	return &http.Response{Status: strconv.Itoa(status) + " " + http.StatusText(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(rd), ContentLength: -1, Request: r}, nil
}

type badReader struct{ err error }

func (b badReader) Read([]byte) (int, error) { return 0, b.err }

func awsError(code, msg, marker string) string {
	return fmt.Sprintf(`<?xml version="1.0" encoding="UTF-8"?><Response><Errors><Error><Code>%s</Code><Message>%s</Message></Error></Errors><RequestID>%s</RequestID></Response>`, code, msg, marker)
}

func (w *cworld) serial() int { w.n++; return w.n }

// eligible tells whether the tool may stop or restart the server.
func (v *vsrv) eligible() bool {
	return !v.gone && v.status != "pending" && v.status != "closed" && v.state != "locked"
}

func (w *cworld) vultr(op string, r *http.Request, form url.Values, marker string) (int, string) {
	if op != "plans/list" && op != "regions/list" && op != "os/list" && r.Header.Get("API-Key") != "vultrkey" {
		w.bad("wrong-key", "%s is asked with API key %q", op, r.Header.Get("API-Key"))
		return 403, "Invalid API key. " + marker
	}
	enc := func(m map[string]any) (int, string) {
		if len(m) == 0 {
			return 200, "[]"
		}
		b, _ := json.Marshal(m)
		return 200, string(b)
	}
	m := map[string]any{}
	switch op {
	case "plans/list":
		var with []int
		for _, x := range w.c.VRegs {
			if x.Plan {
				with = append(with, x.ID)
			}
		}
		plan := func(id int, price float64, regs []int) {
			if regs == nil {
				regs = []int{}
			}
			m[strconv.Itoa(id)] = map[string]any{"VPSPLANID": strconv.Itoa(id), "name": "plan", "vcpu_count": "4", "ram": "8192", "disk": "100", "bandwidth": "4.00", "bandwidth_gb": "4096", "price_per_month": fmt.Sprintf("%.2f", price), "windows": false, "plan_type": "HIGHFREQUENCY", "available_locations": regs}
		}
		var all []int
		for _, x := range w.c.VRegs {
			all = append(all, x.ID)
		}
		if w.c.VMissing != "plan" {
			plan(523, w.c.VPrice, with)
		}
		plan(204, w.c.VPrice, all)
		plan(115, 720, all)
		return enc(m)
	case "regions/list":
		for _, x := range w.c.VRegs {
			m[strconv.Itoa(x.ID)] = map[string]any{"DCID": strconv.Itoa(x.ID), "name": x.Name, "country": "XX", "continent": "C", "state": "", "ddos_protection": false, "block_storage": false, "regioncode": "R"}
		}
		return enc(m)
	case "sshkey/list":
		add := func(id, name string) {
			m[id] = map[string]any{"SSHKEYID": id, "name": name, "ssh_key": "ssh-ed25519 AAAA", "date_created": nil}
		}
		add("k-other", "laptop")
		if w.c.VMissing != "key" {
			add("k-testbed", "macOS Testbed")
		}
		return enc(m)
	case "os/list":
		add := func(id int, name string) {
			m[strconv.Itoa(id)] = map[string]any{"OSID": id, "name": name, "arch": "x64", "family": "ubuntu", "windows": false}
		}
		add(387, "Ubuntu 20.04 x64")
		if w.c.VMissing != "os" {
			add(1743, "Ubuntu 22.04 x64")
		}
		add(124, "Windows 2012 R2 Standard x64")
		return enc(m)
	case "startupscript/list":
		add := func(id, name string) {
			m[id] = map[string]any{"SCRIPTID": id, "date_created": "2020", "date_modified": "2020", "name": name, "type": "boot", "script": "#!/bin/sh"}
		}
		add("7", "hello")
		if w.c.VMissing != "script" {
			add("912", "increase-sshmaxsessions")
		}
		return enc(m)
	case "server/list":
		q := r.URL.Query()
		for _, v := range w.v {
			if v.gone || q.Has("tag") && v.tag != q.Get("tag") {
				continue
			}
			m[v.id] = map[string]any{"SUBID": v.id, "os": v.os, "ram": "8192 MB", "disk": "Virtual 100 GB", "main_ip": v.ip, "vcpu_count": "4", "location": w.c.VRegs[v.reg].Name, "DCID": strconv.Itoa(w.c.VRegs[v.reg].ID), "default_password": "x", "date_created": "2020", "pending_charges": "0.1", "status": v.status, "cost_per_month": "80.00", "current_bandwidth_gb": 1.5, "allowed_bandwidth_gb": "4096", "netmask_v4": "255.255.254.0", "gateway_v4": "1.1.1.1", "power_status": "running", "server_state": v.state, "VPSPLANID": "523", "v6_networks": []any{}, "label": "", "internal_ip": "", "kvm_url": "", "auto_backups": "no", "tag": v.tag, "OSID": "1743", "APPID": "0", "FIREWALLGROUPID": "0"}
		}
		return enc(m)
	case "server/create":
		reg := -1
		for i, x := range w.c.VRegs {
			if strconv.Itoa(x.ID) == form.Get("DCID") {
				reg = i
			}
		}
		if reg < 0 || form.Get("VPSPLANID") == "523" && !w.c.VRegs[reg].Plan {
			w.bad("wrong-region", "a server is created in location %q, which does not offer the plan", form.Get("DCID"))
			return 412, "Invalid location " + marker
		}
		v := &vsrv{id: fmt.Sprint(90000000 + w.serial()*37%1000*1000 + w.n), reg: reg, tag: form.Get("tag"), status: "pending", state: "none", cmd: w.cmd, key: form.Get("SSHKEYID"), script: form.Get("SCRIPTID"), os: form.Get("OSID"), plan: form.Get("VPSPLANID")}
		v.ip = fmt.Sprintf("45.0.%d.%d", w.n/250, w.n%250+1)
		w.v = append(w.v, v)
		b, _ := json.Marshal(map[string]string{"SUBID": v.id})
		return 200, string(b)
	case "server/destroy", "server/reboot":
		for _, v := range w.v {
			if v.id == form.Get("SUBID") && !v.gone {
				if w.m.Action == "stop" && op != "server/destroy" || w.m.Action == "reboot" && op != "server/reboot" || w.m.Action != "stop" && w.m.Action != "reboot" {
					w.bad("unasked", "%s of server %s during %s", op, v.id, w.m.Action)
				}
				if v.tag != w.m.Tag {
					w.bad("wrong-server", "%s of server %s, whose tag is %q", op, v.id, v.tag)
				} else if !v.eligible() {
					w.bad("wrong-server", "%s of server %s, which is %s and %s", op, v.id, v.status, v.state)
				}
				if op == "server/destroy" {
					v.gone = true
				} else {
					v.reboots++
				}
				return 200, ""
			}
		}
		return 412, "Unable to find subscription " + form.Get("SUBID") + " " + marker
	}
	return 404, "Invalid API method " + marker
}

func imageOf(region, release, arch string) string {
	h := uint32(2166136261)
	for _, b := range []byte(region + release + arch) {
		h = (h ^ uint32(b)) * 16777619
	}
	return fmt.Sprintf("ami-0%08x", h)
}

// images is the list of the published images of all regions.
func (w *cworld) images() string {
	var b strings.Builder
	b.WriteString("{\n  \"aaData\": [\n")
	row := func(region, release, version, arch string) {
		id := imageOf(region, release, arch)
		fmt.Fprintf(&b, "[\"%s\",\"%s\",\"%s\",\"%s\",\"hvm:ebs-ssd\",\"20220419\",\"<a href=\\\"https://console.aws.amazon.com/ec2/home?region=%s#launchAmi=%s\\\">%s</a>\",\"hvm\"],\n", region, release, version, arch, region, id, id)
	}
	for _, x := range w.c.ARegs {
		row(x.Name, "jammy", "22.04 LTS", "amd64")
		row(x.Name, "focal", "20.04 LTS", "arm64")
		if x.Image {
			row(x.Name, "focal", "20.04 LTS", "amd64")
		}
		row(x.Name, "bionic", "18.04 LTS", "amd64")
	}
	row("me-south-1", "focal", "20.04 LTS", "amd64")
	b.WriteString("  ]\n}\n")
	return b.String()
}

// filters reads the filters of a query.
func filters(form url.Values) map[string][]string {
	m := map[string][]string{}
	for i := 1; ; i++ {
		n := form.Get(fmt.Sprintf("Filter.%d.Name", i))
		if n == "" {
			return m
		}
		for j := 1; ; j++ {
			v, ok := form[fmt.Sprintf("Filter.%d.Value.%d", i, j)]
			if !ok {
				break
			}
			m[n] = append(m[n], v[0])
		}
	}
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (w *cworld) ec2(op string, reg int, form url.Values, marker string) (int, string) {
	wrap := func(f string, a ...any) (int, string) {
		return 200, fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\"?><%sResponse xmlns=\"http://ec2.amazonaws.com/doc/2016-11-15/\"><requestId>%s</requestId>%s</%sResponse>", op, marker, fmt.Sprintf(f, a...), op)
	}
	errf := func(code, f string, a ...any) (int, string) {
		return 400, awsError(code, fmt.Sprintf(f, a...), marker)
	}
	fl := filters(form)
	if op == "DescribeRegions" {
		s := ""
		for _, x := range w.c.ARegs {
			st := "opt-in-not-required"
			if x.Name == "af-south-1" || x.Name == "ap-east-1" {
				st = "opted-in"
			}
			if x.Off {
				st = "not-opted-in"
			}
			if f, ok := fl["opt-in-status"]; ok && !has(f, st) || form.Get("AllRegions") != "true" && x.Off {
				continue
			}
			s += fmt.Sprintf("<item><regionName>%s</regionName><regionEndpoint>ec2.%s.amazonaws.com</regionEndpoint><optInStatus>%s</optInStatus></item>", x.Name, x.Name, st)
		}
		return wrap("<regionInfo>%s</regionInfo>", s)
	}
	a := w.ar[reg]
	if a.c.Off {
		w.bad("wrong-region", "%s is asked of region %s, which the account has not enabled", op, a.c.Name)
		return errf("AuthFailure", "AWS was not able to validate the provided access credentials")
	}
	changes := map[string]string{"TerminateInstances": "stop", "ImportKeyPair": "start", "CreateSecurityGroup": "start", "AuthorizeSecurityGroupIngress": "start", "RunInstances": "start"}
	if x, ok := changes[op]; ok && x != w.m.Action {
		w.bad("unasked", "%s in %s during %s", op, a.c.Name, w.m.Action)
	}
	if w.m.Action == "start" && !match(a.c.Name, w.m.Loc) {
		w.bad("wrong-region", "%s in %s, which does not match %q", op, a.c.Name, w.m.Loc)
	}
	switch op {
	case "DescribeInstances":
		// pages are cut before filtering: one may be empty and not the last
		var all []*ainst
		for _, x := range w.a {
			if x.reg == reg {
				all = append(all, x)
			}
		}
		at := 0
		if t := form.Get("NextToken"); t != "" {
			n, err := strconv.Atoi(strings.TrimPrefix(t, "page-"))
			if err != nil || n > len(all) {
				return errf("InvalidNextToken", "bad token")
			}
			at = n
		}
		end := min(len(all), at+w.c.Page)
		var l []*ainst
		for _, x := range all[at:end] {
			ok := true
			for n, vs := range fl {
				switch n {
				case "tag:pika":
					ok = ok && x.tag != "" && has(vs, x.tag)
				case "tag-key":
					ok = ok && x.tag != "" && has(vs, "pika")
				case "instance-state-name":
					ok = ok && has(vs, stateName[x.code])
				case "instance-state-code":
					ok = ok && (has(vs, strconv.Itoa(x.code)) || has(vs, strconv.Itoa(x.code|x.high<<8)))
				default:
					w.bad("query", "unknown filter %q", n)
				}
			}
			if ok {
				l = append(l, x)
			}
		}
		s := ""
		for i := 0; i < len(l); {
			s += fmt.Sprintf("<item><reservationId>r-%d</reservationId><ownerId>1</ownerId><groupSet/><instancesSet>", i)
			for k := 1 + (at+i)%3; k > 0 && i < len(l); k-- {
				s += instXML(l[i])
				i++
			}
			s += "</instancesSet></item>"
		}
		next := ""
		if end < len(all) {
			next = fmt.Sprintf("<nextToken>page-%d</nextToken>", end)
		}
		return wrap("<reservationSet>%s</reservationSet>%s", s, next)
	case "TerminateInstances":
		var l []*ainst
		for i := 1; ; i++ {
			id := form.Get(fmt.Sprintf("InstanceId.%d", i))
			if id == "" {
				break
			}
			var f *ainst
			for _, x := range w.a {
				if x.id == id && x.reg == reg {
					f = x
				}
			}
			if f == nil {
				return errf("InvalidInstanceID.NotFound", "The instance ID '%s' does not exist", id)
			}
			if f.tag != w.m.Tag {
				w.bad("wrong-server", "instance %s in %s is terminated, its tag is %q", id, a.c.Name, f.tag)
			}
			l = append(l, f)
		}
		if len(l) == 0 {
			return errf("MissingParameter", "The request must contain the parameter InstanceIds")
		}
		s := ""
		for _, x := range l {
			if x.code != 48 {
				x.code = 32
			}
			x.killed = true
			s += "<item><instanceId>" + x.id + "</instanceId></item>"
		}
		return wrap("<instancesSet>%s</instancesSet>", s)
	case "DescribeKeyPairs":
		s := ""
		f, ok := fl["tag-key"]
		if !ok || has(f, "pika2") {
			for _, k := range a.keys {
				s += "<item><keyPairId>key-1</keyPairId><keyName>" + k + "</keyName></item>"
			}
		}
		if !ok {
			s += "<item><keyPairId>key-9</keyPairId><keyName>somebody</keyName></item>"
		}
		return wrap("<keySet>%s</keySet>", s)
	case "ImportKeyPair":
		n := form.Get("KeyName")
		if has(a.keys, n) {
			return errf("InvalidKeyPair.Duplicate", "The keypair '%s' already exists.", n)
		}
		raw, _ := base64.StdEncoding.DecodeString(form.Get("PublicKeyMaterial"))
		if pk, _, _, _, err := real.ParseAuthorizedKey(raw); err != nil || !bytes.Equal(pk.Marshal(), keyPub[0].Marshal()) {
			w.bad("wrong-ssh-key", "the key uploaded to %s is %q", a.c.Name, raw)
			return errf("InvalidKey.Format", "Key is not in valid OpenSSH public key format")
		}
		if form.Get("TagSpecification.1.Tag.1.Key") != "pika2" {
			w.bad("untagged", "the key uploaded to %s has no tag by which it could be found again: %v", a.c.Name, form)
		}
		a.keys = append(a.keys, n)
		return wrap("<keyName>%s</keyName><keyFingerprint>00</keyFingerprint>", n)
	case "DescribeSecurityGroups":
		s := ""
		f, ok := fl["tag-key"]
		if !ok || has(f, "pika") {
			for _, k := range a.sgs {
				s += "<item><groupId>" + k + "</groupId><groupName>pika-allow-all</groupName></item>"
			}
		}
		if !ok {
			s = "<item><groupId>sg-default</groupId><groupName>default</groupName></item>" + s
		}
		return wrap("<securityGroupInfo>%s</securityGroupInfo>", s)
	case "DescribeVpcs":
		return wrap("<vpcSet><item><vpcId>vpc-%d</vpcId></item></vpcSet>", reg)
	case "CreateSecurityGroup":
		if form.Get("VpcId") != fmt.Sprintf("vpc-%d", reg) {
			return errf("InvalidVpcID.NotFound", "The vpc ID '%s' does not exist", form.Get("VpcId"))
		}
		if len(a.sgs) > 0 {
			return errf("InvalidGroup.Duplicate", "The security group '%s' already exists", form.Get("GroupName"))
		}
		if form.Get("TagSpecification.1.Tag.1.Key") != "pika" {
			w.bad("untagged", "the security group created in %s has no tag by which it could be found again: %v", a.c.Name, form)
		}
		id := fmt.Sprintf("sg-%d", w.serial())
		a.sgs = append(a.sgs, id)
		return wrap("<groupId>%s</groupId>", id)
	case "AuthorizeSecurityGroupIngress":
		id := form.Get("GroupId")
		if !has(a.sgs, id) {
			return errf("InvalidGroup.NotFound", "The security group '%s' does not exist", id)
		}
		if a.open[id] {
			return errf("InvalidPermission.Duplicate", "the specified rule already exists")
		}
		if form.Get("IpPermissions.1.IpProtocol") != "-1" || form.Get("IpPermissions.1.IpRanges.1.CidrIp") != "0.0.0.0/0" {
			w.bad("group-rules", "the security group of %s is given the rules %v", a.c.Name, form)
		}
		a.open[id] = true
		return wrap("<return>true</return>")
	case "RunInstances":
		tok := form.Get("ClientToken")
		if tok != "" && a.tokens[tok] {
			return wrap("<reservationId>r-again</reservationId><instancesSet/>")
		}
		img := form.Get("ImageId")
		if img == "" {
			return errf("MissingParameter", "The request must contain the parameter ImageId")
		}
		lo, _ := strconv.Atoi(form.Get("MinCount"))
		n, _ := strconv.Atoi(form.Get("MaxCount"))
		if lo < 1 || n < lo {
			return errf("InvalidParameterValue", "bad count")
		}
		var sg []string
		for i := 1; form.Get(fmt.Sprintf("SecurityGroupId.%d", i)) != ""; i++ {
			sg = append(sg, form.Get(fmt.Sprintf("SecurityGroupId.%d", i)))
		}
		tag := ""
		for i := 1; form.Get(fmt.Sprintf("TagSpecification.%d.ResourceType", i)) != ""; i++ {
			for j := 1; form.Get(fmt.Sprintf("TagSpecification.%d.Tag.%d.Key", i, j)) != ""; j++ {
				if form.Get(fmt.Sprintf("TagSpecification.%d.ResourceType", i)) == "instance" && form.Get(fmt.Sprintf("TagSpecification.%d.Tag.%d.Key", i, j)) == "pika" {
					tag = form.Get(fmt.Sprintf("TagSpecification.%d.Tag.%d.Value", i, j))
				}
			}
		}
		data, _ := base64.StdEncoding.DecodeString(form.Get("UserData"))
		s := ""
		for k := 0; k < n; k++ {
			x := w.newInst(reg, tag, w.cmd)
			x.image, x.key, x.sg, x.data = img, form.Get("KeyName"), sg, string(data)
			s += instXML(x)
		}
		if tok != "" {
			a.tokens[tok] = true
		}
		return wrap("<reservationId>r-new</reservationId><instancesSet>%s</instancesSet>", s)
	}
	w.bad("query", "unknown action %q", op)
	return errf("InvalidAction", "unknown")
}

var stateName = map[int]string{0: "pending", 16: "running", 32: "shutting-down", 48: "terminated", 64: "stopping", 80: "stopped"}

func (w *cworld) newInst(reg int, tag string, cmd int) *ainst {
	k := w.serial()
	x := &ainst{id: fmt.Sprintf("i-0%04x%04d", k*7919%65536, k), reg: reg, tag: tag, cmd: cmd, priv: fmt.Sprintf("172.31.%d.%d", k/250, k%250+1), pub: fmt.Sprintf("3.8.%d.%d", k/250, k%250+1)}
	w.a = append(w.a, x)
	return x
}

func instXML(x *ainst) string {
	ip := ""
	if x.pub != "" {
		ip = "<ipAddress>" + x.pub + "</ipAddress>"
	}
	pr := ""
	if x.code != 48 {
		pr = "<privateIpAddress>" + x.priv + "</privateIpAddress>"
	} else {
		ip = ""
	}
	return fmt.Sprintf("<item><instanceId>%s</instanceId><instanceState><code>%d</code><name>%s</name></instanceState>%s%s</item>", x.id, x.code|x.high<<8, stateName[x.code], pr, ip)
}

func match(name, q string) bool {
	return strings.Contains(strings.ToLower(name), strings.ToLower(q))
}

// ---------------------------------------------------------------- run and judge

const awsKeyFile = "/Users/leiy/.ssh/pikaaws"

func execCloud(s *simrt.Sim, p *core.Plan, res *core.Result) {
	var c CCfg
	if err := json.Unmarshal(p.Cfg, &c); err != nil {
		res.Err = err.Error()
		return
	}
	s.AccEvery, s.LoopEvery = c.Acc, c.Loop
	w := &cworld{s: s, c: &c, rng: rand.New(rand.NewSource(c.Seed))}
	cloud = w
	for _, v := range c.VSrv {
		k := w.serial()
		w.v = append(w.v, &vsrv{id: fmt.Sprint(10000000 + k*7919%1000*100000 + k), ip: fmt.Sprintf("45.0.%d.%d", k/250, k%250+1), reg: v.Reg, tag: v.Tag, status: v.Status, state: v.State, cmd: -1})
	}
	for _, a := range c.ARegs {
		x := &areg{c: a, open: map[string]bool{}, tokens: map[string]bool{}}
		if a.Key {
			x.keys = []string{"pikabarrow2"}
		}
		if a.SG {
			x.sgs = []string{"sg-" + a.Name}
			x.open[x.sgs[0]] = true
		}
		w.ar = append(w.ar, x)
	}
	for _, i := range c.AInst {
		x := w.newInst(i.Reg, i.Tag, -1)
		x.code, x.high = i.Code, i.High
		if i.NoIP {
			x.pub = ""
		}
	}
	op := &operator{s: s, prop: "C33", files: map[string]*simrt.MemFile{}}
	acted := false
	for i := range c.Cmds {
		m := &c.Cmds[i]
		w.m, w.cmd = m, i
		w.count, w.used, w.tries = map[string]int{}, map[int]int{}, nil
		for _, x := range w.a {
			x.killed = false
		}
		for _, v := range w.v {
			v.reboots = 0
		}
		switch m.Key {
		case "missing":
			delete(op.files, awsKeyFile)
		case "bad":
			op.files[awsKeyFile] = &simrt.MemFile{Data: []byte("-----BEGIN nothing")}
		default:
			op.files[awsKeyFile] = &simrt.MemFile{Data: keyPEM[0]}
		}
		os.Setenv("AWS_SHARED_CREDENTIALS_FILE", fmt.Sprintf("/proc/self/fd/%d", credFile.Fd()))
		if m.NoCreds {
			os.Setenv("AWS_SHARED_CREDENTIALS_FILE", "/nonexistent/credentials")
		}
		disk := &simrt.Disk{}
		switch m.Disk {
		case "full":
			disk.Full, disk.Quota = true, m.Quota
		case "create":
			disk.NoCreate = true
		case "close":
			disk.BadClose = true
		}
		flags := [][]string{{"-t", m.Tag}, {"-vendor", m.Vendor}}
		if m.Tag == "ouroboros" && m.Seed%3 == 0 {
			flags = flags[1:]
		}
		if m.List {
			flags = append(flags, []string{"-l", "list.json"})
		}
		if m.Yes {
			flags = append(flags, []string{"-y"})
		}
		if m.Price != 80 {
			flags = append(flags, []string{"-p", fmt.Sprint(m.Price)})
		}
		if m.Loc != "" {
			flags = append(flags, []string{"-d", m.Loc})
		}
		if m.Count != 1 {
			flags = append(flags, []string{"-n", strconv.Itoa(m.Count)})
		}
		rr := rand.New(rand.NewSource(m.Seed))
		rr.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
		args := []string{"cluster", m.Action}
		for _, f := range flags {
			args = append(args, f...)
		}
		var before []byte
		if f := op.files["list.json"]; f != nil {
			before = f.Data
		}
		// what is there when the command starts
		var targets []*vsrv
		for _, v := range w.v {
			if v.tag == m.Tag && !v.gone {
				targets = append(targets, v)
			}
		}
		var running []*ainst
		for _, x := range w.a {
			if x.code == 16 && x.tag != "" && (m.Tag == "" || x.tag == m.Tag) && !w.c.ARegs[x.reg].Off {
				running = append(running, x)
			}
		}
		s.Note("command", int64(i), 0)
		r := op.command(args, m.Seed, m.Answer, disk, m.KillMs*1e6)
		s.Probe("commands")
		if s.Violation != nil || s.StopWhy == "steps" {
			return
		}
		for k, t := range w.tries {
			t.last = true
			for _, u := range w.tries[k+1:] {
				if u.task == t.task {
					t.last = u.key != t.key || t.ok
					break
				}
			}
		}
		w.judge(r, op, before, targets, running)
		if s.Violation != nil {
			return
		}
		if len(w.tries) > 1 {
			acted = true
		}
		// time passes: new machines come up
		for _, v := range w.v {
			if v.cmd == i {
				v.status, v.state = "active", "ok"
			}
		}
		for _, x := range w.a {
			if x.code == 32 {
				x.code = 48
			}
			if x.cmd == i && x.code == 0 {
				x.code = 16
			}
		}
	}
	res.NonTrivial = acted
}

type fileLine struct {
	ID, PublicIP, PrivateIP string
	Port                    int
	User, KeyPath           string
	Location, Tag, Provider string
}

var reCount = regexp.MustCompile(`(\d+) total, (\d+) active \((\d+) ok, (\d+) installing\), (\d+) pending`)
var reRemain = regexp.MustCompile(`(\d+) servers? remaining`)

func (w *cworld) judge(r *outcome, op *operator, before []byte, targets []*vsrv, running []*ainst) {
	m := w.m
	out := r.out
	destr := m.Action == "start" || m.Action == "stop" || m.Action == "reboot" && m.Vendor == "vultr"
	valid := (m.Vendor == "vultr" || m.Vendor == "aws") && (destr || m.Action == "status")
	if w.safety(); w.s.Violation != nil {
		return
	}
	if !valid || destr && m.Tag == "" {
		if r.killed {
			return
		}
		if r.ok() || len(w.tries) > 0 || strings.TrimSpace(out) == "" {
			w.bad("bad-input", "cluster %s -vendor %s -t %q is refused neither by the exit status (%d) nor by inaction (%d requests): %q", m.Action, m.Vendor, m.Tag, r.p.Code, len(w.tries), out)
		}
		w.s.Probe("refused")
		return
	}
	answer, _, _ := strings.Cut(m.Answer, "\n")
	if destr && !m.Yes && answer != "y" && answer != "Y" {
		if len(w.tries) > 0 {
			w.bad("unconfirmed", "%s was answered with %q, yet the tool sent %d requests", m.Action, m.Answer, len(w.tries))
		} else if !r.killed && strings.TrimSpace(out) == "" {
			w.bad("unconfirmed", "the tool says nothing")
		}
		w.s.Probe("unconfirmed")
		return
	}
	if r.killed {
		return
	}
	var failed []*attempt
	for _, t := range w.tries {
		if t.open {
			// the tool ended because of another failure
			if r.ok() {
				w.bad("abandoned", "the tool ends with status 0 while %s is under way", t.op)
				return
			}
			continue
		}
		if t.op == "AuthorizeSecurityGroupIngress" && t.dup {
			continue // the rule is there already
		}
		if !t.ok && t.last {
			failed = append(failed, t)
		}
	}
	wrote := strings.Contains(strings.ToLower(out), "written")
	if m.List && m.Disk != "" {
		if r.p.FS.Errs > 0 && (r.ok() || wrote) {
			w.bad("list-lost", "the server list could not be written (%s), the tool exits %d and says %q", m.Disk, r.p.Code, out)
			return
		}
		if r.p.FS.Errs > 0 {
			w.s.Probe("list_not_written")
			if r.p.Code != 0 {
				failed = append(failed, &attempt{op: "disk"})
			}
		}
	}
	if m.Vendor == "vultr" {
		w.judgeVultr(r, op, failed, targets)
	} else {
		w.judgeAWS(r, op, failed, running)
	}
	if w.s.Violation == nil {
		w.s.Probe("judged_" + m.Vendor + "_" + m.Action)
	}
}

// safety checks what was created, however the command ended.
func (w *cworld) safety() {
	m := w.m
	per := map[int]int{}
	for _, v := range w.v {
		if v.cmd != w.cmd {
			continue
		}
		if m.Action != "start" || m.Vendor != "vultr" {
			w.bad("unasked", "a server is created by %s -vendor %s", m.Action, m.Vendor)
			return
		}
		n := w.c.VRegs[v.reg].Name
		if strings.EqualFold(n, "seoul") || !match(n, m.Loc) {
			w.bad("wrong-region", "a server is created in %s (asked for %q)", n, m.Loc)
			return
		}
		if v.tag != m.Tag || v.key != "k-testbed" || v.script != "912" || v.os != "1743" || v.plan != "523" || m.Price != w.c.VPrice {
			w.bad("wrong-server", "a server is created with tag %q key %q script %q os %q plan %q (price %v), asked for tag %q, price %v", v.tag, v.key, v.script, v.os, v.plan, w.c.VPrice, m.Tag, m.Price)
			return
		}
		per[v.reg]++
	}
	for k := range w.c.VRegs {
		if per[k] > m.Count {
			w.bad("too-many", "%d servers are created in %s, %d were asked for", per[k], w.c.VRegs[k].Name, m.Count)
			return
		}
	}
	per = map[int]int{}
	for _, x := range w.a {
		if x.cmd != w.cmd {
			continue
		}
		a := w.ar[x.reg]
		n := a.c.Name
		if m.Action != "start" || m.Vendor != "aws" {
			w.bad("unasked", "an instance is created by %s -vendor %s", m.Action, m.Vendor)
			return
		}
		if x.tag != m.Tag || x.image != imageOf(n, "focal", "amd64") || !has(a.keys, x.key) || !strings.Contains(x.data, "MaxSessions") {
			w.bad("wrong-server", "an instance is created in %s with tag %q (asked for %q), image %s, key %q, user data %q", n, x.tag, m.Tag, x.image, x.key, x.data)
			return
		}
		open := false
		for _, g := range x.sg {
			open = open || a.open[g]
		}
		if !open {
			w.bad("unreachable", "an instance is created in %s in the security groups %v, none of which lets anything in", n, x.sg)
			return
		}
		per[x.reg]++
	}
	for k := range w.c.ARegs {
		if per[k] > m.Count {
			w.bad("too-many", "%d instances are created in %s, %d were asked for", per[k], w.c.ARegs[k].Name, m.Count)
			return
		}
	}
}

func (w *cworld) reported(out string, failed []*attempt) bool {
	for _, t := range failed {
		if t.marker != "" && strings.Contains(out, t.marker) {
			return true
		}
	}
	low := strings.ToLower(out)
	for _, x := range []string{"error", "unable", "fail", "invalid", "gave up", "missing"} {
		if strings.Contains(low, x) {
			return true
		}
	}
	return false
}

func (w *cworld) judgeVultr(r *outcome, op *operator, failed []*attempt, targets []*vsrv) {
	m, out := w.m, r.out
	missing := ""
	if m.Action == "start" {
		missing = w.c.VMissing
		if m.Price != w.c.VPrice {
			missing = "plan"
		}
	}
	if len(failed) > 0 || missing != "" {
		w.s.Probe("vultr_failure")
		why := "nothing to start from: " + missing
		if len(failed) > 0 {
			why = failed[0].op + " failed"
		}
		if r.ok() {
			w.bad("failure-lost", "%s, yet %s exits 0: %q", why, m.Action, out)
		} else if !w.reported(out, failed) {
			w.bad("failure-lost", "%s, and %s does not say so: %q", why, m.Action, out)
		}
		return
	}
	if !r.ok() {
		w.bad("exit-status", "nothing failed and %s exits %d: %q", m.Action, r.p.Code, out)
		return
	}
	var list []*vsrv
	switch m.Action {
	case "start":
		per := map[int]int{}
		for _, v := range w.v {
			if v.cmd == w.cmd {
				per[v.reg]++
				list = append(list, v)
			}
		}
		for k, x := range w.c.VRegs {
			want := m.Count
			if !x.Plan || strings.EqualFold(x.Name, "seoul") || !match(x.Name, m.Loc) {
				want = 0
			}
			if per[k] != want {
				w.bad("not-started", "%d servers are created in %s, %d were asked for: %q", per[k], x.Name, want, out)
				return
			}
		}
		if len(list) > 0 {
			w.s.Probe("started")
		}
	case "stop", "reboot":
		for _, v := range targets {
			was := v.status != "pending" && v.status != "closed" && v.state != "locked"
			did := v.gone
			if m.Action == "reboot" {
				did = v.reboots > 0
			}
			if did != was {
				w.bad("left-alone", "server %s (%s, %s): %s carried out: %v; %q", v.id, v.status, v.state, m.Action, did, out)
				return
			}
			if !was && !strings.Contains(out, v.id) {
				w.bad("skipped-silently", "server %s (%s, %s) is passed over and not mentioned: %q", v.id, v.status, v.state, out)
				return
			}
		}
		if m.Action == "stop" {
			n := 0
			for _, v := range w.v {
				if !v.gone {
					n++
				}
			}
			if x := reRemain.FindStringSubmatch(out); x == nil || x[1] != strconv.Itoa(n) {
				w.bad("remaining", "%d servers remain in the account, the tool says %q", n, out)
			}
		}
		return
	case "status":
		var n [5]int
		for _, v := range w.v {
			if v.gone || m.Tag != "" && v.tag != m.Tag {
				continue
			}
			list = append(list, v)
			n[0]++
			switch v.status {
			case "active":
				n[1]++
				if v.state == "ok" {
					n[2]++
				}
				if v.state == "installingbooting" {
					n[3]++
				}
			case "pending":
				n[4]++
			}
		}
		x := reCount.FindStringSubmatch(out)
		if x == nil || strings.Join(x[1:], " ") != strings.Trim(fmt.Sprint(n), "[]") {
			w.bad("status", "the account has %v servers (total, active, ok, installing, pending), the tool says %q", n, out)
			return
		}
	}
	if !m.List {
		return
	}
	var want []fileLine
	for _, v := range list {
		l := fileLine{ID: v.id, Port: 22, User: "root", KeyPath: home + "/.ssh/vultr", Provider: "vultr"}
		if m.Action == "status" {
			l.PublicIP, l.PrivateIP, l.Location, l.Tag = v.ip, v.ip, w.c.VRegs[v.reg].Name, v.tag
		}
		want = append(want, l)
	}
	w.checkList(op, want, m.Action == "status", out)
}

// checkList compares the server list in the file.
func (w *cworld) checkList(op *operator, want []fileLine, full bool, out string) {
	f := op.files["list.json"]
	if f == nil {
		w.bad("list", "the server list is not written: %q", out)
		return
	}
	var got []fileLine
	if err := json.Unmarshal(f.Data, &got); err != nil {
		w.bad("list", "the server list is not readable: %v: %q", err, f.Data)
		return
	}
	if !full {
		for i := range got {
			got[i] = fileLine{ID: got[i].ID, Port: 22, User: "root", KeyPath: got[i].KeyPath, Provider: got[i].Provider}
		}
	}
	sort.Slice(want, func(i, j int) bool {
		if want[i].Location != want[j].Location {
			return want[i].Location < want[j].Location
		}
		return want[i].ID < want[j].ID
	})
	if !full {
		sort.Slice(got, func(i, j int) bool { return got[i].ID < got[j].ID })
	}
	if len(got) != len(want) {
		w.bad("list", "the server list has %d lines, %d servers exist: %q", len(got), len(want), f.Data)
		return
	}
	for i := range got {
		if got[i] != want[i] {
			w.bad("list", "line %d of the server list is %+v, not %+v", i, got[i], want[i])
			return
		}
	}
	w.s.Probe("list_checked")
}

func (w *cworld) judgeAWS(r *outcome, op *operator, failed []*attempt, running []*ainst) {
	m, out := w.m, r.out
	global := m.NoCreds
	bad := map[int]bool{}
	disk := false
	for _, t := range failed {
		switch {
		case t.op == "DescribeRegions":
			global = true
		case t.op == "disk":
			disk = true
		case t.reg >= 0:
			bad[t.reg] = true
		}
	}
	if global {
		w.s.Probe("aws_failure")
		if r.ok() || strings.TrimSpace(out) == "" {
			w.bad("failure-lost", "the regions could not be listed, yet %s exits %d saying %q", m.Action, r.p.Code, out)
			return
		}
		for _, t := range w.tries {
			if t.op != "DescribeRegions" {
				w.bad("failure-lost", "the regions could not be listed, yet %s goes on with %s", m.Action, t.op)
				return
			}
		}
		return
	}
	if disk {
		return
	}
	if !r.ok() && len(bad) == 0 && !w.imageFault() && m.Key == "" {
		w.bad("exit-status", "nothing failed and %s exits %d: %q", m.Action, r.p.Code, out)
		return
	}
	for _, t := range failed {
		if t.op == "image" && (t.fault == "client" || t.fault == "server") {
			continue // an error page has no images: starting without one fails, and that is said
		}
		if t.fault != "html" && t.fault != "cut" && t.marker != "" && !strings.Contains(out, t.marker) {
			w.bad("failure-lost", "%s failed in %s (%s), and %s does not say so: %q", t.op, w.regName(t.reg), t.marker, m.Action, out)
			return
		}
		w.s.Probe("aws_failure")
	}
	if len(failed) > 0 && strings.TrimSpace(out) == "" {
		w.bad("failure-lost", "%s failed, and %s says nothing", failed[0].op, m.Action)
		return
	}
	// regions that failed before asking the provider
	local := func(reg int) bool {
		a := w.c.ARegs[reg]
		return m.Action == "start" && (!a.Image || w.imageFault() || m.Key != "" && !has(w.ar[reg].keys, "pikabarrow2"))
	}
	regEnd := int64(0)
	for _, t := range w.tries {
		if t.op == "DescribeRegions" {
			regEnd = max(regEnd, t.t1)
		}
	}
	faulty := map[int]bool{}
	for _, t := range w.tries {
		if t.fault != "" {
			faulty[t.reg] = true // image list: -1
		}
	}
	faulty[-1] = w.imageFault()
	for _, t := range w.tries {
		if t.reg >= 0 && !faulty[t.reg] && !faulty[-1] && t.t1 > regEnd+60*sec {
			w.bad("held-up", "region %s, where nothing is wrong, is still at %s %v after the regions are known", w.regName(t.reg), t.op, simDur(t.t1-regEnd))
			return
		}
	}
	switch m.Action {
	case "start":
		per := map[int]int{}
		for _, x := range w.a {
			if x.cmd == w.cmd {
				per[x.reg]++
			}
		}
		for k, a := range w.c.ARegs {
			if a.Off || !match(a.Name, m.Loc) {
				continue
			}
			if bad[k] || local(k) {
				if per[k] != 0 && per[k] != m.Count {
					w.bad("not-started", "%d instances are created in %s, %d were asked for", per[k], a.Name, m.Count)
					return
				}
				if per[k] == 0 && strings.TrimSpace(out) == "" {
					w.bad("failure-lost", "no instance was created in %s, and the tool says nothing", a.Name)
					return
				}
				continue
			}
			if per[k] != m.Count {
				w.bad("not-started", "%d instances are created in %s, %d were asked for: %q", per[k], a.Name, m.Count, out)
				return
			}
			w.s.Probe("started")
		}
	case "stop":
		for _, x := range running {
			if !bad[x.reg] && !x.killed {
				w.bad("left-alone", "instance %s in %s is running and was not terminated: %q", x.id, w.regName(x.reg), out)
				return
			}
		}
	case "status":
		if !m.List {
			return
		}
		var want []fileLine
		for _, x := range running {
			if !bad[x.reg] {
				want = append(want, fileLine{ID: x.id, PublicIP: x.pub, PrivateIP: x.priv, Port: 22, User: "ubuntu", KeyPath: home + "/.ssh/pikaaws", Location: w.regName(x.reg), Tag: m.Tag, Provider: "aws"})
			}
		}
		w.checkList(op, want, true, out)
	}
}

func (w *cworld) regName(i int) string {
	if i < 0 {
		return "all regions"
	}
	return w.c.ARegs[i].Name
}

func (w *cworld) imageFault() bool {
	for _, t := range w.tries {
		if t.op == "image" && t.fault != "" {
			return true
		}
	}
	return false
}
