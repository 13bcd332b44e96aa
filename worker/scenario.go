package main

import "runtime"

// Scenario is everything one run depends on besides the code.
type Scenario struct {
	Prop    string            `json:"prop"`
	Family  string            `json:"family"`
	Seed    uint64            `json:"seed"` // data and harness choices while running
	Sched   Sched             `json:"sched"`
	Net     NetCfg            `json:"net"`
	Server  ServerCfg         `json:"server"`
	Clients []ClientCfg       `json:"clients"`
	Threads []Thread          `json:"threads"`
	Faults  []Fault           `json:"faults"`
	P       map[string]int64  `json:"p,omitempty"`
	S       map[string]string `json:"s,omitempty"`
}

// Sched is the scheduler's configuration; Script (pairs) replaces seeded
// decisions in a replay.
type Sched struct {
	Seed     uint64   `json:"seed"`
	Policy   int      `json:"policy"`
	PickNum  uint32   `json:"pickNum"`
	YieldNum uint32   `json:"yieldNum"`
	StallNum uint32   `json:"stallNum"`
	StallMax int64    `json:"stallMax"`
	StallCap int      `json:"stallCap"`
	EpochNum uint32   `json:"epochNum"`
	SelRand  bool     `json:"selRand"`
	HotMod   uint32   `json:"hotMod"`
	HotRem   uint32   `json:"hotRem"`
	HotNum   uint32   `json:"hotNum"`
	MapOff   bool     `json:"mapOff,omitempty"`
	MapNum   uint32   `json:"mapNum,omitempty"`
	Scripted bool     `json:"scripted,omitempty"`
	Script   []uint64 `json:"script,omitempty"`
}

func (s Sched) config() runtime.SimConfig {
	return runtime.SimConfig{Seed: s.Seed, Policy: s.Policy, PickNum: s.PickNum, YieldNum: s.YieldNum,
		StallNum: s.StallNum, StallMax: s.StallMax, StallCap: s.StallCap, EpochNum: s.EpochNum, SelRandom: s.SelRand,
		HotMod: s.HotMod, HotRem: s.HotRem, HotNum: s.HotNum, MapOff: s.MapOff, MapNum: s.MapNum, Scripted: s.Scripted, Script: s.Script}
}

type ServerCfg struct {
	Kind    string `json:"kind"` // gateway ws h2 h1
	TLS     bool   `json:"tls,omitempty"`
	Serial  bool   `json:"serial,omitempty"`
	Depth   int    `json:"depth,omitempty"` // where the work methods live: 0 root, 1 child, 2 grandchild
	Wide    bool   `json:"wide,omitempty"`  // more actors around
	Missing bool   `json:"missing,omitempty"`
	MissPan bool   `json:"missPan,omitempty"` // the missing handler panics (with an error) on responses
	Mute    int    `json:"mute,omitempty"`    // every so many actors have no close handler
	Auth    bool   `json:"auth,omitempty"`
	Gap     int    `json:"gap,omitempty"`
}

type ClientCfg struct {
	Kind    string `json:"kind"`           // h1 ws h2
	Port    string `json:"port,omitempty"` // of the server, if not the usual one
	Timeout int    `json:"timeout,omitempty"`
	Cred    string `json:"cred,omitempty"`
	OnClose string `json:"onClose,omitempty"` // what its close handler does: call notify connect
	OnConn  string `json:"onConn,omitempty"`  // what its connected handler does
	Answers bool   `json:"answers,omitempty"` // answers the server's requests
}

type Thread struct {
	Client int    `json:"client"`
	Raw    string `json:"raw,omitempty"`   // a raw client of this kind instead
	Delay  int    `json:"delay,omitempty"` // ms before the first operation
	Ops    []Op   `json:"ops"`
}

type Spec struct {
	D int    `json:"d,omitempty"` // handling time, ms
	O string `json:"o,omitempty"` // outcome
	P int    `json:"p,omitempty"` // payload number
	N int    `json:"n,omitempty"` // pushes while handling
	G int    `json:"g,omitempty"` // ms between pushes
	B int    `json:"b,omitempty"` // pushes to every session while handling
	Q int    `json:"q,omitempty"` // requests to the client while handling
}

type Op struct {
	K      string `json:"k"` // call notify sleep close connect wait push reset
	M      string `json:"m,omitempty"`
	Ms     int    `json:"ms,omitempty"`
	Spec   *Spec  `json:"spec,omitempty"`
	Id     string `json:"id,omitempty"`  // i:N, s:text, empty: fresh
	Ctx    string `json:"ctx,omitempty"` // "", "to:MS" deadline, "ca:MS" cancel, see opCtx
	Trace  string `json:"tr,omitempty"`
	Bg     bool   `json:"bg,omitempty"` // run in its own goroutine
	Unwrap bool   `json:"uw,omitempty"`
	Params string `json:"params,omitempty"` // raw JSON params for methods other than work
	Tok    string `json:"tok,omitempty"`
	Twice  bool   `json:"twice,omitempty"`
	Al     int    `json:"al,omitempty"` // which of the names of the method, see workNames
	Rep    int    `json:"rep,omitempty"`
	S      string `json:"s,omitempty"` // which program
}

type Fault struct {
	K     string `json:"k"`
	At    int    `json:"at"`           // ms
	On    string `json:"on,omitempty"` // trigger: probe kind
	N     int    `json:"n,omitempty"`  // at its N-th occurrence
	Dur   int    `json:"dur,omitempty"`
	Conn  int    `json:"conn,omitempty"` // which open connection (modulo)
	Side  int    `json:"side,omitempty"`
	Bytes int    `json:"bytes,omitempty"`
}

func (s *Scenario) p(k string) int { return int(s.P[k]) }
