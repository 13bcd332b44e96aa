package main

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	jlibschema "github.com/superisaac/jlib/schema"
	"hash/fnv"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/net/http2"
)

// Rng is splitmix64.
type Rng struct{ s uint64 }

func newRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x1234567} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int       { return a + r.Intn(b-a+1) }
func (r *Rng) P(num, den int) bool      { return r.Intn(den) < num }
func (r *Rng) Pick(l ...int) int        { return l[r.Intn(len(l))] }
func (r *Rng) PickS(l ...string) string { return l[r.Intn(len(l))] }
func (r *Rng) Fork() *Rng               { return newRng(r.U64()) }
func (r *Rng) Weighted(w ...int) (at int) {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Violation of a property found in a run. Class identifies the kind of
// violation for minimisation.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// World is one simulated run.
type World struct {
	clientTLS *tls.Config // one that several clients have
	sc        *Scenario
	rng       *Rng // harness choices made while running (never scheduling)
	net       *SimNet
	t0        int64
	log       []string
	viol      []Violation
	probes    map[string]int
	faults    map[string]int
	trig      []*pendingTrigger
	stdlog    []string

	guards  []Guard
	schemas map[string]jlibschema.Schema

	clients     []*Client
	servers     []*Server
	server      *Server // the current incarnation
	calls       []*CallRec
	sends       []*SendRec
	live        int // operations and threads under way
	liveCloses  int
	pushers     int
	touched     map[int]time.Duration
	heals       []func()
	healed      bool
	replacing   bool
	healAt      time.Duration
	quiesced    bool
	quiesceAt   time.Duration
	atStart     map[string]int
	ending      bool
	endAt       time.Duration
	raws        []*rawClient
	rawServer   bool // the server is a script of the harness
	rawPush     bool
	rawAnswered map[string]time.Duration
	rawPushed   map[string]bool
	rawShakes   int
	wallJumps   []wallJump
	hangs       []hangRec
	ticks       []int // when the counter was moved on (sequence numbers)
	fifoEdges   [][2]*fifoOp
	aliens      []*AlienRec
	anyFault    bool // one that hit more than a single connection
	wallStart   time.Time
	authRecs    []*AuthRec
	authTr      *http.Transport
	authH2      *http2.Transport
	execByTok   map[string][]*Exec
	wrapHandler func(s *Server, h http.Handler) http.Handler
	procs       []*Proc
	onBegin     func(r *http.Request)
	extraOp     func(ti, oi int, c *Client, op *Op, tok string) bool
	userName    func(c *Client) string
	ups         map[int]bool // clients a relay uses
}

type pendingTrigger struct {
	kind  string
	count int
	fire  func()
}

func (w *World) now() time.Duration { return time.Duration(runtime.SimNow() - w.t0) }

// ev appends to the event log; its index is the global sequence number.
func (w *World) ev(format string, a ...any) int {
	w.log = append(w.log, fmt.Sprintf("%d ", int64(w.now()))+fmt.Sprintf(format, a...))
	return len(w.log) - 1
}

// othersHarm: violations seen by a well-behaved client next to hostile ones
var othersHarm = map[string]bool{"no-reply": true, "timeout": true, "reply": true, "send-failed": true, "crossed": true, "foreign": true,
	"spurious-close": true, "no-recovery": true, "lost": true, "push-lost": true, "never-returned": true, "too-late": true}

// relayHarm: what a relay must not leave behind or wait for either
var relayHarm = map[string]bool{"never-returned": true, "send-stuck": true, "close-stuck": true, "connect-stuck": true, "goroutine": true, "connection": true, "serve-stuck": true}

func (w *World) violate(prop, class, format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	w.viol = append(w.viol, Violation{prop, prop + "/" + class, m})
	if w.sc.Prop == "C06" && prop != "C06" && othersHarm[class] {
		w.viol = append(w.viol, Violation{"C06", "C06/" + class, m})
	}
	if w.sc.Prop == "C23" && relayHarm[class] {
		w.viol = append(w.viol, Violation{"C23", "C23/" + class, m})
	}
	w.ev("VIOLATION %s %s %s", prop, class, m)
}

// probe counts a rare condition that was reached, and fires fault triggers.
func (w *World) probe(kind string) {
	w.probes[kind]++
	for i := 0; i < len(w.trig); i++ {
		t := w.trig[i]
		if t.kind == kind {
			t.count--
			if t.count <= 0 {
				w.trig = append(w.trig[:i:i], w.trig[i+1:]...)
				i--
				go t.fire()
			}
		}
	}
}

func (w *World) digest() uint64 {
	h := fnv.New64a()
	for _, l := range w.log {
		h.Write([]byte(l))
		h.Write([]byte{10})
	}
	return h.Sum64()
}

// slack is what the injected stalls may have added to any duration.
func (w *World) slack() time.Duration { return time.Duration(runtime.SimStallNs()) }

// goroutines with a frame of the library under test, as creation sites.
func jlibGoroutines() []string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var l []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "github.com/superisaac/jlib") {
			l = append(l, g)
		}
	}
	return l
}

// summary of a goroutine dump: state and jlib functions on the stack
func summarize(g string) string {
	lines := strings.Split(g, "\n")
	head := lines[0]
	if i := strings.Index(head, "["); i >= 0 {
		head = head[i:]
	}
	var fs []string
	for _, l := range lines[1:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		l = strings.TrimPrefix(l, "created by ")
		if i := strings.Index(l, "github.com/superisaac/jlib"); i == 0 {
			l = l[len("github.com/superisaac/jlib"):]
			if j := strings.LastIndex(l, "("); j > 0 && !strings.HasSuffix(l, ")") || strings.HasSuffix(l, ")") {
				if j > 0 {
					l = l[:j]
				}
			}
			fs = append(fs, l)
		}
	}
	return head + " " + strings.Join(fs, " < ")
}

func jsonStr(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("!%v", err)
	}
	return string(b)
}

func sortedKeys[T any](m map[string]T) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type timeDuration = time.Duration

// shape is a digest of the order of events without their times.
func (w *World) shape() string {
	h := fnv.New64a()
	for _, l := range w.log {
		if i := strings.IndexByte(l, ' '); i >= 0 {
			h.Write([]byte(l[i:]))
		}
		h.Write([]byte{10})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}
