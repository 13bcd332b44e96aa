package main

import (
	"fmt"
	"strings"
)

// Scenario generation. A scenario is drawn from (property, seed); which
// features a run uses at all is itself drawn per run (swarm testing), so that
// runs differ in kind and not only in detail.

func genSched(r *Rng) Sched {
	s := Sched{Seed: r.U64(), SelRand: r.P(3, 4)}
	switch r.Weighted(1, 4, 3, 1) {
	case 0:
		s.Policy = 0
	case 1:
		s.Policy = 1
		s.PickNum = uint32(r.Pick(4096, 16384, 40000, 65536))
	case 2:
		s.Policy = 2
		s.EpochNum = uint32(r.Pick(0, 300, 3000, 12000))
	case 3:
		s.Policy = 3
		s.PickNum = uint32(r.Pick(8000, 40000))
	}
	s.YieldNum = uint32(r.Pick(0, 150, 1000, 6000, 20000))
	if r.P(1, 2) {
		s.HotMod = uint32(r.Pick(4, 8, 16, 32))
		s.HotRem = uint32(r.Intn(int(s.HotMod)))
		s.HotNum = uint32(r.Pick(16000, 45000, 65000))
	}
	if r.P(1, 3) {
		s.MapNum = uint32(r.Pick(4000, 20000))
	}
	if r.P(2, 5) {
		s.StallCap = r.Pick(1, 2, 4, 10)
		s.StallNum = uint32(r.Pick(600, 3000, 12000, 60000))
		s.StallMax = int64(r.Pick(200, 5000, 60000, 900000, 3000000)) * 1000
	}
	return s
}

func genNet(r *Rng) NetCfg {
	n := NetCfg{}
	switch r.Weighted(2, 4, 2, 1) {
	case 0: // instantaneous
	case 1:
		n.LatMinUs = int64(r.Pick(10, 100, 1000))
		n.LatMaxUs = n.LatMinUs * int64(r.Pick(1, 2, 10))
	case 2:
		n.LatMinUs, n.LatMaxUs = 0, int64(r.Pick(500, 20000, 80000))
	case 3:
		n.LatMinUs, n.LatMaxUs = 20000, 150000
	}
	if r.P(1, 3) {
		n.MSS = r.Pick(1, 7, 100, 1460)
		if n.MSS == 1 && n.LatMaxUs > 1000 {
			n.MSS = 40
		}
	}
	if r.P(1, 4) {
		n.ShortRd = r.Pick(1, 3, 64)
	}
	if r.P(1, 5) {
		n.Window = r.Pick(512, 4096, 16384)
	}
	return n
}

func mildNet(r *Rng) NetCfg {
	n := genNet(r)
	if n.LatMaxUs > 20000 {
		n.LatMinUs, n.LatMaxUs = 100, 5000
	}
	return n
}

type G struct {
	*Rng
	sc *Scenario
}

func (g *G) p(k string, v int) { g.sc.P[k] = int64(v) }

func (g *G) server(kinds ...string) {
	g.sc.Server.Kind = g.PickS(kinds...)
	g.sc.Server.TLS = g.P(1, 6)
	g.sc.Server.Depth = g.Pick(0, 0, 1, 2, 2, 4)
	g.sc.Server.Wide = g.P(1, 3)
}

func (g *G) anyServer() { g.server("gateway", "gateway", "ws", "h2") }

func (g *G) clientFor() string {
	switch g.sc.Server.Kind {
	case "ws":
		return "ws"
	case "h2":
		return "h2"
	case "h1":
		return "h1"
	}
	return g.PickS("ws", "ws", "h2", "h2", "h1")
}

func (g *G) streamingFor() string {
	k := g.clientFor()
	for k == "h1" {
		k = g.clientFor()
	}
	return k
}

func (g *G) addClients(n int, streaming bool) {
	for i := 0; i < n; i++ {
		k := g.clientFor()
		if streaming {
			k = g.streamingFor()
		}
		g.sc.Clients = append(g.sc.Clients, ClientCfg{Kind: k})
	}
}

func (g *G) thread(client int, ops ...Op) *Thread {
	g.sc.Threads = append(g.sc.Threads, Thread{Client: client, Ops: ops})
	return &g.sc.Threads[len(g.sc.Threads)-1]
}

func (g *G) id() string {
	switch g.Weighted(3, 4, 2, 1, 1, 1, 1, 1) {
	case 7:
		return "s:" + g.PickS("", "<a&b>", "ünï \"q\" \\ \u2028", "null", "-1", " 1", "1e0", strings.Repeat("x", 300), "\x00\x7f")
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("i:%d", g.Intn(3))
	case 2:
		return fmt.Sprintf("s:%d", g.Intn(3))
	case 3:
		return fmt.Sprintf("l:%d", g.Intn(3))
	case 4:
		return fmt.Sprintf("u:%d", g.Intn(3))
	case 5:
		return fmt.Sprintf("f:%d", g.Intn(3))
	}
	return fmt.Sprintf("i:%d", g.Pick(-1, 0, 1<<53+1, 1<<31))
}

func (g *G) trace() string {
	switch g.Intn(4) {
	case 0:
		return ""
	case 1:
		return g.PickS("tr1", "tr2", "tr3")
	case 2:
		if g.P(1, 3) {
			return g.PickS("00-4bf92f3577b34da6a3ce929d0e0e4736-00f067aa0ba902b7-01", longText[:129], longText[:400], longText[:5000], "12345", "0", "null", "a b\tc", "x=1; y=\"2\", z", "TRACE-UPPER", "tr\u00e4ce-\u2028", "%41%2f+", "\\u0041")
		}
	}
	return fmt.Sprintf("trace-%x", g.U64()&0xffffff)
}

func (g *G) call(d int) Op {
	return Op{K: "call", M: "work", Spec: &Spec{D: d}, Id: g.id(), Trace: g.trace()}
}

func (g *G) sleep(ms int) Op { return Op{K: "sleep", Ms: ms} }

func (g *G) notify(d int) Op {
	return Op{K: "notify", M: "work", Spec: &Spec{D: d}, Trace: g.trace()}
}

// connFault: something happens to connections.
func (g *G) connFault(maxAt int) Fault {
	f := Fault{At: g.Intn(maxAt), Conn: g.Intn(8), Side: g.Intn(2)}
	switch g.Weighted(5, 2, 3, 2, 1, 2, 2, 1, 1, 1, 2) {
	case 0:
		f.K = "reset"
	case 1:
		f.K, f.Dur = "rst1", g.Pick(0, 5, 200, 2000)
	case 2:
		f.K, f.Bytes = "cut", g.Pick(1, 5, 30, 100, 400, 3000)
	case 3:
		f.K, f.Dur = "part", g.Pick(10, 300, 3000, 15000)
		f.Conn = g.Pick(0, 1000, 1001)
	case 4:
		f.K = "vanish"
	case 5:
		f.K, f.Dur = "restart", g.Pick(1, 50, 1000, 4000)
	case 6:
		f.K, f.Dur = "crash", g.Pick(1, 50, 1000, 4000)
	case 7:
		f.K, f.Dur = "refuse", g.Pick(10, 500, 5000)
	case 8:
		f.K, f.Dur = "hang", g.Pick(10, 500, 5000)
	case 9:
		f.K, f.Dur = "drop", g.Pick(10, 500, 5000)
	case 10:
		f.K = "close"
	}
	if g.P(1, 2) {
		f.On = g.PickS("handler.start", "handler.end", "call.start", "conn", "dial", "net.write.client", "net.write.server",
			"client.connected", "push", "onclose", "client.onclose", "call.end", "send.end")
		f.N = 1 + g.Intn(6)
		if f.On == "net.write.client" || f.On == "net.write.server" {
			f.N = 1 + g.Intn(30)
		}
	}
	return f
}

func (g *G) faults(n, maxAt int) {
	for i := 0; i < n; i++ {
		g.sc.Faults = append(g.sc.Faults, g.connFault(maxAt))
	}
}

func (g *G) outcome() string {
	return g.PickS("ok", "ok", "map", "null", "msg", "rpc", "wraprpc", "err", "panic", "rtpanic", "paniRPC", "nan", "rpcnan", "emsg")
}

func newScenario(prop string, seed uint64) (*Scenario, *G) {
	r := newRng(seed ^ hashStr(prop))
	sc := &Scenario{Prop: prop, Family: "generic", Seed: r.U64(), P: map[string]int64{}}
	sc.Sched = genSched(r.Fork())
	sc.Net = genNet(r.Fork())
	g := &G{r.Fork(), sc}
	g.p("end", g.Weighted(4, 3, 2, 1))
	return sc, g
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

var generators = map[string]func(g *G){
	"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05,
	"C06": genC06, "C07": genC07, "C08": genC08, "C09": genC09, "C10": genC10,
	"C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16,
	"C17": genC17, "C18": genC18, "C22": genC22, "C23": genC23,
}

func generate(prop string, seed uint64) *Scenario {
	sc, g := newScenario(prop, seed)
	f := generators[prop]
	if f == nil {
		panic("harness: no generator for " + prop)
	}
	f(g)
	g.names()
	switch prop {
	case "C17", "C22", "C23":
	default:
		if sc.Seed%8 == 5 {
			g.p("onehost", 1)
		}
		if sc.Seed>>8%5 == 0 {
			g.p("badpush", 1)
		}
	}
	return sc
}

// names: the same work under other names, some of them odd.
func (g *G) names() {
	if g.sc.Server.Kind == "raw" || !g.P(1, 3) {
		return
	}
	for ti := range g.sc.Threads {
		t := &g.sc.Threads[ti]
		for oi := range t.Ops {
			if o := &t.Ops[oi]; t.Raw == "" && o.M == "work" && (o.K == "call" || o.K == "notify") && g.P(1, 2) {
				o.Al = g.Intn(len(workNames))
			}
		}
	}
}

// ticking: requests that are equal in every byte.
func (g *G) ticking(den int) {
	if !g.P(1, den) {
		return
	}
	id, tr := g.PickS("s:tick", "i:7", "i:0", ""), g.PickS("", "", "tr1")
	for i := 0; i < 1+g.Intn(3); i++ {
		t := g.thread(g.Intn(len(g.sc.Clients)))
		t.Delay = g.Pick(0, 0, 5, 50)
		for j := 0; j < 1+g.Intn(7); j++ {
			o := Op{K: "call", M: "tick", Id: id, Trace: tr, Bg: g.P(1, 3)}
			if g.P(1, 5) {
				o.K, o.Id = "notify", ""
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 5) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 30, 400)))
			}
		}
	}
}

// ctx is a context that ends while its call is, or may be, in progress.
func (g *G) ctx(ms int) string {
	if g.P(1, 5) {
		// at the moment something arrives at the client, its answer perhaps
		return fmt.Sprintf("rx:%d", g.Pick(1, 1, 1, 2, 3, 5))
	}
	return fmt.Sprintf("%s:%d", g.PickS("ca", "to", "dc", "td", "cv"), ms)
}

// connCtx is a context for a connection.
func (g *G) connCtx(ms int) string {
	return fmt.Sprintf("%s:%d", g.PickS("ca", "ca", "to", "td", "cv"), ms)
}

func genC01(g *G) {
	if g.P(1, 4) {
		genRaw(g)
		return
	}
	defer g.ticking(6)
	g.anyServer()
	n := 1 + g.Intn(3)
	g.addClients(n, g.P(2, 3))
	g.p("pre", g.Intn(2))
	switch g.Weighted(3, 3, 2, 2) {
	case 0: // many callers, few ids
		for i := 0; i < 2+g.Intn(5); i++ {
			t := g.thread(g.Intn(n))
			for j := 0; j < 1+g.Intn(5); j++ {
				o := g.call(g.Pick(0, 0, 0, 1, 3, 20))
				o.Bg = g.P(1, 4)
				o.Spec.O = g.PickS("", "", "", "map", "rpc", "msg")
				t.Ops = append(t.Ops, o)
			}
		}
	case 1: // an id is used again after its call timed out or was cancelled
		for i := 0; i < 1+g.Intn(3); i++ {
			c := g.Intn(n)
			id := g.id()
			a := g.call(g.Pick(10500, 11000, 14000))
			a.Id = id
			if g.P(1, 2) {
				a = g.call(g.Pick(30, 200, 1000))
				a.Id = id
				a.Ctx = g.ctx(g.Pick(1, 5, 20, 100))
			}
			b := g.call(g.Pick(0, 500, 3000, 8000))
			b.Id = id
			ops := []Op{g.call(0), a}
			ops[0].Id = ""
			if g.P(1, 3) {
				ops = append(ops, g.sleep(g.Intn(400)))
			}
			ops = append(ops, b)
			g.thread(c, ops...)
		}
		g.p("pre", 1)
	case 2: // an id is used again while the timer of an earlier call runs
		for i := 0; i < 1+g.Intn(3); i++ {
			id := g.id()
			a, b := g.call(g.Pick(0, 1, 100)), g.call(g.Pick(2000, 5000, 7000, 9000))
			a.Id, b.Id = id, id
			g.thread(g.Intn(n), a, g.sleep(g.Pick(1500, 3000, 6000, 9000)), b, g.call(0))
		}
	case 3: // long tail with faults
		for i := 0; i < 2+g.Intn(3); i++ {
			t := g.thread(g.Intn(n))
			for j := 0; j < 2+g.Intn(4); j++ {
				o := g.call(g.Pick(0, 0, 5, 100, 1000))
				o.Spec.N = g.Pick(0, 0, 1, 5)
				o.Bg = g.P(1, 3)
				t.Ops = append(t.Ops, o)
				if g.P(1, 3) {
					t.Ops = append(t.Ops, g.sleep(g.Intn(50)))
				}
			}
		}
		g.faults(1+g.Intn(3), 300)
	}
	if g.P(1, 8) {
		// an id is used again after its call was given up in a crowd
		c := g.Intn(n)
		id := g.id()
		t := g.thread(c)
		for i := 0; i < g.Pick(12, 25, 70); i++ {
			o := g.call(g.Pick(500, 1000, 3000))
			o.Bg, o.Spec.N = true, 0
			if g.P(1, 2) {
				o.Id = ""
			}
			t.Ops = append(t.Ops, o)
		}
		for i := 0; i < 1+g.Intn(4); i++ {
			a, b := g.call(g.Pick(40, 200)), g.call(g.Pick(0, 100, 400))
			a.Id, b.Id = id, id
			a.Ctx = g.ctx(g.Pick(1, 5, 20))
			t.Ops = append(t.Ops, a, b)
		}
		g.p("pre", 1)
	}
	g.marathon(40)
	if g.P(1, 30) {
		// very many at once
		c := g.Intn(n)
		t := g.thread(c)
		d := g.Pick(300, 1500)
		for i := 0; i < g.Pick(140, 140, 270, 270, 540, 1080); i++ {
			o := g.call(d + g.Intn(200))
			o.Bg, o.Id, o.Spec.P, o.Spec.N = true, "", 0, 0
			if g.P(1, 20) {
				o.Id = g.id()
			}
			t.Ops = append(t.Ops, o)
		}
		g.sc.Net.ShortRd = 0
		if g.sc.Net.MSS > 0 && g.sc.Net.MSS < 100 {
			g.sc.Net.MSS = 1460
		}
		g.p("pre", 1)
	}
}

func genC02(g *G) {
	if g.P(1, 4) {
		genRaw(g)
		return
	}
	g.anyServer()
	n := 1 + g.Intn(2)
	g.addClients(n, g.P(2, 3))
	for i := range g.sc.Clients {
		if g.sc.Clients[i].Kind == "h1" && g.P(1, 2) {
			g.sc.Clients[i].Timeout = g.Pick(1, 2, 7, 12)
		}
	}
	g.p("pre", g.Intn(2))
	g.p("slow", 1)
	g.closeActs(4)
	for i := 0; i < 1+g.Intn(4); i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 5, 100)
		for j := 0; j < 1+g.Intn(3); j++ {
			o := g.call(g.Pick(0, 10, 900, 4900, 9900, 10500, 13000))
			if g.P(1, 3) {
				o.Ctx = g.ctx(g.Pick(0, 1, 20, 300, 4000, 9000, 20000))
			}
			o.Bg = g.P(1, 3)
			o.Unwrap = g.P(1, 8)
			o.Spec.P = g.Pick(0, 0, 0, 0, 0, 10)
			t.Ops = append(t.Ops, o)
			if g.P(1, 3) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 50, 900, 6000)))
			}
		}
	}
	switch g.Weighted(12, 8, 12, 8, 6, 3) {
	case 0:
	case 5: // many connect at the same moment, and get no answer
		g.sc.Clients, g.sc.Threads = nil, nil
		n = 3 + g.Intn(6)
		g.addClients(n, false)
		for i := range g.sc.Clients {
			if g.P(5, 6) && g.sc.Server.Kind == "gateway" {
				g.sc.Clients[i].Kind = g.PickS("ws", "ws", "ws", "h2")
			}
		}
		g.p("pre", 0)
		lat := g.Pick(1000, 5000, 20000)
		g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = int64(lat), int64(lat)
		for i := 0; i < n; i++ {
			t := g.thread(i)
			t.Delay = 1
			o := Op{K: "connect"}
			if g.P(1, 2) {
				o = g.call(0)
			}
			o.Ctx = g.ctx(g.Pick(100, 400, 1000, 3000, 5000))
			t.Ops = append(t.Ops, o)
			if g.P(1, 2) {
				o := g.call(0)
				o.Ctx = g.ctx(g.Pick(100, 1000))
				t.Ops = append(t.Ops, g.sleep(g.Pick(10, 500)), o)
			}
		}
		g.sc.Faults = append(g.sc.Faults, Fault{K: "part", At: 1 + lat*g.Pick(1, 2, 3)/1000, Dur: 30000})
	case 4: // tearing a connection down takes its time: the peer does not read
		g.sc.Net.Window = g.Pick(512, 2048)
		g.sc.Server.TLS = g.P(2, 3)
		c := g.Intn(n)
		at := g.Pick(5, 20, 60)
		t := g.thread(c)
		for j := 0; j < 3+g.Intn(20); j++ {
			o := g.notify(0)
			o.Spec.P = 8
			o.Bg = true
			t.Ops = append(t.Ops, o)
		}
		t.Ops = append(t.Ops, g.sleep(at+g.Pick(5, 50, 500)), Op{K: "close", Bg: g.P(1, 2)})
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: at, Dur: g.Pick(3000, 12000, 25000), Conn: 1000 + c})
		for i := 0; i < 1+g.Intn(2); i++ {
			t := g.thread(c)
			t.Delay = at + g.Pick(6, 55, 505, 1000)
			for j := 0; j < 1+g.Intn(2); j++ {
				o := g.call(0)
				o.Ctx = g.ctx(g.Pick(1, 20, 300, 2000))
				if g.P(1, 3) {
					o = Op{K: "connect", Ctx: o.Ctx}
				}
				t.Ops = append(t.Ops, o)
			}
		}
	case 1: // the peer does not read: queues fill
		g.sc.Net.Window = g.Pick(512, 2048)
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 30)
		for j := 0; j < 110+g.Intn(80); j++ {
			o := g.notify(0)
			o.Spec.P = 8
			o.Bg = true
			t.Ops = append(t.Ops, o)
		}
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: g.Pick(1, 5, 20), Dur: g.Pick(3000, 12000, 25000), Conn: g.Intn(3)})
		if g.P(1, 2) {
			g.sc.Faults = append(g.sc.Faults, Fault{K: "reset", At: g.Pick(2000, 9000), Conn: g.Intn(3)})
		}
	case 2:
		g.faults(1+g.Intn(3), 3000)
	case 3:
		g.sc.Faults = append(g.sc.Faults, Fault{K: g.PickS("hang", "part", "vanish", "freeze", "refuse"), At: g.Pick(0, 1, 3, 50, 1000),
			Dur: g.Pick(500, 6000, 30000), Conn: g.Pick(0, 1000)})
		if g.P(1, 2) {
			g.p("pre", 0)
		}
	}
}

// longIdle: sometimes a client does nothing for long, from a minute to hours
// (timers somebody set on a connection or session fire), and goes on.
func (g *G) longIdle(den int) {
	if !g.P(1, den) || len(g.sc.Threads) == 0 {
		return
	}
	t := &g.sc.Threads[g.Intn(len(g.sc.Threads))]
	if t.Raw != "" {
		return
	}
	ms := g.Pick(35000, 62000, 95000, 130000, 310000, 620000, 1900000, 3700000, 7300000)
	at := g.Intn(len(t.Ops) + 1)
	ops := append([]Op{}, t.Ops[:at]...)
	ops = append(ops, g.sleep(ms), g.call(0))
	t.Ops = append(ops, t.Ops[at:]...)
	g.p("maxwork", 90000+ms)
}

// closeActs: some users do things when their connection ends.
func (g *G) closeActs(den int) {
	for i := range g.sc.Clients {
		if g.sc.Clients[i].Kind != "h1" && g.P(1, den) {
			g.sc.Clients[i].OnClose = g.PickS("connect", "connect", "call", "notify", "close")
		}
	}
}

// connActs: some users do things when connected.
func (g *G) connActs(den int) {
	for i := range g.sc.Clients {
		if g.sc.Clients[i].Kind != "h1" && g.P(1, den) {
			g.sc.Clients[i].OnConn = g.PickS("call", "call", "notify", "connect", "close")
		}
	}
}

// notReading: a client stops reading, and what is for it piles up at the
// server; then something ends the connection or the server.
func (g *G) notReading(den int, ends ...string) {
	if !g.P(1, den) {
		return
	}
	c := g.Intn(len(g.sc.Clients))
	if g.sc.Clients[c].Kind == "h1" {
		return
	}
	g.sc.Net.Window = g.Pick(512, 2048, 8192)
	if g.sc.Net.LatMaxUs > 5000 {
		g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = 100, 2000
	}
	g.p("pre", 1)
	o := g.call(g.Pick(0, 100, 3000))
	o.Spec.N, o.Bg, o.Id = g.Pick(30, 120, 250), true, ""
	at := g.Pick(5, 30, 100)
	t := g.thread(c, o)
	t.Delay = at + g.Pick(-4, 1, 20)
	if g.P(1, 2) {
		h := Op{K: "call", M: "hold", Spec: &Spec{D: 20000}, Bg: true}
		t.Ops = append([]Op{h}, t.Ops...)
	}
	t.Ops = append(t.Ops, g.sleep(15000))
	g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: at, Dur: g.Pick(9000, 14000, 30000), Conn: 1000 + c})
	if e := g.PickS(ends...); e != "" {
		f := Fault{K: e, At: at + g.Pick(30, 500, 2500), Dur: g.Pick(10, 2000), Conn: 1000 + c}
		if e == "close" {
			f.Conn = c
		}
		g.sc.Faults = append(g.sc.Faults, f)
	}
}

// naps adds slow handlers of every kind of registration, and quick ones.
func (g *G) nap(d int) Op {
	m := g.PickS("nap.req", "nap.on", "nap.ctx", "nap.typed", "nap.treq", "nap.tctx")
	if g.sc.Server.Missing && g.P(1, 4) {
		m = g.PickS("wait.x", "wait.y")
	}
	return Op{K: "call", M: m, Spec: &Spec{D: d}, Trace: g.trace()}
}

// crowd: very many handlers at work at once.
func (g *G) crowd(c int) {
	n := 0
	switch g.Weighted(25, 2, 2, 1) {
	case 1:
		n = g.Pick(20, 40, 66)
	case 2:
		n = g.Pick(105, 130, 260)
	case 3:
		n = g.Pick(520, 1050)
	}
	if n == 0 {
		return
	}
	if g.sc.Net.MSS > 0 && g.sc.Net.MSS < 100 {
		g.sc.Net.MSS = 1460
	}
	g.sc.Net.ShortRd = 0
	if n > 300 {
		g.sc.Sched.YieldNum, g.sc.Sched.HotMod = 0, 0
	}
	d := g.Pick(2500, 5000, 8000)
	t := g.thread(c)
	one := g.nap(d)
	for i := 0; i < n; i++ {
		o := g.call(d)
		if g.P(1, 2) {
			o = g.nap(d)
			if g.P(1, 2) {
				o = one
			}
		}
		if g.P(1, 10) {
			o = g.notify(d)
		}
		o.Bg, o.Id, o.Trace = true, "", ""
		t.Ops = append(t.Ops, o)
	}
	q := g.thread(g.Intn(len(g.sc.Clients)))
	q.Delay = g.Pick(50, 300, 1000)
	for i := 0; i < 3; i++ {
		o := g.call(0)
		if g.P(1, 2) {
			o = one
			o.Spec = &Spec{D: 1}
		}
		q.Ops = append(q.Ops, o)
	}
}

// marathon: one client makes very many calls, one after the other or a few
// at a time.
func (g *G) marathon(den int) {
	if !g.P(1, den) {
		return
	}
	c := g.Intn(len(g.sc.Clients))
	if g.sc.Net.LatMaxUs > 2000 {
		g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = 10, 500
	}
	if g.sc.Net.MSS > 0 && g.sc.Net.MSS < 100 {
		g.sc.Net.MSS = 1460
	}
	g.sc.Net.ShortRd = 0
	n := g.Pick(70, 140, 270, 270, 530, 1100)
	if n > 300 {
		g.sc.Sched.YieldNum, g.sc.Sched.HotMod = 0, 0
	}
	t := g.thread(c)
	id := g.id()
	for i := 0; i < n; i++ {
		o := g.call(0)
		switch g.Intn(4) {
		case 0:
			o.Id = id
		case 1:
			o.Id = ""
		}
		o.Trace = ""
		if g.P(1, 6) {
			o = g.notify(0)
		}
		o.Spec.P = g.Pick(0, 0, 0, 2, 8)
		o.Bg = i%8 != 7 && g.P(1, 2)
		t.Ops = append(t.Ops, o)
	}
}

// multitude: very many calls of one client at once.
func (g *G) multitude(den int) {
	if !g.P(1, den) {
		return
	}
	c := g.Intn(len(g.sc.Clients))
	g.sc.Net = mildNet(g.Rng)
	g.sc.Net.Window, g.sc.Net.MSS, g.sc.Net.ShortRd = 0, 0, 0
	g.sc.Sched.YieldNum, g.sc.Sched.HotMod = 0, 0
	t := g.thread(c)
	n := g.Pick(150, 300, 600, 1200)
	if g.sc.Clients[c].Kind == "h1" {
		n = g.Pick(50, 150)
	}
	d := g.Pick(20, 500, 3000)
	for i := 0; i < n; i++ {
		o := g.call(d + g.Intn(5))
		o.Bg, o.Trace = true, ""
		if g.P(1, 3) {
			o.Id = ""
		}
		t.Ops = append(t.Ops, o)
	}
}

// cycles: a client connects and loses its connection many times over.
// stale: connections come and go at once, and what is left of the old ones is
// slow to notice.
func (g *G) stale(den int) {
	if !g.P(1, den) {
		return
	}
	sc := g.sc
	sc.Net.LatMinUs, sc.Net.LatMaxUs = 10, int64(g.Pick(10, 200))
	sc.Sched.StallCap = g.Pick(30, 100, 300)
	sc.Sched.StallNum = uint32(g.Pick(30000, 100000, 300000))
	sc.Sched.StallMax = int64(g.Pick(1000, 5000, 20000)) * 1000
	c := g.Intn(len(sc.Clients))
	t := g.thread(c)
	for i := 0; i < g.Pick(10, 25, 50); i++ {
		o := g.call(0)
		o.Spec.N, o.Id = 0, ""
		t.Ops = append(t.Ops, o, Op{K: g.PickS("close", "lose")})
		if g.P(1, 3) {
			o2 := g.call(g.Pick(0, 3))
			o2.Spec.N, o2.Id = 0, ""
			t.Ops = append(t.Ops, o2, g.sleep(g.Pick(0, 1, 10)))
		}
	}
}

func (g *G) cycles(den int) {
	if !g.P(1, den) {
		return
	}
	c := g.Intn(len(g.sc.Clients))
	n := g.Pick(4, 8, 15, 40)
	t := g.thread(c)
	how := g.PickS("close", "reset", "mixed", "restart", "ctx")
	for i := 0; i < n; i++ {
		o := g.call(0)
		o.Bg = g.P(1, 4)
		k := how
		if k == "mixed" {
			k = g.PickS("close", "reset", "ctx")
		}
		switch k {
		case "close":
			t.Ops = append(t.Ops, o, Op{K: "close"})
		case "reset":
			t.Ops = append(t.Ops, o, g.sleep(g.Pick(0, 2, 20)), Op{K: "lose"})
		case "restart":
			t.Ops = append(t.Ops, o, g.sleep(g.Pick(5, 40)))
			g.sc.Faults = append(g.sc.Faults, Fault{K: "restart", At: i*60 + g.Intn(50), Dur: g.Pick(1, 10)})
		case "ctx":
			t.Ops = append(t.Ops, Op{K: "connect", Ctx: g.connCtx(g.Pick(5, 30))}, o, g.sleep(g.Pick(3, 40)))
		}
		if g.P(1, 4) {
			t.Ops = append(t.Ops, g.sleep(g.Pick(1, 15, 100)))
		}
	}
}

// throng: many clients at once.
func (g *G) throng(den int) {
	if !g.P(1, den) {
		return
	}
	n := g.Pick(12, 34, 70, 140, 200)
	if n > 20 {
		g.sc.Server.TLS = false
		if g.sc.Net.MSS > 0 && g.sc.Net.MSS < 100 {
			g.sc.Net.MSS = 1460
		}
		g.sc.Net.ShortRd = 0
		g.sc.Sched.YieldNum, g.sc.Sched.HotMod = 0, 0
	}
	for i := 0; i < n; i++ {
		g.sc.Clients = append(g.sc.Clients, ClientCfg{Kind: g.clientFor()})
		o := g.call(g.Pick(0, 0, 20, 500))
		if g.P(1, 4) {
			o.Spec.N = 3
		}
		t := g.thread(len(g.sc.Clients)-1, o)
		t.Delay = g.Pick(0, 0, 1, 10, 100)
		if g.P(1, 2) {
			t.Ops = append(t.Ops, g.sleep(g.Pick(10, 200, 1500)), g.call(0))
		}
	}
}

// echoes: the same notification, sent several times in a row.
func (g *G) echoes(den int) {
	if g.sc.Server.Serial || !g.P(1, den) {
		return
	}
	for ti := range g.sc.Threads {
		t := &g.sc.Threads[ti]
		if len(t.Ops) > 40 {
			continue
		}
		var ops []Op
		for oi, o := range t.Ops {
			if o.K == "notify" && o.M == "work" && !o.Bg && !o.Twice && o.Ctx == "" && o.Tok == "" && o.Spec != nil && o.Spec.N+o.Spec.B+o.Spec.Q == 0 && g.P(1, 2) {
				o.Tok = fmt.Sprintf("t%d.%d", 900+ti, oi)
				for i := 0; i < g.Pick(1, 2, 4); i++ {
					ops = append(ops, o)
				}
			}
			ops = append(ops, o)
		}
		t.Ops = ops
	}
}

// casts: pushes go to all sessions at once.
func (g *G) casts(den int) {
	if !g.P(1, den) {
		return
	}
	left := 400
	for i := range g.sc.Threads {
		for j := range g.sc.Threads[i].Ops {
			o := &g.sc.Threads[i].Ops[j]
			if o.M == "work" && o.Spec != nil && o.Spec.N == 0 && o.Spec.Q == 0 && left > 0 && g.P(1, 3) {
				o.Spec.B = g.Pick(1, 5, 30, 120)
				o.Spec.G = g.Pick(0, 0, 1)
				left -= o.Spec.B
			}
		}
	}
}

// asks: the server sends requests to clients, which answer.
func (g *G) asks(den int) {
	if !g.P(1, den) {
		return
	}
	if g.sc.Server.Serial {
		// a client that answers in its message handler and a server that
		// handles one message at a time may block each other once both
		// queues are full
		total := 0
		for i := range g.sc.Threads {
			for _, o := range g.sc.Threads[i].Ops {
				total++
				if o.Spec != nil {
					total += o.Spec.N
				}
			}
		}
		if total > 25 {
			return
		}
	}
	g.sc.Server.Missing, g.sc.Server.MissPan = true, false
	left := 60
	for i := range g.sc.Clients {
		g.sc.Clients[i].Answers = g.sc.Clients[i].Kind != "h1"
	}
	for i := range g.sc.Threads {
		for j := range g.sc.Threads[i].Ops {
			o := &g.sc.Threads[i].Ops[j]
			if o.M == "work" && o.Spec != nil && o.Spec.N == 0 && left > 0 && g.P(1, 3) {
				o.Spec.Q = g.Pick(1, 1, 3, 20)
				left -= o.Spec.Q
			}
		}
	}
}

func (g *G) lifeOps(t *Thread, n int) {
	for j := 0; j < n; j++ {
		switch g.Weighted(6, 3, 2, 3, 2, 2) {
		case 0:
			o := g.call(g.Pick(0, 0, 2, 50, 600))
			if g.P(1, 6) {
				o.Ctx = g.ctx(g.Pick(1, 20, 300, 4000))
			}
			o.Bg = g.P(1, 4)
			t.Ops = append(t.Ops, o)
		case 1:
			t.Ops = append(t.Ops, g.sleep(g.Pick(0, 1, 10, 100, 2500)))
		case 2:
			t.Ops = append(t.Ops, Op{K: "close", Bg: g.P(1, 4)})
		case 3:
			o := Op{K: "connect", Bg: g.P(1, 4)}
			if g.P(1, 3) {
				o.Ctx = g.connCtx(g.Pick(1, 20, 300, 4000))
			}
			t.Ops = append(t.Ops, o)
		case 4:
			t.Ops = append(t.Ops, Op{K: "wait", Bg: true})
		case 5:
			o := g.notify(g.Pick(0, 1, 20))
			o.Bg = g.P(1, 4)
			t.Ops = append(t.Ops, o)
		}
	}
}

func genC03(g *G) {
	g.anyServer()
	n := 1 + g.Intn(2)
	g.addClients(n, g.P(5, 6))
	g.p("pre", g.Intn(2))
	g.p("probes", 6)
	g.p("probeids", g.Intn(2))
	for i := 0; i < 1+g.Intn(3); i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 1, 30)
		g.lifeOps(t, 1+g.Intn(6))
	}
	if g.P(4, 5) {
		g.faults(1+g.Intn(4), g.Pick(20, 300, 4000))
	}
	g.closeActs(4)
	g.connActs(6)
	g.notReading(10, "", "restart", "reset", "close")
	g.longIdle(12)
	g.cycles(10)
	g.stale(8)
	g.marathon(60)
}

func genC04(g *G) {
	g.anyServer()
	n := 1 + g.Intn(3)
	g.addClients(n, false)
	g.p("pre", g.Intn(2))
	g.p("quiesce", 3)
	for i := 0; i < 1+g.Intn(4); i++ {
		t := g.thread(g.Intn(n))
		for j := 0; j < 1+g.Intn(6); j++ {
			o := g.call(g.Pick(0, 0, 2, 30, 400))
			if g.P(1, 2) {
				o = g.notify(g.Pick(0, 0, 2, 30, 400))
			}
			o.Spec.P = g.Pick(0, 0, 2, 7, 8, 9, 15)
			if o.K == "call" && g.P(1, 4) {
				o.Spec.O = g.outcome()
			}
			if o.K == "call" && g.P(1, 6) {
				o.Ctx = g.ctx(g.Pick(1, 5, 50, 300))
			}
			o.Bg = g.P(1, 4)
			o.Twice = o.K == "call" && g.P(1, 8)
			t.Ops = append(t.Ops, o)
			if g.P(1, 4) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 20, 300)))
			}
		}
	}
	if g.P(4, 5) {
		g.faults(1+g.Intn(4), g.Pick(20, 300))
	}
	g.longIdle(12)
	g.marathon(40)
	g.cycles(15)
	g.ticking(5)
}

func genC05(g *G) {
	g.server("ws", "h2")
	n := 1 + g.Intn(2)
	g.addClients(n, true)
	g.p("pre", g.Intn(3))
	g.sc.Server.Serial = g.P(2, 3)
	total := 0
	for i := 0; i < 1+g.Intn(3); i++ {
		t := g.thread(g.Intn(n))
		m := 3 + g.Intn(25)
		if g.P(1, 6) {
			m = 120 + g.Intn(60) // more than a queue holds
		}
		for j := 0; j < m; j++ {
			o := g.notify(0)
			if g.P(1, 12) {
				o = g.call(0)
			}
			if g.P(1, 10) {
				o.Spec.D = g.Pick(1, 5, 40)
				total += o.Spec.D
			}
			o.Spec.P = g.Pick(0, 0, 0, 2, 4, 8, 9, 15)
			if g.P(1, 40) {
				o.Spec.P = 10
			}
			if g.P(1, 8) {
				o.Spec.N = g.Pick(1, 5, 30, 130)
				o.Spec.G = g.Pick(0, 0, 0, 1)
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 20) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 10, 100)))
			}
		}
	}
	if g.P(1, 8) {
		// a client sends faster than the peer reads
		g.sc.Net.Window = g.Pick(512, 2048)
		if g.sc.Net.LatMaxUs > 2000 {
			g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = 10, 500
		}
		g.p("pre", 1)
		c := g.Intn(n)
		t := g.thread(c)
		for j := 0; j < 130+g.Intn(130); j++ {
			o := g.notify(0)
			o.Spec.P = g.Pick(0, 0, 0, 8)
			t.Ops = append(t.Ops, o)
		}
		dur := g.Pick(200, 1500, 3000, 12000, 40000)
		t.Ops = append(t.Ops, g.sleep(dur+500))
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: g.Pick(1, 5, 20), Dur: dur, Conn: 1000 + c})
	} else if g.P(1, 10) {
		// the server pushes more than fits while the peer does not read
		g.sc.Net.Window = g.Pick(512, 2048)
		if g.sc.Net.LatMaxUs > 2000 {
			g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = 10, 500
		}
		g.p("pre", 1)
		c, dur := g.Intn(n), g.Pick(3000, 8000, 20000, 70000)
		for i := 0; i < 1+g.Intn(2); i++ {
			t := g.thread(c)
			o := g.notify(0)
			o.Spec.N = g.Pick(130, 200, 400)
			t.Ops = append(t.Ops, o, g.sleep(dur+500))
		}
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: g.Pick(2, 5, 10, 30), Dur: dur, Conn: 1000 + c})
	}
	g.asks(6)
	g.p("quiesce", 2+total/1000)
	switch g.Weighted(3, 3, 1) {
	case 1:
		g.faults(1+g.Intn(2), g.Pick(5, 30, 200))
	case 2:
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: g.Intn(20), Dur: g.Pick(50, 3000), Conn: g.Intn(2)})
	}
	g.longIdle(12)
	g.casts(6)
	g.echoes(2)
}

func genC07(g *G) {
	g.anyServer()
	n := 1 + g.Intn(3)
	g.addClients(n, true)
	g.sc.Server.Depth = g.Pick(0, 1, 2, 3, 5)
	g.p("pre", g.Intn(2))
	g.sc.Server.Serial = g.sc.Server.Kind != "gateway" && g.P(1, 5)
	for i := 0; i < 1+g.Intn(4); i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 1, 30)
		if g.P(1, 2) {
			t.Ops = append(t.Ops, Op{K: "connect"}, Op{K: "wait", Bg: true})
		}
		g.lifeOps(t, 1+g.Intn(4))
		if g.P(1, 4) {
			o := g.call(g.Pick(0, 100))
			o.Spec.N = g.Pick(5, 150)
			t.Ops = append(t.Ops, o)
		}
	}
	if g.P(2, 3) {
		g.faults(1+g.Intn(3), g.Pick(5, 100, 2000))
	}
	g.closeActs(4)
	g.connActs(8)
	g.notReading(6, "", "restart", "restart", "reset", "close", "crash")
	g.someHostile(4)
	g.longIdle(12)
	g.cycles(10)
	g.throng(40)
	g.casts(8)
	g.someAliens(5)
	if g.P(1, 4) {
		g.sc.Server.Mute = g.Pick(2, 3)
	}
}

// someHostile: sometimes raw clients take part.
func (g *G) someHostile(den int) {
	if g.P(1, den) {
		for i := 0; i < 1+g.Intn(2); i++ {
			g.hostile(g.Pick(0, 20, 300))
		}
		g.p("rawend", g.Intn(2))
	}
}

func genC08(g *G) {
	if g.P(1, 15) {
		// clients the server turns away
		genC11(g)
		var ts []Thread
		for _, t := range g.sc.Threads {
			var ops []Op
			for _, o := range t.Ops {
				switch o.K {
				case "areq", "aup", "astream", "araw":
				default:
					ops = append(ops, o)
				}
			}
			if t.Ops = ops; len(ops) > 0 {
				ts = append(ts, t)
			}
		}
		g.sc.Threads = ts
		return
	}
	genC07(g)
	g.p("sendafter", g.Pick(0, 3, 250))
	if g.P(1, 2) {
		c := g.Intn(len(g.sc.Clients))
		o := g.call(g.Pick(0, 300, 3000))
		o.Spec.N = g.Pick(120, 300)
		o.Spec.G = g.Pick(0, 0, 1)
		o.Bg = true
		g.thread(c, o, g.sleep(g.Pick(1, 5, 50, 400)), Op{K: "close"})
		g.sc.Net.Window = g.Pick(512, 4096, 0)
		if g.P(1, 2) {
			g.sc.Faults = append(g.sc.Faults, Fault{K: g.PickS("freeze", "reset", "vanish", "restart"), At: g.Pick(1, 5, 50), Dur: 3000, Conn: 1000 + c})
		}
	}
	if g.P(1, 5) {
		// many things end one session at once
		t := g.thread(g.Intn(len(g.sc.Clients)))
		t.Delay = g.Pick(0, 3, 30)
		d := g.Pick(0, 0, 5)
		for i := 0; i < 15+g.Intn(25); i++ {
			o := g.notify(d)
			o.Spec.O, o.Bg = g.PickS("err", "err", "panic"), true
			t.Ops = append(t.Ops, o)
		}
	}
	if g.P(1, 5) {
		// nobody reads while many answers are due
		c := g.Intn(len(g.sc.Clients))
		t := g.thread(c)
		for i := 0; i < 130; i++ {
			o := g.call(g.Pick(0, 0, 5, 200))
			o.Spec.P, o.Bg, o.Id = 9, true, ""
			t.Ops = append(t.Ops, o)
		}
		g.sc.Net.Window = g.Pick(512, 4096)
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: g.Pick(1, 10, 50), Dur: 4000, Conn: 1000 + c},
			Fault{K: g.PickS("reset", "close", "restart"), At: g.Pick(500, 2000), Dur: 500, Conn: 1000 + c})
	}
}

func (g *G) anyCall() Op {
	o := Op{K: "call", Id: g.id(), Trace: g.trace()}
	switch g.Weighted(8, 2, 3, 2, 2, 2, 1, 2, 1, 2, 2, 2) {
	case 10:
		o.M = "any"
		o.Params = g.PickS(`["x"]`, `[null]`, `[{"a":[1,2,{"b":null}]}]`, `[12345678901234567890]`, `[[1,"2",null]]`, `[]`, `[1.25]`, `[false]`, `[{}]`, `[[]]`)
		if g.P(1, 3) {
			o.M = "anys"
			o.Params = g.PickS(`[["x",1,null,{"a":[]}],"s"]`, `[[],""]`, `[["q"],5]`, `[["q"],{}]`, `[["q"]]`)
		}
	case 11:
		o.M = "mix"
		o.Params = g.PickS(`[{"a":1},true,2]`, `[{},false,1.25]`, `[{"a":{"b":[null]}},true,-3e2]`, `[{"a":1},"true",2]`, `[{"a":1},true]`, `[{"a":1},true,"2"]`, `["m",true,1]`)
		if g.P(1, 3) {
			o.M = "ptr"
			o.Params = g.PickS(`[{"x":1,"n":"q"}]`, `[{"x":-7,"n":""}]`, `[{"x":"no","n":"q"}]`, `[]`, `["p"]`)
		}
	case 9:
		n := g.nap(g.Pick(0, 0, 1, 20))
		o.M, o.Spec = n.M, n.Spec
	case 0:
		o.M = "work"
		o.Spec = &Spec{D: g.Pick(0, 0, 0, 2, 40), O: g.outcome(), P: g.Pick(0, 0, 1, 2, 7, 13)}
	case 1:
		o.M = "plain"
		o.Params = g.PickS(`["x"]`, `[null]`, `[{"a":[1,2,{"b":null}]}]`, `[12345678901234567890]`, `{"k":1}`, `[[]]`, `"str"`, `[1.25]`)
		if g.P(1, 3) {
			o.Params = g.plainParams()
		}
	case 2:
		o.M = g.PickS("add", "add", "sub")
		if g.P(1, 4) {
			o.M, o.Params = "both", g.PickS(`[1]`, `[2]`, `[7]`, `[0]`)
			return o
		}
		o.Params = g.PickS(`[1,2]`, `[-5,5]`, `["1",2]`, `[1]`, `[]`, `[true,1]`, `[1,2,3]`, `[1.5,2]`, `[{},1]`)
	case 3:
		o.M = "concat"
		o.Params = g.PickS(`["a",["b","c"]]`, `["a",[]]`, `["a"]`, `[1,["b"]]`, `["a",[1]]`)
	case 4:
		o.M = "shift"
		o.Params = g.PickS(`[{"x":1,"n":"q"},5]`, `[{"x":-1,"n":""},0]`, `[{"x":"no","n":"q"},5]`, `[{"x":1,"n":"q"},"z"]`)
	case 5:
		o.M = "fail"
		o.Params = fmt.Sprintf(`[%d,"m%d"]`, g.Pick(-1, 0, 1, 404, -32000), g.Intn(100))
	case 6:
		o.M = "ctxadd"
		o.Params = fmt.Sprintf(`[%d]`, g.Intn(1000))
	case 7:
		o.M = g.PickS("nope", "gone", "work2", "Work", " work", "work\n", "sib0", "sib1", "rpc.x", "nope.err", "nope.rpc", "nope.panic", "nope.panicrpc", "nope.nil")
		o.Params = `[1]`
	case 8:
		o.M = "whoami"
	}
	return o
}

func genC09(g *G) {
	g.server("gateway", "gateway", "gateway", "ws", "h2", "h1")
	g.sc.Server.Missing = g.P(1, 4)
	g.sc.Server.Depth = g.Pick(0, 1, 2, 4)
	n := 1 + g.Intn(3)
	g.addClients(n, false)
	g.p("pre", g.Intn(2))
	for i := 0; i < 1+g.Intn(4); i++ {
		t := g.thread(g.Intn(n))
		for j := 0; j < 2+g.Intn(8); j++ {
			o := g.anyCall()
			o.Bg = g.P(1, 3)
			o.Unwrap = g.P(1, 8) && o.M == "work"
			if o.Unwrap {
				o.Spec.O, o.Spec.P = g.PickS("ok", "rpc", "err"), 0
			}
			if o.M == "work" && o.Spec != nil && g.P(1, 12) {
				o.Spec.O = "http"
			}
			if g.P(1, 6) {
				o = g.notify(0)
				o.Bg = g.P(1, 3)
			}
			t.Ops = append(t.Ops, o)
		}
	}
	if g.P(1, 5) {
		g.faults(1, 50)
	}
	if g.P(1, 8) {
		g.unread()
	}
	if c := g.Intn(n); g.sc.Clients[c].Kind == "h1" && g.P(1, 12) {
		// many at once, each of which takes long
		t := g.thread(c)
		for i := 0; i < g.Pick(1, 12, 30, 60); i++ {
			o := g.call(g.Pick(2500, 3500, 4200))
			o.Bg, o.Id = true, g.id()
			t.Ops = append(t.Ops, o)
		}
	}
	g.asks(6)
	g.someAliens(4)
	g.longIdle(12)
	g.multitude(50)
	g.marathon(60)
	g.ticking(5)
}

// unread: many answers are due while the client does not read.
func (g *G) unread() {
	c := g.Intn(len(g.sc.Clients))
	if g.sc.Clients[c].Kind == "h1" {
		return
	}
	g.sc.Net.Window = g.Pick(1024, 8192)
	if g.sc.Net.LatMaxUs > 1000 {
		g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = 10, 300
	}
	g.p("pre", 1)
	at := g.Pick(5, 30, 100)
	t := g.thread(c)
	t.Delay = at + g.Pick(-4, -1, 1)
	for i := 0; i < 110+g.Intn(60); i++ {
		o := g.call(g.Pick(0, 0, 5, 100, 100))
		o.Bg, o.Id = true, ""
		t.Ops = append(t.Ops, o)
	}
	g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: at, Dur: g.Pick(300, 1500, 4000), Conn: 1000 + c})
}

// plainParams: parameters that are a list, one value and nothing else, or an
// object; the first is what "plain" answers.
var deepJson = strings.Repeat(`[{"d":`, 70) + "null" + strings.Repeat("}]", 70)

var wideJson = func() string {
	l := []string{}
	for i := 0; i < 150; i++ {
		l = append(l, fmt.Sprintf(`"k%d":[%d]`, i, i))
	}
	return "{" + strings.Join(l, ",") + "}"
}()

func (g *G) plainParams() string {
	v := g.PickS(`null`, `9007199254740993`, `-9007199254740995`, `18446744073709551617`, `1e+300`, `-0.5`, `0.1`, `123456789.125`, `true`, `false`,
		`""`, `"a"`, `"\u0000\n\u2028\"\\/<&>"`, `"\ud83d\ude00"`, `{}`, `{"":null}`, `{"id":1,"method":"x","params":[],"result":null,"error":{}}`,
		`{"a":9007199254740993,"b":[9007199254740993,{"c":9223372036854775807}]}`, `{"a":{"b":{"c":{"d":[[[[null]]]]}}}}`, `{"f":1.5e-07,"g":[0,-1,200]}`)
	if g.P(1, 10) {
		v = g.PickS(deepJson, wideJson, `"`+longText[:2049]+`"`, `{"`+longText[:300]+`":[1]}`)
	}
	switch g.Intn(4) {
	case 0:
		return "[" + v + "]"
	case 1:
		return "[[" + v + "," + v + ",null]]"
	case 2:
		return "[" + v + ",1," + v + "]"
	}
	if v == "null" {
		return "[null]"
	}
	return v
}

func genC10(g *G) {
	if g.P(1, 5) {
		genRaw(g)
		return
	}
	g.anyServer()
	if g.P(1, 2) {
		g.sc.Net.MSS = g.Pick(1, 2, 17, 333, 1460, 4096)
		g.sc.Net.ShortRd = g.Pick(0, 1, 2, 5, 1000)
		if g.sc.Net.LatMaxUs > 20000 {
			g.sc.Net.LatMinUs, g.sc.Net.LatMaxUs = 0, 3000
		}
	}
	n := 1 + g.Intn(2)
	g.addClients(n, false)
	g.p("quiesce", 2)
	if g.P(1, 40) {
		// something huge
		g.sc.Net = mildNet(g.Rng)
		g.sc.Net.Window, g.sc.Net.MSS, g.sc.Net.ShortRd = 0, 0, 0
		for i := range g.sc.Clients {
			g.sc.Clients[i].Timeout = 0
		}
		for i := 0; i < n; i++ {
			t := g.thread(i)
			o := g.call(0)
			o.Spec.P = hugePay + g.Intn(4)
			o.Spec.O = g.PickS("ok", "map", "rpc", "msg")
			if g.P(1, 3) {
				o = g.notify(0)
				o.Spec.P = hugePay
			}
			t.Ops = append(t.Ops, o, g.call(0))
			if n == 1 && g.P(1, 3) { // and many of them
				for j := 0; j < 6; j++ {
					o := g.call(0)
					o.Spec.P = hugePay + 1 + g.Intn(3)
					t.Ops = append(t.Ops, o)
				}
			}
		}
		return
	}
	big := 0
	for i := 0; i < 1+g.Intn(3); i++ {
		t := g.thread(g.Intn(n))
		for j := 0; j < 1+g.Intn(5); j++ {
			k := g.Intn(16)
			if k == 10 {
				big++
				if big > 2 || g.sc.Net.MSS > 0 && g.sc.Net.MSS < 17 || g.sc.Net.ShortRd > 0 && g.sc.Net.ShortRd < 10 || g.sc.Net.Window > 0 && g.sc.Net.Window < 4096 {
					k = 9
				}
			}
			o := g.call(g.Pick(0, 0, 3))
			o.Spec.P = k
			o.Spec.O = g.PickS("ok", "ok", "ok", "map", "rpc", "msg")
			if g.P(1, 3) {
				o = g.notify(0)
				o.Spec.P = k
			}
			if g.P(1, 5) {
				o.Spec.N = g.Pick(1, 8)
			}
			if g.P(1, 6) {
				o = Op{K: "call", M: "plain", Params: g.plainParams(), Id: g.id(), Trace: g.trace()}
			}
			o.Bg = g.P(1, 4)
			t.Ops = append(t.Ops, o)
		}
	}
	if g.P(1, 2) {
		for i := 0; i < 1+g.Intn(3); i++ {
			f := Fault{K: "cut", Conn: g.Intn(4), Side: g.Intn(2), Bytes: g.Pick(0, 1, 2, 20, 150, 800, 4000, 9100)}
			if g.P(1, 2) {
				f.Bytes = g.Intn(1000)
			}
			f.On = g.PickS("conn", "client.connected", "handler.start", "net.write.client", "net.write.server", "call.start", "push")
			f.N = 1 + g.Intn(8)
			g.sc.Faults = append(g.sc.Faults, f)
		}
	}
	g.asks(6)
	g.someAliens(4)
	g.casts(6)
	g.echoes(5)
	g.marathon(60)
}

func genC12(g *G) {
	g.sc.Net = mildNet(g.Rng)
	if g.sc.Net.Window > 0 {
		g.sc.Net.Window = 0
	}
	n := 1 + g.Intn(3)
	serial := g.P(1, 2)
	if serial {
		g.server("ws", "h2")
	} else {
		g.anyServer()
	}
	g.sc.Server.Serial = serial
	g.sc.Server.Missing = g.P(1, 3)
	g.p("pre", 1)
	g.addClients(n, true)
	total := 0
	if !serial {
		g.p("c12", 1)
		for c := 0; c < n; c++ {
			t := g.thread(c)
			for j := 0; j < 1+g.Intn(3); j++ {
				o := g.call(g.Pick(500, 3000, 8500))
				o.Bg, o.Id = true, ""
				o.Spec.P = g.Pick(0, 0, 0, 9, 10, 12)
				t.Ops = append(t.Ops, o)
				if g.P(1, 3) {
					// a slow notification and a quick one
					t.Ops = append(t.Ops, g.notify(g.Pick(1500, 4000)), g.notify(g.Pick(0, 5)))
				}
				if g.P(1, 3) {
					h := Op{K: "call", M: "hold", Spec: &Spec{D: g.Pick(1000, 7000)}, Bg: true}
					t.Ops = append(t.Ops, h)
				}
			}
			for j := 0; j < g.Intn(4); j++ {
				o := g.nap(g.Pick(500, 3000, 8500))
				o.Bg = true
				t.Ops = append(t.Ops, o)
				if g.P(1, 2) {
					// and a quick one of the same kind
					o.Spec = &Spec{D: g.Pick(0, 5)}
					t.Ops = append(t.Ops, o)
				}
			}
			q := g.thread(c)
			q.Delay = g.Pick(1, 20)
			for j := 0; j < 2+g.Intn(6); j++ {
				o := g.call(g.Pick(0, 0, 5))
				o.Spec.O = g.PickS("", "", "rpc", "panic")
				o.Spec.P = g.Pick(0, 0, 9)
				if g.P(1, 3) {
					o = g.nap(g.Pick(0, 0, 5))
				}
				q.Ops = append(q.Ops, o, g.sleep(g.Pick(0, 3, 400)))
			}
		}
		g.crowd(g.Intn(n))
		if g.P(1, 4) && n > 1 {
			// trouble on client 0 only
			g.sc.Faults = append(g.sc.Faults, Fault{K: g.PickS("reset", "freeze", "part"), At: g.Intn(500), Dur: 2000, Conn: 1000})
		}
		g.longIdle(8)
		return
	}
	slow := g.Pick(-1, -1, 0)
	for i := 0; i < 1+g.Intn(3); i++ {
		c := g.Intn(n)
		t := g.thread(c)
		for j := 0; j < 3+g.Intn(12); j++ {
			d := g.Pick(0, 0, 0, 1, 3, 20, 200)
			if c == slow {
				d = g.Pick(0, 200, 2500)
			}
			total += d
			o := g.notify(d)
			if g.P(1, 3) {
				o = g.call(d)
				o.Bg = g.P(1, 2)
			}
			if o.K == "call" {
				o.Spec.O = g.PickS("", "rpc", "panic", "err", "nan")
			}
			t.Ops = append(t.Ops, o)
		}
	}
	g.p("quiesce", 2+total/1000)
	if g.P(1, 5) {
		g.faults(1, 100)
	}
	g.longIdle(12)
	g.throng(40)
}

func genC13(g *G) {
	g.sc.Net = mildNet(g.Rng)
	g.server("gateway")
	g.p("pre", g.Intn(2))
	g.sc.Clients = []ClientCfg{{Kind: "h1"}, {Kind: "ws"}, {Kind: "h2"}}
	if g.P(1, 2) {
		g.addClients(1+g.Intn(2), false)
	}
	for c := range g.sc.Clients {
		t := g.thread(c)
		t.Delay = g.Pick(0, 0, 2)
		for j := 0; j < 2+g.Intn(5); j++ {
			o := g.call(g.Pick(0, 0, 3, 100))
			o.Spec.N = g.Pick(0, 0, 0, 3)
			o.Spec.O = g.PickS("", "", "rpc", "err", "panic", "nan", "rpcnan")
			o.Bg = g.P(1, 4)
			if g.P(1, 5) {
				o = g.notify(0)
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 3) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 30, 300)))
			}
		}
	}
	if g.P(2, 3) {
		bad := g.Intn(len(g.sc.Clients))
		for i := 0; i < 1+g.Intn(3); i++ {
			f := Fault{K: g.PickS("reset", "cut", "freeze", "rst1", "close", "part", "vanish"), At: g.Intn(200), Dur: g.Pick(10, 3000), Conn: 1000 + bad, Side: g.Intn(2), Bytes: g.Intn(300)}
			if f.K == "close" {
				f.Conn = bad
			}
			g.sc.Faults = append(g.sc.Faults, f)
		}
	}
	if g.P(1, 2) {
		for i := 0; i < 1+g.Intn(4); i++ {
			g.hostile(g.Pick(0, 20, 300))
		}
	}
	g.someAliens(2)
	g.longIdle(12)
	g.throng(25)
	g.casts(6)
}

func genC14(g *G) {
	g.anyServer()
	if g.P(1, 8) {
		g.server("h1")
	}
	n := 1 + g.Intn(3)
	g.addClients(n, false)
	g.p("pre", g.Intn(2))
	g.p("probes", 6)
	g.p("end", g.Weighted(1, 4, 0, 2))
	g.sc.Server.Serial = (g.sc.Server.Kind == "ws" || g.sc.Server.Kind == "h2") && g.P(1, 4)
	for i := 0; i < 1+g.Intn(4); i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 1, 30)
		for j := 0; j < 1+g.Intn(4); j++ {
			o := g.call(g.Pick(0, 0, 5, 300, 2000))
			o.Spec.N = g.Pick(0, 0, 3, 130)
			o.Bg = g.P(1, 3)
			if g.P(1, 5) {
				o = Op{K: "call", M: "hold", Spec: &Spec{D: g.Pick(100, 5000)}, Bg: g.P(1, 2)}
			}
			if g.P(1, 5) {
				o = g.notify(g.Pick(0, 200))
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 3) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 30, 700)))
			}
		}
	}
	for i := 0; i < 1+g.Intn(2); i++ {
		f := Fault{K: "restart", At: g.Pick(0, 1, 2, 5, 50, 500), Dur: g.Pick(1, 20, 500, 3000)}
		if g.P(1, 2) {
			f.On = g.PickS("handler.start", "handler.end", "conn", "dial", "net.write.client", "net.write.server", "client.connected", "push", "onclose")
			f.N = 1 + g.Intn(8)
		}
		g.sc.Faults = append(g.sc.Faults, f)
	}
	if g.P(1, 4) {
		g.faults(1, 300)
	}
	g.notReading(6, "", "restart", "restart", "restart")
	g.closeActs(6)
	g.someHostile(4)
	g.throng(25)
	g.cycles(15)
}

func genC15(g *G) {
	g.anyServer()
	n := 1 + g.Intn(2)
	g.addClients(n, g.P(4, 5))
	g.p("pre", g.Pick(0, 1, 1))
	g.p("h1hold", 1)
	ctxs := false
	for i := 0; i < 1+g.Intn(4); i++ {
		c := g.Intn(n)
		t := g.thread(c)
		t.Delay = g.Pick(0, 0, 5)
		for j := 0; j < 1+g.Intn(4); j++ {
			switch g.Weighted(4, 3, 2, 1, 1) {
			case 0:
				t.Ops = append(t.Ops, Op{K: "call", M: "hold", Spec: &Spec{D: g.Pick(5, 500, 4000, 9000)}, Bg: g.P(2, 3), Trace: g.trace()})
			case 1:
				o := g.call(g.Pick(0, 0, 20, 500))
				if g.P(1, 2) && g.sc.P["pre"] > 0 {
					o.Ctx = g.ctx(g.Pick(1, 10, 200, 3000))
					ctxs = true
				}
				o.Bg = g.P(1, 3)
				t.Ops = append(t.Ops, o)
			case 2:
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 30, 700, 3000)))
			case 3:
				t.Ops = append(t.Ops, Op{K: "connect", Ctx: g.connCtx(g.Pick(1, 30, 400, 2000)), Bg: g.P(1, 4)})
			case 4:
				t.Ops = append(t.Ops, Op{K: "notify", M: "hold", Spec: &Spec{D: g.Pick(500, 9000)}})
			}
		}
	}
	if g.P(1, 2) && !ctxs {
		g.faults(1+g.Intn(2), g.Pick(5, 100, 2000))
	}
	if g.P(1, 3) {
		for i := range g.sc.Clients {
			if g.P(1, 2) {
				t := g.thread(i, Op{K: "connect", Ctx: g.connCtx(g.Pick(30, 400, 2000))}, g.sleep(g.Pick(5, 100)),
					Op{K: "call", M: "hold", Spec: &Spec{D: 9000}, Bg: true}, g.call(0))
				_ = t
				g.p("pre", 0)
			}
		}
	}
	g.p("quiesce", 10)
	g.notReading(8, "restart", "restart", "reset", "close", "crash")
	if g.P(1, 6) {
		// handlers at work for long
		d := g.Pick(35000, 62000, 130000, 310000, 3700000)
		o := Op{K: g.PickS("call", "notify"), M: "hold", Spec: &Spec{D: d}, Bg: true}
		g.thread(g.Intn(n), o)
		g.p("quiesce", d/1000+5)
	}
	g.longIdle(12)
	g.throng(40)
}

func genC16(g *G) {
	g.server("gateway", "gateway", "gateway", "ws", "h2", "h1")
	n := 1 + g.Intn(3)
	g.addClients(n, false)
	g.p("pre", g.Intn(2))
	for i := 0; i < 1+g.Intn(4); i++ {
		t := g.thread(g.Intn(n))
		for j := 0; j < 2+g.Intn(5); j++ {
			o := g.anyCall()
			if o.Trace == "" && g.P(2, 3) {
				o.Trace = fmt.Sprintf("tt-%d", g.Intn(4))
			}
			if o.M == "work" && g.P(1, 10) {
				o.Spec.D = g.Pick(5100, 10500)
			}
			o.Bg = g.P(1, 2)
			o.Twice = g.P(1, 5)
			if g.P(1, 5) {
				o = g.notify(g.Pick(0, 5))
			}
			if g.P(1, 12) {
				o.Ctx = fmt.Sprintf("ca:%d", g.Pick(1, 20))
			}
			t.Ops = append(t.Ops, o)
		}
	}
	if g.P(1, 5) {
		g.faults(1, 50)
	}
	g.someAliens(4)
	g.marathon(60)
	g.casts(8)
}
