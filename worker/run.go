package main

import (
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	jlibhttp "github.com/superisaac/jlib/http"
)

// waitUntil polls cond; it reports whether cond became true within max.
func (w *World) waitUntil(cond func() bool, max time.Duration) bool {
	end := w.now() + max
	d := time.Millisecond
	for !cond() {
		if w.now() >= end {
			return false
		}
		time.Sleep(d)
		if d < 200*time.Millisecond {
			d *= 2
		}
	}
	return true
}

func (w *World) startServer() *Server {
	s := w.newServer(w.sc.Server, ":"+simPort, len(w.servers))
	w.servers = append(w.servers, s)
	w.server = s
	s.serve()
	return s
}

// waitListening waits for the current server's port to open: starting takes a
// moment, more so while goroutines are being stalled.
func (w *World) waitListening() {
	w.waitUntil(func() bool { return w.net.listeners[":"+simPort] != nil }, 5*time.Second)
}

// replaceServer starts a new server once the old one has left its port.
func (w *World) replaceServer() {
	s := w.server
	if w.replacing {
		w.waitUntil(func() bool { return w.server != s }, 5*time.Second)
		return
	}
	w.replacing = true
	w.waitUntil(func() bool { return w.net.listeners[":"+simPort] == nil }, 3*time.Second)
	w.startServer()
	w.replacing = false
}

func (w *World) touch(client int) {
	if client < 0 {
		w.anyFault = true
		for i := range w.clients {
			w.touch(i)
		}
		return
	}
	if _, ok := w.touched[client]; !ok {
		w.touched[client] = w.now()
	}
}

func (w *World) clientOf(p *connPair) int {
	for _, c := range w.clients {
		if c.host == p.addr {
			return c.idx
		}
	}
	return -1
}

func (w *World) hookNet() {
	w.net.onDial = func(key string) func() {
		for _, c := range w.clients {
			if c.host == key {
				c.dials++
				c.inDial++
				t := w.now()
				w.ev("client%d dials", c.idx)
				w.probe("dial")
				return func() { c.inDial--; c.dialSum += w.now() - t }
			}
		}
		return func() {}
	}
	w.net.onOrphan = func() { w.touch(-1) }
	w.net.onConn = func(p *connPair) {
		w.ev("conn%d %s open", p.id, p.addr)
		w.probe("conn")
	}
	w.net.onWrite = func(c *simConn, n int) {
		if c.side == 0 {
			w.probe("net.write.client")
		} else {
			w.probe("net.write.server")
		}
	}
}

func (w *World) startFaults() {
	for i := range w.sc.Faults {
		f := &w.sc.Faults[i]
		if f.On != "" {
			w.trig = append(w.trig, &pendingTrigger{kind: f.On, count: f.N, fire: func() { w.fire(f) }})
			continue
		}
		time.AfterFunc(time.Duration(f.At)*time.Millisecond, func() { w.fire(f) })
	}
}

// pick chooses the connection a fault hits: Conn is an index into the open
// connections, or 1000+i for the open connections of client i.
func (w *World) pick(f *Fault) *connPair {
	l := w.net.open("")
	if f.Conn >= 1000 {
		i := f.Conn - 1000
		if i < len(w.clients) {
			l = w.net.open(w.clients[i].host)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[f.Conn%len(l)]
}

func (w *World) fire(f *Fault) {
	if w.healed {
		return
	}
	dur := time.Duration(f.Dur) * time.Millisecond
	fired := func(format string, a ...any) {
		w.faults[f.K]++
		w.ev("FAULT "+f.K+" "+format, a...)
	}
	target := "*"
	if f.Conn >= 1000 && f.Conn-1000 < len(w.clients) {
		target = w.clients[f.Conn-1000].host
	}
	touchTarget := func() {
		if target == "*" {
			w.touch(-1)
		} else {
			w.touch(f.Conn - 1000)
		}
	}
	switch f.K {
	case "reset":
		if p := w.pick(f); p != nil {
			fired("conn%d", p.id)
			w.touch(w.clientOf(p))
			p.disturbed = true
			p.resetBoth()
			w.unhang(p)
		}
	case "rst1":
		if p := w.pick(f); p != nil {
			fired("conn%d side%d", p.id, f.Side&1)
			w.touch(w.clientOf(p))
			p.disturbed = true
			if f.Side&1 == 1 {
				w.unhang(p) // the server's end knows at once
			}
			p.resetEnd(f.Side & 1)
			p.scheduleReset(1-f.Side&1, w.net.latency()+time.Duration(f.Dur)*time.Millisecond)
		}
	case "cut":
		if p := w.pick(f); p != nil {
			h := p.end(f.Side & 1).out
			fired("conn%d side%d +%d", p.id, f.Side&1, f.Bytes)
			w.touch(w.clientOf(p))
			p.disturbed = true
			h.cutAt = h.total + int64(f.Bytes)
		}
	case "part":
		ps := w.net.open("")
		if target != "*" {
			ps = w.net.open(target)
		}
		fired("%d conns %v", len(ps), dur)
		touchTarget()
		old := w.net.dialMode[target]
		w.net.dialMode[target] = "hang"
		for _, p := range ps {
			p.disturbed = true
			p.setCut(true)
			w.hangs = append(w.hangs, hangRec{p, w.now(), w.now() + dur})
		}
		w.heals = append(w.heals, func() {
			for _, p := range ps {
				p.setCut(false)
			}
			w.net.dialMode[target] = old
		})
		n := len(w.heals) - 1
		time.AfterFunc(dur, func() { w.healOne(n) })
	case "freeze":
		// one connection stops moving bytes for a while; nothing is lost
		if p := w.pick(f); p != nil {
			fired("conn%d %v", p.id, dur)
			i := w.clientOf(p)
			if i >= 0 && w.clients[i].st != nil && w.clients[i].isConnected() && w.clients[i].lastPair() == p {
				// only slower: an established connection does not break of it
				w.clients[i].frozen += dur
			} else {
				w.touch(i)
			}
			p.frozen = true
			p.setCut(true)
			w.hangs = append(w.hangs, hangRec{p, w.now(), w.now() + dur})
			w.heals = append(w.heals, func() { p.setCut(false) })
			n := len(w.heals) - 1
			time.AfterFunc(dur, func() { w.healOne(n) })
		}
	case "vanish":
		if p := w.pick(f); p != nil {
			fired("conn%d side%d", p.id, f.Side&1)
			w.touch(w.clientOf(p))
			p.disturbed = true
			p.vanish(f.Side & 1)
		}
	case "refuse", "hang", "drop":
		fired("%s %v", target, dur)
		touchTarget()
		old := w.net.dialMode[target]
		w.net.dialMode[target] = f.K
		w.heals = append(w.heals, func() { w.net.dialMode[target] = old })
		n := len(w.heals) - 1
		time.AfterFunc(dur, func() { w.healOne(n) })
	case "restart", "crash":
		s := w.server
		if s.canceled || s.crashed || w.replacing {
			return
		}
		if f.K == "crash" && w.net.listeners[":"+simPort] == nil {
			return // has not opened its port yet
		}
		fired("server%d %v", s.epoch, dur)
		if w.ups != nil {
			// the relay in front of it stands
			for i := range w.clients {
				if w.ups[i] {
					w.touch(i)
				}
			}
		} else {
			w.touch(-1)
		}
		if f.K == "restart" {
			s.stop()
		} else {
			s.crash()
		}
		w.heals = append(w.heals, func() {
			if w.server == s {
				w.replaceServer()
			}
		})
		n := len(w.heals) - 1
		time.AfterFunc(dur, func() { w.healOne(n) })
	case "close":
		i := f.Conn % len(w.clients)
		if w.clients[i].st == nil {
			return
		}
		fired("client%d", i)
		w.touch(i)
		w.live++
		go func() {
			defer func() { w.live-- }()
			w.clients[i].close()
		}()
	case "wall":
		fired("%v", dur)
		runtime.SimWallJump(int64(dur))
		w.wallJumps = append(w.wallJumps, wallJump{w.now(), dur})
	default:
		panic("harness: fault " + f.K)
	}
}

// unhang: a connection that stood still is gone.
func (w *World) unhang(p *connPair) {
	for i := range w.hangs {
		if h := &w.hangs[i]; h.p == p && h.to > w.now() {
			h.to = w.now()
		}
	}
}

func (w *World) healOne(i int) {
	if f := w.heals[i]; f != nil {
		w.heals[i] = nil
		f()
		w.ev("heal")
	}
}

// heal ends all faults.
func (w *World) heal() {
	if w.healed {
		return
	}
	w.healed = true
	w.trig = nil
	runtime.SimNoStall()
	for i := range w.heals {
		w.healOne(i)
	}
	// pending truncations do not outlive the fault phase
	for _, p := range w.net.conns {
		p.client.out.cutAt, p.server.out.cutAt = -1, -1
	}
	w.net.dialMode = map[string]string{}
	if w.server != nil && (w.server.canceled || w.server.crashed) {
		w.replaceServer()
		time.Sleep(5 * time.Millisecond)
		w.waitListening()
	}
	w.healAt = w.now()
	w.ev("healed")
}

// crash: the server's machine loses power: every connection is reset, the
// port closes, and nothing of it is heard any more. Its goroutines live on
// in this process and are stopped by its context at the end.
func (s *Server) crash() {
	s.crashed = true
	s.crashAt = s.w.now()
	if l := s.w.net.listeners[":"+simPort]; l != nil {
		l.Close()
	}
	for _, p := range s.w.net.open("") {
		if listenKey(p.addr) != ":"+simPort {
			continue
		}
		p.disturbed = true
		p.resetEnd(1)
		p.scheduleReset(0, s.w.net.latency())
	}
}

func (w *World) runGeneric() {
	sc := w.sc
	w.hookNet()
	w.startServer()
	for _, cc := range sc.Clients {
		w.newClient(cc, sc.Server.TLS)
	}
	time.Sleep(2 * time.Millisecond)
	w.waitListening()
	if sc.Prop == "C08" {
		w.atStart = tally(foreignGoroutines())
	}
	if sc.p("pre") > 0 {
		done := false
		w.live++
		go func() {
			for _, c := range w.clients {
				if c.st != nil {
					c.connect(&Op{K: "connect"})
				}
			}
			done = true
			w.live--
		}()
		// a server that keeps one of them waiting does not hold up the rest
		w.waitUntil(func() bool { return done }, 20*time.Second)
	}
	w.startFaults()
	for i := range sc.Threads {
		w.live++
		if sc.Threads[i].Raw != "" {
			go w.runRawThread(i, &sc.Threads[i])
		} else {
			go w.runThread(i, &sc.Threads[i])
		}
	}
	maxWork := time.Duration(sc.p("maxwork")) * time.Millisecond
	if maxWork == 0 {
		maxWork = 90 * time.Second
	}
	w.waitUntil(func() bool { return w.live == 0 }, maxWork)
	w.heal()
	w.waitUntil(func() bool { return w.live == 0 }, maxWork+400*time.Second)
	if w.live > 0 {
		w.stuck()
	}
	time.Sleep(time.Duration(3+sc.p("quiesce")) * time.Second)
	w.netIdle()
	if !w.waitUntil(func() bool { return w.live == 0 }, 120*time.Second) {
		w.stuck()
	}
	w.quiesced = true
	w.quiesceAt = w.now()
	w.ev("quiesced")
	w.checkQuiesce()
	if n := sc.p("probes"); n > 0 && !w.violated() {
		w.ctxsOver()
		w.recoveryProbes(n)
	}
	if sc.p("fresh") > 0 && !w.violated() {
		w.freshClients()
	}
	w.checkEndedConns()
	if sc.p("rawend") == 0 {
		w.endRaws()
	}
	w.shutdown()
	w.checkEnd()
}

func (w *World) endRaws() {
	for _, r := range w.raws {
		r.end()
	}
}

// freshClients: new clients are served.
func (w *World) freshClients() {
	kinds := map[string][]string{"gateway": {"h1", "ws", "h2"}, "ws": {"ws"}, "h2": {"h2"}, "h1": {"h1"}}[w.sc.Server.Kind]
	for _, k := range kinds {
		c := w.newClient(ClientCfg{Kind: k}, w.sc.Server.TLS)
		for i := 0; i < 2; i++ {
			r := c.call(-1, &Op{K: "call", M: "work", Spec: &Spec{P: i}}, fmt.Sprintf("fr%d.%d", c.idx, i))
			if r.err != nil || !r.res.IsResult() {
				w.violate("C06", "not-served", "a new client (%s) is not served: %s", k, r.outcome())
				break
			}
		}
	}
}

// netIdle waits until nothing is on its way any more.
func (w *World) netIdle() {
	last := int64(-1)
	for i := 0; i < 200; i++ {
		n := w.net.moved
		if n == last {
			return
		}
		last = n
		time.Sleep(time.Second + 8*time.Duration(w.sc.Net.LatMaxUs)*time.Microsecond)
	}
}

// ctxsOver waits until every context handed to a client has ended.
func (w *World) ctxsOver() {
	var end time.Duration
	for _, c := range w.clients {
		for _, r := range c.connects {
			if r.hasCtx && r.ctxEnd > end {
				end = r.ctxEnd
			}
		}
		for _, r := range c.calls {
			if r.hasCtx && r.ctxEnd > end {
				end = r.ctxEnd
			}
		}
		for _, r := range c.sends {
			if r.hasCtx && r.ctxEnd > end {
				end = r.ctxEnd
			}
		}
	}
	if d := end - w.now(); d > -time.Second {
		time.Sleep(d + time.Second + 4*time.Duration(w.sc.Net.LatMaxUs)*time.Microsecond)
	}
}

// stuck reports operations that never returned.
func (w *World) stuck() {
	for _, r := range w.calls {
		if !r.returned {
			w.violate("C02", "never-returned", "call %s of client%d (%s) begun at %v has not returned %v after the last fault ended",
				r.tok, r.client.idx, r.client.cfg.Kind, r.start, w.now()-w.healAt)
		}
	}
	for _, r := range w.sends {
		if !r.returned {
			w.violate("C08", "send-stuck", "Send %s of client%d (%s) begun at %v has not returned %v after the last fault ended",
				r.tok, r.client.idx, r.client.cfg.Kind, r.start, w.now()-w.healAt)
		}
	}
	for _, c := range w.clients {
		for _, r := range c.connects {
			if !r.returned {
				w.violate("C02", "connect-stuck", "Connect of client%d (%s) begun at %v has not returned", c.idx, c.cfg.Kind, r.start)
			}
		}
		if len(c.closeEnd) < len(c.closes) {
			w.violate("C08", "close-stuck", "Close of client%d (%s) begun at %v has not returned", c.idx, c.cfg.Kind, c.closes[len(c.closes)-1])
		}
	}
	if len(w.viol) == 0 {
		// waits may outlive the workload: they end with the connection
		for _, c := range w.clients {
			for _, r := range c.waits {
				if !r.returned {
					return
				}
			}
		}
		for _, s := range w.servers {
			for _, x := range s.execs {
				if !x.ended {
					w.note("handler %s has not ended", x.tok)
					return
				}
			}
		}
		panic(fmt.Sprintf("harness: %d operations live, none accounted for", w.live))
	}
}

func (w *World) note(format string, a ...any) { w.ev("NOTE "+format, a...) }

// violated: the property this run is about is.
func (w *World) violated() bool {
	for _, v := range w.viol {
		if v.Prop == w.sc.Prop {
			return true
		}
	}
	return false
}

// probeCall is a call made after the faults; nil if it does not return.
func (c *Client) probeCall(op *Op, tok string) *CallRec {
	var r *CallRec
	go func() { r = c.call(-1, op, tok) }()
	if !c.w.waitUntil(func() bool { return r != nil }, 60*time.Second) {
		c.w.violate("C03", "no-recovery", "client%d (%s): a call made after all faults ended (%s) has not returned for a minute", c.idx, c.cfg.Kind, tok)
		return nil
	}
	return r
}

// recoveryProbes: each streaming client must get going again.
func (w *World) recoveryProbes(n int) {
	for _, c := range w.clients {
		var ok *CallRec
		tries := 0
		for ; tries < n && ok == nil; tries++ {
			op := &Op{K: "call", M: "work", Spec: &Spec{P: 0}, Id: w.probeId(c)}
			r := c.probeCall(op, fmt.Sprintf("pr%d.%d", c.idx, tries))
			if r == nil {
				return
			}
			if r.err == nil && r.res != nil && r.res.IsResult() {
				ok = r
			} else {
				time.Sleep(100 * time.Millisecond)
			}
		}
		if ok == nil {
			w.violate("C03", "no-recovery", "client%d (%s): none of %d calls made after all faults ended succeeded; the last: %s",
				c.idx, c.cfg.Kind, n, c.calls[len(c.calls)-1].outcome())
			continue
		}
		w.probes["probe.tries."+fmt.Sprint(tries)]++
		if c.st == nil {
			continue
		}
		dials, pair := c.dials, c.lastPair()
		for i, gap := range []int{0, 40, 2500, 11000} {
			time.Sleep(time.Duration(gap) * time.Millisecond)
			op := &Op{K: "call", M: "work", Spec: &Spec{P: 0}, Id: w.probeId(c)}
			r := c.probeCall(op, fmt.Sprintf("po%d.%d", c.idx, i))
			if r == nil {
				return
			}
			if !(r.err == nil && r.res != nil && r.res.IsResult()) {
				w.violate("C03", "disturbed", "client%d (%s): a call succeeded on the new connection, the call %v later did not: %s",
					c.idx, c.cfg.Kind, time.Duration(gap)*time.Millisecond, r.outcome())
				break
			}
			if c.dials != dials || pair == nil || pair.client.closed {
				w.violate("C03", "closed", "client%d (%s): the connection its first call after the faults succeeded on was closed although nothing ended it", c.idx, c.cfg.Kind)
				break
			}
		}
	}
}

func (w *World) probeId(c *Client) string {
	if w.sc.p("probeids") > 0 && len(c.calls) > 0 {
		return c.calls[w.rng.Intn(len(c.calls))].op.Id
	}
	return ""
}

// shutdown ends everything in the order the scenario asks for.
func (w *World) shutdown() {
	// what is held open by a context still pending
	closeClients := func() {
		for _, c := range w.clients {
			if c.st != nil {
				c := c
				w.live++
				go func() { defer func() { w.live-- }(); c.close() }()
			}
		}
		if !w.waitUntil(func() bool { return w.liveCloses == 0 && w.closesDone() }, 30*time.Second) {
			w.stuck()
		}
		time.Sleep(time.Second)
	}
	w.endAt = w.now()
	w.preEnd()
	w.ending = true
	switch w.sc.p("end") {
	case 0:
		closeClients()
		w.checkClientEnd("closed")
		w.checkIdleServer()
		w.server.stop()
	case 1:
		w.server.stop()
		w.waitUntil(func() bool { return false }, 12*time.Second)
		w.checkClientEnd("server stopped")
		closeClients()
	case 2:
		for _, p := range w.net.open("") {
			p.disturbed = true
			p.resetBoth()
			w.unhang(p)
		}
		time.Sleep(2 * time.Second)
		w.checkClientEnd("reset")
		closeClients()
		w.server.stop()
	case 3:
		go w.server.stop()
		closeClients()
		w.checkClientEnd("both")
	}
	for _, s := range w.servers {
		s.stop()
	}
	w.endRaws()
	settle := 45 * time.Second
	if w.faults["vanish"] > 0 {
		settle = 210 * time.Second
	}
	time.Sleep(settle)
	w.ev("settled")
}

func tally(gs []string) map[string]int {
	m := map[string]int{}
	for _, g := range gs {
		m[strings.Join(strings.Fields(waited.ReplaceAllString(summarize(g), "")), " ")]++
	}
	return m
}

var waited = regexp.MustCompile(`\[[^\]]*\]| in goroutine [0-9]+`)

// checkEndedConns: the connection of a WebSocket session that has ended is
// closed, whatever the client at its other end does.
func (w *World) checkEndedConns() {
	if w.sc.Prop != "C08" || w.rawServer || w.violated() {
		return
	}
	left := func() *SessRec {
		for _, s := range w.servers {
			for _, rec := range s.order {
				if _, ok := rec.session.(*jlibhttp.WSSession); !ok || len(rec.closes) == 0 {
					continue
				}
				if p := w.pairOf(rec.conn); p != nil && !p.server.closed {
					return rec
				}
			}
		}
		return nil
	}
	if left() == nil {
		return
	}
	if !w.waitUntil(func() bool { return left() == nil }, 60*time.Second) {
		w.violate("C08", "ended-connection", "the server has not closed the connection of session %s, which has ended", sid(left().id))
	}
}

// checkIdleServer: all clients are gone and the server stands: it holds
// nothing that it did not hold when it started.
func (w *World) checkIdleServer() {
	if w.sc.Prop != "C08" || w.rawServer {
		return
	}
	w.endRaws()
	d := 75 * time.Second
	if w.faults["vanish"] > 0 {
		d = 210 * time.Second
	}
	time.Sleep(d)
	for _, s := range w.servers {
		for _, x := range s.execs {
			if !x.ended {
				return
			}
		}
	}
	w.ev("idle")
	now := tally(foreignGoroutines())
	for _, k := range sortedKeys(now) {
		n := now[k]
		if strings.HasSuffix(k, "/http.ListenAndServe") {
			continue // the server itself
		}
		if m := w.atStart[k]; n > m {
			w.violate("C08", "server-goroutine", "%d more goroutines than at the start are left on the server after all clients have gone: %s", n-m, short(k, 1000))
		}
	}
	for _, p := range w.net.conns {
		if !p.harness && (!p.client.closed || !p.server.closed) && !p.abandonedPreface() {
			w.violate("C08", "server-connection", "a connection is left open after all clients have gone: conn%d to %s: client end closed=%v, server end closed=%v", p.id, p.addr, p.client.closed, p.server.closed)
			return
		}
	}
}

func (w *World) closesDone() bool {
	for _, c := range w.clients {
		if len(c.closes) == 0 && c.st != nil || len(c.closeEnd) < len(c.closes) {
			return false
		}
	}
	return true
}

// foreign goroutines: everything alive that is not the harness's own.
func foreignGoroutines() []string {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	var l []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, "github.com/superisaac/jlib") || strings.Contains(g, "net/http") ||
			strings.Contains(g, "golang.org/x/net") || strings.Contains(g, "gorilla/websocket") {
			l = append(l, g)
		}
	}
	sort.Strings(l)
	return l
}
