package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"time"

	logrus "github.com/sirupsen/logrus"
	"github.com/superisaac/jlib"

	"jlibverif/worker/prog"
)

// Proc is one command-line program that ran.
type Proc struct {
	tok      string
	kind     string
	client   *Client
	op       *Op
	slot     *prog.Prog
	header   http.Header
	start    time.Duration
	end      time.Duration
	exited   bool
	code     int
	panicked string
	out      []outChunk
	errOut   string
	errAt    []time.Duration
	dials    []time.Duration
}

type outChunk struct {
	at time.Duration
	b  []byte
}

func (p *Proc) who() string {
	return fmt.Sprintf("jsonrpc-%s %s (client%d, %s)", p.kind, p.tok, p.client.idx, p.client.cfg.Kind)
}

func (p *Proc) stdout() []byte {
	var b []byte
	for _, c := range p.out {
		b = append(b, c.b...)
	}
	return b
}

// ready: its connections stood, nothing was done to the server.
func (p *Proc) pairs() []*connPair { return p.client.pairs() }

// guessArg spells a value the way the programs read their arguments.
func guessArg(v interface{}, quote bool) string {
	s, ok := v.(string)
	if !ok {
		return canon(v)
	}
	plain := s != "true" && s != "false" && s != "null" && !strings.ContainsRune(s, 0)
	if _, err := strconv.ParseFloat(s, 64); err == nil || strings.HasPrefix(s, "0x") {
		plain = false
	}
	if s != "" && strings.ContainsRune(`@[{"`, rune(s[0])) {
		plain = false
	}
	if plain && !quote {
		return s
	}
	return canon(s)
}

// progOp runs a program.
func (w *World) progOp(ti, oi int, c *Client, op *Op, tok string) bool {
	if op.K != "prog" {
		return false
	}
	kind := op.S
	var slot *prog.Prog
	for _, s := range prog.All {
		if s.Kind == kind && !s.Used {
			slot = s
			break
		}
	}
	for _, p := range w.procs {
		if p.client == c {
			slot = nil // one process each
		}
	}
	if slot == nil {
		w.probes["prog.skipped"]++
		return true
	}
	slot.Used = true
	p := &Proc{tok: tok, kind: kind, client: c, op: op, slot: slot, header: http.Header{}}
	args := []string{"jsonrpc-" + kind}
	if op.Unwrap {
		slot.Env = map[string]string{"JSONRPC_CONNECT": c.url}
	} else {
		args = append(args, "-c", c.url)
	}
	for _, h := range []string{"X-Sim=" + tok, "X-Two = a=b; c ", "X-Sim=again"}[:op.Rep%4] {
		args = append(args, "-header", h)
		k, v, _ := strings.Cut(h, "=")
		p.header.Add(strings.TrimSpace(k), strings.TrimSpace(v))
	}
	switch kind {
	case "watch":
		if op.Ms != 1 {
			args = append(args, "-retry", fmt.Sprint(op.Ms))
		}
	case "benchmark":
		if op.Ms > 0 {
			args = append(args, "-m", fmt.Sprint(op.Ms%100), "-n", fmt.Sprint(op.Ms/100))
		}
	}
	if op.M != "" {
		args = append(args, op.method())
		for i, v := range c.params(op, tok).([]interface{}) {
			args = append(args, guessArg(v, (len(tok)+i+op.Rep)%3 == 0))
		}
	}
	slot.Args = args
	p.start = w.now()
	w.procs = append(w.procs, p)
	w.ev("prog %s %s on client%d", kind, tok, c.idx)
	w.probes["prog."+kind]++
	slot.OnOut = func(b []byte) {
		p.out = append(p.out, outChunk{w.now(), append([]byte(nil), b...)})
		w.ev("prog %s prints %d", tok, len(b))
		w.probe("client.message")
	}
	slot.OnErr = func(b []byte) {
		if len(p.errOut) < 5000 {
			p.errOut += string(b)
		}
	}
	slot.OnExit = func(code int) {
		p.exited, p.code, p.end = true, code, w.now()
		w.ev("prog %s exits %d", tok, code)
		w.probe("call.end")
		for _, q := range w.net.open(c.host) {
			q.client.Close()
		}
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				p.panicked = fmt.Sprint(r)
				if e, ok := r.(*logrus.Entry); ok {
					p.panicked = e.Message
				}
				slot.Finish(2)
			}
			slot.Finish(0)
		}()
		slot.Main()
	}()
	if kind != "watch" {
		<-done
	}
	return true
}

// procOf is the process at a client's address.
func (w *World) procOf(c *Client) *Proc {
	for _, p := range w.procs {
		if p.client == c {
			return p
		}
	}
	return nil
}

func (w *World) runCli() {
	if len(prog.All) == 0 {
		panic("harness: built without the programs")
	}
	logrus.StandardLogger().ExitFunc = func(code int) {
		panic("harness: log.Fatal")
	}
	w.hookNet()
	onDial, onConn := w.net.onDial, w.net.onConn
	w.net.onDial = func(key string) func() {
		for _, p := range w.procs {
			if p.client.host == key {
				p.dials = append(p.dials, w.now())
			}
		}
		return onDial(key)
	}
	w.net.onConn = func(q *connPair) {
		onConn(q)
		for _, p := range w.procs {
			if p.client.host == q.addr && p.exited {
				q.client.Close()
			}
		}
	}
	w.extraOp = w.progOp
	w.onBegin = func(r *http.Request) {
		c := w.clientAt(r.RemoteAddr)
		if c == nil {
			return
		}
		if p := w.procOf(c); p != nil {
			for k, l := range p.header {
				if got := r.Header[k]; canon(got) != canon(l) {
					w.violate("C22", "header", "%s was told to send the header %s: %q, its call came with %q", p.who(), k, l, got)
				}
			}
		}
	}
	w.startServer()
	for _, cc := range w.sc.Clients {
		w.newClient(cc, false)
	}
	time.Sleep(2 * time.Millisecond)
	w.waitListening()
	w.startFaults()
	for i := range w.sc.Threads {
		w.live++
		go w.runThread(i, &w.sc.Threads[i])
	}
	w.waitUntil(func() bool { return w.live == 0 }, 120*time.Second)
	w.heal()
	w.waitUntil(func() bool { return w.live == 0 }, 300*time.Second)
	for _, p := range w.procs {
		if p.kind != "watch" && !p.exited {
			w.violate("C22", "never-exits", "%s is still running %v after it started and %v after the last fault ended", p.who(), w.now()-p.start, w.now()-w.healAt)
		}
	}
	for _, r := range w.calls {
		if !r.returned {
			w.violate("C22", "never-returned", "call %s has not returned", r.tok)
		}
	}
	time.Sleep(4 * time.Second)
	w.netIdle()
	w.waitUntil(func() bool { return w.pushers == 0 }, 60*time.Second)
	time.Sleep(2 * time.Second)
	w.netIdle()
	w.quiesced = true
	w.quiesceAt = w.now()
	w.ev("quiesced")
	w.indexExecs()
	for _, p := range w.procs {
		switch p.kind {
		case "call":
			w.checkProgCall(p)
		case "notify":
			w.checkProgNotify(p)
		case "benchmark":
			w.checkBench(p)
		case "watch":
			w.checkWatch(p)
		}
	}
	// the server goes for good, and with it whoever watches
	w.server.stop()
	most := 0
	for _, p := range w.procs {
		if p.kind == "watch" {
			most = max(most, p.op.Ms)
		}
	}
	w.waitUntil(func() bool {
		for _, p := range w.procs {
			if !p.exited {
				return false
			}
		}
		return true
	}, time.Duration(most)*1200*time.Millisecond+20*time.Second+w.slack())
	for _, p := range w.procs {
		if p.kind == "watch" {
			w.checkWatchEnd(p)
		}
	}
	for _, p := range w.procs {
		for _, q := range w.net.open(p.client.host) {
			q.client.Close()
		}
	}
	for _, c := range w.clients {
		if c.st != nil {
			c.close()
		}
	}
	time.Sleep(time.Second)
}

// docs are the JSON documents in what a program printed.
func docs(b []byte) (l []json.RawMessage, ends []int, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		var m json.RawMessage
		if err := d.Decode(&m); err == io.EOF {
			return l, ends, nil
		} else if err != nil {
			return l, ends, err
		}
		l = append(l, m)
		ends = append(ends, int(d.InputOffset()))
	}
}

// spared: nothing happened to the program's connections or its server.
func (p *Proc) spared() bool {
	c := p.client
	return c.clean(p.end) && c.frozen == 0
}

// slow: the handler takes about as long as a client waits.
func (p *Proc) slow() bool {
	w := p.client.w
	d := w.workD(p.op)
	if p.op.Spec != nil {
		d += time.Duration(p.op.Spec.N*p.op.Spec.G) * time.Millisecond
	}
	if p.client.cfg.Kind == "h1" {
		return d+w.slack()+w.netAllow() > 4500*time.Millisecond
	}
	return d+w.slack()+w.netAllow() > 9500*time.Millisecond
}

func (w *World) checkExecParams(p *Proc) []*Exec {
	l := w.execsOf(p.tok)
	want := canon(p.client.params(p.op, p.tok))
	for _, x := range l {
		if x.params != want {
			w.violate("C22", "arguments", "%s was to pass %s, the handler got %s", p.who(), short(want, 200), short(x.params, 200))
		}
	}
	return l
}

func (w *World) checkProgCall(p *Proc) {
	if !p.exited {
		return
	}
	l := w.checkExecParams(p)
	if len(l) > 1 {
		w.violate("C22", "executed-twice", "the one call of %s was executed %d times", p.who(), len(l))
	}
	out := p.stdout()
	if p.panicked != "" {
		w.violate("C22", "crashed", "%s crashed: %s", p.who(), short(p.panicked, 300))
		return
	}
	failed := ""
	if p.code != 0 {
		failed = fmt.Sprintf("exit %d, %s", p.code, short(p.errOut, 300))
		if len(out) > 0 {
			w.violate("C22", "output", "%s failed (%s) but printed %s", p.who(), failed, short(string(out), 200))
		}
		if p.errOut == "" {
			w.violate("C22", "output", "%s exited with %d and did not say why", p.who(), p.code)
		}
	} else {
		ds, _, err := docs(out)
		if err != nil || len(ds) != 1 {
			w.violate("C22", "output", "%s exited with 0 and printed %d messages: %s", p.who(), len(ds), short(string(out), 300))
			return
		}
		res, err := jlib.ParseBytes(ds[0])
		if err != nil || !res.IsResultOrError() {
			w.violate("C22", "output", "%s printed what is no response: %s", p.who(), short(string(out), 300))
			return
		}
		if id, ok := res.MustId().(string); !ok || id == "" {
			w.violate("C22", "output", "%s printed a response without its id: %s", p.who(), short(string(out), 300))
		}
		if isTimeout(res) {
			failed = "request timeout"
		} else {
			if d := w.expect(p.op, p.tok, p.client).matches(res); d != "" {
				w.violate("C22", "output", "%s printed %s", p.who(), d)
			}
			if p.op.M == "work" && len(l) == 0 {
				w.violate("C22", "output", "%s printed a response though no handler ran", p.who())
			}
		}
	}
	if failed == "" {
		w.probes["prog.answered"]++
	} else if p.spared() && !p.slow() {
		w.violate("C22", "failed", "%s failed although nothing happened to it: %s", p.who(), failed)
	}
}

func (w *World) checkProgNotify(p *Proc) {
	if !p.exited {
		return
	}
	l := w.checkExecParams(p)
	if len(l) > 1 {
		w.violate("C22", "executed-twice", "the notification of %s was executed %d times", p.who(), len(l))
	}
	if p.panicked != "" {
		w.violate("C22", "crashed", "%s crashed: %s", p.who(), short(p.panicked, 300))
		return
	}
	if out := p.stdout(); len(out) > 0 {
		w.violate("C22", "output", "%s printed %s", p.who(), short(string(out), 200))
	}
	if p.code != 0 {
		if p.errOut == "" {
			w.violate("C22", "output", "%s exited with %d and did not say why", p.who(), p.code)
		}
		if p.spared() && !p.slow() {
			w.violate("C22", "failed", "%s failed although nothing happened to it: exit %d, %s", p.who(), p.code, short(p.errOut, 300))
		}
		return
	}
	if len(l) == 0 && p.client.clean(p.end+time.Second+w.slack()+w.netAllow()) && p.client.frozen == 0 {
		w.violate("C22", "notify-lost", "%s reported success, nothing happened to it, and its notification was never handled", p.who())
	}
}

func (w *World) checkBench(p *Proc) {
	if !p.exited {
		return
	}
	l := w.checkExecParams(p)
	m, n := 10, 10
	if p.op.Ms > 0 {
		m, n = p.op.Ms%100, p.op.Ms/100
	}
	if p.panicked != "" {
		w.violate("C22", "crashed", "%s crashed: %s", p.who(), short(p.panicked, 300))
		return
	}
	if len(l) > m*n {
		w.violate("C22", "executed-twice", "%s was to make %d calls and made %d", p.who(), m*n, len(l))
	}
	spared := p.spared() && !p.slow()
	if spared && len(l) < m*n {
		w.violate("C22", "calls", "%s was to make %d calls and made %d", p.who(), m*n, len(l))
	}
	if spared && (p.code != 0 || p.errOut != "") {
		w.violate("C22", "failed", "%s failed although nothing happened to it: exit %d, %s", p.who(), p.code, short(p.errOut, 300))
	}
	if p.code != 0 {
		return
	}
	// so many at a time
	if spared {
		most, first, last := 0, 0*time.Second, 0*time.Second
		for i, x := range l {
			k := 0
			for _, y := range l {
				if y.startSeq <= x.startSeq && (!y.ended || y.endSeq > x.startSeq) {
					k++
				}
			}
			most = max(most, k)
			if i == 0 || x.end-x.start < first {
				first = x.end - x.start
			}
			last = max(last, x.end-x.start)
		}
		if most > m {
			w.violate("C22", "calls", "%s had %d calls under way at once, told to use %d clients", p.who(), most, m)
		}
		if w.workD(p.op) >= 50*time.Millisecond && most < min(m, len(l)) && w.slack() == 0 && w.sc.Net.LatMaxUs < 5000 {
			w.violate("C22", "calls", "%s never had more than %d calls under way, told to use %d clients", p.who(), most, m)
		}
		var avg, lo, p95, hi float64
		out := string(p.stdout())
		if _, err := fmt.Sscanf(out, "avg=%gs, min=%gs, p95=%gs, max=%gs\n", &avg, &lo, &p95, &hi); err != nil || strings.Count(out, "\n") != 1 {
			w.violate("C22", "output", "%s printed %s", p.who(), short(out, 200))
			return
		}
		const e = 1e-6
		if !(lo <= avg+e && avg <= hi+e && lo <= p95+e && p95 <= hi+e) || math.IsNaN(avg) {
			w.violate("C22", "output", "%s printed figures that contradict each other: %s", p.who(), short(out, 200))
		}
		if lo < first.Seconds()-e || hi < last.Seconds()-e || hi > (p.end-p.start).Seconds()+e {
			w.violate("C22", "output", "%s printed %s; handling took %v to %v, all of it %v", p.who(), strings.TrimSpace(out), first, last, p.end-p.start)
		}
		w.probes["prog.measured"]++
	}
}

type printed struct {
	at   time.Duration
	msg  jlib.Message
	what string // tok.i or same:tok of a push, "answer"
	tok  string
}

// watched reads what a watch printed.
func (w *World) watched(p *Proc) (l []*printed, ok bool) {
	out := p.stdout()
	ds, ends, err := docs(out)
	if err != nil {
		w.violate("C22", "output", "%s printed what is not JSON: %v in %s", p.who(), err, short(string(out), 300))
		return nil, false
	}
	chunk, end := 0, 0
	if len(p.out) > 0 {
		end = len(p.out[0].b)
	}
	for i, d := range ds {
		for ends[i] > end {
			chunk++
			end += len(p.out[chunk].b)
		}
		pr := &printed{at: p.out[chunk].at}
		m, err := jlib.ParseBytes(d)
		if err != nil {
			w.violate("C22", "output", "%s printed what is no message: %s", p.who(), short(string(d), 300))
			return nil, false
		}
		pr.msg = m
		l = append(l, pr)
		if m.IsResultOrError() {
			pr.what = "answer"
			continue
		}
		ps := m.MustParams()
		s := ""
		if len(ps) > 0 {
			s, _ = ps[0].(string)
		}
		switch m.MustMethod() {
		case "pushed":
			k := strings.LastIndexByte(s, '.')
			n := -1
			if k > 0 {
				n, _ = strconv.Atoi(s[k+1:])
				pr.tok = s[:k]
			}
			if len(ps) != 2 || n < 0 || canon(ps[1]) != canon(padding(n)) {
				w.violate("C22", "output", "%s printed a message nobody pushed: %s", p.who(), short(string(d), 200))
				return nil, false
			}
			pr.what = s
		case "same":
			pr.tok, pr.what = s, "same:"+s
		default:
			w.violate("C22", "output", "%s printed a message nobody pushed: %s", p.who(), short(string(d), 200))
			return nil, false
		}
	}
	return l, true
}

// pushesOf is what the server pushes for a token, in order.
func (w *World) pushesOf(tok string) (l []string) {
	n, own := 0, false
	for i := range w.sc.Threads {
		for j := range w.sc.Threads[i].Ops {
			op := &w.sc.Threads[i].Ops[j]
			if fmt.Sprintf("t%d.%d", i, j) == tok && op.Spec != nil {
				if op.K == "prog" {
					n, own = op.Spec.N, true
				} else {
					n = op.Spec.B
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; own && j < sames(i); j++ {
			l = append(l, "same:"+tok)
		}
		l = append(l, fmt.Sprintf("%s.%d", tok, i))
	}
	return l
}

func (w *World) checkWatch(p *Proc) {
	l, ok := w.watched(p)
	if !ok {
		return
	}
	pairs := p.pairs()
	own := w.execsOf(p.tok)
	answers := 0
	seen := map[string]int{} // by token: how far this connection's have come
	k := 0
	byTok := func(tok string) []string { return w.pushesOf(tok) }
	for _, pr := range l {
		// a later connection begins anew
		for k+1 < len(pairs) && pairs[k+1].opened() <= pr.at {
			k++
			seen = map[string]int{}
		}
		if pr.what == "answer" {
			if isTimeout(pr.msg) {
				// the client's own; the server's may still come
				continue
			}
			answers++
			if id, ok := pr.msg.MustId().(string); !ok || id == "" {
				w.violate("C22", "output", "%s printed a response without its id", p.who())
			}
			if d := w.expect(p.op, p.tok, p.client).matches(pr.msg); d != "" {
				w.violate("C22", "output", "%s printed %s", p.who(), d)
			}
			continue
		}
		e := byTok(pr.tok)
		if i := seen[pr.tok]; i >= len(e) || e[i] != pr.what {
			want := "nothing more of it"
			if i < len(e) {
				want = e[i]
			}
			if w.slack() < 900*time.Millisecond {
				w.violate("C22", "watch-order", "%s printed %s where %s was due", p.who(), pr.what, want)
				return
			}
		}
		seen[pr.tok]++
	}
	if answers > len(pairs) || p.op.M == "" && answers > 0 {
		w.violate("C22", "output", "%s printed %d responses over %d connections", p.who(), answers, len(pairs))
	}
	perConn := map[string]int{}
	for _, x := range own {
		if perConn[x.conn]++; perConn[x.conn] > 1 {
			w.violate("C22", "executed-twice", "%s made its call more than once over one connection", p.who())
		}
	}
	w.checkExecParams(p)
	w.probes["watch.connections"] += len(pairs)
	w.probes["watch.printed"] += len(l)
	// all of what was pushed to a connection that stands
	q := p.standing()
	if q == nil {
		return
	}
	w.probes["watch.standing"]++
	for _, s := range w.servers {
		for _, rec := range s.order {
			if rec.conn != q.client.laddr.String() {
				continue
			}
			got := map[string]int{}
			for _, pr := range l {
				if pr.at >= q.opened() {
					got[pr.what]++
				}
			}
			for _, t := range rec.pushed {
				if got[t] != 1 {
					w.violate("C22", "watch-missing", "%s printed %s, pushed over the connection it still has, %d times", p.who(), t, got[t])
					return
				}
			}
		}
	}
	if p.op.M != "" && !p.slow() && w.sc.p("orderly") > 0 {
		n := 0
		for _, pr := range l {
			if pr.what == "answer" && pr.at >= q.opened() {
				n++
			}
		}
		if n != 1 {
			w.violate("C22", "watch-answer", "%s printed %d responses to the call it makes over the connection it has", p.who(), n)
		}
	}
}

// standing is the connection a running watch has had undisturbed.
func (p *Proc) standing() *connPair {
	l := p.pairs()
	if p.exited || len(l) == 0 {
		return nil
	}
	q := l[len(l)-1]
	if q.disturbed || q.wasCut || q.frozen || !q.alive() {
		return nil
	}
	return q
}

// settled: the n-th connection carried an answer, or stood for a while.
func (w *World) settled(p *Proc, q *connPair, l []*printed) bool {
	for _, pr := range l {
		if pr.what == "answer" && pr.at >= q.opened() {
			return true
		}
	}
	return false
}

// checkWatchEnd: it gave up when it had tried often enough, not before.
func (w *World) checkWatchEnd(p *Proc) {
	if p.panicked != "" && w.sc.p("orderly") > 0 {
		w.violate("C22", "crashed", "%s crashed: %s", p.who(), short(p.panicked, 300))
		return
	}
	gone := false
	for _, q := range p.pairs() {
		gone = gone || q.client.vanished || q.server.vanished
	}
	if !p.exited {
		if !gone {
			w.violate("C22", "never-exits", "%s is still running long after its server has gone for good (retries %d, attempts %d)", p.who(), p.op.Ms, len(p.dials))
		}
		return
	}
	// a failed attempt and the next are a second apart; a connection lost at
	// once is made again by the call
	for i := 1; i < len(p.dials); i++ {
		opened := false
		for _, q := range p.pairs() {
			opened = opened || q.opened() >= p.dials[i-1] && q.opened() <= p.dials[i]
		}
		if !opened && p.dials[i]-p.dials[i-1] < time.Second-time.Millisecond {
			w.violate("C22", "retry-pace", "%s tried to connect %v after the attempt before", p.who(), p.dials[i]-p.dials[i-1])
		}
	}
	if w.sc.p("orderly") == 0 || len(p.dials) == 0 {
		return
	}
	l, ok := w.watched(p)
	if !ok {
		return
	}
	pairs := p.pairs()
	failures := len(p.dials)
	what := "it never had a connection"
	if len(pairs) > 0 {
		q := pairs[len(pairs)-1]
		if p.op.M == "" || !w.settled(p, q, l) {
			w.probes["watch.unsettled"]++
			return
		}
		failures = 1
		for _, d := range p.dials {
			if d > q.opened() {
				failures++
			}
		}
		what = fmt.Sprintf("its last connection, over which it was answered, opened at %v", q.opened())
	}
	if failures != p.op.Ms {
		w.violate("C22", "gave-up", "%s exited after %d failures in a row, told to take %d; %s; it said: %s", p.who(), failures, p.op.Ms, what, short(p.errOut, 300))
		return
	}
	if p.code != 0 {
		w.violate("C22", "gave-up", "%s exited with %d", p.who(), p.code)
	}
	w.probes["watch.gave-up"]++
}

// reBig finds the numbers a command line does not carry exactly.
var reBig = regexp.MustCompile(`[0-9]{19}|[0-9][eE]`)

// genC22: the command-line programs at work.
func genC22(g *G) {
	g.sc.Family = "cli"
	g.anyServer()
	g.sc.Server.TLS = false
	g.sc.Net.Window = g.Pick(0, 0, 4096, 65536)
	orderly := g.P(1, 2)
	if orderly {
		g.p("orderly", 1)
	}
	n := 0
	client := func(streaming bool) int {
		g.addClients(1, streaming)
		n++
		return n - 1
	}
	watchers := g.Weighted(3, 4, 2)
	span := 0
	for i := 0; i < watchers; i++ {
		c := client(true)
		o := Op{K: "prog", S: "watch", M: "work", Ms: g.Pick(1, 1, 2, 3, 5, 8), Unwrap: g.P(1, 6), Rep: g.Intn(4)}
		o.Spec = &Spec{N: g.Pick(0, 1, 3, 8, 30), G: g.Pick(0, 0, 1, 20, 100), P: g.Pick(0, 0, 2, 7, 9), O: g.PickS("", "", "map", "rpc")}
		if g.P(1, 8) {
			o.M, o.Spec = "", nil
		}
		t := g.thread(c, o)
		t.Delay = g.Pick(0, 0, 5, 100)
	}
	if watchers > 0 {
		// others have things pushed to all
		c := client(false)
		t := g.thread(c)
		t.Delay = g.Pick(10, 100, 400)
		for i := 0; i < 1+g.Intn(4); i++ {
			o := g.call(0)
			o.Id = ""
			o.Spec.B, o.Spec.G = g.Pick(1, 4, 20, 60), g.Pick(0, 0, 3, 50)
			t.Ops = append(t.Ops, o, g.sleep(g.Pick(10, 300, 1500, 4000)))
		}
		span = 4000
	}
	for i := 0; i < g.Weighted(1, 2, 2, 1, 1); i++ {
		k := g.PickS("call", "call", "call", "notify", "notify", "benchmark")
		c := client(false)
		o := Op{K: "prog", S: k, M: "work", Unwrap: g.P(1, 6), Rep: g.Intn(4)}
		o.Spec = &Spec{D: g.Pick(0, 0, 5, 100, 2000), P: g.Pick(0, 0, 1, 2, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14)}
		switch k {
		case "call":
			o.Spec.O = g.outcome()
			if g.P(1, 3) {
				a := g.anyCall()
				var v interface{}
				if a.Params == "" || json.Unmarshal([]byte(a.Params), &v) == nil {
					if _, list := v.([]interface{}); a.Params == "" || list && !reBig.MatchString(a.Params) {
						o.M, o.Spec, o.Params = a.M, a.Spec, a.Params
						if o.Spec != nil && o.Spec.P%16 == 3 {
							o.Spec.P = 0
						}
					}
				}
			}
		case "notify":
			o.Spec.D = g.Pick(0, 0, 3)
		case "benchmark":
			o.Ms = g.Pick(0, 101, 110, 302, 205, 1003, 2001, 340)
			o.Spec = &Spec{D: g.Pick(0, 0, 1, 10, 60, 300)}
		}
		t := g.thread(c, o)
		t.Delay = g.Pick(0, 0, 3, 50, span)
	}
	if orderly {
		for i := 0; i < g.Weighted(2, 3, 2); i++ {
			f := Fault{K: "restart", At: g.Pick(50, 500, 2000, 5000) + g.Intn(300), Dur: g.Pick(1, 100, 1500, 3000, 7000)}
			g.sc.Faults = append(g.sc.Faults, f)
		}
	} else if g.P(3, 4) {
		g.faults(1+g.Intn(3), g.Pick(20, 300, 4000))
	}
}

// opened is when a connection was made, since the start of the run.
func (p *connPair) opened() time.Duration { return p.openedAt - p.net.t0 }
