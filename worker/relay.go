package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// A relay: a server whose handlers pass what they are given on to another
// server, through a client of the library, and answer with its answer.

const frontPort = "7001"

// RelayRec is one message a relay was given.
type RelayRec struct {
	tok    string
	up     *Client
	conn   string // of the caller
	start  time.Duration
	end    time.Duration
	ended  bool
	err    error
	upAt   time.Duration // its upstream connection stood, or was said to
	isReq  bool
	caller *Client
}

// Front is the relaying server.
type Front struct {
	w        *World
	ctx      context.Context
	cancel   context.CancelFunc
	handler  http.Handler
	actor    *jlibhttp.Actor
	ups      []*Client
	perSess  map[string]*Client
	recs     []*RelayRec
	byTok    map[string][]*RelayRec
	returned bool
	next     int
	stopAt   time.Duration
	stopped  bool
}

func (w *World) newFront() *Front {
	f := &Front{w: w, perSess: map[string]*Client{}, byTok: map[string][]*RelayRec{}}
	f.ctx, f.cancel = context.WithCancel(context.Background())
	f.actor = jlibhttp.NewActor()
	hold := f.actor
	if w.sc.p("frontdepth") > 0 {
		hold = jlibhttp.NewActor()
		f.actor.AddChild(hold)
	}
	if w.sc.p("relaymode") == 0 {
		if err := f.actor.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return f.relay(req, false) }); err != nil {
			panic("harness: " + err.Error())
		}
	} else {
		for _, m := range append([]string{"plain", "add", "nobody", "hold"}, workNames...) {
			unwrap := w.sc.p("relaymode") == 2
			if err := hold.OnRequest(m, func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) { return f.relay(req, unwrap) }); err != nil {
				panic("harness: " + err.Error())
			}
		}
	}
	if w.sc.p("persess") > 0 {
		f.actor.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
			if up := f.perSess[session.SessionID()]; up != nil && w.sc.p("persess") == 2 {
				up.close()
			}
		})
	}
	tls := w.sc.p("fronttls") > 0
	switch k := w.sc.S["front"]; k {
	case "gateway":
		f.handler = jlibhttp.NewGatewayHandler(f.ctx, f.actor, !tls)
	case "ws":
		f.handler = jlibhttp.NewWSHandler(f.ctx, f.actor)
	case "h2":
		if h := jlibhttp.NewH2Handler(f.ctx, f.actor); tls {
			f.handler = h
		} else {
			f.handler = h.H2CHandler()
		}
	case "h1":
		f.handler = jlibhttp.NewH1Handler(f.actor)
	default:
		panic("harness: front " + k)
	}
	return f
}

func (f *Front) serve() {
	var tls []*jlibhttp.TLSConfig
	if f.w.sc.p("fronttls") > 0 {
		tls = append(tls, tlsFiles())
	}
	go func() {
		err := jlibhttp.ListenAndServe(f.ctx, ":"+frontPort, f.handler, tls...)
		f.returned = true
		f.w.ev("front serve returned: %v", err != nil)
	}()
}

func (f *Front) stop() {
	if !f.stopped {
		f.stopped, f.stopAt = true, f.w.now()
		f.w.ev("front cancel")
		f.cancel()
	}
}

// upFor is the upstream client a request goes through.
func (f *Front) upFor(req *jlibhttp.RPCRequest) (*Client, context.Context) {
	ses := req.Session()
	if f.w.sc.p("persess") == 0 || ses == nil {
		f.next++
		return f.ups[f.next%len(f.ups)], f.ctx
	}
	id := ses.SessionID()
	up := f.perSess[id]
	if up == nil {
		kinds := strings.Split(f.w.sc.S["up"], ",")
		up = f.w.newClient(ClientCfg{Kind: kinds[len(f.perSess)%len(kinds)]}, f.w.sc.Server.TLS)
		f.perSess[id] = up
		f.w.ups[up.idx] = true
		if up.st != nil {
			// what the server behind pushes is passed on
			up.onMsg = func(m *MsgRec) {
				if m.kind == "notify" {
					ses.Send(m.msg)
				}
			}
		}
	}
	return up, req.Context()
}

func (f *Front) relay(req *jlibhttp.RPCRequest, unwrap bool) (interface{}, error) {
	w := f.w
	msg := req.Msg()
	if !msg.IsRequestOrNotify() {
		return nil, nil
	}
	tok := ""
	if p := msg.MustParams(); len(p) > 0 {
		tok, _ = p[0].(string)
	}
	up, connCtx := f.upFor(req)
	r := &RelayRec{tok: tok, up: up, conn: req.HttpRequest().RemoteAddr, start: w.now(), isReq: msg.IsRequest()}
	r.caller = w.clientAt(r.conn)
	f.recs = append(f.recs, r)
	f.byTok[tok] = append(f.byTok[tok], r)
	w.ev("relay %s via client%d", tok, up.idx)
	w.probe("relay.start")
	var res interface{}
	var err error
	if up.st != nil && !(w.sc.p("persess") == 2 && req.Context().Err() != nil) {
		err = up.st.Connect(connCtx)
	}
	r.upAt = w.now()
	if err == nil {
		if reqmsg, ok := msg.(*jlib.RequestMessage); !ok {
			err = up.c.Send(req.Context(), msg)
		} else if unwrap {
			var out interface{}
			err = up.c.UnwrapCall(req.Context(), reqmsg, &out)
			res = out
		} else {
			var resmsg jlib.Message
			resmsg, err = up.c.Call(req.Context(), reqmsg)
			if err == nil {
				res = resmsg
			}
		}
	}
	r.ended, r.end, r.err = true, w.now(), err
	w.ev("relayed %s err=%v", tok, err != nil)
	w.probe("relay.end")
	if !msg.IsRequest() {
		return nil, nil // nobody to tell
	}
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (w *World) runRelay() {
	sc := w.sc
	w.ups = map[int]bool{}
	w.hookNet()
	w.startServer()
	f := w.newFront()
	f.serve()
	callers := len(sc.Clients)
	for _, cc := range sc.Clients {
		cc.Port = frontPort
		w.newClient(cc, sc.p("fronttls") > 0)
	}
	for _, k := range strings.Split(sc.S["up"], ",") {
		up := w.newClient(ClientCfg{Kind: k}, sc.Server.TLS)
		w.ups[up.idx] = true
		f.ups = append(f.ups, up)
	}
	time.Sleep(2 * time.Millisecond)
	w.waitListening()
	w.waitUntil(func() bool { return w.net.listeners[":"+frontPort] != nil }, 5*time.Second)
	if sc.p("pre") > 0 {
		for _, c := range w.clients[:callers] {
			if c.st != nil {
				c.connect(&Op{K: "connect"})
			}
		}
	}
	w.startFaults()
	for i := range sc.Threads {
		w.live++
		go w.runThread(i, &sc.Threads[i])
	}
	w.waitUntil(func() bool { return w.live == 0 }, 90*time.Second)
	w.heal()
	if !w.waitUntil(func() bool { return w.live == 0 }, 490*time.Second) {
		w.stuck()
	}
	time.Sleep(3 * time.Second)
	w.waitUntil(func() bool {
		for _, r := range f.recs {
			if !r.ended {
				return false
			}
		}
		return true
	}, 25*time.Second)
	w.netIdle()
	w.quiesced, w.quiesceAt = true, w.now()
	w.ev("quiesced")
	w.indexExecs()
	f.checkReleased()
	if !w.violated() {
		w.ctxsOver()
		f.recover(w.clients[:callers])
	}
	w.endAt = w.now()
	f.checkCallers(w.clients[:callers])
	w.ending = true
	f.end()
	w.indexExecs()
	f.check(w.clients[:callers])
	w.checkLeaks()
}

// recover: once nothing fails any more, calls through the relay succeed.
func (f *Front) recover(callers []*Client) {
	w := f.w
	for _, c := range callers {
		ok := false
		for i := 0; i < 8 && !ok; i++ {
			r := c.probeCall(&Op{K: "call", M: "work", Spec: &Spec{P: i % 3}}, fmt.Sprintf("pr%d.%d", c.idx, i))
			if r == nil {
				return
			}
			ok = r.err == nil && r.res.IsResult()
			if !ok {
				time.Sleep(200 * time.Millisecond)
			}
		}
		if !ok {
			w.violate("C23", "no-recovery", "client%d (%s): none of 8 calls through the relay made after all faults ended succeeded; the last: %s", c.idx, c.cfg.Kind, c.calls[len(c.calls)-1].outcome())
			return
		}
	}
}

func (f *Front) end() {
	w := f.w
	closeAll := func() {
		for _, c := range w.clients {
			if c.st != nil {
				c := c
				w.live++
				go func() { defer func() { w.live-- }(); c.close() }()
			}
		}
		if !w.waitUntil(func() bool { return w.liveCloses == 0 && w.closesDone() }, 30*time.Second) {
			w.stuck()
		}
		time.Sleep(time.Second)
	}
	switch w.sc.p("end") {
	case 0:
		closeAll()
		f.stop()
		w.server.stop()
	case 1:
		f.stop()
		time.Sleep(12 * time.Second)
		closeAll()
		w.server.stop()
	case 2:
		w.server.stop()
		time.Sleep(12 * time.Second)
		f.stop()
		closeAll()
	case 3:
		f.stop()
		w.server.stop()
		closeAll()
	}
	for _, s := range w.servers {
		s.stop()
	}
	f.stop()
	time.Sleep(45 * time.Second)
	w.ev("settled")
	if !f.returned {
		w.violate("C14", "serve-stuck", "the relay's context was cancelled at %v and its serve call has not returned", f.stopAt)
	}
}

// undisturbed: nothing but the library decided what became of the caller's
// connection, or the connection of an upstream client, up to then.
func (f *Front) undisturbed(c *Client, at time.Duration) bool {
	w := f.w
	if t, ok := w.touched[c.idx]; ok && t <= at {
		return false
	}
	for _, t := range c.closes {
		if t <= at {
			return false
		}
	}
	for _, r := range c.connects {
		if r.hasCtx && r.ctxEnd <= at+eps {
			return false
		}
	}
	for _, r := range c.calls {
		if r.hasCtx && !r.connAt {
			return false
		}
	}
	for _, r := range c.sends {
		if r.hasCtx && !r.connAt {
			return false
		}
	}
	if w.ups[c.idx] {
		for _, s := range w.servers {
			if s.canceled && s.cancelAt <= at || s.crashed && s.crashAt <= at {
				return false
			}
		}
	}
	return !(f.stopped && f.stopAt <= at)
}

// upsUndisturbed: all a token's message went through was.
func (f *Front) upsUndisturbed(tok string, at time.Duration) bool {
	for _, s := range f.w.servers {
		if s.canceled && s.cancelAt <= at || s.crashed && s.crashAt <= at {
			return false
		}
	}
	if len(f.byTok[tok]) == 0 { // cannot be told
		for i := range f.w.ups {
			if !f.undisturbed(f.w.clients[i], at) {
				return false
			}
		}
	}
	for _, r := range f.byTok[tok] {
		if !f.undisturbed(r.up, at) {
			return false
		}
	}
	return true
}

func (w *World) frozenSum() time.Duration {
	var d time.Duration
	for i := range w.sc.Faults {
		if w.sc.Faults[i].K == "freeze" {
			d += time.Duration(w.sc.Faults[i].Dur) * time.Millisecond
		}
	}
	return d
}

// checkCallers: whatever happens behind the relay, the connections of its
// callers stand.
func (f *Front) checkCallers(callers []*Client) {
	for _, c := range callers {
		for _, t := range c.closed {
			if f.undisturbed(c, t) {
				f.w.violate("C23", "caller-closed", "client%d (%s): its connection to the relay was closed at %v although nothing happened to it", c.idx, c.cfg.Kind, t)
				return
			}
		}
	}
}

// checkReleased: relayed calls come to an end, soon so when their caller is gone.
func (f *Front) checkReleased() {
	w := f.w
	for _, r := range f.recs {
		if !r.ended {
			w.violate("C23", "stuck", "the relaying of %s through client%d (%s) begun at %v has not ended %v after the last fault", r.tok, r.up.idx, r.up.cfg.Kind, r.start, w.now()-w.healAt)
			return
		}
		lim := r.up.limit() + w.slack() + w.frozenSum() + w.netAllow() + time.Second
		if d := r.end - r.upAt; d > lim {
			w.violate("C23", "slow", "the relaying of %s through client%d (%s) took %v once connected", r.tok, r.up.idx, r.up.cfg.Kind, d)
			return
		}
		p := w.pairOf(r.conn)
		if p == nil || !p.client.closed || p.frozen || p.wasCut || p.disturbed && !p.client.closed {
			continue
		}
		gone := p.client.closedAt
		if gone < r.upAt {
			gone = r.upAt
		}
		if d := r.end - gone; r.isReq && d > 3*time.Second+w.slack()+w.netAllow()+w.frozenSum() {
			w.violate("C23", "not-released", "the relayed call %s went on for %v after its caller's connection (%s) had been closed", r.tok, d, r.conn)
			return
		}
	}
}

func (f *Front) check(callers []*Client) {
	w := f.w
	for _, r := range w.calls {
		c := r.client
		if w.ups[c.idx] || !r.returned {
			continue
		}
		what := fmt.Sprintf("call %s of client%d (%s) through the relay", r.tok, c.idx, c.cfg.Kind)
		if r.panicked != "" {
			w.violate("C23", "panic", "%s panicked: %s", what, r.panicked)
			continue
		}
		sl := w.slack()
		took := r.end - r.start
		rs := f.byTok[r.tok]
		es := w.execByTok[r.tok]
		mine := f.undisturbed(c, r.end) && !r.hasCtx
		clean := mine && f.upsUndisturbed(r.tok, r.end)
		handled := r.op.M == "work" || r.op.M == "hold"
		if handled {
			if len(es) > 1 || len(rs) > 1 {
				w.violate("C23", "twice", "%s was given to the relay %d times and ran %d times behind it", what, len(rs), len(es))
			}
			for _, e := range es {
				if want := canon(c.params(r.op, r.tok)); e.params != want {
					w.violate("C23", "params", "%s ran with parameters %s instead of %s", what, short(e.params, 150), short(want, 150))
				}
				if e.trace != r.trace {
					w.violate("C23", "trace", "%s was sent with trace id %q and its handler behind the relay saw %q", what, r.trace, e.trace)
				}
				if e.method == "work" && !e.isReq {
					w.violate("C23", "kind", "%s reached its handler as a notification", what)
				}
			}
		}
		exp := w.expect(r.op, r.tok, c)
		chain := c.st == nil && len(rs) == 1 && rs[0].up.st == nil
		if r.err != nil {
			var wr *jlibhttp.WrappedResponse
			if errors.As(r.err, &wr) {
				if exp.http != "" && chain {
					if got := httpReply(wr); got != exp.http {
						w.violate("C23", "http-reply", "%s: the http response reached its caller as %s instead of %s", what, got, exp.http)
					}
					continue
				}
				w.violate("C23", "foreign", "%s was answered with an http response nobody gave: %s", what, httpReply(wr))
				continue
			}
			if mine && !(c.st == nil && took >= c.limit()-eps) {
				w.violate("C23", "no-reply", "%s failed although nothing happened to its connection: %s", what, r.outcome())
			}
			continue
		}
		if r.res == nil || !r.res.IsResultOrError() {
			w.violate("C23", "not-a-response", "%s returned no response: %s", what, r.outcome())
			continue
		}
		if canon(r.res.MustId()) != canon(r.reqId) {
			w.violate("C23", "id", "%s asked with id %s and got a response with id %s", what, canon(r.reqId), canon(r.res.MustId()))
		}
		if r.res.TraceId() != r.trace && !(r.op.Unwrap && !isTimeout(r.res)) {
			w.violate("C23", "response-trace", "%s was sent with trace id %q and its response carries %q", what, r.trace, r.res.TraceId())
		}
		if t, ok := tokenIn(r.res); ok && t != r.tok {
			w.violate("C23", "crossed", "%s got the response of another call: %s", what, r.outcome())
			continue
		}
		busy := w.workD(r.op) + 2*w.netAllow() + sl + c.frozen
		for _, x := range rs {
			busy += x.up.frozen
		}
		if isTimeout(r.res) {
			if took < 10*time.Second-eps {
				w.violate("C23", "early-timeout", "%s was answered with a timeout after only %v", what, took)
			} else if clean && busy+3*time.Second < 10*time.Second {
				w.violate("C23", "timeout", "%s timed out although nothing disturbed it and its handler needs only %v", what, w.workD(r.op))
			}
			continue
		}
		m := exp.matches(r.res)
		if exp.http != "" && chain {
			m = "a JSON-RPC response instead of the http response"
		}
		internal := r.res.IsError() && r.res.MustError() != nil && r.res.MustError().Code == -32603
		if m != "" {
			if internal && !clean {
				continue // what was behind the relay could not be had
			}
			if internal && len(rs) == 1 && rs[0].up.st == nil && rs[0].end-rs[0].start >= rs[0].up.limit()-eps {
				continue // the relay's own timeout
			}
			w.violate("C23", "reply", "%s got %s", what, m)
			continue
		}
		if handled && len(es) == 0 && (clean || !internal) {
			w.violate("C23", "unexecuted", "%s was answered with %s and never ran", what, r.outcome())
		}
		if clean && took > busy+3*time.Second {
			w.violate("C23", "delayed", "%s took %v although its handler needs only %v", what, took, w.workD(r.op))
		}
	}
	for _, r := range w.sends {
		c := r.client
		if w.ups[c.idx] || !r.returned || r.op.M != "work" {
			continue
		}
		es := w.execByTok[r.tok]
		what := fmt.Sprintf("notification %s of client%d (%s) through the relay", r.tok, c.idx, c.cfg.Kind)
		if len(es) > 1 || len(f.byTok[r.tok]) > 1 {
			w.violate("C23", "twice", "%s was given to the relay %d times and ran %d times behind it", what, len(f.byTok[r.tok]), len(es))
		}
		for _, e := range es {
			if want := canon(c.params(r.op, r.tok)); e.params != want || e.isReq || e.trace != r.trace {
				w.violate("C23", "params", "%s reached its handler as %s trace %q (request: %v) instead of %s trace %q", what, short(e.params, 150), e.trace, e.isReq, short(want, 150), r.trace)
			}
		}
		mine := f.undisturbed(c, w.quiesceAt) && !r.hasCtx
		if r.err != nil && f.undisturbed(c, r.end) && !r.hasCtx && !(c.st == nil && r.end-r.start >= c.limit()-eps) {
			w.violate("C23", "send-failed", "%s failed although nothing happened to its connection: %v", what, r.err)
		}
		if r.err == nil && mine && len(es) == 0 && f.upsUndisturbed(r.tok, w.quiesceAt) {
			w.violate("C23", "lost", "%s was sent, nothing disturbed it, and it never ran", what)
		}
	}
	f.checkPushes(callers)
}

// checkPushes: what the server behind pushed while it handled a call reaches
// the caller, in order and once, if each caller has an upstream of its own.
func (f *Front) checkPushes(callers []*Client) {
	w := f.w
	if w.sc.p("persess") == 0 {
		return
	}
	for _, c := range callers {
		if c.st == nil {
			continue
		}
		seen, at := map[string]int{}, map[string]int{}
		for _, m := range c.msgs {
			if m.kind != "notify" || m.method != "pushed" || len(m.params) == 0 {
				continue
			}
			pt, _ := m.params[0].(string)
			tok, n := pt, 0
			if i := strings.LastIndex(pt, "."); i >= 0 {
				tok = pt[:i]
				fmt.Sscan(pt[i+1:], &n)
			}
			if r := w.callOf(tok); r != nil && r.client != c {
				w.violate("C23", "push-crossed", "client%d was given %s, pushed for a call of client%d", c.idx, pt, r.client.idx)
				return
			}
			if seen[pt]++; seen[pt] > 1 {
				w.violate("C23", "push-twice", "client%d was given %s %d times", c.idx, pt, seen[pt])
				return
			}
			if k, ok := at[tok]; ok && n < k {
				w.violate("C23", "push-order", "client%d was given %s after %s.%d", c.idx, pt, tok, k)
				return
			}
			at[tok] = n
		}
		for _, r := range c.calls {
			if r.op.M != "work" || r.op.Spec == nil || r.op.Spec.N == 0 || !r.returned || r.err != nil || r.hasCtx || len(w.execByTok[r.tok]) != 1 {
				continue
			}
			rs := f.byTok[r.tok]
			if len(rs) != 1 || rs[0].up.st == nil || !f.undisturbed(c, w.quiesceAt) || !f.upsUndisturbed(r.tok, w.quiesceAt) {
				continue
			}
			for i := 0; i < r.op.Spec.N; i++ {
				if seen[fmt.Sprintf("%s.%d", r.tok, i)] == 0 {
					w.violate("C23", "push-lost", "client%d was not given %s.%d, pushed by the server behind the relay, although nothing disturbed it", c.idx, r.tok, i)
					return
				}
			}
		}
	}
}

func (w *World) callOf(tok string) *CallRec {
	for _, r := range w.calls {
		if r.tok == tok {
			return r
		}
	}
	return nil
}

// httpOut is the http response the outcome "http" answers with.
func httpOut(tok string) *jlibhttp.WrappedResponse {
	code := []int{503, 404, 429, 302, 401}[hashStr(tok)%5]
	body := "busy \x00\xff " + tok
	switch hashStr(tok) / 7 % 6 {
	case 0:
		body += longText[:90000]
	case 1:
		body = ""
	case 2:
		body += longText[:3000] + "\r\n"
	}
	return &jlibhttp.WrappedResponse{
		Response: &http.Response{StatusCode: code, Header: http.Header{"X-Over": {tok, "2 " + tok}, "Content-Type": {"text/odd"}}},
		Body:     []byte(body),
	}
}

func httpReply(r *jlibhttp.WrappedResponse) string {
	return fmt.Sprintf("%d %q %q %q", r.Response.StatusCode, r.Response.Header["X-Over"], r.Response.Header["Content-Type"], fmt.Sprintf("%d bytes %x %s", len(r.Body), hashStr(string(r.Body)), short(string(r.Body), 30)))
}

func genC23(g *G) {
	g.sc.Family = "relay"
	g.sc.S = map[string]string{}
	g.server("gateway", "gateway", "ws", "h2", "h1")
	g.sc.Server.Missing = g.P(1, 4)
	nu := 1 + g.Intn(3)
	var ups []string
	for i := 0; i < nu; i++ {
		ups = append(ups, g.clientFor())
	}
	g.sc.S["up"] = strings.Join(ups, ",")
	front := g.PickS("gateway", "gateway", "ws", "h2", "h1")
	g.sc.S["front"] = front
	g.p("fronttls", b2i(g.P(1, 6)))
	g.p("frontdepth", g.Intn(2))
	g.p("relaymode", g.Intn(3))
	g.p("persess", g.Pick(0, 0, 1, 2))
	g.p("pre", g.Intn(2))
	behind := g.sc.Server.Kind
	g.sc.Server.Kind = front
	n := 1 + g.Intn(4)
	g.addClients(n, false)
	g.sc.Server.Kind = behind
	for i := range g.sc.Clients {
		if g.sc.Clients[i].Kind == "h1" && g.P(1, 3) {
			g.sc.Clients[i].Timeout = g.Pick(2, 13)
		}
	}
	for i := 0; i < 1+g.Intn(6); i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 10, 500)
		for j := 0; j < 1+g.Intn(6); j++ {
			var o Op
			switch g.Weighted(10, 2, 1, 2, 1) {
			case 0:
				o = g.call(g.Pick(0, 0, 1, 20, 500, 3000))
				o.Spec.O, o.Spec.P = g.outcome(), g.Intn(16)
				if g.P(1, 5) {
					o.Spec.O = "http"
				}
				if g.P(1, 5) {
					o.Spec.N, o.Spec.G = 1+g.Intn(12), g.Pick(0, 0, 3)
				}
				if g.P(1, 12) {
					o.Spec.D = g.Pick(6000, 11000)
				}
				o.Bg = g.P(1, 3)
				if g.P(1, 10) {
					o.Ctx = g.ctx(g.Pick(0, 5, 200, 2000))
				}
			case 1:
				o = g.notify(g.Pick(0, 5, 300))
			case 2:
				o = g.sleep(g.Pick(1, 100, 4000))
			case 3:
				o = Op{K: "call", M: g.PickS("plain", "add", "nobody"), Id: g.id(), Trace: g.trace(), Params: g.PickS("[1,2]", "[\"a\"]", "[{\"x\":[]}, 3]", "[9007199254740993, 1]")}
			case 4:
				o = Op{K: "call", M: "hold", Spec: &Spec{D: g.Pick(500, 9000)}, Id: g.id(), Trace: g.trace(), Bg: g.P(1, 2)}
			}
			t.Ops = append(t.Ops, o)
		}
		if g.P(1, 8) {
			t.Ops = append(t.Ops, g.sleep(g.Pick(0, 20, 800)), Op{K: "close"})
		}
	}
	if g.P(1, 2) {
		for i := 0; i < 1+g.Intn(4); i++ {
			f := g.connFault(g.Pick(50, 500, 4000))
			switch f.K {
			case "part", "hang", "vanish", "close":
				f.K, f.Dur = g.PickS("freeze", "reset", "restart"), g.Pick(10, 300, 3000)
			}
			f.Conn = 1000 + n + g.Intn(nu)
			if g.P(1, 4) {
				f.Conn = g.Intn(8)
				if f.K == "refuse" || f.K == "drop" {
					f.Conn = 1000 + g.Intn(n+nu)
				}
			}
			if f.On != "" && g.P(1, 3) {
				f.On = g.PickS("relay.start", "relay.end", "handler.start", "handler.end")
			}
			g.sc.Faults = append(g.sc.Faults, f)
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
