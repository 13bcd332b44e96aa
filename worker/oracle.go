package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// Reply is what a request must be answered with.
type Reply struct {
	isErr     bool
	result    string // canonical JSON
	code      int
	message   string
	data      string
	anyMsg    bool // only the code is specified
	multi     []string
	anyResult bool
	http      string          // over HTTP/1, the http response passed on
	places    map[string]bool // where a refused request offends its schema
}

func canon(v interface{}) string { return jsonStr(v) }

// expect is the reference model: what the handler registered for the
// operation's method does.
func (w *World) expect(op *Op, tok string, c *Client) *Reply {
	ok := func(v interface{}) *Reply { return &Reply{result: canon(v)} }
	fail := func(code int, m string, data interface{}) *Reply {
		return &Reply{isErr: true, code: code, message: m, data: canon(data)}
	}
	params := c.params(op, tok)
	list, isList := params.([]interface{})
	if !isList {
		list = []interface{}{params}
	}
	internal := fail(-32603, "internal error", nil)
	switch op.M {
	case "work":
		var sp Spec
		if op.Spec != nil {
			sp = *op.Spec
		}
		var pay interface{} = "p"
		if op.Spec != nil {
			pay = payload(sp.P)
		}
		switch sp.O {
		case "", "ok", "msg":
			return ok([]interface{}{tok, pay})
		case "map":
			return ok(map[string]interface{}{"t": tok, "p": pay})
		case "null":
			return ok(nil)
		case "emsg":
			return fail(-510, "E "+tok, pay)
		case "rpc":
			return fail(-500-len(tok), "E "+tok, pay)
		case "wraprpc":
			return fail(-700, "W "+tok, nil)
		case "paniRPC":
			return fail(-800, "P "+tok, nil)
		case "http":
			r := fail(-32603, "internal error", nil)
			r.http = httpReply(httpOut(tok))
			return r
		default:
			return internal
		}
	case "tick":
		return &Reply{anyResult: true} // see checkTicks
	case "hold":
		return &Reply{multi: []string{canon([]interface{}{tok, true}), canon([]interface{}{tok, false})}}
	case "nap.req", "nap.on", "nap.ctx", "nap.typed", "nap.treq", "nap.tctx":
		return ok(tok)
	case "plain":
		if len(list) == 0 {
			return fail(-32602, "no params", nil)
		}
		return ok(list[0])
	case "add", "sub":
		if len(list) < 2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		a, e1 := strconv.Atoi(fmt.Sprint(list[0]))
		b, e2 := strconv.Atoi(fmt.Sprint(list[1]))
		if _, s := list[0].(string); s {
			e1 = fmt.Errorf("string")
		}
		if _, s := list[1].(string); s {
			e2 = fmt.Errorf("string")
		}
		if e1 != nil || e2 != nil {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		if op.M == "sub" {
			b = -b
		}
		return ok(a + b)
	case "both":
		x, _ := strconv.Atoi(fmt.Sprint(list[0]))
		if x%2 != 0 {
			return fail(-900-x, "odd", nil)
		}
		return ok(x)
	case "concat":
		if len(list) < 2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		s, o1 := strOrNum(list[0])
		l, o2 := list[1].([]interface{})
		if !o1 || !o2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		for _, x := range l {
			xs, o := strOrNum(x)
			if !o {
				return &Reply{isErr: true, code: -32602, anyMsg: true}
			}
			s += "," + xs
		}
		return ok(s)
	case "shift":
		if len(list) < 2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		m, o := list[0].(map[string]interface{})
		d, err := strconv.Atoi(fmt.Sprint(list[1]))
		if !o || err != nil {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		x, err := strconv.Atoi(fmt.Sprint(m["x"]))
		n, o2 := m["n"].(string)
		if err != nil || !o2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		return ok(map[string]interface{}{"x": x + d, "n": n})
	case "fail":
		code, _ := strconv.Atoi(fmt.Sprint(list[0]))
		m, _ := list[1].(string)
		return fail(code, m, m+"!")
	case "any":
		if len(list) < 1 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		return ok(list[0])
	case "anys":
		if len(list) < 2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		l, o := list[0].([]interface{})
		s, o2 := strOrNum(list[1])
		if !o || !o2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		return ok(append([]interface{}{s}, l...))
	case "mix":
		if len(list) < 3 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		m, o := list[0].(map[string]interface{})
		b, o2 := list[1].(bool)
		f, err := strconv.ParseFloat(fmt.Sprint(list[2]), 64)
		if _, s := list[2].(string); s || !o || !o2 || err != nil {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		return ok(map[string]interface{}{"m": m, "b": b, "f": f * 2})
	case "ptr":
		if len(list) < 1 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		m, o := list[0].(map[string]interface{})
		if !o {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		x, err := strconv.Atoi(fmt.Sprint(m["x"]))
		n, o2 := m["n"].(string)
		if err != nil || !o2 {
			return &Reply{isErr: true, code: -32602, anyMsg: true}
		}
		return ok(map[string]interface{}{"x": x + 1, "n": n + "!"})
	case "whoami":
		return &Reply{result: canon(tok + "|" + w.userOf(c))}
	case "ctxadd":
		x, _ := strconv.Atoi(fmt.Sprint(list[0]))
		return ok(x + 1)
	}
	if g := w.guardOf(op.M); g != nil {
		return w.expectGuard(g, op, tok)
	}
	if n, err := strconv.Atoi(strings.TrimPrefix(op.M, "sib")); err == nil && strings.HasPrefix(op.M, "sib") && n < w.sc.Server.Depth {
		return ok("sib")
	}
	if w.sc.Server.Missing {
		switch op.M {
		case "nope.err", "nope.panic":
			return internal
		case "nope.rpc":
			return fail(4040, "no "+op.M, op.M)
		case "nope.panicrpc":
			return fail(-4041, "panic "+op.M, nil)
		case "nope.nil":
			return ok(nil)
		}
		return ok(map[string]interface{}{"missing": op.M})
	}
	return fail(-32601, "method not found", nil)
}

// strOrNum: a typed string parameter takes strings and, as their digits,
// numbers.
func strOrNum(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case int, int64, json.Number:
		return fmt.Sprint(x), true
	}
	return "", false
}

func (w *World) userOf(c *Client) string {
	if w.userName != nil {
		return w.userName(c)
	}
	return ""
}

func (e *Reply) matches(res jlib.Message) string {
	if res.IsError() {
		b := res.MustError()
		if b == nil {
			return "error reply without a body"
		}
		if !e.isErr {
			return fmt.Sprintf("an error %d %q instead of a result", b.Code, short(b.Message, 100))
		}
		if b.Code != e.code {
			return fmt.Sprintf("error code %d instead of %d", b.Code, e.code)
		}
		if e.places != nil {
			return e.placeOf(b.Message)
		}
		if e.anyMsg {
			return ""
		}
		if b.Message != e.message {
			return fmt.Sprintf("error message %q instead of %q", short(b.Message, 100), e.message)
		}
		if canon(b.Data) != e.data {
			return fmt.Sprintf("error data %s instead of %s", short(canon(b.Data), 100), short(e.data, 100))
		}
		return ""
	}
	if e.isErr {
		return fmt.Sprintf("a result %s instead of error %d", short(canon(res.MustResult()), 100), e.code)
	}
	if e.anyResult {
		return ""
	}
	got := canon(res.MustResult())
	if e.multi != nil {
		for _, m := range e.multi {
			if m == got {
				return ""
			}
		}
		return fmt.Sprintf("result %s", short(got, 100))
	}
	if got != e.result {
		return fmt.Sprintf("result %s instead of %s", short(got, 120), short(e.result, 120))
	}
	return ""
}

// tokenIn finds the call token a reply of a handler carries.
func tokenIn(res jlib.Message) (string, bool) {
	if res.IsError() {
		b := res.MustError()
		if b == nil {
			return "", false
		}
		for _, p := range []string{"E ", "W ", "P "} {
			if strings.HasPrefix(b.Message, p) {
				return b.Message[2:], true
			}
		}
		return "", false
	}
	switch v := res.MustResult().(type) {
	case []interface{}:
		if len(v) == 2 {
			if s, ok := v[0].(string); ok {
				return s, true
			}
		}
	case map[string]interface{}:
		if s, ok := v["t"].(string); ok {
			return s, true
		}
	}
	return "", false
}

func isTimeout(res jlib.Message) bool {
	return res != nil && res.IsError() && res.MustError() != nil && res.MustError().Code == 200
}

const eps = 300 * time.Millisecond

func (w *World) netAllow() time.Duration {
	l := time.Duration(w.sc.Net.LatMaxUs) * time.Microsecond
	d := 30*l + eps
	if win := w.sc.Net.Window; win > 0 && win < 1<<16 {
		d += time.Duration(600000/win) * 2 * l
	}
	return d
}

// limit is the longest a call may take once its connection stands.
func (c *Client) limit() time.Duration {
	if c.st != nil {
		return 10 * time.Second
	}
	if c.cfg.Timeout > 0 {
		return time.Duration(c.cfg.Timeout) * time.Second
	}
	return 5 * time.Second
}

// clean: nothing but the library itself decided what became of the
// client's connections up to then.
func (c *Client) clean(at time.Duration) bool {
	if t, ok := c.w.touched[c.idx]; ok && t <= at {
		return false
	}
	if len(c.closes) > 0 && c.closes[0] <= at {
		return false
	}
	for _, r := range c.connects {
		if r.hasCtx && r.ctxEnd <= at+eps {
			return false
		}
	}
	for _, r := range c.calls {
		if r.hasCtx && !r.connAt {
			return false
		}
	}
	for _, r := range c.sends {
		if r.hasCtx && !r.connAt {
			return false
		}
	}
	for _, s := range c.w.servers {
		if s.canceled && s.cancelAt <= at || s.crashed && s.crashAt <= at {
			return false
		}
	}
	return true
}

// unharmed: if anything else decided what became of the client's connections,
// it was the user who closed them, and was done with that by a.
func (c *Client) unharmed(a, b time.Duration) bool {
	if len(c.closes) != len(c.closeEnd) {
		return false
	}
	for i, t := range c.closeEnd {
		// all of it is over, or yet to come
		if c.closes[i] <= b && t >= a-time.Second {
			return false
		}
	}
	l := c.closes
	c.closes = nil
	defer func() { c.closes = l }()
	return c.clean(b)
}

func (w *World) execsOf(tok string) []*Exec {
	return w.execByTok[tok]
}

func (w *World) workD(op *Op) time.Duration {
	if op.Spec == nil {
		return 0
	}
	d := op.Spec.D
	if op.M == "work" && !w.sc.Server.Serial {
		d += op.Spec.N * op.Spec.G
	}
	return time.Duration(d) * time.Millisecond
}

// queued is what the handlers of everything the client sends need together.
func (w *World) queued(c *Client) time.Duration {
	var d time.Duration
	for i := range w.sc.Threads {
		t := &w.sc.Threads[i]
		if t.Client >= len(w.clients) || w.clients[t.Client] != c {
			continue
		}
		for j := range t.Ops {
			d += w.workD(&t.Ops[j])
			if t.Ops[j].Twice {
				d += w.workD(&t.Ops[j])
			}
		}
	}
	return d
}

// checkCalls judges every call once the run is over.
func (w *World) checkCalls() {
	raw := w.rawServer
	serial := w.sc.Prop == "C12" && w.sc.Server.Serial && !raw
	for _, r := range w.calls {
		c := r.client
		if r.panicked != "" {
			w.violate("C06", "call-panic", "call %s of client%d (%s) panicked: %s", r.tok, c.idx, c.cfg.Kind, r.panicked)
			continue
		}
		if !r.returned {
			continue
		}
		// C02: bounded time
		took := r.end - r.start
		sl := w.slack()
		what := fmt.Sprintf("call %s of client%d (%s)", r.tok, c.idx, c.cfg.Kind)
		if r.hasCtx {
			d := r.ctxEnd - r.start
			if took > d+sl+eps {
				w.violate("C02", "ctx-ignored", "%s returned %v after its context had ended (begun %v, context ended %v, returned %v: %s)",
					what, r.end-r.ctxEnd, r.start, r.ctxEnd, r.end, r.outcome())
			}
		}
		established := c.st == nil || r.connAt && !r.dialing && w.dialsDuring(r) == 0
		if established && took > c.limit()+sl+eps {
			w.violate("C02", "too-late", "%s took %v, longer than %v: %s", what, took, c.limit(), r.outcome())
		}
		exp := w.expect(r.op, r.tok, c)
		if raw && r.op.M == "work" && (r.err != nil || r.res != nil && r.res.IsResultOrError()) {
			w.checkRaw(r, exp)
		}
		if r.err == nil && r.res == nil {
			w.violate("C01", "nil", "%s returned neither a response nor an error", what)
			w.violate("C09", "nil", "%s returned neither a response nor an error", what)
			continue
		}
		// the caller's message is unchanged
		if r.after != r.before {
			w.violate("C16", "message-changed", "%s changed the caller's message from %s to %s", what, short(r.before, 200), short(r.after, 200))
		}
		if exp.http != "" && c.st == nil && !raw {
			var wr *jlibhttp.WrappedResponse
			if errors.As(r.err, &wr) {
				if got := httpReply(wr); got != exp.http {
					w.violate("C09", "http-reply", "%s: the http response of its handler arrived as %s instead of %s", what, got, exp.http)
				}
				continue
			}
			if r.err == nil {
				w.violate("C09", "http-reply", "%s got %s instead of the http response of its handler", what, r.outcome())
				continue
			}
		}
		if r.err != nil {
			var sr *jlibhttp.SimpleResponse
			if c.st == nil && !r.hasCtx && errors.As(r.err, &sr) && sr.Code == 408 && took < c.limit()-eps {
				w.violate("C02", "early-timeout", "%s timed out after only %v", what, took)
			}
			cleanThen := c.clean(r.end) && !r.hasCtx && !raw
			if cleanThen {
				if c.st == nil && took >= c.limit()-eps {
					// its own timeout
					if w.workD(r.op)+sl+w.netAllow()+c.frozen < c.limit() && w.sc.p("slow") == 0 {
						w.violate("C09", "timeout", "%s timed out although nothing disturbed it and its handler needs only %v", what, w.workD(r.op))
						w.violate("C10", "lost", "%s timed out although nothing disturbed it and its handler needs only %v", what, w.workD(r.op))
						w.probeOther("C13", c, what, r)
					}
					continue
				}
				w.violate("C09", "no-reply", "%s failed although nothing disturbed it: %s", what, r.outcome())
				w.probeOther("C13", c, what, r)
				w.violate("C10", "lost", "%s failed although nothing disturbed it: %s", what, r.outcome())
				w.violate("C12", "no-reply", "%s failed although nothing disturbed it: %s", what, r.outcome())
			}
			continue
		}
		// C01: a response, with the caller's id
		if !r.res.IsResultOrError() {
			w.violate("C01", "not-a-response", "%s returned a message that is no response: %s", what, r.outcome())
			continue
		}
		if raw && c.st == nil && wildOp(r.op) {
			continue // a server that lies about the id
		}
		if canon(r.res.MustId()) != canon(r.reqId) {
			w.violate("C01", "id", "%s asked with id %s and got a response with id %s", what, canon(r.reqId), canon(r.res.MustId()))
		}
		if r.res.TraceId() != r.trace && !(r.op.Unwrap && !isTimeout(r.res)) {
			w.violate("C16", "response-trace", "%s was sent with trace id %q and its response carries %q: %s", what, r.trace, r.res.TraceId(), r.outcome())
		}
		if serial && c.clean(r.end) && c.st != nil && took > w.queued(c)+w.netAllow()+sl+c.frozen+time.Second {
			w.violate("C12", "serial-delayed", "%s took %v although the handlers of everything its client sent need only %v", what, took, w.queued(c))
		}
		if isTimeout(r.res) {
			if took < c.limit()-eps {
				w.violate("C02", "early-timeout", "%s was answered with a timeout after only %v", what, took)
			} else if c.clean(r.end) && !raw && w.workD(r.op)+sl+w.netAllow()+c.frozen < c.limit() && !w.sc.Server.Serial && w.sc.p("slow") == 0 {
				w.violate("C09", "timeout", "%s timed out although nothing disturbed it and its handler needs only %v", what, w.workD(r.op))
				w.violate("C10", "lost", "%s timed out although nothing disturbed it and its handler needs only %v", what, w.workD(r.op))
				w.violate("C12", "timeout", "%s timed out although nothing disturbed it and its handler needs only %v", what, w.workD(r.op))
				w.violate("C01", "lost-response", "%s timed out although its response was produced and nothing disturbed it", what)
				w.probeOther("C13", c, what, r)
			}
			continue
		}
		if t, ok := tokenIn(r.res); ok && t != r.tok {
			w.violate("C01", "crossed", "%s got the response of another call: %s", what, r.outcome())
		}
		if raw {
			continue
		}
		if m := exp.matches(r.res); m != "" {
			if _, ok := tokenIn(r.res); !ok {
				w.violate("C01", "foreign", "%s was answered with something its handler did not say: %s", what, m)
			}
			w.violate("C09", "reply", "%s got %s", what, m)
			if r.op.M == "plain" || r.op.M == "work" && (r.res.IsResult() && !exp.isErr || r.res.IsError() && exp.isErr && r.res.MustError() != nil && r.res.MustError().Code == exp.code) {
				w.violate("C10", "result", "%s got %s", what, m)
			}
		}
		if w.sc.p("c12") > 0 && c.clean(r.end) && c.st != nil && !w.sc.Server.Serial {
			if took > w.workD(r.op)+w.netAllow()+sl+c.frozen+time.Second {
				w.violate("C12", "delayed", "%s took %v although its handler needs only %v", what, took, w.workD(r.op))
			}
		}
	}
	for _, r := range w.sends {
		if r.panicked != "" {
			w.violate("C06", "send-panic", "Send %s of client%d panicked: %s", r.tok, r.client.idx, r.panicked)
			continue
		}
		if !r.returned {
			continue
		}
		if r.after != r.before {
			w.violate("C16", "message-changed", "Send %s of client%d (%s) changed the caller's message from %s to %s", r.tok, r.client.idx, r.client.cfg.Kind, short(r.before, 200), short(r.after, 200))
		}
		if r.err != nil && r.client.clean(r.end) && !r.hasCtx && !raw && !(r.client.st == nil && r.end-r.start >= r.client.limit()-eps) {
			w.violate("C09", "send-failed", "Send %s of client%d (%s) failed although nothing disturbed it: %v", r.tok, r.client.idx, r.client.cfg.Kind, r.err)
		}
	}
}

func (w *World) probeOther(prop string, c *Client, what string, r *CallRec) {
	if w.sc.Server.Kind == "gateway" {
		w.violate(prop, "disturbed", "%s failed although only others were disturbed: %s", what, r.outcome())
	}
}

func (w *World) dialsDuring(r *CallRec) int {
	// dials of this client begun while the call was under way
	n := 0
	for i := r.startSeq; i < len(w.log) && (r.endSeq == 0 || i <= r.endSeq); i++ {
		if strings.HasSuffix(w.log[i], fmt.Sprintf("client%d dials", r.client.idx)) {
			n++
		}
	}
	return n
}

// checkExecs: at most once, exactly once if answered, right parameters, trace.
func (w *World) checkExecs() {
	if w.rawServer {
		return
	}
	type want struct {
		max      int
		params   string
		trace    string
		answered int
		kind     string
		client   *Client
		req      bool
		ended    int // answered by a handler
		what     string
	}
	ws := map[string]*want{}
	var toks []string
	get := func(tok string, c *Client, op *Op, trace string, req bool) *want {
		x := ws[tok]
		if x == nil {
			p := c.params(op, tok)
			if _, ok := p.([]interface{}); !ok {
				p = []interface{}{p}
			}
			x = &want{params: canon(p), trace: trace, client: c, req: req, kind: c.cfg.Kind}
			x.what = fmt.Sprintf("%s %s of client%d (%s)", map[bool]string{true: "call", false: "notification"}[req], tok, c.idx, c.cfg.Kind)
			ws[tok] = x
			toks = append(toks, tok)
		}
		x.max++
		return x
	}
	handled := map[string]bool{"work": true, "hold": true, "whoami": true}
	for _, r := range w.calls {
		if !handled[r.op.M] && (w.guardOf(r.op.M) == nil || tokenless(r.op)) {
			continue
		}
		x := get(r.tok, r.client, r.op, r.trace, true)
		if r.returned && r.err == nil && r.res != nil && !isTimeout(r.res) && !(r.res.IsError() && w.guardOf(r.op.M) != nil) {
			x.answered++
		}
	}
	for _, r := range w.sends {
		if handled[r.op.M] || w.guardOf(r.op.M) != nil && !tokenless(r.op) {
			get(r.tok, r.client, r.op, r.trace, false)
		}
	}
	for _, tok := range toks {
		x := ws[tok]
		es := w.execByTok[tok]
		if len(es) > x.max {
			w.violate("C04", "twice", "%s ran %d times", x.what, len(es))
			w.violate("C05", "twice", "%s ran %d times", x.what, len(es))
		}
		if len(es) < x.answered {
			w.violate("C04", "unexecuted", "%s was answered although its handler ran %d times for %d answers", x.what, len(es), x.answered)
		}
		for _, e := range es {
			if e.params != x.params {
				w.violate("C04", "params", "%s ran with parameters %s instead of %s", x.what, short(e.params, 150), short(x.params, 150))
				w.violate("C10", "params", "%s ran with parameters %s instead of %s", x.what, short(e.params, 150), short(x.params, 150))
				w.violate("C05", "params", "%s ran with parameters %s instead of %s", x.what, short(e.params, 150), short(x.params, 150))
			}
			if e.isReq != x.req {
				w.violate("C09", "kind", "%s reached its handler as the other kind of message", x.what)
			}
			if e.trace != x.trace {
				w.violate("C16", "handler-trace", "%s was sent with trace id %q and its handler saw %q", x.what, x.trace, e.trace)
			}
			if want := map[string]string{"h1": "", "ws": "ws", "h2": "h2"}[x.kind]; e.transport != want {
				w.violate("C13", "transport", "%s was handled by a session of kind %q instead of %q", x.what, e.transport, want)
			}
		}
	}
	for _, r := range w.sends {
		if r.op.M != "work" || !r.returned || r.err != nil || r.hasCtx || w.sc.Server.Serial || len(w.execByTok[r.tok]) > 0 || !r.client.clean(w.quiesceAt) {
			continue
		}
		for _, p := range []string{"C09", "C10"} {
			w.violate(p, "lost", "notification %s of client%d (%s) was sent, nothing disturbed it, and its handler never ran", r.tok, r.client.idx, r.client.cfg.Kind)
		}
	}
	if w.sc.p("c12") > 0 {
		for _, r := range w.sends {
			es := w.execByTok[r.tok]
			if len(es) == 1 && r.returned && r.err == nil && !r.hasCtx && r.client.st != nil && r.client.clean(es[0].start) {
				if d := es[0].start - r.end; d > w.netAllow()+w.slack()+r.client.frozen+time.Second {
					w.violate("C12", "delayed", "the handler of notification %s of client%d (%s) began %v after it was sent", r.tok, r.client.idx, r.client.cfg.Kind, d)
				}
			}
		}
	}
	for tok, es := range w.execByTok {
		if tok == "rawcut" {
			for _, p := range []string{"C04", "C06", "C10"} {
				w.violate(p, "partial", "a handler ran for a message of which only a part was sent")
			}
		}
		if strings.HasPrefix(tok, "raw") && len(es) > 1 {
			w.violate("C04", "twice", "a message of a raw client ran its handler %d times", len(es))
		}
		if ws[tok] == nil && !strings.HasPrefix(tok, "raw") && tok != sameTok {
			w.violate("C10", "invented", "a handler ran for %q, which nobody sent (parameters %s)", short(tok, 60), short(es[0].params, 150))
			w.violate("C04", "invented", "a handler ran for %q, which nobody sent (parameters %s)", short(tok, 60), short(es[0].params, 150))
		}
	}
}

// checkTicks: calls that are equal to the last byte are calls of their own.
// The handler counts; every answer is the count of one run of it, made while
// that very call was under way.
func (w *World) checkTicks() {
	if w.rawServer {
		return
	}
	by := map[int]*CallRec{}
	asked, told, sure := 0, 0, 0
	all := func(class, format string, a ...any) {
		for _, p := range []string{"C01", "C04", "C09"} {
			w.violate(p, class, format, a...)
		}
	}
	for _, r := range w.calls {
		if r.op.M != "tick" {
			continue
		}
		asked++
		if !r.returned || r.err != nil || r.res == nil || !r.res.IsResult() {
			continue
		}
		told++
		n, err := strconv.Atoi(canon(r.res.MustResult()))
		what := fmt.Sprintf("call %s of client%d (%s)", r.tok, r.client.idx, r.client.cfg.Kind)
		if err != nil || n < 1 || n > len(w.ticks) {
			all("count", "%s was answered with %s after the handler ran %d times", what, short(canon(r.res.MustResult()), 100), len(w.ticks))
			continue
		}
		if o := by[n]; o != nil {
			all("same-answer", "%s was answered with the %d-th run of the handler, as was call %s of client%d", what, n, o.tok, o.client.idx)
		} else if at := w.ticks[n-1]; at < r.startSeq || at > r.endSeq {
			all("stale-answer", "%s was answered with the %d-th run of the handler, which was not made while it was under way", what, n)
		}
		by[n] = r
	}
	for _, r := range w.sends {
		if r.op.M != "tick" {
			continue
		}
		asked++
		if r.returned && r.err == nil && !r.hasCtx && r.client.clean(w.quiesceAt) && !w.sc.Server.Serial {
			sure++
		}
	}
	if len(w.ticks) > asked {
		all("too-often", "a handler ran %d times for %d requests", len(w.ticks), asked)
	}
	if len(w.ticks) < told+sure {
		all("too-rarely", "a handler ran %d times for %d answered calls and %d notifications that nothing disturbed", len(w.ticks), told, sure)
	}
}

// checkOrder: order, gaplessness and completeness of what one sender sent.
func (w *World) checkOrder() {
	if w.sc.Server.Serial {
		w.checkSerial()
	}
	// pushes: per pusher a gapless prefix, in order, once, unaltered
	for _, c := range w.clients {
		next := map[string]int{}
		nextAsk := map[string]int{}
		same := map[string]int{}
		for _, m := range c.msgs {
			if m.kind == "request" && m.method == "ask" && !w.rawServer {
				id, _ := m.msg.MustId().(string)
				at := strings.LastIndex(id, ".")
				if at < 0 {
					w.violate("C05", "ask-content", "client%d was asked with id %s", c.idx, short(id, 60))
					continue
				}
				tok := id[:at]
				i, _ := strconv.Atoi(id[at+1:])
				if len(m.params) != 2 || m.params[0] != id || m.params[1] != padding(i) {
					w.violate("C05", "ask-content", "client%d received the server's request %s with altered content", c.idx, id)
					w.violate("C10", "ask-content", "client%d received the server's request %s with altered content", c.idx, id)
				}
				if i != nextAsk[tok] {
					w.violate("C05", "ask-order", "client%d (%s) received request %d of %s after %d of them: %s", c.idx, c.cfg.Kind, i, tok, nextAsk[tok],
						map[bool]string{true: "a gap", false: "repeated or out of order"}[i > nextAsk[tok]])
					nextAsk[tok] = i
				}
				nextAsk[tok]++
				continue
			}
			if m.kind == "notify" && m.method == "same" && len(m.params) == 1 && !w.rawServer {
				tok, _ := m.params[0].(string)
				if same[tok]++; same[tok] > sames(next[tok]) {
					w.violate("C05", "push-same", "client%d (%s) received %d equal messages before message %d of %s, and %d were sent", c.idx, c.cfg.Kind, same[tok], next[tok], tok, sames(next[tok]))
				}
				continue
			}
			if m.kind != "notify" || m.method != "pushed" {
				if m.method == "toolate" || m.kind == "request" && m.method == "ask" {
					continue
				}
				if m.kind == "result" || m.kind == "error" {
					w.strayResponse(c, m)
				} else if !w.rawPush {
					w.violate("C10", "invented-push", "client%d received a %s %s nobody sent", c.idx, m.kind, m.method)
				}
				continue
			}
			if len(m.params) != 2 {
				w.violate("C05", "push-content", "client%d received a push with parameters %s", c.idx, short(canon(m.params), 100))
				continue
			}
			pt, _ := m.params[0].(string)
			at := strings.LastIndex(pt, ".")
			if at < 0 {
				w.violate("C05", "push-content", "client%d received a push with parameters %s", c.idx, short(canon(m.params), 100))
				continue
			}
			tok := pt[:at]
			i, _ := strconv.Atoi(pt[at+1:])
			if w.rawServer && !w.rawPushed[pt] {
				w.violate("C10", "invented-push", "client%d received push %s nobody sent", c.idx, short(pt, 60))
			}
			if m.params[1] != padding(i) {
				w.violate("C05", "push-content", "client%d received push %s with altered content", c.idx, pt)
				w.violate("C10", "push-content", "client%d received push %s with altered content", c.idx, pt)
			}
			if i != next[tok] {
				w.violate("C05", "push-order", "client%d (%s) received push %d of %s after %d of them: %s", c.idx, c.cfg.Kind, i, tok, next[tok],
					map[bool]string{true: "a gap", false: "repeated or out of order"}[i > next[tok]])
				next[tok] = i
			} else if w.pushedBy(tok) && same[tok] != sames(i) {
				w.violate("C05", "push-same", "client%d (%s) received %d of the %d equal messages sent before message %d of %s", c.idx, c.cfg.Kind, same[tok], sames(i), i, tok)
			}
			same[tok] = 0
			next[tok]++
		}
		c.pushSeen = next
	}
}

// pushedBy: the pushes came from one handler to its own session.
func (w *World) pushedBy(tok string) bool {
	if w.rawServer {
		return false
	}
	for _, s := range w.servers {
		for _, x := range s.execs {
			if x.tok == tok {
				return x.pushes
			}
		}
	}
	return false
}

// strayResponse: a response handed to the message handler.
func (w *World) strayResponse(c *Client, m *MsgRec) {
	// legal for a call that has ended without its response
	id := canon(m.msg.MustId())
	late := 0
	for _, r := range c.calls {
		if r.returned && r.end <= m.at && (r.err != nil || isTimeout(r.res)) || !r.returned {
			late++
		}
	}
	if late == 0 && !w.rawServer {
		w.violate("C09", "extra-reply", "client%d (%s) received a response (id %s) beyond one per request", c.idx, c.cfg.Kind, short(id, 60))
	}
	if id == "null" && !w.rawServer {
		w.violate("C09", "notify-reply", "client%d (%s) received a reply to a notification", c.idx, c.cfg.Kind)
	}
}

type sentItem struct {
	idx      int
	tok      string
	accepted bool
}

func (w *World) checkSerial() {
	bySess := map[string][]*Exec{}
	var order []string
	for _, s := range w.servers {
		for _, x := range s.execs {
			if x.sess == "" {
				continue
			}
			if bySess[x.sess] == nil {
				order = append(order, x.sess)
			}
			bySess[x.sess] = append(bySess[x.sess], x)
		}
	}
	for _, id := range order {
		xs := bySess[id]
		for i := 1; i < len(xs); i++ {
			if !xs[i-1].ended || xs[i-1].endSeq > xs[i].startSeq {
				w.violate("C12", "overlap", "serial session: %s began before %s had ended", xs[i].tok, xs[i-1].tok)
			}
		}
	}
	// per thread, the sequence of what it sent
	for ti := range w.sc.Threads {
		t := &w.sc.Threads[ti]
		c := w.clients[t.Client]
		if c.st == nil {
			continue
		}
		var items []sentItem
		pos := map[string]int{}
		for oi := range t.Ops {
			op := &t.Ops[oi]
			if op.Bg || op.Twice || op.K != "call" && op.K != "notify" || op.M != "work" {
				continue
			}
			tok := fmt.Sprintf("t%d.%d", ti, oi)
			it := sentItem{idx: len(items), tok: tok}
			for _, r := range c.sends {
				if r.tok == tok && r.returned && r.err == nil {
					it.accepted = true
				}
			}
			for _, r := range c.calls {
				if r.tok == tok && r.returned && r.err == nil && !isTimeout(r.res) {
					it.accepted = true
				}
			}
			pos[tok] = len(items)
			items = append(items, it)
		}
		for _, id := range order {
			last := -1
			for _, x := range bySess[id] {
				k, ok := pos[x.tok]
				if !ok {
					continue
				}
				if k <= last {
					for _, p := range []string{"C05", "C12"} {
						w.violate(p, "order", "client%d (%s): %s, sent before %s, was handled after it in the same session", c.idx, c.cfg.Kind, x.tok, items[last].tok)
					}
				}
				for g := last + 1; last >= 0 && g < k; g++ {
					if items[g].accepted {
						w.violate("C05", "gap", "client%d (%s): %s was accepted for sending between %s and %s, which the same session received, but it did not", c.idx, c.cfg.Kind, items[g].tok, items[last].tok, x.tok)
						break
					}
				}
				if k > last {
					last = k
				}
			}
		}
	}
}

func (w *World) pairOf(remote string) *connPair {
	for _, p := range w.net.conns {
		if p.client.laddr.String() == remote {
			return p
		}
	}
	return nil
}

func (p *connPair) alive() bool {
	return !p.client.closed && !p.server.closed && p.client.reset == nil && p.server.reset == nil
}

// checkQuiesce: the workload is over, the faults have ended, connections
// that stand are idle.
func (w *World) checkQuiesce() {
	w.indexExecs()
	if w.rawServer {
		return
	}
	for _, c := range w.clients {
		if c.st == nil {
			continue
		}
		if c.clean(w.now()) && w.sc.p("nocheckopen") == 0 {
			if len(c.connected) > 1 || len(c.connected) == 1 && !c.isConnected() {
				hadCtx := false
				for _, r := range c.calls {
					hadCtx = hadCtx || r.hasCtx
				}
				for _, r := range c.sends {
					hadCtx = hadCtx || r.hasCtx
				}
				w.violate("C03", "spurious-close", "client%d (%s): its connection ended although nothing ended it", c.idx, c.cfg.Kind)
				if hadCtx {
					w.violate("C15", "call-ctx", "client%d (%s): its connection ended although only the context of a call on it did", c.idx, c.cfg.Kind)
				}
			}
			if len(c.closed) > 0 {
				w.violate("C07", "early-handler", "client%d (%s): the close handler ran although the connection stands", c.idx, c.cfg.Kind)
			}
			// all that was accepted has arrived
			for _, r := range c.sends {
				if r.returned && r.err == nil && r.op.M == "work" && len(w.execByTok[r.tok]) == 0 {
					w.violate("C05", "lost", "client%d (%s): notification %s was accepted for sending and never arrived although the connection stands", c.idx, c.cfg.Kind, r.tok)
				}
			}
			want := map[string]int{}
			for _, r := range c.sends {
				if r.returned && r.err == nil && r.op.M == "work" && r.op.Tok != "" {
					want[r.tok]++
					if k := want[r.tok]; k > len(w.execByTok[r.tok]) {
						for _, p := range []string{"C05", "C10"} {
							w.violate(p, "lost-same", "client%d (%s): %d equal notifications %s were accepted for sending and %d arrived although the connection stands", c.idx, c.cfg.Kind, k, r.tok, len(w.execByTok[r.tok]))
						}
					}
				}
			}
			got := map[string]int{}
			for _, m := range c.msgs {
				if m.method == "pushed" && len(m.params) > 0 {
					if s, ok := m.params[0].(string); ok {
						got[s]++
					}
				}
			}
			for _, s := range w.servers {
				for _, rec := range s.order {
					if p := w.pairOf(rec.conn); p == nil || p.addr != c.host {
						continue
					}
					if len(rec.closes) > 0 {
						w.violate("C07", "early-callback", "client%d (%s): close callbacks ran for a session still being served", c.idx, c.cfg.Kind)
						continue
					}
					w.checkAsks(c, rec)
					for _, pt := range rec.pushed {
						if got[pt] == 0 {
							w.violate("C05", "push-lost", "client%d (%s): push %s was sent to its session and never arrived although the connection stands", c.idx, c.cfg.Kind, pt)
							break
						}
					}
				}
			}
			for _, s := range w.servers {
				for _, x := range s.execs {
					if p := w.pairOf(x.conn); x.sess != "" && p != nil && p.addr == c.host && x.ctx.Err() != nil {
						w.violate("C15", "ctx-early", "client%d (%s): the context of handler %s was cancelled although the connection stands", c.idx, c.cfg.Kind, x.tok)
					}
				}
			}
		}
	}
	for _, s := range w.servers {
		for _, x := range s.execs {
			if !x.ctxEnded {
				continue
			}
			// a handler waiting on its context was released: its client must be gone
			c := w.clientAt(x.conn)
			if c != nil && c.clean(x.ctxErrAt+eps) && !w.callGone(x, c) {
				w.violate("C15", "ctx-early", "client%d (%s): the context of handler %s was cancelled at %v although the client was there", c.idx, c.cfg.Kind, x.tok, x.ctxErrAt)
			}
		}
	}
	w.checkReleases()
	for _, c := range w.clients {
		c.checkCtxConns()
	}
	w.checkSessionEnds(w.now())
}

// checkAsks: over a connection that stands, the server's requests have come
// to the client, and its answers to the server, all of them, once, in order.
func (w *World) checkAsks(c *Client, rec *SessRec) {
	if !c.cfg.Answers || !w.sc.Server.Missing {
		return
	}
	say := func(format string, a ...any) {
		m := fmt.Sprintf(format, a...)
		for _, p := range []string{"C05", "C09", "C10"} {
			w.violate(p, "ask", "client%d (%s): %s", c.idx, c.cfg.Kind, m)
		}
	}
	count := func(l []string) map[string]int {
		m := map[string]int{}
		for _, x := range l {
			m[x]++
		}
		return m
	}
	asked, got, told, heard := rec.asked, count(c.asked), c.told, count(rec.told)
	for _, id := range asked {
		if got[id] != 1 {
			say("request %s of the server came to it %d times", id, got[id])
			return
		}
	}
	if len(c.asked) != len(asked) {
		say("%d requests of the server came to it, %d were sent", len(c.asked), len(asked))
		return
	}
	for _, id := range told {
		if heard[id] != 1 {
			say("its answer to the server's request %s came %d times", id, heard[id])
			return
		}
	}
	if len(rec.told) != len(told) {
		say("%d answers came, %d were sent", len(rec.told), len(told))
		return
	}
	if !w.sc.Server.Serial {
		return
	}
	for i := range told {
		if told[i] != rec.told[i] {
			say("its answer to the server's request %s was handled before that to %s, sent earlier", rec.told[i], told[i])
			return
		}
	}
}

// callGone: an HTTP/1 call that gave up ends its handler's context.
func (w *World) callGone(x *Exec, c *Client) bool {
	if c.st != nil {
		return false
	}
	for _, r := range c.calls {
		if r.tok == x.tok {
			return !r.returned || r.end <= x.ctxErrAt+eps
		}
	}
	for _, r := range c.sends {
		if r.tok == x.tok {
			return !r.returned || r.end <= x.ctxErrAt+eps
		}
	}
	return true
}

func (w *World) clientAt(remote string) *Client {
	p := w.pairOf(remote)
	if p == nil {
		return nil
	}
	if i := w.clientOf(p); i >= 0 {
		return w.clients[i]
	}
	return nil
}

// checkCtxConns: a connection does not outlive the context it was made with.
func (c *Client) checkCtxConns() {
	w := c.w
	for _, r := range c.connects {
		if !r.opened || !r.alone || !r.hasCtx || r.pair == nil {
			continue
		}
		at := r.ctxEnd
		if at < r.end {
			at = r.end
		}
		lim := at + 2*time.Second + w.slack() + w.netAllow() + c.frozen
		if p := r.pair.client; !p.closed && w.now() > lim || p.closed && p.closedAt > lim {
			w.violate("C15", "conn-kept", "client%d (%s): the context its connection was made with ended at %v and the connection stands", c.idx, c.cfg.Kind, at)
		}
	}
}

// checkReleases: a handler holding on for its context is released in
// bounded time once its client is gone.
func (w *World) checkReleases() {
	if w.sc.Server.Serial {
		return
	}
	for _, s := range w.servers {
		for _, x := range s.execs {
			if x.method != "hold" || x.sess == "" && w.sc.p("h1hold") == 0 {
				continue
			}
			gone := w.goneAt(s, x)
			if gone == 0 {
				continue
			}
			lim := gone + 2*time.Second + w.slack() + w.netAllow()
			if !x.ended && w.now() > lim || x.ended && !x.ctxEnded && x.end > lim {
				w.violate("C15", "not-released", "handler %s (%s) was not released although its client was gone by %v", x.tok, x.transport, gone)
			}
		}
	}
}

// goneAt is when the connection of x had certainly ended, as seen by the server; 0 if not known.
func (w *World) goneAt(s *Server, x *Exec) time.Duration {
	var at time.Duration
	min := func(t time.Duration) {
		if at == 0 || t < at {
			at = t
		}
	}
	if s.canceled && x.sess != "" {
		min(s.cancelAt)
	}
	if p := w.pairOf(x.conn); p != nil {
		if p.client.closed && !p.wasCut {
			min(p.client.closedAt)
		}
		if p.server.reset != nil && !p.wasCut {
			min(p.server.resetAt)
		}
		if p.server.closed {
			min(p.server.closedAt)
		}
	}
	if at != 0 && at < x.start {
		at = x.start
	}
	return at
}

// checkSessionEnds: sessions certainly over for long enough have had their
// close callbacks, all of them, once.
func (w *World) checkSessionEnds(now time.Duration) {
	for _, s := range w.servers {
		for _, rec := range s.order {
			var at time.Duration
			why := ""
			min := func(t time.Duration, y string) {
				if at == 0 || t < at {
					at, why = t, y
				}
			}
			if s.canceled {
				min(s.cancelAt, "server context cancelled")
			}
			if p := w.pairOf(rec.conn); p != nil && !p.wasCut {
				if p.client.closed {
					min(p.client.closedAt, "client closed the connection")
				}
				if p.left > 0 {
					min(p.left, "client sent a close frame")
				}
				if p.server.reset != nil {
					min(p.server.resetAt, "connection reset")
				}
			}
			if at == 0 {
				continue
			}
			if at < rec.first {
				at = rec.first
			}
			lim := 5*time.Second + w.slack() + w.netAllow()
			if w.sc.Server.Serial {
				for _, x := range s.execs {
					if x.sess == rec.id {
						if !x.ended {
							lim += time.Hour
						} else {
							lim += x.end - x.start
						}
					}
				}
			}
			for _, a := range s.actors {
				ts := rec.closes[a]
				if len(ts) == 0 && now > at+lim {
					w.violate("C07", "callback-missing", "session %s ended (%s at %v): the close callback of %s has not run %v later", sid(rec.id), why, at, a, now-at)
					if why == "server context cancelled" {
						w.violate("C14", "session-survives", "session %s: the server's context was cancelled at %v and the session has not ended %v later", sid(rec.id), at, now-at)
					}
					break
				}
				if len(ts) > 0 && ts[0] > at+lim {
					w.violate("C07", "callback-late", "session %s ended (%s at %v): the close callback of %s ran only at %v", sid(rec.id), why, at, a, ts[0])
					if why == "server context cancelled" {
						w.violate("C14", "session-survives", "session %s: the server's context was cancelled at %v and the session ended only at %v", sid(rec.id), at, ts[0])
					}
					break
				}
			}
		}
	}
}

func (w *World) indexExecs() {
	w.execByTok = map[string][]*Exec{}
	for _, s := range w.servers {
		for _, x := range s.execs {
			w.execByTok[x.tok] = append(w.execByTok[x.tok], x)
		}
	}
}

func (w *World) preEnd() {
	for _, c := range w.clients {
		c.connAtEnd = c.isConnected()
	}
}

// checkStrays: a connection on which a call succeeded is not closed by its
// client while nothing gave it a reason to.
func (w *World) checkStrays() {
	if w.rawServer {
		return
	}
	for _, c := range w.clients {
		if c.st == nil {
			continue
		}
	conns:
		for _, p := range w.net.conns {
			tc := p.client.closedAt
			if p.addr != c.host || !p.client.closed || tc >= w.endAt || p.disturbed || p.wasCut || p.frozen {
				continue
			}
			if p.server.closed && p.server.closedAt <= tc || p.client.reset != nil || p.server.reset != nil || p.client.vanished || p.server.vanished {
				continue
			}
			opened := p.openedAt - time.Duration(w.t0)
			for _, s := range w.servers {
				if s.canceled && s.cancelAt <= tc && s.cancelAt >= opened || s.crashed && s.crashAt <= tc && s.crashAt >= opened {
					continue conns
				}
				for _, rec := range s.order {
					if rec.conn == p.client.laddr.String() {
						for _, ts := range rec.closes {
							for _, t := range ts {
								if t <= tc {
									continue conns
								}
							}
						}
					}
				}
			}
			begun, over := 0, 0
			for _, t := range c.closes {
				if t <= tc {
					begun++
				}
			}
			for _, t := range c.closeEnd {
				if t < opened {
					over++
				}
			}
			if begun > over {
				continue
			}
			for _, r := range c.connects {
				if r.hasCtx && r.start <= opened && (!r.returned || r.end >= opened) && r.ctxEnd <= tc+eps {
					continue conns
				}
			}
			for _, r := range c.sends {
				if r.hasCtx && r.start <= opened && (!r.returned || r.end >= opened) && (r.ctxEnd <= tc+eps || r.returned && r.end <= tc+eps) {
					continue conns
				}
			}
			var ok *CallRec
			for _, r := range c.calls {
				if r.hasCtx && r.start <= opened && (!r.returned || r.end >= opened) && (r.ctxEnd <= tc+eps || r.returned && r.end <= tc+eps) {
					continue conns
				}
				if ok == nil && r.returned && r.err == nil && r.res != nil && r.end < tc {
					for _, x := range w.execByTok[r.tok] {
						if x.conn == p.client.laddr.String() {
							ok = r
						}
					}
				}
			}
			if ok != nil {
				w.violate("C03", "stray-close", "client%d (%s): it closed conn%d, on which call %s had succeeded, although nothing ended it", c.idx, c.cfg.Kind, p.id, ok.tok)
				return
			}
		}
	}
}

// checkClientEnd: the clients' connections have ended by now.
func (w *World) checkClientEnd(why string) {
	for _, c := range w.clients {
		if c.st == nil {
			continue
		}
		n := len(c.connected)
		if n > 0 && len(c.closed) == 0 {
			w.violate("C07", "handler-missing", "client%d (%s): %d connections ended (%s) and the close handler has not run", c.idx, c.cfg.Kind, n, why)
			if why == "server stopped" {
				w.violate("C14", "client-uninformed", "client%d (%s): 12 s after the server was cancelled its close handler has not run", c.idx, c.cfg.Kind)
			}
		}
		if why == "server stopped" && c.isConnected() {
			w.violate("C14", "client-uninformed", "client%d (%s): 12 s after the server was cancelled it still believes itself connected", c.idx, c.cfg.Kind)
		}
		for _, r := range c.waits {
			if !r.returned {
				w.violate("C07", "wait-stuck", "client%d (%s): Wait begun at %v has not returned though the connection has ended (%s)", c.idx, c.cfg.Kind, r.start, why)
				break
			}
		}
	}
	for _, c := range w.clients {
		for _, r := range c.waits {
			if !r.returned || !r.onConn {
				continue
			}
			userClosed := false
			for _, t := range c.closes {
				if t <= r.end {
					userClosed = true
				}
			}
			ctxConn := false
			for _, k := range c.connects {
				ctxConn = ctxConn || k.hasCtx && k.ctxEnd <= r.end+eps
			}
			t, touched := w.touched[c.idx]
			for _, k := range c.calls {
				ctxConn = ctxConn || k.hasCtx && (!k.connAt || touched)
			}
			for _, k := range c.sends {
				ctxConn = ctxConn || k.hasCtx && (!k.connAt || touched)
			}
			lost := touched && t <= r.end
			for _, s := range w.servers {
				lost = lost || s.canceled && s.cancelAt <= r.end || s.crashed && s.crashAt <= r.end
			}
			lost = lost || w.ending && w.sc.p("end") == 2 && r.end >= w.endAt
			if userClosed && !lost && !ctxConn && r.err != nil {
				w.violate("C07", "wait-error", "client%d (%s): the user closed the connection and Wait returned %v", c.idx, c.cfg.Kind, r.err)
			}
			if !userClosed && !ctxConn && r.err == nil && r.end > r.start+eps+w.slack() {
				w.violate("C07", "wait-nil", "client%d (%s): the connection was lost and Wait returned nil", c.idx, c.cfg.Kind)
			}
		}
	}
}

func (w *World) checkServers() {
	for _, s := range w.servers {
		if s.canceled {
			if !s.returned {
				w.violate("C14", "serve-stuck", "server%d: its context was cancelled at %v and the serve call has not returned", s.epoch, s.cancelAt)
			} else if s.retAt > s.cancelAt+2*time.Second+w.slack() {
				w.violate("C14", "serve-late", "server%d: its context was cancelled at %v and the serve call returned only at %v", s.epoch, s.cancelAt, s.retAt)
			}
		}
		if s.returned && !s.crashed && (!s.canceled || s.retAt < s.cancelAt) {
			w.violate("C14", "serve-failed", "server%d: the serve call returned although its context stands: %v", s.epoch, s.retErr)
		}
	}
}

// checkFloods: what a client is sent is in proportion to what it sent.
func (w *World) checkFloods() {
	if w.rawServer {
		return
	}
	for _, p := range w.net.conns {
		if !p.raw {
			continue
		}
		sent, got := p.client.out.total, p.server.out.total
		owed := int64(20000)
		for _, s := range w.servers {
			for _, rec := range s.order {
				if rec.conn == p.client.laddr.String() {
					for _, pt := range append(append([]string(nil), rec.pushed...), rec.asked...) {
						i, _ := strconv.Atoi(pt[strings.LastIndex(pt, ".")+1:])
						owed += int64(len(padding(i)) + 300*(1+sames(i)))
					}
				}
			}
		}
		if got > owed+10*sent {
			w.violate("C06", "flood", "a raw client sent %d bytes and was sent %d, %d of them at most for pushed messages", sent, got, owed)
		}
	}
}

// checkEnd: everything is over and has had time to settle.
func (w *World) checkEnd() {
	w.indexExecs()
	w.checkCalls()
	w.checkExecs()
	w.checkTicks()
	w.checkAliens()
	w.checkGuards()
	w.checkOrder()
	w.checkServers()
	w.checkStrays()
	w.checkFloods()
	w.checkSessionEnds(w.now())
	total := 0
	for _, s := range w.servers {
		for _, rec := range s.order {
			total++
			for _, a := range s.actors {
				if n := len(rec.closes[a]); n != 1 {
					w.violate("C07", "callback-count", "session %s of server%d: the close callback of %s ran %d times", sid(rec.id), s.epoch, a, n)
				}
			}
		}
		for _, x := range s.execs {
			if x.sess != "" && x.ctx.Err() == nil {
				w.violate("C15", "ctx-leaked", "the context of handler %s is still alive after its connection ended", x.tok)
				break
			}
		}
	}
	conns := 0
	for _, c := range w.clients {
		conns += len(c.connected)
		if len(c.connected) > 0 && len(c.closed) != 1 {
			w.violate("C07", "handler-count", "client%d (%s): the close handler ran %d times", c.idx, c.cfg.Kind, len(c.closed))
		}
		if len(c.connected) == 0 && len(c.closed) > 0 && !w.rawServer {
			w.violate("C07", "handler-count", "client%d (%s): the close handler ran although no connection was ever established", c.idx, c.cfg.Kind)
		}
	}
	if !w.rawServer && total < conns {
		w.violate("C07", "unreported", "%d connections were established but only %d sessions were reported closed", conns, total)
	}
	w.checkLeaks()
}

func (w *World) checkLeaks() {
	if w.pushers > 0 {
		w.violate("C08", "server-send-stuck", "%d senders are still blocked sending to sessions that have ended", w.pushers)
	}
	gs := foreignGoroutines()
	if len(gs) > 0 {
		kinds := map[string]int{}
		for _, g := range gs {
			kinds[summarize(g)]++
		}
		ks := sortedKeys(kinds)
		sort.Strings(ks)
		w.violate("C08", "goroutine", "%d goroutines are left after everything ended: %s", len(gs), short(strings.Join(ks, " | "), 1500))
	}
	n := 0
	which := ""
	for _, p := range w.net.conns {
		if p.harness {
			continue
		}
		if (!p.client.closed || !p.server.closed) && !p.abandonedPreface() {
			n++
			if which == "" {
				which = fmt.Sprintf("conn%d to %s: client end closed=%v, server end closed=%v", p.id, p.addr, p.client.closed, p.server.closed)
			}
		}
	}
	if n > 0 {
		w.violate("C08", "connection", "%d connections are left open after everything ended (%s)", n, which)
	}
	for _, c := range w.clients {
		if c.st == nil {
			continue
		}
	}
}
