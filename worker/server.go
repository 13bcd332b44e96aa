package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/http"
	"runtime"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

// Exec is one handler invocation.
type Exec struct {
	tok       string
	method    string
	sess      string
	transport string
	server    *Server
	n         int
	start     time.Duration
	startSeq  int
	end       time.Duration
	endSeq    int
	ended     bool
	ctxErrAt  time.Duration // when a waiting handler saw its context end
	ctxEnded  bool
	trace     string
	params    string
	user      string
	isReq     bool
	conn      string // remote address
	ctx       context.Context
	pushes    bool
}

// SessRec is one streaming session seen by the server.
type SessRec struct {
	id      string
	conn    string
	first   time.Duration
	closes  map[string][]time.Duration // actor -> times of its close callback
	session jlibhttp.RPCSession
	pushed  []string // tokens pushed, in order of completed Send
	firstCl int      // seq of first close callback
	asked   []string // requests sent to the client
	told    []string // answers received
}

// Server is one incarnation of the server.
type Server struct {
	w        *World
	cfg      ServerCfg
	addr     string
	epoch    int
	ctx      context.Context
	cancel   context.CancelFunc
	actor    *jlibhttp.Actor
	levels   []*jlibhttp.Actor
	actors   []string
	hooks    int
	returned bool
	retAt    time.Duration
	retErr   error
	cancelAt time.Duration
	canceled bool
	sess     map[string]*SessRec
	order    []*SessRec
	execs    []*Exec
	closeEvs int
	handler  http.Handler
	onClose  func(actor, sid string)
	rawGot   []string
	crashed  bool
	crashAt  time.Duration
}

func (w *World) newServer(cfg ServerCfg, addr string, epoch int) *Server {
	s := &Server{w: w, cfg: cfg, addr: addr, epoch: epoch, sess: map[string]*SessRec{}}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	s.build()
	if n := w.sc.p("sendafter"); n > 0 {
		// sessions that have ended are still sent to
		late := map[string]bool{}
		s.onClose = func(actor, id string) {
			if late[id] {
				return
			}
			late[id] = true
			ses := s.sess[id].session
			w.pushers++
			go func() {
				time.Sleep(time.Duration(len(late)%3) * time.Millisecond)
				for i := 0; i < n; i++ {
					ses.Send(jlib.NewNotifyMessage("toolate", []interface{}{i}))
				}
				w.pushers--
				w.probes["sent-after-end"]++
			}()
		}
	}
	return s
}

func tlsFiles() *jlibhttp.TLSConfig {
	return &jlibhttp.TLSConfig{Certfile: certDir + "/sim.crt", Keyfile: certDir + "/sim.key"}
}

func (s *Server) build() {
	s.actor = jlibhttp.NewActor()
	hold := s.actor
	s.hookClose(s.actor, "root")
	for i := 0; i < s.cfg.Depth; i++ {
		c := jlibhttp.NewActor()
		// a sibling that handles nothing of interest
		for j := 0; s.cfg.Wide && j < 3; j++ {
			leaf := jlibhttp.NewActor()
			s.hookClose(leaf, fmt.Sprintf("leaf%d.%d", i, j))
			hold.AddChild(leaf)
			if j == 1 {
				deep := jlibhttp.NewActor()
				s.hookClose(deep, fmt.Sprintf("deep%d", i))
				leaf.AddChild(deep)
			}
		}
		sib := jlibhttp.NewActor()
		sib.On(fmt.Sprintf("sib%d", i), func(p []interface{}) (interface{}, error) { return "sib", nil })
		s.hookClose(sib, fmt.Sprintf("sib%d", i))
		hold.AddChild(sib)
		hold.AddChild(c)
		s.hookClose(c, fmt.Sprintf("child%d", i))
		s.levels = append(s.levels, c)
		hold = c
	}
	s.methods(hold)
	s.guardMethods(hold)
	switch s.cfg.Kind {
	case "gateway":
		g := jlibhttp.NewGatewayHandler(s.ctx, s.actor, !s.cfg.TLS)
		s.handler = g
	case "ws":
		h := jlibhttp.NewWSHandler(s.ctx, s.actor)
		h.SpawnGoroutine = !s.cfg.Serial
		s.handler = h
	case "h2":
		h := jlibhttp.NewH2Handler(s.ctx, s.actor)
		h.SpawnGoroutine = !s.cfg.Serial
		if s.cfg.TLS {
			s.handler = h
		} else {
			s.handler = h.H2CHandler()
		}
	case "raw":
		s.w.rawServer, s.w.rawPush = true, true
		s.actors = nil
		s.handler = s.rawHandler()
	case "h1":
		s.handler = jlibhttp.NewH1Handler(s.actor)
	default:
		panic("harness: server kind " + s.cfg.Kind)
	}
}

func (s *Server) hookClose(a *jlibhttp.Actor, name string) {
	s.hooks++
	if s.cfg.Mute > 0 && s.hooks%s.cfg.Mute == 0 {
		return
	}
	s.actors = append(s.actors, name)
	a.OnClose(func(r *http.Request, session jlibhttp.RPCSession) {
		id := session.SessionID()
		rec := s.sessRec(id, session, r.RemoteAddr)
		seq := s.w.ev("server%d onclose %s sess=%s", s.epoch, name, sid(id))
		if len(rec.closes) == 0 {
			rec.firstCl = seq
		}
		rec.closes[name] = append(rec.closes[name], s.w.now())
		if p := s.w.pairOf(r.RemoteAddr); p != nil && !s.cfg.TLS && r.ProtoMajor == 1 && strings.EqualFold(r.Header.Get("Upgrade"), "websocket") && !p.switched {
			s.w.violate("C07", "no-session", "a close callback ran for the connection %s, whose handshake never succeeded", r.RemoteAddr)
		}
		s.closeEvs++
		s.w.probe("onclose")
		if s.onClose != nil {
			s.onClose(name, id)
		}
	})
}

func sid(id string) string {
	if len(id) > 6 {
		return id[:6]
	}
	return id
}

func (s *Server) sessRec(id string, session jlibhttp.RPCSession, conn string) *SessRec {
	r := s.sess[id]
	if r == nil {
		r = &SessRec{id: id, conn: conn, first: s.w.now(), closes: map[string][]time.Duration{}, session: session}
		s.sess[id] = r
		s.order = append(s.order, r)
	}
	return r
}

// serve runs ListenAndServe until it returns.
func (s *Server) serve() {
	var tls []*jlibhttp.TLSConfig
	if s.cfg.TLS {
		tls = append(tls, tlsFiles())
	}
	h := s.handler
	if s.cfg.Auth {
		h = s.authHandler()
	}
	if s.w.wrapHandler != nil {
		h = s.w.wrapHandler(s, h)
	}
	go func() {
		err := jlibhttp.ListenAndServe(s.ctx, s.addr, h, tls...)
		s.returned, s.retErr, s.retAt = true, err, s.w.now()
		s.w.ev("server%d serve returned: %v", s.epoch, err != nil)
	}()
}

func (s *Server) stop() {
	if !s.canceled {
		s.canceled = true
		s.cancelAt = s.w.now()
		s.w.ev("server%d cancel", s.epoch)
		s.cancel()
	}
}

func (s *Server) begin(req *jlibhttp.RPCRequest, method, tok string) *Exec {
	x := &Exec{tok: tok, method: method, server: s, n: len(s.execs), start: s.w.now(), trace: req.Msg().TraceId(), isReq: req.Msg().IsRequest()}
	x.params = jsonStr(req.Msg().MustParams())
	x.conn = req.HttpRequest().RemoteAddr
	if s.w.onBegin != nil {
		s.w.onBegin(req.HttpRequest())
	}
	x.ctx = req.Context()
	if ses := req.Session(); ses != nil {
		x.sess = ses.SessionID()
		switch ses.(type) {
		case *jlibhttp.WSSession:
			x.transport = "ws"
		case *jlibhttp.H2Session:
			x.transport = "h2"
		default:
			x.transport = "?"
		}
		s.sessRec(x.sess, ses, x.conn)
	}
	if ai, ok := jlibhttp.AuthInfoFromContext(req.Context()); ok && ai != nil {
		x.user = ai.Username
		if v, ok := ai.Settings["tag"]; ok {
			x.user += "/" + fmt.Sprint(v)
		}
	}
	x.startSeq = s.w.ev("server%d start %s tok=%s sess=%s tr=%s", s.epoch, method, tok, sid(x.sess), x.trace)
	s.execs = append(s.execs, x)
	s.w.probe("handler.start")
	runtime.SimYield(0x4A0D1E)
	return x
}

func (s *Server) end(x *Exec) {
	x.ended, x.end = true, s.w.now()
	x.endSeq = s.w.ev("server%d end %s tok=%s", s.epoch, x.method, x.tok)
	s.w.probe("handler.end")
}

func numOf(m map[string]interface{}, k string) int {
	switch v := m[k].(type) {
	case json.Number:
		i, _ := v.Int64()
		return int(i)
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}

// nameHolder is the actor that handles the i-th name of work.
func (s *Server) nameHolder(a *jlibhttp.Actor, i int) *jlibhttp.Actor {
	switch workNames[i] {
	case "work.root":
		return s.actor
	case "work.mid":
		if len(s.levels) > 0 {
			return s.levels[0]
		}
	case "work.leaf":
		if len(s.levels) > 0 {
			leaf := jlibhttp.NewActor()
			s.hookClose(leaf, "workleaf")
			s.levels[0].AddChild(leaf)
			return leaf
		}
	}
	return a
}

func (s *Server) methods(a *jlibhttp.Actor) {
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	// work(token, spec, payload): does what spec says and returns [token, payload].
	must(a.OnRequest("work", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		return s.work(req, params)
	}))
	for i, name := range workNames {
		if i > 0 {
			must(s.nameHolder(a, i).OnRequest(name, s.work))
		}
	}
	// hold(token, ms): waits until its context ends, at most ms.
	must(a.OnRequest("hold", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		tok, _ := params[0].(string)
		x := s.begin(req, "hold", tok)
		ms := numOf(map[string]interface{}{"d": params[1]}, "d")
		t := time.NewTimer(time.Duration(ms) * time.Millisecond)
		defer t.Stop()
		select {
		case <-req.Context().Done():
			x.ctxEnded, x.ctxErrAt = true, s.w.now()
			s.w.ev("server%d ctxdone tok=%s", s.epoch, tok)
		case <-t.C:
		}
		s.end(x)
		return []interface{}{tok, x.ctxEnded}, nil
	}))
	must(a.OnRequest("me", s.me))
	a.On("tick", func(params []interface{}) (interface{}, error) {
		n := len(s.w.ticks) + 1
		s.w.ticks = append(s.w.ticks, s.w.ev("server%d tick %d", s.epoch, n))
		runtime.SimYield(0x4A0D21)
		return n, nil
	})
	a.On("plain", func(params []interface{}) (interface{}, error) {
		if len(params) == 0 {
			return nil, jlib.ParamsError("no params")
		}
		return params[0], nil
	})
	a.OnTyped("add", func(x, y int) (int, error) { return x + y, nil })
	a.OnTyped("sub", func(x, y int) (int, error) { return x - y, nil })
	a.OnTyped("both", func(x int) (int, error) {
		if x%2 != 0 {
			return x, &jlib.RPCError{Code: -900 - x, Message: "odd"}
		}
		return x, nil
	})
	a.OnTyped("concat", func(x string, ys []string) (string, error) {
		for _, y := range ys {
			x += "," + y
		}
		return x, nil
	})
	type pt struct {
		X int    `json:"x"`
		N string `json:"n"`
	}
	a.OnTyped("shift", func(p pt, d int) (pt, error) { return pt{p.X + d, p.N}, nil })
	a.OnTyped("fail", func(code int, m string) (string, error) {
		return "", &jlib.RPCError{Code: code, Message: m, Data: m + "!"}
	})
	must(a.OnTypedRequest("whoami", func(req *jlibhttp.RPCRequest, tok string) (string, error) {
		x := s.begin(req, "whoami", tok)
		s.end(x)
		return tok + "|" + x.user, nil
	}))
	a.OnTyped("any", func(v interface{}) (interface{}, error) { return v, nil })
	a.OnTyped("anys", func(vs []interface{}, s string) ([]interface{}, error) { return append([]interface{}{s}, vs...), nil })
	a.OnTyped("mix", func(m map[string]interface{}, b bool, f float64) (map[string]interface{}, error) {
		return map[string]interface{}{"m": m, "b": b, "f": f * 2}, nil
	})
	a.OnTyped("ptr", func(p *pt) (*pt, error) { return &pt{p.X + 1, p.N + "!"}, nil })
	a.On("gone", func(params []interface{}) (interface{}, error) { return "still here", nil })
	a.Off("gone")
	must(a.OnTypedContext("ctxadd", func(ctx context.Context, x int) (int, error) {
		if ctx.Err() != nil {
			return -1, nil
		}
		return x + 1, nil
	}))
	// nap.*(token, ms): takes its time, one for each way to register a handler
	nap := func(ms int) {
		s.w.probe("nap")
		time.Sleep(time.Duration(ms) * time.Millisecond)
		runtime.SimYield(0x4A0D20)
	}
	num := func(v interface{}) int { return numOf(map[string]interface{}{"d": v}, "d") }
	must(a.OnRequest("nap.req", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		nap(num(params[1]))
		return params[0], nil
	}))
	a.On("nap.on", func(params []interface{}) (interface{}, error) {
		nap(num(params[1]))
		return params[0], nil
	})
	a.OnContext("nap.ctx", func(ctx context.Context, params []interface{}) (interface{}, error) {
		nap(num(params[1]))
		return params[0], nil
	})
	a.OnTyped("nap.typed", func(tok string, ms int) (string, error) { nap(ms); return tok, nil })
	must(a.OnTypedRequest("nap.treq", func(req *jlibhttp.RPCRequest, tok string, ms int) (string, error) { nap(ms); return tok, nil }))
	must(a.OnTypedContext("nap.tctx", func(ctx context.Context, tok string, ms int) (string, error) { nap(ms); return tok, nil }))
	if s.cfg.Missing {
		must(s.actor.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) {
			if req.Msg().IsRequestOrNotify() {
				if p := req.Msg().MustParams(); strings.HasPrefix(req.Msg().MustMethod(), "wait") && len(p) == 2 {
					nap(num(p[1]))
				}
				if req.Msg().IsRequest() {
					switch m := req.Msg().MustMethod(); m {
					case "nope.err":
						return nil, errors.New("nope")
					case "nope.rpc":
						return "dropped", &jlib.RPCError{Code: 4040, Message: "no " + m, Data: m}
					case "nope.panic":
						panic(errors.New("nope"))
					case "nope.panicrpc":
						panic(&jlib.RPCError{Code: -4041, Message: "panic " + m})
					case "nope.nil":
						return nil, nil
					}
				}
				return map[string]interface{}{"missing": req.Msg().MustMethod()}, nil
			}
			if s.told(req) {
				return nil, nil
			}
			if s.cfg.MissPan {
				panic(errors.New("a response nobody asked for"))
			}
			return nil, nil
		}))
	}
}

func (s *Server) work(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
	if len(params) < 3 {
		return nil, jlib.ParamsError("work needs 3 params")
	}
	tok, _ := params[0].(string)
	spec, _ := params[1].(map[string]interface{})
	x := s.begin(req, "work", tok)
	defer s.end(x)
	if n := numOf(spec, "n"); n > 0 && req.Session() != nil {
		g := numOf(spec, "g")
		ses := req.Session()
		rec := s.sess[ses.SessionID()]
		x.pushes = true
		push := func() {
			for i := 0; i < n; i++ {
				pt := fmt.Sprintf("%s.%d", tok, i)
				for j := 0; j < sames(i); j++ {
					ses.Send(jlib.NewNotifyMessage("same", []interface{}{tok}))
				}
				if i%4 == 1 && s.w.sc.p("badpush") > 0 {
					// what no JSON can say goes nowhere, and disturbs nothing
					ses.Send(jlib.NewNotifyMessage("pushed", []interface{}{pt, math.NaN()}))
				}
				ses.Send(jlib.NewNotifyMessage("pushed", []interface{}{pt, padding(i)}))
				rec.pushed = append(rec.pushed, pt)
				s.w.ev("server%d pushed %s", s.epoch, pt)
				s.w.probe("push")
				if g > 0 {
					time.Sleep(time.Duration(g) * time.Millisecond)
				}
			}
			if n%2 == 1 && s.w.sc.p("badpush") > 0 {
				ses.Send(jlib.NewNotifyMessage("pushed", []interface{}{tok, math.NaN()}))
			}
			s.w.ev("server%d pushdone %s", s.epoch, tok)
		}
		s.w.pushers++
		if s.cfg.Serial {
			go func() { push(); s.w.pushers-- }()
		} else {
			push()
			s.w.pushers--
		}
	}
	if b := numOf(spec, "b"); b > 0 {
		s.broadcast(tok, b, numOf(spec, "g"))
	}
	if q := numOf(spec, "q"); q > 0 && req.Session() != nil {
		s.ask(req.Session(), tok, q)
	}
	if d := numOf(spec, "d"); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	runtime.SimYield(0x4A0D1F)
	o, _ := spec["o"].(string)
	switch o {
	case "", "ok":
		return []interface{}{tok, params[2]}, nil
	case "map":
		return map[string]interface{}{"t": tok, "p": params[2]}, nil
	case "null":
		return nil, nil
	case "msg":
		if rm, ok := req.Msg().(*jlib.RequestMessage); ok {
			return jlib.NewResultMessage(rm, []interface{}{tok, params[2]}), nil
		}
		return nil, nil
	case "emsg":
		if rm, ok := req.Msg().(*jlib.RequestMessage); ok {
			return jlib.RPCErrorMessage(rm, -510, "E "+tok, params[2]), nil
		}
		return nil, nil
	case "rpc":
		return nil, &jlib.RPCError{Code: -500 - len(tok), Message: "E " + tok, Data: params[2]}
	case "wraprpc":
		return nil, fmt.Errorf("wrapped: %w", &jlib.RPCError{Code: -700, Message: "W " + tok})
	case "err":
		return nil, errors.New("plain " + tok)
	case "http": // a response of another server
		return nil, fmt.Errorf("behind: %w", httpOut(tok))
	case "nan": // what no JSON can say
		return []interface{}{tok, math.NaN()}, nil
	case "rpcnan":
		return nil, &jlib.RPCError{Code: -600, Message: "N " + tok, Data: math.Inf(1)}
	case "panic":
		panic(errors.New("panic " + tok))
	case "rtpanic":
		var m map[string]int
		m[tok] = 1
	case "paniRPC":
		panic(&jlib.RPCError{Code: -800, Message: "P " + tok})
	}
	return nil, errors.New("harness: outcome " + o)
}

// broadcast pushes the same messages to every session there is.
func (s *Server) broadcast(tok string, n, gap int) {
	var to []*SessRec
	for _, rec := range s.order {
		if len(rec.closes) == 0 {
			to = append(to, rec)
		}
	}
	cast := func() {
		for i := 0; i < n; i++ {
			pt := fmt.Sprintf("%s.%d", tok, i)
			msg := jlib.NewNotifyMessage("pushed", []interface{}{pt, padding(i)})
			for _, rec := range to {
				rec.session.Send(msg)
				rec.pushed = append(rec.pushed, pt)
			}
			s.w.ev("server%d cast %s to %d", s.epoch, pt, len(to))
			s.w.probe("push")
			if gap > 0 {
				time.Sleep(time.Duration(gap) * time.Millisecond)
			}
		}
		s.w.pushers--
	}
	s.w.pushers++
	go cast()
}

// ask sends requests to the client; their answers come to the missing handler.
func (s *Server) ask(ses jlibhttp.RPCSession, tok string, q int) {
	rec := s.sess[ses.SessionID()]
	ask := func() {
		for i := 0; i < q; i++ {
			id := fmt.Sprintf("%s.%d", tok, i)
			ses.Send(jlib.NewRequestMessage(id, "ask", []interface{}{id, padding(i)}))
			rec.asked = append(rec.asked, id)
			s.w.probe("ask")
		}
		s.w.pushers--
	}
	s.w.pushers++
	if s.cfg.Serial {
		go ask()
	} else {
		ask()
	}
}

// told: an answer of a client.
func (s *Server) told(req *jlibhttp.RPCRequest) bool {
	msg := req.Msg()
	if !msg.IsResultOrError() || req.Session() == nil {
		return false
	}
	id, _ := msg.MustId().(string)
	if !strings.HasPrefix(id, "t") {
		return false
	}
	content := ""
	if msg.IsResult() {
		content = canon(msg.MustResult())
	} else if b := msg.MustError(); b != nil {
		content = fmt.Sprintf("error %d %s", b.Code, b.Message)
	}
	rec := s.sessRec(req.Session().SessionID(), req.Session(), req.HttpRequest().RemoteAddr)
	rec.told = append(rec.told, id)
	if want := answer(id); content != want {
		s.w.violate("C10", "answer", "the answer to the server's request %s arrived as %s instead of %s", id, short(content, 120), short(want, 120))
		s.w.violate("C05", "answer", "the answer to the server's request %s arrived as %s instead of %s", id, short(content, 120), short(want, 120))
	}
	s.w.ev("server%d told %s", s.epoch, id)
	s.w.probe("told")
	runtime.SimYield(0x4A0D21)
	return true
}

func answerKind(id string) int { return int(hashStr(id) % 4) }

func answer(id string) string {
	if answerKind(id) == 3 {
		return "error -77 no " + id
	}
	return canon([]interface{}{id, padding(answerKind(id) + 3)})
}

// sames is how many equal messages are pushed before message i.
func sames(i int) int {
	if i%5 == 2 {
		return 3
	}
	return 0
}

// padding is extra content that varies the size of pushed messages.
func padding(i int) string {
	switch i % 7 {
	case 3:
		return longText[:300]
	case 5:
		return longText[:5000]
	}
	return ""
}

var longText = func() string {
	b := make([]byte, 300000)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(i*7+i/36)%36]
	}
	return string(b)
}()

const hugePay = 1000

// payloads for content properties; indexed by Spec.P
func payload(k int) interface{} {
	if k >= hugePay {
		// beyond any limit somebody may have thought of
		n := 1200000 * (1 + (k-hugePay)%4)
		return strings.Repeat(longText[:100000], n/100000)
	}
	switch k % 16 {
	case 0:
		return "p"
	case 1:
		return nil
	case 2:
		return json.Number("9007199254740993")
	case 3:
		return json.Number("-123456789012345678901234567890")
	case 4:
		return "ünïcödé \u2028 \U0001F600 \"quoted\" \\ </script>&\n\t\u0000"
	case 5:
		return []interface{}{}
	case 6:
		return map[string]interface{}{}
	case 7:
		return map[string]interface{}{"a": []interface{}{json.Number("1"), nil, true, map[string]interface{}{"id": json.Number("5"), "method": "x"}}, "result": "r", "error": nil}
	case 8:
		return longText[:700]
	case 9:
		return longText[:9000]
	case 10:
		return longText[:70000]
	case 11:
		return json.Number("1.5e+300")
	case 12:
		l := []interface{}{}
		for i := 0; i < 200; i++ {
			l = append(l, json.Number(fmt.Sprint(i)), fmt.Sprint("s", i))
		}
		return l
	case 13:
		return false
	case 14:
		return ""
	case 15:
		return longText[:4096-120]
	}
	return nil
}
