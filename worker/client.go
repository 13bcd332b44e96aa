package main

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

var certDir string

// CallRec is one Call by a client.
type CallRec struct {
	n        int
	client   *Client
	thread   int
	op       *Op
	tok      string
	reqId    interface{}
	trace    string
	msg      *jlib.RequestMessage
	before   string
	start    time.Duration
	startSeq int
	end      time.Duration
	endSeq   int
	returned bool
	res      jlib.Message
	err      error
	connAt   bool // the client said it was connected when the call began
	dialsAt  int  // dials of the client begun before the call
	dialing  bool // a dial of the client was under way when the call began
	ctxEnd   time.Duration
	hasCtx   bool
	probe    bool
	after    string
	panicked string
}

// SendRec is one Send (a notification) by a client.
type SendRec struct {
	client   *Client
	thread   int
	op       *Op
	tok      string
	trace    string
	start    time.Duration
	startSeq int
	end      time.Duration
	returned bool
	err      error
	before   string
	after    string
	hasCtx   bool
	ctxEnd   time.Duration
	connAt   bool
	panicked string
	preGone  bool // its context had ended before it was sent
}

type WaitRec struct {
	client   *Client
	start    time.Duration
	pair     *connPair
	onConn   bool // started on an established connection
	gen      int  // which connection (count of OnConnected)
	returned bool
	end      time.Duration
	err      error
}

type ConnectRec struct {
	start, end time.Duration
	startSeq   int
	returned   bool
	err        error
	hasCtx     bool
	ctxEnd     time.Duration
	opened     bool // this call opened the connection
	gen        int
	panicked   string
	pair       *connPair // what it opened
	alone      bool      // nothing else of the client was under way
}

type MsgRec struct {
	at     time.Duration
	seq    int
	kind   string
	method string
	params []interface{}
	msg    jlib.Message
}

// Client is one client value under test.
type Client struct {
	w         *World
	idx       int
	cfg       ClientCfg
	host      string
	url       string
	c         jlibhttp.Client
	st        jlibhttp.Streamable
	calls     []*CallRec
	sends     []*SendRec
	waits     []*WaitRec
	connects  []*ConnectRec
	closes    []time.Duration // Close by the user: begin
	closeEnd  []time.Duration
	connected []time.Duration // OnConnected events
	closed    []time.Duration // close handler runs
	msgs      []*MsgRec
	dials     int
	inDial    int
	dialSum   time.Duration
	rawErr    error
	ctxClosed int // connections whose governing context ended
	extraHdr  http.Header
	msgDelay  time.Duration
	onMsg     func(m *MsgRec)
	pushSeen  map[string]int
	connAtEnd bool
	cred      *Cred
	frozen    time.Duration // how long its connections stood still
	asked     []string      // requests of the server it was given, in order
	told      []string      // those it answered, in order
	acts      int           // actions taken within handlers
}

type closer interface{ Close() }
type connecteder interface{ Connected() bool }

func clientTLS() *tls.Config {
	pem, err := os.ReadFile(certDir + "/sim.crt")
	if err != nil {
		panic("harness: " + err.Error())
	}
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(pem)
	return &tls.Config{RootCAs: pool, ServerName: "localhost"}
}

func clientURL(kind string, tls bool, hostport string) string {
	scheme := map[string]string{"h1": "http", "ws": "ws", "h2": "h2c"}[kind]
	if tls {
		scheme = map[string]string{"h1": "https", "ws": "wss", "h2": "h2"}[kind]
	}
	return scheme + "://" + hostport
}

const simPort = "7000"

func (w *World) newClient(cfg ClientCfg, tls bool) *Client {
	c := &Client{w: w, idx: len(w.clients), cfg: cfg}
	port := simPort
	if cfg.Port != "" {
		port = cfg.Port
	}
	c.host = fmt.Sprintf("127.0.0.%d:%s", 10+c.idx, port)
	if c.idx >= 40 {
		c.host = fmt.Sprintf("127.0.%d.%d:%s", 1+c.idx/200, c.idx%200, port)
	}
	c.url = clientURL(cfg.Kind, tls, c.host)
	if w.sc.p("onehost") > 0 {
		// the same address for all, the context tells whose connection it is
		c.url = clientURL(cfg.Kind, tls, "127.0.0.9:"+port)
	}
	var opts []jlibhttp.ClientOptions
	if cfg.Timeout > 0 {
		opts = append(opts, jlibhttp.ClientOptions{Timeout: cfg.Timeout})
	}
	jc, err := jlibhttp.NewClient(c.url, opts...)
	if err != nil {
		panic("harness: NewClient: " + err.Error())
	}
	c.c = jc
	if tls {
		if w.clientTLS == nil || w.sc.Seed&32 == 0 {
			w.clientTLS = clientTLS()
		}
		jc.SetClientTLSConfig(w.clientTLS)
	}
	if st, ok := jc.(jlibhttp.Streamable); ok && jc.IsStreaming() {
		c.st = st
		st.OnConnected(func() {
			c.connected = append(c.connected, w.now())
			w.ev("client%d connected", c.idx)
			w.probe("client.connected")
			c.act("conn", c.cfg.OnConn)
		})
		st.OnClose(func() {
			c.closed = append(c.closed, w.now())
			w.ev("client%d closehandler", c.idx)
			w.probe("client.onclose")
			c.act("close", c.cfg.OnClose)
		})
		st.OnMessage(func(m jlib.Message) {
			r := &MsgRec{at: w.now(), msg: m}
			switch {
			case m.IsNotify():
				r.kind = "notify"
			case m.IsRequest():
				r.kind = "request"
			case m.IsResult():
				r.kind = "result"
			default:
				r.kind = "error"
			}
			if m.IsRequestOrNotify() {
				r.method = m.MustMethod()
				r.params = m.MustParams()
			}
			first := ""
			if len(r.params) > 0 {
				first = fmt.Sprint(r.params[0])
				if len(first) > 40 {
					first = first[:40]
				}
			}
			r.seq = w.ev("client%d message %s %s %s", c.idx, r.kind, r.method, first)
			c.msgs = append(c.msgs, r)
			w.probe("client.message")
			if r.method == "ask" && c.cfg.Answers {
				c.answer(m)
			}
			if c.onMsg != nil {
				c.onMsg(r)
			}
			if c.msgDelay > 0 {
				time.Sleep(c.msgDelay)
			}
			runtime.SimYield(0xC11E)
		})
	}
	w.clients = append(w.clients, c)
	return c
}

// act is what the user does within a handler.
func (c *Client) act(in, what string) {
	w := c.w
	if what == "" || w.ending || w.quiesced || c.acts > 20 {
		return
	}
	c.acts++
	w.live++
	defer func() { w.live-- }()
	tok := fmt.Sprintf("h%s%d.%d", in, c.idx, c.acts)
	switch what {
	case "call":
		c.call(-2, &Op{K: "call", M: "work", Spec: &Spec{}}, tok)
	case "notify":
		c.notify(-2, &Op{K: "notify", M: "work", Spec: &Spec{}}, tok)
	case "connect":
		c.connect(&Op{K: "connect"})
	case "close":
		c.close()
	default:
		panic("harness: act " + what)
	}
}

// answer answers a request of the server, within the message handler.
func (c *Client) answer(m jlib.Message) {
	req, ok := m.(*jlib.RequestMessage)
	if !ok {
		c.w.violate("C10", "ask-kind", "client%d was given a request that is none", c.idx)
		return
	}
	id, _ := req.Id.(string)
	c.asked = append(c.asked, id)
	var res jlib.Message
	if answerKind(id) == 3 {
		res = (&jlib.RPCError{Code: -77, Message: "no " + id}).ToMessage(req)
	} else {
		res = jlib.NewResultMessage(req, []interface{}{id, padding(answerKind(id) + 3)})
	}
	if c.c.Send(c.background(), res) == nil {
		c.told = append(c.told, id)
	}
}

func (c *Client) isConnected() bool {
	if k, ok := c.c.(connecteder); ok {
		return k.Connected()
	}
	return false
}

func (c *Client) close() {
	k, ok := c.c.(closer)
	if !ok {
		return
	}
	c.closes = append(c.closes, c.w.now())
	c.w.ev("client%d close", c.idx)
	c.w.liveCloses++
	k.Close()
	c.w.liveCloses--
	c.closeEnd = append(c.closeEnd, c.w.now())
	c.w.ev("client%d close done", c.idx)
}

type ctxKey struct{}

// ownerKey is what tells the network who dials where all dial the same address.
type ownerKey struct{}

func (c *Client) background() context.Context {
	if c.w.sc.p("onehost") > 0 {
		return context.WithValue(context.Background(), ownerKey{}, c.host)
	}
	return context.Background()
}

// opCtx makes the context an operation asks for.
func (c *Client) opCtx(spec string) (ctx context.Context, cancel func(), has bool, ends time.Duration) {
	w := c.w
	if spec == "" {
		return c.background(), func() {}, false, 0
	}
	k, v, _ := strings.Cut(spec, ":")
	ms, _ := strconv.Atoi(v)
	d := time.Duration(ms) * time.Millisecond
	switch k {
	case "to": // deadline
		ctx, cf := context.WithTimeout(c.background(), d)
		_ = cf
		return ctx, func() {}, true, w.now() + d
	case "ca": // cancelled by someone else
		ctx, cf := context.WithCancel(c.background())
		time.AfterFunc(d, func() { w.ev("ctx cancelled"); cf() })
		return ctx, func() {}, true, w.now() + d
	case "rx": // cancelled when bytes arrive, see callMsg
		ctx, cf := context.WithCancel(c.background())
		time.AfterFunc(25*time.Second, cf)
		return ctx, cf, true, w.now() + 25*time.Second
	case "td": // cancelled, though its deadline is far
		ctx, cf := context.WithTimeout(c.background(), d+time.Hour)
		time.AfterFunc(d, func() { w.ev("ctx cancelled"); cf() })
		return ctx, func() {}, true, w.now() + d
	case "cv": // ends with the one it comes from
		root, cf := context.WithCancel(c.background())
		time.AfterFunc(d, func() { w.ev("ctx cancelled"); cf() })
		ctx, _ := context.WithTimeout(root, d+time.Hour)
		return context.WithValue(ctx, ctxKey{}, 1), func() {}, true, w.now() + d
	case "dc": // deadline, and cancelled when the operation returns
		ctx, cf := context.WithTimeout(c.background(), d)
		return ctx, cf, true, w.now() + d
	}
	panic("harness: ctx " + spec)
}

func parseId(s string, fresh func() interface{}) interface{} {
	k, v, ok := strings.Cut(s, ":")
	if !ok {
		return fresh()
	}
	n, _ := strconv.ParseInt(v, 10, 64)
	switch k {
	case "i":
		return int(n)
	case "s":
		return v
	case "l":
		return n
	case "u":
		return uint32(n)
	case "f":
		return float64(n)
	case "n":
		return json.Number(v)
	}
	return fresh()
}

func (c *Client) params(op *Op, tok string) interface{} {
	switch op.M {
	case "work":
		sp := map[string]interface{}{}
		if op.Spec != nil {
			sp["d"], sp["o"], sp["n"], sp["g"] = op.Spec.D, op.Spec.O, op.Spec.N, op.Spec.G
			if op.Spec.B > 0 {
				sp["b"] = op.Spec.B
			}
			if op.Spec.Q > 0 {
				sp["q"] = op.Spec.Q
			}
			return []interface{}{tok, sp, payload(op.Spec.P)}
		}
		return []interface{}{tok, sp, "p"}
	case "hold":
		return []interface{}{tok, op.Spec.D}
	case "whoami":
		return []interface{}{tok}
	case "nap.req", "nap.on", "nap.ctx", "nap.typed", "nap.treq", "nap.tctx", "wait.x", "wait.y":
		return []interface{}{tok, op.Spec.D}
	case "tick", "fifo_list", "fifo_pop", "fifo_subscribe":
		return []interface{}{}
	case "fifo_push":
		return fifoItems(op, tok)
	case "me":
		return []interface{}{tok, op.Spec.D, op.Spec.N > 0}
	}
	if c.w.guardOf(op.M) != nil {
		return guardParams(op, tok)
	}
	if op.Params != "" {
		var v interface{}
		d := json.NewDecoder(strings.NewReader(op.Params))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			panic("harness: params " + op.Params)
		}
		return v
	}
	return []interface{}{tok}
}

// workNames are methods which all do what work does, the last ones at other
// actors of the tree.
var workNames = []string{"work", "wörk \"<&>\" \u2028\x01", "rpc.work", "WORK", strings.Repeat("w", 300), "work ", "0", "work.root", "work.mid", "work.leaf"}

func (op *Op) method() string {
	if op.M == "work" && op.Al > 0 {
		return workNames[op.Al%len(workNames)]
	}
	return op.M
}

func msgState(m jlib.Message) string {
	return jsonStr(m.Interface()) + " trace=" + m.TraceId()
}

func (c *Client) call(thread int, op *Op, tok string) *CallRec {
	var r *CallRec
	id := parseId(op.Id, func() interface{} { return "id-" + tok })
	msg := jlib.NewRequestMessage(id, op.method(), c.params(op, tok))
	if op.Trace != "" {
		msg.SetTraceId(op.Trace)
	}
	if op.Twice {
		c.w.live++
		go func() {
			defer func() { c.w.live-- }()
			c.callMsg(thread, op, tok, id, msg)
		}()
	}
	r = c.callMsg(thread, op, tok, id, msg)
	return r
}

func (c *Client) callMsg(thread int, op *Op, tok string, id interface{}, msg *jlib.RequestMessage) *CallRec {
	w := c.w
	r := &CallRec{n: len(w.calls), client: c, thread: thread, op: op, tok: tok, reqId: id, trace: op.Trace, msg: msg, probe: thread < 0}
	r.before = jsonStr(msg.Interface()) + " trace=" + op.Trace
	ctx, cancel, has, ends := c.opCtx(op.Ctx)
	r.hasCtx, r.ctxEnd = has, ends
	if v, ok := strings.CutPrefix(op.Ctx, "rx:"); ok {
		n, _ := strconv.Atoi(v)
		w.net.rx = append(w.net.rx, &rxHook{c.host, n, func() {
			if !r.returned {
				w.ev("ctx of %s cancelled by bytes arriving", tok)
				r.ctxEnd = w.now()
			}
			cancel()
		}})
	}
	r.connAt = c.isConnected()
	r.dialsAt = c.dials
	r.dialing = c.inDial > 0
	r.start = w.now()
	r.startSeq = w.ev("client%d call %s tok=%s id=%v conn=%v", c.idx, op.M, tok, id, r.connAt)
	w.calls = append(w.calls, r)
	c.calls = append(c.calls, r)
	w.probe("call.start")
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.panicked = fmt.Sprint(p)
				r.err = errors.New("panicked")
			}
		}()
		if op.Unwrap {
			var out interface{}
			err := c.c.UnwrapCall(ctx, msg, &out)
			var re *jlib.RPCError
			if err == nil {
				r.res = jlib.NewResultMessage(msg, out)
			} else if errors.As(err, &re) && re != nil {
				r.res = re.ToMessage(msg)
			} else {
				r.err = err
			}
		} else {
			r.res, r.err = c.c.Call(ctx, msg)
		}
	}()
	cancel()
	r.returned = true
	r.end = w.now()
	r.after = msgState(msg)
	r.endSeq = w.ev("client%d return tok=%s %s", c.idx, tok, r.outcome())
	w.probe("call.end")
	return r
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *CallRec) outcome() string {
	if r.panicked != "" {
		return "PANIC " + r.panicked
	}
	if r.err != nil {
		return "error " + short(r.err.Error(), 200)
	}
	if r.res == nil {
		return "nil response"
	}
	return short(jsonStr(r.res.Interface()), 200)
}

func (c *Client) notify(thread int, op *Op, tok string) *SendRec {
	w := c.w
	msg := jlib.NewNotifyMessage(op.method(), c.params(op, tok))
	if op.Trace != "" {
		msg.SetTraceId(op.Trace)
	}
	r := &SendRec{client: c, thread: thread, op: op, tok: tok, trace: op.Trace}
	r.before = msgState(msg)
	ctx, cancel, has, ends := c.opCtx(op.Ctx)
	r.hasCtx, r.ctxEnd = has, ends
	r.connAt = c.isConnected()
	r.start = w.now()
	r.startSeq = w.ev("client%d send %s tok=%s conn=%v", c.idx, op.M, tok, r.connAt)
	w.sends = append(w.sends, r)
	c.sends = append(c.sends, r)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.panicked = fmt.Sprint(p)
				r.err = errors.New("panicked")
			}
		}()
		r.err = c.c.Send(ctx, msg)
	}()
	cancel()
	r.returned = true
	r.end = w.now()
	r.after = msgState(msg)
	w.ev("client%d sent tok=%s err=%v", c.idx, tok, r.err != nil)
	w.probe("send.end")
	return r
}

func (c *Client) connect(op *Op) *ConnectRec {
	w := c.w
	r := &ConnectRec{start: w.now(), gen: len(c.connected)}
	c.connects = append(c.connects, r)
	ctx, cancel, has, ends := c.opCtx(op.Ctx)
	r.hasCtx, r.ctxEnd = has, ends
	was := c.isConnected()
	r.startSeq = w.ev("client%d connect", c.idx)
	func() {
		defer func() {
			if p := recover(); p != nil {
				r.panicked = fmt.Sprint(p)
				r.err = errors.New("panicked")
			}
		}()
		r.err = c.st.Connect(ctx)
	}()
	cancel()
	r.returned, r.end = true, w.now()
	r.opened = !was && r.err == nil && len(c.connected) == r.gen+1
	r.pair, r.alone = c.lastPair(), true
	for _, k := range c.connects {
		r.alone = r.alone && (k == r || k.returned && k.end < r.start)
	}
	for _, k := range c.calls {
		r.alone = r.alone && k.returned && k.end < r.start
	}
	for _, k := range c.sends {
		r.alone = r.alone && k.returned && k.end < r.start
	}
	w.ev("client%d connect done err=%v", c.idx, r.err != nil)
	return r
}

func (c *Client) wait() *WaitRec {
	w := c.w
	r := &WaitRec{client: c, start: w.now(), onConn: c.isConnected(), gen: len(c.connected), pair: c.lastPair()}
	c.waits = append(c.waits, r)
	w.ev("client%d wait", c.idx)
	r.err = c.st.Wait()
	r.returned, r.end = true, w.now()
	w.ev("client%d wait done err=%v", c.idx, r.err != nil)
	return r
}

// lastPair is the newest connection the client dialled.
func (c *Client) lastPair() *connPair {
	for i := len(c.w.net.conns) - 1; i >= 0; i-- {
		if c.w.net.conns[i].addr == c.host {
			return c.w.net.conns[i]
		}
	}
	return nil
}

func (c *Client) pairs() []*connPair {
	var l []*connPair
	for _, p := range c.w.net.conns {
		if p.addr == c.host {
			l = append(l, p)
		}
	}
	return l
}

// runThread performs a thread's operations.
func (w *World) runThread(ti int, t *Thread) {
	defer func() { w.live-- }()
	if t.Delay > 0 {
		time.Sleep(time.Duration(t.Delay) * time.Millisecond)
	}
	for oi := range t.Ops {
		op := &t.Ops[oi]
		c := w.clients[t.Client]
		tok := fmt.Sprintf("t%d.%d", ti, oi)
		if op.Tok != "" {
			tok = op.Tok
		}
		do := func() {
			switch op.K {
			case "call":
				c.call(ti, op, tok)
			case "notify":
				c.notify(ti, op, tok)
			case "sleep":
				time.Sleep(time.Duration(op.Ms) * time.Millisecond)
			case "close":
				c.close()
			case "lose":
				w.fire(&Fault{K: "reset", Conn: 1000 + c.idx})
			case "connect":
				if c.st != nil {
					c.connect(op)
				}
			case "wait":
				if c.st != nil {
					c.wait()
				}
			case "alien":
				w.alien(ti, oi, c, op)
			default:
				if w.extraOp == nil || !w.extraOp(ti, oi, c, op, tok) {
					panic("harness: op " + op.K)
				}
			}
		}
		if op.Bg {
			w.live++
			go func() {
				defer func() { w.live-- }()
				do()
			}()
			runtime.SimYield(0x7EAD)
		} else {
			do()
		}
	}
}
