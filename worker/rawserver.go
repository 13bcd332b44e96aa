package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

// The raw server is a script of the harness that answers the library's
// clients: well, late, twice, out of order, with garbage or never. The
// request itself says how (the outcome in its spec).

// wild outcomes may end the client's connection or its call
var wildOuts = []string{"bad", "trunc", "close", "rst", "errstr", "errnull", "bothre", "idarr", "idnull", "noid", "deep", "empty",
	"binary", "binframe", "badframe", "closeframe", "status500", "status500json", "html", "empty200", "notif", "reqreply", "truncbody", "slowbody",
	"redirect", "redirloop", "number", "array", "badutf8", "badtrace", "hugenum", "halfclose", "status204", "badlen", "badheader"}

type rawPeer struct {
	s      *Server
	kind   string
	client *Client
	mu     sync.Mutex
	ws     *websocket.Conn
	w      io.Writer
	fl     http.Flusher
	conn   net.Conn
	done   chan struct{}
	once   sync.Once
	h1done bool
}

func (s *Server) rawHandler() http.Handler {
	h := http.HandlerFunc(s.rawServe)
	if s.cfg.TLS {
		return h
	}
	return h2c.NewHandler(h, &http2.Server{})
}

func (p *rawPeer) end() { p.once.Do(func() { close(p.done) }) }

func (p *rawPeer) ended() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// hs: what becomes of the n-th handshake
func (s *Server) rawHandshake(w http.ResponseWriter, r *http.Request, c *Client) bool {
	wd := s.w
	how := ""
	if wd.rawShakes < wd.sc.p("hsn") {
		wd.rawShakes++
		how = wd.sc.S["hs"]
	}
	if how == "" {
		return true
	}
	if c != nil {
		wd.touch(c.idx)
	}
	wd.faults["handshake-"+how]++
	wd.ev("raw handshake %s", how)
	switch how {
	case "deny":
		w.WriteHeader([]int{401, 403, 404, 500, 503, 301}[wd.rng.Intn(6)])
		w.Write([]byte("no"))
	case "hang":
		select {
		case <-s.ctx.Done():
		case <-r.Context().Done():
		case <-time.After(25 * time.Second):
		}
	case "slow":
		time.Sleep(time.Duration(wd.rng.Range(1, 4000)) * time.Millisecond)
		return true
	case "close":
		panic(http.ErrAbortHandler)
	case "plain": // 200 where an upgrade is asked for
		w.Write([]byte("hello"))
	}
	return false
}

func (s *Server) rawServe(w http.ResponseWriter, r *http.Request) {
	wd := s.w
	c := wd.clientAt(r.RemoteAddr)
	switch {
	case websocket.IsWebSocketUpgrade(r):
		if !s.rawHandshake(w, r, c) {
			return
		}
		up := websocket.Upgrader{}
		ws, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		p := &rawPeer{s: s, kind: "ws", client: c, ws: ws, conn: ws.UnderlyingConn(), done: make(chan struct{})}
		go func() {
			select {
			case <-s.ctx.Done():
			case <-p.done:
			}
			ws.Close()
		}()
		defer p.end()
		for {
			_, b, err := ws.ReadMessage()
			if err != nil {
				return
			}
			s.rawMessage(p, b)
		}
	case r.Method == "PRI":
		if !s.rawHandshake(w, r, c) {
			return
		}
		fl := w.(http.Flusher)
		w.WriteHeader(200)
		fl.Flush()
		p := &rawPeer{s: s, kind: "h2", client: c, w: w, fl: fl, done: make(chan struct{})}
		rd := make(chan struct{})
		go func() {
			defer close(rd)
			dec := json.NewDecoder(r.Body)
			for {
				var m json.RawMessage
				if dec.Decode(&m) != nil {
					p.end()
					return
				}
				s.rawMessage(p, m)
			}
		}()
		select {
		case <-s.ctx.Done():
		case <-p.done:
		case <-r.Context().Done():
		}
		p.end()
		p.mu.Lock() // no write after the handler has returned
		p.w = nil
		p.mu.Unlock()
		r.Body.Close()
		if p.h1done {
			panic(http.ErrAbortHandler)
		}
	default:
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return
		}
		p := &rawPeer{s: s, kind: "h1", client: c, w: w, done: make(chan struct{})}
		var q rawReq
		if !q.parse(b) {
			w.WriteHeader(400)
			return
		}
		s.rawH1(p, w, r, &q)
	}
}

type rawReq struct {
	id     json.RawMessage
	hasId  bool
	method string
	tok    string
	spec   map[string]interface{}
	pay    json.RawMessage
	trace  string
}

func (q *rawReq) parse(b []byte) bool {
	var m struct {
		Id     *json.RawMessage
		Method string
		Params []json.RawMessage
		Trace  string `json:"traceid"`
	}
	if json.Unmarshal(b, &m) != nil {
		return false
	}
	q.method, q.trace = m.Method, m.Trace
	if m.Id != nil {
		q.id, q.hasId = *m.Id, true
	}
	q.pay = json.RawMessage("null")
	if len(m.Params) > 0 {
		json.Unmarshal(m.Params[0], &q.tok)
	}
	if len(m.Params) > 1 {
		d := json.NewDecoder(bytes.NewReader(m.Params[1]))
		d.UseNumber()
		d.Decode(&q.spec)
	}
	if len(m.Params) > 2 {
		q.pay = m.Params[2]
	}
	return true
}

func (q *rawReq) reply(id, body string) string {
	s := fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,%s`, id, body)
	if q.trace != "" {
		s += `,"traceid":` + jsonStr(q.trace)
	}
	return s + "}"
}

func (q *rawReq) ok() string {
	return q.reply(string(q.id), fmt.Sprintf(`"result":[%s,%s]`, jsonStr(q.tok), q.pay))
}

func (q *rawReq) bad() string {
	return q.reply(string(q.id), fmt.Sprintf(`"error":{"code":%d,"message":%s,"data":%s}`, -500-len(q.tok), jsonStr("E "+q.tok), q.pay))
}

// text sends one message, in pieces if split is positive.
func (p *rawPeer) text(m string) bool { return p.raw([]byte(m), websocket.TextMessage) }

func (p *rawPeer) raw(b []byte, kind int) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.ended() {
		return false
	}
	if p.ws != nil {
		return p.ws.WriteMessage(kind, b) == nil
	}
	if p.w == nil {
		return false
	}
	_, err := p.w.Write(append(append([]byte{}, b...), '\n'))
	p.fl.Flush()
	return err == nil
}

// pieces writes a message without its end of line first, in several writes
func (p *rawPeer) pieces(m string, n int) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.ended() {
		return false
	}
	b := []byte(m)
	if p.ws != nil {
		w, err := p.ws.NextWriter(websocket.TextMessage)
		if err != nil {
			return false
		}
		for len(b) > 0 {
			k := min(n, len(b))
			if _, err := w.Write(b[:k]); err != nil {
				return false
			}
			b = b[k:]
		}
		return w.Close() == nil
	}
	if p.w == nil {
		return false
	}
	for len(b) > 0 {
		k := min(n, len(b))
		if _, err := p.w.Write(b[:k]); err != nil {
			return false
		}
		p.fl.Flush()
		b = b[k:]
	}
	// no newline: JSON needs none
	return true
}

func (s *Server) rawMessage(p *rawPeer, b []byte) {
	var q rawReq
	if !q.parse(b) {
		s.w.violate("C10", "garbled", "the server received something that is no message: %s", short(string(b), 100))
		return
	}
	s.w.ev("raw server got %s tok=%s", q.method, q.tok)
	s.w.probe("handler.start")
	s.rawGot = append(s.rawGot, q.tok)
	if q.method != "work" {
		return
	}
	go s.rawAnswer(p, &q)
}

func (s *Server) answered(q *rawReq) {
	if _, ok := s.w.rawAnswered[q.tok]; !ok {
		s.w.rawAnswered[q.tok] = s.w.now()
	}
	s.w.ev("raw server answered %s", q.tok)
	s.w.probe("handler.end")
}

func (s *Server) rawAnswer(p *rawPeer, q *rawReq) {
	w := s.w
	d := time.Duration(numOf(q.spec, "d")) * time.Millisecond
	n, g := numOf(q.spec, "n"), time.Duration(numOf(q.spec, "g"))*time.Millisecond
	o, _ := q.spec["o"].(string)
	for i := 0; i < n && o != "dup"; i++ {
		pt := fmt.Sprintf("%s.%d", q.tok, i)
		w.rawPushed[pt] = true
		if !p.text(fmt.Sprintf(`{"jsonrpc":"2.0","method":"pushed","params":[%s,%s]}`, jsonStr(pt), jsonStr(padding(i)))) {
			return
		}
		w.probe("push")
		if g > 0 {
			time.Sleep(g)
		}
	}
	if d > 0 {
		time.Sleep(d)
	}
	if !q.hasId {
		return
	}
	if p.ended() {
		return
	}
	sent := func(ok bool) {
		if ok {
			s.answered(q)
		}
	}
	for _, k := range wildOuts {
		if k == o {
			w.faults["reply-"+o]++
			if p.client != nil {
				w.touch(p.client.idx)
			}
		}
	}
	id := string(q.id)
	other := func() string {
		if strings.HasPrefix(id, `"`) {
			return "987654"
		}
		return `"` + id + `"`
	}
	switch o {
	case "", "ok":
		sent(p.text(q.ok()))
	case "map":
		sent(p.text(q.reply(id, fmt.Sprintf(`"result":{"t":%s,"p":%s}`, jsonStr(q.tok), q.pay))))
	case "rpc":
		sent(p.text(q.bad()))
	case "pieces":
		sent(p.pieces(q.ok(), 1+g2(q)))
	case "never":
		w.faults["reply-never"]++
	case "dup":
		w.faults["reply-dup"]++
		sent(p.text(q.ok()))
		for i := 0; i <= n; i++ {
			time.Sleep(g)
			if i%2 == 0 {
				p.text(q.bad())
			} else {
				p.text(q.ok())
			}
		}
	case "unasked":
		w.faults["reply-unasked"]++
		for i := 0; i <= n%3; i++ {
			p.text(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":["bogus",0]}`, []string{`"zz1"`, "99999", "-7", `""`, "9007199254740995", `"unasked"`}[w.rng.Intn(6)]))
		}
		sent(p.text(q.ok()))
	case "othertype":
		w.faults["reply-othertype"]++
		p.text(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":["bogus",0]}`, other()))
		p.text(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":1,"message":"E bogus"}}`, other()))
		time.Sleep(g)
		sent(p.text(q.ok()))
	case "reqsame":
		w.faults["reply-request"]++
		p.text(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"ask","params":["bogus"]}`, id))
		p.text(`{"jsonrpc":"2.0","method":"tell","params":["bogus",{"result":["bogus",0]}]}`)
		time.Sleep(g)
		sent(p.text(q.ok()))
	case "bad":
		p.text(`{"id":` + id + `,"result":`)
		p.text(`}}`)
	case "badutf8":
		p.text("{\"id\":" + id + ",\"result\":\"\xff\xfe\"}")
	case "number":
		p.text("5")
	case "array":
		p.text("[" + q.ok() + "]")
	case "empty":
		p.text("{}")
		p.text("null")
		p.text(`""`)
	case "trunc", "halfclose":
		m := q.ok()
		p.mu.Lock()
		if !p.ended() && p.w != nil {
			p.w.Write([]byte(m[:len(m)/2]))
			p.fl.Flush()
		} else if p.ws != nil {
			// a frame that promises more than it holds
			b := []byte{0x81, byte(min(len(m), 125))}
			p.conn.Write(append(b, m[:min(len(m), 125)/2]...))
		}
		p.mu.Unlock()
		if o == "trunc" {
			p.end()
		} else {
			time.AfterFunc(2*time.Second, p.end) // beyond repair
		}
	case "close":
		p.end()
	case "rst":
		p.h1done = true
		if p.ws != nil {
			if cp := w.pairOf(p.conn.RemoteAddr().String()); cp != nil {
				cp.resetBoth()
			}
		}
		p.end()
	case "errstr":
		p.text(q.reply(id, `"error":"str"`))
	case "errnull":
		p.text(q.reply(id, `"error":null`))
	case "bothre":
		p.text(q.reply(id, `"result":1,"error":{"code":1,"message":"E bogus"}`))
	case "idarr":
		p.text(q.reply(`[`+id+`]`, `"result":["bogus",0]`))
		p.text(q.reply(`{"a":1}`, `"result":["bogus",0]`))
		p.text(q.reply(`true`, `"result":["bogus",0]`))
		p.text(q.reply(`1.5`, `"result":["bogus",0]`))
	case "idnull":
		p.text(q.reply("null", `"result":["bogus",0]`))
		p.text(q.reply("null", `"error":{"code":1,"message":"x"}`))
	case "noid":
		p.text(`{"jsonrpc":"2.0","result":["bogus",0]}`)
		p.text(`{"jsonrpc":"2.0","error":{"code":1,"message":"x"}}`)
	case "deep":
		p.text(q.reply(id, `"result":`+strings.Repeat("[", 20000)+strings.Repeat("]", 20000)))
	case "badtrace":
		p.text(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":1,"traceid":5}`, id))
	case "hugenum":
		p.text(q.reply(id, `"result":[1e999999,-0,1`+strings.Repeat("0", 500)+`]`))
	case "binary":
		p.raw([]byte(q.ok()), websocket.BinaryMessage)
	case "binframe":
		p.raw([]byte{0, 1, 2, 255}, websocket.BinaryMessage)
	case "badframe":
		if p.ws != nil {
			p.mu.Lock()
			p.conn.Write([][]byte{{0xff, 0x01, 'x'}, {0x83, 0x00}, {0x81, 0xff, 1, 2, 3, 4}, {0x89, 0x7e, 1, 0}, {0x80, 0x01, 'x'}, {0x81, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}[w.rng.Intn(6)])
			p.mu.Unlock()
			time.AfterFunc(2*time.Second, p.end)
		} else {
			p.end()
		}
	case "closeframe":
		if p.ws != nil {
			p.mu.Lock()
			p.ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage([]int{1000, 1001, 1002, 1011, 1006 - 2}[w.rng.Intn(5)], "bye"), time.Now().Add(time.Second))
			p.mu.Unlock()
		} else {
			p.end()
		}
	case "ping":
		if p.ws != nil {
			p.mu.Lock()
			p.ws.WriteControl(websocket.PingMessage, []byte("hello"), time.Now().Add(time.Second))
			p.mu.Unlock()
		}
		sent(p.text(q.ok()))
	default:
		// an outcome meant for HTTP/1
		sent(p.text(q.ok()))
	}
}

func g2(q *rawReq) int { return numOf(q.spec, "n") % 40 }

func (s *Server) rawH1(p *rawPeer, w http.ResponseWriter, r *http.Request, q *rawReq) {
	wd := s.w
	o, _ := q.spec["o"].(string)
	s.w.ev("raw server got %s tok=%s", q.method, q.tok)
	s.w.probe("handler.start")
	s.rawGot = append(s.rawGot, q.tok)
	if d := time.Duration(numOf(q.spec, "d")) * time.Millisecond; d > 0 {
		time.Sleep(d)
	}
	for _, k := range wildOuts {
		if k == o {
			wd.faults["reply-"+o]++
			if p.client != nil {
				wd.touch(p.client.idx)
			}
		}
	}
	if q.trace == "" {
		q.trace = r.Header.Get("X-Trace-Id")
		if q.trace != "" {
			w.Header().Set("X-Trace-Id", q.trace)
		}
	}
	if !q.hasId {
		return
	}
	w.Header().Set("Content-Type", "application/json")
	put := func(m string) { w.Write([]byte(m)) }
	hijack := func(m string) {
		if hj, ok := w.(http.Hijacker); ok {
			c, _, err := hj.Hijack()
			if err == nil {
				c.SetWriteDeadline(time.Now().Add(time.Second))
				c.Write([]byte(m))
				c.Close()
			}
			return
		}
		panic(http.ErrAbortHandler)
	}
	id := string(q.id)
	switch o {
	case "rpc":
		put(q.bad())
		s.answered(q)
	case "never":
		wd.faults["reply-never"]++
		select {
		case <-r.Context().Done():
		case <-s.ctx.Done():
		}
	case "pieces", "slowbody":
		b := []byte(q.ok())
		n := 1 + g2(q)
		for len(b) > 0 {
			k := min(n, len(b))
			if _, err := w.Write(b[:k]); err != nil {
				return
			}
			w.(http.Flusher).Flush()
			b = b[k:]
			if o == "slowbody" {
				select {
				case <-r.Context().Done():
					return
				case <-s.ctx.Done():
					return
				case <-time.After(time.Second):
				}
			}
		}
		s.answered(q)
	case "status500":
		w.WriteHeader(500)
		put("oops")
	case "status500json":
		w.WriteHeader(500)
		put(q.ok())
	case "status204":
		w.WriteHeader(204)
	case "html":
		put("<html>hello</html>")
	case "empty200", "empty":
	case "notif":
		put(`{"jsonrpc":"2.0","method":"tell","params":["bogus"]}`)
	case "reqreply", "reqsame":
		if o == "reqsame" && p.client != nil {
			wd.touch(p.client.idx)
		}
		put(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"ask","params":["bogus"]}`, id))
	case "trunc", "truncbody", "halfclose":
		m := q.ok()
		hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(m), m[:len(m)/2]))
	case "badlen":
		m := q.ok()
		hijack(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: -%d\r\n\r\n%s", len(m), m))
	case "badheader":
		hijack("HTTP/1.1 20x OK\r\nBad Header\x00: \r\n\r\n")
	case "close", "rst", "closeframe":
		if o == "closeframe" && p.client != nil {
			wd.touch(p.client.idx)
		}
		panic(http.ErrAbortHandler)
	case "redirect":
		http.Redirect(w, r, "/other", 302)
	case "redirloop":
		http.Redirect(w, r, "/", 307)
	case "bad":
		put(`{"id":` + id + `,"result":`)
	case "badutf8":
		put("{\"id\":" + id + ",\"result\":\"\xff\xfe\"}")
	case "number":
		put("5")
	case "array":
		put("[" + q.ok() + "]")
	case "errstr":
		put(q.reply(id, `"error":"str"`))
	case "errnull":
		put(q.reply(id, `"error":null`))
	case "bothre":
		put(q.reply(id, `"result":1,"error":{"code":1,"message":"E bogus"}`))
	case "noid":
		put(`{"jsonrpc":"2.0","result":["bogus",0]}`)
	case "deep":
		put(q.reply(id, `"result":`+strings.Repeat("[", 20000)+strings.Repeat("]", 20000)))
	case "badtrace":
		put(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":1,"traceid":5}`, id))
	case "hugenum":
		put(q.reply(id, `"result":[1e999999,-0,1`+strings.Repeat("0", 500)+`]`))
	case "map":
		put(q.reply(id, fmt.Sprintf(`"result":{"t":%s,"p":%s}`, jsonStr(q.tok), q.pay)))
		s.answered(q)
	default:
		put(q.ok())
		s.answered(q)
	}
}

func wildOp(op *Op) bool {
	for _, k := range wildOuts {
		if op.Spec != nil && op.Spec.O == k {
			return true
		}
	}
	return false
}

// checkRaw: what the raw server answered is what the calls returned.
func (w *World) checkRaw(r *CallRec, exp *Reply) {
	c := r.client
	what := fmt.Sprintf("call %s of client%d (%s)", r.tok, c.idx, c.cfg.Kind)
	at, answered := w.rawAnswered[r.tok]
	clean := c.clean(r.end)
	lost := r.err != nil || isTimeout(r.res)
	if lost {
		if answered && clean && !r.hasCtx && at+w.slack()+w.netAllow() < r.start+c.limit() {
			w.violate("C01", "lost-response", "%s was answered by the server at %v over an undisturbed connection and returned at %v: %s", what, at, r.end, r.outcome())
			w.violate("C10", "lost-response", "%s was answered by the server at %v over an undisturbed connection and returned at %v: %s", what, at, r.end, r.outcome())
		}
		if clean && !r.hasCtx && !answered && r.err != nil && c.st != nil {
			w.violate("C02", "early-error", "%s failed at %v although nothing disturbed it: %s", what, r.end, r.outcome())
		}
		return
	}
	if wildOp(r.op) {
		return
	}
	if r.op.Spec != nil && r.op.Spec.O == "never" {
		w.violate("C01", "foreign", "%s was never answered by the server and returned %s", what, r.outcome())
		return
	}
	if c.st == nil && r.op.Spec != nil && r.op.Spec.O == "reqsame" {
		return
	}
	if r.op.Spec != nil && r.op.Spec.O != "rpc" && r.op.Spec.O != "map" {
		exp = &Reply{result: canon([]interface{}{r.tok, payload(r.op.Spec.P)})}
	}
	if m := exp.matches(r.res); m != "" {
		w.violate("C01", "foreign", "%s returned something the server did not answer it with: %s", what, m)
		if t, ok := tokenIn(r.res); ok && t == r.tok {
			w.violate("C10", "result", "%s got %s", what, m)
		}
	}
}

// genRaw: the library's clients against a server of the harness.
func genRaw(g *G) {
	prop := g.sc.Prop
	if g.P(1, 2) {
		g.sc.Net = mildNet(g.Rng)
	}
	g.sc.Server = ServerCfg{Kind: "raw", TLS: g.P(1, 6)}
	n := 1 + g.Intn(3)
	g.addClients(n, g.P(2, 3))
	g.p("pre", g.Intn(2))
	g.p("slow", 1)
	g.p("quiesce", 3)
	// sometimes all ids are unique, sometimes all of one type
	mode := g.Weighted(3, 2, 2)
	wild := prop == "C06" || prop == "C02" && g.P(1, 2) || g.P(1, 3)
	if wild {
		g.p("probes", 6)
	}
	id := func() string {
		switch mode {
		case 0:
			return ""
		case 1:
			return fmt.Sprintf("i:%d", g.Intn(3))
		}
		return fmt.Sprintf("s:k%d", g.Intn(3))
	}
	outs := []string{"ok", "ok", "ok", "map", "rpc", "pieces", "never", "unasked", "reqsame", "ping"}
	if mode == 0 {
		outs = append(outs, "dup", "dup")
	}
	if mode != 2 {
		outs = append(outs, "othertype")
	}
	for i := 0; i < 1+g.Intn(4); i++ {
		c := g.Intn(n)
		t := g.thread(c)
		t.Delay = g.Pick(0, 0, 5, 100)
		for j := 0; j < 1+g.Intn(5); j++ {
			o := g.call(g.Pick(0, 0, 0, 2, 20, 300, 9600, 10400, 12000))
			o.Id = id()
			o.Spec.O = g.PickS(outs...)
			o.Spec.N = g.Pick(0, 0, 1, 4)
			o.Spec.G = g.Pick(0, 0, 1, 30)
			o.Spec.P = g.Pick(0, 0, 2, 4, 7, 8, 9, 13)
			if wild && g.P(2, 5) {
				o.Spec.O = g.PickS(wildOuts...)
				o.Unwrap = g.P(1, 3)
			}
			if g.P(1, 5) {
				o.Ctx = g.ctx(g.Pick(1, 20, 300, 4000, 9000))
			}
			if prop != "C02" && g.P(1, 2) {
				o.Spec.D = g.Pick(0, 0, 1, 5, 30)
			}
			o.Bg = g.P(1, 2)
			if g.P(1, 8) {
				o = g.notify(0)
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 3) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 30, 900, 10100)))
			}
		}
	}
	if wild && g.P(1, 3) {
		g.sc.S = map[string]string{"hs": g.PickS("deny", "hang", "slow", "close", "plain")}
		g.p("hsn", 1+g.Intn(3))
		for i := range g.sc.Threads {
			for j := range g.sc.Threads[i].Ops {
				if o := &g.sc.Threads[i].Ops[j]; o.Ctx == "" && o.K == "call" && g.P(1, 2) {
					o.Ctx = g.ctx(g.Pick(1, 20, 300, 4000))
				}
			}
		}
	}
	if wild && g.P(1, 4) {
		g.faults(1+g.Intn(2), 500)
	}
}
