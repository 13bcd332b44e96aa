package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	"golang.org/x/net/http2"
)

// Well-behaved clients that are not jlib's: they speak HTTP/1, WebSocket or
// HTTP/2 correctly, but write their handshakes, headers, JSON and frames in
// other ways. What they are owed is the same.

type alienMsg struct {
	tok   string
	op    *Op
	id    interface{}
	trace string
	res   jlib.Message
	resTr string
	group int // the stream it went over
	extra int // replies with its id beyond the first
}

type AlienRec struct {
	op       *Op
	what     string
	kind     string
	msgs     []*alienMsg
	start    time.Duration
	end      time.Duration
	returned bool
	err      error
	conn     *simConn
	clean    bool
}

func (w *World) alien(ti, oi int, c *Client, op *Op) {
	r := newRng(uint64(op.Ms)*7919 + 13)
	a := &AlienRec{op: op, kind: op.Params, start: w.now()}
	a.what = fmt.Sprintf("foreign client t%d.%d (%s, variant %d)", ti, oi, a.kind, op.Ms)
	w.aliens = append(w.aliens, a)
	w.faults["alien-"+a.kind]++
	sp := Spec{}
	if op.Spec != nil {
		sp = *op.Spec
	}
	streams := 1
	if a.kind == "h2" {
		streams = 1 + r.Intn(3)
	}
	for g := 0; g < streams; g++ {
		for i := 0; i <= sp.G; i++ {
			m := &alienMsg{tok: fmt.Sprintf("rawal%d.%d.%d.%d", ti, oi, g, i), group: g}
			s := &Spec{D: sp.D, O: sp.O, P: sp.P}
			if i > 0 {
				s.P = r.Intn(64)
				s.O = []string{"", "", "", "rpc", "err", "panic", "nan", "map", "null"}[r.Intn(9)]
			}
			m.op = &Op{K: "call", M: "work", Spec: s}
			if i > 0 && r.Intn(5) == 0 {
				// parameters in the other forms JSON-RPC knows
				g := &G{Rng: r}
				m.op = &Op{K: "call", M: "plain", Params: g.plainParams()}
			}
			m.id = m.tok
			if r.Intn(3) == 0 {
				m.id = g*1000 + i
			}
			if r.Intn(2) == 0 {
				m.trace = "al" + m.tok
			}
			a.msgs = append(a.msgs, m)
		}
	}
	w.ev("alien t%d.%d %s", ti, oi, a.kind)
	host := fmt.Sprintf("127.0.0.%d:%s", 60+ti%40, simPort)
	a.err = func() error {
		nc, err := net.Dial("tcp", host)
		if err != nil {
			return err
		}
		defer nc.Close()
		a.conn = nc.(*simConn)
		nc.SetDeadline(time.Now().Add(alienLimit))
		conn := nc
		if w.sc.Server.TLS {
			cfg := clientTLS()
			cfg.NextProtos = map[string][]string{"ws": {"http/1.1"}, "h1": {"h2x", "http/1.1"}, "h2": {"h2", "http/1.1"}}[a.kind]
			if a.kind != "h2" && r.Intn(3) == 0 {
				cfg.NextProtos = nil
			}
			tc := tls.Client(nc, cfg)
			if err := tc.Handshake(); err != nil {
				return err
			}
			conn = tc
		}
		switch a.kind {
		case "ws":
			return w.alienWS(a, conn, r)
		case "h1":
			return w.alienH1(a, conn, r)
		}
		return w.alienH2(a, conn, r, streams)
	}()
	if a.conn != nil && !a.conn.pair.disturbed && !a.conn.pair.frozen && !w.anyFault {
		a.clean = true
		for _, s := range w.servers {
			if s.canceled || s.crashed {
				a.clean = false
			}
		}
	}
	a.returned, a.end = true, w.now()
	w.ev("alien t%d.%d done err=%v", ti, oi, a.err)
}

const alienLimit = 40 * time.Second

// text writes a request in one of the ways JSON allows.
func (m *alienMsg) text(w *World, c *Client, r *Rng, header bool) []byte {
	params := jsonStr(c.params(m.op, m.tok))
	if r.Intn(3) == 0 {
		// characters need not be escaped
		params = strings.NewReplacer(`\\`, `\\`, `\u2028`, "\u2028", `\u003c`, "<", `\u003e`, ">", `\u0026`, "&", "/", `\/`).Replace(params)
	}
	f := []string{`"id":` + jsonStr(m.id), `"method":"` + m.op.M + `"`, `"params":` + params}
	if r.Intn(3) > 0 {
		f = append(f, `"jsonrpc":"2.0"`)
	}
	if m.trace != "" && !header {
		f = append(f, `"traceid":`+jsonStr(m.trace))
	}
	if r.Intn(4) == 0 {
		f = append(f, `"other":{"id":1,"method":"x","params":[]}`)
	}
	for i := len(f) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		f[i], f[j] = f[j], f[i]
	}
	sep, end := ",", ""
	switch r.Intn(4) {
	case 0:
		sep = " ,\n  "
	case 1:
		sep, end = ",\t", " \r\n"
	}
	s := "{" + strings.Join(f, sep) + "}" + end
	if r.Intn(4) == 0 {
		s = strings.Replace(s, `"method":"work"`, `"method":"w\u006frk"`, 1)
	}
	if r.Intn(4) == 0 {
		s = " " + s
	}
	return []byte(s)
}

// errPushed: not a reply but a message the server sends to all its sessions.
var errPushed = errors.New("a pushed message")

func (a *AlienRec) took(data []byte, trace string, header bool) error {
	res, err := jlib.ParseBytes(bytes.TrimSpace(data))
	if err != nil {
		return fmt.Errorf("reply %q: %v", short(string(data), 100), err)
	}
	if res.IsNotify() && (res.MustMethod() == "pushed" || res.MustMethod() == "same") {
		return errPushed
	}
	if !res.IsResultOrError() {
		return fmt.Errorf("got a request: %s", short(string(data), 100))
	}
	for _, m := range a.msgs {
		if fmt.Sprint(m.id) == fmt.Sprint(res.MustId()) {
			if m.res != nil {
				m.extra++
				return nil
			}
			m.res = res
			m.resTr = res.TraceId()
			if header {
				m.resTr = trace
			}
			return nil
		}
	}
	return fmt.Errorf("a reply to nothing: %s", short(string(data), 100))
}

func oneOf(r *Rng, s ...string) string { return s[r.Intn(len(s))] }

// wsHandshake is a correct handshake in one of many spellings.
func wsHandshake(r *Rng, extra string) string {
	path := oneOf(r, "/", "/", "/rpc", "/a/b?x=1&y=%20")
	l := []string{
		oneOf(r, "Upgrade: ", "upgrade: ", "UPGRADE:") + oneOf(r, "websocket", "websocket", "WebSocket", "WEBSOCKET"),
		"Sec-WebSocket-Version: 13",
		oneOf(r, "Sec-WebSocket-Key: ", "sec-websocket-key: ") + "dGhlIHNhbXBsZSBub25jZQ==",
	}
	switch r.Intn(6) {
	case 0, 1:
		l = append(l, "Connection: Upgrade")
	case 2:
		l = append(l, "connection: upgrade")
	case 3:
		l = append(l, "Connection: keep-alive, Upgrade")
	case 4:
		l = append(l, "Connection: Upgrade, Keep-Alive")
	case 5:
		l = append(l, "Connection: keep-alive", "Connection: Upgrade")
	}
	switch r.Intn(5) {
	case 0:
		l = append(l, "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits")
	case 1:
		l = append(l, "Origin: http://sim", "User-Agent: Mozilla/5.0", "Cookie: a=b; c=d")
	case 2:
		l = append(l, "Sec-WebSocket-Protocol: jsonrpc, other", "Pragma: no-cache")
	}
	switch r.Intn(8) {
	case 0:
		l = append(l, "X-Forwarded-For: 10.0.0.1, 10.0.0.2", "X-Forwarded-Proto: https", "Via: 1.1 proxy", "Forwarded: for=10.0.0.1")
	case 1:
		for i, n := 0, 10+r.Intn(60); i < n; i++ {
			l = append(l, fmt.Sprintf("X-Junk-%d: %s", i, strings.Repeat("j", r.Intn(60))))
		}
	case 2:
		l = append(l, "Content-Length: 0", "Content-Type: text/plain", "Accept: */*", "TE: trailers")
	}
	for i := len(l) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return "GET " + path + " HTTP/1.1\r\nHost: sim\r\n" + strings.Join(l, "\r\n") + "\r\n" + extra + "\r\n"
}

// readWS returns the next text message, fragments joined, pings answered.
func readWS(br *bufio.Reader, conn io.Writer) ([]byte, error) {
	var msg []byte
	for {
		var hd [2]byte
		if _, err := io.ReadFull(br, hd[:]); err != nil {
			return nil, err
		}
		n := int(hd[1] & 0x7f)
		if n > 125 {
			k := 2
			if n == 127 {
				k = 8
			}
			b := make([]byte, k)
			if _, err := io.ReadFull(br, b); err != nil {
				return nil, err
			}
			n = 0
			for _, x := range b {
				n = n<<8 | int(x)
			}
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		switch hd[0] & 15 {
		case 8:
			return nil, fmt.Errorf("close frame %q", b)
		case 9:
			conn.Write(wsFrame(10, true, true, b, 0))
			continue
		case 10:
			continue
		}
		msg = append(msg, b...)
		if hd[0]&0x80 != 0 {
			return msg, nil
		}
	}
}

func (w *World) alienWS(a *AlienRec, conn net.Conn, r *Rng) error {
	var out []byte
	hs := []byte(wsHandshake(r, ""))
	for _, m := range a.msgs {
		b := m.text(w, w.clients[0], r, false)
		op := byte(1)
		for {
			n := len(b)
			if r.Intn(2) == 0 && n > 1 {
				n = r.Intn(n) // a first piece, possibly empty
			}
			out = append(out, wsFrame(op, n == len(b), true, b[:n], 0)...)
			if n == len(b) {
				break
			}
			b, op = b[n:], 0
			if r.Intn(3) == 0 {
				out = append(out, wsFrame(9+byte(r.Intn(2)), true, true, []byte("still there?"), 0)...)
			}
		}
		if r.Intn(5) == 0 {
			out = append(out, wsFrame(9, true, true, nil, 0)...)
		}
		if r.Intn(6) == 0 {
			// not a text message, which is skipped
			out = append(out, wsFrame(2, true, true, []byte{0, 1, 2, 255}, 0)...)
		}
	}
	br := bufio.NewReader(conn)
	if w.sc.Server.Kind == "gateway" && r.Intn(4) == 0 {
		// plain requests over the same connection first, as proxies do
		for i := r.Intn(2); i >= 0; i-- {
			body := `{"jsonrpc":"2.0","id":1,"method":"nope","params":[]}`
			h := fmt.Sprintf("POST / HTTP/1.1\r\nHost: sim\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
			if r.Intn(3) == 0 {
				h = "GET / HTTP/1.1\r\nHost: sim\r\n\r\n"
			}
			if _, err := conn.Write([]byte(h)); err != nil {
				return err
			}
			resp, err := http.ReadResponse(br, nil)
			if err != nil {
				return err
			}
			if _, err := io.Copy(io.Discard, resp.Body); err != nil {
				return err
			}
			if resp.Close {
				a.msgs = nil
				return nil
			}
		}
	}
	if _, err := conn.Write(hs); err != nil {
		return err
	}
	resp, err := http.ReadResponse(br, nil)
	if err != nil {
		return err
	}
	if resp.StatusCode != 101 {
		return fmt.Errorf("handshake answered with status %d", resp.StatusCode)
	}
	werr := make(chan error, 1)
	w.live++
	go func() {
		defer func() { w.live-- }()
		for len(out) > 0 {
			n := len(out)
			if r.Intn(2) == 0 {
				n = 1 + r.Intn(n)
			}
			if _, err := conn.Write(out[:n]); err != nil {
				werr <- err
				return
			}
			out = out[n:]
		}
		werr <- nil
	}()
	for range a.msgs {
		err := errPushed
		for err == errPushed {
			b, e := readWS(br, conn)
			if e != nil {
				return e
			}
			err = a.took(b, "", false)
		}
		if err != nil {
			return err
		}
	}
	if err := <-werr; err != nil {
		return err
	}
	if r.Intn(2) == 0 {
		if _, err := conn.Write(wsFrame(8, true, true, [][]byte{{3, 232}, {3, 232}, nil, {3, 233}, {3, 235, 'b', 'y', 'e'}, {15, 160}}[r.Intn(6)], 0)); err != nil {
			return err
		}
		a.conn.pair.left = w.now()
		for {
			b, err := readWS(br, conn)
			if err != nil {
				break
			}
			if a.took(b, "", false) != errPushed {
				return fmt.Errorf("one more message came after all replies")
			}
		}
	}
	return nil
}

func (w *World) alienH1(a *AlienRec, conn net.Conn, r *Rng) error {
	br := bufio.NewReader(conn)
	pipelined := r.Intn(3) == 0
	var out []byte
	read := func() error {
		resp, err := http.ReadResponse(br, nil)
		if err == nil && resp.StatusCode == 100 {
			resp, err = http.ReadResponse(br, nil)
		}
		if err != nil {
			return err
		}
		b, err := io.ReadAll(resp.Body)
		if err != nil {
			return err
		}
		if resp.StatusCode != 200 {
			return fmt.Errorf("status %d %q", resp.StatusCode, short(string(b), 80))
		}
		return a.took(b, resp.Header.Get("X-Trace-Id"), true)
	}
	for i, m := range a.msgs {
		b := m.text(w, w.clients[0], r, true)
		l := []string{"Host: sim"}
		if m.trace != "" {
			l = append(l, oneOf(r, "X-Trace-Id: ", "x-trace-id: ", "X-TRACE-ID:")+m.trace)
		}
		if s := oneOf(r, "application/json", "application/json; charset=utf-8", "text/plain", "application/x-www-form-urlencoded", ""); s != "" {
			l = append(l, "Content-Type: "+s)
		}
		switch r.Intn(6) {
		case 0:
			l = append(l, "Connection: keep-alive")
		case 1:
			// an upgrade nobody here knows
			l = append(l, "Connection: Upgrade", "Upgrade: "+oneOf(r, "TLS/1.0", "foo/2", "IRC/6.9"))
		case 2:
			l = append(l, "Accept-Encoding: gzip, deflate", "User-Agent: curl/8", "Cookie: x=y")
		case 3:
			if i == len(a.msgs)-1 {
				l = append(l, "Connection: close")
			}
		}
		if !pipelined && r.Intn(6) == 0 {
			l = append(l, "Expect: 100-continue")
		}
		body := b
		if r.Intn(3) == 0 {
			l = append(l, "Transfer-Encoding: chunked")
			var cb []byte
			for len(b) > 0 {
				n := 1 + r.Intn(len(b))
				cb = append(cb, fmt.Sprintf("%x\r\n", n)...)
				cb = append(append(cb, b[:n]...), "\r\n"...)
				b = b[n:]
			}
			body = append(cb, "0\r\n\r\n"...)
		} else {
			l = append(l, fmt.Sprintf("Content-Length: %d", len(b)))
		}
		for i := len(l) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		h := "POST " + oneOf(r, "/", "/", "/x/y?z=1", "http://sim/") + " HTTP/1.1\r\n" + strings.Join(l, "\r\n") + "\r\n\r\n"
		out = append(append(out, h...), body...)
		if pipelined {
			continue
		}
		for len(out) > 0 {
			n := len(out)
			if r.Intn(3) == 0 {
				n = 1 + r.Intn(n)
			}
			if _, err := conn.Write(out[:n]); err != nil {
				return err
			}
			out = out[n:]
		}
		if err := read(); err != nil {
			return err
		}
	}
	if pipelined {
		// sent all at once, answered one by one
		w.live++
		go func() {
			defer func() { w.live-- }()
			conn.Write(out)
		}()
		for range a.msgs {
			if err := read(); err != nil {
				return err
			}
		}
	}
	return nil
}

// alienH2: several streams of one connection.
func (w *World) alienH2(a *AlienRec, conn net.Conn, r *Rng, streams int) error {
	tr := &http2.Transport{AllowHTTP: true, DisableCompression: r.Intn(2) == 0}
	cc, err := tr.NewClientConn(conn)
	if err != nil {
		return err
	}
	defer cc.Close()
	scheme := "http"
	if w.sc.Server.TLS {
		scheme = "https"
	}
	errs := make(chan error, streams)
	for g := 0; g < streams; g++ {
		g, r := g, r.Fork()
		w.live++
		go func() {
			defer func() { w.live-- }()
			errs <- func() error {
				var out []byte
				n := 0
				for _, m := range a.msgs {
					if m.group != g {
						continue
					}
					n++
					out = append(out, m.text(w, w.clients[0], r, false)...)
					out = append(out, oneOf(r, "\n", "\n", "", " ", "\r\n\r\n")...)
				}
				pr, pw := io.Pipe()
				ctx, cancel := context.WithTimeout(context.Background(), alienLimit)
				defer cancel()
				req, _ := http.NewRequestWithContext(ctx, oneOf(r, "PRI", "POST", "PUT"), scheme+"://sim"+oneOf(r, "/", "/", "/q?x=1"), pr)
				if r.Intn(2) == 0 {
					req.Header.Set("Content-Type", "application/json")
					req.Header.Set("User-Agent", "other/1")
				}
				w.live++
				go func() {
					defer func() { w.live-- }()
					for len(out) > 0 {
						n := len(out)
						if r.Intn(2) == 0 {
							n = 1 + r.Intn(n)
						}
						if _, err := pw.Write(out[:n]); err != nil {
							return
						}
						out = out[n:]
					}
				}()
				defer pw.Close()
				resp, err := cc.RoundTrip(req)
				if err != nil {
					pr.Close()
					return err
				}
				defer resp.Body.Close()
				if resp.StatusCode != 200 {
					pr.Close()
					return fmt.Errorf("status %d", resp.StatusCode)
				}
				dec := json.NewDecoder(resp.Body)
				for i := 0; i < n; i++ {
					err := errPushed
					for err == errPushed {
						var m json.RawMessage
						if err := dec.Decode(&m); err != nil {
							pr.Close()
							return err
						}
						err = a.took(m, "", false)
					}
					if err != nil {
						return err
					}
				}
				return nil
			}()
		}()
	}
	var first error
	for g := 0; g < streams; g++ {
		if err := <-errs; err != nil && first == nil {
			first = err
		}
	}
	return first
}

// checkAliens: what a correct client is owed, whoever wrote it.
func (w *World) checkAliens() {
	prop := w.sc.Prop
	if prop == "C07" {
		prop = "C09"
	}
	for _, a := range w.aliens {
		sess := map[int]string{}
		for _, m := range a.msgs {
			what := fmt.Sprintf("request %s of %s", m.tok, a.what)
			es := w.execByTok[m.tok]
			for _, e := range es {
				want := map[string]string{"h1": "", "ws": "ws", "h2": "h2"}[a.kind]
				if e.transport != want {
					w.violate("C13", "transport", "%s was handled by a session of kind %q instead of %q", what, e.transport, want)
				}
				if s, ok := sess[m.group]; ok && s != e.sess {
					w.violate("C13", "session", "%s was handled in session %s, another of the same stream in %s", what, sid(e.sess), sid(s))
				}
				for g, s := range sess {
					if g != m.group && s == e.sess && s != "" {
						w.violate("C13", "session", "%s shares its session %s with another stream", what, sid(s))
					}
				}
				sess[m.group] = e.sess
				if e.trace != m.trace {
					w.violate("C16", "handler-trace", "%s was sent with trace id %q and its handler saw %q", what, m.trace, e.trace)
				}
				if want := jsonStr(w.clients[0].params(m.op, m.tok)); e.params != want {
					w.violate("C10", "params", "%s ran with parameters %s instead of %s", what, short(e.params, 150), short(want, 150))
				}
			}
			if m.res != nil {
				if len(es) != 1 && m.op.M == "work" {
					w.violate(prop, "alien-executed", "%s was answered and ran %d times", what, len(es))
				}
				if m.extra > 0 {
					w.violate(prop, "alien-replies", "%s was answered %d times", what, 1+m.extra)
				}
				if d := w.expect(m.op, m.tok, w.clients[0]).matches(m.res); d != "" {
					w.violate(prop, "alien-reply", "%s got %s", what, d)
				}
				if m.resTr != m.trace {
					w.violate("C16", "response-trace", "%s was sent with trace id %q and its response carries %q", what, m.trace, m.resTr)
				}
			}
		}
		if a.returned && a.clean && a.err != nil && a.end-a.start < alienLimit-eps && w.netAllow() < 3*time.Second {
			w.violate(prop, "alien-failed", "%s failed although nothing disturbed it: %v", a.what, a.err)
		} else if a.returned && a.clean && a.err != nil && w.slack() < 15*time.Second && w.netAllow() < 3*time.Second {
			w.violate(prop, "alien-stuck", "%s was not answered in %v: %v", a.what, alienLimit, a.err)
		}
	}
}

func (g *G) alien() Op {
	kinds := map[string][]string{"gateway": {"h1", "ws", "ws", "h2"}, "ws": {"ws"}, "h2": {"h2"}, "h1": {"h1"}}[g.sc.Server.Kind]
	return Op{K: "alien", Params: g.PickS(kinds...), Ms: g.Intn(1 << 20),
		Spec: &Spec{D: g.Pick(0, 0, 0, 2, 50), O: g.PickS("", "", "map", "rpc", "err"), P: g.Intn(64), G: g.Intn(5)}}
}

func (g *G) someAliens(p int) {
	if !g.P(1, p) {
		return
	}
	for i := 0; i < 1+g.Intn(2); i++ {
		t := g.thread(0)
		t.Delay = g.Pick(0, 0, 3, 50)
		for j := 0; j < 1+g.Intn(3); j++ {
			t.Ops = append(t.Ops, g.alien())
			if g.P(1, 3) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 30, 300)))
			}
		}
	}
}
