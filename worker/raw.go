package main

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"net"
	"runtime"
	"strings"
	"time"

	"golang.org/x/net/http2"
	"golang.org/x/net/http2/hpack"
)

// Raw clients speak to the server byte by byte, outside the library's own
// client: half handshakes, bad frames, bad JSON, sudden death.

type rawClient struct {
	w      *World
	ti     int
	kind   string
	conn   net.Conn // what bytes are written to (TLS or the tcp connection)
	tcp    *simConn
	br     *bufio.Reader
	stop   bool // do not read any more
	ws     bool // websocket framing
	h2     *http2.Framer
	stream uint32
	hbuf   bytes.Buffer
	henc   *hpack.Encoder
	rng    *Rng
	got    int64
	gone   bool
	drains int
	muted  bool // a message was cut: nothing more is sent
}

func (w *World) runRawThread(ti int, t *Thread) {
	defer func() { w.live-- }()
	if t.Delay > 0 {
		time.Sleep(time.Duration(t.Delay) * time.Millisecond)
	}
	c := &rawClient{w: w, ti: ti, kind: t.Raw, rng: newRng(w.sc.Seed ^ uint64(ti)*977)}
	for oi := range t.Ops {
		op := &t.Ops[oi]
		tok := fmt.Sprintf("raw%d.%d", ti, oi)
		c.op(op, tok)
		runtime.SimYield(0x4A3)
	}
	w.raws = append(w.raws, c)
}

func (c *rawClient) end() {
	if c.conn != nil && !c.gone {
		c.gone = true
		c.tcp.Close()
	}
}

func (c *rawClient) write(b []byte) {
	if c.conn == nil || c.gone {
		return
	}
	c.tcp.SetWriteDeadline(time.Now().Add(2 * time.Second))
	_, err := c.conn.Write(b)
	if err != nil {
		c.w.ev("raw%d write failed", c.ti)
	}
}

func (c *rawClient) op(op *Op, tok string) {
	w := c.w
	if op.K == "sleep" {
		time.Sleep(time.Duration(op.Ms) * time.Millisecond)
		return
	}
	if c.muted && (op.K == "msg" || op.K == "frame" || op.K == "pri") {
		return
	}
	w.ev("raw%d %s %s", c.ti, op.K, short(op.Params, 30))
	w.faults["raw-"+op.K]++
	switch op.K {
	case "dial":
		c.end()
		host := fmt.Sprintf("127.0.0.%d:%s", 100+c.ti, simPort)
		nc, err := net.Dial("tcp", host)
		if err != nil {
			c.conn = nil
			return
		}
		c.conn, c.gone, c.ws, c.h2, c.stop = nc, false, false, nil, false
		c.tcp = nc.(*simConn)
		c.tcp.pair.raw = true
		if w.sc.Server.TLS && op.Params != "plain" {
			cfg := clientTLS()
			cfg.NextProtos = []string{"http/1.1"}
			if c.kind == "h2" {
				cfg.NextProtos = []string{"h2"}
			}
			tc := tls.Client(nc, cfg)
			nc.SetDeadline(time.Now().Add(5 * time.Second))
			if tc.Handshake() != nil {
				c.end()
				return
			}
			nc.SetDeadline(time.Time{})
			c.conn = tc
		}
		c.br = bufio.NewReader(c.conn)
		if op.Ms != 1 {
			c.drain()
		}
	case "bytes":
		c.write([]byte(op.Params))
	case "junk":
		b := make([]byte, op.Ms)
		r := newRng(uint64(op.Ms)*31 + c.w.sc.Seed)
		for i := range b {
			b[i] = byte(r.U64())
		}
		c.write(b)
	case "up":
		c.upgrade(op.Params)
	case "pri":
		c.pri(op.Params)
	case "msg":
		c.msg([]byte(strings.ReplaceAll(op.Params, "TOK", tok)), op.Ms)
	case "frame":
		c.frame(op.Params, tok)
	case "noread":
		c.stop = true
		c.tcp1(func(s *simConn) { s.SetReadDeadline(time.Now()) })
	case "rclose":
		c.end()
	case "rrst":
		c.tcp1(func(s *simConn) { s.pair.disturbed = true; s.pair.resetBoth() })
	case "half":
		c.tcp1(func(s *simConn) { s.CloseWrite() })
	default:
		panic("harness: raw op " + op.K)
	}
}

func (c *rawClient) tcp1(f func(s *simConn)) {
	if c.tcp != nil && !c.gone {
		f(c.tcp)
	}
}

// drain reads and drops what the server sends.
func (c *rawClient) drain() {
	conn, tcp, br := c.conn, c.tcp, c.br
	c.drains++
	go func() {
		defer func() { c.drains-- }()
		buf := make([]byte, 4096)
		for {
			if c.stop && c.tcp == tcp {
				return
			}
			n, err := br.Read(buf)
			c.got += int64(n)
			if err != nil {
				if c.stop && c.tcp == tcp {
					return
				}
				if c.conn == conn {
					c.end()
				} else {
					tcp.Close()
				}
				return
			}
		}
	}()
}

func (c *rawClient) upgrade(v string) {
	key := "dGhlIHNhbXBsZSBub25jZQ=="
	h := "GET / HTTP/1.1\r\nHost: sim\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + key + "\r\n\r\n"
	switch v {
	case "badver":
		h = strings.Replace(h, "Version: 13", "Version: 8", 1)
	case "nokey":
		h = strings.Replace(h, "Sec-WebSocket-Key: "+key+"\r\n", "", 1)
	case "origin":
		h = strings.Replace(h, "Host: sim\r\n", "Host: sim\r\nOrigin: http://evil.example\r\n", 1)
	case "post":
		h = strings.Replace(h, "GET", "POST", 1)
	case "upper":
		h = strings.Replace(h, "Upgrade: websocket", "Upgrade: WebSocket", 1)
	case "h2c":
		h = "GET / HTTP/1.1\r\nHost: sim\r\nConnection: Upgrade, HTTP2-Settings\r\nUpgrade: h2c\r\nHTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA\r\n\r\n"
	case "h2cpost":
		h = "POST / HTTP/1.1\r\nHost: sim\r\nConnection: Upgrade, HTTP2-Settings\r\nUpgrade: h2c\r\nContent-Length: 50\r\nHTTP2-Settings: AAMAAABkAAQCAAAAAAIAAAAA\r\n\r\n{}"
	case "h2cbad":
		h = "GET / HTTP/1.1\r\nHost: sim\r\nConnection: Upgrade\r\nUpgrade: h2c\r\nHTTP2-Settings: !!!\r\n\r\n"
	}
	if v == "part" {
		c.write([]byte(h[:len(h)/2]))
		return
	}
	if v == "early" {
		// a frame right behind the handshake
		c.write(append([]byte(h), wsFrame(1, true, true, []byte(`{"method":"plain","params":[1]}`), 0)...))
		c.ws = true
		return
	}
	c.write([]byte(h))
	c.ws = true
	time.Sleep(3*time.Millisecond + 4*time.Duration(c.w.sc.Net.LatMaxUs)*time.Microsecond)
}

func wsFrame(op byte, fin, mask bool, payload []byte, rsv byte) []byte {
	b := []byte{op | rsv<<4}
	if fin {
		b[0] |= 0x80
	}
	m := byte(0)
	if mask {
		m = 0x80
	}
	switch n := len(payload); {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if mask {
		b = append(b, 1, 2, 3, 4)
		for i, x := range payload {
			b = append(b, x^byte(1+i%4))
		}
	} else {
		b = append(b, payload...)
	}
	return b
}

func (c *rawClient) headers(stream uint32, end bool, fields ...string) {
	c.hbuf.Reset()
	for i := 0; i+1 < len(fields); i += 2 {
		c.henc.WriteField(hpack.HeaderField{Name: fields[i], Value: fields[i+1]})
	}
	c.h2.WriteHeaders(http2.HeadersFrameParam{StreamID: stream, BlockFragment: c.hbuf.Bytes(), EndStream: end, EndHeaders: true})
}

type rawWriter struct{ c *rawClient }

func (r rawWriter) Write(b []byte) (int, error) {
	r.c.write(b)
	return len(b), nil
}

func (c *rawClient) pri(v string) {
	if c.conn == nil || c.gone {
		return
	}
	if c.h2 == nil {
		p := http2.ClientPreface
		if v == "partpre" {
			c.write([]byte(p[:17]))
			return
		}
		c.write([]byte(p))
		c.h2 = http2.NewFramer(rawWriter{c}, nil)
		c.h2.AllowIllegalWrites = true
		c.henc = hpack.NewEncoder(&c.hbuf)
		if v == "nosettings" {
			return
		}
		if v == "tinywin" {
			c.h2.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 10})
		} else {
			c.h2.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 20})
			c.h2.WriteWindowUpdate(0, 1<<24)
		}
		c.stream = 0xffffffff
	}
	c.stream += 2
	method := "PRI"
	switch v {
	case "get":
		method = "GET"
	case "post":
		method = "POST"
	case "connect":
		method = "CONNECT"
	}
	c.headers(c.stream, v == "nobody", ":method", method, ":scheme", "http", ":path", "/", ":authority", "sim")
	time.Sleep(3*time.Millisecond + 4*time.Duration(c.w.sc.Net.LatMaxUs)*time.Microsecond)
}

// msg sends a message in the framing the connection is in; part > 0 cuts it.
func (c *rawClient) msg(b []byte, part int) {
	c.muted = part > 0
	switch {
	case c.ws:
		f := wsFrame(1, true, true, b, 0)
		if part > 0 && part < len(f) {
			f = f[:part]
		}
		c.write(f)
	case c.h2 != nil:
		b = append(b, '\n')
		if part > 0 && part < len(b)-1 {
			b = b[:part]
		}
		c.h2.WriteData(c.stream, false, b)
	default:
		n := len(b)
		if part > 0 && part < n {
			b = b[:part]
		}
		c.write(append([]byte(fmt.Sprintf("POST / HTTP/1.1\r\nHost: sim\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", n)), b...))
	}
}

func (c *rawClient) frame(v, tok string) {
	work := []byte(`{"jsonrpc":"2.0","id":1,"method":"work","params":["` + tok + `",{},"p"]}`)
	if c.ws {
		switch v {
		case "bin":
			c.write(wsFrame(2, true, true, work, 0))
		case "close":
			c.write(wsFrame(8, true, true, []byte{3, 232}, 0))
		case "closebad":
			c.write(wsFrame(8, true, true, []byte{0}, 0))
		case "ping":
			for i := 0; i < 20; i++ {
				c.write(wsFrame(9, true, true, []byte("hello"), 0))
			}
		case "pong":
			c.write(wsFrame(10, true, true, nil, 0))
		case "cont":
			c.write(wsFrame(0, true, true, work, 0))
		case "rsv":
			c.write(wsFrame(1, true, true, work, 4))
		case "unmasked":
			c.write(wsFrame(1, true, false, work, 0))
		case "op":
			c.write(wsFrame(5, true, true, work, 0))
		case "long":
			c.write([]byte{0x81, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5})
		case "ctllong":
			c.write(wsFrame(9, true, true, []byte(longText[:200]), 0))
		case "frag":
			c.write(wsFrame(1, false, true, work[:30], 0))
			c.write(wsFrame(9, true, true, nil, 0))
			c.write(wsFrame(0, true, true, work[30:], 0))
		case "fragopen":
			c.write(wsFrame(1, false, true, work, 0))
		case "fragtwice":
			c.write(wsFrame(1, false, true, work[:30], 0))
			c.write(wsFrame(1, true, true, work, 0))
		case "badutf8":
			c.write(wsFrame(1, true, true, []byte{0xff, 0xfe, '{', '}'}, 0))
		case "badflood":
			for i := 0; i < 25; i++ {
				c.write(wsFrame(1, true, true, []byte([]string{`{"id":`, `{"method":"add","params":[{}]}`, `[]`}[i%3]), 0))
			}
		case "flood":
			for i := 0; i < 150; i++ {
				c.write(wsFrame(1, true, true, []byte(`{"id":1,"method":"plain","params":["`+longText[:500]+`"]}`), 0))
			}
		}
		return
	}
	if c.h2 != nil {
		f := c.h2
		s := c.stream
		switch v {
		case "ping":
			f.WritePing(false, [8]byte{1})
		case "rst":
			f.WriteRSTStream(s, http2.ErrCodeCancel)
		case "goaway":
			f.WriteGoAway(0, http2.ErrCodeNo, nil)
		case "window0":
			f.WriteWindowUpdate(s, 0)
		case "windowmax":
			f.WriteWindowUpdate(s, 1<<31-1)
			f.WriteWindowUpdate(s, 1<<31-1)
		case "settings":
			f.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 1 << 31})
		case "shrink":
			f.WriteSettings(http2.Setting{ID: http2.SettingInitialWindowSize, Val: 0})
		case "badstream":
			f.WriteData(s+100, false, work)
		case "evenstream":
			c.headers(s+1, false, ":method", "PRI", ":scheme", "http", ":path", "/", ":authority", "sim")
		case "again":
			c.headers(s, false, ":method", "PRI", ":scheme", "http", ":path", "/", ":authority", "sim")
		case "trailers":
			c.headers(s, true, "x-trailer", "1")
		case "end":
			f.WriteData(s, true, nil)
		case "endmid":
			f.WriteData(s, true, work[:20])
		case "afterend":
			f.WriteData(s, true, append(work, '\n'))
			f.WriteData(s, false, append(work, '\n'))
		case "pad":
			f.WriteDataPadded(s, false, append(work, '\n'), make([]byte, 100))
		case "unknown":
			f.WriteRawFrame(0x42, 0, s, work)
		case "badlen":
			f.WriteRawFrame(http2.FramePing, 0, 0, []byte{1, 2, 3})
		case "badhpack":
			f.WriteRawFrame(http2.FrameHeaders, http2.FlagHeadersEndHeaders, s+2, []byte{0xff, 0xff, 0xff, 0xff, 0xff})
		case "cont":
			f.WriteRawFrame(http2.FrameContinuation, 0, s, nil)
		case "badflood":
			for i := 0; i < 25; i++ {
				f.WriteData(s, false, []byte(`{"method":"add","params":[{}]}`+"\n"))
			}
		case "many":
			for i := 0; i < 30; i++ {
				c.stream += 2
				c.headers(c.stream, false, ":method", "PRI", ":scheme", "http", ":path", "/", ":authority", "sim")
			}
		case "flood":
			for i := 0; i < 150; i++ {
				f.WriteData(s, false, []byte(`{"id":1,"method":"plain","params":["`+longText[:300]+"\"]}\n"))
			}
		}
		return
	}
	switch v {
	case "chunkopen":
		c.write([]byte("POST / HTTP/1.1\r\nHost: sim\r\nTransfer-Encoding: chunked\r\n\r\n"))
		c.write([]byte(fmt.Sprintf("%x\r\n%s\r\n", len(work), work)))
	case "chunkbad":
		c.write([]byte("POST / HTTP/1.1\r\nHost: sim\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"))
	case "get":
		c.write([]byte("GET / HTTP/1.1\r\nHost: sim\r\n\r\n"))
	case "put":
		c.write([]byte("PUT /x/../y?z HTTP/1.1\r\nHost: sim\r\nContent-Length: 2\r\n\r\n{}"))
	case "nohost":
		c.write([]byte("POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\n{}"))
	case "pipeline":
		for i := 0; i < 5; i++ {
			c.msg([]byte(`{"id":1,"method":"plain","params":[1]}`), 0)
		}
	case "expect":
		c.write([]byte("POST / HTTP/1.1\r\nHost: sim\r\nExpect: 100-continue\r\nContent-Length: 20\r\n\r\n"))
	case "http10":
		c.write([]byte("POST / HTTP/1.0\r\nContent-Length: 40\r\n\r\n" + `{"id":1,"method":"plain","params":[1111]}`))
	case "neglen":
		c.write([]byte("POST / HTTP/1.1\r\nHost: sim\r\nContent-Length: -1\r\n\r\n"))
	case "empty":
		c.write([]byte("POST / HTTP/1.1\r\nHost: sim\r\nContent-Length: 0\r\n\r\n"))
	case "trace":
		c.write([]byte("POST / HTTP/1.1\r\nHost: sim\r\nX-Trace-Id: " + longText[:2000] + "\r\nContent-Length: 38\r\n\r\n" + `{"id":1,"method":"plain","params":[11]}`))
	}
}

var hostileMsgs = []string{
	`{`, `}`, `[`, `[]`, `null`, `5`, `"text"`, `true`, ``, ` `, `{}`, `{"id":1}`, `{"id":null}`, `{"method":""}`, `{"method":5}`,
	`{"id":1,"method":"plain"}`, `{"id":1,"method":"plain","params":null}`, `{"id":1,"method":"plain","params":[]}`,
	`{"id":1,"method":"plain","params":{"a":1}}`, `{"id":1,"method":"plain","params":"x"}`, `{"id":1,"method":"plain","params":[1]`,
	`{"id":1.5,"method":"plain","params":[1]}`, `{"id":[1],"method":"plain","params":[1]}`, `{"id":{"a":1},"method":"plain","params":[1]}`,
	`{"id":true,"method":"plain","params":[1]}`, `{"id":123456789012345678901234567890,"method":"plain","params":[1]}`,
	`{"id":1e400,"method":"plain","params":[1]}`, `{"id":"","method":"plain","params":[1]}`, `{"id":-0,"method":"plain","params":[1e999]}`,
	`{"id":1,"result":5}`, `{"id":1,"error":{"code":1,"message":"m"}}`, `{"id":1,"error":"str"}`, `{"id":1,"error":null,"result":null}`,
	`{"id":1,"error":{},"result":1}`, `{"id":1,"error":{"code":"x"}}`, `{"error":{"code":-1,"message":"no id"}}`, `{"result":1}`,
	`{"id":1,"id":2,"method":"plain","method":"add","params":[1,2]}`, `[{"id":1,"method":"plain","params":[1]}]`,
	`{"id":1,"method":"plain","params":[1]}{"id":2,"method":"plain","params":[2]}`, `{"id":1,"method":"plain","params":[1]} trailing`,
	`{"id":7,"method":"add","params":["x",{}]}`, `{"id":7,"method":"add","params":[1]}`, `{"id":8,"method":"concat","params":[null,null]}`,
	`{"id":8,"method":"shift","params":[null,null]}`, `{"id":8,"method":"shift","params":[[1],2]}`, `{"id":8,"method":"fail","params":[99999999999999999999,1]}`,
	`{"id":8,"method":"whoami","params":[]}`, `{"id":9,"method":"ctxadd","params":[{"a":{}}]}`, `{"method":"add","params":[{}]}`, `{"method":"nope","params":[]}`,
	`{"id":9,"method":"nope","params":[]}`, `{"id":1,"method":"plain","params":[1],"traceid":5}`, `{"id":1,"method":"plain","params":[1],"traceid":"a\nb\u0000"}`,
	"{\"id\":1,\"method\":\"pl\x00ain\",\"params\":[1]}", "\xff\xfe\x00{", `{"id":1,"method":"plain","params":["\ud800"]}`,
	`{"id":3,"method":"work","params":["TOK",{"o":"panic"},1]}`, `{"id":3,"method":"work","params":["TOK",{"o":"err"},1]}`, `{"id":3,"method":"work","params":["TOK",{"o":"rtpanic"},1]}`,
	`{"id":3,"method":"work","params":["TOK",{"o":"rpc"},1]}`, `{"method":"work","params":["TOK",{"o":"panic"},1]}`, `{"method":"work","params":["TOK",{"o":"err"},1]}`,
	`{"id":3,"method":"work","params":["TOK",{"n":150},1]}`, `{"id":3,"method":"work","params":["TOK",{"d":50},1]}`, `{"id":3,"method":"work","params":["TOK",{"d":2000},1]}`,
	`{"id":3,"method":"hold","params":["TOK",3000]}`, `{"method":"hold","params":["TOK",3000]}`, `{"id":3,"method":"work","params":["TOK",{},1]}`,
	`{"id":3,"method":"work","params":["TOK",{"n":20,"g":5,"d":100},1]}`, `{"id":3,"method":"work","params":["TOK",{"n":200,"g":1},1]}`,
	`{"id":4,"method":"any","params":[null]}`, `{"method":"any","params":[null]}`, `{"id":4,"method":"anys","params":[null,null]}`, `{"id":4,"method":"mix","params":[null,null,null]}`,
	`{"id":4,"method":"ptr","params":[null]}`, `{"method":"ptr","params":[null]}`, `{"id":4,"method":"shift","params":[{"x":null,"n":null},null]}`, `{"id":4,"method":"add","params":[1e99,2]}`,
	`{"id":4,"method":"add","params":[99999999999999999999,2]}`, `{"id":4,"method":"nap.typed","params":["x",null]}`, `{"id":4,"method":"gone","params":[]}`,
	`DEEP`, `BIG`,
}

func (g *G) hostileMsg() Op {
	m := hostileMsgs[g.Intn(len(hostileMsgs))]
	switch m {
	case "DEEP":
		m = `{"id":1,"method":"plain","params":` + strings.Repeat("[", 11000)
	case "BIG":
		m = `{"id":1,"method":"plain","params":["` + longText[:60000] + `"]}`
	}
	return Op{K: "msg", Params: m}
}

// hostile adds a thread of a raw client.
func (g *G) hostile(maxDelay int) {
	kinds := []string{"tcp"}
	switch g.sc.Server.Kind {
	case "gateway":
		kinds = []string{"ws", "ws", "h2", "h2", "h1", "tcp"}
	case "ws":
		kinds = []string{"ws", "ws", "h1", "tcp"}
	case "h2":
		kinds = []string{"h2", "h2", "h1", "tcp"}
	case "h1":
		kinds = []string{"h1", "h1", "ws", "tcp"}
	}
	k := g.PickS(kinds...)
	t := Thread{Raw: k, Delay: g.Intn(maxDelay + 1)}
	add := func(o Op) { t.Ops = append(t.Ops, o) }
	d := Op{K: "dial"}
	if g.P(1, 12) {
		d.Params = "plain"
	}
	if g.P(1, 10) {
		d.Ms = 1 // never reads
	}
	add(d)
	pause := func() {
		if g.P(1, 3) {
			add(g.sleep(g.Pick(0, 1, 5, 50, 600)))
		}
	}
	n := 1 + g.Intn(6)
	switch k {
	case "ws":
		v := "ok"
		if g.P(1, 3) {
			v = g.PickS("part", "badver", "nokey", "origin", "post", "upper", "early", "h2c", "h2cpost", "h2cbad")
		}
		add(Op{K: "up", Params: v})
		for i := 0; i < n; i++ {
			pause()
			switch g.Weighted(5, 3, 1, 1) {
			case 0:
				add(g.hostileMsg())
			case 1:
				add(Op{K: "frame", Params: g.PickS("bin", "close", "closebad", "ping", "pong", "cont", "rsv", "unmasked", "op", "long", "ctllong", "frag", "fragopen", "fragtwice", "badutf8", "badflood", "flood")})
			case 2:
				add(Op{K: "msg", Params: `{"id":3,"method":"work","params":["rawcut",{},1]}`, Ms: 1 + g.Intn(50)})
			case 3:
				add(Op{K: "noread"})
			}
		}
	case "h2":
		v := "ok"
		if g.P(1, 3) {
			v = g.PickS("partpre", "nosettings", "tinywin", "get", "post", "connect", "nobody")
		}
		add(Op{K: "pri", Params: v})
		for i := 0; i < n; i++ {
			pause()
			switch g.Weighted(5, 3, 1, 1, 1) {
			case 0:
				add(g.hostileMsg())
			case 1:
				add(Op{K: "frame", Params: g.PickS("ping", "rst", "goaway", "window0", "windowmax", "settings", "shrink", "badstream", "evenstream", "again", "trailers",
					"end", "endmid", "afterend", "pad", "unknown", "badlen", "badhpack", "cont", "many", "badflood", "flood")})
			case 2:
				add(Op{K: "msg", Params: `{"id":3,"method":"work","params":["rawcut",{},1]}`, Ms: 1 + g.Intn(48)})
			case 3:
				add(Op{K: "noread"})
			case 4:
				add(Op{K: "pri", Params: "ok"})
			}
		}
	case "h1":
		for i := 0; i < n; i++ {
			pause()
			switch g.Weighted(5, 3, 1, 1) {
			case 0:
				add(g.hostileMsg())
			case 1:
				add(Op{K: "frame", Params: g.PickS("chunkopen", "chunkbad", "get", "put", "nohost", "pipeline", "expect", "http10", "neglen", "empty", "trace")})
			case 2:
				add(Op{K: "msg", Params: `{"id":3,"method":"work","params":["rawcut",{},1]}`, Ms: 1 + g.Intn(48)})
			case 3:
				add(Op{K: "noread"})
			}
		}
	default:
		for i := 0; i < n; i++ {
			pause()
			if g.P(1, 2) {
				add(Op{K: "junk", Ms: g.Pick(1, 5, 24, 300, 9000)})
			} else {
				add(Op{K: "bytes", Params: g.PickS("GET ", "\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "PRI * HTTP/2.0\r\n\r\n", "POST / HTTP/1.1\r\n", "GET / HTTP/9.9\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01")})
			}
		}
	}
	pause()
	switch g.Weighted(2, 3, 3, 1) {
	case 1:
		add(Op{K: "rclose"})
	case 2:
		add(Op{K: "rrst"})
	case 3:
		add(Op{K: "half"})
	}
	g.sc.Threads = append(g.sc.Threads, t)
}

func genC06(g *G) {
	if g.P(1, 4) {
		genRaw(g)
		return
	}
	g.sc.Net = mildNet(g.Rng)
	g.server("gateway", "gateway", "gateway", "ws", "h2", "h1")
	g.sc.Server.Missing = g.P(1, 3)
	g.sc.Server.Serial = (g.sc.Server.Kind == "ws" || g.sc.Server.Kind == "h2") && g.P(1, 4)
	n := 1 + g.Intn(2)
	g.addClients(n, false)
	g.p("pre", g.Intn(2))
	g.p("fresh", 1)
	g.p("rawend", g.Intn(2))
	g.sc.Server.MissPan = g.P(1, 2)
	g.p("quiesce", 5)
	for i := 0; i < n; i++ {
		t := g.thread(i)
		t.Delay = g.Pick(0, 0, 5)
		burst := g.P(1, 4)
		for j := 0; j < 2+g.Intn(5) || burst && j < 8; j++ {
			o := g.call(g.Pick(0, 0, 3, 30))
			if burst {
				o.Bg = true
				t.Ops = append(t.Ops, o)
				continue
			}
			o.Spec.O = g.PickS("", "", "rpc", "panic", "rtpanic", "err", "nan", "rpcnan")
			o.Spec.N = g.Pick(0, 0, 0, 2)
			o.Bg = g.P(1, 4)
			if g.P(1, 5) {
				o = g.notify(0)
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 2) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 10, 100, 500)))
			}
		}
	}
	for i := 0; i < 1+g.Intn(4); i++ {
		g.hostile(g.Pick(0, 20, 300))
	}
	if g.P(1, 4) {
		// some of the library's own clients are cut off, too
		g.addClients(1, g.sc.Server.Kind != "h1")
		k := len(g.sc.Clients) - 1
		t := g.thread(k)
		for j := 0; j < 1+g.Intn(4); j++ {
			o := g.call(g.Pick(0, 20, 300))
			o.Spec.N = g.Pick(0, 5, 150)
			o.Bg = true
			t.Ops = append(t.Ops, o)
		}
		for i := 0; i < 1+g.Intn(2); i++ {
			f := Fault{K: g.PickS("reset", "cut", "freeze", "rst1", "part", "vanish"), At: g.Intn(200), Dur: g.Pick(10, 3000), Conn: 1000 + k, Side: g.Intn(2), Bytes: g.Intn(300)}
			if g.P(1, 2) {
				f.On = g.PickS("handler.start", "handler.end", "push", "client.connected")
				f.N = 1 + g.Intn(4)
			}
			g.sc.Faults = append(g.sc.Faults, f)
		}
	}
	if !g.sc.Server.Serial && g.P(1, 8) {
		g.crowd(g.Intn(len(g.sc.Clients)))
	}
	if !g.sc.Server.Serial && g.P(1, 4) {
		// slow handlers of every kind, quick ones next to them
		for i := 0; i < 1+g.Intn(4); i++ {
			o := g.nap(g.Pick(500, 3000))
			o.Bg = true
			q := o
			q.Spec = &Spec{D: g.Pick(0, 3)}
			t := g.thread(g.Intn(n), o, q)
			t.Delay = g.Pick(0, 10)
		}
	}
	g.someAliens(4)
	g.throng(30)
	g.marathon(60)
}
