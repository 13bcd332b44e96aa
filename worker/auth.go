package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

// The authentication world: a server behind an AuthHandler, clients with
// all kinds of credentials, and a wall clock that jumps.

// the other service of the process, which has secrets of its own
const otherSecret = "another secret"

const otherPath = "/other"

func otherConfig() *jlibhttp.AuthConfig {
	return &jlibhttp.AuthConfig{
		Bearer: []jlibhttp.BearerAuthConfig{{Token: "other-token", Username: "otto"}},
		Basic:  []jlibhttp.BasicAuthConfig{{Username: "u0", Password: "other"}},
		Jwt:    &jlibhttp.JwtAuthConfig{Secret: otherSecret},
	}
}

const jwtSecret = "s3cret of the server"

type wallJump struct {
	at time.Duration
	d  time.Duration
}

// wallAt is the wall clock in seconds since the start of the run.
func (w *World) wallRange(a, b time.Duration) (lo, hi float64) {
	off := time.Duration(0)
	at := a
	lo, hi = 1e18, -1e18
	see := func(t time.Duration) {
		s := (t + off).Seconds()
		lo, hi = min(lo, s), max(hi, s)
	}
	for _, j := range w.wallJumps {
		if j.at < a {
			off += j.d
			continue
		}
		if j.at > b {
			break
		}
		see(at)
		see(j.at)
		off += j.d
		at = j.at
		see(at)
	}
	see(at)
	see(b)
	return
}

// authConfig as the scenario has it: bit 1 basic, 2 bearer, 4 jwt.
func authConfig(bits int) *jlibhttp.AuthConfig {
	if bits == 0 {
		return nil
	}
	tag := func(s string) map[string]interface{} {
		return map[string]interface{}{"tag": s, "deep": map[string]interface{}{"l": []interface{}{s}}}
	}
	c := &jlibhttp.AuthConfig{}
	if bits&1 != 0 {
		c.Basic = []jlibhttp.BasicAuthConfig{
			{Username: "u0", Password: "p0", Settings: tag("B0")},
			{Username: "u1", Password: "p:1", Settings: tag("B1")},
			{Username: "u0", Password: "p2", Settings: tag("B2")},
			{Username: "u3", Password: "p3"},
			{Username: "Zoë", Password: "P w ", Settings: tag("B4")},
			{Username: "u5", Password: longSecret, Settings: tag("B5")},
		}
	}
	if bits&2 != 0 {
		c.Bearer = []jlibhttp.BearerAuthConfig{
			{Token: "tok0", Settings: tag("T0")},
			{Token: "tok1", Username: "bob", Settings: tag("T1")},
			{Token: "tok2", Username: "u0"},
			{Token: "aa.bb.cc", Username: "Dot", Settings: tag("T3")},
			{Token: longSecret, Username: "long", Settings: tag("T4")},
			{Token: longSecret[:64] + "fedcba98", Username: "long2", Settings: tag("T5")},
		}
	}
	if bits&4 != 0 {
		c.Jwt = &jlibhttp.JwtAuthConfig{Secret: jwtSecret}
	}
	return c
}

// longSecret is longer than what is often compared of a secret.
var longSecret = strings.Repeat("0123456789abcdef", 6)

var longWrong = []string{longSecret[:64], longSecret[:72], longSecret + "0", longSecret[:72] + strings.Repeat("f", 24), longSecret[:95] + "e", "1" + longSecret[1:], longSecret[:40], strings.ToUpper(longSecret), longSecret + longSecret}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func signJWT(alg, secret, claims string) string {
	head := b64([]byte(`{"alg":"` + alg + `","typ":"JWT"}`))
	body := head + "." + b64([]byte(claims))
	var sig []byte
	switch alg {
	case "HS256":
		h := hmac.New(sha256.New, []byte(secret))
		h.Write([]byte(body))
		sig = h.Sum(nil)
	case "HS512":
		h := hmac.New(sha512.New, []byte(secret))
		h.Write([]byte(body))
		sig = h.Sum(nil)
	}
	return body + "." + b64(sig)
}

// Cred is a credential and what it is worth.
type Cred struct {
	header string
	user   string
	tag    string
	bit    int     // which part of the configuration accepts it
	exp    float64 // wall seconds it expires at, 0: never
	nbf    float64
	good   bool
	other  bool // the other service accepts it
	away   bool // it is shown to the other service
}

// cred makes the credential a specification names:
// none | b:N | bx:K | t:N | tx:K | j:USER:EXP | jx:K:USER:EXP | jn:USER:NBF:EXP
func (w *World) cred(spec string) *Cred {
	f := strings.Split(spec, ":")
	num := func(i int) int {
		if i >= len(f) {
			return 0
		}
		n, _ := strconv.Atoi(f[i])
		return n
	}
	basic := func(u, p string) string {
		return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
	}
	switch f[0] {
	case "none", "":
		return &Cred{}
	case "o":
		return &Cred{header: "Bearer other-token", user: "otto", bit: 2, other: true}
	case "b":
		l := [][4]string{{"u0", "p0", "B0"}, {"u1", "p:1", "B1"}, {"u0", "p2", "B2"}, {"u3", "p3", ""}, {"Zoë", "P w ", "B4"}, {"u5", longSecret, "B5"}}
		e := l[num(1)%len(l)]
		return &Cred{header: basic(e[0], e[1]), user: e[0], tag: e[2], bit: 1, good: true}
	case "bx":
		l := [][2]string{{"u0", "p3"}, {"u3", "p0"}, {"u0", ""}, {"", ""}, {"", "p0"}, {"u0", "P0"}, {"u0", "p00"}, {"u00", "p0"}, {"u1", "p"}, {"u1:p", "1"}, {"u0 ", "p0"}, {"tok0", ""}, {"zoë", "P w "}, {"Zoë", "P w"}, {"aa.bb.cc", "aa.bb.cc"}}
		if n := num(1); n >= 60 {
			return &Cred{header: basic("u5", longWrong[n%len(longWrong)])}
		}
		e := l[num(1)%len(l)]
		if num(1) == 50 {
			return &Cred{header: "Basic !!!"}
		}
		if e[0] == "u1:p" {
			// the same bytes as user u1 with password p:1
			return &Cred{header: basic(e[0], e[1]), user: "u1", tag: "B1", bit: 1, good: true}
		}
		return &Cred{header: basic(e[0], e[1])}
	case "t":
		l := [][3]string{{"tok0", "tok0", "T0"}, {"tok1", "bob", "T1"}, {"tok2", "u0", ""}, {"aa.bb.cc", "Dot", "T3"}, {longSecret, "long", "T4"}, {longSecret[:64] + "fedcba98", "long2", "T5"}}
		e := l[num(1)%len(l)]
		return &Cred{header: "Bearer " + e[0], user: e[1], tag: e[2], bit: 2, good: true}
	case "tx":
		if n := num(1); n >= 60 {
			return &Cred{header: "Bearer " + longWrong[n%len(longWrong)]}
		}
		return &Cred{header: []string{"Bearer tok", "Bearer tok00", "Bearer ", "Bearer", "tok0", "Bearer TOK0", "Token tok0", "Bearer bob", "Bearer p0", "Bearer null", "Bearer aa.bb.cd", "Bearer aa.bb."}[num(1)%12]}
	case "j", "jx", "jn":
		variant, user, exp, nbf := "ok", "", 0, 0
		switch f[0] {
		case "j":
			user, exp = f[1], num(2)
		case "jx":
			variant, user, exp = f[1], f[2], num(3)
		case "jn":
			user, nbf, exp = f[1], num(2), num(3)
		}
		c := &Cred{user: user, tag: "J" + user, bit: 4, exp: float64(exp), good: true}
		base := w.wallStart.Unix()
		m := map[string]interface{}{"username": user, "settings": map[string]interface{}{"tag": c.tag, "deep": map[string]interface{}{"l": []interface{}{c.tag}}}, "exp": base + int64(exp)}
		if f[0] == "jn" {
			m["nbf"] = base + int64(nbf)
			c.nbf = float64(nbf)
		}
		claims := jsonStr(m)
		tok := signJWT("HS256", jwtSecret, claims)
		part := strings.Split(tok, ".")
		switch variant {
		case "ok":
		case "512":
			tok = signJWT("HS512", jwtSecret, claims)
		case "secret":
			tok, c.good, c.other = signJWT("HS256", otherSecret, claims), false, true
		case "empty":
			tok, c.good = signJWT("HS256", "", claims), false
		case "none":
			tok, c.good = signJWT("none", "", claims), false
		case "nosig":
			tok, c.good = part[0]+"."+part[1]+".", false
		case "twoparts":
			tok, c.good = part[0]+"."+part[1], false
		case "swap": // another's signature
			o := strings.Split(signJWT("HS256", jwtSecret, strings.Replace(claims, user, "x"+user, 1)), ".")
			tok, c.good = part[0]+"."+part[1]+"."+o[2], false
		case "swapbody": // another's claims
			o := strings.Split(signJWT("HS256", jwtSecret, strings.Replace(claims, user, "x"+user, 1)), ".")
			tok, c.good = o[0]+"."+o[1]+"."+part[2], false
		case "tail":
			tok, c.good = tok+"A", false
		case "cut":
			tok, c.good = tok[:len(tok)-2], false
		case "longer": // the claims say a later expiry than was signed
			m["exp"] = base + int64(exp) + 100000
			tok, c.good = part[0]+"."+b64([]byte(jsonStr(m)))+"."+part[2], false
		default:
			panic("harness: jwt variant " + variant)
		}
		c.header = "Bearer " + tok
		if variant == "scheme" {
			c.header = tok
		}
		return c
	}
	panic("harness: cred " + spec)
}

// worth tells whether the credential is accepted throughout [a,b], and
// whether at any moment of it.
func (w *World) worth(c *Cred, a, b time.Duration) (always, ever bool) {
	bits, good := w.sc.p("acfg"), c.good
	if c.away {
		bits, good = 6, c.other
	}
	if bits == 0 {
		return true, true
	}
	if !good || c.bit&bits == 0 {
		return false, false
	}
	if c.exp == 0 && c.bit != 4 {
		return true, true
	}
	lo, hi := w.wallRange(a, b)
	always = hi < c.exp-1.01
	ever = lo <= c.exp+1.01
	if c.nbf != 0 {
		always = always && lo > c.nbf+1.01
		ever = ever && hi >= c.nbf-1.01
	}
	return
}

func (c *Cred) identity(bits int) string {
	if bits == 0 && !c.away {
		return "-"
	}
	if c.tag == "" {
		return c.user + "/-"
	}
	return c.user + "/" + c.tag + "/" + c.tag
}

func identityIn(ctx context.Context) (string, *jlibhttp.AuthInfo) {
	ai, ok := jlibhttp.AuthInfoFromContext(ctx)
	if !ok || ai == nil {
		return "-", nil
	}
	if len(ai.Settings) == 0 {
		return ai.Username + "/-", ai
	}
	deep, _ := ai.Settings["deep"].(map[string]interface{})
	l, _ := deep["l"].([]interface{})
	s := ""
	for _, x := range l {
		s += fmt.Sprint("/", x)
	}
	extra := ""
	if len(ai.Settings) != 2 || len(deep) != 1 {
		extra = "+" + jsonStr(ai.Settings)
	}
	return ai.Username + "/" + fmt.Sprint(ai.Settings["tag"]) + s + extra, ai
}

// authServer composes the handlers as a deployment would.
func (s *Server) authHandler() http.Handler {
	cfg := authConfig(s.w.sc.p("acfg"))
	if cfg != nil {
		if err := cfg.ValidateValues(); err != nil {
			s.w.violate("C11", "config", "a valid configuration is refused: %v", err)
		}
	}
	if s.cfg.Kind == "h2" && !s.cfg.TLS {
		h := jlibhttp.NewH2Handler(s.ctx, s.actor)
		h.UseH2C = true
		return h2c.NewHandler(withOther(cfg, h), &http2.Server{})
	}
	return withOther(cfg, s.handler)
}

// withOther puts two services before the handler, each with its own secrets.
func withOther(cfg *jlibhttp.AuthConfig, h http.Handler) http.Handler {
	a, b := jlibhttp.NewAuthHandler(cfg, h), jlibhttp.NewAuthHandler(otherConfig(), h)
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == otherPath {
			b.ServeHTTP(w, r)
			return
		}
		a.ServeHTTP(w, r)
	})
}

// me(token, ms, mutate): who does the handler take the caller for?
func (s *Server) me(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
	tok, _ := params[0].(string)
	x := s.begin(req, "me", tok)
	defer s.end(x)
	id, ai := identityIn(req.Context())
	x.user = id
	id2 := id
	if r := req.HttpRequest(); r != nil {
		id2, _ = identityIn(r.Context())
	}
	if d := numOf(map[string]interface{}{"d": params[1]}, "d"); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	runtime.SimYield(0x4A0D1F)
	id3, _ := identityIn(req.Context())
	if mut, _ := params[2].(bool); mut && ai != nil && req.Session() == nil {
		ai.Username += "!"
		for k := range ai.Settings {
			if k == "deep" {
				ai.Settings[k].(map[string]interface{})["l"].([]interface{})[0] = "mutated"
				continue
			}
			ai.Settings[k] = "mutated"
		}
		if ai.Settings != nil {
			ai.Settings["extra"] = tok
		}
	}
	return []interface{}{tok, id, id2, id3}, nil
}

type AuthRec struct {
	tok        string
	op         *Op
	cred       *Cred
	start, end time.Duration
	returned   bool
	status     int
	body       []byte
	err        error
	what       string
}

// runAuth: threads of requests with credentials.
func (w *World) runAuth() {
	w.wallStart = time.Now()
	w.hookNet()
	plainDial := w.net.onDial
	w.net.onDial = plainDial
	w.authRecs = nil
	w.startServer()
	w.atStart = tally(foreignGoroutines())
	headers := map[string]http.Header{}
	for _, cc := range w.sc.Clients {
		c := w.newClient(cc, w.sc.Server.TLS)
		c.cred = w.cred(cc.Cred)
		if c.cred.header != "" {
			h := headers[c.cred.header]
			if h == nil || w.sc.Seed&16 == 0 {
				h = http.Header{"Authorization": []string{c.cred.header}}
				headers[c.cred.header] = h
			}
			c.c.SetExtraHeader(h)
		}
	}
	time.Sleep(2 * time.Millisecond)
	w.waitListening()
	var tlsCfg *tls.Config
	if w.sc.Server.TLS {
		tlsCfg = clientTLS()
	}
	w.authTr = &http.Transport{MaxIdleConnsPerHost: 4, TLSClientConfig: tlsCfg, TLSNextProto: map[string]func(string, *tls.Conn) http.RoundTripper{}}
	w.authH2 = &http2.Transport{AllowHTTP: true, TLSClientConfig: tlsCfg}
	if !w.sc.Server.TLS {
		w.authH2.DialTLSContext = func(ctx context.Context, network, addr string, cfg *tls.Config) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, network, addr)
		}
	}
	w.extraOp = w.authOp
	w.startFaults()
	for i := range w.sc.Threads {
		w.live++
		go w.runThread(i, &w.sc.Threads[i])
	}
	w.waitUntil(func() bool { return w.live == 0 }, 120*time.Second)
	w.heal()
	w.waitUntil(func() bool { return w.live == 0 }, 300*time.Second)
	if w.live > 0 {
		w.stuck()
	}
	w.quiesced = true
	w.quiesceAt = w.now()
	w.indexExecs()
	w.checkAuth()
	for _, c := range w.clients {
		if c.st != nil {
			c.close()
		}
	}
	if w.sc.Prop == "C08" {
		w.checkIdleServer()
		w.server.stop()
		time.Sleep(45 * time.Second)
		w.ev("settled")
		w.checkLeaks()
		return
	}
	w.server.stop()
	time.Sleep(time.Second)
}

const authHost = "127.0.0.250:" + simPort

func (w *World) authOp(ti, oi int, c *Client, op *Op, tok string) bool {
	switch op.K {
	case "areq", "aup", "astream", "araw":
	default:
		return false
	}
	if op.Rep > 0 {
		tok += fmt.Sprintf("r%d", op.Rep)
	}
	r := &AuthRec{tok: tok, op: op, cred: w.cred(op.Params)}
	r.what = fmt.Sprintf("%s %s with credential %q", op.K, tok, op.Params)
	path := "/"
	if op.Spec != nil && op.Spec.B > 0 {
		r.cred.away, path = true, otherPath
		r.what += " at the other service"
	}
	w.authRecs = append(w.authRecs, r)
	r.start = w.now()
	w.ev("%s %s %s", op.K, tok, op.Params)
	scheme := "http"
	if w.sc.Server.TLS {
		scheme = "https"
	}
	d, mut := 0, false
	if op.Spec != nil {
		d, mut = op.Spec.D, op.Spec.N > 0
	}
	msg := fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"me","params":[%s,%d,%v]}`, jsonStr(tok), jsonStr(tok), d, mut)
	switch op.K {
	case "areq":
		req, _ := http.NewRequest("POST", scheme+"://"+authHost+path, strings.NewReader(msg))
		if r.cred.header != "" {
			req.Header.Set("Authorization", r.cred.header)
		}
		cl := &http.Client{Transport: w.authTr, Timeout: 30 * time.Second}
		resp, err := cl.Do(req)
		if err == nil {
			r.status = resp.StatusCode
			r.body, err = io.ReadAll(resp.Body)
			resp.Body.Close()
		}
		r.err = err
	case "aup": // a websocket handshake by hand
		r.err = func() error {
			conn, err := net.Dial("tcp", authHost)
			if err != nil {
				return err
			}
			defer conn.Close()
			if w.sc.Server.TLS {
				conn = tls.Client(conn, clientTLS())
			}
			conn.SetDeadline(time.Now().Add(30 * time.Second))
			h := "GET " + path + " HTTP/1.1\r\nHost: sim\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n"
			if r.cred.header != "" {
				h += "Authorization: " + r.cred.header + "\r\n"
			}
			if _, err := conn.Write([]byte(h + "\r\n")); err != nil {
				return err
			}
			br := bufio.NewReader(conn)
			resp, err := http.ReadResponse(br, nil)
			if err != nil {
				return err
			}
			r.status = resp.StatusCode
			if r.status == 101 {
				// one masked text frame each way
				b := []byte{0x81, 0xfe, byte(len(msg) >> 8), byte(len(msg)), 0, 0, 0, 0}
				if _, err := conn.Write(append(b, msg...)); err != nil {
					return err
				}
				var hd [2]byte
				if _, err := io.ReadFull(br, hd[:]); err != nil {
					return err
				}
				n := int(hd[1] & 0x7f)
				if n == 126 {
					var l [2]byte
					if _, err := io.ReadFull(br, l[:]); err != nil {
						return err
					}
					n = int(l[0])<<8 | int(l[1])
				}
				r.body = make([]byte, n)
				if _, err := io.ReadFull(br, r.body); err != nil {
					return err
				}
				r.status = 200
			}
			return nil
		}()
	case "astream": // one stream of a shared HTTP/2 connection
		r.err = func() error {
			pr, pw := io.Pipe()
			ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
			defer cancel()
			req, _ := http.NewRequestWithContext(ctx, "PRI", scheme+"://"+authHost+path, pr)
			if r.cred.header != "" {
				req.Header.Set("Authorization", r.cred.header)
			}
			resp, err := w.authH2.RoundTrip(req)
			if err != nil {
				return err
			}
			defer resp.Body.Close()
			defer pw.Close()
			r.status = resp.StatusCode
			if r.status != 200 {
				return nil
			}
			go pw.Write([]byte(msg + "\n"))
			var m json.RawMessage
			if err := json.NewDecoder(resp.Body).Decode(&m); err != nil {
				return err
			}
			r.body = m
			return nil
		}()
	}
	r.returned, r.end = true, w.now()
	w.ev("%s %s done status=%d err=%v", op.K, tok, r.status, r.err != nil)
	w.probe("call.end")
	return true
}

func (w *World) checkAuth() {
	bits := w.sc.p("acfg")
	faulty := len(w.touched) > 0 || w.sc.p("netfaults") > 0
	seen := map[string]bool{}
	judge := func(tok, what string, cr *Cred, a, b time.Duration) {
		for _, x := range w.execByTok[tok] {
			seen[tok] = true
			if _, ever := w.worth(cr, a, min(b, x.start)); !ever {
				w.violate("C11", "let-in", "%s reached its handler although the configuration does not accept it then (%v..%v)", what, a, min(b, x.start))
			}
			if x.user != cr.identity(bits) {
				w.violate("C11", "identity", "%s was handled as %q instead of %q", what, x.user, cr.identity(bits))
			}
		}
	}
	reply := func(what string, tok string, cr *Cred, res interface{}) {
		l, ok := res.([]interface{})
		if !ok || len(l) != 4 || l[0] != tok {
			w.violate("C11", "reply", "%s was answered with %s", what, short(canon(res), 200))
			return
		}
		for _, v := range l[1:] {
			if v != cr.identity(bits) {
				w.violate("C11", "identity", "%s was handled as %v instead of %q", what, v, cr.identity(bits))
				return
			}
		}
	}
	for _, r := range w.authRecs {
		if !r.returned {
			continue
		}
		judge(r.tok, r.what, r.cred, r.start, r.end)
		always, ever := w.worth(r.cred, r.start, r.end)
		w.authCount(always, ever)
		if r.err != nil {
			if !faulty {
				w.violate("C11", "failed", "%s failed although nothing disturbed it: %v", r.what, r.err)
			}
			continue
		}
		if r.status == 200 {
			if !ever {
				w.violate("C11", "let-in", "%s was answered with status 200 although the configuration does not accept it", r.what)
			}
			m, err := jlib.ParseBytes(bytes.TrimSpace(r.body))
			if err != nil || !m.IsResult() {
				w.violate("C11", "reply", "%s was answered with %q", r.what, short(string(r.body), 200))
				continue
			}
			reply(r.what, r.tok, r.cred, m.MustResult())
			continue
		}
		if always {
			class := "refused"
			w.violate("C11", class, "%s was refused with status %d although the configuration accepts it", r.what, r.status)
		} else if r.status != 401 {
			w.violate("C11", "status", "%s was refused with status %d instead of 401", r.what, r.status)
		}
		if len(w.execByTok[r.tok]) > 0 {
			w.violate("C11", "let-in", "%s was refused with status %d, but its handler ran", r.what, r.status)
		}
	}
	for _, r := range w.calls {
		c := r.client
		if c.cred == nil || !r.returned {
			continue
		}
		what := fmt.Sprintf("call %s of client%d (%s) with credential %q", r.tok, c.idx, c.cfg.Kind, c.cfg.Cred)
		if c.st == nil {
			judge(r.tok, what, c.cred, r.start, r.end)
		} else {
			for _, x := range w.execByTok[r.tok] {
				from := r.start
				if p := w.pairOf(x.conn); p != nil {
					from = p.openedAt - time.Duration(w.t0)
				}
				judge(r.tok, what, c.cred, from, r.end)
			}
		}
		always, ever := w.worth(c.cred, r.start, r.end)
		w.authCount(always, ever)
		if r.err == nil && r.res != nil {
			if r.res.IsResult() {
				reply(what, r.tok, c.cred, r.res.MustResult())
			}
			if !ever && c.st == nil {
				w.violate("C11", "let-in", "%s was answered although the configuration does not accept it", what)
			}
			continue
		}
		if r.hasCtx {
			continue
		}
		if always && c.unharmed(r.start, r.end) && !faulty && r.end-r.start < c.limit()-eps {
			class := "refused"
			if c.cfg.Kind == "h2" && !w.sc.Server.TLS && w.sc.Server.Kind == "gateway" {
				class = "refused-h2c"
			}
			w.violate("C11", class, "%s failed although the configuration accepts it: %s", what, r.outcome())
		}
		if !ever && c.clean(r.end) && !faulty && c.cfg.Kind != "ws" {
			var wr *jlibhttp.WrappedResponse
			if !errors.As(r.err, &wr) || wr.Response.StatusCode != 401 {
				if !(c.cfg.Kind == "h2" && !w.sc.Server.TLS && w.sc.Server.Kind == "gateway") && r.end-r.start < c.limit()-eps {
					w.violate("C11", "status", "%s was not refused with status 401: %s", what, r.outcome())
				}
			}
		}
	}
	for tok := range w.execByTok {
		if !seen[tok] {
			w.violate("C11", "let-in", "a handler ran for %s, which no finished request asked for", tok)
		}
	}
}

func (w *World) authCount(always, ever bool) {
	switch {
	case always:
		w.probes["auth.accepted"]++
	case ever:
		w.probes["auth.borderline"]++
	default:
		w.probes["auth.refused"]++
	}
}

func (g *G) goodCred(bits int, exp func() int) string {
	var l []string
	if bits&1 != 0 {
		l = append(l, fmt.Sprintf("b:%d", g.Intn(6)), fmt.Sprintf("b:%d", g.Intn(6)))
	}
	if bits&2 != 0 {
		l = append(l, fmt.Sprintf("t:%d", g.Intn(6)), fmt.Sprintf("t:%d", g.Intn(6)))
	}
	if bits&4 != 0 || len(l) == 0 {
		l = append(l, fmt.Sprintf("j:%s:%d", g.PickS("ann", "ben", "Cat"), exp()), fmt.Sprintf("j:%s:%d", g.PickS("ann", "ben", "cat"), exp()),
			fmt.Sprintf("jx:512:%s:%d", g.PickS("dan", "eve"), exp()))
	}
	return g.PickS(l...)
}

func (g *G) anyCred(bits int, exp func() int) string {
	switch g.Weighted(6, 1, 1, 1, 3, 1) {
	case 1:
		return "none"
	case 2:
		return fmt.Sprintf("bx:%d", g.Pick(50, g.Intn(15), g.Intn(15), g.Intn(15), 60+g.Intn(9)))
	case 3:
		return fmt.Sprintf("tx:%d", g.Pick(g.Intn(12), g.Intn(12), 60+g.Intn(9)))
	case 4:
		return fmt.Sprintf("jx:%s:%s:%d", g.PickS("secret", "empty", "none", "nosig", "twoparts", "swap", "swapbody", "tail", "cut", "longer"), g.PickS("ann", "ben", "cat"), exp())
	case 5:
		return g.goodCred(7, exp) // perhaps of a kind not configured
	}
	return g.goodCred(bits, exp)
}

func genC11(g *G) {
	sc := g.sc
	sc.Family = "auth"
	sc.Net = mildNet(g.Rng)
	if sc.Net.Window > 0 && sc.Net.Window < 4096 {
		sc.Net.Window = 4096
	}
	sc.Server.Kind = g.PickS("gateway", "gateway", "gateway", "h1", "ws", "h2")
	sc.Server.TLS = g.P(1, 3)
	sc.Server.Auth = true
	bits := g.Pick(1, 2, 3, 4, 4, 4, 5, 6, 7, 7, 7)
	if g.P(1, 25) {
		bits = 0
	}
	g.p("acfg", bits)
	exps := []int{1000, 5000}
	for i := 0; i < 1+g.Intn(3); i++ {
		exps = append(exps, g.Pick(-100, -3, 5, 8, 30, 60, 200))
	}
	exp := func() int { return exps[g.Intn(len(exps))] }
	back := g.P(1, 2)
	// a pool of credentials, used again and again
	var pool []string
	for i := 0; i < 2+g.Intn(5); i++ {
		pool = append(pool, g.anyCred(bits, exp))
	}
	if bits&4 != 0 && !back && g.P(1, 4) {
		pool = append(pool, fmt.Sprintf("jn:fay:%d:%d", g.Pick(-50, 10, 100), 1000))
	}
	if g.P(1, 3) {
		pool = append(pool, "o:")
	}
	pick := func() string {
		if g.P(1, 6) {
			return g.anyCred(bits, exp)
		}
		return g.PickS(pool...)
	}
	var raws []string
	switch sc.Server.Kind {
	case "gateway":
		raws = []string{"areq", "areq", "aup"}
		if sc.Server.TLS {
			raws = append(raws, "astream", "astream")
		}
	case "h1":
		raws = []string{"areq"}
	case "ws":
		raws = []string{"aup"}
	case "h2":
		raws = []string{"astream"}
	}
	n := 1 + g.Intn(3)
	g.addClients(n, false)
	for i := range sc.Clients {
		sc.Clients[i].Cred = pick()
		if sc.Server.Kind == "gateway" && !sc.Server.TLS && sc.Clients[i].Kind == "h2" && !g.P(1, 8) {
			sc.Clients[i].Kind = "ws"
		}
	}
	me := func() *Spec { return &Spec{D: g.Pick(0, 0, 1, 30, 1500), N: g.Pick(0, 0, 1)} }
	threads := 2 + g.Intn(4)
	for i := 0; i < threads; i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 1, 50)
		for j := 0; j < 2+g.Intn(7); j++ {
			switch g.Weighted(6, 4, 3, 1) {
			case 0:
				o := Op{K: g.PickS(raws...), Params: pick(), Spec: me(), Bg: g.P(1, 3)}
				if g.P(1, 8) {
					o.Spec.B = 1
				}
				t.Ops = append(t.Ops, o)
			case 1:
				o := Op{K: "call", M: "me", Spec: me(), Bg: g.P(1, 3)}
				t.Ops = append(t.Ops, o)
			case 2:
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 500, 3000, 10000, 30000)))
			case 3:
				t.Ops = append(t.Ops, Op{K: "close"})
			}
		}
	}
	if bits&4 != 0 && g.P(1, 10) {
		// more tokens than are remembered
		t := g.thread(0)
		for i := 0; i < 130; i++ {
			t.Ops = append(t.Ops, Op{K: raws[0], Params: fmt.Sprintf("j:many%d:%d", i%115, g.Pick(2000, 2000, 2000, 30)), Spec: &Spec{}})
		}
	}
	for i := 0; i < g.Intn(4); i++ {
		d := g.Pick(10, 60, 300, 1500, 7000)
		if back && g.P(1, 2) {
			d = -d
		}
		f := Fault{K: "wall", At: g.Pick(1, 100, 2000, 9000, 20000), Dur: d * 1000}
		if g.P(1, 3) {
			f.On, f.N = g.PickS("handler.start", "handler.end", "call.end"), 1+g.Intn(6)
		}
		sc.Faults = append(sc.Faults, f)
	}
	if g.P(1, 6) {
		g.p("netfaults", 1)
		g.faults(1+g.Intn(2), 3000)
	}
}
