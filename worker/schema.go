package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	jlibhttp "github.com/superisaac/jlib/http"
	jlibschema "github.com/superisaac/jlib/schema"
)

// Methods guarded by schemas. The reference below judges a request from the
// schema's description alone.

// Guard is one guarded method.
type Guard struct {
	M     string          `json:"m"`
	S     json.RawMessage `json:"s"`               // the schema
	How   string          `json:"how"`             // json, yaml, shared
	Root  bool            `json:"root,omitempty"`  // on the root actor
	Other bool            `json:"other,omitempty"` // on a child of its own
}

func parseJSON(s string) interface{} {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic("harness: json " + s)
	}
	return v
}

func (sc *Scenario) guards() []Guard {
	if sc.S["guards"] == "" {
		return nil
	}
	var l []Guard
	if err := json.Unmarshal([]byte(sc.S["guards"]), &l); err != nil {
		panic("harness: guards: " + err.Error())
	}
	return l
}

// judge returns every place of v that offends s; none: v is accepted. The
// second result says whether the order of checks leaves only one place to
// be named.
type judgement struct {
	places map[string]bool
	loose  bool
}

func (j *judgement) bad(p string) { j.places[p] = true }

func judge(s, v interface{}) *judgement {
	j := &judgement{places: map[string]bool{}}
	j.scan(s.(map[string]interface{}), v, "")
	return j
}

func rat(v interface{}) *big.Rat {
	n, ok := v.(json.Number)
	if !ok {
		return nil
	}
	r, ok := new(big.Rat).SetString(string(n))
	if !ok {
		return nil
	}
	return r
}

func attrInt(s map[string]interface{}, k string) (int, bool) {
	if n, ok := s[k].(json.Number); ok {
		i, err := n.Int64()
		return int(i), err == nil
	}
	return 0, false
}

func (j *judgement) scan(s map[string]interface{}, v interface{}, at string) {
	switch s["type"] {
	case "any":
	case "null":
		if v != nil {
			j.bad(at)
		}
	case "bool":
		if _, ok := v.(bool); !ok {
			j.bad(at)
		}
	case "number", "integer":
		r := rat(v)
		if r == nil || s["type"] == "integer" && !r.IsInt() {
			j.bad(at)
			return
		}
		if m := rat(s["maximum"]); m != nil {
			if c := r.Cmp(m); c > 0 || c == 0 && s["exclusiveMaximum"] == true {
				j.bad(at)
			}
		}
		if m := rat(s["minimum"]); m != nil {
			if c := r.Cmp(m); c < 0 || c == 0 && s["exclusiveMinimum"] == true {
				j.bad(at)
			}
		}
	case "string":
		str, ok := v.(string)
		if !ok {
			j.bad(at)
			return
		}
		if n, ok := attrInt(s, "maxLength"); ok && len(str) > n {
			j.bad(at)
		}
		if n, ok := attrInt(s, "minLength"); ok && len(str) < n {
			j.bad(at)
		}
	case "anyOf":
		for _, c := range s["anyOf"].([]interface{}) {
			if len(judge(c, v).places) == 0 {
				return
			}
		}
		j.bad(at)
	case "allOf":
		for _, c := range s["allOf"].([]interface{}) {
			j.scan(c.(map[string]interface{}), v, at)
		}
	case "not":
		if len(judge(s["not"], v).places) == 0 {
			j.bad(at)
		}
	case "list":
		l, ok := v.([]interface{})
		if !ok {
			j.bad(at)
			return
		}
		if tup, ok := s["items"].([]interface{}); ok {
			add, more := s["additionalItems"].(map[string]interface{})
			if len(l) < len(tup) || len(l) > len(tup) && !more {
				j.bad(at)
			}
			for i, x := range l {
				if i < len(tup) {
					j.scan(tup[i].(map[string]interface{}), x, fmt.Sprintf("%s[%d]", at, i))
				} else if more {
					j.scan(add, x, fmt.Sprintf("%s[%d]", at, i))
				}
			}
			return
		}
		if n, ok := attrInt(s, "maxItems"); ok && len(l) > n {
			j.bad(at)
		}
		if n, ok := attrInt(s, "minItems"); ok && len(l) < n {
			j.bad(at)
		}
		for i, x := range l {
			j.scan(s["items"].(map[string]interface{}), x, fmt.Sprintf("%s[%d]", at, i))
		}
	case "object":
		m, ok := v.(map[string]interface{})
		if !ok {
			j.bad(at)
			return
		}
		props, _ := s["properties"].(map[string]interface{})
		req := map[string]bool{}
		if l, ok := s["requires"].([]interface{}); ok {
			for _, x := range l {
				req[x.(string)] = true
			}
		}
		add, more := s["additionalProperties"].(map[string]interface{})
		n := 0
		for _, k := range sortedKeys(props) {
			before := len(j.places)
			if x, ok := m[k]; ok {
				j.scan(props[k].(map[string]interface{}), x, at+"."+k)
			} else if req[k] {
				j.bad(at + "." + k)
			}
			if len(j.places) > before {
				n++
			}
		}
		if more {
			for _, k := range sortedKeys(m) {
				if _, ok := props[k]; !ok {
					before := len(j.places)
					j.scan(add, m[k], at+"."+k)
					if len(j.places) > before {
						n++
					}
				}
			}
		}
		if n > 1 {
			j.loose = true
		}
	case "method":
		m := v.(map[string]interface{})
		l := m["params"].([]interface{})
		ps := s["params"].([]interface{})
		add, more := s["additionalParams"].(map[string]interface{})
		at += ".params"
		if len(l) < len(ps) || len(l) > len(ps) && !more {
			j.bad(at)
		}
		for i, x := range l {
			if i < len(ps) {
				j.scan(ps[i].(map[string]interface{}), x, fmt.Sprintf("%s[%d]", at, i))
			} else if more {
				j.scan(add, x, fmt.Sprintf("%s[%d]", at, i))
			}
		}
	default:
		panic(fmt.Sprint("harness: schema type ", s["type"]))
	}
}

// places named by the message of an invalid-schema error
func namedPlaces(msg string) []string {
	var l []string
	for _, t := range strings.Fields(msg) {
		if t[0] == '.' || t[0] == '[' {
			l = append(l, t)
		}
	}
	return l
}

func (e *Reply) placeOf(msg string) string {
	named := namedPlaces(msg)
	if len(named) == 0 && e.places[""] {
		return ""
	}
	for _, p := range named {
		if !e.places[p] {
			return fmt.Sprintf("an invalid-schema message %q that names a place which is fine (offending: %v)", short(msg, 150), sortedKeys(e.places))
		}
	}
	if len(named) == 0 {
		return fmt.Sprintf("an invalid-schema message %q that names no place (offending: %v)", short(msg, 150), sortedKeys(e.places))
	}
	return ""
}

func (w *World) guardOf(m string) *Guard {
	if !strings.HasPrefix(m, "g") {
		return nil
	}
	for i := range w.guards {
		if w.guards[i].M == m {
			return &w.guards[i]
		}
	}
	return nil
}

func (w *World) judgeOp(g *Guard, m, tok string, op *Op) *judgement {
	msg := map[string]interface{}{"jsonrpc": "2.0", "method": m, "params": guardParams(op, tok)}
	return judge(parseJSON(string(g.S)), msg)
}

func guardParams(op *Op, tok string) []interface{} {
	v := parseJSON(strings.ReplaceAll(op.Params, `"$T"`, `"`+tok+`"`))
	if l, ok := v.([]interface{}); ok {
		return l
	}
	return []interface{}{v}
}

func (w *World) expectGuard(g *Guard, op *Op, tok string) *Reply {
	j := w.judgeOp(g, op.M, tok, op)
	if len(j.places) > 0 {
		return &Reply{isErr: true, code: -32633, anyMsg: true, places: j.places}
	}
	return &Reply{result: canon(append([]interface{}{"ok"}, guardParams(op, tok)...))}
}

// sameAs: operations whose parameters carry no token of their own, so that
// equal requests really are equal.
const sameTok = "same"

func tokenless(op *Op) bool { return strings.Contains(op.Params, `"`+sameTok+`"`) }

// one schema value may serve several methods, of several servers
func (w *World) sharedSchema(src string) jlibschema.Schema {
	if s := w.schemas[src]; s != nil {
		return s
	}
	s, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(src))
	if err != nil {
		panic("harness: schema " + src + ": " + err.Error())
	}
	if w.schemas == nil {
		w.schemas = map[string]jlibschema.Schema{}
	}
	w.schemas[src] = s
	return s
}

func (s *Server) guardMethods(hold *jlibhttp.Actor) {
	var own *jlibhttp.Actor
	for i := range s.w.guards {
		g := &s.w.guards[i]
		a := hold
		if g.Root {
			a = s.actor
		} else if g.Other {
			if own == nil {
				own = jlibhttp.NewActor()
				s.hookClose(own, "own")
				s.actor.AddChild(own)
			}
			a = own
		}
		var set jlibhttp.HandlerSetter
		switch g.How {
		case "json":
			set = jlibhttp.WithSchemaJson(string(g.S))
		case "yaml":
			set = jlibhttp.WithSchemaYaml(string(g.S))
		default:
			set = jlibhttp.WithSchema(s.w.sharedSchema(string(g.S)))
		}
		err := a.OnRequest(g.M, func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
			tok := "?"
			if len(params) > 0 {
				if t, ok := params[0].(string); ok {
					tok = t
				}
			}
			x := s.begin(req, req.Msg().MustMethod(), tok)
			defer s.end(x)
			time.Sleep(time.Duration(len(tok)%3) * time.Millisecond)
			return append([]interface{}{"ok"}, params...), nil
		}, set)
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
}

// checkGuards: handlers run exactly for what their schemas accept.
func (w *World) checkGuards() {
	if len(w.guards) == 0 {
		return
	}
	type seen struct{ msg, tok string }
	said := map[string]seen{}
	type tally struct{ max, answered int }
	same := map[string]*tally{}
	var sames []string
	ran := func(what, tok string, g *Guard, op *Op, answered bool) {
		j := w.judgeOp(g, op.M, tok, op)
		if tokenless(op) {
			k := op.M + " " + canon(guardParams(op, tok))
			if same[k] == nil {
				same[k] = &tally{}
				sames = append(sames, k)
			}
			if len(j.places) == 0 {
				same[k].max++
			}
			if answered {
				same[k].answered++
			}
			return
		}
		es := w.execByTok[tok]
		if len(j.places) > 0 && len(es) > 0 {
			w.violate("C18", "rejected-ran", "%s %s ran its handler although its schema refuses it at %v", what, tok, sortedKeys(j.places))
			return
		}
		if len(es) > 1 {
			w.violate("C18", "twice", "%s %s ran its handler %d times", what, tok, len(es))
		}
		if answered && len(es) == 0 {
			w.violate("C18", "accepted-unrun", "%s %s is accepted by its schema and was answered without its handler having run", what, tok)
		}
		for _, e := range es {
			if e.params != canon(guardParams(op, tok)) || e.method != op.M {
				w.violate("C18", "params", "%s %s ran %s with parameters %s instead of %s with %s", what, tok, e.method, short(e.params, 150), op.M, short(canon(guardParams(op, tok)), 150))
			}
		}
	}
	for _, r := range w.calls {
		g := w.guardOf(r.op.M)
		if g == nil || !r.returned {
			continue
		}
		what := fmt.Sprintf("call %s of client%d (%s) to %s", r.tok, r.client.idx, r.client.cfg.Kind, r.op.M)
		got := r.err == nil && r.res != nil && r.res.IsResultOrError() && !isTimeout(r.res)
		exp := w.expectGuard(g, r.op, r.tok)
		if !got && r.client.clean(r.end) && !r.hasCtx && r.end-r.start < r.client.limit()-eps {
			w.violate("C18", "no-reply", "%s failed although nothing disturbed it: %s", what, r.outcome())
		}
		if got {
			w.probes["schema-verdict"]++
			if m := exp.matches(r.res); m != "" {
				class := "verdict"
				if r.res.IsError() && exp.isErr && r.res.MustError().Code == exp.code {
					class = "place"
				}
				w.violate("C18", class, "%s got %s; schema %s, parameters %s", what, m, short(string(g.S), 300), short(r.op.Params, 200))
			}
			if exp.isErr && r.res.IsError() {
				w.probes["schema-refused"]++
				j := w.judgeOp(g, r.op.M, r.tok, r.op)
				if !j.loose {
					var b bytes.Buffer
					json.Compact(&b, g.S)
					k := b.String() + " " + r.op.Params
					msg := r.res.MustError().Message
					if o, ok := said[k]; !ok {
						said[k] = seen{msg, r.tok}
					} else if o.msg != msg {
						w.violate("C18", "message", "calls %s and %s sent the same parameters under the same schema and were told %q and %q", o.tok, r.tok, short(o.msg, 120), short(msg, 120))
					}
				}
			}
		}
		ran("call", r.tok, g, r.op, got && !exp.isErr)
	}
	for _, r := range w.sends {
		if g := w.guardOf(r.op.M); g != nil {
			ran("notification", r.tok, g, r.op, false)
		}
	}
	runs := map[string]int{}
	for _, e := range w.execByTok[sameTok] {
		k := e.method + " " + e.params
		runs[k]++
		if same[k] == nil {
			same[k] = &tally{}
			sames = append(sames, k)
		}
	}
	for _, k := range sames {
		if t := same[k]; runs[k] > t.max || runs[k] < t.answered {
			w.violate("C18", "runs", "the handler ran %d times for %s, which was sent acceptably %d times and answered %d times", runs[k], short(k, 200), t.max, t.answered)
		}
	}
}

// --- generation

type schemaGen struct{ *G }

func (g schemaGen) schema(depth int) map[string]interface{} {
	k := g.Weighted(1, 1, 2, 3, 4, 4, 2, 2, 2, 4, 3, 5)
	if depth <= 0 && k > 5 {
		k = 1 + g.Intn(5)
	}
	m := func(t string) map[string]interface{} { return map[string]interface{}{"type": t} }
	sub := func(n int) []interface{} {
		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, g.schema(depth-1))
		}
		return l
	}
	switch k {
	case 0:
		return m("any")
	case 1:
		return m("null")
	case 2:
		return m("bool")
	case 3, 4:
		t := "number"
		if k == 4 {
			t = "integer"
		}
		s := m(t)
		if g.P(1, 2) {
			s["maximum"] = g.Pick(5, 10, 100)
			if g.P(1, 2) {
				s["exclusiveMaximum"] = g.P(1, 2)
			}
		}
		if g.P(1, 2) {
			s["minimum"] = g.Pick(-5, 0, 3)
			if g.P(1, 2) {
				s["exclusiveMinimum"] = g.P(1, 2)
			}
		}
		return s
	case 5:
		s := m("string")
		if g.P(1, 3) {
			s["maxLength"] = g.Pick(2, 5, 20)
		}
		if g.P(1, 3) {
			s["minLength"] = g.Pick(0, 1, 2)
		}
		return s
	case 6:
		s := m("anyOf")
		s["anyOf"] = sub(1 + g.Intn(3))
		return s
	case 7:
		s := m("allOf")
		s["allOf"] = sub(1 + g.Intn(2))
		return s
	case 8:
		s := m("not")
		s["not"] = g.schema(depth - 1)
		return s
	case 9:
		s := m("list")
		s["items"] = g.schema(depth - 1)
		if g.P(1, 3) {
			s["maxItems"] = g.Pick(1, 2, 4)
		}
		if g.P(1, 3) {
			s["minItems"] = g.Pick(0, 1, 2)
		}
		return s
	case 10:
		s := m("list")
		s["items"] = sub(1 + g.Intn(3))
		if g.P(1, 2) {
			s["additionalItems"] = g.schema(depth - 1)
		}
		return s
	}
	s := m("object")
	props := map[string]interface{}{}
	var req []string
	for i := 0; i < 1+g.Intn(3); i++ {
		n := g.PickS("a", "b", "ab", "name", "deep", "x1")
		if props[n] == nil && g.P(1, 2) {
			req = append(req, n)
		}
		if props[n] == nil {
			props[n] = g.schema(depth - 1)
		}
	}
	s["properties"] = props
	if len(req) > 0 {
		sort.Strings(req)
		s["requires"] = req
	}
	if g.P(1, 3) {
		s["additionalProperties"] = g.schema(depth - 1)
	}
	return s
}

// value that has a fair chance under the schema
func (g schemaGen) value(s interface{}, wild int) interface{} {
	if wild > 0 && g.P(1, wild) {
		return g.anyValue(2)
	}
	m, _ := s.(map[string]interface{})
	num := func() int {
		lo, hi := -20, 120
		if v, ok := m["minimum"].(int); ok {
			lo = v
		}
		if v, ok := m["maximum"].(int); ok {
			hi = v
		}
		switch g.Intn(5) {
		case 0:
			return lo
		case 1:
			return hi
		}
		return g.Range(lo, max(hi, lo))
	}
	list := func(k string) []interface{} { l, _ := m[k].([]interface{}); return l }
	switch m["type"] {
	case "null":
		return nil
	case "bool":
		return g.P(1, 2)
	case "integer":
		return num()
	case "number":
		if g.P(1, 3) {
			return json.Number(fmt.Sprintf("%d.5", num()))
		}
		return num()
	case "string":
		n := g.Intn(4)
		if v, ok := m["maxLength"].(int); ok && g.P(1, 2) {
			n = v
		}
		if v, ok := m["minLength"].(int); ok {
			n = max(n, v)
		}
		return longText[:n]
	case "anyOf", "allOf":
		l := list(m["type"].(string))
		return g.value(l[g.Intn(len(l))], wild)
	case "not":
		return g.anyValue(2)
	case "list":
		var l = []interface{}{}
		if tup, ok := m["items"].([]interface{}); ok {
			for _, x := range tup {
				l = append(l, g.value(x, wild))
			}
			if m["additionalItems"] != nil {
				for i := g.Intn(3); i > 0; i-- {
					l = append(l, g.value(m["additionalItems"], wild))
				}
			}
			return l
		}
		n := g.Intn(4)
		if v, ok := m["minItems"].(int); ok {
			n = max(n, v)
		}
		if v, ok := m["maxItems"].(int); ok && g.P(4, 5) {
			n = min(n, v)
		}
		for i := 0; i < n; i++ {
			l = append(l, g.value(m["items"], wild))
		}
		if len(l) > 0 && len(l) < 20 && g.P(1, 6) {
			// items that look alike need not be alike
			l = append(l, g.alike(l[g.Intn(len(l))]))
		}
		return l
	case "object":
		o := map[string]interface{}{}
		props := m["properties"].(map[string]interface{})
		req := map[string]bool{}
		if l, ok := m["requires"].([]string); ok {
			for _, x := range l {
				req[x] = true
			}
		}
		for _, k := range sortedKeys(props) {
			if req[k] && g.P(9, 10) || g.P(1, 2) {
				o[k] = g.value(props[k], wild)
			}
		}
		if g.P(1, 3) {
			o[g.PickS("c", "zz", "a")] = g.value(m["additionalProperties"], wild)
		}
		return o
	}
	return g.anyValue(1)
}

// another value that is written much the same
func (g schemaGen) alike(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return g.PickS("null", "<nil>")
	case string:
		if x == "" {
			return []interface{}{""}
		}
		return []interface{}{x}
	case []interface{}:
		b, _ := json.Marshal(x)
		if g.P(1, 2) {
			return fmt.Sprint(x)
		}
		return string(b)
	case map[string]interface{}:
		b, _ := json.Marshal(x)
		if g.P(1, 2) {
			return fmt.Sprint(x)
		}
		return string(b)
	}
	return fmt.Sprint(v)
}

func (g schemaGen) anyValue(depth int) interface{} {
	k := g.Intn(8)
	if depth <= 0 && k > 5 {
		k = g.Intn(6)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return g.P(1, 2)
	case 2, 3:
		return g.Range(-30, 130)
	case 4:
		return json.Number(g.PickS("0.5", "9.75", "-3.25"))
	case 5:
		return longText[:g.Intn(8)]
	case 6:
		var l = []interface{}{}
		for i := g.Intn(4); i > 0; i-- {
			l = append(l, g.anyValue(depth-1))
		}
		return l
	}
	o := map[string]interface{}{}
	for i := g.Intn(4); i > 0; i-- {
		o[g.PickS("a", "b", "ab", "name", "deep", "x1", "c")] = g.anyValue(depth - 1)
	}
	return o
}

// variant of a schema: the same shape, other limits
func (g schemaGen) variant(s interface{}) interface{} {
	switch x := s.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for _, k := range sortedKeys(x) {
			v := x[k]
			if n, ok := v.(int); ok {
				if g.P(1, 3) {
					continue
				}
				if g.P(1, 3) {
					n = max(0, n+g.Pick(-3, -1, 1, 4))
				}
				v = n
			} else if b, ok := v.(bool); ok {
				v = b != g.P(1, 3)
			} else if k == "requires" {
				if g.P(1, 3) {
					continue
				}
			} else {
				v = g.variant(v)
			}
			m[k] = v
		}
		add := func(k string, v interface{}) {
			if m[k] == nil && g.P(1, 4) {
				m[k] = v
			}
		}
		switch m["type"] {
		case "string":
			add("maxLength", g.Pick(1, 3))
			add("minLength", g.Pick(1, 2))
		case "number", "integer":
			add("maximum", g.Pick(0, 50))
			add("minimum", g.Pick(0, 10))
		case "list":
			if _, ok := m["items"].([]interface{}); !ok {
				add("maxItems", g.Pick(1, 2))
				add("minItems", g.Pick(1, 2))
			}
		}
		return m
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = g.variant(x[i])
		}
		return l
	}
	return s
}

// tokenFirst: the first parameter is any string, it tells the calls apart.
func (g *G) tokenFirst(s interface{}) map[string]interface{} {
	m := s.(map[string]interface{})
	switch t := m["type"]; t {
	case "anyOf", "allOf":
		for _, c := range m[t.(string)].([]interface{}) {
			g.tokenFirst(c)
		}
	case "method":
		m["params"].([]interface{})[0] = map[string]interface{}{"type": "string"}
	}
	return m
}

func genC18(g *G) {
	sg := schemaGen{g}
	g.server("gateway", "gateway", "gateway", "ws", "h2", "h1")
	g.sc.Server.Depth = g.Intn(3)
	g.sc.Server.Missing = g.P(1, 6)
	g.sc.Server.Serial = (g.sc.Server.Kind == "ws" || g.sc.Server.Kind == "h2") && g.P(1, 5)
	n := 1 + g.Intn(3)
	g.addClients(n, false)
	g.p("pre", g.Intn(2))
	if g.sc.S == nil {
		g.sc.S = map[string]string{}
	}
	// a few schemas, shared between methods
	var schemas []map[string]interface{}
	tokSchema := map[string]interface{}{"type": "string"}
	base := []int{} // what a schema is a variant of
	for i := 0; i < 1+g.Intn(3); i++ {
		base = append(base, i)
		if i > 0 && g.P(1, 2) {
			k := g.Intn(i)
			base[i] = base[k]
			schemas = append(schemas, g.tokenFirst(sg.variant(schemas[k])))
			continue
		}
		if g.P(1, 5) {
			// several descriptions of one method
			t := g.PickS("anyOf", "anyOf", "allOf")
			var l []interface{}
			for j := 1 + g.Intn(3); j > 0; j-- {
				items := []interface{}{tokSchema}
				for j := g.Intn(3); j > 0; j-- {
					items = append(items, sg.schema(2))
				}
				ms := map[string]interface{}{"type": "method", "params": items}
				if g.P(1, 3) {
					ms["additionalParams"] = sg.schema(1)
				}
				l = append(l, ms)
			}
			s := map[string]interface{}{"type": t, t: l}
			if g.P(1, 4) {
				s = map[string]interface{}{"type": "allOf", "allOf": []interface{}{s, map[string]interface{}{"type": "any"}}}
			}
			schemas = append(schemas, s)
			continue
		}
		params := []interface{}{tokSchema}
		for j := 1 + g.Intn(3); j > 0; j-- {
			params = append(params, sg.schema(g.Pick(1, 2, 3)))
		}
		s := map[string]interface{}{"type": "method", "params": params}
		if g.P(1, 3) {
			s["additionalParams"] = sg.schema(1)
		}
		if g.P(1, 3) {
			s["returns"] = sg.schema(1)
		}
		schemas = append(schemas, s)
	}
	var guards []Guard
	var of []int
	for i := 0; i < 1+g.Intn(4); i++ {
		k := g.Intn(len(schemas))
		b, _ := json.Marshal(schemas[k])
		guards = append(guards, Guard{M: fmt.Sprintf("g%d", i), S: b, How: g.PickS("json", "shared", "shared", "yaml"), Root: g.P(1, 3), Other: g.P(1, 3)})
		of = append(of, k)
	}
	b, _ := json.Marshal(guards)
	g.sc.S["guards"] = string(b)
	args := func(k int) string {
		s := schemas[k]
		var ps []interface{}
		var add interface{}
		for s["type"] != "method" {
			l := s[s["type"].(string)].([]interface{})
			c := l[g.Intn(len(l))].(map[string]interface{})
			if c["type"] != "any" {
				s = c
			}
		}
		ps, add = s["params"].([]interface{}), s["additionalParams"]
		wild := g.Pick(0, 0, 4, 10)
		l := []interface{}{g.PickS("$T", "$T", sameTok)}
		for _, p := range ps[1:] {
			l = append(l, sg.value(p, wild))
		}
		if add != nil {
			for i := g.Intn(3); i > 0; i-- {
				l = append(l, sg.value(add, wild))
			}
		}
		if g.P(1, 12) && len(l) > 1 {
			l = l[:len(l)-1]
		}
		if g.P(1, 12) {
			l = append(l, 1)
		}
		if g.P(1, 20) {
			l = l[:0]
		}
		b, _ := json.Marshal(l)
		return string(b)
	}
	// a pool of parameters, so that equal requests meet
	type job struct {
		m int
		p string
	}
	var pool []job
	for i := 0; i < 2+g.Intn(8); i++ {
		m := g.Intn(len(guards))
		pool = append(pool, job{m, args(of[m])})
	}
	h1 := func(c int) bool { return g.sc.Clients[c].Kind == "h1" }
	for i := 0; i < 1+g.Intn(4); i++ {
		c := g.Intn(n)
		t := g.thread(c)
		t.Delay = g.Pick(0, 0, 1, 20)
		for j := 0; j < 2+g.Intn(8); j++ {
			jb := pool[g.Intn(len(pool))]
			m := jb.m
			if g.P(1, 4) { // the same schema may guard another method, too
				for k := range guards {
					if base[of[k]] == base[of[jb.m]] && g.P(1, 2) {
						m = k
					}
				}
			}
			o := Op{K: "call", M: guards[m].M, Params: jb.p, Id: g.id(), Trace: g.trace(), Bg: g.P(2, 3)}
			if g.P(1, 8) {
				ok := len(judge(parseJSON(string(guards[m].S)), map[string]interface{}{"params": guardParams(&o, "t0.0")}).places) == 0
				// a refused notification ends a streaming session
				if ok || h1(c) {
					o.K, o.Id = "notify", ""
				}
			}
			if g.P(1, 10) {
				o = g.call(g.Pick(0, 5))
			}
			t.Ops = append(t.Ops, o)
			if g.P(1, 6) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 20)))
			}
		}
	}
	if g.P(1, 6) {
		g.faults(1, 50)
	}
}
