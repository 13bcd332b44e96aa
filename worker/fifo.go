package main

import (
	"fmt"
	"os"
	"sort"
	"time"

	"github.com/superisaac/jlib"
)

// fifoMain is the program of examples/fifo, where it was built in.
var fifoMain func()

// hangRec: from..to a connection moved no bytes though it stood.
type hangRec struct {
	p        *connPair
	from, to time.Duration
}

// fifoItems are the items a push carries.
func fifoItems(op *Op, tok string) []interface{} {
	l := []interface{}{}
	for i := 0; i < op.Spec.N; i++ {
		k := fmt.Sprintf("%s#%d", tok, i)
		switch {
		case op.Spec.P == 0:
			l = append(l, k)
		case op.Spec.P < 0: // long ones
			l = append(l, k+longText[:-op.Spec.P])
		default:
			l = append(l, map[string]interface{}{"k": k, "v": payload(op.Spec.P + i)})
		}
	}
	return l
}

// runFifo: clients use the FIFO example's program.
func (w *World) runFifo() {
	if fifoMain == nil {
		panic("harness: built without the example")
	}
	w.hookNet()
	os.Args = []string{"fifo", "-bind", ":" + simPort}
	go fifoMain()
	for _, cc := range w.sc.Clients {
		w.newClient(cc, false)
	}
	time.Sleep(2 * time.Millisecond)
	w.waitListening()
	w.startFaults()
	for i := range w.sc.Threads {
		w.live++
		go w.runThread(i, &w.sc.Threads[i])
	}
	w.waitUntil(func() bool { return w.live == 0 }, 120*time.Second)
	w.heal()
	for i := range w.hangs {
		if h := &w.hangs[i]; h.to > w.now() {
			h.to = w.now()
		}
	}
	w.waitUntil(func() bool { return w.live == 0 }, 120*time.Second)
	for _, r := range w.calls {
		if !r.returned {
			w.violate("C17", "never-returned", "call %s %s of client%d (%s) has not returned %v after the last fault ended", r.tok, r.op.M, r.client.idx, r.client.cfg.Kind, w.now()-w.healAt)
		}
	}
	if w.live == 0 {
		// whoever hung has gone or come back: the service serves new clients
		time.Sleep(time.Second)
		for _, k := range []string{"h1", "ws", "h2"} {
			c := w.newClient(ClientCfg{Kind: k}, false)
			for i, op := range []Op{{M: "fifo_push", Spec: &Spec{N: 2}}, {M: "fifo_list"}, {M: "fifo_pop"}, {M: "fifo_get", Params: "[0]"}, {M: "fifo_list"}} {
				op.K = "call"
				o := op
				c.call(-1, &o, fmt.Sprintf("fr%d.%d", c.idx, i))
			}
		}
		w.netIdle()
	}
	w.quiesced = true
	w.quiesceAt = w.now()
	w.checkFifo()
	for _, c := range w.clients {
		if c.st != nil {
			c.close()
		}
	}
	time.Sleep(time.Second)
}

type fifoOp struct {
	r          *CallRec
	kind       byte // push opop list get; 'e': pop of an empty one
	items      []int
	start, end int // by sequence number
	must       bool
	prec       []int // operations known to have come before
}

const never = 1 << 60

// fifoFailed: the call does not say what became of it.
func fifoFailed(r *CallRec) bool {
	return !r.returned || r.err != nil || r.res == nil || !r.res.IsResult() && r.res.MustError().Code == jlib.ErrTimeout.Code
}

func (w *World) checkFifo() {
	index := map[string]int{} // item by its encoding
	var owner []int           // push (in ops) by item
	var ops []*fifoOp
	pushOf := map[int]*fifoOp{}
	itemsOf := func(l []interface{}) ([]int, string) {
		var ids []int
		for _, v := range l {
			i, ok := index[canon(v)]
			if !ok {
				return nil, canon(v)
			}
			ids = append(ids, i)
		}
		return ids, ""
	}
	for _, r := range w.calls {
		if r.op.M == "fifo_push" {
			o := &fifoOp{r: r, kind: 'u', start: r.startSeq, end: never}
			for _, v := range fifoItems(r.op, r.tok) {
				index[canon(v)] = len(owner)
				o.items = append(o.items, len(owner))
				pushOf[len(owner)] = o
				owner = append(owner, len(ops))
			}
			ops = append(ops, o)
		}
	}
	pushes := len(ops)
	name := func(ids []int) string {
		s := ""
		for _, i := range ids {
			o := ops[owner[i]]
			s += fmt.Sprintf(" %s#%d", o.r.tok, i-o.items[0])
			if len(s) > 300 {
				return s + "..."
			}
		}
		return "[" + s + " ]"
	}
	at := 0
	for _, r := range w.calls {
		what := fmt.Sprintf("%s %s of client%d (%s)", r.op.M, r.tok, r.client.idx, r.client.cfg.Kind)
		w.checkFifoAnswered(r, what)
		var o *fifoOp
		if r.op.M == "fifo_push" {
			o = ops[at]
			at++
		}
		if fifoFailed(r) {
			if r.op.M == "fifo_pop" {
				ops = append(ops, &fifoOp{r: r, kind: 'o', start: r.startSeq, end: never})
			}
			continue
		}
		isErr := !r.res.IsResult()
		if isErr {
			if code := r.res.MustError().Code; code != -400 {
				w.violate("C17", "error", "%s was answered with %s", what, r.outcome())
				continue
			}
		}
		bad := func() { w.violate("C17", "answer", "%s was answered with %s", what, r.outcome()) }
		switch r.op.M {
		case "fifo_push":
			if isErr != (len(o.items) == 0) {
				bad()
				continue
			}
			o.end, o.must = r.endSeq, true
		case "fifo_pop":
			k := byte('o')
			if isErr {
				k = 'e'
			}
			ops = append(ops, &fifoOp{r: r, kind: k, start: r.startSeq, end: r.endSeq, must: true})
		case "fifo_list":
			l, ok := interface{}(nil), false
			if !isErr {
				l = r.res.MustResult()
			}
			var list []interface{}
			if list, ok = l.([]interface{}); !ok {
				bad()
				continue
			}
			ids, odd := itemsOf(list)
			if odd != "" {
				w.violate("C17", "unknown-item", "%s shows an item nobody pushed: %s", what, short(odd, 200))
				continue
			}
			ops = append(ops, &fifoOp{r: r, kind: 'l', items: ids, start: r.startSeq, end: r.endSeq, must: true})
		case "fifo_get":
			n := 0
			fmt.Sscanf(r.op.Params, "[%d]", &n)
			if n < 0 {
				if !isErr {
					bad()
				}
				continue
			}
			g := &fifoOp{r: r, kind: 'g', start: r.startSeq, end: r.endSeq, must: true}
			if !isErr {
				ids, odd := itemsOf([]interface{}{r.res.MustResult()})
				if odd != "" {
					w.violate("C17", "unknown-item", "%s is an item nobody pushed: %s", what, short(odd, 200))
					continue
				}
				g.items = ids
			}
			ops = append(ops, g)
		case "fifo_echo":
			if isErr || canon(r.res.MustResult()) != canon(r.tok) {
				bad()
			}
		case "fifo_subscribe":
			if isErr {
				bad()
			}
		}
	}
	w.checkFifoSubs(ops[:pushes], pushOf, itemsOf, name)
	if len(w.viol) > 0 {
		return
	}
	// one order explains everything
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].start < ops[j].start })
	pos := map[*fifoOp]int{}
	for i, o := range ops {
		pos[o] = i
	}
	for _, e := range w.fifoEdges {
		e[1].prec = append(e[1].prec, pos[e[0]])
	}
	l := &linSearch{ops: ops, seen: map[uint64]bool{}}
	ok := l.search(make([]bool, len(ops)), nil)
	switch {
	case l.nodes > linBudget:
		w.probes["fifo.undecided"]++
	case !ok && w.explainedWithoutTornLists(ops):
		w.violate("C17", "torn-list", "a fifo_list answered during a push shows no state the queue was in; everything else has an explanation")
	case !ok:
		w.violate("C17", "not-linearizable", "no order of the operations explains what the clients were told; the best explains %d of %d, but not %s", l.best, l.total(), l.failed)
	default:
		w.probes["fifo.linearized"]++
	}
}

// explainedWithoutTornLists: an order explains everything but what lists
// answered while a push was under way.
func (w *World) explainedWithoutTornLists(ops []*fifoOp) bool {
	var rest []*fifoOp
	at := map[int]int{}
	for i, o := range ops {
		torn := false
		for _, u := range ops {
			torn = torn || o.kind == 'l' && u.kind == 'u' && u.start < o.end && u.end > o.start
		}
		if !torn {
			at[i] = len(rest)
			rest = append(rest, o)
		}
	}
	if len(rest) == len(ops) {
		return false
	}
	for _, o := range rest {
		for k, j := range o.prec { // pushes, which stay
			o.prec[k] = at[j]
		}
	}
	l := &linSearch{ops: rest, seen: map[uint64]bool{}}
	return l.search(make([]bool, len(rest)), nil)
}

// checkFifoAnswered: a client nothing happened to is answered, unless
// somebody who subscribed hangs meanwhile.
func (w *World) checkFifoAnswered(r *CallRec, what string) {
	if r.hasCtx || !fifoFailed(r) {
		return
	}
	end := r.end
	if !r.returned {
		end = w.now()
	}
	if !r.client.clean(end) || r.client.frozen > 0 || w.slack() > 0 && r.returned && r.end-r.start > r.client.limit()-w.slack() {
		return
	}
	for _, h := range w.hangs {
		if r.start <= h.to+3*time.Second && end >= h.from {
			return
		}
	}
	w.violate("C17", "not-served", "%s failed although nothing happened to its client and no subscriber hung: %s", what, r.outcome())
}

func (w *World) checkFifoSubs(pushes []*fifoOp, pushOf map[int]*fifoOp, itemsOf func([]interface{}) ([]int, string), name func([]int) string) {
	streams := [][]*fifoOp{}
	for _, c := range w.clients {
		who := fmt.Sprintf("client%d (%s)", c.idx, c.cfg.Kind)
		firstSub, subbed := never, -1
		for _, r := range c.calls {
			if r.op.M == "fifo_subscribe" {
				firstSub = min(firstSub, r.startSeq)
				if !fifoFailed(r) && c.st != nil && subbed < 0 {
					subbed = r.endSeq
				}
			}
		}
		// runs of items of one push
		type run struct {
			o     *fifoOp
			n     int
			first int // when it came
			late  bool
		}
		var runs []*run
		seen := map[int]bool{}
		for _, m := range c.msgs {
			if m.method != "fifo_subscription" {
				continue
			}
			ids, odd := itemsOf(m.params)
			if odd != "" || len(ids) != 1 {
				w.violate("C17", "unknown-item", "%s was told of an item nobody pushed: %s", who, short(canon(m.params), 200))
				continue
			}
			o := pushOf[ids[0]]
			if m.seq < firstSub {
				w.violate("C17", "not-subscribed", "%s was told of %s though it had not subscribed", who, name(ids))
			}
			if seen[ids[0]] && len(c.connected) < 2 {
				w.violate("C17", "told-twice", "%s was told of %s twice", who, name(ids))
			}
			seen[ids[0]] = true
			if m.seq < o.start {
				w.violate("C17", "unknown-item", "%s was told of %s before it was pushed", who, name(ids))
			}
			o.must, o.end = true, min(o.end, m.seq)
			if len(runs) == 0 || runs[len(runs)-1].o != o {
				runs = append(runs, &run{o: o, first: m.seq})
			}
			k := runs[len(runs)-1]
			if k.n == 0 && !k.late {
				// who subscribes during a push may be told of the rest of it
				till := never
				if !fifoFailed(o.r) {
					till = o.r.endSeq
				}
				for _, r := range c.calls {
					if r.op.M == "fifo_subscribe" && r.startSeq < till && (!r.returned || r.endSeq > o.start) {
						for k.n < len(o.items)-1 && o.items[k.n] != ids[0] {
							k.n++
							k.late = true
						}
					}
				}
			}
			if o.items[min(k.n, len(o.items)-1)] != ids[0] && len(c.connected) < 2 {
				w.violate("C17", "push-order", "%s was told of %s out of turn", who, name(ids))
			}
			k.n++
		}
		var stream []*fifoOp
		for i, k := range runs {
			if k.n < len(k.o.items) && i < len(runs)-1 && len(c.connected) < 2 {
				w.violate("C17", "item-missing", "%s was told of %d items of the %d that push %s added, then of others", who, k.n, len(k.o.items), k.o.r.tok)
			}
			if !fifoFailed(k.o.r) && k.o.r.endSeq < firstSub {
				w.violate("C17", "not-subscribed", "%s was told of push %s, done before it subscribed", who, k.o.r.tok)
			}
			for _, j := range runs[:i] {
				if j.o == k.o && len(c.connected) < 2 {
					w.violate("C17", "push-order", "%s was told of the items of push %s with others in between", who, k.o.r.tok)
				}
			}
			if len(c.connected) < 2 { // else in no order between connections
				stream = append(stream, k.o)
			}
		}
		streams = append(streams, stream)
		if subbed < 0 || len(c.connected) != 1 || !c.clean(w.now()) {
			continue
		}
		for _, o := range pushes {
			if !fifoFailed(o.r) && o.start > subbed {
				n := 0
				for _, i := range o.items {
					if seen[i] {
						n++
					}
				}
				if n < len(o.items) {
					w.violate("C17", "item-missing", "%s, subscribed, was told of %d items of the %d that push %s added", who, n, len(o.items), o.r.tok)
				}
				w.probes["fifo.complete"]++
			}
		}
	}
	// the order items were told in is the order they were pushed in
	w.fifoEdges = nil
	for _, s := range streams {
		for i := 1; i < len(s); i++ {
			w.fifoEdges = append(w.fifoEdges, [2]*fifoOp{s[i-1], s[i]})
		}
	}
}

const linBudget = 60000

// linSearch looks for an order of the operations, each between its call and
// return, that a list kept by one thread would have answered likewise.
type linSearch struct {
	ops    []*fifoOp
	seen   map[uint64]bool
	nodes  int
	best   int
	failed string
}

func (l *linSearch) total() (n int) {
	for _, o := range l.ops {
		if o.must {
			n++
		}
	}
	return n
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// search extends an order of which done are part, leading to state.
func (l *linSearch) search(done []bool, state []int) bool {
	done = append([]bool(nil), done...)
	for {
		if l.nodes++; l.nodes > linBudget {
			return true
		}
		minEnd, left, n := never+1, 0, 0
		for i, o := range l.ops {
			if done[i] {
				if o.must {
					n++
				}
				continue
			}
			if o.must {
				left++
				minEnd = min(minEnd, o.end)
			}
		}
		if left == 0 {
			return true
		}
		var cand []int
		read := -1
		var odd *fifoOp
	next:
		for i, o := range l.ops {
			if o.start > minEnd {
				break
			}
			if done[i] {
				continue
			}
			for _, j := range o.prec {
				if !done[j] {
					continue next
				}
			}
			fits := false
			switch o.kind {
			case 'u':
				cand = append(cand, i)
				continue
			case 'o':
				if len(state) > 0 {
					cand = append(cand, i)
				}
				continue
			case 'e':
				fits = len(state) == 0
			case 'l':
				fits = equalInts(o.items, state)
			case 'g':
				k := 0
				fmt.Sscanf(o.r.op.Params, "[%d]", &k)
				fits = len(o.items) == 0 && k >= len(state) || len(o.items) == 1 && k < len(state) && state[k] == o.items[0]
			}
			if fits {
				read = i
				break
			}
			if o.end == minEnd {
				odd = o
			}
		}
		if n >= l.best {
			l.best = n
			if odd != nil {
				l.failed = fmt.Sprintf("%s %s of client%d: %s", odd.r.op.M, odd.r.tok, odd.r.client.idx, short(odd.r.outcome(), 300))
			}
		}
		if read >= 0 {
			// changes nothing: wherever it fits is as good as any other place
			done[read] = true
			continue
		}
		// 64 bits of the parts done and the state; equal ones are as good
		key := uint64(14695981039346656037)
		mix := func(v uint64) { key = (key ^ v) * 1099511628211; key ^= key >> 29 }
		for i, d := range done {
			if d {
				mix(uint64(i) + 1)
			}
		}
		mix(1 << 40)
		for _, s := range state {
			mix(uint64(s) + 1)
		}
		if l.seen[key] {
			return false
		}
		l.seen[key] = true
		// those that must be part of it first, the earliest to end first
		sort.SliceStable(cand, func(a, b int) bool { return l.ops[cand[a]].end < l.ops[cand[b]].end })
		for _, i := range cand {
			o := l.ops[i]
			s := state
			if o.kind == 'u' {
				s = append(append([]int(nil), state...), o.items...)
			} else {
				s = state[:len(state)-1]
			}
			done[i] = true
			if l.search(done, s) {
				return true
			}
			done[i] = false
		}
		return false
	}
}

// genC17: the FIFO example under several clients.
func genC17(g *G) {
	// the example does not guard its subscribers (see known-findings.txt): the
	// runs that may end for it are few
	g.sc.Sched.MapOff = g.P(7, 8)
	g.sc.Family = "fifo"
	g.sc.Server.Kind = "gateway"
	n := 1 + g.Intn(5)
	g.addClients(n, g.P(1, 2))
	hang := g.P(1, 6)
	if hang {
		n++
		g.sc.Clients = append(g.sc.Clients, ClientCfg{Kind: g.PickS("ws", "h2")})
	}
	if win := g.sc.Net.Window; win > 0 && (hang || win < 4096) {
		g.sc.Net.Window = g.Pick(0, 16384) // what is listed is to arrive in time
	}
	if hang {
		g.sc.Net.ShortRd = 0
	}
	push := func() Op {
		o := Op{K: "call", M: "fifo_push", Spec: &Spec{N: g.Pick(1, 1, 1, 2, 3, 7), P: g.Pick(0, 0, 0, 0, 1, 5, -300)}}
		switch {
		case g.P(1, 20):
			o.Spec.N = 0
		case g.P(1, 25):
			o.Spec.N, o.Spec.P = g.Pick(20, 60, 150), 0
		}
		return o
	}
	op := func() Op {
		o := Op{K: "call", Id: g.id(), Unwrap: g.P(1, 5)}
		switch g.Weighted(6, 5, 5, 3, 1, 1) {
		case 0:
			p := push()
			o.M, o.Spec = p.M, p.Spec
		case 1:
			o.M = "fifo_pop"
		case 2:
			o.M = "fifo_list"
		case 3:
			o.M, o.Params = "fifo_get", fmt.Sprintf("[%d]", g.Pick(0, 0, 1, 1, 2, 3, 5, 9, -1))
		case 4:
			o.M = "fifo_echo"
		case 5:
			o.M = "fifo_subscribe"
		}
		if o.Id != "" && o.Unwrap {
			o.Id = ""
		}
		o.Bg = g.P(1, 3)
		return o
	}
	sub := func() Op { return Op{K: "call", M: "fifo_subscribe"} }
	for i := 0; i < n; i++ {
		if g.sc.Clients[i].Kind != "h1" && g.P(2, 3) || hang && i == n-1 {
			t := g.thread(i, sub())
			t.Delay = g.Pick(0, 0, 1, 10)
			if g.P(1, 4) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 5, 50, 500)), Op{K: g.PickS("close", "lose")}, g.sleep(g.Pick(0, 1, 20)), sub(), g.sleep(5), push())
			}
			if g.P(1, 5) {
				t.Ops = append(t.Ops, sub())
			}
		}
	}
	m := 2 + g.Intn(4)
	for i := 0; i < m; i++ {
		t := g.thread(g.Intn(n))
		t.Delay = g.Pick(0, 0, 5, 20, 100)
		for j := 0; j < 1+g.Intn(8); j++ {
			t.Ops = append(t.Ops, op())
			if g.P(1, 6) {
				t.Ops = append(t.Ops, g.sleep(g.Pick(1, 10, 100)))
			}
		}
	}
	if hang {
		at := g.Pick(5, 20, 100)
		g.sc.Faults = append(g.sc.Faults, Fault{K: "freeze", At: at, Conn: 1000 + n - 1, Dur: g.Pick(3000, 60000)})
		t := g.thread(g.Intn(n - 1))
		t.Delay = at + 2
		for i := 0; i < 3; i++ {
			p := push()
			p.Spec.N, p.Spec.P = g.Pick(40, 90, 150, 300), g.Pick(0, 0, -700)
			p.Bg = g.P(1, 2)
			t.Ops = append(t.Ops, p)
		}
		gone := at + g.Pick(500, 4000, 12000)
		g.sc.Faults = append(g.sc.Faults, Fault{K: g.PickS("reset", "reset", "rst1"), At: gone, Conn: 1000 + n - 1, Side: 1})
		l := g.thread(g.Intn(n - 1))
		l.Delay = gone + 4000
		l.Ops = append(l.Ops, Op{K: "call", M: "fifo_list"}, push(), Op{K: "call", M: "fifo_pop"}, sub(), push())
		return
	}
	if g.P(1, 2) {
		for i := 0; i < 1+g.Intn(3); i++ {
			f := g.connFault(300)
			switch f.K {
			case "restart", "crash", "vanish", "hang", "drop":
				f.K, f.Dur = g.PickS("reset", "freeze", "cut"), g.Pick(10, 500, 5000)
				if f.Bytes == 0 {
					f.Bytes = 20
				}
			}
			switch f.On {
			case "handler.start", "handler.end", "push", "onclose":
				f.On = "client.message"
			}
			g.sc.Faults = append(g.sc.Faults, f)
		}
	}
}
