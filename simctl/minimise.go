package main

import (
	"encoding/json"
	"fmt"
	"os/exec"
	"time"
)

func execOut(bin string, args ...string) ([]byte, error) {
	cmd := exec.Command(bin, args...)
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "TZ=UTC"}
	return cmd.Output()
}

// minimiser shrinks a failing scenario while the same class of violation
// persists: first workload and faults, then network and scheduler settings,
// last the list of scheduling decisions that deviate from the default.
type minimiser struct {
	r        *Runner
	one      func([]byte) (*Result, *Violation)
	deadline time.Time
	sc       []byte
	res      *Result
	v        Violation
	tried    int
	from     [4]int
}

type obj = map[string]any

func (m *minimiser) start(sc []byte, res *Result, v Violation) {
	m.sc, m.res, m.v = sc, res, v
	m.from = m.size()
}

func (m *minimiser) size() (n [4]int) {
	o := m.decode()
	ths, _ := o["threads"].([]any)
	n[0] = len(ths)
	for _, t := range ths {
		ops, _ := t.(obj)["ops"].([]any)
		n[1] += len(ops)
	}
	fs, _ := o["faults"].([]any)
	n[2] = len(fs)
	n[3] = len(m.res.Trace) / 2
	return
}

func (m *minimiser) summary() string {
	to := m.size()
	return fmt.Sprintf("minimised from %d threads, %d operations, %d faults, %d deviating decisions to %d, %d, %d, %d in %d runs",
		m.from[0], m.from[1], m.from[2], m.from[3], to[0], to[1], to[2], to[3], m.tried)
}

func (m *minimiser) decode() obj {
	var o obj
	dec := json.NewDecoder(bytesReader(m.sc))
	dec.UseNumber()
	dec.Decode(&o)
	return o
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) }

// try runs a candidate, under its own schedule seed and a few others.
func (m *minimiser) try(o obj, seeds int) bool {
	for k := 0; k < seeds && !m.over(); k++ {
		if s, ok := o["sched"].(obj); ok && k > 0 {
			s["seed"] = json.Number(fmt.Sprint(1000 + k))
		}
		b, _ := json.Marshal(o)
		m.tried++
		res, v := m.one(b)
		if v != nil {
			m.sc, m.res, m.v = b, res, *v
			return true
		}
	}
	return false
}

func remove(l []any, i, n int) []any {
	return append(append([]any{}, l[:i]...), l[i+n:]...)
}

func (m *minimiser) list(get func(obj) []any, set func(obj, []any), seeds int) bool {
	changed := false
	n := len(get(m.decode()))
	for size := n; size >= 1; size /= 2 {
		for i := 0; i+size <= len(get(m.decode())) && !m.over(); {
			o := m.decode()
			set(o, remove(get(o), i, size))
			if m.try(o, seeds) {
				changed = true
			} else {
				i += size
			}
		}
	}
	return changed
}

func arr(v any) []any { l, _ := v.([]any); return l }

func (m *minimiser) minimise() {
	for round := 0; round < 3 && !m.over(); round++ {
		changed := m.list(func(o obj) []any { return arr(o["threads"]) }, func(o obj, l []any) { o["threads"] = l }, 3)
		changed = m.list(func(o obj) []any { return arr(o["faults"]) }, func(o obj, l []any) { o["faults"] = l }, 3) || changed
		for t := 0; t < len(arr(m.decode()["threads"])); t++ {
			t := t
			changed = m.list(func(o obj) []any { return arr(arr(o["threads"])[t].(obj)["ops"]) },
				func(o obj, l []any) { arr(o["threads"])[t].(obj)["ops"] = l }, 2) || changed
		}
		if !changed {
			break
		}
	}
	// simpler schedules
	for _, k := range []string{"stallNum", "yieldNum", "hotNum", "epochNum", "pickNum"} {
		o := m.decode()
		if s, ok := o["sched"].(obj); ok && fmt.Sprint(s[k]) != "0" && s[k] != nil {
			s[k] = json.Number("0")
			m.try(o, 1)
		}
		if m.over() {
			break
		}
	}
	// the schedule as an explicit list of deviations
	if m.res.Trace != nil && !m.res.Lost && !m.over() {
		o := m.decode()
		s, ok := o["sched"].(obj)
		if ok {
			s["scripted"] = true
			s["script"] = toAny(m.res.Trace)
			if m.try(o, 1) {
				m.script()
			}
		}
	}
	// what is reported is one more run in a fresh process
	if res, v := m.one(m.sc); v != nil {
		m.res, m.v = res, *v
	}
}

func toAny(l []uint64) []any {
	a := make([]any, len(l))
	for i, x := range l {
		a[i] = json.Number(fmt.Sprint(x))
	}
	return a
}

// script drops deviations, in halves, quarters, and so on.
func (m *minimiser) script() {
	get := func() []any { return arr(m.decode()["sched"].(obj)["script"]) }
	n := len(get()) / 2
	for size := n; size >= 1 && !m.over(); size /= 2 {
		for i := 0; i+size <= len(get())/2 && !m.over(); {
			o := m.decode()
			s := o["sched"].(obj)
			s["script"] = remove(arr(s["script"]), 2*i, 2*size)
			if !m.try(o, 1) {
				i += size
			}
		}
	}
}
