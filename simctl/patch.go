package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A text patch of one file of the Go distribution. Every old text must occur
// exactly once: a different toolchain makes the build fail, never silently
// lose control of the schedule.
type stdPatch struct {
	file  string
	pairs [][2]string
}

var stdPatches = []stdPatch{
	{"runtime/proc.go", [][2]string{
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{`		t := pp.runqtail
		if t == h {
			return nil, false
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}`, `		t := pp.runqtail
		if t == h {
			return nil, false
		}
		if simst.on && t-h > 1 {
			if k := simPick(pp, h, t-h); k != 0 {
				// Move the chosen goroutine to the head, keeping the order of the others.
				l := uint32(len(pp.runq))
				g := pp.runq[(h+k)%l]
				for i := k; i > 0; i-- {
					pp.runq[(h+i)%l] = pp.runq[(h+i-1)%l]
				}
				pp.runq[h%l] = g
			}
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}`},
		{`	// Before we drop our P, make a snapshot of the allp slice,`, `	// Simulated time: everything is blocked; jump to the next timer.
	if pollUntil != 0 && gomaxprocs == 1 {
		if mp.spinning {
			mp.spinning = false
			if sched.nmspinning.Add(-1) < 0 {
				throw("findRunnable: negative nmspinning")
			}
		}
		if pollUntil > faketime {
			faketime = pollUntil
			simTick()
		}
		goto top
	}

	// Before we drop our P, make a snapshot of the allp slice,`},
	}},
	{"runtime/select.go", [][2]string{
		{"j := cheaprandn(uint32(norder + 1))", "j := simSel(uint32(norder + 1))"},
	}},
	{"runtime/rand.go", [][2]string{
		{`	mp := getg().m
	c := &mp.chacha8
	for {`, `	if true {
		return simRand64()
	}
	mp := getg().m
	c := &mp.chacha8
	for {`},
		{`	mp := getg().m
	// Implement wyrand: https://github.com/wangyi-fudan/wyhash
	// Only the platform that supports 64-bit multiplication
	// natively should be allowed.`, `	if true {
		return uint32(simCheap64())
	}
	mp := getg().m`},
		{`	if goarch.IsAmd64|goarch.IsArm64|goarch.IsPpc64|`, `	if true {
		return simCheap64()
	}
	if goarch.IsAmd64|goarch.IsArm64|goarch.IsPpc64|`},
		{`	seed := &globalRand.seed
	if len(startupRand) >= 16 &&`, `	seed := &globalRand.seed
	if true {
		startupRand = nil
		for i := range seed {
			seed[i] = byte(i*37 + 11)
		}
	} else if len(startupRand) >= 16 &&`},
	}},
	{"runtime/panic.go", [][2]string{
		{`		docrash = dopanic_m(gp, pc, sp, bubble)`, `		simDump()
		docrash = dopanic_m(gp, pc, sp, bubble)`},
		{`		if dopanic_m(gp, pc, sp, nil) {`, `		simDump()
		if dopanic_m(gp, pc, sp, nil) {`},
	}},
	{"crypto/internal/sysrand/rand.go", [][2]string{
		{`	if firstUse.CompareAndSwap(false, true) {`, `	if true {
		runtime.SimSysRand(b)
		return
	}
	if firstUse.CompareAndSwap(false, true) {`},
		{`import (
	"os"`, `import (
	"os"
	"runtime"`},
	}},
	// The children of a context are cancelled in a seeded order: that of the
	// map would depend on addresses.
	{"context/context.go", [][2]string{
		{`	"errors"
	"internal/reflectlite"`, `	"errors"
	"internal/reflectlite"
	"runtime"`},
		{"	children map[canceler]struct{} // set", "	children map[canceler]uint64 // set"},
		{"p.children = make(map[canceler]struct{})", "p.children = make(map[canceler]uint64)"},
		{"p.children[child] = struct{}{}", "simChildren++\n\t\t\tp.children[child] = simChildren"},
		{`	for child := range c.children {
		// NOTE`, `	order := make([]canceler, 0, len(c.children))
	for child := range c.children {
		i := len(order)
		order = append(order, child)
		for ; i > 0 && c.children[order[i-1]] > c.children[child]; i-- {
			order[i] = order[i-1]
		}
		order[i] = child
	}
	for i := len(order) - 1; i > 0; i-- {
		j := int(runtime.SimOrderN(uint32(i + 1)))
		order[i], order[j] = order[j], order[i]
	}
	for _, child := range order {
		// NOTE`},
		{`func (c *cancelCtx) Value(key any) any {`, `// simChildren counts the children of all contexts.
var simChildren uint64

func (c *cancelCtx) Value(key any) any {`},
	}},
	{"net/dial.go", [][2]string{
		{`	ctx, cancel := d.dialCtx(ctx)
	defer cancel()

	// Shadow the nettrace`, `	ctx, cancel := d.dialCtx(ctx)
	defer cancel()
	if SimDial != nil {
		return SimDial(ctx, network, address)
	}

	// Shadow the nettrace`},
		{`func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {`, `func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {
	if SimListen != nil {
		return SimListen(ctx, network, address)
	}`},
	}},
}

// files added to packages of the distribution: package dir -> (name, source in /verif/overlay)
var stdAdds = [][3]string{
	{"runtime", "zz_sim.go", "runtime_sim.go"},
	{"runtime", "time_fake.go", "time_fake.go"},
	{"net", "zz_sim.go", "net_sim.go"},
}

func patchStd(goroot, srcDir, outDir string, replace map[string]string) error {
	for _, p := range stdPatches {
		path := filepath.Join(goroot, "src", p.file)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(b)
		for _, pr := range p.pairs {
			if n := strings.Count(s, pr[0]); n != 1 {
				return fmt.Errorf("%s: the text to replace occurs %d times: %q", p.file, n, pr[0])
			}
			s = strings.Replace(s, pr[0], pr[1], 1)
		}
		out := filepath.Join(outDir, strings.ReplaceAll(p.file, "/", "__"))
		if err := os.WriteFile(out, []byte(s), 0o644); err != nil {
			return err
		}
		replace[path] = out
	}
	for _, a := range stdAdds {
		b, err := os.ReadFile(filepath.Join(srcDir, a[2]))
		if err != nil {
			return err
		}
		out := filepath.Join(outDir, strings.ReplaceAll(a[0], "/", "__")+"__"+a[1])
		if err := os.WriteFile(out, b, 0o644); err != nil {
			return err
		}
		replace[filepath.Join(goroot, "src", a[0], a[1])] = out
	}
	return nil
}
