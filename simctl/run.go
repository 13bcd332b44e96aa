package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Violation of a property, as a run reports it.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Result mirrors the worker's report.
type Result struct {
	Ok       bool            `json:"ok"`
	Scenario json.RawMessage `json:"scenario,omitempty"`
	Viol     []Violation     `json:"viol,omitempty"`
	Digest   string          `json:"digest"`
	Dec      uint64          `json:"dec"`
	Picks    uint64          `json:"picks"`
	Switches uint64          `json:"switches"`
	Steps    uint64          `json:"steps"`
	Stalls   uint64          `json:"stalls"`
	StallNs  int64           `json:"stallNs"`
	Hash     string          `json:"hash"`
	SimNs    int64           `json:"simNs"`
	Faults   map[string]int  `json:"faults"`
	Probes   map[string]int  `json:"probes"`
	Calls    int             `json:"calls"`
	Conns    int             `json:"conns"`
	Shape    string          `json:"shape"`
	Events   int             `json:"events"`
	Family   string          `json:"family"`
	Trace    []uint64        `json:"trace,omitempty"`
	Lost     bool            `json:"lost,omitempty"`
	Log      []string        `json:"log,omitempty"`

	// filled in here
	Kind   string `json:"-"` // "ok", "crash", "livelock", "harness", "timeout", "memory"
	Stderr string `json:"-"`
}

// Runner runs workers.
type Runner struct {
	Bin   string
	Certs string
	Prop  string
	Tmp   string
	n     atomic.Int64
}

// run executes one simulation, described by scenario (JSON), in a fresh
// process. The process always gets the same arguments and the scenario in the
// same form: memory addresses then come out the same in every run of a
// scenario, and with them everything ordered by them.
func (r *Runner) run(scenario []byte, full bool) *Result {
	var c bytes.Buffer
	if err := json.Compact(&c, scenario); err != nil {
		return &Result{Kind: "harness", Stderr: err.Error()}
	}
	f := filepath.Join(r.Tmp, fmt.Sprintf("sc%d.json", r.n.Add(1)))
	if err := os.WriteFile(f, c.Bytes(), 0o644); err != nil {
		return &Result{Kind: "harness", Stderr: err.Error()}
	}
	defer os.Remove(f)
	in, err := os.Open(f)
	if err != nil {
		return &Result{Kind: "harness", Stderr: err.Error()}
	}
	defer in.Close()
	args := []string{"-certs", r.Certs, "-prop", r.Prop, "-scenario", "-", "-full=" + strconv.FormatBool(full)}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.Bin, args...)
	cmd.Stdin = in
	cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=", "GOTRACEBACK=all", "TZ=UTC", "HOME=/nonexistent", "PATH=/bin"}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &limited{b: &errb, n: 4 << 20}
	pr, pw, err := os.Pipe()
	if err != nil {
		return &Result{Kind: "harness", Stderr: err.Error()}
	}
	cmd.ExtraFiles = []*os.File{pw}
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return &Result{Kind: "harness", Stderr: err.Error()}
	}
	pw.Close()
	dump := make(chan []byte, 1)
	go func() { b, _ := io.ReadAll(io.LimitReader(pr, 8<<20)); dump <- b }()
	werr := cmd.Wait()
	raw := <-dump
	pr.Close()
	res := &Result{}
	if werr == nil {
		if err := json.Unmarshal(out.Bytes(), res); err != nil {
			return &Result{Kind: "harness", Stderr: "bad worker output: " + err.Error()}
		}
		res.Kind = "ok"
		return res
	}
	e := errb.String()
	res.Stderr = e
	if len(raw) >= 32 && binary.LittleEndian.Uint64(raw) == 0x53494d54524143 {
		n := int(binary.LittleEndian.Uint64(raw[8:]))
		res.Dec = binary.LittleEndian.Uint64(raw[16:])
		for i := 0; i < n && 32+8*i+8 <= len(raw); i++ {
			res.Trace = append(res.Trace, binary.LittleEndian.Uint64(raw[32+8*i:]))
		}
	}
	switch {
	case ctx.Err() != nil:
		res.Kind = "timeout"
	case strings.Contains(e, "SIMCAP"):
		res.Kind = "livelock"
		res.Viol = []Violation{{"", "livelock", "the program spins without the clock advancing: " + topFrames(e)}}
	case strings.Contains(e, "out of memory") || strings.Contains(e, "cannot allocate memory"):
		res.Kind = "memory"
	case strings.Contains(e, "harness:"):
		res.Kind = "harness"
	case strings.HasPrefix(firstLine(e), "panic:") || strings.HasPrefix(firstLine(e), "fatal error:") || strings.Contains(e, "\npanic: ") || strings.Contains(e, "\nfatal error: "):
		res.Kind = "crash"
		msg := crashLine(e)
		res.Viol = []Violation{{"", "crash", "the process crashed: " + msg + "; " + topFrames(e)}}
	default:
		res.Kind = "harness"
	}
	return res
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		if len(p) < k {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]+`)

func crashLine(e string) string {
	for _, l := range strings.Split(e, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
			return addrRe.ReplaceAllString(l, "0x")
		}
	}
	return "?"
}

// topFrames names the first library frames of the goroutine that died.
func topFrames(e string) string {
	i := strings.Index(e, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	g := e[i+1:]
	if j := strings.Index(g, "\n\n"); j >= 0 {
		g = g[:j]
	}
	var fs []string
	for _, l := range strings.Split(g, "\n") {
		l = strings.TrimPrefix(l, "created by ")
		if strings.HasPrefix(l, "jlibverif/worker/fifoapp.") {
			// the example's own code
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			fs = append(fs, strings.TrimPrefix(l, "jlibverif/worker/"))
		}
		if strings.HasPrefix(l, "github.com/superisaac/jlib") {
			if k := strings.LastIndex(l, "("); k > 0 && strings.Contains(l[k:], "0x") || k > 0 && strings.HasSuffix(l, "(...)") {
				l = l[:k]
			}
			fs = append(fs, strings.TrimPrefix(l, "github.com/superisaac/jlib"))
			if len(fs) == 4 {
				break
			}
		}
	}
	return "in " + strings.Join(fs, " < ")
}
