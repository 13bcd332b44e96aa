package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	stdlog "log"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"

	log "github.com/sirupsen/logrus"
)

// Result is what one run reports.
type Result struct {
	Ok       bool           `json:"ok"`
	Scenario *Scenario      `json:"scenario,omitempty"`
	Viol     []Violation    `json:"viol,omitempty"`
	Digest   string         `json:"digest"`
	Dec      uint64         `json:"dec"`
	Picks    uint64         `json:"picks"`
	Switches uint64         `json:"switches"`
	Steps    uint64         `json:"steps"`
	Stalls   uint64         `json:"stalls"`
	StallNs  int64          `json:"stallNs"`
	Hash     string         `json:"hash"`
	SimNs    int64          `json:"simNs"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Calls    int            `json:"calls"`
	Conns    int            `json:"conns"`
	Shape    string         `json:"shape"` // digest of the history without times
	Events   int            `json:"events"`
	Family   string         `json:"family"`
	Trace    []uint64       `json:"trace,omitempty"`
	Lost     bool           `json:"lost,omitempty"`
	Log      []string       `json:"log,omitempty"`
}

type logCatcher struct{ w *World }

func (l *logCatcher) Write(b []byte) (int, error) {
	s := string(b)
	l.w.stdlog = append(l.w.stdlog, short(s, 4000))
	// net/http catches panics of handlers: for jlib that is a crash contained
	// by luck, judged like one
	if strings.Contains(s, "panic serving") {
		l.w.violate("C06", "handler-goroutine-panic", "a panic escaped into net/http: %s", short(s, 3000))
	}
	return len(b), nil
}

var families = map[string]func(w *World){
	"generic": func(w *World) { w.runGeneric() },
	"auth":    func(w *World) { w.runAuth() },
	"fifo":    func(w *World) { w.runFifo() },
	"relay":   func(w *World) { w.runRelay() },
	"cli":     func(w *World) { w.runCli() },
}

// readStdin reads the file on descriptor 0.
func readStdin() ([]byte, error) {
	var st syscall.Stat_t
	if err := syscall.Fstat(0, &st); err != nil {
		return nil, err
	}
	b := make([]byte, st.Size)
	for n := 0; n < len(b); {
		k, err := syscall.Read(0, b[n:])
		if err != nil {
			return nil, err
		}
		if k == 0 {
			return nil, io.ErrUnexpectedEOF
		}
		n += k
	}
	return b, nil
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 0, "seed")
	replay := flag.String("scenario", "", "run the scenario in this file")
	gen := flag.Int("gen", 0, "print the scenarios of so many seeds only, one a line")
	full := flag.Bool("full", false, "report scenario, trace and log")
	flag.StringVar(&certDir, "certs", os.Getenv("SIM_CERTS"), "certificates")
	flag.Parse()

	if *gen > 0 {
		enc := json.NewEncoder(os.Stdout)
		for i := 0; i < *gen; i++ {
			enc.Encode(generate(*prop, *seed+uint64(i)))
		}
		return
	}
	var sc *Scenario
	if *replay != "" {
		// from standard input, so that neither the file's name nor how it is read
		// leaves a trace in the process that could make two runs differ
		var b []byte
		var err error
		if *replay == "-" {
			b, err = readStdin()
		} else {
			b, err = os.ReadFile(*replay)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		sc = &Scenario{}
		if err := json.Unmarshal(b, sc); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
	} else {
		sc = generate(*prop, *seed)
	}
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)

	runtime.SimSeed(sc.Seed)
	w := &World{sc: sc, rng: newRng(sc.Seed), t0: runtime.SimNow(), probes: map[string]int{}, rawAnswered: map[string]time.Duration{}, rawPushed: map[string]bool{}, faults: map[string]int{},
		touched: map[int]timeDuration{}}
	w.guards = sc.guards()
	stdlog.SetOutput(&logCatcher{w})
	stdlog.SetFlags(0)
	w.net = newSimNet(sc.Net, newRng(sc.Seed^0x77))
	w.net.install()
	f := families[sc.Family]
	if f == nil {
		panic("harness: family " + sc.Family)
	}
	cfg := sc.Sched.config()
	runtime.SimStart(cfg)
	f(w)
	tr, lost := runtime.SimTrace()
	trace := append([]uint64(nil), tr...)
	dec, picks, switches, steps, stalls, stallNs, hash := runtime.SimStats()
	runtime.SimStop()
	for k, v := range w.net.fired {
		w.faults[k] += v
	}
	if stalls > 0 {
		w.faults["stall"] += int(stalls)
	}
	res := &Result{Ok: len(w.viol) == 0, Viol: w.viol, Digest: fmt.Sprintf("%016x", w.digest()), Dec: dec, Picks: picks, Switches: switches,
		Steps: steps, Stalls: stalls, StallNs: stallNs, Hash: fmt.Sprintf("%016x", hash), SimNs: int64(w.now()), Faults: w.faults, Probes: w.probes,
		Calls: len(w.calls) + len(w.sends), Conns: len(w.net.conns), Shape: w.shape(), Events: len(w.log), Lost: lost, Family: sc.Family}
	if *full {
		res.Scenario = sc
		res.Trace = trace
		res.Log = append(w.log, w.stdlog...)
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Stdout.Write(b)
	os.Stdout.Write([]byte("\n"))
}
