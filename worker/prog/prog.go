// Package prog is what a command-line program of the repository gets instead
// of its process: arguments, environment, output and exit.
package prog

import (
	"fmt"
	"os"
	"runtime"
)

// Prog is one program, run at most once.
type Prog struct {
	Kind   string
	Main   func()
	Args   []string
	Env    map[string]string
	Stdout *Writer
	Stderr *Writer
	Ended  bool
	OnExit func(code int)
	OnOut  func(b []byte)
	OnErr  func(b []byte)
	Used   bool
}

// All are the programs that were built in.
var All []*Prog

func New(kind string) *Prog {
	p := &Prog{Kind: kind}
	p.Stdout = &Writer{p, false}
	p.Stderr = &Writer{p, true}
	All = append(All, p)
	return p
}

// Writer is an output of the program.
type Writer struct {
	p   *Prog
	err bool
}

func (w *Writer) Write(b []byte) (int, error) {
	if w.p.Ended {
		return 0, os.ErrClosed
	}
	if w.err {
		if w.p.OnErr != nil {
			w.p.OnErr(b)
		}
	} else if w.p.OnOut != nil {
		w.p.OnOut(b)
	}
	return len(b), nil
}

func (w *Writer) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *Writer) Sync() error                       { return nil }
func (w *Writer) Close() error                      { return nil }
func (w *Writer) Name() string                      { return "/dev/stdout" }

// Exit ends the program: nothing of it is heard of again.
func (p *Prog) Exit(code int) {
	p.Finish(code)
	runtime.Goexit()
}

// Finish is what the end of the process does.
func (p *Prog) Finish(code int) {
	if !p.Ended {
		p.Ended = true
		if p.OnExit != nil {
			p.OnExit(code)
		}
	}
}

func (p *Prog) Getenv(k string) string            { return p.Env[k] }
func (p *Prog) LookupEnv(k string) (string, bool) { v, ok := p.Env[k]; return v, ok }

func (p *Prog) Print(a ...any) (int, error)   { return fmt.Fprint(p.Stdout, a...) }
func (p *Prog) Println(a ...any) (int, error) { return fmt.Fprintln(p.Stdout, a...) }
func (p *Prog) Printf(f string, a ...any) (int, error) {
	return fmt.Fprintf(p.Stdout, f, a...)
}
