package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Build is a worker binary made from the repository's working tree.
type Build struct {
	Bin   string
	Sites int
	Files []string
}

func goroot() (string, error) {
	for _, d := range []string{os.Getenv("SIM_GOROOT"), "/opt/veriftools/go1.27.3"} {
		if d != "" {
			if _, err := os.Stat(filepath.Join(d, "src", "runtime", "proc.go")); err == nil {
				return d, nil
			}
		}
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	return strings.TrimSpace(string(out)), nil
}

// build compiles the worker: the repository's packages instrumented with
// preemption points, the Go runtime with the simulated scheduler, clock and
// entropy, package net with the simulated network.
func build(verif, repo, prop string) (*Build, error) {
	b, err := buildWith(verif, repo, prop, true)
	if err != nil {
		// announcing map accesses is guesswork where types are not known
		if b2, err2 := buildWith(verif, repo, prop, false); err2 == nil {
			fmt.Println("note: built without announcing map accesses:", strings.SplitN(err.Error(), "\n", 3)[1])
			return b2, nil
		}
	}
	return b, err
}

func buildWith(verif, repo, prop string, maps bool) (*Build, error) {
	dir := filepath.Join(verif, ".build")
	src := filepath.Join(dir, "src")
	if err := os.RemoveAll(src); err != nil {
		return nil, err
	}
	if err := os.MkdirAll(src, 0o755); err != nil {
		return nil, err
	}
	root, err := goroot()
	if err != nil {
		return nil, err
	}
	rep := map[string]string{}
	if err := patchStd(root, filepath.Join(verif, "overlay"), src, rep); err != nil {
		return nil, err
	}
	sites, files, err := instrumentRepo(repo, src, maps, rep)
	if err != nil {
		return nil, err
	}
	tags := "faketime"
	if prop == "C17" {
		// the example's program is part of the worker for its own check only
		tags += ",withfifo"
		n, err := instrumentProgram(filepath.Join(repo, "examples", "fifo"), "fifoapp", filepath.Join(verif, "worker", "fifoapp"), src, maps, rep)
		if err != nil {
			return nil, err
		}
		sites += n
		files = append(files, "examples/fifo")
	}
	if prop == "C22" {
		tags += ",withcli"
		n, l, err := instrumentCli(repo, filepath.Join(verif, "worker"), src, maps, rep)
		if err != nil {
			return nil, err
		}
		sites += n
		files = append(files, l...)
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	// the worker's module file: the repository's requirements plus the repository itself
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var lines []string
	modpath := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(l, "module ") {
			modpath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
			continue
		}
		if strings.HasPrefix(l, "go ") || strings.HasPrefix(l, "toolchain ") {
			continue
		}
		lines = append(lines, l)
	}
	m := "module jlibverif/worker\n\ngo 1.23\n\nrequire " + modpath + " v0.0.0\n\nreplace " + modpath + " => " + repo + "\n" + strings.Join(lines, "\n")
	modf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(modf, []byte(m), 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "simworker")
	os.Remove(bin)
	cmd := exec.Command(filepath.Join(root, "bin", "go"), "build", "-mod=mod", "-modfile="+modf, "-tags", tags, "-overlay", ovf, "-o", bin, ".")
	cmd.Dir = filepath.Join(verif, "worker")
	cmd.Env = append(cleanEnv(), "GOROOT="+root, "CGO_ENABLED=0", "GOPROXY=off", "GOFLAGS=", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOEXPERIMENT=")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("build: %v\n%s", err, out)
	}
	return &Build{Bin: bin, Sites: sites, Files: files}, nil
}

func cleanEnv() []string {
	var l []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOFLAGS", "GOROOT", "GODEBUG", "GOEXPERIMENT", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GOTRACEBACK", "CGO_ENABLED", "GOTOOLCHAIN", "GOWORK", "GOPROXY", "GOSUMDB":
			continue
		}
		l = append(l, e)
	}
	return l
}
