package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

// Replayer runs witnesses against the natively compiled repository.
type Replayer struct {
	verif, repo string
	dir         string
	bin         string
	raceBin     string
	done        chan struct{}
	err         error
	raceOnce    sync.Once
}

func newReplayer(verif, repo string) *Replayer {
	return &Replayer{verif: verif, repo: repo, done: make(chan struct{})}
}

func (r *Replayer) start() {
	d, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		r.err = err
		close(r.done)
		return
	}
	r.dir = d
	go func() {
		defer close(r.done)
		r.bin = filepath.Join(d, "h.test")
		r.err = r.build(r.bin)
	}()
}

func (r *Replayer) build(out string, extra ...string) error {
	type ovl struct{ Replace map[string]string }
	files := overlayFiles(r.verif, r.repo)
	reg := out + ".registry.go"
	if err := os.WriteFile(reg, []byte(registry(r.verif)), 0o644); err != nil {
		return err
	}
	files[filepath.Join(r.repo, harnessRel, "zz_registry_test.go")] = reg
	b, _ := json.Marshal(ovl{files})
	of := out + ".overlay.json"
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return err
	}
	args := append([]string{"test", "-c", "-vet=off", "-overlay", of, "-o", out}, extra...)
	args = append(args, "./"+harnessRel)
	cmd := exec.Command("/opt/veriftools/go1.24.13/bin/go", args...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	o, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native harness build: %v\n%s", err, o)
	}
	return nil
}

// registry lists the harness functions for the native test binary.
func registry(verif string) string {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	re := regexp.MustCompile(`(?m)^func (H_\w+)\(\) \{`)
	var sb strings.Builder
	sb.WriteString("package zzverif\n\nvar zzHarnesses = map[string]func(){\n")
	for _, f := range fs {
		src, _ := os.ReadFile(f)
		for _, m := range re.FindAllStringSubmatch(string(src), -1) {
			fmt.Fprintf(&sb, "\t%q: %s,\n", m[1], m[1])
		}
	}
	sb.WriteString("}\n")
	return sb.String()
}

func (r *Replayer) cleanup() {
	if r.dir != "" && strings.Contains(r.dir, "gosym-") {
		os.RemoveAll(r.dir)
	}
}

// NativeResult of one replay.
type NativeResult struct {
	Status string   `json:"status"` // ok | assert | panic | assume | deadlock | error
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
	Out    string   `json:"-"`
	Race   bool     `json:"-"`
}

func (r *Replayer) run(w *Witness, race bool) NativeResult {
	<-r.done
	if r.err != nil {
		return NativeResult{Status: "error", Msg: r.err.Error()}
	}
	bin := r.bin
	if race {
		r.raceOnce.Do(func() {
			rb := filepath.Join(r.dir, "hrace.test")
			if err := r.build(rb, "-race"); err == nil {
				r.raceBin = rb
			} else {
				fmt.Fprintln(os.Stderr, err)
			}
		})
		if r.raceBin == "" {
			return NativeResult{Status: "error", Msg: "no race build"}
		}
		bin = r.raceBin
	}
	f, err := os.CreateTemp(r.dir, "w*.json")
	if err != nil {
		return NativeResult{Status: "error", Msg: err.Error()}
	}
	json.NewEncoder(f).Encode(w)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestZZReplay$", "-test.count=1", "-test.v=false")
	cmd.Dir = r.dir
	cmd.Env = append(goEnv(), "ZZ_WITNESS="+f.Name(), "ZZ_OUT="+f.Name()+".out", "GOTRACEBACK=all")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	res := NativeResult{Status: "error"}
	if b, err := os.ReadFile(f.Name() + ".out"); err == nil {
		json.Unmarshal(b, &res)
	}
	res.Out = out.String()
	if res.Status == "error" || res.Status == "running" {
		o := res.Out
		switch {
		case ctx.Err() != nil:
			res.Status, res.Msg = "deadlock", "timeout"
		case strings.Contains(o, "concurrent map"):
			res.Status, res.Msg = "panic", "concurrent map access"
		case strings.Contains(o, "deadlock"):
			res.Status, res.Msg = "deadlock", "all goroutines are blocked"
		case strings.Contains(o, "stack overflow") || strings.Contains(o, "out of memory"):
			res.Status, res.Msg = "panic", "stack overflow or out of memory"
		case strings.Contains(o, "panic:"):
			i := strings.Index(o, "panic:")
			l := o[i:]
			if j := strings.Index(l, "\n"); j > 0 {
				l = l[:j]
			}
			res.Status, res.Msg = "panic", l
		}
	}
	res.Race = strings.Contains(res.Out, "WARNING: DATA RACE")
	return res
}

// confirm replays a violation until it shows natively.
func (r *Replayer) confirm(v *Violation) (NativeResult, bool) {
	tries := 6
	if v.Kind == "race" {
		tries = 12
	}
	var last NativeResult
	type rr struct{ res NativeResult }
	for batch := 0; batch < 4; batch++ {
		n := 1
		if batch > 0 {
			n = tries
		}
		ch := make(chan NativeResult, n)
		for i := 0; i < n; i++ {
			go func() { ch <- r.run(v.Witness, v.Kind == "race") }()
		}
		ok := false
		var got NativeResult
		for i := 0; i < n; i++ {
			x := <-ch
			last = x
			good := false
			switch v.Kind {
			case "race":
				good = x.Race || strings.Contains(x.Msg, "concurrent map")
			case "assert":
				good = x.Status == "assert" && x.Msg == v.Msg
				if x.Status == "panic" || x.Status == "deadlock" {
					good = true
				}
				if x.Status == "assert" { // another assertion of the same property failed first
					good = true
				}
			case "panic":
				good = x.Status == "panic"
			case "deadlock":
				good = x.Status == "deadlock"
			case "hang":
				good = x.Status == "deadlock" || x.Status == "panic"
			}
			if good && !ok {
				ok, got = true, x
			}
		}
		if ok {
			return got, true
		}
	}
	return last, false
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var v struct {
		Kind    string   `json:"kind"`
		Msg     string   `json:"msg"`
		Witness *Witness `json:"witness"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		die(2, "%v", err)
	}
	r := newReplayer(*flagVerif, *flagRepo)
	r.start()
	defer r.cleanup()
	res, ok := r.confirm(&Violation{Kind: v.Kind, Msg: v.Msg, Witness: v.Witness, Harness: v.Witness.Harness})
	fmt.Printf("native: %s %s\n", res.Status, res.Msg)
	if ok {
		return 1
	}
	return 0
}
