package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Evidence struct {
	prop, tier, verif                      string
	queries, sat, unsat, unknown, solverNs int64
}

// known findings: lines "finding: property=<id> harness=<h> match=<regexp> :: <text>"
type finding struct {
	prop, harness string
	re            *regexp.Regexp
	text          string
}

func loadFindings(verif string) []finding {
	f, err := os.Open(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) match=(.*) :: (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil {
			out = append(out, finding{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return out
}

func (ev *Evidence) conclude(all []*HarnessStats, rep *Replayer, t0 time.Time, loadT time.Duration) int {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	finds := loadFindings(ev.verif)
	var vio []string
	known := map[string]bool{}
	var unconf []string
	var mu sync.Mutex
	replayed, agreed := 0, 0
	var mismatch []string
	// confirm violations
	outDir := filepath.Join(ev.verif, "evidence", "replay")
	os.MkdirAll(outDir, 0o755)
	if old, err := filepath.Glob(filepath.Join(outDir, ev.prop+"-*.json")); err == nil {
		for _, o := range old {
			os.Remove(o)
		}
	}
	nv := 0
	for _, st := range all {
		confirmedKinds := map[string]bool{}
		for _, v := range st.Violations {
			key := v.Kind + v.Msg
			if confirmedKinds[key] || nv > 12 {
				continue
			}
			res, ok := rep.confirm(v)
			if !ok {
				b, _ := json.Marshal(v.Witness)
				if *flagV {
					fmt.Printf("UNCONFIRMED %s %s %s native=%s %s\n  %s\n%s\n", v.Harness, v.Kind, v.Msg, res.Status, res.Msg, b, tail(res.Out, 2000))
				}
				unconf = append(unconf, fmt.Sprintf("%s %s %s (native: %s %s)", v.Harness, v.Kind, v.Msg, res.Status, res.Msg))
				continue
			}
			confirmedKinds[key] = true
			msg := v.Kind + ": " + v.Msg
			isKnown := false
			for _, f := range finds {
				if f.prop == ev.prop && f.harness == v.Harness && f.re.MatchString(msg) {
					known[f.text] = true
					isKnown = true
				}
			}
			if isKnown {
				continue
			}
			nv++
			p := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", ev.prop, nv))
			b, _ := json.MarshalIndent(map[string]any{"property": ev.prop, "harness": v.Harness, "kind": v.Kind, "msg": v.Msg, "witness": v.Witness,
				"native": map[string]any{"status": res.Status, "msg": res.Msg}}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("  %s %s: %s\n", v.Harness, msg, "native replay: "+res.Status+" "+res.Msg)
			vio = append(vio, p)
		}
	}
	// validate sampled paths natively
	type job struct{ w *Witness }
	var jobs []*Witness
	for _, st := range all {
		n := 0
		for _, w := range st.Witnesses {
			if n >= 16 {
				break
			}
			jobs = append(jobs, w)
			n++
		}
	}
	if len(jobs) > 160 {
		jobs = jobs[:160]
	}
	for _, st := range all {
		jobs = append(jobs, st.Unfinished...)
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, w := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := rep.run(w, false)
			mu.Lock()
			defer mu.Unlock()
			replayed++
			why := ""
			if w.partial && (r.Status == "ok" || r.Status == "assume") {
				replayed--
				return
			}
			if r.Status != "ok" {
				why = r.Status + " " + r.Msg
			} else {
				sort.Strings(r.Covers)
				sort.Strings(w.Covers)
				if strings.Join(r.Covers, ",") != strings.Join(w.Covers, ",") {
					why = fmt.Sprintf("covers native=%v model=%v", r.Covers, w.Covers)
				} else if strings.Join(r.Obs, "\n") != strings.Join(w.Obs, "\n") {
					why = fmt.Sprintf("obs native=%v model=%v", r.Obs, w.Obs)
				}
			}
			if why == "" {
				agreed++
			} else {
				b, _ := json.Marshal(w)
				mismatch = append(mismatch, w.Harness+": "+why)
				if *flagV {
					fmt.Printf("MISMATCH %s %s\n  %s\n%s\n", w.Harness, why, b, tail(r.Out, 1500))
				}
				// a sampled path that fails natively is itself a failing execution of the real code
				if r.Status == "assert" || r.Status == "panic" || r.Status == "deadlock" {
					v := &Violation{Harness: w.Harness, Kind: r.Status, Msg: r.Msg, Witness: w}
					msg := v.Kind + ": " + v.Msg
					for _, f := range finds {
						if f.prop == ev.prop && f.harness == v.Harness && f.re.MatchString(msg) {
							known[f.text] = true
							return
						}
					}
					// require reproducibility
					r2 := rep.run(w, false)
					if r2.Status == r.Status {
						nv++
						p := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", ev.prop, nv))
						bb, _ := json.MarshalIndent(map[string]any{"property": ev.prop, "harness": v.Harness, "kind": v.Kind, "msg": v.Msg, "witness": w}, "", " ")
						os.WriteFile(p, bb, 0o644)
						vio = append(vio, p)
						fmt.Printf("  %s %s (native execution of a solver-generated path)\n", w.Harness, msg)
					}
				}
			}
		}()
	}
	wg.Wait()

	funcs := map[string]bool{}
	bounds := map[string]int64{}
	uns := map[string]int64{}
	harn := map[string]any{}
	var paths, branches, choices, asserts, steps, infeasible, assertSym int64
	var samples []any
	complete := true
	for _, st := range all {
		for f := range st.Funcs {
			if !strings.Contains(f, "/zzverif") {
				funcs[f] = true
			}
		}
		for b, v := range st.Bounds {
			bounds[st.Name+"."+b] = v
		}
		for u, c := range st.Unsupported {
			uns[u] += c
		}
		paths += st.Paths
		branches += st.Branches
		choices += st.Choices
		asserts += st.Asserts
		assertSym += st.AssertSym
		steps += st.Steps
		infeasible += st.Infeasible
		if !st.Exhausted {
			complete = false
		}
		harn[st.Name] = map[string]any{"paths": st.Paths, "completed": st.Done, "pruned": st.Infeasible, "exhausted_within_bounds": st.Exhausted, "stopped": st.Stopped,
			"covers": st.Covers, "asserts": st.Asserts, "asserts_decided_by_solver": st.AssertSym, "max_depth": st.maxDepth, "seconds": st.Elapsed.Seconds()}
		for i, w := range st.Witnesses {
			if i < 2 && len(samples) < 24 {
				samples = append(samples, w)
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   branches + choices,
		"traces_validated_against_impl": agreed,
		"traces_replayed":               replayed,
		"samples":                       samples,
		"exhaustive":                    complete && len(uns) == 0,
		"functions_encoded":             fl,
		"functions_encoded_count":       len(fl),
		"bounds":                        bounds,
		"instructions_executed":         steps,
		"assertions_checked":            asserts,
		"assertions_decided_by_solver":  assertSym,
		"paths_pruned_by_assumptions":   infeasible,
		"queries":                       ev.queries,
		"queries_sat":                   ev.sat,
		"queries_unsat":                 ev.unsat,
		"queries_unknown":               ev.unknown,
		"solver_seconds":                float64(ev.solverNs) / 1e9,
		"solver":                        solverBin,
		"load_seconds":                  loadT.Seconds(),
		"outside_encoding":              uns,
		"harnesses":                     harn,
		"unconfirmed_counterexamples":   unconf,
		"replay_mismatches":             mismatch,
	}
	if rep.err != nil {
		cov["replay_error"] = rep.err.Error()
	}
	doc := map[string]any{"property": ev.prop, "tier": ev.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(vio),
		"assumptions": []string{
			"cryptography is ideal: a signature made with key k verifies exactly under k, distinct signing operations give distinct tokens, hashes are injective",
			"HTTP, clock, key generation and logging are replaced by models; encoding/json and msgpack reflection are modelled, the repository's own marshalers run for real",
			"symbolic words range over non-empty strings of [A-Za-z0-9_-]; lengths of collections are bounded as listed",
		}}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev.verif, "evidence", ev.prop+".json"), b, 0o644)

	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ev.prop, k)
	}
	for _, u := range unconf {
		fmt.Println("unconfirmed model counterexample (not reported):", u)
	}
	for i, m := range mismatch {
		if i < 10 {
			fmt.Println("replay mismatch:", m)
		}
	}
	fmt.Printf("%s %s: paths=%d queries=%d solver=%.1fs replayed=%d agreed=%d wall=%.1fs\n", ev.prop, ev.tier, paths, ev.queries, float64(ev.solverNs)/1e9, replayed, agreed, time.Since(t0).Seconds())
	if rep.err != nil {
		fmt.Println(rep.err)
		return 2
	}
	for i, p := range vio {
		if i < 5 {
			rel, err := filepath.Rel(ev.verif, p)
			if err != nil {
				rel = p
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", ev.prop, rel)
		}
	}
	if len(vio) > 0 {
		return 1
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
