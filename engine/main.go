package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	flagProp    = flag.String("prop", "", "property id")
	flagTier    = flag.String("tier", "quick", "quick or thorough")
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagVerif   = flag.String("verif", "", "verification directory")
	flagH       = flag.String("harness", "", "only harnesses whose name contains this")
	flagWorkers = flag.Int("j", runtime.NumCPU(), "workers")
	flagBudget  = flag.Duration("budget", 0, "time budget for all harnesses")
	flagNoRep   = flag.Bool("noreplay", false, "skip native replay")
	flagMaxP    = flag.Int64("maxpaths", 0, "path limit per harness")
	flagV       = flag.Bool("v", false, "verbose")
	flagReplay  = flag.String("replay", "", "replay one witness file natively")
	flagProf    = flag.String("cpuprofile", "", "write a CPU profile")
	flagSolver  = flag.String("solver", "z3-new", "solver binary")
)

const harnessRel = "internal/zzverif"

func goEnv() []string {
	root := "/opt/veriftools/go1.24.13"
	var out []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "GO111MODULE", "GOEXPERIMENT":
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(out, "GOROOT="+root, "PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOEXPERIMENT=synctest",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
}

// overlayFiles maps files in the repository tree to harness sources.
func overlayFiles(verif, repo string) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			m[filepath.Join(repo, harnessRel, rel)] = p
		}
		return nil
	})
	return m
}

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func loadProgram(verif, repo string) *Program {
	ov := map[string][]byte{}
	for d, s := range overlayFiles(verif, repo) {
		if strings.HasSuffix(d, "_test.go") {
			continue
		}
		b, err := os.ReadFile(s)
		if err != nil {
			die(2, "%v", err)
		}
		ov[d] = b
	}
	mp := modPath(repo)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: goEnv(), Overlay: ov, Tests: false}
	pkgs, err := packages.Load(cfg, mp+"/"+harnessRel)
	if err != nil {
		die(2, "load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, mp) {
			for _, e := range p.Errors {
				fmt.Fprintln(os.Stderr, e)
				bad = true
			}
		}
	})
	if bad {
		die(2, "the repository or the harness does not compile")
	}
	prog, initial := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{ssa: prog, pkgs: map[string]*ssa.Package{}, modPath: mp, harnessP: initial[0]}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	pr.modInit = []*ssa.Package{pr.harnessP}
	iface := func(path, name string) *types.Interface {
		pk := pr.pkgs[path]
		if pk == nil {
			return types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "zz·never", types.NewSignatureType(nil, nil, nil, nil, nil, false))}, nil).Complete()
		}
		return pk.Pkg.Scope().Lookup(name).Type().Underlying().(*types.Interface)
	}
	rtErr = canon(pr.pkgs["runtime"].Pkg.Scope().Lookup("errorString").Type())
	errStringType = pr.namedPtr("errors", "errorString")
	rtypeT = pr.namedPtr("reflect", "rtype")
	reflectPkg = pr.pkgs["reflect"].Pkg
	jsonMarshaler = iface("encoding/json", "Marshaler")
	jsonUnmarshaler = iface("encoding/json", "Unmarshaler")
	textMarshaler = iface("encoding", "TextMarshaler")
	textUnmarshaler = iface("encoding", "TextUnmarshaler")
	yamlMarshaler = iface(yamlPkg, "Marshaler")
	yamlUnmarshaler = iface(yamlPkg, "Unmarshaler")
	binMarshaler = iface("encoding", "BinaryMarshaler")
	binUnmarshaler = iface("encoding", "BinaryUnmarshaler")
	mp5 := "github.com/vmihailenco/msgpack/v5"
	mpMarshaler = iface(mp5, "Marshaler")
	mpUnmarshaler = iface(mp5, "Unmarshaler")
	mpCustomEnc = iface(mp5, "CustomEncoder")
	mpCustomDec = iface(mp5, "CustomDecoder")
	anyT := types.NewInterfaceType(nil, nil).Complete()
	mapAnyT = canon(types.NewMap(types.Typ[types.String], anyT))
	sliceAnyT = canon(types.NewSlice(anyT))
	pr.timeLocal, _ = pr.pkgs["time"].Members["Local"].(*ssa.Global)
	pr.initJwx()
	pr.initHTTP()
	return pr
}

func modPath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die(2, "%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(l[7:])
		}
	}
	die(2, "no module path")
	return ""
}

func main() {
	flag.Parse()
	for _, e := range goEnv() {
		if k, v, ok := strings.Cut(e, "="); ok && (k == "PATH" || k == "GOROOT") {
			os.Setenv(k, v)
		}
	}
	if *flagVerif == "" {
		e, _ := os.Executable()
		*flagVerif = filepath.Dir(filepath.Dir(e))
	}
	solverBin = *flagSolver
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(14 << 30)
	if *flagProf != "" {
		f, _ := os.Create(*flagProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *flagReplay != "" {
		os.Exit(replayMain(*flagReplay))
	}
	t0 := time.Now()
	rep := newReplayer(*flagVerif, *flagRepo)
	if !*flagNoRep {
		rep.start()
	}
	pr := loadProgram(*flagVerif, *flagRepo)
	loadT := time.Since(t0)
	var names []string
	pre := "H_" + *flagProp + "_"
	for n, m := range pr.harnessP.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, pre) && strings.Contains(n, *flagH) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		die(2, "no harness for %s", *flagProp)
	}
	budget := *flagBudget
	if budget == 0 {
		budget = 240 * time.Second
		if *flagTier == "thorough" {
			budget = 720 * time.Second
		}
	}
	var all []*HarnessStats
	ev := &Evidence{prop: *flagProp, tier: *flagTier, verif: *flagVerif}
	left := budget
	for i, n := range names {
		share := left / time.Duration(len(names)-i)
		if len(names)-i > 1 {
			share = share * 3 / 2
			if share > left {
				share = left
			}
		}
		ex := &Explorer{prog: pr, harness: n, tier: *flagTier, nw: *flagWorkers, maxPaths: *flagMaxP, deadline: time.Now().Add(share), maxViol: 20}
		hs := time.Now()
		st := ex.Run()
		left -= time.Since(hs)
		ev.queries += ex.queries
		ev.sat += ex.sat
		ev.unsat += ex.unsat
		ev.unknown += ex.unknown
		ev.solverNs += ex.solverTime
		all = append(all, st)
		ss := "complete"
		if !st.Exhausted {
			ss = "stopped: " + st.Stopped
		}
		fmt.Printf("%s: paths=%d done=%d infeasible=%d branches=%d asserts=%d(sym %d) viol=%d covers=%v %.1fs %s\n", n, st.Paths, st.Done, st.Infeasible, st.Branches, st.Asserts, st.AssertSym, len(st.Violations), keysOf(st.Covers), st.Elapsed.Seconds(), ss)
		var us []string
		for u, c := range st.Unsupported {
			us = append(us, fmt.Sprintf("%6d %s", c, u))
		}
		sort.Strings(us)
		for i, u := range us {
			if i < 8 || *flagV {
				fmt.Println("   ", u)
			}
		}
	}
	if *flagNoRep {
		for _, st := range all {
			for _, v := range st.Violations {
				b, _ := json.Marshal(v.Witness)
				fmt.Println("MODEL-VIOLATION", v.Harness, v.Kind, v.Msg, string(b))
			}
			if *flagV {
				for _, w := range st.Witnesses {
					b, _ := json.Marshal(w)
					fmt.Println("WITNESS", string(b))
				}
			}
		}
		return
	}
	code := ev.conclude(all, rep, t0, loadT)
	rep.cleanup()
	os.Exit(code)
}

func keysOf(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = exec.Command
