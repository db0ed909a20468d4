package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
)

var debugOn = os.Getenv("GOSYM_DEBUG") != ""

// runPath executes the harness along one decision prefix.
func (w *Worker) runPath(wk Work) {
	e := w.ex
	p := &Path{w: w, e: e, bank: w.bank, prefix: wk.prefix, model: wk.model.clone(),
		pcSet: map[*Term]bool{}, names: map[string]int{}, bounds: map[*Term][2]int64{},
		covers: map[string]bool{}, side: map[*Value]any{}, budget: 30_000_000, clock: int64(clockStart)}
	w.globals.mod = map[globKey]*Value{}
	p.sched = newSched(p)
	st := e.st
	why := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				why = x.why
			case unsupported:
				why = "unsupported"
				at := ""
				if p.lastFn != nil {
					at = p.lastFn.name + " < " + p.lastFr.trace()
				}
				p.note("unsupported: " + x.msg + " at " + firstModule(at))
				if x.msg == "step budget" || x.msg == "too many goroutines" || strings.HasPrefix(x.msg, "call depth") {
					p.violation("hang", "the execution does not terminate", p.model)
				} else {
					p.unfinished(x.msg + " at " + firstModule(at))
				}
				if debugOn {
					fmt.Fprintln(os.Stderr, "UNSUPPORTED", x.msg, at)
				}
			case targetPanic:
				why = "panic"
				p.violation("panic", panicText(x), p.model)
				if debugOn {
					fmt.Fprintln(os.Stderr, "PANIC", panicText(x), x.tr)
				}
			case deadlock:
				why = "deadlock"
				p.violation("deadlock", "all goroutines are blocked", p.model)
			default:
				why = "unsupported"
				s := string(debug.Stack())
				if !debugOn {
					s = firstFrames(s)
				} else {
					fmt.Fprintln(os.Stderr, "INTERNAL", r, s)
				}
				at := ""
				if p.lastFn != nil {
					at = p.lastFn.name + " < " + p.lastFr.trace()
				}
				if debugOn {
					fmt.Fprintln(os.Stderr, "IN", at)
				}
				p.note(fmt.Sprintf("internal: %v at %s", r, s))
				p.unfinished(fmt.Sprint(r))
			}
		}()
		fr := &Frame{p: p, g: p.sched.main, info: &fnInfo{name: "root"}}
		p.initModule(fr)
		p.baseSteps = p.steps
		fn := w.prog.harnessP.Func(e.harness)
		fr.callInfo(w.prog.info(fn), nil, nil)
		why = "done"
	}()
	p.sched.finish()
	if p.pushed {
		w.sol.Pop()
	}
	atomic.AddInt64(&st.Paths, 1)
	atomic.AddInt64(&st.Decisions, int64(len(p.decs)))
	atomic.AddInt64(&st.Branches, p.nbr)
	atomic.AddInt64(&st.Choices, p.nch)
	atomic.AddInt64(&st.Asserts, p.asserts)
	atomic.AddInt64(&st.AssertSym, p.assertSym)
	atomic.AddInt64(&st.Steps, p.steps-p.baseSteps)
	e.mu.Lock()
	if len(p.decs) > st.maxDepth {
		st.maxDepth = len(p.decs)
	}
	switch why {
	case "done":
		for c := range p.covers {
			st.Covers[c]++
		}
		st.Done++
		n := st.Done
		if !p.violated && len(st.Witnesses) < 24 && (n <= 4 || n&(n-1) == 0 || n%257 == 0) {
			wt := p.witness(p.model)
			wt.OK = true
			for c := range p.covers {
				wt.Covers = append(wt.Covers, c)
			}
			for _, o := range p.obs {
				wt.Obs = append(wt.Obs, o.label+"="+p.showObs(o.v))
			}
			wt.exact = true
			st.Witnesses = append(st.Witnesses, wt)
		}
	case "assume", "infeasible":
		st.Infeasible++
	}
	np := st.Paths
	e.mu.Unlock()
	if e.maxPaths > 0 && np >= e.maxPaths {
		e.halt("path budget")
	}
}

// unfinished keeps the input of a path the encoding could not finish, so that
// it is at least executed natively.
func (p *Path) unfinished(why string) {
	e := p.e
	e.mu.Lock()
	defer e.mu.Unlock()
	k := "unfinished:" + why
	e.st.violCount[k]++
	if e.st.violCount[k] > 6 || len(e.st.Unfinished) >= 24 {
		return
	}
	w := p.witness(p.model)
	w.partial = true
	e.st.Unfinished = append(e.st.Unfinished, w)
}

func firstFrames(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/engine/") {
			l = l[strings.LastIndex(l, "/")+1:]
			if i := strings.Index(l, " "); i > 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) > 6 {
				break
			}
		}
	}
	return strings.Join(out, " ")
}

func panicText(x targetPanic) string {
	s := ""
	xv, _ := x.v.(Iface)
	switch v := xv.v.(type) {
	case string:
		s = v
	default:
		if xv.t != nil {
			s = xv.t.String()
		}
		if sv, ok := xv.v.(Struct); ok && len(sv) > 0 {
			if str, ok := sv[0].(string); ok {
				s += " " + str
			}
		}
	}
	at := x.tr
	if i := strings.Index(at, " < "); i > 0 {
		at = at[:i]
	}
	return s + " in " + at
}

// showObs renders an observed value under the path's model.
func (p *Path) showObs(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return p.showObs(x.v)
	case bool, int64, float64:
		return fmt.Sprint(x)
	case string:
		return x
	case *Term:
		if x.w == 0 {
			return fmt.Sprint(p.eval(x) == 1)
		}
		if x.w == wFP {
			return fmt.Sprint(Model(p.model).f64(p, x))
		}
		return fmt.Sprint(sext(p.eval(x), x.w))
	case *SStr:
		s := ""
		for _, pc := range x.ps {
			switch pc.k {
			case pConst:
				s += pc.s
			case pByte:
				s += string([]byte{byte(p.eval(pc.t))})
			case pAtom:
				s += atomText(p.eval(pc.t))
			default:
				s += "<" + pc.h.kind + ">"
			}
		}
		return s
	case Slice:
		s := "["
		for i, e := range x {
			if i > 0 {
				s += " "
			}
			s += p.showObs(e)
		}
		return s + "]"
	}
	return fmt.Sprintf("<%T>", v)
}

func (m Model) f64(p *Path, t *Term) float64 { return f64bits(p.eval(t)) }

// initModule runs the initialisers of the module's packages.
func (p *Path) initModule(fr *Frame) {
	for _, pk := range p.w.prog.modInit {
		f := pk.Func("init")
		if f != nil {
			fr.callInfo(p.w.prog.info(f), nil, nil)
		}
	}
}

// firstModule shortens a trace to its innermost function and its innermost
// function of the verified module.
func firstModule(at string) string {
	fs := strings.Split(at, " < ")
	out := fs[0]
	for _, f := range fs[1:] {
		if strings.Contains(f, "go-oidfed") {
			return out + " in " + f
		}
	}
	return out
}
