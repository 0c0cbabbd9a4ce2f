package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/tg123/phabrik"
const gvPath = modPath + "/zzgv"

type Engine struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	repo  string
	order []*ssa.Package // own packages in init order

	feasMs, obMs, oneShotSec int
	maxSteps                 int
	maxPaths                 int
	maxWall                  time.Duration
	errStruct, errPtr        types.Type
	anyMapOrder              bool
	unroll                   int
	workers                  int

	hdrCache   sync.Map
	deferCache sync.Map
	depCache   sync.Map
	regCache   sync.Map
	pdCache    sync.Map
	solvers    chan *Solver
	noPrune    bool
}

// allowed dependency packages whose Go source is interpreted as is
var interpOK = map[string]bool{
	"errors": true, "io": true, "unicode/utf8": true, "math/bits": true, "strings": true, "sort": true,
	"bytes": true, "unicode": true, "encoding/hex": true, "slices": true, "cmp": true, "iter": true,
	"internal/stringslite": true, "internal/bytealg": true, "context": true, "internal/itoa": true, "math": true,
	"github.com/sigurn/crc8": true,
}

func loadEngine(repo string, overlay map[string][]byte) (*Engine, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pats := []string{"./transport", "./serialization", "./federation", "./lease", "./naming", "./common", "./zzgv"}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("the program with its specifications does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, repo: repo,
		feasMs: 2000, obMs: 3000, oneShotSec: 40, maxSteps: 3000000, maxPaths: 60000, maxWall: 400 * time.Second,
		anyMapOrder: true, unroll: 24, workers: 8}
	for _, p := range spkgs {
		if p != nil {
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if strings.HasPrefix(p.Path(), modPath) {
			if sp := prog.Package(p); sp != nil {
				e.order = append(e.order, sp)
			}
		}
	}
	var ps []string
	for k := range e.pkgs {
		ps = append(ps, k)
	}
	sort.Strings(ps)
	for _, k := range ps {
		visit(e.pkgs[k].Pkg)
	}
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "errors" {
			t := p.Type("errorString").Type()
			e.errStruct = t
			e.errPtr = types.NewPointer(t)
		}
	}
	return e, nil
}

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) ownPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (e *Engine) initOK(path string) bool { return interpOK[path] }

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) denied(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == "" {
		return false // synthetic wrapper
	}
	if strings.HasPrefix(p, modPath) {
		return false
	}
	if fn.Synthetic != "" && fn.Pkg == nil {
		return false // promoted-method wrapper
	}
	return !interpOK[p]
}

func (e *Engine) hasDefer(fn *ssa.Function) bool {
	if v, ok := e.deferCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	e.deferCache.Store(fn, r)
	return r
}

// loops of a function: header -> set of blocks
func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if v, ok := e.hdrCache.Load(fn); ok {
		return v.(map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool)
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := r[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					r[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	e.hdrCache.Store(fn, r)
	return r
}

func (e *Engine) isLoopHeader(b *ssa.BasicBlock) bool {
	_, ok := e.loopsOf(b.Parent())[b]
	return ok
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

// ---- obligations and failures

type Obl struct {
	Label      string
	mu         sync.Mutex
	Count      int
	Discharged int
	Backends   map[string]int
}

func (o *Obl) add(back string, ok bool) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.Count++
	if ok {
		o.Discharged++
		o.Backends[back]++
	}
}

type Failure struct {
	Harness string                 `json:"harness"`
	Label   string                 `json:"obligation"`
	Kind    string                 `json:"kind"`
	Where   string                 `json:"where"`
	Model   map[string]interface{} `json:"model,omitempty"`
	Detail  string                 `json:"detail"`
	Trace   []string               `json:"trace,omitempty"`
	pkg     string
}

type Run struct {
	root    *pathNode
	eng     *Engine
	name    string
	fn      *ssa.Function
	mu      sync.Mutex
	cond    *sync.Cond
	work    [][]int
	active  int
	stop    bool
	paths   int
	done    int
	obls    map[string]*Obl
	fails   []*Failure
	perLab  map[string]int
	covers  map[string]int
	contr   map[string]int
	nat     map[string]int
	funcs   map[string]int
	bounds  map[string]string
	assumes map[string]bool
	wall    time.Duration
	steps   int64
	cuts    map[string]*cutInfo // loops verified by induction
	cutsNew map[string]*cutInfo
	inducts map[string]bool
	rounds  int
}

func (r *Run) push(p []int) {
	r.mu.Lock()
	r.work = append(r.work, p)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) obligation(label string) *Obl {
	r.mu.Lock()
	defer r.mu.Unlock()
	o := r.obls[label]
	if o == nil {
		o = &Obl{Label: label, Backends: map[string]int{}}
		r.obls[label] = o
	}
	return o
}

func (r *Run) fail(f *Failure) {
	f.Harness = r.name
	r.mu.Lock()
	defer r.mu.Unlock()
	k := f.Label + "|" + f.Kind
	r.perLab[k]++
	if r.perLab[k] <= 3 {
		r.fails = append(r.fails, f)
	}
	if len(r.fails) >= 40 || r.perLab[k] > 60 {
		r.stop = true
	}
}

func (r *Run) count(m map[string]int, k string) {
	r.mu.Lock()
	m[k]++
	r.mu.Unlock()
}
func (r *Run) useContract(n string) { r.count(r.contr, n) }
func (r *Run) useNative(n string)   { r.count(r.nat, n) }
func (r *Run) useFunc(fn *ssa.Function) {
	if strings.HasPrefix(fnPkg(fn), modPath) && fnPkg(fn) != gvPath {
		r.count(r.funcs, fnName(fn))
	}
}
func (r *Run) bound(k, v string) {
	r.mu.Lock()
	r.bounds[k] = v
	r.mu.Unlock()
}
func (r *Run) assumption(s string) {
	r.mu.Lock()
	r.assumes[s] = true
	r.mu.Unlock()
}

func (e *Engine) getSolver() *Solver {
	select {
	case s := <-e.solvers:
		return s
	default:
		return NewSolver()
	}
}

func (e *Engine) verify(fn *ssa.Function) *Run {
	r := &Run{eng: e, name: fn.Name(), fn: fn, obls: map[string]*Obl{}, perLab: map[string]int{}, covers: map[string]int{},
		contr: map[string]int{}, nat: map[string]int{}, funcs: map[string]int{}, bounds: map[string]string{}, assumes: map[string]bool{}, cuts: map[string]*cutInfo{}, cutsNew: map[string]*cutInfo{}, inducts: map[string]bool{}}
	r.cond = sync.NewCond(&r.mu)
	t0 := time.Now()
	for {
		e.round(r, t0)
		r.rounds++
		if dbgCut {
			fmt.Fprintf(os.Stderr, "round %d of %s: %d paths\n", r.rounds, r.name, r.paths)
			for k, c := range r.cutsNew {
				fmt.Fprintf(os.Stderr, "  %s mods %v dropped %v\n", k, c.mods, c.dropped)
			}
		}
		if !r.cutMerge() || r.rounds > 60 || time.Since(t0) > e.maxWall {
			break
		}
		// what was found out about loops invalidates this round
		r.obls, r.perLab, r.covers, r.bounds, r.fails = map[string]*Obl{}, map[string]int{}, map[string]int{}, map[string]string{}, nil
		r.paths, r.done, r.stop, r.inducts = 0, 0, false, map[string]bool{}
	}
	if r.rounds > 60 {
		r.fail(&Failure{Label: "exploration completes", Kind: "undecided", Detail: "no fixpoint for the loops verified by induction"})
	}
	r.wall = time.Since(t0)
	e.vacuity(r, fn)
	return r
}

func (e *Engine) round(r *Run, t0 time.Time) {
	r.work = [][]int{{}}
	r.root = &pathNode{}
	if dbgCut {
		stop := make(chan bool)
		defer close(stop)
		go func() {
			for {
				select {
				case <-stop:
					return
				case <-time.After(5 * time.Second):
					r.mu.Lock()
					fmt.Fprintf(os.Stderr, "%s: %d paths, %d waiting, %d solver calls\n", r.name, r.paths, len(r.work), atomic.LoadInt64(&nChecks))
					r.mu.Unlock()
				}
			}
		}()
	}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var sol *Solver
			for {
				r.mu.Lock()
				for len(r.work) == 0 && r.active > 0 && !r.stop {
					r.cond.Wait()
				}
				if r.stop || len(r.work) == 0 {
					r.mu.Unlock()
					r.cond.Broadcast()
					break
				}
				p := r.work[len(r.work)-1]
				r.work = r.work[:len(r.work)-1]
				r.active++
				r.paths++
				over := r.paths > e.maxPaths || time.Since(t0) > e.maxWall
				r.mu.Unlock()
				if over {
					r.fail(&Failure{Label: "exploration completes", Kind: "undecided", Detail: fmt.Sprintf("path or time budget exhausted after %d paths, %v", r.paths, time.Since(t0).Round(time.Second))})
					r.mu.Lock()
					r.stop = true
					r.active--
					r.mu.Unlock()
					r.cond.Broadcast()
					break
				}
				if sol == nil {
					sol = e.getSolver()
				}
				e.runPath(r, p, sol)
				r.mu.Lock()
				r.active--
				r.mu.Unlock()
				r.cond.Broadcast()
			}
			if sol != nil {
				select {
				case e.solvers <- sol:
				default:
					sol.Close()
				}
			}
		}()
	}
	wg.Wait()
}

// vacuity guards
func (e *Engine) vacuity(r *Run, fn *ssa.Function) {
	if len(r.fails) == 0 {
		n := 0
		for _, o := range r.obls {
			n += o.Count
		}
		if n == 0 {
			r.fail(&Failure{Label: "generates obligations", Kind: "vacuous", Detail: "no obligation was generated"})
		}
		for _, c := range coverLabels(fn, map[*ssa.Function]bool{}) {
			if r.covers[c] == 0 {
				r.fail(&Failure{Label: "reachable: " + c, Kind: "vacuous", Detail: "the situation the specification describes is never reached"})
			}
		}
	}
}

// coverLabels: constant arguments of gv.Cover in a function and its closures
func coverLabels(fn *ssa.Function, seen map[*ssa.Function]bool) []string {
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var c *ssa.CallCommon
			if ci, ok := in.(ssa.CallInstruction); ok {
				c = ci.Common()
			}
			if c == nil {
				continue
			}
			if f := c.StaticCallee(); f != nil {
				if isGv(f) && f.Name() == "Cover" {
					if k, ok := c.Args[0].(*ssa.Const); ok {
						s := k.Value.ExactString()
						out = append(out, strings.Trim(s, "\""))
					}
				} else if strings.HasPrefix(f.Name(), "gvx") { // shared specification helpers
					out = append(out, coverLabels(f, seen)...)
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		out = append(out, coverLabels(a, seen)...)
	}
	return out
}

var pathN, nChecks int64
var dbgCut = os.Getenv("GV_DBGCUT") != ""

func (e *Engine) runPath(r *Run, prefix []int, sol *Solver) {
	ts := NewTermStore()
	sol.Reset(ts)
	st := &State{eng: e, run: r, ts: ts, sol: sol, pcset: map[*Term]bool{}, prefix: prefix, node: r.root, nfresh: map[string]int{}, drawIdx: map[string]int{},
		globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]bool{}, contracts: map[string]*Closure{}, bodyOnce: map[string]int{},
		facts: map[string]bool{}, nat: map[string]Value{}, covers: map[string]bool{}, uniqErr: map[string]IfaceV{}}
	main := st.newThread("main")
	st.cur = main
	finished := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if tp, ok := x.(*threadPanic); ok {
					x = tp.p
				}
				switch p := x.(type) {
				case pathKill:
					finished = p.why == "end" || p.why == "cut"
				case *unsupportedErr:
					r.fail(&Failure{Label: "within the verified subset", Kind: "unsupported", Detail: p.msg})
				case *goPanic:
					// uncaught panic
					func() {
						defer func() {
							if y := recover(); y != nil {
								if _, ok := y.(pathKill); !ok {
									panic(y)
								}
							}
						}()
						msg := p.rt
						if msg == "" {
							msg = st.describePanic(p.val)
						}
						st.trace = append(st.trace, "panic: "+msg+" at "+p.pos)
						st.Oblige("no run-time panic", ts.Fals)
					}()
				default:
					r.fail(&Failure{Label: "within the verified subset", Kind: "unsupported", Detail: fmt.Sprintf("internal error: %v at %s\n%s", x, st.where(), firstLines(string(debug.Stack()), 40))})
				}
			}
		}()
		for _, p := range e.order {
			st.inited[p] = true
		}
		dep := e.depsOf(r.fn.Pkg.Pkg)
		for _, p := range e.order {
			if !dep[p.Pkg] {
				continue
			}
			if init := p.Func("init"); init != nil {
				st.runInit(p, init)
			}
		}
		st.callFn(r.fn, nil, nil, nil, nil)
		finished = true
	}()
	st.killThreads()
	if finished {
		if st.pos < len(st.prefix) {
			r.fail(&Failure{Label: "within the verified subset", Kind: "unsupported", Detail: "replay of decisions out of step"})
		}
		r.obligation("no run-time panic").add("path", true)
		r.mu.Lock()
		r.done++
		for c := range st.covers {
			r.covers[c]++
		}
		r.mu.Unlock()
	}
	r.mu.Lock()
	r.steps += int64(st.steps)
	r.mu.Unlock()
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (st *State) describePanic(v IfaceV) string {
	if v.t == nil {
		return "nil"
	}
	return st.describe(v)
}

// runInit executes the initialiser of an own package (dependencies first)
func (st *State) runInit(p *ssa.Package, init *ssa.Function) {
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			st.global(g)
		}
	}
	st.runFunc(init, nil, nil, nil)
}

// depsOf: the package and everything it imports, transitively
func (e *Engine) depsOf(p *types.Package) map[*types.Package]bool {
	if v, ok := e.depCache.Load(p); ok {
		return v.(map[*types.Package]bool)
	}
	m := map[*types.Package]bool{}
	var f func(q *types.Package)
	f = func(q *types.Package) {
		if m[q] {
			return
		}
		m[q] = true
		for _, i := range q.Imports() {
			f(i)
		}
	}
	f(p)
	e.depCache.Store(p, m)
	return m
}
