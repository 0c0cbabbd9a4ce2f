package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type pathKill struct{ why string }
type unsupportedErr struct{ msg string }
type goPanic struct {
	val IfaceV
	rt  string // non-empty for run-time errors
	pos string
}
type threadKill struct{}

// Draw is a named input of a specification
type Draw struct {
	Name string
	Kind string
	T    *Term
	Q    *Seq
	Abs  func(ev *Solver) interface{}
}

type State struct {
	eng *Engine
	run *Run
	ts  *TermStore
	sol *Solver

	pc      []*Term
	pcset   map[*Term]bool
	sent    int // facts already asserted in the solver
	prefix  []int
	pos     int
	node    *pathNode
	qn      int // solver questions since the last choice
	steps   int
	nfresh  map[string]int
	nobj    int
	draws   []*Draw
	drawIdx map[string]int
	globals map[*ssa.Global]*Obj
	inited  map[*ssa.Package]bool

	threads  []*Thread
	cur      *Thread
	abort    interface{}
	preempt  bool
	oneOrder bool
	atomicN  int

	contracts map[string]*Closure // function name -> summary
	bodyOnce  map[string]int
	notePos   string
	trace     []string
	facts     map[string]bool // one-time axioms
	depth     int
	allocLim  *Closure
	nat       map[string]Value // per-path native globals
	writeLog  []*writeRec
	loops     []*loopCtx
	covers    map[string]bool
	hashes    []hashCall
	objs      []*Obj
	maps      []*MapObj
	chans     []*ChanObj
	siteN     map[siteKey]int
	cutOn     bool
	cutOnly   []string
	cuts      []*cutCtx
	invs      map[string]*Closure
	nocheck   int
	validC    map[*Term]int8 // cache for the current pc length
	validCn   int
	uniqErr   map[string]IfaceV
	clock     int
	events    []string
	budget    int
	budget0   int
	unroll    int
	pure      int   // > 0: inside a merged region, no effects and no forks
	guard     *Term // condition of the merged block being evaluated
}

type writeRec struct {
	since int
	locs  []Ptr
}

type Thread struct {
	id     int
	st     *State
	resume chan struct{}
	done   bool
	ready  func() bool // nil: runnable
	what   string
	name   string
	killed bool
	frames []*Frame
	panicV *goPanic
	selw   *selWait
	idle   bool
	stuck  bool
}

func hashStr(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

var tsMu sync.Mutex
var tsCache sync.Map

func typeString(t types.Type) string {
	if s, ok := tsCache.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	tsCache.Store(t, s)
	return s
}

func (st *State) unsupported(f string, a ...interface{}) {
	panic(&unsupportedErr{fmt.Sprintf(f, a...) + " at " + st.where()})
}

func (st *State) where() string {
	if st.cur == nil || len(st.cur.frames) == 0 {
		return "?"
	}
	var ps []string
	fs := st.cur.frames
	for i := len(fs) - 1; i >= 0 && len(ps) < 4; i-- {
		f := fs[i]
		ps = append(ps, fmt.Sprintf("%s@%s", f.fn.RelString(nil), st.eng.posOf(f.pos)))
	}
	return strings.Join(ps, " < ")
}

func (st *State) fresh(name string, s Sort) *Term {
	st.nfresh[name]++
	return st.ts.Var(fmt.Sprintf("%s!%d", name, st.nfresh[name]), s)
}

func (st *State) freshName(name string) string {
	st.nfresh[name]++
	return fmt.Sprintf("%s!%d", name, st.nfresh[name])
}

func (st *State) addPC(t *Term) {
	if t.IsTrue() || st.pcset[t] {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.addPC(a)
		}
		st.pcset[t] = true
		return
	}
	st.pc = append(st.pc, t)
	st.pcset[t] = true
}

func (st *State) syncSolver() {
	for st.sent < len(st.pc) {
		st.sol.Assert(st.pc[st.sent])
		st.sent++
	}
}

// known: decided without the solver
func (st *State) known(c *Term) (bool, bool) {
	if c.IsConst() {
		return c.val == 1, true
	}
	if st.pcset[c] {
		return true, true
	}
	if st.pcset[st.ts.Not(c)] {
		return false, true
	}
	if c.op == OAnd {
		all := true
		for _, a := range c.args {
			v, ok := st.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if c.op == OOr {
		all := true
		for _, a := range c.args {
			v, ok := st.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (st *State) feasible(c *Term) bool {
	st.syncSolver()
	return st.sol.Check([]*Term{c}, st.eng.feasMs, nil) != Unsat
}

// valid: the path condition implies c (solver, short timeout; unknown = no)
func (st *State) valid(c *Term) bool {
	if v, ok := st.known(c); ok {
		return v
	}
	// the answer is the same on every path with these choices
	nd, i := st.node, st.qn
	st.qn++
	if r, ok := nd.answer(i); ok {
		return r
	}
	r := st.validNow(c)
	nd.record(i, r)
	return r
}

func (st *State) validNow(c *Term) bool {
	if st.validC == nil || st.validCn != len(st.pc) {
		st.validC = map[*Term]int8{}
		st.validCn = len(st.pc)
	}
	if r, ok := st.validC[c]; ok {
		return r == 1
	}
	st.syncSolver()
	r := st.sol.Check([]*Term{st.ts.Not(c)}, st.eng.feasMs, nil) == Unsat
	st.validC[c] = 0
	if r {
		st.validC[c] = 1
	}
	return r
}

// pathNode is a point in the tree of choices
type pathNode struct {
	mu   sync.Mutex
	kids map[int]*pathNode
	ans  []int8
}

func (n *pathNode) kid(d int) *pathNode {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := n.kids[d]
	if k == nil {
		k = &pathNode{}
		if n.kids == nil {
			n.kids = map[int]*pathNode{}
		}
		n.kids[d] = k
	}
	return k
}

func (n *pathNode) answer(i int) (bool, bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if i >= len(n.ans) || n.ans[i] == 0 {
		return false, false
	}
	return n.ans[i] == 1, true
}

func (n *pathNode) record(i int, r bool) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for len(n.ans) <= i {
		n.ans = append(n.ans, 0)
	}
	n.ans[i] = 2
	if r {
		n.ans[i] = 1
	}
}

// took notes a choice
func (st *State) took(d int) {
	st.pos++
	st.node = st.node.kid(d)
	st.qn = 0
}

// Branch decides a condition on this path, forking when both sides are possible
func (st *State) Branch(c *Term) bool {
	if v, ok := st.known(c); ok {
		return v
	}
	if st.pure > 0 {
		panic(mergeAbort{})
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.took(d)
		if d == 1 {
			st.addPC(c)
		} else {
			st.addPC(st.ts.Not(c))
		}
		return d == 1
	}
	ft := st.feasible(c)
	ff := true
	if ft {
		ff = st.feasible(st.ts.Not(c))
	}
	d := 0
	if ft {
		d = 1
	}
	if ft && ff {
		alt := make([]int, len(st.prefix), len(st.prefix)+1)
		copy(alt, st.prefix)
		alt = append(alt, 0)
		st.run.push(alt)
	} else if !ft && !ff {
		panic(pathKill{"infeasible"})
	}
	st.prefix = append(st.prefix, d)
	st.took(d)
	if d == 1 {
		st.addPC(c)
	} else {
		st.addPC(st.ts.Not(c))
	}
	return d == 1
}

// Choice is an unconstrained n-way fork
func (st *State) Choice(n int) int {
	if n <= 1 {
		return 0
	}
	if st.pure > 0 {
		panic(mergeAbort{})
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.took(d)
		return d
	}
	for k := n - 1; k >= 1; k-- {
		alt := make([]int, len(st.prefix), len(st.prefix)+1)
		copy(alt, st.prefix)
		alt = append(alt, k)
		st.run.push(alt)
	}
	st.prefix = append(st.prefix, 0)
	st.took(0)
	return 0
}

func (st *State) Assume(c *Term) {
	if v, ok := st.known(c); ok {
		if !v {
			panic(pathKill{"assume false"})
		}
		return
	}
	if st.pure > 0 {
		panic(mergeAbort{})
	}
	st.addPC(c)
	if st.pos < len(st.prefix) {
		return
	}
	st.syncSolver()
	if st.sol.Check(nil, st.eng.feasMs, nil) == Unsat {
		panic(pathKill{"assumption infeasible"})
	}
}

// AssumeSilent adds an axiom without a feasibility check
func (st *State) AssumeSilent(c *Term) {
	if c.IsFalse() {
		panic(pathKill{"axiom false"})
	}
	st.addPC(c)
}

func (st *State) axiomOnce(key string, f func() *Term) {
	if st.facts[key] {
		return
	}
	st.facts[key] = true
	st.AssumeSilent(f())
}

// Oblige: an obligation on this path
func (st *State) Oblige(label string, goal *Term) {
	if st.pure > 0 {
		panic(mergeAbort{})
	}
	if st.pos < len(st.prefix) {
		// already discharged on the path this prefix was split from
		st.addPC(goal)
		return
	}
	if st.nocheck > 0 {
		st.addPC(goal)
		return
	}
	o := st.run.obligation(label)
	if goal.IsTrue() || st.pcset[goal] {
		o.add("simplifier", true)
		return
	}
	st.syncSolver()
	neg := st.ts.Not(goal)
	var model map[string]interface{}
	r := st.sol.Check([]*Term{neg}, st.eng.obMs, func() { model = st.extractModel() })
	back := "z3-" + z3ver()
	if r == Unknown {
		r, back = oneShot(st.pc, neg, st.eng.oneShotSec)
	}
	switch r {
	case Unsat:
		o.add(back, true)
		st.addPC(goal)
	case Sat:
		o.add(back, false)
		st.run.fail(&Failure{Label: label, Kind: "refuted", Where: st.where(), Model: model, Detail: st.ts.String(goal), Trace: append([]string{}, st.trace...)})
		if goal.IsFalse() {
			panic(pathKill{"after failed obligation"})
		}
		st.addPC(goal)
		if !st.feasible(st.ts.True) {
			panic(pathKill{"after failed obligation"})
		}
	default:
		o.add("none", false)
		st.run.fail(&Failure{Label: label, Kind: "undecided", Where: st.where(), Detail: st.ts.String(goal)})
		st.addPC(goal)
	}
}

func (st *State) extractModel() map[string]interface{} {
	m := map[string]interface{}{}
	for _, d := range st.draws {
		switch {
		case d.T != nil:
			v, ok := st.sol.Eval(d.T)
			if !ok {
				return m
			}
			m[d.Name] = v
		case d.Q != nil:
			ln, ok := st.sol.Eval(st.seqLen(d.Q))
			if !ok {
				return m
			}
			if ln > 1<<16 {
				m[d.Name] = map[string]interface{}{"toolong": ln}
				continue
			}
			var out []uint64
			bad := false
			for i := 0; i < int(ln); i++ {
				t := st.elemIte(d.Q, st.ts.I(i))
				if t == nil {
					bad = true
					break
				}
				v, _ := st.sol.Eval(t)
				out = append(out, v)
			}
			if !bad {
				if out == nil {
					out = []uint64{}
				}
				m[d.Name] = out
			}
		case d.Abs != nil:
			m[d.Name] = d.Abs(st.sol)
		}
	}
	return m
}

// drawName makes a draw name unique in order of use
func (st *State) drawName(n string) string {
	st.drawIdx[n]++
	if k := st.drawIdx[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (st *State) goPanicRT(msg string) {
	panic(&goPanic{val: st.errorValue("runtime error: " + msg), rt: msg, pos: st.where()})
}

// ensure c or raise a run-time panic
func (st *State) check(c *Term, msg string) {
	if st.pure > 0 {
		if v, ok := st.known(c); ok && v {
			return
		}
		if st.guard == nil || !st.valid(st.ts.Or(st.ts.Not(st.guard), c)) {
			panic(mergeAbort{})
		}
		return
	}
	if !st.Branch(c) {
		st.goPanicRT(msg)
	}
}

var errStringType types.Type // *errors.errorString, set by the engine

// errorValue: a fresh opaque error
func (st *State) errorValue(text string) IfaceV {
	o := st.newObj(st.eng.errStruct, &StructV{[]Value{StrV{st.strSeq(text)}}})
	o.note = text
	return IfaceV{t: st.eng.errPtr, v: Ptr{obj: o}}
}

func (st *State) namedErr(name string) IfaceV {
	if e, ok := st.uniqErr[name]; ok {
		return e
	}
	e := st.errorValue(name)
	st.uniqErr[name] = e
	return e
}

func (st *State) noteWrite(p Ptr) {
	for _, w := range st.writeLog {
		if p.obj.id <= w.since {
			dup := false
			for _, q := range w.locs {
				if ptrEqSyn(p, q) {
					dup = true
					break
				}
			}
			if !dup {
				w.locs = append(w.locs, p)
			}
		}
	}
}

type loopCtx struct{}
