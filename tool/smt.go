package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

type SolverStats struct {
	mu      sync.Mutex
	queries int64
	byBack  map[string]int64
	time    map[string]time.Duration
}

var solverStats = &SolverStats{byBack: map[string]int64{}, time: map[string]time.Duration{}}

func (s *SolverStats) add(back string, d time.Duration) {
	s.mu.Lock()
	s.byBack[back]++
	s.time[back] += d
	s.mu.Unlock()
}

func findSolver(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return names[0]
}

var (
	z3bin   = findSolver("z3-new", "z3")
	z3old   = findSolver("z3")
	cvc5bin = findSolver("cvc5")
)

// Solver: one interactive z3 process, reset between paths
type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	defs map[*Term]string
	decl map[string]bool
	buf  strings.Builder
	dead bool
	ts   *TermStore
	tmo  int
}

func NewSolver() *Solver {
	s := &Solver{}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2", "-memory:3000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.dead = false
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

const preamble = "(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :global-declarations true)\n"

func (s *Solver) Reset(ts *TermStore) {
	if s.dead {
		s.Close()
		s.start()
	}
	s.ts = ts
	s.defs = map[*Term]string{}
	s.decl = map[string]bool{}
	s.buf.Reset()
	s.tmo = -1
	s.buf.WriteString("(reset)\n" + preamble + "(declare-sort U 0)\n")
}

var tableDefs sync.Map // name -> definition text (tables of constants)

func declOf(t *Term) string {
	if d, ok := tableDefs.Load(t.name); ok {
		return d.(string)
	}
	var as []string
	for _, a := range t.args {
		as = append(as, sortName(a.sort))
	}
	return fmt.Sprintf("(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), sortName(t.sort))
}

// emit makes sure t and all it needs is defined, returns its text
func emitTerm(t *Term, defs map[*Term]string, decl map[string]bool, buf *strings.Builder) string {
	switch t.op {
	case OConst:
		return smtExpr(t, nil, 0)
	}
	if n, ok := defs[t]; ok {
		return n
	}
	for _, a := range t.args {
		emitTerm(a, defs, decl, buf)
	}
	if t.op == OVar || t.op == OApp {
		if !decl[t.name] {
			decl[t.name] = true
			buf.WriteString(declOf(t))
		}
		if len(t.args) == 0 {
			n := smtName(t.name)
			defs[t] = n
			return n
		}
	}
	e := smtExpr(t, func(a *Term) string { return defs[a] }, 1)
	n := "t" + strconv.Itoa(t.id)
	fmt.Fprintf(buf, "(define-fun %s () %s %s)\n", n, sortName(t.sort), e)
	defs[t] = n
	return n
}

func (s *Solver) emit(t *Term) string { return emitTerm(t, s.defs, s.decl, &s.buf) }

func (s *Solver) Assert(t *Term) {
	n := s.emit(t)
	fmt.Fprintf(&s.buf, "(assert %s)\n", n)
}

func (s *Solver) flush() bool {
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	if err != nil {
		s.dead = true
		return false
	}
	return true
}

func (s *Solver) readLine() (string, bool) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "", false
	}
	return strings.TrimSpace(l), true
}

// Check returns satisfiability of asserted facts and extra
func (s *Solver) Check(extra []*Term, ms int, onSat func()) SatResult {
	atomic.AddInt64(&nChecks, 1)
	if s.dead {
		return Unknown
	}
	t0 := time.Now()
	var names []string
	for _, e := range extra {
		names = append(names, s.emit(e))
	}
	if s.tmo != ms {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", ms)
		s.tmo = ms
	}
	s.buf.WriteString("(push)\n")
	for _, n := range names {
		fmt.Fprintf(&s.buf, "(assert %s)\n", n)
	}
	s.buf.WriteString("(check-sat)\n")
	if !s.flush() {
		return Unknown
	}
	timer := time.AfterFunc(time.Duration(ms)*time.Millisecond+5*time.Second, func() { s.cmd.Process.Kill() })
	res := Unknown
	for {
		l, ok := s.readLine()
		if !ok {
			break
		}
		if l == "sat" {
			res = Sat
		} else if l == "unsat" {
			res = Unsat
		} else if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "SMT:", l)
			atomic.AddInt64(&smtErrors, 1)
			continue
		} else if l == "" {
			continue
		}
		break
	}
	timer.Stop()
	if slowQ > 0 && time.Since(t0) > slowQ {
		for _, e := range extra {
			fmt.Fprintf(os.Stderr, "slow %v %v: %.600s\n", time.Since(t0).Round(time.Millisecond), res, smtExpr(e, func(*Term) string { return "" }, 14))
		}
	}
	if res == Sat && onSat != nil {
		onSat()
	}
	s.buf.WriteString("(pop)\n")
	atomic.AddInt64(&solverStats.queries, 1)
	solverStats.add("z3-"+z3ver(), time.Since(t0))
	return res
}

var smtErrors int64
var slowQ, _ = time.ParseDuration(os.Getenv("GV_SLOW"))

var z3verOnce sync.Once
var z3verS string

func z3ver() string {
	z3verOnce.Do(func() {
		o, _ := exec.Command(z3bin, "--version").Output()
		f := strings.Fields(string(o))
		if len(f) >= 3 {
			z3verS = f[2]
		}
	})
	return z3verS
}

var bvRe = regexp.MustCompile(`#x([0-9a-fA-F]+)|#b([01]+)|\(_ bv(\d+) \d+\)|\b(true|false)\b`)

// Eval asks the current model for the value of terms (after a sat answer)
func (s *Solver) Eval(t *Term) (uint64, bool) {
	n := s.emit(t)
	fmt.Fprintf(&s.buf, "(eval %s :completion true)\n", n)
	if !s.flush() {
		return 0, false
	}
	l, ok := s.readLine()
	if !ok {
		return 0, false
	}
	return parseBV(l)
}

func parseBV(l string) (uint64, bool) {
	m := bvRe.FindStringSubmatch(l)
	if m == nil {
		return 0, false
	}
	switch {
	case m[1] != "":
		v, e := strconv.ParseUint(m[1], 16, 64)
		return v, e == nil
	case m[2] != "":
		v, e := strconv.ParseUint(m[2], 2, 64)
		return v, e == nil
	case m[3] != "":
		v, e := strconv.ParseUint(m[3], 10, 64)
		return v, e == nil
	case m[4] == "true":
		return 1, true
	}
	return 0, true
}

// oneShot runs pc && !goal in fresh solver processes, in parallel
func oneShot(pc []*Term, neg *Term, sec int) (SatResult, string) {
	var b strings.Builder
	defs, decl := map[*Term]string{}, map[string]bool{}
	for _, t := range pc {
		n := emitTerm(t, defs, decl, &b)
		fmt.Fprintf(&b, "(assert %s)\n", n)
	}
	n := emitTerm(neg, defs, decl, &b)
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", n)
	body := "(declare-sort U 0)\n" + b.String()
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		return Unknown, ""
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "q.smt2")
	os.WriteFile(f, []byte("(set-logic ALL)\n"+body), 0o644)
	type ans struct {
		r    SatResult
		back string
	}
	cmds := [][]string{
		{z3bin, "-smt2", fmt.Sprintf("-T:%d", sec), f},
		{cvc5bin, fmt.Sprintf("--tlimit=%d", sec*1000), f},
		{z3old, "-smt2", fmt.Sprintf("-T:%d", sec), f},
	}
	backs := []string{"z3-" + z3ver() + "-oneshot", "cvc5", "z3-4.8"}
	if q := intQuery(pc, neg); q != "" {
		g := filepath.Join(dir, "qi.smt2")
		os.WriteFile(g, []byte("(set-logic ALL)\n"+q), 0o644)
		cmds = append(cmds, []string{z3bin, "-smt2", fmt.Sprintf("-T:%d", sec), g}, []string{cvc5bin, fmt.Sprintf("--tlimit=%d", sec*1000), g})
		backs = append(backs, "z3-"+z3ver()+"-int", "cvc5-int")
	}
	ch := make(chan ans, len(cmds))
	var procs []*exec.Cmd
	for _, c := range cmds {
		cmd := exec.Command(c[0], c[1:]...)
		procs = append(procs, cmd)
	}
	for i, cmd := range procs {
		go func(i int, cmd *exec.Cmd) {
			t0 := time.Now()
			o, _ := cmd.Output()
			r := Unknown
			for _, l := range strings.Split(string(o), "\n") {
				switch strings.TrimSpace(l) {
				case "sat":
					r = Sat
				case "unsat":
					r = Unsat
				}
				if r != Unknown {
					break
				}
			}
			back := backs[i]
			if r == Sat && strings.HasSuffix(back, "-int") {
				r = Unknown
			}
			if r != Unknown {
				solverStats.add(back, time.Since(t0))
			}
			ch <- ans{r, back}
		}(i, cmd)
	}
	res := ans{Unknown, ""}
	for i := 0; i < len(cmds); i++ {
		a := <-ch
		if a.r != Unknown {
			res = a
			break
		}
	}
	for _, p := range procs {
		if p.Process != nil {
			p.Process.Kill()
		}
	}
	return res.r, res.back
}
