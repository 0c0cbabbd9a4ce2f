package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Spec struct {
	prop  string
	files []string // relative to specs/
	also  []string // harness name patterns in the needed files
	level string
	notes []string
	opt   []string // files about internals, left out when the code no longer has them
	left  []string
}

func readSpec(dir, prop string) (*Spec, error) {
	sp := &Spec{prop: prop, level: "proof"}
	ms, _ := filepath.Glob(filepath.Join(dir, "*", "*.go"))
	sort.Strings(ms)
	var add func(rel string) error
	add = func(rel string) error {
		for _, f := range sp.files {
			if f == rel {
				return nil
			}
		}
		b, err := os.ReadFile(filepath.Join(dir, rel))
		if err != nil {
			return err
		}
		sp.files = append(sp.files, rel)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//verif:optional") {
				sp.opt = append(sp.opt, rel)
			}
			if strings.HasPrefix(l, "//verif:needs ") {
				for _, n := range strings.Fields(l)[1:] {
					if err := add(n); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		mine := false
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if strings.HasPrefix(l, "//verif:property ") {
				for _, p := range f[1:] {
					mine = mine || p == prop
				}
			}
			if mine && strings.HasPrefix(l, "//verif:also ") {
				sp.also = append(sp.also, f[1:]...)
			}
			if mine && strings.HasPrefix(l, "//verif:level ") {
				sp.level = f[1]
			}
			if mine && strings.HasPrefix(l, "//verif:note ") {
				sp.notes = append(sp.notes, strings.TrimPrefix(l, "//verif:note "))
			}
		}
		if mine {
			rel, _ := filepath.Rel(dir, m)
			if err := add(rel); err != nil {
				return nil, err
			}
		}
	}
	if len(sp.files) == 0 {
		return nil, fmt.Errorf("no specification for %s", prop)
	}
	return sp, nil
}

func (sp *Spec) overlay(verif, repo string) map[string]string {
	ov := map[string]string{}
	gs, _ := filepath.Glob(filepath.Join(verif, "gv", "*.go"))
	for _, g := range gs {
		ov[filepath.Join(repo, "zzgv", filepath.Base(g))] = g
	}
	for _, f := range sp.files {
		d, b := filepath.Split(f)
		ov[filepath.Join(repo, d, "zz_verif_"+b)] = filepath.Join(verif, "specs", f)
	}
	return ov
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"obligation"`
	What     string `json:"what"`
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "", "verification directory")
	only := flag.String("run", "", "only harnesses matching this regexp")
	verbose := flag.Bool("v", false, "verbose")
	noReplay := flag.Bool("noreplay", false, "skip replay")
	conc := flag.Float64("conc", 0, "run the specifications concretely at random for this many seconds each")
	flag.Parse()
	if *verif == "" {
		exe, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(*verif, "specs")); err != nil {
			*verif, _ = os.Getwd()
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	c := &checker{prop: *prop, tier: *tier, repo: *repo, verif: *verif, seed: seed, only: *only, verbose: *verbose, noReplay: *noReplay, t0: time.Now(), conc: *conc}
	os.Exit(c.main())
}

type checker struct {
	prop, tier, repo, verif, only string
	seed                          int
	verbose, noReplay             bool
	t0                            time.Time
	sp                            *Spec
	runs                          []*Run
	eng                           *Engine
	known                         []Known
	conc                          float64
}

func (c *checker) logf(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
}

var harnessRe = regexp.MustCompile(`^Verif_`)

func (c *checker) main() (code int) {
	var err error
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			c.logf("internal error: %v\n%s", r, buf)
			code = c.report(&Failure{Label: "the check completes", Kind: "unsupported", Detail: fmt.Sprint(r)}, nil)
		}
	}()
	c.sp, err = readSpec(filepath.Join(c.verif, "specs"), c.prop)
	if err != nil {
		c.logf("error: %v", err)
		return c.report(&Failure{Label: "specification present", Kind: "unsupported", Detail: err.Error()}, nil)
	}
	if b, err := os.ReadFile(filepath.Join(c.verif, "known-findings.json")); err == nil {
		json.Unmarshal(b, &c.known)
	}
	load := func() (*Engine, error) {
		ov := map[string][]byte{}
		for k, v := range c.sp.overlay(c.verif, c.repo) {
			b, err := os.ReadFile(v)
			if err != nil {
				c.logf("error: %v", err)
			}
			ov[k] = b
		}
		return loadEngine(c.repo, ov)
	}
	eng, err := load()
	if err != nil && len(c.sp.opt) > 0 {
		// internals that a specification names have changed: the others decide
		var keep []string
		for _, f := range c.sp.files {
			d, b := filepath.Split(f)
			out := false
			for _, o := range c.sp.opt {
				out = out || o == f && strings.Contains(err.Error(), filepath.Join(d, "zz_verif_"+b))
			}
			if out {
				c.sp.left = append(c.sp.left, f)
				c.logf("specification %s does not apply to the code, left out: %s", f, strings.SplitN(err.Error(), "\n", 3))
			} else {
				keep = append(keep, f)
			}
		}
		if len(keep) < len(c.sp.files) {
			c.sp.files = keep
			eng, err = load()
		}
	}
	if err != nil {
		c.logf("%v", err)
		return c.report(&Failure{Label: "the specification applies to the code", Kind: "unsupported", Detail: err.Error()}, nil)
	}
	c.eng = eng
	eng.solvers = make(chan *Solver, 64)
	if c.tier == "thorough" {
		eng.feasMs, eng.obMs, eng.oneShotSec = 5000, 30000, 120
		eng.maxPaths, eng.maxWall = 1000000, 40*time.Minute
	}
	var hs []*ssa.Function
	for _, p := range eng.pkgs {
		for n, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !harnessRe.MatchString(n) || f.Signature.Params().Len() != 0 {
				continue
			}
			use := strings.HasPrefix(n, "Verif_"+c.prop+"_")
			for _, a := range c.sp.also {
				if ok, _ := filepath.Match(a, n); ok {
					use = true
				}
			}
			if use {
				hs = append(hs, f)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	if c.only != "" {
		re := regexp.MustCompile(c.only)
		var k []*ssa.Function
		for _, h := range hs {
			if re.MatchString(h.Name()) {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		return c.report(&Failure{Label: "specification present", Kind: "vacuous", Detail: "no harness"}, nil)
	}
	if c.conc > 0 {
		for _, h := range hs {
			f := &Failure{Harness: h.Name()}
			o := c.replayRun(fnPkg(h), f, c.conc)
			c.logf("%-40s %s tries=%d %v", h.Name(), o.Result, o.Tries, o.Fail)
			if o.Result == "violation" {
				b, _ := json.Marshal(o.Input)
				c.logf("   input %s", b)
			}
		}
		return 0
	}
	c.logf("%s: loaded %s in %v, %d harnesses", c.prop, c.repo, time.Since(c.t0).Round(time.Millisecond), len(hs))
	// two harnesses at a time share the cores
	par := 2
	if len(hs) == 1 {
		par = 1
	}
	eng.workers = 8 / par
	eng.noPrune = false
	c.runs = make([]*Run, len(hs))
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	for i, h := range hs {
		wg.Add(1)
		sem <- true
		go func(i int, h *ssa.Function) {
			defer wg.Done()
			r := eng.verify(h)
			c.runs[i] = r
			<-sem
		}(i, h)
	}
	wg.Wait()
	close(eng.solvers)
	for s := range eng.solvers {
		s.Close()
	}
	var fails []*Failure
	for i, r := range c.runs {
		n, d := 0, 0
		for _, o := range r.obls {
			n += o.Count
			d += o.Discharged
		}
		b := ""
		if len(r.bounds) > 0 {
			b = fmt.Sprintf(" bounded:%v", r.bounds)
		}
		c.logf("  %-46s paths %d/%d obligations %d/%d %v%s", r.name, r.done, r.paths, d, n, r.wall.Round(time.Millisecond), b)
		if c.verbose {
			var ls []string
			for l, o := range r.obls {
				ls = append(ls, fmt.Sprintf("      %-50s %d/%d %v", l, o.Discharged, o.Count, o.Backends))
			}
			sort.Strings(ls)
			c.logf("%s", strings.Join(ls, "\n"))
		}
		for _, f := range r.fails {
			f.Model = fixModel(f.Model)
			f.pkg = fnPkg(hs[i])
			fails = append(fails, f)
		}
	}
	var open []*Failure
	for _, f := range fails {
		k := c.isKnown(f)
		if c.verbose || k == nil {
			c.logf("  FAILED %s: %s [%s] at %s\n      %s", f.Harness, f.Label, f.Kind, f.Where, clip(f.Detail, 1500))
			if len(f.Trace) > 0 {
				c.logf("      trace: %s", strings.Join(f.Trace, "; "))
			}
			if f.Model != nil && c.verbose {
				b, _ := json.Marshal(f.Model)
				c.logf("      model: %s", clip(string(b), 2000))
			}
		}
		if k == nil {
			open = append(open, f)
		}
	}
	seen := map[string]bool{}
	for _, f := range fails {
		if k := c.isKnown(f); k != nil && !seen[k.What] {
			seen[k.What] = true
			c.logf("KNOWN-FINDING: property=%s %s", c.prop, k.What)
		}
	}
	if len(open) == 0 {
		c.evidence(nil)
		c.logf("%s: held (%v)", c.prop, time.Since(c.t0).Round(time.Millisecond))
		return 0
	}
	return c.report(open[0], open)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fixModel(m map[string]interface{}) map[string]interface{} { return m }

func (c *checker) isKnown(f *Failure) *Known {
	for i := range c.known {
		k := &c.known[i]
		if k.Property == c.prop && k.Harness == f.Harness && k.Label == f.Label {
			return k
		}
	}
	return nil
}

type outcome struct {
	Result string                 `json:"result"`
	Fail   []string               `json:"fail,omitempty"`
	Input  map[string]interface{} `json:"input,omitempty"`
	Tries  int                    `json:"tries"`
	Output string                 `json:"output,omitempty"`
}

// replayRun runs one specification on the real code with `go test -overlay`
func (c *checker) replayRun(pkg string, f *Failure, search float64) outcome {
	dir, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return outcome{Result: "error", Output: err.Error()}
	}
	defer os.RemoveAll(dir)
	rel := strings.TrimPrefix(pkg, modPath+"/")
	pn := filepath.Base(rel)
	test := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n\n\tgv %q\n)\n\nfunc TestGvReplay(t *testing.T) {\n\tgv.Main(map[string]func(){%q: %s})\n}\n", pn, gvPath, f.Harness, f.Harness)
	tf := filepath.Join(dir, "replay_test.go")
	os.WriteFile(tf, []byte(test), 0o644)
	ov := c.sp.overlay(c.verif, c.repo)
	ov[filepath.Join(c.repo, rel, "zz_verif_replay_test.go")] = tf
	// the repository's own tests stay out of the replay binary
	ts, _ := filepath.Glob(filepath.Join(c.repo, rel, "*_test.go"))
	for _, t := range ts {
		ov[t] = ""
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ofile := filepath.Join(dir, "overlay.json")
	os.WriteFile(ofile, oj, 0o644)
	env := append(os.Environ(), "GV_HARNESS="+f.Harness, "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", fmt.Sprintf("VERIF_SEED=%d", c.seed), "GOFLAGS=")
	if f.Model != nil {
		b, _ := json.Marshal(f.Model)
		mf := filepath.Join(dir, "model.json")
		os.WriteFile(mf, b, 0o644)
		env = append(env, "GV_MODEL="+mf)
	}
	if search > 0 {
		env = append(env, fmt.Sprintf("GV_SEARCH=%g", search))
	}
	cmd := exec.Command("go", "test", "-vet=off", "-overlay", ofile, "-run", "^TestGvReplay$", "-count=1", "-v", "-timeout", fmt.Sprintf("%ds", int(search)+60), "./"+rel)
	cmd.Dir = c.repo
	cmd.Env = env
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	text := out.String()
	i := strings.LastIndex(text, "GVRESULT ")
	if i < 0 {
		if strings.Contains(text, "panic:") && !strings.Contains(text, "build failed") && !strings.Contains(text, "test timed out") {
			// a goroutine of the code under test brought the process down
			return outcome{Result: "violation", Fail: []string{"the process crashes"}, Output: clip(text, 6000), Input: f.Model}
		}
		return outcome{Result: "error", Output: clip(text, 4000)}
	}
	l := text[i+9:]
	if j := strings.IndexByte(l, '\n'); j >= 0 {
		l = l[:j]
	}
	var o outcome
	json.Unmarshal([]byte(l), &o)
	return o
}

// report writes the replay file and the VIOLATION line
func (c *checker) report(first *Failure, all []*Failure) int {
	var found *Failure
	var got outcome
	var tried []string
	if !c.noReplay && c.eng != nil {
		// models first, at most two per obligation
		cnt := map[string]int{}
		tries := 0
		for _, f := range all {
			if f.Model == nil || f.pkg == "" {
				continue
			}
			k := f.Harness + f.Label
			cnt[k]++
			if cnt[k] > 2 || tries >= 8 {
				continue
			}
			tries++
			o := c.replayRun(f.pkg, f, 0)
			tried = append(tried, fmt.Sprintf("model for %s / %s: %s", f.Harness, f.Label, o.Result))
			if o.Result == "violation" {
				found, got = f, o
				break
			}
			if c.verbose {
				c.logf("  replay %s: %s %s", f.Harness, o.Result, clip(o.Output, 800))
			}
		}
		if found == nil {
			seen := map[string]bool{}
			n := 0
			for _, f := range all {
				if seen[f.Harness] || f.pkg == "" {
					continue
				}
				seen[f.Harness] = true
				n++
				if n > 4 {
					break
				}
				g := *f
				g.Model = nil
				o := c.replayRun(f.pkg, &g, 15)
				tried = append(tried, fmt.Sprintf("random search in %s: %s after %d tries", f.Harness, o.Result, o.Tries))
				if o.Result == "violation" {
					found, got = f, o
					break
				}
				if c.verbose {
					c.logf("  search %s: %s %d %s", f.Harness, o.Result, o.Tries, clip(o.Output, 800))
				}
			}
		}
	}
	rd := filepath.Join(c.verif, "replay")
	os.MkdirAll(rd, 0o755)
	path := filepath.Join(rd, c.prop+".json")
	rep := map[string]interface{}{"property": c.prop, "failed_obligations": all, "attempts": tried}
	if all == nil {
		rep["failed_obligations"] = []*Failure{first}
	}
	end := " no-failing-input-found"
	if found != nil {
		rep["failing_input"] = got.Input
		rep["observed"] = got.Fail
		rep["harness"] = found.Harness
		if got.Output != "" {
			rep["output"] = got.Output
		}
		rep["how"] = "run the named specification on the real code with these inputs: see DESIGN.md, Replay"
		end = ""
		c.logf("  failing input for %s: %v", found.Harness, got.Fail)
		first = found
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(path, b, 0o644)
	c.evidence([]*Failure{first})
	c.logf("  %s: obligation \"%s\" of %s not discharged", first.Kind, first.Label, first.Harness)
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", c.prop, path, end)
	return 1
}

func (c *checker) evidence(fails []*Failure) {
	obl, dis := 0, 0
	back := map[string]int{}
	funcs, contr, nat := map[string]int{}, map[string]int{}, map[string]int{}
	bounds, assumes := map[string]string{}, map[string]bool{}
	var samples []interface{}
	paths := 0
	covers := 0
	for _, r := range c.runs {
		if r == nil {
			continue
		}
		paths += r.done
		covers += len(r.covers)
		h := map[string]interface{}{"harness": r.name, "paths": r.done, "wall_s": r.wall.Seconds()}
		hl := map[string]int{}
		for l, o := range r.obls {
			obl += o.Count
			dis += o.Discharged
			hl[l] = o.Count
			for b, k := range o.Backends {
				back[b] += k
			}
		}
		h["obligations"] = hl
		samples = append(samples, h)
		for k, v := range r.funcs {
			funcs[k] += v
		}
		for k, v := range r.contr {
			contr[k] += v
		}
		for k, v := range r.nat {
			nat[k] += v
		}
		for k, v := range r.bounds {
			bounds[r.name+": "+k] = v
		}
		for k := range r.assumes {
			assumes[k] = true
		}
	}
	keys := func(m map[string]int) []string {
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return ks
	}
	as := []string{}
	for k := range assumes {
		as = append(as, k)
	}
	sort.Strings(as)
	as = append(as, "the SSA translation of golang.org/x/tools, the interpreter of /verif/tool and the SMT solvers are trusted", "memory exhaustion and stack overflow are not modelled")
	st := map[string]float64{}
	solverStats.mu.Lock()
	for k, v := range solverStats.time {
		st[k] = v.Seconds()
	}
	solverStats.mu.Unlock()
	level := c.sp.levelOr()
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "discharged_by": back, "solver_seconds": st,
		"checker_cmd":                         "bin/govc -property " + c.prop,
		"functions_under_contract_or_inlined": keys(funcs),
		"contracts_used_at_call_sites":        keys(contr),
		"trusted_base":                        append([]string{"models of library functions: " + strings.Join(keys(nat), ", ")}, as...),
		"paths_completed":                     paths,
		"reachability_covers":                 covers,
		"harnesses":                           samples,
		"bounded":                             bounds,
	}
	expl := "Obligations generated from the SSA of /repo's working tree by symbolic execution of each specification harness and discharged by SMT."
	if len(bounds) > 0 {
		expl += " Some harnesses are bounded (see bounded): those results hold within the stated bounds only and are not counted as proved."
	}
	cov["explanation"] = expl
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov,
		"assumptions": as, "wall_s": time.Since(c.t0).Seconds(),
	}
	var vs []interface{}
	for _, f := range fails {
		vs = append(vs, map[string]interface{}{"obligation": f.Label, "harness": f.Harness, "kind": f.Kind})
	}
	if vs != nil {
		ev["violations"] = len(vs)
		cov["failed"] = vs
	} else {
		ev["violations"] = 0
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func (s *Spec) levelOr() string {
	if s == nil {
		return "other"
	}
	return s.level
}
