// Package gv is the specification library. The verifier interprets its
// primitives symbolically; compiled, they run a specification on concrete
// inputs (replay of a counterexample, or random search for a witness).
package gv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

// ---- inputs

type env struct {
	mu     sync.Mutex
	model  map[string]json.RawMessage
	idx    map[string]int
	rnd    *rand.Rand
	used   map[string]interface{}
	fail   []string
	covers map[string]bool
	dials  func(network, addr string) (interface{}, error)
}

var cur *env

type assumeFailed struct{}

func name(n string) string {
	cur.idx[n]++
	if k := cur.idx[n]; k > 1 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func draw(n string, out interface{}, gen func() interface{}) bool {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	k := name(n)
	if r, ok := cur.model[k]; ok {
		if json.Unmarshal(r, out) == nil {
			cur.used[k] = r
			return true
		}
	}
	v := gen()
	b, _ := json.Marshal(v)
	json.Unmarshal(b, out)
	cur.used[k] = json.RawMessage(b)
	return true
}

var special = []uint64{0, 1, 2, 3, 7, 8, 11, 12, 13, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000, 4095, 4096, 8191, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 1<<20 - 1, 1 << 20, 1<<21 - 1, 1 << 21, 1<<27 - 1, 1 << 27, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<34 - 1, 1 << 35, 1 << 41, 1<<42 - 1, 1 << 48, 1<<49 - 1, 1 << 55, 1<<56 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}

func rndU(w uint) func() interface{} {
	return func() interface{} {
		r := cur.rnd
		var v uint64
		switch r.Intn(5) {
		case 0:
			v = special[r.Intn(len(special))]
		case 1:
			v = uint64(r.Intn(20))
		case 2:
			v = -uint64(r.Intn(300))
		case 3:
			v = r.Uint64() >> uint(r.Intn(64))
		default:
			v = r.Uint64()
		}
		if w < 64 {
			v &= 1<<w - 1
		}
		return v
	}
}

func u(n string, w uint) uint64 { var v uint64; draw(n, &v, rndU(w)); return v }

func U8(n string) uint8   { return uint8(u(n, 8)) }
func U16(n string) uint16 { return uint16(u(n, 16)) }
func U32(n string) uint32 { return uint32(u(n, 32)) }
func U64(n string) uint64 { return u(n, 64) }
func I8(n string) int8    { return int8(u(n, 8)) }
func I16(n string) int16  { return int16(u(n, 16)) }
func I32(n string) int32  { return int32(u(n, 32)) }
func I64(n string) int64  { return int64(u(n, 64)) }
func Int(n string) int    { return int(u(n, 64)) }

// Small is an int in [0,n]
func Small(nm string, n int) int {
	var v uint64
	draw(nm, &v, func() interface{} { return uint64(cur.rnd.Intn(n + 1)) })
	if v > uint64(n) {
		panic(assumeFailed{})
	}
	return int(v)
}

func Bool(n string) bool {
	var v uint64
	draw(n, &v, func() interface{} { return uint64(cur.rnd.Intn(2)) })
	return v != 0
}

// Choice picks one of n alternatives (a case split)
func Choice(nm string, n int) int {
	var v uint64
	draw(nm, &v, func() interface{} { return uint64(cur.rnd.Intn(n)) })
	if v >= uint64(n) {
		panic(assumeFailed{})
	}
	return int(v)
}

func rndBytes() interface{} {
	r := cur.rnd
	n := 0
	switch r.Intn(6) {
	case 0:
	case 1, 2:
		n = r.Intn(6)
	case 3:
		n = r.Intn(40)
	case 4:
		n = []int{127, 128, 129, 255, 256, 300}[r.Intn(6)]
	case 5:
		n = r.Intn(20)
	}
	return rndN(n)
}

func rndN(n int) []uint64 {
	r := cur.rnd
	b := make([]uint64, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = uint64(r.Intn(256))
		case 1:
			b[i] = uint64([]byte{0, 1, 0x3f, 0x2f, 0x1f, 0x40, 0x80, 0xff, 0x0e, 0x4e, 'a', '-', '0', '_', '.'}[r.Intn(15)])
		case 2:
			b[i] = uint64("0123456789abcdefABCDEF-_."[r.Intn(25)])
		default:
			b[i] = uint64(r.Intn(4))
		}
	}
	return b
}

type tooLong struct {
	TooLong uint64 `json:"toolong"`
}

func toBytes(n string, gen func() interface{}) []byte {
	var raw json.RawMessage
	draw(n, &raw, gen)
	var v []uint64
	if json.Unmarshal(raw, &v) != nil {
		var t tooLong
		if json.Unmarshal(raw, &t) == nil && t.TooLong < 1<<31 {
			return make([]byte, t.TooLong)
		}
		panic(assumeFailed{})
	}
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return b
}

// Bytes is an arbitrary byte string (up to 2^34 bytes)
func Bytes(n string) []byte { return toBytes(n, rndBytes) }

// BytesN is an arbitrary byte string of the given constant length
func BytesN(nm string, n int) []byte {
	b := toBytes(nm, func() interface{} { return rndN(n) })
	if len(b) != n {
		panic(assumeFailed{})
	}
	return b
}

// String is an arbitrary string
func String(n string) string { return string(Bytes(n)) }

// StringN is an arbitrary string of constant length
func StringN(nm string, n int) string { return string(BytesN(nm, n)) }

// Text is an arbitrary string of valid UTF-8
func Text(n string) string {
	b := toBytes(n, func() interface{} {
		r := cur.rnd
		var s []rune
		for i := r.Intn(9); i > 0; i-- {
			s = append(s, []rune{'a', 'Z', '0', 0, 0x7f, 0x80, 0xe9, 0x7ff, 0x4e2d, 0xffff, 0x10000, 0x1f600, 0x10ffff}[r.Intn(13)])
		}
		if r.Intn(12) == 0 {
			s = []rune(strings.Repeat("x", 63+r.Intn(70)))
		}
		o := []uint64{}
		for _, c := range []byte(string(s)) {
			o = append(o, uint64(c))
		}
		return o
	})
	if !utf8.Valid(b) {
		panic(assumeFailed{})
	}
	return string(b)
}

// ---- assumptions and obligations

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func failed(label string) {
	cur.mu.Lock()
	defer cur.mu.Unlock()
	cur.fail = append(cur.fail, label)
}

func Assert(c bool, label string) {
	if !c {
		failed(label)
	}
}

// AssertEqBytes: same content
func AssertEqBytes(a, b []byte, label string) {
	if string(a) != string(b) {
		failed(fmt.Sprintf("%s (%s vs %s)", label, show(a), show(b)))
	}
}

func show(b []byte) string {
	if len(b) > 64 {
		return fmt.Sprintf("%d bytes %x...", len(b), b[:64])
	}
	return fmt.Sprintf("%x", b)
}

// EqBytes compares content (a branch for the verifier)
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Cover marks a situation that must be reachable
func Cover(label string) {
	cur.mu.Lock()
	cur.covers[label] = true
	cur.mu.Unlock()
}

// Panics runs f and tells whether it panicked
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// Use replaces calls of the named function by its contract, an executable
// specification that is verified against the body by its own harness
func Use(fn string, contract interface{}) {}

// Body lets the next call of a function under contract run its body
func Body(fn string) {}

// Unroll bounds loops whose exit depends on symbolic data
func Unroll(n int) {}

// Bounded records a restriction of the explored inputs
func Bounded(what string) {}

// Cut verifies the repository's loops over symbolic data by induction
func Cut() {}

// Invariant gives the invariant of the loop of the named function, over state
// the specification sees; inv returns bool and has no parameters or those of the function
func Invariant(fn string, inv interface{}) {}

// Havoc gives the pointed-to variable an arbitrary value (in contracts)
func Havoc(p interface{}) {}

// AnySyncMap makes m a map with arbitrary content: gen gives what a key maps to (and whether it is present)
func AnySyncMap(m *sync.Map, gen func(key interface{}) (interface{}, bool)) {}

// Ghost is an arbitrary truth value for the verifier; f is what it is on concrete inputs
func Ghost(n string, f func() bool) bool { return f() }

// Rec is a recursively defined predicate of the specification
type Rec struct {
	name string
	def  func(r *Rec, q int) bool
}

func NewRec(name string, def func(r *Rec, q int) bool) *Rec { return &Rec{name, def} }

// At is the value at q; the verifier knows its definition only where it is unfolded
func (r *Rec) At(q int) bool { return recAt(r, r.name, q) }

func recAt(r *Rec, name string, q int) bool { return r.def(r, q) }

// Unfold gives the definition at q
func (r *Rec) Unfold(q int) { Assume(r.At(q) == r.def(r, q)) }

// Alloc: while f runs, nothing with more than limit() elements is allocated for a length computed from data
func Alloc(limit func() int, f func()) {
	var a, b runtime.MemStats
	lim := limit()
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > uint64(lim)*256+4<<20 {
		failed("no allocation beyond the input size")
	}
}

// Eval hides a specification-side computation from allocation and write tracking
func Eval(f func()) { f() }

// ---- concurrency

type Task struct {
	done int32
	ch   chan struct{}
}

// Go starts f concurrently
func Go(f func()) *Task {
	t := &Task{ch: make(chan struct{})}
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); !ok {
					failed(fmt.Sprintf("no run-time panic (%v)", r))
				}
			}
			atomic.StoreInt32(&t.done, 1)
			close(t.ch)
		}()
		f()
	}()
	return t
}

// Done tells whether the task has returned
func (t *Task) Done() bool { return taskDone(t) }

func taskDone(t *Task) bool { return atomic.LoadInt32(&t.done) == 1 }

// Settle lets every other goroutine run until it ends or blocks
func Settle() { time.Sleep(settleTime) }

var settleTime = 25 * time.Millisecond

// Interleave explores every schedule with at most n preemptions
func Interleave(n int) {}

// MapOrder: whether maps are ranged over in every order (as they are unless it says no)
func MapOrder(every bool) {}

// FireTimers lets pending time.After channels fire
func FireTimers() {}

// Threads is the number of goroutines started and not finished
func Threads() int { return 0 }

// ---- running a specification concretely

type Outcome struct {
	Result string                 `json:"result"` // pass, violation, assume, hang
	Fail   []string               `json:"fail,omitempty"`
	Input  map[string]interface{} `json:"input,omitempty"`
	Tries  int                    `json:"tries"`
}

func runOnce(model map[string]json.RawMessage, seed int64, f func(), limit time.Duration) Outcome {
	e := &env{model: model, idx: map[string]int{}, rnd: rand.New(rand.NewSource(seed)), used: map[string]interface{}{}, covers: map[string]bool{}}
	cur = e
	res := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					res <- "assume"
					return
				}
				failed(fmt.Sprintf("no run-time panic (%v at %s)", r, stackTop()))
			}
			res <- "end"
		}()
		f()
	}()
	out := Outcome{}
	select {
	case r := <-res:
		out.Result = r
	case <-time.After(limit):
		out.Result = "hang"
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if out.Result == "end" {
		out.Result = "pass"
	}
	if out.Result == "assume" && len(e.fail) == 0 {
		return out
	}
	if out.Result == "hang" {
		e.fail = append(e.fail, "never blocks forever")
	}
	if len(e.fail) > 0 {
		out.Result = "violation"
		out.Fail = e.fail
		out.Input = e.used
	}
	return out
}

func stackTop() string {
	s := strings.Split(string(debug.Stack()), "\n")
	for i, l := range s {
		if strings.HasPrefix(l, "panic(") {
			for _, m := range s[i:] {
				if strings.Contains(m, "/repo/") && !strings.Contains(m, "zz") {
					return strings.TrimSpace(m)
				}
			}
		}
	}
	return "?"
}

// Main is the body of the replay test: GV_MODEL names a file with the input
// values, GV_SEARCH gives the seconds to look for a failing input at random.
func Main(h map[string]func()) {
	f, ok := h[os.Getenv("GV_HARNESS")]
	if !ok {
		fmt.Println("GVRESULT {\"result\":\"missing\"}")
		return
	}
	debug.SetMemoryLimit(6 << 30)
	limit := 10 * time.Second
	emit := func(o Outcome) {
		b, _ := json.Marshal(o)
		fmt.Println("GVRESULT " + string(b))
	}
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if m := os.Getenv("GV_MODEL"); m != "" {
		b, _ := os.ReadFile(m)
		model := map[string]json.RawMessage{}
		json.Unmarshal(b, &model)
		o := runOnce(model, seed, f, limit)
		o.Tries = 1
		if o.Result == "violation" || os.Getenv("GV_SEARCH") == "" {
			emit(o)
			return
		}
	}
	var secs float64
	fmt.Sscan(os.Getenv("GV_SEARCH"), &secs)
	t0 := time.Now()
	n := 0
	for time.Since(t0).Seconds() < secs {
		n++
		o := runOnce(nil, seed*1000003+int64(n), f, limit)
		if o.Result == "violation" {
			o.Tries = n
			emit(o)
			return
		}
	}
	emit(Outcome{Result: "pass", Tries: n})
}
