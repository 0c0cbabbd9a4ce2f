package main

import (
	"fmt"
	"go/types"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- strings, numbers

// wholeAtom returns the atom when q is exactly one complete atom of that kind
func wholeAtom(q *Seq, kind string) *Atom {
	if len(q.segs) == 1 && q.segs[0].kind == SegAtom {
		s := &q.segs[0]
		if s.atom.kind == kind && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len {
			return s.atom
		}
	}
	return nil
}

// parseHex: value of hex digits; forks on validity
func (st *State) parseUint(q *Seq, base, bits int) (*Term, IfaceV) {
	ts := st.ts
	if s, ok := st.concreteStr(q); ok {
		v, err := strconv.ParseUint(s, base, bits)
		if err != nil {
			return ts.BV(v, 64), st.errorValue(err.Error())
		}
		return ts.BV(v, 64), nilErr
	}
	if bits == 0 {
		bits = 64
	}
	if base == 10 {
		if a := wholeAtom(q, "utoa"); a != nil {
			return st.rangeUint(a.args[0].(*Term), bits)
		}
		if a := wholeAtom(q, "itoa"); a != nil {
			x := a.args[0].(*Term)
			if st.Branch(ts.Slt(x, ts.I(0))) {
				return ts.I(0), st.errorValue("invalid syntax")
			}
			return st.rangeUint(x, bits)
		}
	}
	n := st.seqLen(q)
	if n.IsConst() && n.val <= 48 && (base == 16 || (base == 10 && n.val <= 18)) {
		if n.val == 0 {
			return ts.I(0), st.errorValue("invalid syntax")
		}
		acc := ts.I(0)
		over := ts.Fals
		ok := ts.True
		for i := 0; i < int(n.val); i++ {
			c := st.seqGet(q, ts.I(i)).(*Term)
			d, v := st.digitOf(c, base)
			ok = ts.And(ok, v)
			if base == 16 {
				if bits == 64 {
					over = ts.Or(over, ts.Not(ts.Eq(ts.Extract(acc, 63, 60), ts.BV(0, 4))))
				}
				acc = ts.Concat(ts.Extract(acc, 59, 0), ts.Extract(d, 3, 0))
			} else {
				acc = ts.Add(ts.Mul(acc, ts.I(10)), ts.Zext(d, 64))
			}
		}
		if !st.Branch(ok) {
			return ts.I(0), st.errorValue("invalid syntax")
		}
		if bits < 64 {
			over = ts.Or(over, ts.Ule(ts.BV(1<<uint(bits), 64), acc))
			if base == 16 && n.val > 16 {
				st.unsupported("ParseUint of a long text with small width")
			}
		}
		if st.Branch(over) {
			return ts.BV(mask(bits), 64), st.errorValue("value out of range")
		}
		return acc, nilErr
	}
	// opaque
	k := st.seqKey(q)
	okT := ts.App(fmt.Sprintf("parseuint.ok.%d.%d", base, bits), SBool, k)
	v := ts.App(fmt.Sprintf("parseuint.%d.%d", base, bits), 64, k)
	st.run.assumption(fmt.Sprintf("strconv.ParseUint base %d on text of symbolic length: an uninterpreted partial function of the text", base))
	st.axiomOnce(fmt.Sprintf("pu%d.%d.%d", base, bits, k.id), func() *Term {
		// empty text does not parse
		return ts.Implies(okT, ts.Not(ts.Eq(n, ts.I(0))))
	})
	if !st.Branch(okT) {
		return v, st.errorValue("invalid syntax")
	}
	if bits < 64 {
		st.AssumeSilent(ts.Ult(v, ts.BV(1<<uint(bits), 64)))
	}
	return v, nilErr
}

func (st *State) rangeUint(x *Term, bits int) (*Term, IfaceV) {
	ts := st.ts
	if bits < 64 && !st.Branch(ts.Ult(x, ts.BV(1<<uint(bits), 64))) {
		return ts.BV(mask(bits), 64), st.errorValue("value out of range")
	}
	return x, nilErr
}

// digitOf: 8-bit digit value and validity
func (st *State) digitOf(c *Term, base int) (d, ok *Term) {
	ts := st.ts
	in := func(lo, hi byte) *Term {
		return ts.And(ts.Ule(ts.BV(uint64(lo), 8), c), ts.Ule(c, ts.BV(uint64(hi), 8)))
	}
	dec := in('0', '9')
	if base == 10 {
		return ts.Sub(c, ts.BV('0', 8)), dec
	}
	lo, up := in('a', 'f'), in('A', 'F')
	d = ts.Ite(dec, ts.Sub(c, ts.BV('0', 8)), ts.Ite(lo, ts.Sub(c, ts.BV('a'-10, 8)), ts.Sub(c, ts.BV('A'-10, 8))))
	return d, ts.Or(dec, lo, up)
}

// BigV: a non-negative or negative integer below 2^(64*limbs)
type BigV struct {
	limbs []*Term // least significant first
	neg   *Term
}

func (b *BigV) limb(st *State, i int) *Term {
	if i < len(b.limbs) {
		return b.limbs[i]
	}
	return st.ts.I(0)
}

func (st *State) bigZero(b *BigV) *Term {
	r := st.ts.True
	for _, l := range b.limbs {
		r = st.ts.And(r, st.ts.Eq(l, st.ts.I(0)))
	}
	return r
}

func (st *State) bigGet(p Value) *BigV {
	return st.load(p.(Ptr)).(*BigV)
}

func (st *State) bitLen(b *BigV) *Term {
	ts := st.ts
	r := ts.I(0)
	for i, l := range b.limbs {
		for k := 0; k < 64; k++ {
			bit := ts.Eq(ts.Extract(l, k, k), ts.BV(1, 1))
			r = ts.Ite(bit, ts.I(64*i+k+1), r)
		}
	}
	return r
}

func init() {
	n := natives
	n["strconv.ParseUint"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, w := a[1].(*Term), a[2].(*Term)
		if !b.IsConst() || !w.IsConst() {
			st.unsupported("ParseUint base")
		}
		v, e := st.parseUint(a[0].(StrV).s, int(b.val), int(w.val))
		return TupleV{v, e}
	}
	n["strconv.ParseInt"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if s, ok := st.concreteStr(a[0].(StrV).s); ok {
			v, err := strconv.ParseInt(s, int(a[1].(*Term).val), int(a[2].(*Term).val))
			if err != nil {
				return TupleV{st.ts.BV(uint64(v), 64), st.errorValue(err.Error())}
			}
			return TupleV{st.ts.BV(uint64(v), 64), nilErr}
		}
		st.unsupported("ParseInt")
		return nil
	}
	n["strconv.Itoa"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return StrV{st.itoa(a[0].(*Term), true)}
	}
	n["strconv.FormatInt"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if b := a[1].(*Term); b.IsConst() && b.val == 10 {
			return StrV{st.itoa(a[0].(*Term), true)}
		}
		st.unsupported("FormatInt")
		return nil
	}
	n["strconv.FormatUint"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if b := a[1].(*Term); b.IsConst() && b.val == 10 {
			return StrV{st.itoa(a[0].(*Term), false)}
		}
		st.unsupported("FormatUint")
		return nil
	}
	n["strconv.Atoi"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q := a[0].(StrV).s
		ts := st.ts
		if s, ok := st.concreteStr(q); ok {
			v, err := strconv.Atoi(s)
			if err != nil {
				return TupleV{ts.I(v), st.errorValue(err.Error())}
			}
			return TupleV{ts.I(v), nilErr}
		}
		if at := wholeAtom(q, "itoa"); at != nil {
			return TupleV{at.args[0].(*Term), nilErr}
		}
		k := st.seqKey(q)
		if !st.Branch(ts.App("atoi.ok", SBool, k)) {
			return TupleV{ts.I(0), st.errorValue("invalid syntax")}
		}
		return TupleV{ts.App("atoi", 64, k), nilErr}
	}

	// math/big
	nativeZero["math/big.Int"] = func(st *State) Value { return &BigV{nil, st.ts.Fals} }
	n["math/big.NewInt"] = func(st *State, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		neg := st.ts.Slt(x, st.ts.I(0))
		m := st.ts.Ite(neg, st.ts.Sub(st.ts.I(0), x), x)
		return Ptr{obj: st.newObj(nil, &BigV{[]*Term{m}, neg})}
	}
	n["(*math/big.Int).SetString"] = func(st *State, fn *ssa.Function, a []Value) Value {
		ts := st.ts
		q := a[1].(StrV).s
		base := a[2].(*Term)
		fail := TupleV{Ptr{}, ts.Fals}
		if !base.IsConst() || base.val != 16 {
			st.unsupported("big.Int base")
		}
		ln := st.seqLen(q)
		if !ln.IsConst() {
			if len(q.segs) == 1 && q.segs[0].kind == SegAtom && q.segs[0].atom.kind == "longtext" {
				return q.segs[0].atom.args[0].(nativeBig).set(st, a[0].(Ptr), q)
			}
			st.unsupported("big.Int from text of symbolic length")
		}
		k := int(ln.val)
		if k > 96 {
			st.unsupported("big.Int from a very long text")
		}
		neg := ts.Fals
		i0 := 0
		if k == 0 {
			return fail
		}
		c0 := st.seqGet(q, ts.I(0)).(*Term)
		if st.Branch(ts.Eq(c0, ts.BV('-', 8))) {
			neg = ts.True
			i0 = 1
		} else if st.Branch(ts.Eq(c0, ts.BV('+', 8))) {
			i0 = 1
		}
		if i0 == k {
			return fail
		}
		ok := ts.True
		var digs []*Term
		for i := i0; i < k; i++ {
			d, v := st.digitOf(st.seqGet(q, ts.I(i)).(*Term), 16)
			ok = ts.And(ok, v)
			digs = append(digs, ts.Extract(d, 3, 0))
		}
		if !st.Branch(ok) {
			return fail
		}
		var limbs []*Term
		for len(digs) > 0 {
			m := len(digs) - 16
			if m < 0 {
				m = 0
			}
			l := ts.Zext(ts.Concat(digs[m:]...), 64)
			if len(digs[m:]) == 1 {
				l = ts.Zext(digs[m], 64)
			}
			limbs = append(limbs, l)
			digs = digs[:m]
		}
		b := &BigV{limbs, neg}
		b.neg = ts.And(neg, ts.Not(st.bigZero(b)))
		st.store(a[0].(Ptr), b)
		return TupleV{a[0], ts.True}
	}
	n["(*math/big.Int).Uint64"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.bigGet(a[0]).limb(st, 0)
	}
	n["(*math/big.Int).IsUint64"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b := st.bigGet(a[0])
		r := st.ts.Not(b.neg)
		for i := 1; i < len(b.limbs); i++ {
			r = st.ts.And(r, st.ts.Eq(b.limbs[i], st.ts.I(0)))
		}
		return r
	}
	n["(*math/big.Int).Sign"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b := st.bigGet(a[0])
		return st.ts.Ite(st.bigZero(b), st.ts.I(0), st.ts.Ite(b.neg, st.ts.I(-1), st.ts.I(1)))
	}
	n["(*math/big.Int).BitLen"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.bitLen(st.bigGet(a[0]))
	}
	n["(*math/big.Int).Rsh"] = func(st *State, fn *ssa.Function, a []Value) Value {
		ts := st.ts
		b := st.bigGet(a[1])
		k := a[2].(*Term)
		if !k.IsConst() || k.val%64 != 0 {
			st.unsupported("big.Int shift")
		}
		d := int(k.val / 64)
		var nl []*Term
		low := ts.True
		for i, l := range b.limbs {
			if i < d {
				low = ts.And(low, ts.Eq(l, ts.I(0)))
			} else {
				nl = append(nl, l)
			}
		}
		neg := b.neg
		if !neg.IsFalse() {
			if st.Branch(neg) {
				neg = ts.True
				// arithmetic shift rounds toward minus infinity
				if !st.Branch(low) {
					c := ts.I(1)
					for i := range nl {
						s := ts.Add(nl[i], c)
						c = ts.Ite(ts.And(ts.Eq(c, ts.I(1)), ts.Eq(s, ts.I(0))), ts.I(1), ts.I(0))
						nl[i] = s
					}
					nl = append(nl, c)
				}
			} else {
				neg = ts.Fals
			}
		}
		st.store(a[0].(Ptr), &BigV{nl, neg})
		return a[0]
	}

	// ---- random source
	n["crypto/rand.Read"] = func(st *State, fn *ssa.Function, a []Value) Value {
		s := a[0].(SliceV)
		if s.ln.IsConst() && s.ln.val <= 64 {
			nm := st.freshName("rand")
			var vs []Value
			for i := 0; i < int(s.ln.val); i++ {
				vs = append(vs, st.ts.Var(fmt.Sprintf("%s.%d", nm, i), 8))
			}
			if len(vs) > 0 {
				st.writeRange(s, litSeq(vs...), s.ln)
			}
			return TupleV{s.ln, nilErr}
		}
		st.unsupported("rand.Read of symbolic length")
		return nil
	}

	// ---- time
	n["time.Now"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.timeNow(fn.Signature.Results().At(0).Type())
	}
	n["time.Unix"] = func(st *State, fn *ssa.Function, a []Value) Value {
		ts := st.ts
		ns := ts.Add(ts.Mul(a[0].(*Term), ts.BV(1000000000, 64)), a[1].(*Term))
		return st.mkTime(fn.Signature.Results().At(0).Type(), ns)
	}
	n["time.Since"] = func(st *State, fn *ssa.Function, a []Value) Value {
		now := st.timeNow(fn.Params[0].Type())
		return st.ts.Sub(timeNs(now), timeNs(a[0]))
	}
	n["(time.Time).UnixNano"] = func(st *State, fn *ssa.Function, a []Value) Value { return timeNs(a[0]) }
	n["(time.Time).Sub"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Sub(timeNs(a[0]), timeNs(a[1]))
	}
	n["(time.Time).Add"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.mkTime(fn.Params[0].Type(), st.ts.Add(timeNs(a[0]), a[1].(*Term)))
	}
	n["(time.Time).After"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Slt(timeNs(a[1]), timeNs(a[0]))
	}
	n["(time.Time).Before"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Slt(timeNs(a[0]), timeNs(a[1]))
	}
	n["(time.Time).Equal"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Eq(timeNs(a[0]), timeNs(a[1]))
	}
	n["(time.Time).IsZero"] = func(st *State, fn *ssa.Function, a []Value) Value {
		s := a[0].(*StructV)
		return st.ts.And(st.ts.Eq(s.fs[0].(*Term), st.ts.I(0)), st.ts.Eq(s.fs[1].(*Term), st.ts.I(0)))
	}
	n["(time.Duration).Milliseconds"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Sdiv(a[0].(*Term), st.ts.BV(1000000, 64))
	}
	n["(time.Duration).Microseconds"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.ts.Sdiv(a[0].(*Term), st.ts.BV(1000, 64))
	}
	n["(time.Duration).Nanoseconds"] = func(st *State, fn *ssa.Function, a []Value) Value { return a[0] }
	n["(time.Duration).String"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return StrV{st.opaqueStr(st.ts.App("durstr", SU, a[0].(*Term)), "fmt")}
	}
	n["time.Sleep"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("sleep")
		return nil
	}
	n["time.After"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.nobj++
		ct := fn.Signature.Results().At(0).Type()
		ch := &ChanObj{id: st.nobj, et: under(ct).(*types.Chan).Elem(), cap_: 1}
		st.chans = append(st.chans, ch)
		if tm, ok := st.nat["timers"]; ok {
			_ = tm
		}
		l, _ := st.nat["timers"].(*timerList)
		if l == nil {
			l = &timerList{}
			st.nat["timers"] = l
		}
		l.chs = append(l.chs, ch)
		return ch
	}

	// ---- sync
	nativeZero["sync.Mutex"] = func(st *State) Value { return &MutexV{} }
	nativeZero["sync.RWMutex"] = func(st *State) Value { return &MutexV{} }
	nativeZero["sync.Map"] = func(st *State) Value {
		return &SyncMapV{st.newMap(anyT, anyT)}
	}
	nativeZero["sync.Once"] = func(st *State) Value { return &OnceV{} }
	nativeZero["sync.WaitGroup"] = func(st *State) Value { return &WGV{} }
	lock := func(rd bool) nativeFn {
		return func(st *State, fn *ssa.Function, a []Value) Value {
			m := st.loadNative(a[0]).(*MutexV)
			st.yieldPoint("lock")
			free := func() bool {
				if rd {
					return !m.w
				}
				return !m.w && m.r == 0
			}
			if !free() {
				st.block(free, "lock")
			}
			if rd {
				m.r++
			} else {
				m.w = true
			}
			return nil
		}
	}
	unlock := func(rd bool) nativeFn {
		return func(st *State, fn *ssa.Function, a []Value) Value {
			m := st.loadNative(a[0]).(*MutexV)
			if rd {
				if m.r == 0 {
					st.goPanicRT("fatal: RUnlock of unlocked RWMutex")
				}
				m.r--
			} else {
				if !m.w {
					st.goPanicRT("fatal: unlock of unlocked mutex")
				}
				m.w = false
			}
			st.yieldPoint("unlock")
			return nil
		}
	}
	n["(*sync.Mutex).Lock"], n["(*sync.Mutex).Unlock"] = lock(false), unlock(false)
	n["(*sync.RWMutex).Lock"], n["(*sync.RWMutex).Unlock"] = lock(false), unlock(false)
	n["(*sync.RWMutex).RLock"], n["(*sync.RWMutex).RUnlock"] = lock(true), unlock(true)
	n["(*sync.Mutex).TryLock"] = func(st *State, fn *ssa.Function, a []Value) Value {
		m := st.loadNative(a[0]).(*MutexV)
		st.yieldPoint("lock")
		if m.w {
			return st.ts.Fals
		}
		m.w = true
		return st.ts.True
	}
	n["(*sync.Once).Do"] = func(st *State, fn *ssa.Function, a []Value) Value {
		o := st.loadNative(a[0]).(*OnceV)
		st.yieldPoint("once")
		if o.done {
			return nil
		}
		if o.running {
			st.block(func() bool { return o.done }, "once")
			return nil
		}
		o.running = true
		defer func() { o.done = true }()
		st.callValue(a[1], nil)
		return nil
	}
	n["(*sync.WaitGroup).Add"] = func(st *State, fn *ssa.Function, a []Value) Value {
		w := st.loadNative(a[0]).(*WGV)
		d := a[1].(*Term)
		if !d.IsConst() {
			st.unsupported("WaitGroup.Add of a symbolic count")
		}
		w.n += int(int64(d.val))
		if w.n < 0 {
			st.goPanicRT("sync: negative WaitGroup counter")
		}
		return nil
	}
	n["(*sync.WaitGroup).Done"] = func(st *State, fn *ssa.Function, a []Value) Value {
		w := st.loadNative(a[0]).(*WGV)
		w.n--
		if w.n < 0 {
			st.goPanicRT("sync: negative WaitGroup counter")
		}
		return nil
	}
	n["(*sync.WaitGroup).Wait"] = func(st *State, fn *ssa.Function, a []Value) Value {
		w := st.loadNative(a[0]).(*WGV)
		if w.n != 0 {
			st.block(func() bool { return w.n == 0 }, "WaitGroup.Wait")
		}
		return nil
	}
	sm := func(st *State, p Value) *MapObj { return st.loadNative(p).(*SyncMapV).m }
	n["(*sync.Map).Load"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		v, ok := st.mapGet(sm(st, a[0]), a[1], anyT)
		return TupleV{v, ok}
	}
	n["(*sync.Map).Store"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		st.mapSet(sm(st, a[0]), a[1], a[2])
		return nil
	}
	n["(*sync.Map).Delete"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		st.mapDelete(sm(st, a[0]), a[1])
		return nil
	}
	n["(*sync.Map).LoadAndDelete"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		v, ok := st.mapGet(sm(st, a[0]), a[1], anyT)
		st.mapDelete(sm(st, a[0]), a[1])
		return TupleV{v, ok}
	}
	n["(*sync.Map).LoadOrStore"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		v, ok := st.mapGet(sm(st, a[0]), a[1], anyT)
		if ok.IsTrue() {
			return TupleV{v, ok}
		}
		st.mapSet(sm(st, a[0]), a[1], a[2])
		return TupleV{a[2], st.ts.Fals}
	}
	n["(*sync.Map).Swap"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		v, ok := st.mapGet(sm(st, a[0]), a[1], anyT)
		st.mapSet(sm(st, a[0]), a[1], a[2])
		return TupleV{v, ok}
	}
	cas := func(del bool) nativeFn {
		return func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("map")
			m := sm(st, a[0])
			v, ok := st.mapGet(m, a[1], anyT)
			if !ok.IsTrue() || !st.Branch(st.valEq(v, a[2], nil)) {
				return st.ts.Fals
			}
			if del {
				st.mapDelete(m, a[1])
			} else {
				st.mapSet(m, a[1], a[3])
			}
			return st.ts.True
		}
	}
	n["(*sync.Map).CompareAndSwap"] = cas(false)
	n["(*sync.Map).CompareAndDelete"] = cas(true)
	n["(*sync.Map).Range"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.yieldPoint("map")
		m := sm(st, a[0])
		it := st.rangeOf(m, types.NewMap(anyT, anyT)).(*rangeIter)
		for len(it.todo) > 0 {
			e := it.todo[0]
			it.todo = it.todo[1:]
			live := false
			for _, c := range m.entries {
				live = live || c == e
			}
			if !live || !st.Branch(e.present) {
				continue
			}
			if !st.Branch(st.callValue(a[1], []Value{e.key, e.val}).(*Term)) {
				break
			}
			st.yieldPoint("map")
		}
		return nil
	}

	// ---- atomics
	for _, w := range []string{"Uint32", "Uint64", "Int32", "Int64"} {
		n["sync/atomic.Add"+w] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			p := a[0].(Ptr)
			v := st.ts.Add(st.load(p).(*Term), a[1].(*Term))
			st.store(p, v)
			return v
		}
		n["sync/atomic.Load"+w] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			return st.load(a[0].(Ptr))
		}
		n["sync/atomic.Store"+w] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			st.store(a[0].(Ptr), a[1])
			return nil
		}
		n["sync/atomic.CompareAndSwap"+w] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			p := a[0].(Ptr)
			if st.Branch(st.ts.Eq(st.load(p).(*Term), a[1].(*Term))) {
				st.store(p, a[2])
				return st.ts.True
			}
			return st.ts.Fals
		}
		ty := "(*sync/atomic." + w + ")"
		last := func(st *State, p Value) Ptr {
			s := st.load(p.(Ptr)).(*StructV)
			return p.(Ptr).field(len(s.fs) - 1)
		}
		n[ty+".Add"] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			p := last(st, a[0])
			v := st.ts.Add(st.load(p).(*Term), a[1].(*Term))
			st.store(p, v)
			return v
		}
		n[ty+".Load"] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			return st.load(last(st, a[0]))
		}
		n[ty+".Store"] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			st.store(last(st, a[0]), a[1])
			return nil
		}
		n[ty+".CompareAndSwap"] = func(st *State, fn *ssa.Function, a []Value) Value {
			st.yieldPoint("atomic")
			p := last(st, a[0])
			if st.Branch(st.ts.Eq(st.load(p).(*Term), a[1].(*Term))) {
				st.store(p, a[2])
				return st.ts.True
			}
			return st.ts.Fals
		}
	}
	// ---- UTF-16
	n["unicode/utf16.Encode"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.newSlice(types.Typ[types.Uint16], st.utf16enc(st.sliceSeq(a[0].(SliceV))))
	}
	n["unicode/utf16.Decode"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.newSlice(types.Typ[types.Int32], st.utf16dec(st.sliceSeq(a[0].(SliceV))))
	}
	n["unicode/utf8.ValidString"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q := a[0].(StrV).s
		if s, ok := st.concreteStr(q); ok {
			return st.ts.Bool(utf8.ValidString(s))
		}
		return st.validUTF8(q)
	}
}

type timerList struct{ chs []*ChanObj }

var anyT = types.NewInterfaceType(nil, nil)

// nativeBig: how a long symbolic text becomes an integer
type nativeBig interface {
	set(st *State, p Ptr, q *Seq) Value
}

type MutexV struct {
	w bool
	r int
}
type SyncMapV struct{ m *MapObj }
type OnceV struct{ done, running bool }
type WGV struct{ n int }

func (st *State) loadNative(p Value) Value {
	q, ok := p.(Ptr)
	if !ok {
		st.unsupported("native receiver %T", p)
	}
	return st.load(q)
}

func timeNs(v Value) *Term { return v.(*StructV).fs[1].(*Term) }

func (st *State) mkTime(t types.Type, ns *Term) Value {
	z := st.zero(t).(*StructV)
	fs := append([]Value{}, z.fs...)
	fs[0], fs[1] = st.ts.BV(1, 64), ns
	return &StructV{fs}
}

func (st *State) timeNow(t types.Type) Value {
	ts := st.ts
	st.clock++
	v := ts.Var(fmt.Sprintf("now!%d", st.clock), 64)
	lo := ts.I(1)
	if st.clock > 1 {
		lo = ts.Var(fmt.Sprintf("now!%d", st.clock-1), 64)
	}
	st.run.assumption("the clock never goes backwards (time.Now)")
	st.AssumeSilent(ts.And(ts.Ule(lo, v), ts.Ult(v, ts.BV(1<<62, 64))))
	return st.mkTime(t, v)
}

// ---- runes and UTF-16: symbolic text is kept in whole pieces, each with its
// own derived sequences and the laws decode(encode(x)) = x for valid text.

func (st *State) validUTF8(q *Seq) *Term {
	r := st.ts.True
	for i := range q.segs {
		s := &q.segs[i]
		one := &Seq{segs: []Seg{*s}}
		switch s.kind {
		case SegLit:
			if t, ok := st.concreteStr(one); ok {
				r = st.ts.And(r, st.ts.Bool(utf8.ValidString(t)))
				continue
			}
			// symbolic bytes: decided for ASCII, opaque otherwise
			as := st.ts.True
			for _, v := range s.vals {
				as = st.ts.And(as, st.ts.Ult(v.(*Term), st.ts.BV(0x80, 8)))
			}
			r = st.ts.And(r, st.ts.Or(as, st.ts.App("utf8.valid", SBool, st.seqKey(one))))
		default:
			if s.kind == SegAtom && (s.atom.kind == "itoa" || s.atom.kind == "utoa" || s.atom.kind == "runes2str") {
				continue
			}
			r = st.ts.And(r, st.ts.App("utf8.valid", SBool, st.seqKey(one)))
		}
	}
	return r
}

// mapWhole applies f to literal runs and atoms of q separately
func (st *State) derived(name string, q *Seq, ln func(ts *TermStore, key, n *Term) *Term, w int, law func(ts *TermStore, key, n, ln *Term) *Term) *Seq {
	ts := st.ts
	key := ts.App(name, SU, st.seqKey(q))
	n := st.seqLen(q)
	l := ts.App(name+".len", 64, st.seqKey(q))
	st.axiomOnce(fmt.Sprintf("%s.len.%d", name, key.id), func() *Term { return law(ts, key, n, l) })
	a := &Atom{key: key, len: l, kind: name, args: []Value{q}}
	a.elem = func(st *State, idx *Term) Value { return ts.App(name+".at", Sort(w), key, idx) }
	return atomSeq(a, ts.I(0))
}

func (st *State) stringToRunes(q *Seq) *Seq {
	ts := st.ts
	if a := wholeAtom(q, "runes2str"); a != nil && st.valid(a.args[1].(*Term)) {
		return a.args[0].(*Seq)
	}
	var out []*Seq
	for i := range q.segs {
		s := &q.segs[i]
		one := &Seq{segs: []Seg{*s}}
		if s.kind == SegLit {
			if t, ok := st.concreteStr(one); ok && utf8.ValidString(t) {
				for _, r := range t {
					out = append(out, litSeq(ts.BV(uint64(r), 32)))
				}
				continue
			}
			as := ts.True
			for _, v := range s.vals {
				as = ts.And(as, ts.Ult(v.(*Term), ts.BV(0x80, 8)))
			}
			if st.Branch(as) {
				for _, v := range s.vals {
					out = append(out, litSeq(ts.Zext(v.(*Term), 32)))
				}
				continue
			}
		}
		if s.kind == SegAtom && s.atom.kind == "runes2str" && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len && st.valid(s.atom.args[1].(*Term)) {
			out = append(out, s.atom.args[0].(*Seq))
			continue
		}
		if i > 0 && q.segs[i-1].kind != SegLit && !st.valid(st.validUTF8(one)) {
			// pieces of valid text convert separately, and so does what follows whole characters; cut characters would not
			st.unsupported("runes of text cut in pieces")
		}
		st.run.assumption("[]rune(s): between 0 and len(s) runes, empty only for empty text; converting back restores valid UTF-8")
		out = append(out, st.derived("str2runes", one, nil, 32, func(ts *TermStore, key, n, l *Term) *Term {
			return ts.And(ts.Ule(l, n), ts.Eq(ts.Eq(l, ts.I(0)), ts.Eq(n, ts.I(0))))
		}))
	}
	return st.seqConcat(out...)
}

func (st *State) runesToString(q *Seq) *Seq {
	ts := st.ts
	var out []*Seq
	for i := range q.segs {
		s := &q.segs[i]
		one := &Seq{segs: []Seg{*s}}
		whole := s.kind == SegAtom && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len
		if whole && s.atom.kind == "str2runes" {
			src := s.atom.args[0].(*Seq)
			if st.valid(st.validUTF8(src)) {
				out = append(out, src)
				continue
			}
		}
		if s.kind == SegLit {
			done := true
			var vs []Value
			for _, v := range s.vals {
				t := v.(*Term)
				if t.IsConst() {
					for _, b := range []byte(string(rune(int32(t.val)))) {
						vs = append(vs, ts.BV(uint64(b), 8))
					}
				} else if st.Branch(ts.Ult(t, ts.BV(0x80, 32))) {
					vs = append(vs, ts.Extract(t, 7, 0))
				} else {
					done = false
					break
				}
			}
			if done {
				out = append(out, litSeq(vs...))
				continue
			}
		}
		// valid: every rune a Unicode scalar value
		valid := ts.App("runes.valid", SBool, st.seqKey(one))
		if whole && s.atom.kind == "utf16dec" {
			valid = ts.App("utf16.valid", SBool, st.seqKey(s.atom.args[0].(*Seq)))
		}
		key := ts.App("runes2str", SU, st.seqKey(one))
		n := st.segLen(s)
		l := ts.App("runes2str.len", 64, st.seqKey(one))
		st.axiomOnce(fmt.Sprintf("runes2str.%d", key.id), func() *Term {
			return ts.And(ts.Eq(ts.Eq(l, ts.I(0)), ts.Eq(n, ts.I(0))), ts.Ule(l, ts.Mul(n, ts.I(4))))
		})
		st.AssumeSilent(ts.Ule(n, ts.BV(1<<48, 64)))
		a := &Atom{key: key, len: l, kind: "runes2str", args: []Value{one, valid}}
		a.elem = func(st *State, idx *Term) Value { return ts.App("runes2str.at", 8, key, idx) }
		out = append(out, atomSeq(a, ts.I(0)))
	}
	return st.seqConcat(out...)
}

func (st *State) utf16enc(q *Seq) *Seq {
	ts := st.ts
	var out []*Seq
	for i := range q.segs {
		s := &q.segs[i]
		one := &Seq{segs: []Seg{*s}}
		whole := s.kind == SegAtom && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len
		if s.kind == SegLit {
			var vs []Value
			for _, v := range s.vals {
				r := v.(*Term)
				// surrogate pairs fork
				if st.Branch(ts.Ult(r, ts.BV(0x10000, 32))) {
					if st.Branch(ts.And(ts.Ule(ts.BV(0xd800, 32), r), ts.Ult(r, ts.BV(0xe000, 32)))) {
						vs = append(vs, ts.BV(0xfffd, 16))
					} else {
						vs = append(vs, ts.Extract(r, 15, 0))
					}
				} else if st.Branch(ts.Ule(r, ts.BV(0x10ffff, 32))) {
					x := ts.Sub(r, ts.BV(0x10000, 32))
					vs = append(vs, ts.Add(ts.BV(0xd800, 16), ts.Zext(ts.Extract(x, 19, 10), 16)), ts.Add(ts.BV(0xdc00, 16), ts.Zext(ts.Extract(x, 9, 0), 16)))
				} else {
					vs = append(vs, ts.BV(0xfffd, 16))
				}
			}
			out = append(out, litSeq(vs...))
			continue
		}
		if whole && s.atom.kind == "utf16dec" {
			src := s.atom.args[0].(*Seq)
			if st.valid(ts.App("utf16.valid", SBool, st.seqKey(src))) {
				out = append(out, src)
				continue
			}
		}
		st.run.assumption("utf16.Encode: at most one unit per UTF-8 byte and two per rune, empty only for no runes; Decode inverts it on valid text")
		var bytesLen *Term
		if whole && s.atom.kind == "str2runes" {
			bytesLen = st.seqLen(s.atom.args[0].(*Seq))
		}
		out = append(out, st.derived("utf16enc", one, nil, 16, func(ts *TermStore, key, n, l *Term) *Term {
			r := ts.And(ts.Ule(n, l), ts.Ule(l, ts.Mul(n, ts.I(2))), ts.Ule(n, ts.BV(1<<48, 64)))
			if bytesLen != nil {
				r = ts.And(r, ts.Ule(l, bytesLen))
			}
			return r
		}))
	}
	return st.seqConcat(out...)
}

func (st *State) utf16dec(q *Seq) *Seq {
	ts := st.ts
	var out []*Seq
	for i := range q.segs {
		s := &q.segs[i]
		one := &Seq{segs: []Seg{*s}}
		whole := s.kind == SegAtom && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len
		if whole && s.atom.kind == "utf16enc" {
			out = append(out, s.atom.args[0].(*Seq))
			continue
		}
		if s.kind == SegLit {
			var vs []Value
			for k := 0; k < len(s.vals); k++ {
				u := s.vals[k].(*Term)
				if !st.Branch(ts.And(ts.Ule(ts.BV(0xd800, 16), u), ts.Ult(u, ts.BV(0xe000, 16)))) {
					vs = append(vs, ts.Zext(u, 32))
					continue
				}
				if k+1 < len(s.vals) && st.Branch(ts.And(ts.Ult(u, ts.BV(0xdc00, 16)),
					ts.Ule(ts.BV(0xdc00, 16), s.vals[k+1].(*Term)), ts.Ult(s.vals[k+1].(*Term), ts.BV(0xe000, 16)))) {
					v := s.vals[k+1].(*Term)
					r := ts.Concat(ts.BV(0, 12), ts.Extract(u, 9, 0), ts.Extract(v, 9, 0))
					vs = append(vs, ts.Add(r, ts.BV(0x10000, 32)))
					k++
					continue
				}
				vs = append(vs, ts.BV(0xfffd, 32))
			}
			out = append(out, litSeq(vs...))
			continue
		}
		out = append(out, st.derived("utf16dec", one, nil, 32, func(ts *TermStore, key, n, l *Term) *Term {
			return ts.And(ts.Ule(l, n), ts.Eq(ts.Eq(l, ts.I(0)), ts.Eq(n, ts.I(0))))
		}))
	}
	return st.seqConcat(out...)
}
