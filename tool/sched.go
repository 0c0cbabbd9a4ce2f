package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type selCase struct {
	ch   *ChanObj
	send bool
	v    Value
}

// selWait: a thread blocked in a channel operation
type selWait struct {
	th     *Thread
	cases  []selCase
	done   bool
	idx    int
	v      Value
	ok     bool
	panics bool
}

func (st *State) waiters(ch *ChanObj, send bool) []struct {
	w *selWait
	i int
} {
	var out []struct {
		w *selWait
		i int
	}
	for _, th := range st.threads {
		w := th.wait()
		if w == nil || w.done {
			continue
		}
		for i, c := range w.cases {
			if c.ch == ch && c.send == send {
				out = append(out, struct {
					w *selWait
					i int
				}{w, i})
				break
			}
		}
	}
	return out
}

func (t *Thread) wait() *selWait { return t.selw }

func (st *State) selectOp(cs []selCase, blocking bool) (int, Value, bool) {
	st.yieldPoint("chan")
	var ready []int
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		if c.send {
			if c.ch.closed || len(c.ch.buf) < c.ch.cap_ || len(st.waiters(c.ch, false)) > 0 {
				ready = append(ready, i)
			}
		} else {
			if len(c.ch.buf) > 0 || c.ch.closed || len(st.waiters(c.ch, true)) > 0 {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		i := ready[st.Choice(len(ready))]
		v, ok := st.doChan(cs[i])
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	w := &selWait{th: st.cur, cases: cs}
	th := st.cur
	th.selw = w
	what := "receive"
	if len(cs) == 1 && cs[0].send {
		what = "send"
	} else if len(cs) > 1 {
		what = "select"
	}
	st.block(func() bool { return w.done }, what)
	th.selw = nil
	if w.panics {
		st.goPanicRT("send on closed channel")
	}
	return w.idx, w.v, w.ok
}

func (st *State) doChan(c selCase) (Value, bool) {
	ch := c.ch
	if c.send {
		if ch.closed {
			st.goPanicRT("send on closed channel")
		}
		if ws := st.waiters(ch, false); len(ws) > 0 {
			w := ws[st.Choice(len(ws))]
			w.w.done, w.w.idx, w.w.v, w.w.ok = true, w.i, c.v, true
			return nil, false
		}
		ch.buf = append(ch.buf, c.v)
		return nil, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		if ws := st.waiters(ch, true); len(ws) > 0 {
			w := ws[st.Choice(len(ws))]
			ch.buf = append(ch.buf, w.w.cases[w.i].v)
			w.w.done, w.w.idx = true, w.i
		}
		return v, true
	}
	if ws := st.waiters(ch, true); len(ws) > 0 {
		w := ws[st.Choice(len(ws))]
		w.w.done, w.w.idx = true, w.i
		return w.w.cases[w.i].v, true
	}
	return st.zero(ch.et), false
}

func (st *State) closeChan(ch *ChanObj) {
	st.yieldPoint("close")
	if ch == nil {
		st.goPanicRT("close of nil channel")
	}
	if ch.closed {
		st.goPanicRT("close of closed channel")
	}
	ch.closed = true
	for _, w := range st.waiters(ch, false) {
		w.w.done, w.w.idx, w.w.v, w.w.ok = true, w.i, st.zero(ch.et), false
	}
	for _, w := range st.waiters(ch, true) {
		w.w.done, w.w.idx, w.w.panics = true, w.i, true
	}
}

// ---- threads as coroutines: exactly one runs at a time

func (st *State) newThread(name string) *Thread {
	t := &Thread{id: len(st.threads), st: st, resume: make(chan struct{}), name: name}
	st.threads = append(st.threads, t)
	return t
}

func (st *State) spawn(f Value, args []Value, call *ssa.CallCommon) *Thread {
	c, _ := f.(*Closure)
	if c == nil {
		st.goPanicRT("go of nil func")
	}
	name := c.name
	if c.fn != nil {
		name = fnName(c.fn)
	}
	t := st.newThread(name)
	if len(st.threads) > 40 {
		st.unsupported("too many goroutines")
	}
	go func() {
		<-t.resume
		defer func() {
			r := recover()
			t.done = true
			if _, ok := r.(threadKill); ok {
				t.killed = true
				t.resume <- struct{}{}
				return
			}
			if r != nil && st.abort == nil {
				if gp, ok := r.(*goPanic); ok {
					r = &threadPanic{gp}
				}
				st.abort = r
			}
			// hand over
			var n *Thread
			if st.abort == nil {
				func() {
					defer func() {
						if r := recover(); r != nil && st.abort == nil {
							st.abort = r
						}
					}()
					n = st.pick(nil)
				}()
			}
			if n == nil || st.abort != nil {
				n = st.threads[0]
			}
			st.wake(n)
		}()
		if t.killed {
			panic(threadKill{})
		}
		st.callValue(f, args)
	}()
	return t
}

// threadPanic: an uncaught panic of another goroutine ends the process
type threadPanic struct{ p *goPanic }

func (st *State) wake(t *Thread) {
	st.cur = t
	t.resume <- struct{}{}
}

func (t *Thread) runnable() bool { return !t.done && (t.ready == nil || t.ready()) }

// pick chooses the next runnable thread (a decision when several)
func (st *State) pick(except *Thread) *Thread {
	var rs []*Thread
	for _, t := range st.threads {
		if t != except && t.runnable() && !(t.id == 0 && t.idle && st.othersRunnable()) {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	return rs[st.Choice(len(rs))]
}

func (st *State) othersRunnable() bool {
	for _, t := range st.threads[1:] {
		if t.runnable() {
			return true
		}
	}
	return false
}

// switchTo gives control to t and waits to get it back
func (st *State) switchTo(t *Thread) {
	me := st.cur
	if t == me {
		return
	}
	st.cur = t
	t.resume <- struct{}{}
	<-me.resume
	st.cur = me
	if me.killed {
		panic(threadKill{})
	}
	if st.abort != nil && me.id == 0 {
		r := st.abort
		panic(r)
	}
}

// block suspends the current thread until ready
func (st *State) block(ready func() bool, what string) {
	me := st.cur
	me.ready = ready
	me.what = what
	for !ready() {
		n := st.pick(me)
		if n == nil {
			if me.id == 0 {
				st.deadlock(what)
			}
			// nothing can run: main must be blocked as well
			m := st.threads[0]
			m.stuck = true
			n = m
		}
		st.switchTo(n)
		if me.id == 0 && me.stuck {
			me.stuck = false
			if !ready() {
				st.deadlock(what)
			}
		}
	}
	me.ready = nil
}

func (st *State) deadlock(what string) {
	st.Oblige("never blocks forever ("+what+")", st.ts.Fals)
	panic(pathKill{"deadlock"})
}

// yieldPoint lets another thread run here when interleaving is explored
func (st *State) yieldPoint(what string) {
	if !st.preempt || st.atomicN > 0 {
		return
	}
	var rs []*Thread
	rs = append(rs, st.cur)
	for _, t := range st.threads {
		if t != st.cur && t.runnable() && !t.idle {
			rs = append(rs, t)
		}
	}
	if len(rs) == 1 {
		return
	}
	if st.budget <= 0 {
		// more preemptions would be possible
		st.run.bound("schedules", fmt.Sprintf("at most %d preemptions at channel, lock, map and atomic operations", st.budget0))
		return
	}
	n := rs[st.Choice(len(rs))]
	if n != st.cur {
		st.budget--
		st.switchTo(n)
	}
}

// settle runs all other threads until each is finished or blocked
func (st *State) settle() {
	me := st.cur
	if me.id != 0 {
		st.unsupported("settle outside the specification thread")
	}
	for {
		me.idle = true
		n := st.pick(me)
		if n == nil {
			break
		}
		st.switchTo(n)
	}
	me.idle = false
}

// killThreads ends the coroutines of this path
func (st *State) killThreads() {
	for _, t := range st.threads {
		if t.id == 0 || t.done {
			continue
		}
		t.killed = true
		t.resume <- struct{}{}
		<-t.resume
	}
}

// ---- maps

func (st *State) newMap(k, v types.Type) *MapObj {
	st.nobj++
	m := &MapObj{id: st.nobj, kt: k, vt: v, site: st.site()}
	st.maps = append(st.maps, m)
	return m
}

func (st *State) mapFind(m *MapObj, key Value) *MapEntry {
	if i, ok := key.(IfaceV); ok && i.t != nil {
		switch i.v.(type) {
		case SliceV, *MapObj, *Closure:
			st.goPanicRT("hash of unhashable type")
		}
	}
	for _, e := range m.entries {
		if st.Branch(st.valEq(e.key, key, m.kt)) {
			return e
		}
	}
	if m.base != nil {
		v, p := m.base.gen(st, key)
		e := &MapEntry{key: key, val: v, present: p, read: true}
		m.entries = append(m.entries, e)
		return e
	}
	return nil
}

func (st *State) mapGet(m *MapObj, key Value, et types.Type) (Value, *Term) {
	if m == nil {
		return st.zero(et), st.ts.Fals
	}
	e := st.mapFind(m, key)
	if e == nil {
		return st.zero(et), st.ts.Fals
	}
	if st.Branch(e.present) {
		return e.val, st.ts.True
	}
	return st.zero(et), st.ts.Fals
}

func (st *State) mapSet(m *MapObj, key, val Value) {
	st.noteMap(m)
	e := st.mapFind(m, key)
	if e != nil {
		e.val, e.present, e.read = val, st.ts.True, false
		return
	}
	m.entries = append(m.entries, &MapEntry{key: key, val: val, present: st.ts.True})
}

func (st *State) mapDelete(m *MapObj, key Value) {
	if m == nil {
		return
	}
	st.noteMap(m)
	e := st.mapFind(m, key)
	if e != nil {
		if m.base != nil {
			e.present, e.read = st.ts.Fals, false
			return
		}
		for i, x := range m.entries {
			if x == e {
				m.entries = append(append([]*MapEntry{}, m.entries[:i]...), m.entries[i+1:]...)
				return
			}
		}
	}
}

func (st *State) noteMap(m *MapObj) {
	if st.pure > 0 {
		panic(mergeAbort{})
	}
}

func (st *State) mapLen(m *MapObj) *Term {
	ts := st.ts
	n := ts.I(0)
	if m == nil {
		return n
	}
	for _, e := range m.entries {
		n = ts.Add(n, ts.Ite(e.present, ts.I(1), ts.I(0)))
	}
	if m.base != nil {
		rest := st.fresh("maplen", 64)
		st.AssumeSilent(ts.Ult(rest, ts.BV(1<<32, 64)))
		n = ts.Add(n, rest)
	}
	return n
}

// ---- range

type rangeIter struct {
	m    *MapObj
	todo []*MapEntry
	str  string
	pos  int
	isS  bool
	q    *Seq
	sym  bool
}

func (st *State) rangeOf(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *MapObj:
		it := &rangeIter{m: x}
		if x == nil {
			return it
		}
		if x.base != nil {
			return st.rangeSymMap(x)
		}
		it.todo = append(it.todo, x.entries...)
		// iteration order is unspecified: any permutation
		if st.oneOrder && len(it.todo) > 1 {
			st.run.bound("map order", "maps are ranged over in the order of insertion")
		} else if st.eng.anyMapOrder && len(it.todo) > 1 {
			var perm []*MapEntry
			rest := append([]*MapEntry{}, it.todo...)
			for len(rest) > 0 {
				k := st.Choice(len(rest))
				perm = append(perm, rest[k])
				rest = append(append([]*MapEntry{}, rest[:k]...), rest[k+1:]...)
			}
			it.todo = perm
		}
		return it
	case StrV:
		s, ok := st.concreteStr(x.s)
		if !ok {
			st.unsupported("range over symbolic string")
		}
		return &rangeIter{isS: true, str: s}
	}
	st.unsupported("range over %T", v)
	return nil
}

func (st *State) rangeSymMap(m *MapObj) Value {
	st.unsupported("range over a symbolic map")
	return nil
}

func (st *State) next(fr *Frame, x *ssa.Next) Value {
	it := st.val(fr, x.Iter).(*rangeIter)
	tt := x.Type().(*types.Tuple)
	zero := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return st.zero(t)
	}
	if it.isS {
		if it.pos >= len(it.str) {
			return TupleV{st.ts.Fals, zero(1), zero(2)}
		}
		p := it.pos
		for i, r := range it.str[p:] {
			if i > 0 {
				break
			}
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
				if len(it.str[p:]) >= 3 && it.str[p:p+3] == "\uFFFD" {
					n = 3
				}
			}
			it.pos += n
			return TupleV{st.ts.True, st.ts.I(p), st.ts.BV(uint64(r), 32)}
		}
	}
	for len(it.todo) > 0 {
		e := it.todo[0]
		it.todo = it.todo[1:]
		// deleted meanwhile?
		live := false
		for _, c := range it.m.entries {
			if c == e {
				live = true
			}
		}
		if !live || !st.Branch(e.present) {
			continue
		}
		return TupleV{st.ts.True, e.key, e.val}
	}
	return TupleV{st.ts.Fals, zero(1), zero(2)}
}

var _ = fmt.Sprint
