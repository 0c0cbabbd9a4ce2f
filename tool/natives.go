package main

import (
	"crypto/md5"
	"fmt"
	"go/types"
	"hash/crc32"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(st *State, fn *ssa.Function, args []Value) Value

var natives = map[string]nativeFn{}
var gvNatives = map[string]nativeFn{}
var nativeZero = map[string]func(st *State) Value{}
var nativeGlobals = map[string]func(st *State) Value{}

// ---- helpers

func (st *State) pkgType(pkg, name string) types.Type {
	for _, p := range st.eng.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if t := p.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	st.unsupported("type %s.%s", pkg, name)
	return nil
}

func (st *State) gvFunc(name string) *ssa.Function {
	return st.eng.pkgs[gvPath].Func(name)
}

func (st *State) findMethod(t types.Type, name string) *ssa.Function {
	ms := st.eng.prog.MethodSets.MethodSet(t)
	if s := ms.Lookup(nil, name); s != nil {
		return st.eng.prog.MethodValue(s)
	}
	return nil
}

func (st *State) callMethod(i IfaceV, name string, args ...Value) Value {
	if i.t == nil {
		st.goPanicRT("nil interface method call " + name)
	}
	if nm, ok := i.v.(interface {
		invoke(st *State, name string, args []Value) Value
	}); ok {
		return nm.invoke(st, name, args)
	}
	m := st.findMethod(i.t, name)
	if m == nil {
		st.unsupported("no method %s on %v", name, i.t)
	}
	return st.callFn(m, append([]Value{i.v}, args...), nil, nil, nil)
}

var byteT = types.Typ[types.Uint8]

func (st *State) bytesOf(q *Seq) SliceV { return st.newSlice(byteT, q) }

var nilErr = IfaceV{}

func (st *State) eof() IfaceV  { return st.globalErr("io.EOF") }
func (st *State) ueof() IfaceV { return st.globalErr("io.ErrUnexpectedEOF") }
func (st *State) globalErr(n string) IfaceV {
	return st.namedErr(n)
}

func b64(st *State, v Value) *Term { return v.(*Term) }

// ---- bytes.Buffer and bytes.Reader

type BufV struct {
	s   SliceV // whole storage in use: s[0:len]
	off *Term
}

type RdV struct {
	s   SliceV
	pos *Term
}

func (st *State) nilSlice() SliceV { z := st.ts.I(0); return SliceV{Ptr{}, z, z, z} }

func (st *State) bufGet(p Value) (*BufV, Ptr) {
	q, ok := p.(Ptr)
	if !ok {
		st.unsupported("buffer receiver %T", p)
	}
	v := st.load(q)
	b, ok := v.(*BufV)
	if !ok {
		st.unsupported("buffer value %T", v)
	}
	return b, q
}

func (st *State) rdGet(p Value) (*RdV, Ptr) {
	q, ok := p.(Ptr)
	if !ok {
		st.unsupported("reader receiver %T", p)
	}
	return st.load(q).(*RdV), q
}

var u8SliceT = types.NewSlice(byteT)

func (st *State) bufWrite(p Value, q *Seq) *Term {
	b, ptr := st.bufGet(p)
	n := st.seqLen(q)
	if n.IsConst() && n.val == 0 {
		return n
	}
	s := b.s
	if s.isNil() {
		s = st.bytesOf(q)
	} else {
		add := st.bytesOf(q)
		s = st.appendOp(s, add, u8SliceT).(SliceV)
	}
	st.store(ptr, &BufV{s, b.off})
	return n
}

func (b *BufV) avail(st *State) *Term { return st.ts.Sub(b.s.ln, b.off) }

// readSome implements Read for a source with `avail` bytes left
func (st *State) readSome(avail *Term, p SliceV, take func(n *Term) *Seq) Value {
	ts := st.ts
	if st.Branch(ts.Eq(avail, ts.I(0))) {
		if st.Branch(ts.Eq(p.ln, ts.I(0))) {
			return TupleV{ts.I(0), nilErr}
		}
		return TupleV{ts.I(0), st.eof()}
	}
	n := p.ln
	if !st.Branch(ts.Ule(p.ln, avail)) {
		n = avail
	}
	if n.IsConst() && n.val == 0 {
		return TupleV{ts.I(0), nilErr}
	}
	st.writeRange(p, take(n), n)
	return TupleV{n, nilErr}
}

func (st *State) bufTake(ptr Ptr, n *Term) *Seq {
	b := st.load(ptr).(*BufV)
	if n.IsConst() && n.val == 0 {
		return emptySeq
	}
	q := st.sliceSeq(SliceV{b.s.base, st.ts.Add(b.s.off, b.off), n, n})
	st.store(ptr, &BufV{b.s, st.ts.Add(b.off, n)})
	return q
}

func (st *State) rdTake(ptr Ptr, n *Term) *Seq {
	r := st.load(ptr).(*RdV)
	if n.IsConst() && n.val == 0 {
		return emptySeq
	}
	q := st.sliceSeq(SliceV{r.s.base, st.ts.Add(r.s.off, r.pos), n, n})
	st.store(ptr, &RdV{r.s, st.ts.Add(r.pos, n)})
	return q
}

// rdAvail: bytes left, 0 when positioned beyond the end
func (st *State) rdAvail(r *RdV) *Term {
	ts := st.ts
	if st.Branch(ts.Sle(r.pos, r.s.ln)) {
		return ts.Sub(r.s.ln, r.pos)
	}
	return ts.I(0)
}

type byteSource struct {
	avail func() *Term
	take  func(n *Term) *Seq
}

func (st *State) nativeSource(r IfaceV) *byteSource {
	switch typeString(r.t) {
	case "*bytes.Buffer":
		b, ptr := st.bufGet(r.v)
		return &byteSource{func() *Term { return b.avail(st) }, func(n *Term) *Seq { return st.bufTake(ptr, n) }}
	case "*bytes.Reader":
		rd, ptr := st.rdGet(r.v)
		return &byteSource{func() *Term { return st.rdAvail(rd) }, func(n *Term) *Seq { return st.rdTake(ptr, n) }}
	}
	return nil
}

// readFull implements io.ReadFull(r, p) for destination p
func (st *State) readFull(r IfaceV, p SliceV) (n *Term, err IfaceV) {
	ts := st.ts
	if r.t == nil {
		st.goPanicRT("nil interface method call Read")
	}
	if src := st.nativeSource(r); src != nil {
		if st.Branch(ts.Eq(p.ln, ts.I(0))) {
			return ts.I(0), nilErr
		}
		av := src.avail()
		if st.Branch(ts.Ule(p.ln, av)) {
			st.writeRange(p, src.take(p.ln), p.ln)
			return p.ln, nilErr
		}
		if st.Branch(ts.Eq(av, ts.I(0))) {
			return ts.I(0), st.eof()
		}
		st.writeRange(p, src.take(av), av)
		return av, st.ueof()
	}
	if m := st.findMethod(r.t, "GvReadFull"); m != nil {
		t := st.callFn(m, []Value{r.v, p}, nil, nil, nil).(TupleV)
		return t[0].(*Term), t[1].(IfaceV)
	}
	// the definition: a loop of Read calls
	got := ts.I(0)
	for i := 0; ; i++ {
		if st.Branch(ts.Ule(p.ln, got)) {
			return got, nilErr
		}
		if i > st.eng.unroll {
			st.run.bound("io.ReadFull loop", fmt.Sprint(st.eng.unroll))
			panic(pathKill{"bound"})
		}
		rest := SliceV{p.base, ts.Add(p.off, got), ts.Sub(p.ln, got), ts.Sub(p.cap_, got)}
		t := st.callMethod(r, "Read", rest).(TupleV)
		got = ts.Add(got, t[0].(*Term))
		e := t[1].(IfaceV)
		if e.t != nil {
			if st.Branch(ts.Ule(p.ln, got)) {
				return got, nilErr
			}
			if st.Branch(st.valEq(e, st.eof(), nil)) {
				if st.Branch(ts.Eq(got, ts.I(0))) {
					return got, e
				}
				return got, st.ueof()
			}
			return got, e
		}
	}
}

func (st *State) writeTo(w IfaceV, q *Seq) (n *Term, err IfaceV) {
	if w.t != nil && typeString(w.t) == "*bytes.Buffer" {
		return st.bufWrite(w.v, q), nilErr
	}
	t := st.callMethod(w, "Write", st.bytesOf(q)).(TupleV)
	return t[0].(*Term), t[1].(IfaceV)
}

// ---- encoding/binary

func (st *State) isBig(order Value) bool {
	i := order.(IfaceV)
	if i.t == nil {
		st.goPanicRT("nil byte order")
	}
	switch typeString(i.t) {
	case "encoding/binary.littleEndian":
		return false
	case "encoding/binary.bigEndian":
		return true
	}
	st.unsupported("byte order %v", i.t)
	return false
}

func (st *State) intBytes(t *Term, big bool) []Value {
	n := t.w() / 8
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		b := st.ts.Extract(t, 8*i+7, 8*i)
		if big {
			out[n-1-i] = b
		} else {
			out[i] = b
		}
	}
	return out
}

func (st *State) bytesInt(b []Value, big bool) *Term {
	ts := make([]*Term, len(b))
	for i := range b { // Concat takes the most significant part first
		if big {
			ts[i] = b[i].(*Term)
		} else {
			ts[len(b)-1-i] = b[i].(*Term)
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return st.ts.Concat(ts...)
}

// binSize: fixed encoded size of a type, -1 when not fixed
func binSize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
		return -1
	case *types.Array:
		n := binSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * u.Len()
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// encode a fixed-size value
func (st *State) binEnc(v Value, t types.Type, big bool) *Seq {
	ts := st.ts
	switch u := under(t).(type) {
	case *types.Basic:
		x := v.(*Term)
		if u.Kind() == types.Bool {
			if st.Branch(x) {
				return litSeq(ts.BV(1, 8))
			}
			return litSeq(ts.BV(0, 8))
		}
		return litSeq(st.intBytes(x, big)...)
	case *types.Array:
		return st.binEncSeq(v.(*Seq), u.Elem(), big)
	case *types.Struct:
		q := emptySeq
		for i, f := range v.(*StructV).fs {
			ft := u.Field(i).Type()
			if u.Field(i).Name() == "_" {
				q = st.seqConcat(q, st.repSeq(ts.BV(0, 8), ts.BV(uint64(binSize(ft)), 64)))
				continue
			}
			q = st.seqConcat(q, st.binEnc(f, ft, big))
		}
		return q
	}
	st.unsupported("binary encoding of %v", t)
	return nil
}

func (st *State) binEncSeq(q *Seq, et types.Type, big bool) *Seq {
	es := binSize(et)
	if es == 1 {
		if b, ok := under(et).(*types.Basic); ok && b.Kind() != types.Bool {
			return q
		}
	}
	var out []*Seq
	for i := range q.segs {
		s := &q.segs[i]
		switch s.kind {
		case SegLit:
			for _, v := range s.vals {
				out = append(out, st.binEnc(v, et, big))
			}
		case SegAtom:
			out = append(out, st.encAtom(&Seq{segs: []Seg{*s}}, es, big))
		case SegRep:
			if t, ok := s.val.(*Term); ok && t.IsConst() {
				b := st.intBytes(t, big)
				same := true
				for _, x := range b {
					if x != b[0] {
						same = false
					}
				}
				if same {
					out = append(out, st.repSeq(b[0], st.ts.Mul(s.n, st.ts.I(int(es)))))
					continue
				}
			}
			st.unsupported("binary encoding of a repetition")
		default:
			st.unsupported("binary encoding of a fold")
		}
	}
	return st.seqConcat(out...)
}

// encAtom: the bytes of a symbolic sequence of fixed-size integers
func (st *State) encAtom(q *Seq, es int64, big bool) *Seq {
	ts := st.ts
	s := &q.segs[0]
	nm := fmt.Sprintf("enc%d%v", es, big)
	if s.atom.kind == fmt.Sprintf("dec%d%v", es, big) && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len {
		return s.atom.args[0].(*Seq)
	}
	key := ts.App(nm, SU, st.seqKey(q))
	ln := ts.Mul(s.n, ts.I(int(es)))
	a := &Atom{key: key, len: ln, kind: nm, args: []Value{q}}
	a.elem = func(st *State, idx *Term) Value {
		k := ts.Udiv(idx, ts.I(int(es)))
		r := ts.Urem(idx, ts.I(int(es)))
		e := st.seqGet(q, k).(*Term)
		sh := r
		if big {
			sh = ts.Sub(ts.I(int(es)-1), r)
		}
		return ts.Extract(ts.Lshr(ts.Zext(e, 64), ts.Mul(sh, ts.I(8))), 7, 0)
	}
	return atomSeq(a, ts.I(0))
}

// decAtom: bytes seen as n fixed-size integers
func (st *State) decSeq(q *Seq, n *Term, et types.Type, big bool) *Seq {
	ts := st.ts
	es := int(binSize(et))
	if es == 1 {
		if b, ok := under(et).(*types.Basic); ok && b.Kind() != types.Bool {
			return q
		}
	}
	if len(q.segs) == 0 {
		return emptySeq
	}
	// piecewise
	var out []*Seq
	ok := true
	for i := range q.segs {
		s := &q.segs[i]
		if s.kind == SegLit && len(s.vals)%es == 0 {
			for k := 0; k < len(s.vals); k += es {
				out = append(out, litSeq(st.binDec(litSeq(s.vals[k:k+es]...), et, big)))
			}
			continue
		}
		if s.kind == SegAtom && s.atom.kind == fmt.Sprintf("enc%d%v", es, big) && s.off.IsConst() && s.off.val == 0 && s.n == s.atom.len {
			out = append(out, s.atom.args[0].(*Seq))
			continue
		}
		if s.kind == SegRep {
			if t, ok := s.val.(*Term); ok && t.IsConst() && t.val == 0 && len(q.segs) == 1 {
				out = append(out, st.repSeq(ts.BV(0, es*8), n))
				continue
			}
		}
		ok = false
		break
	}
	if ok {
		return st.seqConcat(out...)
	}
	if n.IsConst() && n.val <= 64 {
		var vs []Value
		for i := 0; i < int(n.val); i++ {
			vs = append(vs, st.binDec(st.seqSlice(q, ts.I(i*es), ts.I(i*es+es)), et, big))
		}
		return litSeq(vs...)
	}
	nm := fmt.Sprintf("dec%d%v", es, big)
	key := ts.App(nm, SU, st.seqKey(q))
	a := &Atom{key: key, len: n, kind: nm, args: []Value{q}}
	a.elem = func(st *State, idx *Term) Value {
		o := ts.Mul(idx, ts.I(es))
		bs := make([]Value, es)
		for i := range bs {
			bs[i] = st.seqGet(q, ts.Add(o, ts.I(i)))
		}
		return st.bytesInt(bs, big)
	}
	return atomSeq(a, ts.I(0))
}

func (st *State) binDec(q *Seq, t types.Type, big bool) Value {
	ts := st.ts
	switch u := under(t).(type) {
	case *types.Basic:
		n := int(binSize(t))
		bs := make([]Value, n)
		for i := range bs {
			bs[i] = st.seqGet(q, ts.I(i))
		}
		v := st.bytesInt(bs, big)
		if u.Kind() == types.Bool {
			return ts.Not(ts.Eq(v, ts.BV(0, 8)))
		}
		return v
	case *types.Array:
		return st.decSeq(q, ts.BV(uint64(u.Len()), 64), u.Elem(), big)
	case *types.Struct:
		fs := make([]Value, u.NumFields())
		o := 0
		for i := range fs {
			n := int(binSize(u.Field(i).Type()))
			fs[i] = st.binDec(st.seqSlice(q, ts.I(o), ts.I(o+n)), u.Field(i).Type(), big)
			o += n
		}
		return &StructV{fs}
	}
	st.unsupported("binary decoding of %v", t)
	return nil
}

// dataSize: encoded size of the dynamic data (after one pointer indirection)
func (st *State) dataSeq(data IfaceV, big bool) (*Seq, bool) {
	t, v := data.t, data.v
	if t == nil {
		return nil, false
	}
	if p, ok := under(t).(*types.Pointer); ok {
		ptr, ok := v.(Ptr)
		if !ok {
			return nil, false
		}
		if ptr.obj == nil {
			if _, basic := under(p.Elem()).(*types.Basic); basic {
				st.goPanicRT("nil pointer dereference")
			}
			return nil, false
		}
		t, v = p.Elem(), st.load(ptr)
	}
	if s, ok := under(t).(*types.Slice); ok {
		if binSize(s.Elem()) < 0 {
			return nil, false
		}
		return st.binEncSeq(st.sliceSeq(v.(SliceV)), s.Elem(), big), true
	}
	if binSize(t) < 0 {
		return nil, false
	}
	return st.binEnc(v, t, big), true
}

func init() {
	nativeZero["bytes.Buffer"] = func(st *State) Value { return &BufV{st.nilSlice(), st.ts.I(0)} }
	nativeZero["bytes.Reader"] = func(st *State) Value { return &RdV{st.nilSlice(), st.ts.I(0)} }
	n := natives
	n["bytes.NewBuffer"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return Ptr{obj: st.newObj(nil, &BufV{a[0].(SliceV), st.ts.I(0)})}
	}
	n["bytes.NewBufferString"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return Ptr{obj: st.newObj(nil, &BufV{st.bytesOf(a[0].(StrV).s), st.ts.I(0)})}
	}
	n["bytes.NewReader"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return Ptr{obj: st.newObj(nil, &RdV{a[0].(SliceV), st.ts.I(0)})}
	}
	n["(*bytes.Buffer).Write"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return TupleV{st.bufWrite(a[0], st.sliceSeq(a[1].(SliceV))), nilErr}
	}
	n["(*bytes.Buffer).WriteString"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return TupleV{st.bufWrite(a[0], a[1].(StrV).s), nilErr}
	}
	n["(*bytes.Buffer).WriteByte"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.bufWrite(a[0], litSeq(a[1]))
		return nilErr
	}
	n["(*bytes.Buffer).Grow"] = func(st *State, fn *ssa.Function, a []Value) Value { return nil }
	n["(*bytes.Buffer).Bytes"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, _ := st.bufGet(a[0])
		if b.s.isNil() {
			return b.s
		}
		ts := st.ts
		return SliceV{b.s.base, ts.Add(b.s.off, b.off), ts.Sub(b.s.ln, b.off), ts.Sub(b.s.cap_, b.off)}
	}
	n["(*bytes.Buffer).String"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(Ptr); ok && p.obj == nil {
			return StrV{st.strSeq("<nil>")}
		}
		b, _ := st.bufGet(a[0])
		if b.s.isNil() {
			return StrV{emptySeq}
		}
		n := b.avail(st)
		return StrV{st.sliceSeq(SliceV{b.s.base, st.ts.Add(b.s.off, b.off), n, n})}
	}
	n["(*bytes.Buffer).Len"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, _ := st.bufGet(a[0])
		return b.avail(st)
	}
	n["(*bytes.Buffer).Reset"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, p := st.bufGet(a[0])
		z := st.ts.I(0)
		st.store(p, &BufV{SliceV{b.s.base, b.s.off, z, b.s.cap_}, z})
		return nil
	}
	n["(*bytes.Buffer).Truncate"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, p := st.bufGet(a[0])
		k := a[1].(*Term)
		st.check(st.ts.Ule(k, b.avail(st)), "bytes.Buffer: truncation out of range")
		st.store(p, &BufV{SliceV{b.s.base, b.s.off, st.ts.Add(b.off, k), b.s.cap_}, b.off})
		return nil
	}
	n["(*bytes.Buffer).Next"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, p := st.bufGet(a[0])
		k := a[1].(*Term)
		if !st.Branch(st.ts.Sle(k, b.avail(st))) {
			k = b.avail(st)
		}
		if b.s.isNil() {
			return b.s
		}
		st.store(p, &BufV{b.s, st.ts.Add(b.off, k)})
		return SliceV{b.s.base, st.ts.Add(b.s.off, b.off), k, k}
	}
	n["(*bytes.Buffer).Read"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, ptr := st.bufGet(a[0])
		return st.readSome(b.avail(st), a[1].(SliceV), func(k *Term) *Seq { return st.bufTake(ptr, k) })
	}
	n["(*bytes.Buffer).ReadByte"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, ptr := st.bufGet(a[0])
		if st.Branch(st.ts.Eq(b.avail(st), st.ts.I(0))) {
			return TupleV{st.ts.BV(0, 8), st.eof()}
		}
		return TupleV{st.seqGet(st.bufTake(ptr, st.ts.I(1)), st.ts.I(0)), nilErr}
	}
	n["(*bytes.Buffer).WriteTo"] = func(st *State, fn *ssa.Function, a []Value) Value {
		b, ptr := st.bufGet(a[0])
		av := b.avail(st)
		if st.Branch(st.ts.Eq(av, st.ts.I(0))) {
			return TupleV{st.ts.I(0), nilErr}
		}
		k, e := st.writeTo(a[1].(IfaceV), st.bufTake(ptr, av))
		return TupleV{k, e}
	}
	n["(*bytes.Reader).Read"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r, ptr := st.rdGet(a[0])
		av := st.rdAvail(r)
		if st.Branch(st.ts.Eq(av, st.ts.I(0))) {
			return TupleV{st.ts.I(0), st.eof()}
		}
		return st.readSome(av, a[1].(SliceV), func(k *Term) *Seq { return st.rdTake(ptr, k) })
	}
	n["(*bytes.Reader).ReadByte"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r, ptr := st.rdGet(a[0])
		if st.Branch(st.ts.Sle(r.s.ln, r.pos)) {
			return TupleV{st.ts.BV(0, 8), st.eof()}
		}
		return TupleV{st.seqGet(st.rdTake(ptr, st.ts.I(1)), st.ts.I(0)), nilErr}
	}
	n["(*bytes.Reader).UnreadByte"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r, ptr := st.rdGet(a[0])
		if st.Branch(st.ts.Sle(r.pos, st.ts.I(0))) {
			return st.errorValue("bytes.Reader.UnreadByte: at beginning of slice")
		}
		st.store(ptr, &RdV{r.s, st.ts.Sub(r.pos, st.ts.I(1))})
		return nilErr
	}
	n["(*bytes.Reader).Len"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r, _ := st.rdGet(a[0])
		return st.rdAvail(r)
	}
	n["(*bytes.Reader).Size"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r, _ := st.rdGet(a[0])
		return r.s.ln
	}
	n["(*bytes.Reader).Seek"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r, ptr := st.rdGet(a[0])
		ts := st.ts
		w := a[2].(*Term)
		if !w.IsConst() {
			st.unsupported("symbolic whence")
		}
		var base *Term
		switch w.val {
		case 0:
			base = ts.I(0)
		case 1:
			base = r.pos
		case 2:
			base = r.s.ln
		default:
			return TupleV{ts.I(0), st.errorValue("bytes.Reader.Seek: invalid whence")}
		}
		np := ts.Add(base, a[1].(*Term))
		if st.Branch(ts.Slt(np, ts.I(0))) {
			return TupleV{ts.I(0), st.errorValue("bytes.Reader.Seek: negative position")}
		}
		st.store(ptr, &RdV{r.s, np})
		return TupleV{np, nilErr}
	}
	n["io.ReadFull"] = func(st *State, fn *ssa.Function, a []Value) Value {
		k, e := st.readFull(a[0].(IfaceV), a[1].(SliceV))
		return TupleV{k, e}
	}
	n["io.ReadAll"] = func(st *State, fn *ssa.Function, a []Value) Value {
		src := st.nativeSource(a[0].(IfaceV))
		if src == nil {
			if m := st.findMethod(a[0].(IfaceV).t, "GvReadAll"); m != nil {
				return st.callFn(m, []Value{a[0].(IfaceV).v}, nil, nil, nil)
			}
			st.unsupported("io.ReadAll")
		}
		return TupleV{st.bytesOf(src.take(src.avail())), nilErr}
	}
	n["io.CopyN"] = func(st *State, fn *ssa.Function, a []Value) Value {
		ts := st.ts
		d, s := a[0].(IfaceV), a[1].(IfaceV)
		k := a[2].(*Term)
		src := st.nativeSource(s)
		if src == nil || d.t == nil || (typeString(d.t) != "io.discard" && typeString(d.t) != "*bytes.Buffer") {
			st.unsupported("io.CopyN on %v", s.t)
		}
		if st.Branch(ts.Sle(k, ts.I(0))) {
			if st.Branch(ts.Slt(k, ts.I(0))) {
				// a negative limit copies nothing; written(0) != n and no error gives EOF only when written < n
				return TupleV{ts.I(0), nilErr}
			}
			return TupleV{ts.I(0), nilErr}
		}
		av := src.avail()
		put := func(q *Seq) {
			if typeString(d.t) == "*bytes.Buffer" {
				st.bufWrite(d.v, q)
			}
		}
		if st.Branch(ts.Ule(k, av)) {
			put(src.take(k))
			return TupleV{k, nilErr}
		}
		put(src.take(av))
		return TupleV{av, st.eof()}
	}
	nativeGlobals["io.Discard"] = func(st *State) Value {
		t := st.pkgType("io", "discard")
		return IfaceV{t: t, v: st.zero(t)}
	}
	nativeGlobals["encoding/binary.LittleEndian"] = func(st *State) Value { return &StructV{} }
	nativeGlobals["encoding/binary.BigEndian"] = func(st *State) Value { return &StructV{} }
	n["encoding/binary.Size"] = func(st *State, fn *ssa.Function, a []Value) Value {
		i := a[0].(IfaceV)
		if i.t == nil {
			return st.ts.I(-1)
		}
		t, v := i.t, i.v
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			if ptr, ok := v.(Ptr); ok && ptr.obj != nil {
				v = st.load(ptr)
			}
		}
		if s, ok := under(t).(*types.Slice); ok {
			es := binSize(s.Elem())
			if es < 0 {
				return st.ts.I(-1)
			}
			return st.ts.Mul(v.(SliceV).ln, st.ts.I(int(es)))
		}
		return st.ts.I(int(binSize(t)))
	}
	n["encoding/binary.Write"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q, ok := st.dataSeq(a[2].(IfaceV), st.isBig(a[1]))
		if !ok {
			return st.errorValue("binary.Write: some values are not fixed-sized")
		}
		_, e := st.writeTo(a[0].(IfaceV), q)
		return e
	}
	n["encoding/binary.Append"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q, ok := st.dataSeq(a[2].(IfaceV), st.isBig(a[1]))
		if !ok {
			return TupleV{st.nilSlice(), st.errorValue("binary.Append: some values are not fixed-sized")}
		}
		return TupleV{st.appendOp(a[0].(SliceV), st.bytesOf(q), u8SliceT), nilErr}
	}
	n["encoding/binary.Read"] = func(st *State, fn *ssa.Function, a []Value) Value {
		big := st.isBig(a[1])
		d := a[2].(IfaceV)
		ts := st.ts
		if d.t == nil {
			return st.errorValue("binary.Read: invalid type")
		}
		var size *Term
		var set func(q *Seq)
		switch u := under(d.t).(type) {
		case *types.Pointer:
			ptr := d.v.(Ptr)
			et := u.Elem()
			if s, ok := under(et).(*types.Slice); ok {
				sl := st.load(ptr).(SliceV)
				return st.binReadSlice(a[0].(IfaceV), sl, s.Elem(), big)
			}
			n := binSize(et)
			if n < 0 {
				return st.errorValue("binary.Read: invalid type")
			}
			size = ts.BV(uint64(n), 64)
			set = func(q *Seq) { st.store(ptr, st.binDec(q, et, big)) }
			if ptr.obj == nil {
				st.goPanicRT("nil pointer dereference")
			}
		case *types.Slice:
			return st.binReadSlice(a[0].(IfaceV), d.v.(SliceV), u.Elem(), big)
		default:
			return st.errorValue("binary.Read: invalid type")
		}
		tmp := st.newSlice(byteT, st.repSeq(ts.BV(0, 8), size))
		_, e := st.readFull(a[0].(IfaceV), tmp)
		if e.t != nil {
			return e
		}
		set(st.sliceSeq(tmp))
		return nilErr
	}
	for _, w := range []int{16, 32, 64} {
		for _, big := range []bool{false, true} {
			w, big := w, big
			tn := "encoding/binary.littleEndian"
			if big {
				tn = "encoding/binary.bigEndian"
			}
			n[fmt.Sprintf("(%s).Uint%d", tn, w)] = func(st *State, fn *ssa.Function, a []Value) Value {
				s := a[1].(SliceV)
				st.check(st.ts.Ule(st.ts.I(w/8), s.ln), "index out of range")
				q := st.sliceSeq(SliceV{s.base, s.off, st.ts.I(w / 8), st.ts.I(w / 8)})
				return st.binDec(q, types.Typ[map[int]types.BasicKind{16: types.Uint16, 32: types.Uint32, 64: types.Uint64}[w]], big)
			}
			n[fmt.Sprintf("(%s).PutUint%d", tn, w)] = func(st *State, fn *ssa.Function, a []Value) Value {
				s := a[1].(SliceV)
				st.check(st.ts.Ule(st.ts.I(w/8), s.ln), "index out of range")
				st.writeRange(s, litSeq(st.intBytes(a[2].(*Term), big)...), st.ts.I(w/8))
				return nil
			}
			n[fmt.Sprintf("(%s).AppendUint%d", tn, w)] = func(st *State, fn *ssa.Function, a []Value) Value {
				return st.appendOp(a[1].(SliceV), st.bytesOf(litSeq(st.intBytes(a[2].(*Term), big)...)), u8SliceT)
			}
		}
	}

	// ---- checksums: uninterpreted over the bytes and the table parameters
	n["github.com/sigurn/crc8.MakeTable"] = func(st *State, fn *ssa.Function, a []Value) Value {
		o := st.newObj(nil, a[0])
		o.note = "crc8table"
		return Ptr{obj: o}
	}
	n["github.com/sigurn/crc8.Checksum"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q := st.sliceSeq(a[0].(SliceV))
		tab := st.valKey(st.load(a[1].(Ptr)))
		return st.hashUF("crc8", 8, q, tab)
	}
	nativeGlobals["hash/crc32.IEEETable"] = func(st *State) Value {
		o := st.newObj(nil, st.ts.BV(uint64(crc32.IEEE), 32))
		return Ptr{obj: o}
	}
	n["hash/crc32.MakeTable"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return Ptr{obj: st.newObj(nil, a[0])}
	}
	n["hash/crc32.Checksum"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q := st.sliceSeq(a[0].(SliceV))
		tab := st.valKey(st.load(a[1].(Ptr)))
		return st.hashUF("crc32", 32, q, tab)
	}
	n["hash/crc32.ChecksumIEEE"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.hashUF("crc32", 32, st.sliceSeq(a[0].(SliceV)), st.ts.BV(uint64(crc32.IEEE), 32))
	}
	n["crypto/md5.Sum"] = func(st *State, fn *ssa.Function, a []Value) Value {
		q := st.sliceSeq(a[0].(SliceV))
		if s, ok := st.concreteStr(q); ok {
			h := md5.Sum([]byte(s))
			return st.strSeq(string(h[:]))
		}
		hi := st.hashUF("md5hi", 64, q, st.ts.BV(0, 8))
		lo := st.hashUF("md5lo", 64, q, st.ts.BV(0, 8))
		return litSeq(append(st.intBytes(hi, true), st.intBytes(lo, true)...)...)
	}

	// ---- errors and formatting
	n["errors.New"] = func(st *State, fn *ssa.Function, a []Value) Value {
		o := st.newObj(st.eng.errStruct, &StructV{[]Value{a[0]}})
		return IfaceV{t: st.eng.errPtr, v: Ptr{obj: o}}
	}
	n["fmt.Errorf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		f, _ := st.concreteStr(a[0].(StrV).s)
		if strings.Contains(f, "%w") {
			es := st.sliceSeq(a[1].(SliceV))
			if len(es.segs) == 1 && es.segs[0].kind == SegLit {
				k := 0
				for i := 0; i+1 < len(f); i++ {
					if f[i] != '%' {
						continue
					}
					if f[i+1] == '%' {
						i++
						continue
					}
					if f[i+1] == 'w' {
						break
					}
					k++
				}
				if k < len(es.segs[0].vals) {
					inner := es.segs[0].vals[k].(IfaceV)
					wt := st.pkgType("fmt", "wrapError")
					o := st.newObj(wt, &StructV{[]Value{StrV{st.strSeq(f)}, inner}})
					return IfaceV{t: types.NewPointer(wt), v: Ptr{obj: o}}
				}
			}
		}
		e := st.errorValue(f)
		es := st.sliceSeq(a[1].(SliceV))
		if len(es.segs) == 1 && es.segs[0].kind == SegLit {
			st.store(e.v.(Ptr).field(0), StrV{st.errText(f, es.segs[0].vals)})
		}
		return e
	}
	n["(*fmt.wrapError).Error"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.load(a[0].(Ptr).field(0))
	}
	n["(*fmt.wrapError).Unwrap"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.load(a[0].(Ptr).field(1))
	}
	n["errors.Is"] = func(st *State, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(IfaceV), a[1].(IfaceV)
		for i := 0; i < 50; i++ {
			if e.t == nil || t.t == nil {
				return st.ts.Bool(e.t == nil && t.t == nil)
			}
			if st.Branch(st.valEq(e, t, nil)) {
				return st.ts.True
			}
			if m := st.findMethod(e.t, "Is"); m != nil {
				if st.Branch(st.callFn(m, []Value{e.v, t}, nil, nil, nil).(*Term)) {
					return st.ts.True
				}
			}
			u := st.findMethod(e.t, "Unwrap")
			if u == nil {
				return st.ts.Fals
			}
			r, ok := st.callFn(u, []Value{e.v}, nil, nil, nil).(IfaceV)
			if !ok {
				st.unsupported("errors.Is over joined errors")
			}
			e = r
		}
		st.unsupported("errors.Is depth")
		return nil
	}
	n["errors.As"] = func(st *State, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(IfaceV), a[1].(IfaceV)
		pt, ok := under(t.t).(*types.Pointer)
		if !ok {
			st.goPanicRT("errors: target must be a non-nil pointer")
		}
		for i := 0; i < 50 && e.t != nil; i++ {
			if it, isI := under(pt.Elem()).(*types.Interface); isI {
				if st.implements(e.t, it) {
					st.store(t.v.(Ptr), e)
					return st.ts.True
				}
			} else if types.Identical(e.t, pt.Elem()) {
				st.store(t.v.(Ptr), e.v)
				return st.ts.True
			}
			u := st.findMethod(e.t, "Unwrap")
			if u == nil {
				break
			}
			r, ok := st.callFn(u, []Value{e.v}, nil, nil, nil).(IfaceV)
			if !ok {
				st.unsupported("errors.As over joined errors")
			}
			e = r
		}
		return st.ts.Fals
	}
	noop := func(st *State, fn *ssa.Function, a []Value) Value { return nil }
	for _, f := range []string{"log.Printf", "log.Println", "log.Print"} {
		n[f] = noop
	}
	for _, f := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		n[f] = func(st *State, fn *ssa.Function, a []Value) Value { return TupleV{st.ts.I(0), nilErr} }
	}
	n["fmt.Sprintf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		f, ok := st.concreteStr(a[0].(StrV).s)
		if !ok {
			st.unsupported("symbolic format")
		}
		es := st.sliceSeq(a[1].(SliceV))
		var vs []Value
		if len(es.segs) == 1 && es.segs[0].kind == SegLit {
			vs = es.segs[0].vals
		} else if len(es.segs) > 0 {
			st.unsupported("symbolic argument list")
		}
		return StrV{st.sprintf(f, vs)}
	}
	n["fmt.Sprint"] = func(st *State, fn *ssa.Function, a []Value) Value {
		es := st.sliceSeq(a[0].(SliceV))
		if len(es.segs) == 1 && es.segs[0].kind == SegLit && len(es.segs[0].vals) == 1 {
			return StrV{st.sprintf("%v", es.segs[0].vals)}
		}
		st.unsupported("fmt.Sprint")
		return nil
	}
}

func (st *State) binReadSlice(r IfaceV, s SliceV, et types.Type, big bool) Value {
	ts := st.ts
	es := binSize(et)
	if es < 0 {
		return st.errorValue("binary.Read: invalid type")
	}
	size := ts.Mul(s.ln, ts.I(int(es)))
	tmp := st.newSlice(byteT, st.repSeq(ts.BV(0, 8), size))
	_, e := st.readFull(r, tmp)
	if e.t != nil {
		return e
	}
	if s.isNil() {
		return nilErr
	}
	if s.ln.IsConst() && s.ln.val == 0 {
		return nilErr
	}
	st.writeRange(s, st.decSeq(st.sliceSeq(tmp), s.ln, et, big), s.ln)
	return nilErr
}

func (st *State) hashUF(name string, w int, q *Seq, tab *Term) *Term {
	st.run.assumption(name + " is an uninterpreted function of the bytes and the table")
	k := st.seqKey(q)
	t := st.ts.App(fmt.Sprintf("%s.%d", name, tab.sort), Sort(w), k, tab)
	if s, ok := st.concreteStr(q); ok && name == "crc32" && tab.IsConst() {
		t = st.ts.BV(uint64(crc32.Checksum([]byte(s), crc32.MakeTable(uint32(tab.val)))), 32)
	}
	// congruence over content: the same bytes may be held as different ropes
	for _, h := range st.hashes {
		if h.name != name || h.tab != tab {
			continue
		}
		if h.t == t {
			return t
		}
		if st.pure == 0 && st.valid(st.ts.Eq(st.seqLen(h.q), st.seqLen(q))) && st.valid(st.ts.And(st.seqGoal(h.q, q)...)) {
			return h.t
		}
	}
	if dbgHash {
		for _, h := range st.hashes {
			if h.name == name {
				fmt.Println("HASH differs:", st.seqLen(h.q), st.seqLen(q), st.seqGoal(h.q, q), st.seqKey(h.q), k)
			}
		}
	}
	st.hashes = append(st.hashes, hashCall{name, tab, q, t})
	return t
}

type hashCall struct {
	name string
	tab  *Term
	q    *Seq
	t    *Term
}

// ---- formatting

func (st *State) hexDigit(d *Term, upper bool) *Term { // d: 4 bits wide
	ts := st.ts
	e := ts.Zext(d, 8)
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	return ts.Ite(ts.Ult(e, ts.BV(10, 8)), ts.Add(e, ts.BV('0', 8)), ts.Add(e, ts.BV(a, 8)))
}

func (st *State) hexFixed(t *Term, upper bool) []Value {
	var out []Value
	for i := t.w()/4 - 1; i >= 0; i-- {
		out = append(out, st.hexDigit(st.ts.Extract(t, 4*i+3, 4*i), upper))
	}
	return out
}

func (st *State) sprintf(f string, vs []Value) *Seq {
	out := emptySeq
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = st.seqConcat(out, st.strSeq(f[i:j]))
			i = j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789+-# .", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return st.seqConcat(out, st.strSeq(f[i:]))
		}
		spec, verb := f[i+1:j], f[j]
		i = j + 1
		if verb == '%' {
			out = st.seqConcat(out, st.strSeq("%"))
			continue
		}
		if ai >= len(vs) {
			st.unsupported("format arguments")
		}
		v := vs[ai].(IfaceV)
		ai++
		out = st.seqConcat(out, st.fmtOne(spec, verb, v))
	}
	return out
}

// errText formats what formats without a case split and leaves the other verbs as they are
func (st *State) errText(f string, vs []Value) *Seq {
	out := emptySeq
	ai := 0
	for i := 0; i < len(f); {
		j := i
		for j < len(f) && f[j] != '%' {
			j++
		}
		out = st.seqConcat(out, st.strSeq(f[i:j]))
		i = j
		if i+1 >= len(f) || f[i+1] == '%' || ai >= len(vs) {
			if i < len(f) {
				k := min(i+2, len(f))
				out = st.seqConcat(out, st.strSeq(f[i:k]))
				i = k
			}
			continue
		}
		k := i + 1
		for k < len(f)-1 && strings.IndexByte("0123456789+-# .", f[k]) >= 0 {
			k++
		}
		v, ok := vs[ai].(IfaceV)
		ai++
		verb := f[k]
		plain := false
		if ok && v.t != nil && k == i+1 && (verb == 'v' || verb == 's' || verb == 'd') {
			switch x := v.v.(type) {
			case StrV:
				plain = verb != 'd' && st.findMethod(v.t, "Error") == nil && st.findMethod(v.t, "String") == nil
			case *Term:
				b, isB := under(v.t).(*types.Basic)
				plain = x.IsConst() && isB && b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v' && st.findMethod(v.t, "Error") == nil && st.findMethod(v.t, "String") == nil)
			}
		}
		if plain {
			out = st.seqConcat(out, st.fmtOne("", verb, v))
		} else {
			out = st.seqConcat(out, st.strSeq(f[i:k+1]))
		}
		i = k + 1
	}
	return out
}

func (st *State) fmtOne(spec string, verb byte, v IfaceV) *Seq {
	ts := st.ts
	if (verb == 'v' || verb == 's') && v.t != nil && spec == "" {
		if m := st.findMethod(v.t, "Error"); m != nil {
			return st.callFn(m, []Value{v.v}, nil, nil, nil).(StrV).s
		}
		if m := st.findMethod(v.t, "String"); m != nil && m.Signature.Results().Len() == 1 && isStringT(m.Signature.Results().At(0).Type()) {
			return st.callFn(m, []Value{v.v}, nil, nil, nil).(StrV).s
		}
	}
	switch x := v.v.(type) {
	case StrV:
		if verb == 's' || verb == 'v' {
			if spec == "" {
				return x.s
			}
		}
		if verb == 'x' || verb == 'X' {
			if r := st.hexPadded(x.s, spec, verb == 'X'); r != nil {
				return r
			}
		}
	case SliceV:
		if s, ok := under(v.t).(*types.Slice); ok && isByte(s.Elem()) {
			if verb == 'x' || verb == 'X' {
				if r := st.hexPadded(st.sliceSeq(x), spec, verb == 'X'); r != nil {
					return r
				}
			}
			if verb == 's' && spec == "" {
				return st.sliceSeq(x)
			}
		}
	case *Seq:
		if a, ok := under(v.t).(*types.Array); ok && isByte(a.Elem()) && (verb == 'x' || verb == 'X') {
			if r := st.hexPadded(x, spec, verb == 'X'); r != nil {
				return r
			}
		}
	case *Term:
		if x.sort == SBool {
			if st.Branch(x) {
				return st.strSeq("true")
			}
			return st.strSeq("false")
		}
		if isFloat(v.t) {
			break
		}
		sg := isSigned(v.t)
		if x.IsConst() {
			if sg {
				return st.strSeq(fmt.Sprintf("%"+spec+string(verb), sext64(x.val, x.w())))
			}
			return st.strSeq(fmt.Sprintf("%"+spec+string(verb), x.val))
		}
		if verb == 'x' || verb == 'X' {
			if sg {
				if st.Branch(ts.Slt(x, ts.BV(0, x.w()))) {
					break
				}
			}
			var w int
			zero := strings.HasPrefix(spec, "0")
			fmt.Sscanf(spec, "%d", &w)
			if spec == "" || zero {
				nd := x.w() / 4
				digs := st.hexFixed(x, verb == 'X')
				// number of significant digits
				k := nd
				for k > 1 {
					if k <= w {
						break
					}
					if st.Branch(ts.Eq(ts.Extract(x, 4*k-1, 4*k-4), ts.BV(0, 4))) {
						k--
						continue
					}
					break
				}
				if k < w && w <= nd {
					k = w
				}
				r := litSeq(digs[nd-k:]...)
				if w > nd {
					r = st.seqConcat(st.repSeq(ts.BV('0', 8), ts.I(w-nd)), litSeq(digs...))
				}
				return r
			}
		}
		if (verb == 'd' || verb == 'v') && spec == "" {
			return st.itoa(ts.Resize(x, 64, sg), sg)
		}
	}
	// opaque text
	key := ts.App("fmt."+hashStr(spec+string(verb)), SU, st.keyU(v))
	return st.opaqueStr(key, "fmt")
}

func (st *State) keyU(v Value) *Term {
	k := st.valKey(v)
	if k.sort != SU {
		k = st.ts.App(fmt.Sprintf("u.%d", k.sort), SU, k)
	}
	return k
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// hexPadded: %x of bytes with an optional (zero-padded) minimum width
func (st *State) hexPadded(q *Seq, spec string, upper bool) *Seq {
	w := 0
	if spec != "" {
		if _, err := fmt.Sscanf(spec, "%d", &w); err != nil || strings.Trim(spec, "0123456789") != "" {
			return nil
		}
	}
	r := st.hexBytes(q, upper)
	if n := int(st.seqLen(r).val); n < w {
		pad := byte(' ')
		if spec[0] == '0' {
			pad = '0'
		}
		r = st.seqConcat(st.repSeq(st.ts.BV(uint64(pad), 8), st.ts.I(w-n)), r)
	}
	return r
}

func (st *State) hexBytes(q *Seq, upper bool) *Seq {
	n := st.seqLen(q)
	if !n.IsConst() || n.val > 64 {
		st.unsupported("hex of symbolic length")
	}
	var out []Value
	for i := 0; i < int(n.val); i++ {
		b := st.seqGet(q, st.ts.I(i)).(*Term)
		out = append(out, st.hexFixed(b, upper)...)
	}
	return litSeq(out...)
}

// opaqueStr: text about which only its identity is known
func (st *State) opaqueStr(key *Term, kind string) *Seq {
	ts := st.ts
	ln := ts.App("strlen", 64, key)
	st.axiomOnce(fmt.Sprintf("strlen.%d", key.id), func() *Term { return ts.Ult(ln, ts.BV(1<<40, 64)) })
	a := &Atom{key: key, len: ln, kind: kind}
	a.elem = func(st *State, idx *Term) Value { return ts.App("strat", 8, key, idx) }
	return atomSeq(a, ts.I(0))
}

// itoa: decimal text of a 64-bit integer
func (st *State) itoa(x *Term, signed bool) *Seq {
	if x.IsConst() {
		if signed {
			return st.strSeq(fmt.Sprint(int64(x.val)))
		}
		return st.strSeq(fmt.Sprint(x.val))
	}
	ts := st.ts
	nm := "itoa"
	if !signed {
		nm = "utoa"
	}
	key := ts.App(nm, SU, x)
	ln := ts.App(nm+"len", 64, x)
	st.axiomOnce(fmt.Sprintf("%slen.%d", nm, x.id), func() *Term {
		return ts.And(ts.Ule(ts.I(1), ln), ts.Ule(ln, ts.I(20)))
	})
	a := &Atom{key: key, len: ln, kind: nm, args: []Value{x}}
	a.elem = func(st *State, idx *Term) Value { return ts.App(nm+"at", 8, x, idx) }
	return atomSeq(a, ts.I(0))
}

var dbgHash = os.Getenv("GV_DBGHASH") != ""
