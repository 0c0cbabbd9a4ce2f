package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type iterInfo struct {
	pos int // choices made before the iteration
	n   int
}

func (st *State) enterLoopHeader(fr *Frame, b *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
	if st.cuttable(fr.fn) {
		key := loopKey(fr, b)
		if st.run.cutKnown(key) != nil {
			if st.pure > 0 {
				panic(mergeAbort{})
			}
			st.cutHeader(fr, b)
			return nil, false
		}
		body := st.eng.loopsOf(fr.fn)[b]
		back := fr.prev != nil && body[fr.prev]
		if back && fr.symexits[b] > 0 {
			st.run.cutFound(key)
			panic(pathKill{"again"})
		}
		// exits decided by what the body finds out: a fork within the iteration
		if fr.iters == nil {
			fr.iters = map[*ssa.BasicBlock]*iterInfo{}
		}
		it := fr.iters[b]
		if !back || it == nil {
			it = &iterInfo{pos: st.pos}
			fr.iters[b] = it
		}
		if back {
			it.n++
			exits := false
			for _, s := range b.Succs {
				exits = exits || !body[s]
			}
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if _, bi := c.Call.Value.(*ssa.Builtin); !bi {
						exits = false // not a counted loop
					}
				}
			}
			if st.pos > it.pos && (!exits || it.n > 40) {
				st.run.cutFound(key)
				panic(pathKill{"again"})
			}
			if !exits {
				it.pos = st.pos
			}
		}
	}
	if fr.prev != nil && !st.eng.loopsOf(fr.fn)[b][fr.prev] {
		delete(fr.symexits, b) // a new entry
	}
	if fr.symexits[b] > 0 {
		lim, set := st.unroll, true
		if lim == 0 {
			lim, set = st.eng.unroll, false
		}
		if fr.symexits[b] > lim {
			where := fmt.Sprintf("loop of %s", fnName(fr.fn))
			if !set {
				st.unsupported("%s: no bound on the number of iterations", where)
			}
			st.run.bound(where, fmt.Sprintf("at most %d iterations", lim))
			panic(pathKill{"bound"})
		}
	}
	return nil, false
}

// noteSymExit counts symbolic exit decisions of the loops around b
func (st *State) noteSymExit(fr *Frame, b *ssa.BasicBlock) {
	for h, body := range st.eng.loopsOf(fr.fn) {
		if !body[b] {
			continue
		}
		for _, s := range b.Succs {
			if !body[s] {
				if fr.symexits == nil {
					fr.symexits = map[*ssa.BasicBlock]int{}
				}
				fr.symexits[h]++
				break
			}
		}
	}
}
