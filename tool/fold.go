package main

// placeholders until loops are summarised
func (st *State) foldSplit(s *Seg, rel *Term) (l, r []Seg, ok bool) { return nil, nil, false }
func (st *State) foldEqGoal(x, y *Seg) ([]*Term, bool)              { return nil, false }
func (st *State) foldUnfoldHead(s *Seg) bool                        { return false }
func (st *State) exposeHead(q *Seq) *Seq                            { return q }

type MapFold struct{}
type AbsPtr struct{}
