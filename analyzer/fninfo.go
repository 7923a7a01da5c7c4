package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FnInfo holds per function facts: register numbers, loop headers and liveness.
type FnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	vals    []ssa.Value
	header  []bool // per block
	loopOf  map[int]map[int]bool
	liveIn  []map[int]bool
	liveOut []map[int]bool
	exits   map[int][]loopExit
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, num: map[ssa.Value]int{}, loopOf: map[int]map[int]bool{}}
	add := func(v ssa.Value) {
		if _, ok := fi.num[v]; !ok {
			fi.num[v] = len(fi.vals)
			fi.vals = append(fi.vals, v)
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	fi.header = make([]bool, n)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				fi.header[s.Index] = true
				body := fi.loopOf[s.Index]
				if body == nil {
					body = map[int]bool{s.Index: true}
					fi.loopOf[s.Index] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x.Index] {
						continue
					}
					body[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	fi.findExits()
	fi.liveIn = make([]map[int]bool, n)
	fi.liveOut = make([]map[int]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
		fi.liveOut[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := fi.liveOut[i]
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, in := range s.Instrs {
							phi, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if id, ok := fi.num[phi.Edges[pi]]; ok && !out[id] {
								out[id] = true
								changed = true
							}
						}
					}
				}
			}
			live := map[int]bool{}
			for v := range out {
				live[v] = true
			}
			fi.back(b, len(b.Instrs), 0, live)
			for v := range live {
				if !fi.liveIn[i][v] {
					fi.liveIn[i][v] = true
					changed = true
				}
			}
		}
	}
	return fi
}

// back walks the instructions [to,from) backwards and updates the live set.
func (fi *FnInfo) back(b *ssa.BasicBlock, from, to int, live map[int]bool) {
	for k := from - 1; k >= to; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(live, fi.num[v])
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if op == nil || *op == nil {
				continue
			}
			if id, ok := fi.num[*op]; ok {
				live[id] = true
			}
		}
	}
}

// liveAt returns the registers that are live before instruction pc of block b.
func (fi *FnInfo) liveAt(b, pc int) map[int]bool {
	live := map[int]bool{}
	for v := range fi.liveOut[b] {
		live[v] = true
	}
	fi.back(fi.fn.Blocks[b], len(fi.fn.Blocks[b].Instrs), pc, live)
	return live
}

// loopExit is a branch that leaves a loop, is passed in every round, and compares integers or asks an iterator.
type loopExit struct {
	block int
	cond  ssa.Value
}

func (fi *FnInfo) findExits() {
	fi.exits = map[int][]loopExit{}
	for h, body := range fi.loopOf {
		for bi := range body {
			b := fi.fn.Blocks[bi]
			c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || body[b.Succs[0].Index] && body[b.Succs[1].Index] || !countCond(c.Cond) {
				continue
			}
			every := true
			for _, p := range fi.fn.Blocks[h].Preds {
				if body[p.Index] && !b.Dominates(p) {
					every = false
				}
			}
			if every {
				fi.exits[h] = append(fi.exits[h], loopExit{bi, c.Cond})
			}
		}
	}
}

// condSource is the value whose evaluation decides a condition.
func condSource(v ssa.Value) ssa.Value {
	if x, ok := v.(*ssa.Extract); ok {
		return x.Tuple
	}
	return v
}

func countCond(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Int
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	}
	return false
}
