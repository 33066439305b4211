package main

import (
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	Name string
	Fn   *ssa.Function
}

// execLoop runs a loop atomically from its header state and returns the edges
// that leave it.
func (x *Exec) execLoop(fr *Frame, l *Loop, st *State) []edge {
	if x.cut[l.id] || x.cutFn[l.fn.Name()] || x.cutFn[l.fn.Name()+l.id[strings.LastIndexByte(l.id, 0x23):]] {
		return x.cutLoop(fr, l, st)
	}
	return x.unrollLoop(fr, l, st)
}

const maxUndecided = 48

func (x *Exec) unrollLoop(fr *Frame, l *Loop, st *State) []edge {
	var out []edge
	undecided := 0
	ask, giveUp := 3, false
	for it := 0; ; it++ {
		if it > x.unroll {
			if x.inits {
				panic("init: loop too long " + l.id)
			}
			panic(needCut{l})
		}
		exits, backs := x.runRegion(fr, l, l.header, st)
		for _, e := range exits {
			out = append(out, e)
		}
		if len(backs) == 0 {
			return out
		}
		var ss []*State
		for _, e := range backs {
			x.phis(fr.fi, e)
			x.dropDead(fr.fi, l.header, e.st)
			ss = append(ss, e.st)
		}
		before := st.pc
		_ = before
		st = x.mergeAll(ss)
		if len(exits) > 0 {
			undecided++
			lim := maxUndecided
			if len(x.cut)+len(x.cutFn) > 0 {
				lim = 10
			}
			if undecided > lim && !x.boundedByConst(fr, l, st) {
				panic(needCut{l})
			}
			// occasionally ask the solver whether going on is possible
			if undecided >= ask && !giveUp && !x.boundedByConst(fr, l, st) {
				ask += 1 + undecided/4
				v := prove(st.pc.conds(), tFalse, 2*time.Second, []string{"z3"}, false)
				if v.res == Valid {
					return out
				}
				giveUp = v.res == Unknown
			}
		}
	}
}

// boundedByConst: the header's own guard is decided in this state (so exits
// come from breaks inside a loop with a concrete trip count).
func (x *Exec) boundedByConst(fr *Frame, l *Loop, st *State) bool {
	b := l.header
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	// evaluate simple comparisons of phis with constants
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isC := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const:
			return true
		default:
			if i, ok := fr.fi.idx[v]; ok && st.regs[i] != nil {
				t, ok := st.regs[i].(*Term)
				return ok && t.isConst()
			}
			if bb, ok := v.(*ssa.BinOp); ok {
				_ = bb
				return true
			}
		}
		return false
	}
	return isC(bo.X) && isC(bo.Y)
}
