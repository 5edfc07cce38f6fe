package main

// Loops: havoc + Houdini-selected invariants, or bounded unrolling.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopPoint struct {
	st   *State
	phi  map[*ssa.Phi]*Term
	iter *Term
}

type Cand struct {
	id    int
	desc  string
	alive bool
	loop  string
	user  bool
	group string
}

func (x *Exec) loopKeep(k string, pre *State) bool {
	if strings.HasPrefix(k, "L$") || strings.HasPrefix(k, "VIS") {
		_, ok := pre.h[k]
		return ok
	}
	return true
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func (x *Exec) runLoop(fr *Frame, l *Loop, in []edge) []edge {
	x.sawLoop = true
	if x.unroll > 0 {
		return x.unrollLoop(fr, l, in)
	}
	pre := x.enterBlock(fr, l.header, in)
	phis := phisOf(l.header)
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = x.term(fr.env[p], p.Type())
	}
	loopName := fmt.Sprintf("%s#loop%d", fnKey(fr.fn), l.ord)

	// which heap keys does the body write?
	na, no, nc := len(x.assumes), len(x.obls), len(x.cands)
	nr, np, nd := len(fr.rets), len(fr.panics), len(fr.defers)
	saveW := x.writes
	x.writes = map[string]bool{}
	x.dry++
	ds := pre.clone()
	for _, p := range phis {
		fr.env[p] = Val{t: x.freshOf(ds, "dry."+p.Name(), p.Type())}
	}
	x.run(fr, l, l.header, []edge{{nil, l.header, ds}}, true)
	x.dry--
	wr := x.writes
	x.writes = saveW
	x.assumes, x.obls, x.cands = x.assumes[:na], x.obls[:no], x.cands[:nc]
	if len(fr.defers) != nd {
		panic(unsupported("defer inside a loop in " + fr.fn.String()))
	}
	fr.rets, fr.panics = fr.rets[:nr], fr.panics[:np]

	var keys []string
	for k := range wr {
		if x.loopKeep(k, pre) {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		if (keys[i] == allocKey) != (keys[j] == allocKey) {
			return keys[i] == allocKey
		}
		return keys[i] < keys[j]
	})
	for _, k := range keys {
		x.get(pre, k)
	}
	head := pre.clone()
	for _, k := range keys {
		x.havocKey(head, k)
	}
	cur := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		v := x.freshOf(head, "phi."+p.Name(), p.Type())
		cur[p] = v
		fr.env[p] = Val{t: v}
	}
	iter := Fresh("iter", "Int")
	x.assumes = append(x.assumes, Assume{t: Ge(iter, Int(0))})

	var cands []*Cand
	var fns []func(*LoopPoint) *Term
	if x.dry == 0 {
		add := func(desc string, user bool, f func(*LoopPoint) *Term) {
			c := &Cand{id: len(x.cands) + 1, desc: desc, alive: true, loop: loopName, user: user, group: x.curGroup}
			x.cands = append(x.cands, c)
			cands = append(cands, c)
			fns = append(fns, f)
		}
		x.autoCands(fr, l, pre, init, keys, add)
		x.userCands(fr, l, pre, init, add)
		p0 := &LoopPoint{st: pre, phi: init, iter: Int(0)}
		for i, c := range cands {
			o := x.oblige(pre, c.loop+": invariant holds on entry: "+c.desc, "loopinv", fns[i](p0), "")
			o.cand, o.group = c, c.group
		}
		h := &LoopPoint{st: head, phi: cur, iter: iter}
		for i, c := range cands {
			t := Implies(head.pc, fns[i](h))
			if t != True {
				x.assumes = append(x.assumes, Assume{t: t, cand: c})
			}
		}
	}
	back, out := x.run(fr, l, l.header, []edge{{nil, l.header, head.clone()}}, true)
	if x.dry == 0 && len(back) > 0 {
		b := x.enterBlock(fr, l.header, back)
		nxt := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			nxt[p] = x.term(fr.env[p], p.Type())
			fr.env[p] = Val{t: cur[p]}
		}
		lp := &LoopPoint{st: b, phi: nxt, iter: Add(iter, Int(1))}
		for i, c := range cands {
			o := x.oblige(b, c.loop+": invariant preserved: "+c.desc, "loopinv", fns[i](lp), "")
			o.cand, o.group = c, c.group
		}
	} else {
		for _, p := range phis {
			fr.env[p] = Val{t: cur[p]}
		}
	}
	return out
}

func (x *Exec) autoCands(fr *Frame, l *Loop, pre *State, init map[*ssa.Phi]*Term, keys []string, add func(string, bool, func(*LoopPoint) *Term)) {
	phis := phisOf(l.header)
	// loop-invariant bounds appearing in comparisons
	var bounds []*Term
	seenB := map[int]bool{}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			for _, y := range []ssa.Value{bo.X, bo.Y} {
				if sortOf(y.Type()) != "Int" || !isIntT(y.Type()) {
					continue
				}
				if iv, ok := y.(ssa.Instruction); ok && l.blocks[iv.Block()] {
					continue
				}
				v := x.val(fr, pre, y)
				if v.t != nil && !seenB[v.t.id] {
					seenB[v.t.id] = true
					bounds = append(bounds, v.t)
				}
			}
		}
	}
	for _, p := range phis {
		p := p
		i0 := init[p]
		n := p.Name()
		add(n+" unchanged", false, func(q *LoopPoint) *Term { return Eq(q.phi[p], i0) })
		switch {
		case i0.sort == "Int" && isIntT(p.Type()):
			add(n+" == init+iter", false, func(q *LoopPoint) *Term { return Eq(q.phi[p], Add(i0, q.iter)) })
			add(n+" == init-iter", false, func(q *LoopPoint) *Term { return Eq(q.phi[p], Sub(i0, q.iter)) })
			add(n+" >= init", false, func(q *LoopPoint) *Term { return Ge(q.phi[p], i0) })
			for _, b := range bounds {
				b := b
				add(n+" <= bound", false, func(q *LoopPoint) *Term { return Le(q.phi[p], b) })
				add(n+" < bound", false, func(q *LoopPoint) *Term { return Lt(q.phi[p], b) })
			}
		case i0.sort == "Slice":
			add(n+" same backing array", false, func(q *LoopPoint) *Term { return Eq(sRef(q.phi[p]), sRef(i0)) })
			add(n+" same cap", false, func(q *LoopPoint) *Term { return Eq(sCap(q.phi[p]), sCap(i0)) })
			add(n+" len == init+iter", false, func(q *LoopPoint) *Term { return Eq(sLen(q.phi[p]), Add(sLen(i0), q.iter)) })
			add(n+" len <= init+iter", false, func(q *LoopPoint) *Term { return Le(sLen(q.phi[p]), Add(sLen(i0), q.iter)) })
			a0 := x.get(x.entry, allocKey)
			add(n+" backing array local", false, func(q *LoopPoint) *Term {
				return Or(Eq(sRef(q.phi[p]), Int(0)), Ge(sRef(q.phi[p]), a0))
			})
			ap := x.get(pre, allocKey)
			add(n+" backing array initial or made in the loop", false, func(q *LoopPoint) *Term {
				return Or(Eq(sRef(q.phi[p]), sRef(i0)), Ge(sRef(q.phi[p]), ap))
			})
		case i0.sort == "Int":
			add(n+" non-nil", false, func(q *LoopPoint) *Term { return Ne(q.phi[p], Int(0)) })
		case i0.sort == "Iface":
			add(n+" non-nil", false, func(q *LoopPoint) *Term { return Ne(iTag(q.phi[p]), Int(0)) })
			add(n+" nil", false, func(q *LoopPoint) *Term { return Eq(iTag(q.phi[p]), Int(0)) })
		}
	}
	if it := x.rangeIter(l, fr); it != nil {
		q := BoundVar("q", sortOf(it.mt.Key()))
		dk, _, _ := x.mkeys(it.mt)
		add("visited keys were in the map", false, func(p *LoopPoint) *Term {
			v := Select(x.get(p.st, it.vis), q)
			return Forall([]*Term{q}, Implies(v, Select(it.start, q)), []*Term{v})
		})
		add("visited keys are in the map", false, func(p *LoopPoint) *Term {
			v := Select(x.get(p.st, it.vis), q)
			return Forall([]*Term{q}, Implies(v, Select(Select(x.get(p.st, dk), it.m), q)), []*Term{v})
		})
	}
	a0 := x.get(x.entry, allocKey)
	ap := x.get(pre, allocKey)
	for _, k := range keys {
		k := k
		if strings.HasPrefix(k, "VISN$") {
			add("visited count == iter", false, func(q *LoopPoint) *Term { return Eq(x.get(q.st, k), q.iter) })
			continue
		}
		if strings.HasPrefix(k, "L$") || strings.HasPrefix(k, "G$") || strings.HasPrefix(k, "GG$") || k == panicKey {
			v0 := x.get(pre, k)
			add(k+" unchanged", false, func(q *LoopPoint) *Term { return Eq(x.get(q.st, k), v0) })
			if v0.sort == "Slice" {
				add(k+" len == init+iter", false, func(q *LoopPoint) *Term { return Eq(sLen(x.get(q.st, k)), Add(sLen(v0), q.iter)) })
			}
			if v0.sort == "Int" && isIntKey(k) {
				add(k+" == init+iter", false, func(q *LoopPoint) *Term { return Eq(x.get(q.st, k), Add(v0, q.iter)) })
			}
			continue
		}
		if !strings.HasPrefix(heapSort[k], "(Array Int") || strings.HasPrefix(k, "VIS") {
			continue
		}
		v0 := x.get(pre, k)
		r := BoundVar("r", "Int")
		frame := func(guard *Term) func(q *LoopPoint) *Term {
			if strings.HasPrefix(k, "MV$") { // a nil map has no values
				guard = And(guard, Ne(r, Int(0)))
			}
			return func(q *LoopPoint) *Term {
				v := x.get(q.st, k)
				return Forall([]*Term{r}, Implies(guard, Eq(Select(v, r), Select(v0, r))), []*Term{Select(v, r)})
			}
		}
		add("frame "+k+" (objects existing before the loop)", false, frame(inAlloc(r, ap)))
		add("frame "+k+" (objects existing at entry)", false, frame(inAlloc(r, a0)))
		var excl []*Term
		for _, m := range x.modRefs(k) {
			excl = append(excl, Ne(r, m))
		}
		n := len(excl)
		if n > 0 {
			add("frame "+k+" (outside modifies)", false, frame(And(append(excl, inAlloc(r, a0))...)))
			add("frame "+k+" (outside modifies, incl. local objects)", false, frame(And(append(excl, inAlloc(r, ap))...)))
		}
		if strings.HasPrefix(k, "E$") {
			seen := map[int]bool{}
			for _, p := range phis {
				if init[p].sort == "Slice" && "E$"+tname(p.Type().Underlying().(*types.Slice).Elem()) == k {
					rf := sRef(init[p])
					if !seen[rf.id] {
						seen[rf.id] = true
						excl = append(excl, Ne(r, rf))
					}
				}
			}
			// slices defined outside the loop and written inside
			for v, val := range fr.env {
				if val.t == nil || val.t.sort != "Slice" {
					continue
				}
				if st, ok := v.Type().Underlying().(*types.Slice); !ok || "E$"+tname(st.Elem()) != k {
					continue
				}
				if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
					continue
				}
				rf := sRef(val.t)
				if !seen[rf.id] {
					seen[rf.id] = true
					excl = append(excl, Ne(r, rf))
				}
			}
			if len(excl) > n {
				add("frame "+k+" (other arrays)", false, frame(And(append(excl, inAlloc(r, ap))...)))
			}
		}
		if strings.HasPrefix(k, "M") {
			seen := map[int]bool{}
			n := len(excl)
			for v, val := range fr.env {
				if val.t == nil {
					continue
				}
				mt, ok := v.Type().Underlying().(*types.Map)
				if !ok {
					continue
				}
				d, vv, ll := mapKeys(mt)
				if k != d && k != vv && k != ll {
					continue
				}
				if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
					continue
				}
				if !seen[val.t.id] {
					seen[val.t.id] = true
					excl = append(excl, Ne(r, val.t))
				}
			}
			if len(excl) > n {
				add("frame "+k+" (other maps)", false, frame(And(append(excl, inAlloc(r, ap))...)))
			}
		}
	}
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isIntKey(k string) bool {
	t, ok := keyTypes[k]
	return ok && isIntT(t)
}

// supplier of values for a template placeholder
type supplier struct {
	name string
	f    func(q *LoopPoint) *Term
}

func (x *Exec) suppliers(fr *Frame, l *Loop, pre *State, init map[*ssa.Phi]*Term, t types.Type, only string) []supplier {
	var out []supplier
	seen := map[string]bool{}
	for _, p := range phisOf(l.header) {
		p := p
		if only != "new" && types.Identical(p.Type(), t) {
			out = append(out, supplier{p.Name(), func(q *LoopPoint) *Term { return q.phi[p] }})
		}
	}
	for f := fr; f != nil; f = f.parent {
		var lk []string
		for k := range f.locals {
			lk = append(lk, k)
		}
		sort.Strings(lk)
		for _, k := range lk {
			k := k
			if _, ok := pre.h[k]; ok && only == "" && types.Identical(f.locals[k], t) {
				out = append(out, supplier{k, func(q *LoopPoint) *Term { return x.get(q.st, k) }})
			}
		}
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			val := f.env[v]
			if _, ok := v.(*ssa.Phi); only == "phi" && !ok {
				continue
			}
			if _, ok := v.(*ssa.Alloc); only == "new" && !ok {
				continue
			}
			if val.t == nil || val.t.op == "int" || !types.Identical(v.Type(), t) {
				continue
			}
			if f == fr {
				if ins, ok := v.(ssa.Instruction); ok {
					if l.blocks[ins.Block()] || !ins.Block().Dominates(l.header) {
						continue
					}
				}
			}
			key := fmt.Sprint(val.t.id)
			if seen[key] {
				continue
			}
			seen[key] = true
			tm := val.t
			out = append(out, supplier{v.Name(), func(q *LoopPoint) *Term { return tm }})
		}
	}
	return out
}

func (x *Exec) userCands(fr *Frame, l *Loop, pre *State, init map[*ssa.Phi]*Term, add func(string, bool, func(*LoopPoint) *Term)) {
	defer func() { x.curGroup = "" }()
	for _, tp := range x.spec.LoopInv {
		x.curGroup = tp.Group
		sets := make([][]supplier, len(tp.Params))
		for i, p := range tp.Params {
			sets[i] = x.suppliers(fr, l, pre, init, p.typ, tp.Only[i])
		}
		var rec func(i int, chosen []supplier)
		rec = func(i int, chosen []supplier) {
			if i == len(tp.Params) {
				ch := append([]supplier{}, chosen...)
				var nm []string
				for j, c := range ch {
					nm = append(nm, tp.Params[j].name+"="+c.name)
				}
				add("template line "+fmt.Sprint(tp.Line)+" ["+strings.Join(nm, ",")+"]", true, func(q *LoopPoint) *Term {
					env := x.newEnv(q.st)
					env.lentry = pre
					for j, p := range tp.Params {
						env.vars[p.name] = SVal{t: ch[j].f(q), ty: p.typ}
					}
					env.vars["$i"] = SVal{t: q.iter, ty: types.Typ[types.Int]}
					if v := x.visOf(l, fr, q.st); v != nil {
						env.vars["$vis"] = *v
					}
					return env.boolExpr(tp.E)
				})
				return
			}
			for _, s := range sets[i] {
				rec(i+1, append(chosen, s))
			}
		}
		if tp.UsesVis && x.visOf(l, fr, pre) == nil {
			continue
		}
		if tp.Plain && x.rangeIter(l, fr) != nil {
			continue
		}
		if tp.Over != nil {
			if _, m := tp.Over.Underlying().(*types.Map); !m { // any loop that is no range over a map
				if x.rangeIter(l, fr) != nil || !l.indexes(tp.Over) {
					continue
				}
			} else if it := x.rangeIter(l, fr); it == nil || !types.Identical(it.mt, tp.Over.Underlying()) {
				continue
			}
		}
		rec(0, nil)
	}
}

// visOf finds the visited set of the map range driving loop l.
func (x *Exec) visOf(l *Loop, fr *Frame, st *State) *SVal {
	for _, ins := range l.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if v, ok := fr.env[nx.Iter]; ok && v.it != nil && !v.it.str {
				return &SVal{t: x.get(st, v.it.vis), arrK: v.it.mt.Key(), arrV: types.Typ[types.Bool]}
			}
		}
	}
	return nil
}

// indexes reports whether l runs over a slice of type t, as far as that can be told.
func (l *Loop) indexes(t types.Type) bool {
	ctr := map[ssa.Value]bool{}
	for _, ins := range l.header.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			ctr[p] = true
		}
	}
	for _, ins := range l.header.Instrs {
		if b, ok := ins.(*ssa.BinOp); ok && ctr[b.X] {
			ctr[b] = true
		}
	}
	any := false
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			if i, ok := ins.(*ssa.IndexAddr); ok && ctr[i.Index] {
				if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
					any = true
					if types.Identical(i.X.Type().Underlying(), t.Underlying()) {
						return true
					}
				}
			}
		}
	}
	return !any
}

func (x *Exec) rangeIter(l *Loop, fr *Frame) *mapIter {
	for _, ins := range l.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if v, ok := fr.env[nx.Iter]; ok && v.it != nil && !v.it.str {
				return v.it
			}
		}
	}
	return nil
}

// unrollLoop executes the loop body x.unroll times and drops longer executions.
func (x *Exec) unrollLoop(fr *Frame, l *Loop, in []edge) []edge {
	type exitEdge struct {
		e    edge
		snap map[ssa.Value]Val
	}
	var outs []exitEdge
	cur := in
	for k := 0; k <= x.unroll && len(cur) > 0; k++ {
		st := x.enterBlock(fr, l.header, cur)
		back, out := x.run(fr, l, l.header, []edge{{nil, l.header, st}}, true)
		snap := map[ssa.Value]Val{}
		for v, val := range fr.env {
			if ins, ok := v.(ssa.Instruction); ok && ins.Block() != nil && l.blocks[ins.Block()] {
				snap[v] = val
			}
		}
		for _, e := range out {
			outs = append(outs, exitEdge{e, snap})
		}
		cur = back
	}
	if len(outs) == 0 {
		return nil
	}
	// merge values defined in the loop and used outside
	var pcs []*Term
	for _, o := range outs {
		pcs = append(pcs, o.e.st.pc)
	}
	conds := factorPCs(pcs)
	for v := range outs[0].snap {
		used := false
		if rs := v.Referrers(); rs != nil {
			for _, r := range *rs {
				if !l.blocks[r.Block()] {
					used = true
				}
			}
		}
		if !used {
			continue
		}
		var vs []Val
		var cs []*Term
		for i, o := range outs {
			if val, ok := o.snap[v]; ok {
				vs = append(vs, val)
				cs = append(cs, conds[i])
			}
		}
		if vs[0].it != nil {
			continue
		}
		fr.env[v] = x.mergeVals(v.Type(), cs, vs)
	}
	var res []edge
	for _, o := range outs {
		res = append(res, o.e)
	}
	return res
}
