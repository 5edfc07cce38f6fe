package main

// Calls: builtins, inlining, contracts, dynamic dispatch, defers and panics.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fnKey(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, "github.com/project-flogo/", "")
}

func (x *Exec) callArgs(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var vs []Val
	for _, a := range c.Args {
		vs = append(vs, x.val(fr, st, a))
	}
	var f Val
	if c.IsInvoke() {
		f = Val{t: x.tv(fr, st, c.Value)}
	} else if c.StaticCallee() == nil {
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			f = x.val(fr, st, c.Value)
		}
	} else {
		f = x.val(fr, st, c.Value)
	}
	return f, vs
}

// call executes a call instruction; res receives the result value.
func (x *Exec) call(fr *Frame, st *State, ins *ssa.Call, c *ssa.CallCommon, _ *int) *State {
	f, vs := x.callArgs(fr, st, c)
	st2, r := x.doCall(fr, st, c, f, vs)
	if ins != nil {
		fr.env[ins] = r
	}
	return st2
}

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, f Val, vs []Val) (*State, Val) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, c, b, vs)
	}
	if c.IsInvoke() {
		return x.invoke(fr, st, c, f.t, vs)
	}
	if fn := c.StaticCallee(); fn != nil {
		return x.callFn(fr, st, fn, f.binds, vs, x.pos(c.Pos()))
	}
	if f.fn != nil {
		return x.callFn(fr, st, f.fn, f.binds, vs, x.pos(c.Pos()))
	}
	x.note("call of an unknown function value: arbitrary result, no effect on module state (" + x.pos(c.Pos()) + ")")
	return st, x.freshResults(st, "dyn", c.Signature())
}

func (x *Exec) freshResults(st *State, hint string, sig *types.Signature) Val {
	rs := sig.Results()
	switch rs.Len() {
	case 0:
		return Val{tup: []Val{}}
	case 1:
		return Val{t: x.freshOf(st, hint, rs.At(0).Type())}
	}
	v := Val{}
	for i := 0; i < rs.Len(); i++ {
		v.tup = append(v.tup, Val{t: x.freshOf(st, hint, rs.At(i).Type())})
	}
	return v
}

func resVal(rs []Val) Val {
	if len(rs) == 1 {
		return rs[0]
	}
	return Val{tup: rs}
}

func (x *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, recv *Term, vs []Val) (*State, Val) {
	it := c.Value.Type()
	pos := x.pos(c.Pos())
	// a known dynamic type is called directly, unless the interface method has its own contract
	if sp := x.w.ifaceSpec(it, c.Method); sp != nil {
		if tg, ok := intVal(iTag(recv)); !ok || tg == 0 || !x.w.isRepoType(tagTypes[tg]) {
			args := append([]Val{{t: recv}}, vs...)
			return x.callSpec(fr, st, sp, c.Signature(), it, args, pos)
		}
	}
	if n, ok := intVal(iTag(recv)); ok && n > 0 {
		return x.invokeOn(fr, st, tagTypes[n], c.Method, recv, vs, pos)
	}
	impls := closedWorld[tname(it)]
	if len(impls) == 0 {
		// any interface whose possible tags are syntactically known
		if tags, ok := possibleTags(iTag(recv)); ok {
			for _, n := range tags {
				if n > 0 {
					impls = append(impls, tagTypes[n])
				}
			}
		}
	}
	if len(impls) == 0 {
		k := "(" + tname(it) + ")." + c.Method.Name()
		x.note("external interface method without contract: arbitrary result, no effect on module state: " + k)
		return st, x.freshResults(st, c.Method.Name(), c.Signature())
	}
	var outs []retState
	var extra []*Term
	for _, t := range impls {
		s := st.clone()
		s.pc = And(st.pc, Eq(iTag(recv), tagOf(t)))
		if s.pc == False {
			continue
		}
		if len(impls) == 1 {
			// closed world: the only implementation
			s.pc = st.pc
			x.assume(st, Eq(iTag(recv), tagOf(t)))
		}
		s2, r := x.invokeOn(fr, s, t, c.Method, recv, vs, pos)
		// what the implementation's normal exit adds to the path
		eq := Eq(iTag(recv), tagOf(t))
		if len(impls) > 1 {
			if s2.pc == False {
				extra = append(extra, Not(eq))
			} else {
				known := map[int]bool{eq.id: true}
				for _, c := range conj(st.pc) {
					known[c.id] = true
				}
				var rest []*Term
				for _, c := range conj(s2.pc) {
					if !known[c.id] {
						rest = append(rest, c)
					}
				}
				extra = append(extra, Or(Not(eq), And(rest...)))
			}
		}
		if s2.pc != False {
			outs = append(outs, retState{s2, []Val{r}})
		}
	}
	if len(impls) > 1 {
		var alts []*Term
		for _, t := range impls {
			alts = append(alts, Eq(iTag(recv), tagOf(t)))
		}
		x.assume(st, Or(alts...))
	}
	if len(outs) == 0 {
		st.pc = False
		return st, x.freshResults(st, "x", c.Signature())
	}
	var sts []*State
	var pcs []*Term
	var rv []Val
	for _, o := range outs {
		sts = append(sts, o.st)
		pcs = append(pcs, o.st.pc)
		rv = append(rv, o.res[0])
	}
	m := x.mergeStates(sts)
	if len(impls) > 1 {
		m.pc = And(append([]*Term{st.pc}, extra...)...) // the implementations are exhaustive
	}
	var rt types.Type = c.Signature().Results()
	if c.Signature().Results().Len() == 1 {
		rt = c.Signature().Results().At(0).Type()
	}
	if len(rv) == 1 {
		return m, rv[0]
	}
	return m, x.mergeVals(rt, factorPCs(pcs), rv)
}

func possibleTags(t *Term) ([]int64, bool) {
	if n, ok := intVal(t); ok {
		return []int64{n}, true
	}
	if t.op == "ite" {
		a, ok1 := possibleTags(t.args[1])
		b, ok2 := possibleTags(t.args[2])
		if ok1 && ok2 {
			seen := map[int64]bool{}
			var out []int64
			for _, n := range append(a, b...) {
				if !seen[n] {
					seen[n] = true
					out = append(out, n)
				}
			}
			return out, true
		}
	}
	return nil, false
}

func (x *Exec) invokeOn(fr *Frame, st *State, t types.Type, m *types.Func, recv *Term, vs []Val, pos string) (*State, Val) {
	fn := x.w.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("method " + m.Name() + " of " + t.String()))
	}
	r := unbox(t, recv)
	args := append([]Val{{t: r}}, vs...)
	return x.callFn(fr, st, fn, nil, args, pos)
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, binds, vs []Val, pos string) (*State, Val) {
	k := fnKey(fn)
	if h := special[k]; h != nil {
		return h(x, fr, st, fn, vs)
	}
	if fn.Origin() != nil {
		k = fnKey(fn.Origin())
	}
	if sp := x.w.specs[k]; sp != nil && !sp.Inline && !(x.spec.InlineAll[k]) {
		return x.callSpec(fr, st, sp, fn.Signature, nil, vs, pos)
	}
	if len(fn.Blocks) > 0 && (x.w.isRepoFn(fn) || fn.Synthetic != "" || fn.Parent() != nil) {
		for _, f := range x.stack {
			if f == fn {
				panic(unsupported("recursive call of " + k + " without a contract"))
			}
		}
		if len(x.stack) > 60 {
			panic(unsupported("inlining depth"))
		}
		if x.dry == 0 {
			x.inlined[k] = true
		}
		return x.inline(fr, st, fn, binds, vs)
	}
	if k != "" && !quietExt(k) {
		x.note("external function without contract: arbitrary result, no effect on module state: " + k)
	}
	return st, x.freshResults(st, fn.Name(), fn.Signature)
}

func quietExt(k string) bool {
	return strings.HasPrefix(k, "fmt.") || strings.Contains(k, "log.")
}

// inline executes the body of fn in place.
func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, binds, vs []Val) (*State, Val) {
	x.stack = append(x.stack, fn)
	nf, rets, pan := x.body(fr, fn, binds, vs, st)
	x.stack = x.stack[:len(x.stack)-1]
	if pan != nil {
		if fr == nil {
			panic(unsupported("panic outside a frame"))
		}
		fr.panics = append(fr.panics, pan)
	}
	if len(rets) == 0 {
		st.pc = False
		d := &State{pc: False, h: st.h}
		return d, x.freshResults(d, "dead", fn.Signature)
	}
	_ = nf
	s, rs := x.mergeRets(fn, rets)
	return s, resVal(rs)
}

func (x *Exec) mergeRets(fn *ssa.Function, rets []retState) (*State, []Val) {
	var sts []*State
	var pcs []*Term
	for _, r := range rets {
		sts = append(sts, r.st)
		pcs = append(pcs, r.st.pc)
	}
	m := x.mergeStates(sts)
	conds := factorPCs(pcs)
	n := fn.Signature.Results().Len()
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		var vs []Val
		for _, r := range rets {
			vs = append(vs, r.res[i])
		}
		out[i] = x.mergeVals(fn.Signature.Results().At(i).Type(), conds, vs)
	}
	return m, out
}

// body runs fn from st; returns its normal exits and the merged escaping panic state (or nil).
func (x *Exec) body(parent *Frame, fn *ssa.Function, binds, vs []Val, st *State) (*Frame, []retState, *State) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, locals: map[string]types.Type{}}
	analyze(nf)
	for i, p := range fn.Params {
		nf.env[p] = vs[i]
	}
	for i, p := range fn.FreeVars {
		if i >= len(binds) {
			panic(unsupported("missing closure binding in " + fn.String()))
		}
		nf.env[p] = binds[i]
	}
	x.frames = append(x.frames, nf)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	s0 := st.clone()
	x.run(nf, nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], s0}}, false)
	var esc *State
	if len(nf.panics) > 0 {
		var ps []*State
		for _, p := range nf.panics {
			if p.pc != False {
				ps = append(ps, p)
			}
		}
		nf.panics = nil
		if len(ps) > 0 {
			p := x.mergeStates(ps)
			p = x.runDefers(nf, p, true)
			pv := x.get(p, panicKey)
			rec := And(p.pc, Eq(iTag(pv), Int(0)))
			un := And(p.pc, Ne(iTag(pv), Int(0)))
			if rec != False {
				r := p.clone()
				r.pc = rec
				if fn.Recover != nil {
					x.runBlock(nf, fn.Recover, r)
				} else {
					var zs []Val
					for i := 0; i < fn.Signature.Results().Len(); i++ {
						zs = append(zs, Val{t: zeroOf(fn.Signature.Results().At(i).Type())})
					}
					nf.rets = append(nf.rets, retState{r, zs})
				}
			}
			var escs []*State
			if un != False {
				e := p.clone()
				e.pc = un
				escs = append(escs, e)
			}
			for _, q := range nf.panics { // panics raised by the deferred calls
				if q.pc != False {
					escs = append(escs, q)
				}
			}
			if len(escs) > 0 {
				esc = x.mergeStates(escs)
			}
		}
	}
	var rets []retState
	for _, r := range nf.rets {
		if r.st.pc != False {
			rets = append(rets, r)
		}
	}
	return nf, rets, esc
}

func (x *Exec) runDefers(fr *Frame, st *State, panicking bool) *State {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		pc0 := st.pc
		run := And(pc0, d.cond)
		if run == False {
			continue
		}
		if run == pc0 {
			var s2 *State
			s2, _ = x.doCall(fr, st, &d.call, d.fnv, d.vals)
			st = s2
			continue
		}
		no := st.clone()
		no.pc = And(pc0, Not(d.cond))
		yes := st.clone()
		yes.pc = run
		s2, _ := x.doCall(fr, yes, &d.call, d.fnv, d.vals)
		var parts []*State
		if s2.pc != False {
			parts = append(parts, s2)
		}
		if no.pc != False {
			parts = append(parts, no)
		}
		if len(parts) == 0 {
			st.pc = False
			return st
		}
		st = x.mergeStates(parts)
	}
	return st
}

func (x *Exec) builtin(fr *Frame, st *State, c *ssa.CallCommon, b *ssa.Builtin, vs []Val) (*State, Val) {
	at := func(i int) *Term { return x.term(vs[i], c.Args[i].Type()) }
	switch b.Name() {
	case "len", "cap":
		v := at(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return st, Val{t: sCap(v)}
			}
			return st, Val{t: sLen(v)}
		case *types.Map:
			return st, Val{t: x.mapLen(st, u, v)}
		case *types.Basic:
			if l, ok := litOf(v); ok {
				return st, Val{t: Int(int64(len(l)))}
			}
			n := App("strlen$", "Int", v)
			x.assumes = append(x.assumes, Assume{t: Ge(n, Int(0))}, Assume{t: Eq(Eq(n, Int(0)), Eq(v, StrLit("")))})
			return st, Val{t: n}
		case *types.Array:
			return st, Val{t: Int(u.Len())}
		case *types.Pointer:
			return st, Val{t: Int(u.Elem().Underlying().(*types.Array).Len())}
		}
		return st, Val{t: x.freshOf(st, "len", types.Typ[types.Int])}
	case "append":
		return st, Val{t: x.doAppend(st, c.Args[0].Type(), at(0), at(1), c.Args[1].Type())}
	case "copy":
		n := x.freshOf(st, "copied", types.Typ[types.Int])
		if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
			d, s := at(0), at(1)
			k := x.ekey(sl.Elem())
			a := x.get(st, k)
			arr := Fresh("cpy", ArrSort("Int", sortOf(sl.Elem())))
			j := BoundVar("j", "Int")
			x.assume(st, Eq(n, Ite(Lt(sLen(d), sLen(s)), sLen(d), sLen(s))))
			x.assume(st, Forall([]*Term{j}, Eq(Select(arr, j), Ite(And(Le(Int(0), j), Lt(j, n)), Select(Select(a, sRef(s)), j), Select(Select(a, sRef(d)), j))), []*Term{Select(arr, j)}))
			x.set(st, k, Store(a, sRef(d), arr))
		}
		return st, Val{t: n}
	case "delete":
		x.mapDelete(st, c.Args[0].Type().Underlying().(*types.Map), at(0), at(1))
		return st, Val{tup: []Val{}}
	case "panic":
		s := st.clone()
		x.set(s, panicKey, at(0))
		fr.panics = append(fr.panics, s)
		st.pc = False
		return st, Val{tup: []Val{}}
	case "recover":
		p := x.get(st, panicKey)
		x.set(st, panicKey, nilIf)
		return st, Val{t: p}
	case "min", "max":
		a := at(0)
		for i := 1; i < len(vs); i++ {
			b2 := at(i)
			if b.Name() == "min" {
				a = Ite(Lt(b2, a), b2, a)
			} else {
				a = Ite(Lt(a, b2), b2, a)
			}
		}
		return st, Val{t: a}
	case "print", "println", "close":
		return st, Val{tup: []Val{}}
	case "ssa:wrapnilchk":
		return st, vs[0]
	case "clear":
		if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			d, _, l := x.mkeys(m)
			r := at(0)
			x.set(st, d, Store(x.get(st, d), r, ConstArr(ArrSort(sortOf(m.Key()), "Bool"), False)))
			x.set(st, l, Store(x.get(st, l), r, Int(0)))
			return st, Val{tup: []Val{}}
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Exec) mapLen(st *State, m *types.Map, r *Term) *Term {
	d, _, l := x.mkeys(m)
	n := Select(x.get(st, l), r)
	D := Select(x.get(st, d), r)
	k := BoundVar("k", sortOf(m.Key()))
	if !n.bound && !D.bound {
		x.assume(st, Ge(n, Int(0)))
		x.assume(st, Implies(Eq(n, Int(0)), Forall([]*Term{k}, Not(Select(D, k)), []*Term{Select(D, k)})))
		w := Fresh("wit", sortOf(m.Key()))
		x.assume(st, Implies(Gt(n, Int(0)), Select(D, w)))
	}
	return n
}

func (x *Exec) doAppend(st *State, t types.Type, s, add *Term, addT types.Type) *Term {
	el := t.Underlying().(*types.Slice).Elem()
	k := x.ekey(el)
	if sortOf(addT) == "Str" {
		return x.freshOf(st, "append", t)
	}
	r := x.alloc(st, "append")
	n := sLen(s)
	var m *Term = sLen(add)
	grow := Gt(Add(n, m), sCap(s))
	if sCap(s) == Int(0) {
		if v, ok := intVal(m); ok && v > 0 {
			grow = True
		}
	}
	ref := Ite(grow, r, sRef(s))
	a := x.get(st, k)
	base := Select(a, sRef(s))
	var arr *Term
	if c, ok := intVal(m); ok && c <= 8 {
		arr = base
		for i := int64(0); i < c; i++ {
			arr = Store(arr, Add(n, Int(i)), Select(Select(a, sRef(add)), Int(i)))
		}
		if c == 0 {
			return s
		}
		// name the old and the new contents, so that an element of one is found when the other is mentioned
		if !arr.bound {
			nb, na := Fresh("app0", ArrSort("Int", sortOf(el))), Fresh("app1", ArrSort("Int", sortOf(el)))
			x.assume(st, Eq(nb, base))
			x.assume(st, Eq(na, arr))
			for i := int64(0); i < c; i++ {
				x.assume(st, Eq(Select(na, Add(n, Int(i))), Select(Select(a, sRef(add)), Int(i))))
			}
			j := BoundVar("j", "Int")
			x.assume(st, Forall([]*Term{j}, Implies(Lt(j, n), Eq(Select(na, j), Select(nb, j))), []*Term{Select(nb, j)}))
			arr = na
		}
	} else {
		arr = Fresh("app", ArrSort("Int", sortOf(el)))
		j := BoundVar("j", "Int")
		x.assume(st, Forall([]*Term{j}, Eq(Select(arr, j), Ite(And(Le(n, j), Lt(j, Add(n, m))), Select(Select(a, sRef(add)), Sub(j, n)), Select(base, j))), []*Term{Select(arr, j)}))
	}
	x.set(st, k, Store(a, ref, arr))
	cp := Fresh("cap", "Int")
	x.assumes = append(x.assumes, Assume{t: Ge(cp, Add(n, m))})
	x.assume(st, Implies(Not(grow), Eq(cp, sCap(s))))
	// appending nothing to a nil slice yields nil
	if _, ok := intVal(m); !ok {
		return Ite(And(Eq(sRef(s), Int(0)), Eq(m, Int(0))), nilSl, Ctor(sliceDT, ref, Add(n, m), cp))
	}
	return Ctor(sliceDT, ref, Add(n, m), cp)
}

// ---- special external functions

type specialFn func(x *Exec, fr *Frame, st *State, fn *ssa.Function, vs []Val) (*State, Val)

var special = map[string]specialFn{}

func init() {
	special["sort.SliceStable"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, vs []Val) (*State, Val) {
		return x.sortSlice(fr, st, vs, true)
	}
	special["core/support.HandlePanic"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, vs []Val) (*State, Val) {
		// recovers, and reports what was recovered as an error
		et := deref(fn.Signature.Params().At(1).Type())
		p := x.get(st, panicKey)
		l := x.lvOf(vs[1], et)
		e := x.freshOf(st, "recovered", et)
		x.assumes = append(x.assumes, Assume{t: Ne(iTag(e), Int(0))})
		x.store(st, l, Ite(Eq(iTag(p), Int(0)), x.load(st, l), e))
		x.set(st, panicKey, nilIf)
		return st, Val{tup: []Val{}}
	}
	special["sort.Slice"] = func(x *Exec, fr *Frame, st *State, fn *ssa.Function, vs []Val) (*State, Val) {
		return x.sortSlice(fr, st, vs, false)
	}
}

func (x *Exec) sortSlice(fr *Frame, st *State, vs []Val, stable bool) (*State, Val) {
	iv := vs[0].t
	n, ok := intVal(iTag(iv))
	if !ok || vs[1].fn == nil {
		x.note("sort of a value of unknown type has no modelled effect")
		return st, Val{tup: []Val{}}
	}
	sl, ok := tagTypes[n].Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("sort of non-slice"))
	}
	s := unbox(tagTypes[n], iv)
	k := x.ekey(sl.Elem())
	a := x.get(st, k)
	before := Select(a, sRef(s))
	after := Fresh("sorted", ArrSort("Int", sortOf(sl.Elem())))
	x.set(st, k, Store(a, sRef(s), after))
	id := fmt.Sprintf("%d", after.id)
	pa, qa := Fresh("perm"+id, ArrSort("Int", "Int")), Fresh("pinv"+id, ArrSort("Int", "Int"))
	if _, ok := x.w.ghosts["#perm"]; ok {
		x.set(st, "GG$#perm", pa)
		x.set(st, "GG$#pinv", qa)
	}
	i, j := BoundVar("i", "Int"), BoundVar("j", "Int")
	p := func(t *Term) *Term { return Select(pa, t) }
	q := func(t *Term) *Term { return Select(qa, t) }
	in := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, sLen(s))) }
	ass := func(t *Term) { x.assume(st, t) }
	ass(Forall([]*Term{i}, Implies(in(i), And(in(p(i)), Eq(q(p(i)), i), Eq(Select(after, i), Select(before, p(i))))), []*Term{p(i)}, []*Term{Select(after, i)}))
	ass(Forall([]*Term{i}, Implies(in(i), And(in(q(i)), Eq(p(q(i)), i), Eq(Select(before, i), Select(after, q(i))))), []*Term{q(i)}, []*Term{Select(before, i)}))
	ass(Forall([]*Term{i}, Implies(Not(in(i)), Eq(Select(after, i), Select(before, i))), []*Term{Select(after, i)}))
	less := func(a, b *Term) *Term {
		r := x.pureEval(st, func(s2 *State) *Term {
			s3, v := x.inline(fr, s2, vs[1].fn, vs[1].binds, []Val{{t: a}, {t: b}})
			_ = s3
			return v.t
		})
		return r
	}
	lt, gt := less(i, j), less(j, i)
	ass(Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j)), Not(gt)), []*Term{Select(after, i), Select(after, j)}))
	if stable {
		ass(Forall([]*Term{i, j}, Implies(And(in(i), in(j), Lt(i, j), Not(lt), Not(gt)), Lt(p(i), p(j))), []*Term{p(i), p(j)}, []*Term{Select(after, i), Select(after, j)}))
	}
	x.note("sort.SliceStable: result assumed to be the sorted permutation under the given comparison")
	return st, Val{tup: []Val{}}
}

// pureEval evaluates f in a copy of the state, discarding assumptions made on the way.
func (x *Exec) pureEval(st *State, f func(s *State) *Term) *Term {
	return x.pureEval2(st, func(s *State) Val { return Val{t: f(s)} }).t
}

func (x *Exec) pureEval2(st *State, f func(s *State) Val) Val {
	na, no, nc := len(x.assumes), len(x.obls), len(x.cands)
	w := x.writes
	x.writes = map[string]bool{}
	x.dry++
	c := st.clone()
	c.pc = True
	r := f(c)
	x.dry--
	x.writes = w
	x.assumes, x.obls, x.cands = x.assumes[:na], x.obls[:no], x.cands[:nc]
	return r
}
