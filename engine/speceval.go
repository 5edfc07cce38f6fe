package main

// Contract evaluation: expressions to terms, contract application, modifies.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SVal struct {
	t          *Term
	ty         types.Type
	arrK, arrV types.Type // ghost array
	name       string     // unresolved name (package or type)
	tup        map[string]SVal
}

type Env struct {
	x      *Exec
	st     *State
	old    *State
	lentry *State
	vars   map[string]SVal
}

func (x *Exec) newEnv(st *State) *Env {
	e := &Env{x: x, st: st, old: x.entry, vars: map[string]SVal{}}
	for k, v := range x.entryEnv {
		e.vars[k] = v
	}
	return e
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) fail(ex *Expr, f string, a ...interface{}) {
	panic(fmt.Errorf("%s:%d: %s", ex.file, ex.line, fmt.Sprintf(f, a...)))
}

func (e *Env) boolExpr(ex *Expr) *Term {
	v := e.eval(ex)
	if v.t == nil || v.t.sort != "Bool" {
		e.fail(ex, "boolean expected")
	}
	return v.t
}

var tInt, tBool, tStr = types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String]
var tAny = types.NewInterfaceType(nil, nil)

func (e *Env) eval(ex *Expr) SVal {
	x := e.x
	b := func(t *Term) SVal { return SVal{t: t, ty: tBool} }
	switch ex.op {
	case "int":
		return SVal{t: IntS(ex.s), ty: tInt}
	case "str":
		return SVal{t: StrLit(ex.s), ty: tStr}
	case "id":
		return e.ident(ex)
	case "!":
		return b(Not(e.boolExpr(ex.args[0])))
	case "neg":
		v := e.eval(ex.args[0])
		return SVal{t: Sub(Int(0), v.t), ty: v.ty}
	case "&&":
		return b(And(e.boolExpr(ex.args[0]), e.boolExpr(ex.args[1])))
	case "||":
		return b(Or(e.boolExpr(ex.args[0]), e.boolExpr(ex.args[1])))
	case "==>":
		return b(Implies(e.boolExpr(ex.args[0]), e.boolExpr(ex.args[1])))
	case "<==>":
		return b(Eq(e.boolExpr(ex.args[0]), e.boolExpr(ex.args[1])))
	case "ite":
		c := e.boolExpr(ex.args[0])
		p, q := e.eval(ex.args[1]), e.eval(ex.args[2])
		p, q = e.unify(ex, p, q)
		return SVal{t: Ite(c, p.t, q.t), ty: p.ty, arrK: p.arrK, arrV: p.arrV}
	case "let":
		v := e.eval(ex.args[0])
		n := *e
		n.vars = map[string]SVal{}
		for k, u := range e.vars {
			n.vars[k] = u
		}
		n.vars[ex.s] = v
		return n.eval(ex.args[1])
	case "==", "!=":
		p, q := e.eval(ex.args[0]), e.eval(ex.args[1])
		r := e.equal(ex, p, q)
		if ex.op == "!=" {
			r = Not(r)
		}
		return b(r)
	case "<", "<=", ">", ">=":
		p, q := e.eval(ex.args[0]), e.eval(ex.args[1])
		if p.t.sort != "Int" || q.t.sort != "Int" {
			e.fail(ex, "integer comparison expected")
		}
		switch ex.op {
		case "<":
			return b(Lt(p.t, q.t))
		case "<=":
			return b(Le(p.t, q.t))
		case ">":
			return b(Gt(p.t, q.t))
		}
		return b(Ge(p.t, q.t))
	case "+":
		p, q := e.eval(ex.args[0]), e.eval(ex.args[1])
		if p.t.sort == "Str" {
			return SVal{t: StrCat(p.t, q.t), ty: tStr}
		}
		return SVal{t: Add(p.t, q.t), ty: p.ty}
	case "-":
		p, q := e.eval(ex.args[0]), e.eval(ex.args[1])
		return SVal{t: Sub(p.t, q.t), ty: p.ty}
	case "*":
		p, q := e.eval(ex.args[0]), e.eval(ex.args[1])
		return SVal{t: Mul(p.t, q.t), ty: p.ty}
	case "in":
		k, m := e.eval(ex.args[0]), e.eval(ex.args[1])
		if m.arrK != nil {
			return b(Select(m.t, k.t))
		}
		mt, ok := m.ty.Underlying().(*types.Map)
		if !ok {
			e.fail(ex, "'in' needs a map")
		}
		return b(x.mapHas(e.st, mt, m.t, e.coerce(k, mt.Key()).t))
	case "forall", "exists":
		n := *e
		n.vars = map[string]SVal{}
		for k, v := range e.vars {
			n.vars[k] = v
		}
		var vs []*Term
		for _, p := range ex.vars {
			qn++
			v := BoundVar(fmt.Sprintf("%s?%d", p.name, qn), sortOf(p.typ))
			vs = append(vs, v)
			n.vars[p.name] = SVal{t: v, ty: p.typ}
		}
		body := n.boolExpr(ex.args[0])
		var pats [][]*Term
		for _, tr := range ex.trig {
			var ps []*Term
			for _, t := range tr {
				ps = append(ps, stripIte(n.eval(t).t))
			}
			pats = append(pats, ps)
		}
		if ex.op == "forall" {
			return b(Forall(vs, body, pats...))
		}
		return b(Not(Forall(vs, Not(body), pats...)))
	case "as":
		v := e.eval(ex.args[0])
		if v.t.sort != "Iface" {
			return SVal{t: v.t, ty: ex.typ}
		}
		if types.IsInterface(ex.typ) {
			return SVal{t: v.t, ty: ex.typ}
		}
		return SVal{t: unbox(ex.typ, v.t), ty: ex.typ}
	case "is":
		v := e.eval(ex.args[0])
		if types.IsInterface(ex.typ) {
			return b(x.implements(v.t, ex.typ))
		}
		return b(Eq(iTag(v.t), tagOf(ex.typ)))
	case "idx":
		c := e.eval(ex.args[0])
		k := e.eval(ex.args[1])
		if c.arrK != nil {
			return SVal{t: Select(c.t, e.coerce(k, c.arrK).t), ty: c.arrV}
		}
		switch u := c.ty.Underlying().(type) {
		case *types.Map:
			kt := e.coerce(k, u.Key()).t
			return SVal{t: Ite(x.mapHas(e.st, u, c.t, kt), x.mapVal(e.st, u, c.t, kt), zeroOf(u.Elem())), ty: u.Elem()}
		case *types.Slice:
			return SVal{t: Select(Select(x.get(e.st, x.ekey(u.Elem())), sRef(c.t)), k.t), ty: u.Elem()}
		case *types.Array:
			return SVal{t: Select(c.t, k.t), ty: u.Elem()}
		}
		e.fail(ex, "cannot index %s", c.ty)
	case "sel":
		return e.sel(ex)
	case "call":
		return e.callExpr(ex)
	}
	e.fail(ex, "cannot evaluate %s", ex.op)
	return SVal{}
}

var qn int

func (e *Env) unify(ex *Expr, p, q SVal) (SVal, SVal) {
	if p.t.sort == q.t.sort {
		return p, q
	}
	if p.name == "nil" {
		return SVal{t: zeroSort(q.t.sort), ty: q.ty}, q
	}
	if q.name == "nil" {
		return p, SVal{t: zeroSort(p.t.sort), ty: p.ty}
	}
	if p.t.sort == "Iface" {
		return p, SVal{t: mkIface(q.ty, q.t), ty: p.ty}
	}
	if q.t.sort == "Iface" {
		return SVal{t: mkIface(p.ty, p.t), ty: q.ty}, q
	}
	e.fail(ex, "type mismatch: %s vs %s", p.t.sort, q.t.sort)
	return p, q
}

func (e *Env) coerce(v SVal, t types.Type) SVal {
	s := sortOf(t)
	if v.name == "nil" {
		return SVal{t: zeroSort(s), ty: t}
	}
	if v.t.sort == s {
		return SVal{t: v.t, ty: t}
	}
	if s == "Iface" {
		return SVal{t: mkIface(v.ty, v.t), ty: t}
	}
	panic(fmt.Errorf("cannot use %s as %s", v.t.sort, t))
}

func (e *Env) equal(ex *Expr, p, q SVal) *Term {
	if q.name == "nil" {
		p, q = q, p
	}
	if p.name == "nil" {
		if q.name == "nil" {
			return True
		}
		switch q.t.sort {
		case "Slice":
			return Eq(sRef(q.t), Int(0))
		case "Iface":
			return Eq(iTag(q.t), Int(0))
		}
		return Eq(q.t, Int(0))
	}
	p, q = e.unify(ex, p, q)
	return Eq(p.t, q.t)
}

func (e *Env) ident(ex *Expr) SVal {
	x := e.x
	n := ex.s
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SVal{t: True, ty: tBool}
	case "false":
		return SVal{t: False, ty: tBool}
	case "nil":
		return SVal{t: Int(0), ty: types.Typ[types.UntypedNil], name: "nil"}
	case "#alloc":
		return SVal{t: x.get(e.st, allocKey), ty: tInt}
	}
	if strings.HasPrefix(n, "#") {
		if g, ok := x.w.ghosts[n]; ok && !g.field {
			return SVal{t: x.get(e.st, "GG$"+n), ty: g.typ, arrK: g.arrK, arrV: g.arrV}
		}
		e.fail(ex, "unknown ghost %s", n)
	}
	if _, ok := x.w.aliases[n]; ok {
		return SVal{name: "pkg:" + n}
	}
	e.fail(ex, "unknown name %s", n)
	return SVal{}
}

func (e *Env) sel(ex *Expr) SVal {
	x := e.x
	b := e.eval(ex.args[0])
	if strings.HasPrefix(b.name, "pkg:") {
		pk := x.w.pkgOf(b.name[4:])
		if pk == nil {
			e.fail(ex, "unknown package %s", b.name)
		}
		switch o := pk.Scope().Lookup(ex.s).(type) {
		case *types.Const:
			switch o.Val().Kind() {
			case constant.Int:
				return SVal{t: IntS(o.Val().ExactString()), ty: o.Type()}
			case constant.String:
				return SVal{t: StrLit(constant.StringVal(o.Val())), ty: o.Type()}
			case constant.Bool:
				return SVal{t: Bool(constant.BoolVal(o.Val())), ty: o.Type()}
			}
		case *types.Var:
			k := hkey("G$"+qual(pk)+"."+ex.s, sortOf(o.Type()))
			keyTypes[k] = o.Type()
			return SVal{t: x.get(e.st, k), ty: o.Type()}
		case *types.Func:
			return SVal{name: "fn:" + qual(pk) + "." + ex.s}
		}
		e.fail(ex, "unknown %s.%s", b.name, ex.s)
	}
	if b.tup != nil {
		v, ok := b.tup[ex.s]
		if !ok {
			e.fail(ex, "no result %s", ex.s)
		}
		return v
	}
	if b.name != "" && b.name != "nil" {
		e.fail(ex, "bad selector on %s", b.name)
	}
	if strings.HasPrefix(ex.s, "#") {
		g, ok := x.w.ghosts[ex.s]
		if !ok || !g.field {
			e.fail(ex, "unknown ghost field %s", ex.s)
		}
		r := b.t
		if r.sort == "Iface" {
			r = iPay(r)
		}
		if r.sort == "Slice" {
			r = sRef(r)
		}
		return SVal{t: Select(x.get(e.st, "GF$"+ex.s), r), ty: g.typ, arrK: g.arrK, arrV: g.arrV}
	}
	obj, path, _ := types.LookupFieldOrMethod(b.ty, true, x.w.anyPkg(b.ty), ex.s)
	switch o := obj.(type) {
	case *types.Var:
		cur := b
		for _, i := range path {
			cur = e.fieldStep(ex, cur, i)
		}
		return cur
	case *types.Func:
		return SVal{name: "method", t: b.t, ty: b.ty}
	default:
		_ = o
	}
	e.fail(ex, "no field %s in %s", ex.s, b.ty)
	return SVal{}
}

func (e *Env) fieldStep(ex *Expr, b SVal, i int) SVal {
	x := e.x
	if p, ok := b.ty.Underlying().(*types.Pointer); ok {
		st := p.Elem().Underlying().(*types.Struct)
		return SVal{t: Select(x.get(e.st, x.fkey(p.Elem(), i)), b.t), ty: st.Field(i).Type()}
	}
	st, ok := b.ty.Underlying().(*types.Struct)
	if !ok {
		e.fail(ex, "field of %s", b.ty)
	}
	return SVal{t: Acc(structDT(b.ty), i, b.t), ty: st.Field(i).Type()}
}

func (e *Env) callExpr(ex *Expr) SVal {
	x := e.x
	f := ex.args[0]
	args := ex.args[1:]
	if f.op == "id" {
		switch f.s {
		case "old":
			if e.old == nil {
				e.fail(ex, "old() not available")
			}
			return e.with(e.old).eval(args[0])
		case "lentry":
			if e.lentry == nil {
				e.fail(ex, "lentry() only in loop invariants")
			}
			return e.with(e.lentry).eval(args[0])
		case "len":
			v := e.eval(args[0])
			switch u := v.ty.Underlying().(type) {
			case *types.Slice:
				return SVal{t: sLen(v.t), ty: tInt}
			case *types.Map:
				if v.t.bound {
					_, _, l := x.mkeys(u)
					return SVal{t: Select(x.get(e.st, l), v.t), ty: tInt}
				}
				return SVal{t: x.mapLen(&State{pc: True, h: e.st.h}, u, v.t), ty: tInt}
			}
			return SVal{t: App("strlen$", "Int", v.t), ty: tInt}
		case "substr": // the bytes s[a:b]
			return SVal{t: App("str.sub", "Str", e.eval(args[0]).t, e.eval(args[1]).t, e.eval(args[2]).t), ty: tStr}
		case "cap":
			return SVal{t: sCap(e.eval(args[0]).t), ty: tInt}
		case "ref":
			v := e.eval(args[0])
			switch v.t.sort {
			case "Slice":
				return SVal{t: sRef(v.t), ty: tInt}
			case "Iface":
				return SVal{t: iPay(v.t), ty: tInt}
			}
			return SVal{t: v.t, ty: tInt}
		case "tag":
			return SVal{t: iTag(e.eval(args[0]).t), ty: tInt}
		case "fresh":
			v := e.eval(args[0])
			r := v.t
			if r.sort == "Slice" {
				r = sRef(r)
			} else if r.sort == "Iface" {
				r = iPay(r)
			}
			return SVal{t: And(Ge(r, x.get(e.old, allocKey)), Lt(r, x.get(e.st, allocKey))), ty: tBool}
		case "allocated":
			v := e.eval(args[0])
			r := v.t
			if r.sort == "Slice" {
				r = sRef(r)
			} else if r.sort == "Iface" {
				r = iPay(r)
			}
			return SVal{t: And(Gt(r, Int(0)), Lt(r, x.get(e.st, allocKey))), ty: tBool}
		case "arr": // the backing array of a slice
			v := e.eval(args[0])
			return SVal{t: sRef(v.t), ty: tInt}
		case "dom":
			v := e.eval(args[0])
			m := v.ty.Underlying().(*types.Map)
			d, _, _ := x.mkeys(m)
			return SVal{t: Select(x.get(e.st, d), v.t), arrK: m.Key(), arrV: tBool}
		case "vals":
			v := e.eval(args[0])
			m := v.ty.Underlying().(*types.Map)
			_, vk, _ := x.mkeys(m)
			return SVal{t: Select(x.get(e.st, vk), v.t), arrK: m.Key(), arrV: m.Elem()}
		case "store":
			a, k, v := e.eval(args[0]), e.eval(args[1]), e.eval(args[2])
			return SVal{t: Store(a.t, e.coerce(k, a.arrK).t, e.coerce(v, a.arrV).t), arrK: a.arrK, arrV: a.arrV}
		case "box":
			v := e.eval(args[0])
			return SVal{t: mkIface(v.ty, v.t), ty: tAny}
		case "func_":
			// address of a package function value
			v := e.eval(args[0])
			return SVal{t: Const("fn."+mangle(x.w.fullName(v.name[3:])), "Int"), ty: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
		}
		if d, ok := x.w.defines[f.s]; ok {
			if len(args) != len(d.params) {
				e.fail(ex, "%s takes %d arguments", f.s, len(d.params))
			}
			n := *e
			n.vars = map[string]SVal{}
			for k, v := range x.entryEnv {
				if strings.HasPrefix(k, "$") {
					n.vars[k] = v
				}
			}
			for i, a := range args {
				n.vars[d.params[i]] = e.eval(a)
			}
			return n.eval(d.e)
		}
		if u, ok := x.w.ufuns[f.s]; ok {
			var ts []*Term
			for i, a := range args {
				ts = append(ts, e.coerce(e.eval(a), u.params[i]).t)
			}
			return SVal{t: App("u."+f.s, sortOf(u.ret), ts...), ty: u.ret}
		}
		e.fail(ex, "unknown function %s", f.s)
	}
	if f.op == "sel" {
		fv := e.sel(f)
		if strings.HasPrefix(fv.name, "fn:") {
			var vs []Val
			for _, a := range args {
				vs = append(vs, Val{t: e.eval(a).t})
			}
			if sp := x.w.specs[fv.name[3:]]; sp != nil && sp.Pure {
				i := strings.LastIndex(fv.name, ".")
				sig := x.w.pkgOf(fv.name[3:i]).Scope().Lookup(fv.name[i+1:]).Type().(*types.Signature)
				return e.pureSpec(sp, sig, nil, args)
			}
			fn := x.w.fnByKey[fv.name[3:]]
			if fn == nil {
				e.fail(ex, "no function %s", fv.name)
			}
			for i := range vs {
				vs[i].t = e.coerce(e.eval(args[i]), fn.Params[i].Type()).t
			}
			r := x.pureEval(e.st, func(s *State) *Term {
				_, v := x.callFn(nil, s, fn, nil, vs, "spec")
				return v.t
			})
			return SVal{t: r, ty: fn.Signature.Results().At(0).Type()}
		}
		if fv.name == "method" {
			obj, _, _ := types.LookupFieldOrMethod(fv.ty, true, x.w.anyPkg(fv.ty), f.s)
			m := obj.(*types.Func)
			sig := m.Type().(*types.Signature)
			var vs []Val
			for i, a := range args {
				vs = append(vs, Val{t: e.coerce(e.eval(a), sig.Params().At(i).Type()).t})
			}
			if sp := x.w.ifaceSpec(fv.ty, m); types.IsInterface(fv.ty) && sp != nil && sp.Pure && sig.Results().Len() > 1 {
				v := x.pureEval2(e.st, func(s *State) Val { return x.ifaceEval(s, fv.ty, m, fv.t, vs) })
				r := SVal{tup: map[string]SVal{}}
				for i, n := range x.resNames(sp, sig) {
					r.tup[n] = SVal{t: v.tup[i].t, ty: sig.Results().At(i).Type()}
				}
				return r
			}
			r := x.pureEval(e.st, func(s *State) *Term {
				if types.IsInterface(fv.ty) {
					c := &ssa.CallCommon{Method: m}
					_ = c
					v := x.ifaceEval(s, fv.ty, m, fv.t, vs)
					return v.t
				}
				_, v := x.invokeOn(nil, s, fv.ty, m, mkIface(fv.ty, fv.t), vs, "spec")
				return v.t
			})
			return SVal{t: r, ty: sig.Results().At(0).Type()}
		}
	}
	e.fail(ex, "bad call")
	return SVal{}
}

// pureSpec applies a function with a pure contract.
func (e *Env) pureSpec(sp *FuncSpec, sig *types.Signature, recv *Val, args []*Expr) SVal {
	x := e.x
	var vs []Val
	if recv != nil {
		vs = append(vs, *recv)
	}
	for i, a := range args {
		vs = append(vs, Val{t: e.coerce(e.eval(a), sig.Params().At(i).Type()).t})
	}
	v := x.pureEval2(e.st, func(s *State) Val {
		_, v := x.callSpec(nil, s, sp, sig, nil, vs, "spec")
		return v
	})
	if sig.Results().Len() == 1 {
		return SVal{t: v.t, ty: sig.Results().At(0).Type()}
	}
	r := SVal{tup: map[string]SVal{}}
	for i, n := range x.resNames(sp, sig) {
		r.tup[n] = SVal{t: v.tup[i].t, ty: sig.Results().At(i).Type()}
	}
	return r
}

// ifaceEval evaluates a pure interface method in a contract.
func (x *Exec) ifaceEval(st *State, it types.Type, m *types.Func, recv *Term, vs []Val) Val {
	if sp := x.w.ifaceSpec(it, m); sp != nil && sp.Pure {
		_, v := x.callSpec(nil, st, sp, m.Type().(*types.Signature), it, append([]Val{{t: recv}}, vs...), "spec")
		return v
	}
	impls := closedWorld[tname(it)]
	if n, ok := intVal(iTag(recv)); ok && n > 0 {
		impls = []types.Type{tagTypes[n]}
	}
	if len(impls) == 0 {
		panic(fmt.Errorf("no implementation known for %s.%s in a contract", tname(it), m.Name()))
	}
	var res Val
	for i := len(impls) - 1; i >= 0; i-- {
		_, v := x.invokeOn(nil, st.clone(), impls[i], m, recv, vs, "spec")
		if res.t == nil {
			res = v
		} else {
			res = Val{t: Ite(Eq(iTag(recv), tagOf(impls[i])), v.t, res.t)}
		}
	}
	return res
}

// ---- contract application

func specTypes(sp *FuncSpec, sig *types.Signature, iface types.Type) []types.Type {
	var ts []types.Type
	if iface != nil {
		ts = append(ts, iface)
	} else if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (x *Exec) resNames(sp *FuncSpec, sig *types.Signature) []string {
	n := sig.Results().Len()
	var out []string
	for i := 0; i < n; i++ {
		switch {
		case i < len(sp.Results):
			out = append(out, sp.Results[i])
		case n == 1:
			out = append(out, "result")
		default:
			out = append(out, fmt.Sprintf("result%d", i))
		}
	}
	return out
}

func (x *Exec) callSpec(fr *Frame, st *State, sp *FuncSpec, sig *types.Signature, iface types.Type, vs []Val, pos string) (*State, Val) {
	ts := specTypes(sp, sig, iface)
	if len(ts) != len(vs) {
		panic(fmt.Errorf("contract %s: %d argument types, %d arguments", sp.Key, len(ts), len(vs)))
	}
	if x.dry == 0 {
		x.usedSpec[sp.Key] = true
		if sp.Kind == "extern" || sp.Trusted {
			x.notes["assumed contract (not verified): "+sp.Key] = true
		}
	}
	vars := map[string]SVal{}
	for i, n := range sp.Params {
		if i < len(vs) {
			vars[n] = SVal{t: x.term(vs[i], ts[i]), ty: ts[i]}
		}
	}
	pre := st.clone()
	env := &Env{x: x, st: pre, old: pre, vars: vars}
	if pos != "spec" {
		for _, r := range sp.Requires {
			if len(r.Tags) > 0 && x.prop != "" && !hasTag(r.Tags, x.prop) {
				continue
			}
			x.oblige(pre, fmt.Sprintf("call of %s: precondition %s", sp.Key, r.Name), "precondition", env.boolExpr(r.E), pos)
			x.assume(pre, env.boolExpr(r.E))
		}
	}
	rn := x.resNames(sp, sig)
	res := make([]Val, len(rn))
	if sp.Pure {
		var as []*Term
		for i := range vs {
			as = append(as, x.term(vs[i], ts[i]))
		}
		for i := range rn {
			t := sig.Results().At(i).Type()
			r := App(fmt.Sprintf("pf.%s.%d", mangle(sp.Key), i), sortOf(t), as...)
			if f := typedFact(t, r, x.get(st, allocKey)); f != True {
				x.assume(st, f)
			}
			res[i] = Val{t: r}
			vars[rn[i]] = SVal{t: r, ty: t}
		}
		for _, c := range sp.Ensures {
			x.assume(st, env.boolExpr(c.E))
		}
		return st, resVal(res)
	}
	if sp.NoFrame {
		panic(fmt.Errorf("contract %s has no frame and cannot be used by a caller", sp.Key))
	}
	// havoc
	post := st.clone()
	var pst *State
	if sp.MayPanic {
		p := Fresh("panics", "Bool")
		pst = st.clone()
		pst.pc = And(st.pc, p)
		post.pc = And(st.pc, Not(p))
	}
	mods := x.resolveMods(sp.Modifies, env)
	if sp.Kind == "func" && len(sp.Modifies) > 0 && !sp.Quiet {
		x.addLoose(mods, sp)
	}
	doHavoc := func(s *State) {
		a := x.get(s, allocKey)
		na := Fresh("alloc", "Int")
		x.set(s, allocKey, na)
		x.assumes = append(x.assumes, Assume{t: Ge(na, a)})
		for _, k := range mods.order {
			if k == allocKey {
				continue
			}
			if mods.whole[k] {
				x.havocKey(s, k)
				continue
			}
			cur := x.get(s, k)
			for _, mr := range mods.refs[k] {
				_, vsrt := arraySorts(heapSort[k])
				nv := Fresh("h$"+k, vsrt)
				if t, ok := keyTypes[k]; ok && (strings.HasPrefix(k, "F$") || strings.HasPrefix(k, "C$")) {
					if f := typedFact(t, nv, na); f != True {
						x.assumes = append(x.assumes, Assume{t: f})
					}
				}
				if mr.when != True { // the nil map stays empty
					switch {
					case strings.HasPrefix(k, "MD$"):
						ks, _ := arraySorts(nv.sort)
						i := BoundVar("i", ks)
						el := Select(nv, i)
						x.assumes = append(x.assumes, Assume{t: Forall([]*Term{i}, Or(mr.when, Not(el)), []*Term{el})})
					case strings.HasPrefix(k, "ML$"):
						x.assumes = append(x.assumes, Assume{t: Or(mr.when, Eq(nv, Int(0)))})
					}
				}
				cur = Store(cur, mr.ref, nv)
			}
			x.set(s, k, cur)
			if strings.HasPrefix(k, "M") || strings.HasPrefix(k, "E$") {
				x.heapAxiomsAt(k, cur, mods.refs[k], na)
			}
		}
	}
	doHavoc(post)
	if pst != nil {
		doHavoc(pst)
		pv := x.freshOf(pst, "panicval", tAny)
		x.set(pst, panicKey, pv)
		x.assume(pst, Ne(iTag(pv), Int(0)))
		if fr == nil {
			panic(unsupported("panic outside a frame"))
		}
		ppenv := &Env{x: x, st: pst, old: pre, vars: vars}
		for _, s := range sp.PSets {
			x.applySet(ppenv, s, nil)
		}
		for _, c := range sp.Panics {
			x.assume(pst, ppenv.boolExpr(c.E))
		}
		fr.panics = append(fr.panics, pst)
	}
	for i := range rn {
		t := sig.Results().At(i).Type()
		r := x.freshOf(post, "r."+shortKey(sp.Key), t)
		res[i] = Val{t: r}
		vars[rn[i]] = SVal{t: r, ty: t}
	}
	penv := &Env{x: x, st: post, old: pre, vars: vars}
	for _, s := range sp.Sets {
		x.applySet(penv, s, nil)
	}
	for _, c := range sp.Ensures {
		x.assume(post, penv.boolExpr(c.E))
	}
	return post, resVal(res)
}

func (x *Exec) heapAxiomsAt(k string, cur *Term, refs []modRef, alloc *Term) {
	for _, mr := range refs {
		s := Select(cur, mr.ref)
		switch {
		case strings.HasPrefix(k, "ML$"):
			x.assumes = append(x.assumes, Assume{t: Ge(s, Int(0))})
		case strings.HasPrefix(k, "MV$"), strings.HasPrefix(k, "E$"):
			t, ok := keyTypes[k]
			if !ok {
				continue
			}
			ks, _ := arraySorts(s.sort)
			i := BoundVar("i", ks)
			el := Select(s, i)
			if f := typedFact(t, el, alloc); f != True {
				x.assumes = append(x.assumes, Assume{t: Forall([]*Term{i}, f, []*Term{el})})
			}
		}
	}
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '.'); i >= 0 {
		return k[i+1:]
	}
	return k
}

func hasTag(ts []string, p string) bool {
	for _, t := range ts {
		if t == p {
			return true
		}
	}
	return false
}

// applySet performs a ghost assignment in the (post) state of env; old() is available.
// The locations written are added to m when it is given.
func (x *Exec) applySet(env *Env, s SetClause, m *modSet) {
	if len(s.Tags) > 0 && x.prop != "" && !hasTag(s.Tags, x.prop) {
		return // ghost state of other properties
	}
	cond := True
	if s.When != nil {
		cond = env.boolExpr(s.When)
	}
	r := env.eval(s.R)
	lt := env.eval(s.L)
	if lt.ty != nil && r.t.sort != lt.t.sort {
		r = env.coerce(r, lt.ty)
	}
	var upd func(l *Expr, v *Term)
	upd = func(l *Expr, v *Term) {
		switch {
		case l.op == "id" && strings.HasPrefix(l.s, "#"):
			k := "GG$" + l.s
			x.set(env.st, k, Ite(cond, v, x.get(env.st, k)))
			if m != nil {
				m.add(k, true, nil, nil)
			}
		case l.op == "sel" && strings.HasPrefix(l.s, "#"):
			b := env.eval(l.args[0])
			r := b.t
			if r.sort == "Iface" {
				r = iPay(r)
			}
			k := "GF$" + l.s
			a := x.get(env.st, k)
			x.set(env.st, k, Store(a, r, Ite(cond, v, Select(a, r))))
			if m != nil {
				m.add(k, false, r, True)
			}
		case l.op == "idx":
			base := env.eval(l.args[0])
			ix := env.eval(l.args[1])
			upd(l.args[0], Store(base.t, env.coerce(ix, base.arrK).t, v))
		default:
			env.fail(l, "cannot assign")
		}
	}
	upd(s.L, r.t)
}

// ---- modifies

type modRef struct {
	ref, when *Term
}
type modSet struct {
	whole map[string]bool
	refs  map[string][]modRef
	order []string
}

func (m *modSet) add(k string, whole bool, r *Term, when *Term) {
	if !m.whole[k] && len(m.refs[k]) == 0 {
		m.order = append(m.order, k)
	}
	if whole {
		m.whole[k] = true
		return
	}
	m.refs[k] = append(m.refs[k], modRef{r, when})
}

// addLoose adds the ghost state any function may change.
func (x *Exec) addLoose(m *modSet, sp *FuncSpec) {
	var ns []string
	for n, g := range x.w.ghosts {
		if g.loose == "" || g.loose != x.prop {
			continue
		}
		own := false
		for _, s := range sp.Sets {
			own = own || s.L.op == "id" && s.L.s == n
		}
		if !own {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		if x.w.ghosts[n].field {
			m.add("GF$"+n, true, nil, nil)
		} else {
			m.add("GG$"+n, true, nil, nil)
		}
	}
}

func (x *Exec) resolveMods(items []ModItem, env *Env) *modSet {
	m := &modSet{whole: map[string]bool{}, refs: map[string][]modRef{}}
	x.addMods(m, items, env, 0)
	return m
}

func (x *Exec) addMods(m *modSet, items []ModItem, env *Env, depth int) {
	if depth > 10 {
		panic(fmt.Errorf("modset nesting"))
	}
	for _, it := range items {
		if it.Set != "" {
			s, ok := x.w.modsets[it.Set]
			if !ok {
				panic(fmt.Errorf("unknown modset %s", it.Set))
			}
			x.addMods(m, s, env, depth+1)
			continue
		}
		if it.All {
			switch {
			case it.E != nil && it.E.op == "id":
				g := x.w.ghosts[it.E.s]
				if g == nil {
					panic(fmt.Errorf("unknown ghost %s", it.E.s))
				}
				if g.field {
					m.add("GF$"+it.E.s, true, nil, nil)
				} else {
					m.add("GG$"+it.E.s, true, nil, nil)
				}
			case it.E != nil && it.E.op == "global":
				p := strings.SplitN(it.E.s, ".", 2)
				pk := x.w.pkgOf(p[0])
				v, ok := pk.Scope().Lookup(p[1]).(*types.Var)
				if !ok {
					panic(fmt.Errorf("unknown variable %s", it.E.s))
				}
				k := hkey("G$"+qual(pk)+"."+p[1], sortOf(v.Type()))
				keyTypes[k] = v.Type()
				m.add(k, true, nil, nil)
			case it.E != nil && it.E.op == "field":
				st := it.T.Underlying().(*types.Struct)
				found := false
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == it.E.s || it.E.s == "*" {
						m.add(x.fkey(it.T, i), true, nil, nil)
						found = true
					}
				}
				if !found {
					panic(fmt.Errorf("modifies: no field %s in %s", it.E.s, it.T))
				}
			default:
				switch u := it.T.Underlying().(type) {
				case *types.Slice:
					m.add(x.ekey(u.Elem()), true, nil, nil)
				case *types.Map:
					d, v, l := x.mkeys(u)
					m.add(d, true, nil, nil)
					m.add(v, true, nil, nil)
					m.add(l, true, nil, nil)
				case *types.Pointer:
					m.add(x.ckey(u.Elem()), true, nil, nil)
				}
			}
			continue
		}
		e := it.E
		when := True
		switch {
		case e.op == "id" && strings.HasPrefix(e.s, "#"):
			if g := x.w.ghosts[e.s]; g != nil && g.loose != "" && g.loose != x.prop {
				continue
			} else if g != nil && g.field {
				m.add("GF$"+e.s, true, nil, nil)
				continue
			}
			m.add("GG$"+e.s, true, nil, nil)
		case e.op == "sel" && strings.HasPrefix(e.s, "#"):
			r := env.eval(e.args[0]).t
			if r.sort == "Iface" {
				r = iPay(r)
			}
			m.add("GF$"+e.s, false, r, when)
		case e.op == "sel":
			b := env.eval(e.args[0])
			obj, path, _ := types.LookupFieldOrMethod(b.ty, true, x.w.anyPkg(b.ty), e.s)
			if _, ok := obj.(*types.Var); !ok {
				env.fail(e, "modifies: no field %s", e.s)
			}
			for _, i := range path[:len(path)-1] {
				b = env.fieldStep(e, b, i)
			}
			p, ok := b.ty.Underlying().(*types.Pointer)
			if !ok {
				env.fail(e, "modifies: field of a non-pointer")
			}
			m.add(x.fkey(p.Elem(), path[len(path)-1]), false, b.t, when)
		case e.op == "elems":
			b := env.eval(e.args[0])
			switch u := b.ty.Underlying().(type) {
			case *types.Map:
				d, v, l := x.mkeys(u)
				when := Ne(b.t, Int(0)) // a nil map is never written
				m.add(d, false, b.t, when)
				m.add(v, false, b.t, when)
				m.add(l, false, b.t, when)
			case *types.Slice:
				m.add(x.ekey(u.Elem()), false, sRef(b.t), when)
			}
		default:
			env.fail(e, "bad modifies item")
		}
	}
}

// modRefs: single locations under key k the verified function may modify (entry state).
func (x *Exec) modRefs(k string) []*Term {
	if x.mods == nil {
		return nil
	}
	var out []*Term
	for _, r := range x.mods.refs[k] {
		out = append(out, r.ref)
	}
	return out
}

// stripIte removes the absent-key alternatives of map reads from trigger terms.
func stripIte(t *Term) *Term {
	if len(t.args) == 0 || t.op == "forall" || t.op == "exists" {
		return t
	}
	if t.op == "ite" && t.args[1].op == "select" && !strings.HasPrefix(t.sort, "(Array") {
		return stripIte(t.args[1])
	}
	if !t.bound {
		return t
	}
	as := make([]*Term, len(t.args))
	diff := false
	for i, a := range t.args {
		as[i] = stripIte(a)
		diff = diff || as[i] != a
	}
	if !diff {
		return t
	}
	return rebuild(t, as)
}
