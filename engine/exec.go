package main

// Symbolic execution of go/ssa into verification conditions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	t     *Term
	lv    *LV
	tup   []Val
	fn    *ssa.Function
	binds []Val
	it    *mapIter
}

type mapIter struct {
	m     *Term // map ref
	mt    *types.Map
	vis   string // heap key of the visited set
	start *Term  // domain at range start
	str   bool
}

type LV struct {
	kind string // "var" (heap key), "field" (key,ref), "elem" (key,ref,idx), "obj" (struct ref), "cell" (key, ref), "arr" (array object)
	key  string
	ref  *Term
	idx  *Term
	typ  types.Type // type of the designated root
	path []pstep
}
type pstep struct {
	st  types.Type // struct type for a field step
	fi  int
	idx *Term // array index step
	arr types.Type
}

type State struct {
	pc *Term
	h  map[string]*Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.h))
	for k, v := range s.h {
		h[k] = v
	}
	return &State{pc: s.pc, h: h}
}

type Obl struct {
	id      int
	name    string // stable name: function / clause
	kind    string
	fn      string
	nAssume int
	pc      *Term
	goal    *Term
	pos     string
	status  string // "", unsat, sat, unknown, timeout
	backend string
	secs    float64
	output  string
	cand    *Cand
	group   string
	core    []string
}

type Assume struct {
	t    *Term
	cand *Cand // guarded by a Houdini candidate
}

type Exec struct {
	curGroup string
	w        *World
	top      *ssa.Function
	spec     *FuncSpec
	prop     string
	base     []*Term // facts about the entry heap
	assumes  []Assume
	obls     []*Obl
	cands    []*Cand
	dry      int
	writes   map[string]bool
	unroll   int
	sawLoop  bool
	entry    *State
	mods     *modSet
	entryEnv map[string]SVal
	stack    []*ssa.Function
	inited   map[string]bool
	notes    map[string]bool // assumptions used
	usedSpec map[string]bool
	inlined  map[string]bool
	nPanics  int
	localN   int
	frames   []*Frame
	pcN      int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	rets   []retState
	panics []*State
	loops  map[*ssa.BasicBlock]*Loop
	rpo    []*ssa.BasicBlock
	parent *Frame
	locals map[string]types.Type // local cell keys by type
}
type deferred struct {
	cond *Term
	call ssa.CallCommon
	vals []Val
	fnv  Val
	ins  *ssa.Defer
}
type retState struct {
	st  *State
	res []Val
}

type edge struct {
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
	st   *State
}

func (x *Exec) note(s string) {
	if x.dry == 0 {
		x.notes[s] = true
	}
}

// ---- state access

func (x *Exec) get(st *State, key string) *Term {
	if v, ok := st.h[key]; ok {
		return v
	}
	srt, ok := heapSort[key]
	if !ok {
		panic(unsupported("heap key " + key))
	}
	v := Const("H0$"+mangle(key), srt)
	st.h[key] = v
	if !x.inited[key] {
		x.inited[key] = true
		n := len(x.assumes)
		x.heapAxioms(key, v, Const("H0$ALLOC", "Int"), true)
		for _, a := range x.assumes[n:] {
			x.base = append(x.base, a.t)
		}
		x.assumes = x.assumes[:n]
	}
	return v
}

func (x *Exec) set(st *State, key string, v *Term) {
	if heapSort[key] != v.sort {
		panic(unsupported(fmt.Sprintf("set %s: sort %s, value %s", key, heapSort[key], v.sort)))
	}
	if x.writes != nil {
		x.writes[key] = true
	}
	st.h[key] = v
}

// refFact: v (of sort s) holds only allocated references.
func refFact(v *Term, alloc *Term) *Term {
	switch v.sort {
	case "Iface":
		return And(Lt(iPay(v), alloc), Ge(iTag(v), Int(0)), Implies(Eq(iTag(v), Int(0)), Eq(iPay(v), Int(0))))
	case "Slice":
		return And(Le(Int(0), sRef(v)), Lt(sRef(v), alloc), Le(Int(0), sLen(v)), Le(sLen(v), sCap(v)), Implies(Eq(sRef(v), Int(0)), Eq(sCap(v), Int(0))))
	}
	return True
}

// typedFact gives the facts a value of Go type t satisfies in a state with allocation bound alloc.
func typedFact(t types.Type, v *Term, alloc *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return And(Le(Int(0), v), Lt(v, alloc))
	case *types.Slice:
		return refFact(v, alloc)
	case *types.Interface:
		f := refFact(v, alloc)
		if impls, ok := closedWorld[tname(t)]; ok {
			alts := []*Term{Eq(iTag(v), Int(0))}
			for _, it := range impls {
				if isRefLike(it) {
					alts = append(alts, And(Eq(iTag(v), tagOf(it)), Gt(iPay(v), Int(0))))
				} else {
					alts = append(alts, Eq(iTag(v), tagOf(it)))
				}
			}
			f = And(f, Or(alts...))
		}
		return f
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return Le(Int(0), v)
		}
	case *types.Struct:
		if opaqueStruct(t) {
			return True
		}
		d := structDT(t)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, typedFact(u.Field(i).Type(), Acc(d, i, v), alloc))
		}
		return And(fs...)
	}
	return True
}

// closedWorld lists, per interface type, the implementations considered (contract files).
var closedWorld = map[string][]types.Type{}

var keyTypes = map[string]types.Type{} // value type stored under a heap key

func (x *Exec) heapAxioms(key string, v, alloc *Term, entry bool) {
	r := BoundVar("r", "Int")
	add := func(t *Term) {
		if t != True {
			x.assumes = append(x.assumes, Assume{t: t})
		}
	}
	switch {
	case key == allocKey:
		add(Ge(v, Int(1)))
	case strings.HasPrefix(key, "F$"), strings.HasPrefix(key, "C$"):
		s := Select(v, r)
		t, ok := keyTypes[key]
		var f *Term
		if ok {
			f = typedFact(t, s, alloc)
		} else {
			f = refFact(s, alloc)
		}
		if f != True {
			add(Forall([]*Term{r}, Implies(inAlloc(r, alloc), f), []*Term{s}))
		}
	case strings.HasPrefix(key, "E$"):
		i := BoundVar("i", "Int")
		s := Select(Select(v, r), i)
		if t, ok := keyTypes[key]; ok {
			if f := typedFact(t, s, alloc); f != True {
				add(Forall([]*Term{r, i}, Implies(inAlloc(r, alloc), f), []*Term{s}))
			}
		}
	case strings.HasPrefix(key, "MD$"):
		ks, _ := arraySorts(strings.TrimSpace(sel2(v.sort)))
		k := BoundVar("k", ks)
		s := Select(Select(v, Int(0)), k)
		add(Forall([]*Term{k}, Not(s), []*Term{s}))
	case strings.HasPrefix(key, "ML$"):
		s := Select(v, r)
		add(Forall([]*Term{r}, Implies(inAlloc(r, alloc), Ge(s, Int(0))), []*Term{s}))
		add(Eq(Select(v, Int(0)), Int(0)))
	case strings.HasPrefix(key, "MV$"):
		ks, _ := arraySorts(sel2(v.sort))
		k := BoundVar("k", ks)
		s := Select(Select(v, r), k)
		if t, ok := keyTypes[key]; ok {
			if f := typedFact(t, s, alloc); f != True {
				add(Forall([]*Term{r, k}, Implies(inAlloc(r, alloc), f), []*Term{s}))
			}
		}
	case strings.HasPrefix(key, "G$"), strings.HasPrefix(key, "L$"), strings.HasPrefix(key, "GG$"):
		if t, ok := keyTypes[key]; ok {
			add(typedFact(t, v, alloc))
		}
	}
}

func inAlloc(r, alloc *Term) *Term { return And(Le(Int(0), r), Lt(r, alloc)) }

func sel2(s string) string { _, v := arraySorts(s); return v }

// havocKey gives a fresh value for a heap key.
func (x *Exec) havocKey(st *State, key string) {
	old := x.get(st, key)
	v := Fresh("h$"+key, heapSort[key])
	if key == allocKey {
		x.set(st, key, v)
		x.assume(st, Ge(v, old))
		return
	}
	x.set(st, key, v)
	x.heapAxioms(key, v, x.get(st, allocKey), false)
}

func (x *Exec) assume(st *State, t *Term) {
	f := Implies(st.pc, t)
	if f == True {
		return
	}
	x.assumes = append(x.assumes, Assume{t: f})
}

func (x *Exec) oblige(st *State, name, kind string, goal *Term, pos string) *Obl {
	o := &Obl{name: name, kind: kind, fn: x.spec.Name, nAssume: len(x.assumes), pc: st.pc, goal: goal, pos: pos}
	if x.dry > 0 {
		return o
	}
	x.obls = append(x.obls, o)
	return o
}

// isOld: t denotes a value that existed in the entry state.
var oldMemo = map[int]bool{}

func isOld(t *Term) bool {
	if oldTerm[t.id] {
		return true
	}
	if r, ok := oldMemo[t.id]; ok {
		return r
	}
	r := false
	switch t.op {
	case "int":
		r = true
	case "const":
		r = strings.HasPrefix(t.name, "H0$")
	case "select":
		r = isOld(t.args[0])
		if r && t.args[0].op == "const" && t.args[1].sort == "Int" && !strings.Contains(t.args[0].name, "L$") {
			r = isOld(t.args[1])
		}
	case "acc":
		r = isOld(t.args[0])
	case "ite":
		r = isOld(t.args[1]) && isOld(t.args[2])
	}
	if r {
		oldTerm[t.id] = true
	}
	oldMemo[t.id] = r
	return r
}

func init() { knownOld = isOld }

// ---- lvalues

func (x *Exec) alloc(st *State, hint string) *Term {
	r := Fresh("new."+hint, "Int")
	allocRank[r.id] = len(allocRank) + 1
	cur := x.get(st, allocKey)
	x.assumes = append(x.assumes, Assume{t: Ge(r, cur)})
	x.set(st, allocKey, Add(r, Int(1)))
	return r
}

func (x *Exec) objInit(st *State, t types.Type, r *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if !opaqueStruct(t) {
			for i := 0; i < u.NumFields(); i++ {
				k := x.fkey(t, i)
				x.set(st, k, Store(x.get(st, k), r, zeroOf(u.Field(i).Type())))
			}
			return
		}
	case *types.Array:
		k := x.ekey(u.Elem())
		x.set(st, k, Store(x.get(st, k), r, ConstArr(ArrSort("Int", sortOf(u.Elem())), zeroOf(u.Elem()))))
		return
	}
	k := x.ckey(t)
	x.set(st, k, Store(x.get(st, k), r, zeroOf(t)))
}

func (x *Exec) fkey(t types.Type, i int) string {
	k := fieldKey(t, i)
	if _, ok := keyTypes[k]; !ok {
		keyTypes[k] = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return k
}
func (x *Exec) ekey(t types.Type) string {
	k := elemKey(t)
	if _, ok := keyTypes[k]; !ok {
		keyTypes[k] = t
	}
	return k
}
func (x *Exec) ckey(t types.Type) string {
	k := cellKey(t)
	if _, ok := keyTypes[k]; !ok {
		keyTypes[k] = t
	}
	return k
}
func (x *Exec) mkeys(m *types.Map) (string, string, string) {
	d, v, l := mapKeys(m)
	if _, ok := keyTypes[v]; !ok {
		keyTypes[v] = m.Elem()
	}
	return d, v, l
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref of " + t.String()))
}

// lvOf: the location a pointer value designates.
func (x *Exec) lvOf(v Val, pointee types.Type) *LV {
	if v.lv != nil {
		return v.lv
	}
	switch pointee.Underlying().(type) {
	case *types.Struct:
		if !opaqueStruct(pointee) {
			return &LV{kind: "obj", ref: v.t, typ: pointee}
		}
	case *types.Array:
		return &LV{kind: "arr", ref: v.t, typ: pointee}
	}
	return &LV{kind: "cell", key: x.ckey(pointee), ref: v.t, typ: pointee}
}

func (x *Exec) rootLoad(st *State, l *LV) *Term {
	switch l.kind {
	case "var":
		return x.get(st, l.key)
	case "field", "cell":
		return Select(x.get(st, l.key), l.ref)
	case "elem":
		return Select(Select(x.get(st, l.key), l.ref), l.idx)
	case "obj":
		u := l.typ.Underlying().(*types.Struct)
		d := structDT(l.typ)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, Select(x.get(st, x.fkey(l.typ, i)), l.ref))
		}
		return Ctor(d, as...)
	case "arr":
		u := l.typ.Underlying().(*types.Array)
		return Select(x.get(st, x.ekey(u.Elem())), l.ref)
	}
	panic(unsupported("load " + l.kind))
}

func (x *Exec) rootStore(st *State, l *LV, v *Term) {
	switch l.kind {
	case "var":
		x.set(st, l.key, v)
	case "field", "cell":
		x.set(st, l.key, Store(x.get(st, l.key), l.ref, v))
	case "elem":
		a := x.get(st, l.key)
		x.set(st, l.key, Store(a, l.ref, Store(Select(a, l.ref), l.idx, v)))
	case "obj":
		u := l.typ.Underlying().(*types.Struct)
		d := structDT(l.typ)
		for i := 0; i < u.NumFields(); i++ {
			k := x.fkey(l.typ, i)
			x.set(st, k, Store(x.get(st, k), l.ref, Acc(d, i, v)))
		}
	case "arr":
		u := l.typ.Underlying().(*types.Array)
		k := x.ekey(u.Elem())
		x.set(st, k, Store(x.get(st, k), l.ref, v))
	default:
		panic(unsupported("store " + l.kind))
	}
}

func applyPath(v *Term, p []pstep) *Term {
	for _, s := range p {
		if s.idx != nil {
			v = Select(v, s.idx)
		} else {
			v = Acc(structDT(s.st), s.fi, v)
		}
	}
	return v
}

func updPath(v *Term, p []pstep, nv *Term) *Term {
	if len(p) == 0 {
		return nv
	}
	s := p[0]
	if s.idx != nil {
		return Store(v, s.idx, updPath(Select(v, s.idx), p[1:], nv))
	}
	d := structDT(s.st)
	var as []*Term
	for i := range d.fields {
		f := Acc(d, i, v)
		if i == s.fi {
			f = updPath(f, p[1:], nv)
		}
		as = append(as, f)
	}
	return Ctor(d, as...)
}

func (x *Exec) load(st *State, l *LV) *Term { return applyPath(x.rootLoad(st, l), l.path) }
func (x *Exec) store(st *State, l *LV, v *Term) {
	if len(l.path) == 0 {
		x.rootStore(st, l, v)
		return
	}
	x.rootStore(st, l, updPath(x.rootLoad(st, l), l.path, v))
}

func (x *Exec) fieldLV(l *LV, st types.Type, i int) *LV {
	if l.kind == "obj" && len(l.path) == 0 {
		return &LV{kind: "field", key: x.fkey(l.typ, i), ref: l.ref, typ: l.typ.Underlying().(*types.Struct).Field(i).Type()}
	}
	n := *l
	n.path = append(append([]pstep{}, l.path...), pstep{st: st, fi: i})
	return &n
}

func (x *Exec) indexLV(l *LV, at types.Type, idx *Term) *LV {
	if l.kind == "arr" && len(l.path) == 0 {
		return &LV{kind: "elem", key: x.ekey(at.Underlying().(*types.Array).Elem()), ref: l.ref, idx: idx}
	}
	n := *l
	n.path = append(append([]pstep{}, l.path...), pstep{idx: idx, arr: at})
	return &n
}

// term of a value (pointers to interior locations become opaque)
func (x *Exec) term(v Val, t types.Type) *Term {
	if v.t != nil {
		return v.t
	}
	if v.lv != nil {
		l := v.lv
		if l.kind == "obj" && len(l.path) == 0 {
			return l.ref
		}
		if l.kind == "arr" && len(l.path) == 0 {
			return l.ref
		}
		if l.kind == "cell" && len(l.path) == 0 {
			return l.ref
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if str, isst := p.Elem().Underlying().(*types.Struct); isst && str.NumFields() > 0 && !opaqueStruct(p.Elem()) {
				panic(unsupported("interior pointer to " + tname(p.Elem())))
			}
		}
		nm := "addr." + mangle(l.key)
		for _, s := range l.path {
			nm += fmt.Sprintf(".%d", s.fi)
		}
		args := []*Term{}
		if l.ref != nil {
			args = append(args, l.ref)
		}
		if l.idx != nil {
			args = append(args, l.idx)
		}
		a := App(nm, "Int", args...)
		x.assumes = append(x.assumes, Assume{t: Gt(a, Int(0))})
		x.note("interior pointer " + nm + " treated as an opaque address")
		return a
	}
	if v.fn != nil {
		c := Const("fn."+mangle(v.fn.String()), "Int")
		x.assumes = append(x.assumes, Assume{t: Gt(c, Int(0))})
		return c
	}
	if v.it != nil {
		panic(unsupported("iterator used as a value"))
	}
	if v.tup != nil {
		panic(unsupported("tuple used as a value"))
	}
	panic(unsupported("no term for value of type " + t.String()))
}

// ---- operands

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	if r, ok := fr.env[v]; ok {
		return r
	}
	switch c := v.(type) {
	case *ssa.Const:
		return Val{t: x.constTerm(c)}
	case *ssa.Global:
		t := deref(c.Type())
		k := hkey("G$"+qual(c.Pkg.Pkg)+"."+c.Name(), sortOf(t))
		keyTypes[k] = t
		return Val{lv: &LV{kind: "var", key: k, typ: t}}
	case *ssa.Function:
		return Val{fn: c}
	case *ssa.Builtin:
		return Val{}
	}
	panic(unsupported(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn)))
}

func (x *Exec) tv(fr *Frame, st *State, v ssa.Value) *Term { return x.term(x.val(fr, st, v), v.Type()) }

func (x *Exec) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(c.Type()) == "Flt" {
			return Const("flt."+c.Value.ExactString(), "Flt")
		}
		return IntS(c.Value.ExactString())
	case constant.Float:
		if sortOf(c.Type()) == "Int" {
			return IntS(constant.ToInt(c.Value).ExactString())
		}
		declSort("Flt")
		return Const("flt."+mangle(c.Value.ExactString()), "Flt")
	}
	panic(unsupported("const " + c.String()))
}

// ---- merging

// commonFactor splits conditions into the conjunction they share and the rest.
func factorPCs(pcs []*Term) []*Term {
	if len(pcs) < 2 {
		return pcs
	}
	cnt := map[int]int{}
	for _, p := range pcs {
		for _, c := range conj(p) {
			cnt[c.id]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var rest []*Term
		for _, c := range conj(p) {
			if cnt[c.id] < len(pcs) {
				rest = append(rest, c)
			}
		}
		out[i] = And(rest...)
	}
	return out
}

func iteChain(conds []*Term, vals []*Term) *Term {
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		r = Ite(conds[i], vals[i], r)
	}
	return r
}

func (x *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	var pcs []*Term
	for _, s := range sts {
		pcs = append(pcs, s.pc)
	}
	conds := factorPCs(pcs)
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.h {
			keys[k] = true
		}
	}
	out := &State{pc: Or(pcs...), h: map[string]*Term{}}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var vs []*Term
		same := true
		for _, s := range sts {
			v := x.get(s, k)
			if len(vs) > 0 && vs[0] != v {
				same = false
			}
			vs = append(vs, v)
		}
		if same {
			out.h[k] = vs[0]
		} else {
			out.h[k] = x.iteMerge(conds, vs)
		}
	}
	return out
}

// iteMerge groups equal values.
func (x *Exec) iteMerge(conds, vs []*Term) *Term {
	var gc, gv []*Term
	for i, v := range vs {
		f := false
		for j := range gv {
			if gv[j] == v {
				gc[j] = Or(gc[j], conds[i])
				f = true
			}
		}
		if !f {
			gc = append(gc, conds[i])
			gv = append(gv, v)
		}
	}
	return iteChain(gc, gv)
}

func (x *Exec) mergeVals(t types.Type, conds []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if vs[0].tup != nil {
		tt := t.(*types.Tuple)
		out := Val{}
		for i := range vs[0].tup {
			var col []Val
			for _, v := range vs {
				col = append(col, v.tup[i])
			}
			out.tup = append(out.tup, x.mergeVals(tt.At(i).Type(), conds, col))
		}
		return out
	}
	var ts []*Term
	for _, v := range vs {
		ts = append(ts, x.term(v, t))
	}
	return Val{t: x.iteMerge(conds, ts)}
}

func sameVal(a, b Val) bool {
	if a.t != nil || b.t != nil {
		return a.t == b.t
	}
	if a.lv != nil && b.lv != nil {
		return a.lv == b.lv || (len(a.lv.path) == 0 && len(b.lv.path) == 0 && a.lv.kind == b.lv.kind && a.lv.key == b.lv.key && a.lv.ref == b.lv.ref && a.lv.idx == b.lv.idx)
	}
	if a.fn != nil || b.fn != nil {
		return a.fn == b.fn && len(a.binds) == 0 && len(b.binds) == 0
	}
	return false
}

// ---- CFG

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	depth  int
	ord    int
}

func analyze(fr *Frame) {
	fn := fr.fn
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		// executed separately
	}
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpo = append(fr.rpo, post[i])
	}
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range fr.rpo {
		pos[b] = i
	}
	fr.loops = map[*ssa.BasicBlock]*Loop{}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if pos[s] <= pos[b] {
				if !s.Dominates(b) {
					panic(unsupported("irreducible loop in " + fn.String()))
				}
				l := fr.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fr.loops[s] = l
				}
				var wl = []*ssa.BasicBlock{b}
				for len(wl) > 0 {
					n := wl[len(wl)-1]
					wl = wl[:len(wl)-1]
					if l.blocks[n] {
						continue
					}
					l.blocks[n] = true
					for _, p := range n.Preds {
						if seen[p] {
							wl = append(wl, p)
						}
					}
				}
			}
		}
	}
	ord := 0
	for _, b := range fr.rpo {
		if l := fr.loops[b]; l != nil {
			ord++
			l.ord = ord
		}
	}
	for _, l := range fr.loops {
		for _, m := range fr.loops {
			if m != l && m.blocks[l.header] {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
}

// run executes the blocks of region (nil: whole function) starting from edges into h.
// Edges leaving the region, and back edges to h, are returned.
func (x *Exec) run(fr *Frame, cur *Loop, start *ssa.BasicBlock, in []edge, skipPhi bool) (back, out []edge) {
	pend := map[*ssa.BasicBlock][]edge{start: in}
	inReg := func(b *ssa.BasicBlock) bool { return cur == nil || cur.blocks[b] }
	emit := func(e edge) {
		if e.st.pc == False {
			return
		}
		if cur != nil && e.to == cur.header {
			back = append(back, e)
			return
		}
		if !inReg(e.to) {
			out = append(out, e)
			return
		}
		pend[e.to] = append(pend[e.to], e)
	}
	for _, b := range fr.rpo {
		es := pend[b]
		if len(es) == 0 || !inReg(b) {
			continue
		}
		delete(pend, b)
		if l := fr.loops[b]; l != nil && l != cur {
			for _, e := range x.runLoop(fr, l, es) {
				emit(e)
			}
			continue
		}
		var st *State
		if b == start && skipPhi {
			st = es[0].st
		} else {
			st = x.enterBlock(fr, b, es)
		}
		for _, e := range x.runBlock(fr, b, st) {
			emit(e)
		}
	}
	return
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

// enterBlock merges incoming edges and evaluates the phis.
func (x *Exec) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	var pcs []*Term
	for _, e := range es {
		sts = append(sts, e.st)
		pcs = append(pcs, e.st.pc)
	}
	st := x.mergeStates(sts)
	conds := factorPCs(pcs)
	nv := map[ssa.Value]Val{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Val
		for _, e := range es {
			vs = append(vs, x.val(fr, e.st, phi.Edges[predIndex(b, e.from)]))
		}
		nv[phi] = x.mergeVals(phi.Type(), conds, vs)
	}
	for k, v := range nv {
		fr.env[k] = v
	}
	return st
}

// runBlock executes the non-phi instructions; returns outgoing edges.
func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	for _, ins := range b.Instrs {
		if st.pc == False {
			return nil
		}
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.tv(fr, st, i.Cond)
			t := st.clone()
			t.pc = And(st.pc, c)
			f := st
			f.pc = And(st.pc, Not(c))
			return []edge{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var rs []Val
			for _, r := range i.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			fr.rets = append(fr.rets, retState{st, rs})
			return nil
		case *ssa.Panic:
			s := st.clone()
			x.set(s, panicKey, x.tv(fr, st, i.X))
			fr.panics = append(fr.panics, s)
			return nil
		default:
			st = x.instr(fr, st, ins)
		}
	}
	return nil
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.w.repo+"/"), q.Line)
}

func localAlloc(a *ssa.Alloc) bool {
	return localUses(a, map[ssa.Value]bool{})
}

func localUses(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch i := r.(type) {
		case *ssa.UnOp:
			if i.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if i.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !localUses(i, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if i.X != v || !localUses(i, seen) {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := i.Fn.(*ssa.Function)
			for k, bnd := range i.Bindings {
				if bnd == v && !localUses(fn.FreeVars[k], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Exec) instr(fr *Frame, st *State, ins ssa.Instruction) *State {
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	setT := func(v ssa.Value, t *Term) {
		if v.Type() != nil {
			if _, isT := v.Type().(*types.Tuple); !isT && sortOf(v.Type()) != t.sort {
				panic(unsupported(fmt.Sprintf("sort of %s in %s: %s, term %s", v, fr.fn, sortOf(v.Type()), t.sort)))
			}
		}
		fr.env[v] = Val{t: t}
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(i.Type())
		if localAlloc(i) {
			x.localN++
			k := hkey(fmt.Sprintf("L$%s$%s$%d", fr.fn.Name(), i.Name(), x.localN), sortOf(t))
			keyTypes[k] = t
			fr.locals[k] = t
			x.set(st, k, zeroOf(t))
			set(i, Val{lv: &LV{kind: "var", key: k, typ: t}})
		} else {
			r := x.alloc(st, shortT(t))
			x.objInit(st, t, r)
			set(i, Val{t: r})
		}
	case *ssa.FieldAddr:
		t := deref(i.X.Type())
		b := x.val(fr, st, i.X)
		l := x.lvOf(b, t)
		set(i, Val{lv: x.fieldLV(l, t, i.Field)})
	case *ssa.IndexAddr:
		idx := x.tv(fr, st, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.tv(fr, st, i.X)
			set(i, Val{lv: &LV{kind: "elem", key: x.ekey(u.Elem()), ref: sRef(s), idx: idx}})
			x.assume(st, And(Le(Int(0), idx), Lt(idx, sLen(s))))
		case *types.Pointer:
			l := x.lvOf(x.val(fr, st, i.X), u.Elem())
			set(i, Val{lv: x.indexLV(l, u.Elem(), idx)})
		default:
			panic(unsupported("IndexAddr"))
		}
	case *ssa.Field:
		setT(i, Acc(structDT(i.X.Type()), i.Field, x.tv(fr, st, i.X)))
	case *ssa.Index:
		switch i.X.Type().Underlying().(type) {
		case *types.Array:
			setT(i, Select(x.tv(fr, st, i.X), x.tv(fr, st, i.Index)))
		default:
			setT(i, App("str.idx$", "Int", x.tv(fr, st, i.X), x.tv(fr, st, i.Index)))
		}
	case *ssa.Store:
		t := deref(i.Addr.Type())
		x.store(st, x.lvOf(x.val(fr, st, i.Addr), t), x.tv(fr, st, i.Val))
		if v := x.val(fr, st, i.Val); v.fn != nil {
			x.rememberFn(v, i.Val.Type())
		}
	case *ssa.UnOp:
		x.unop(fr, st, i)
	case *ssa.BinOp:
		setT(i, x.binop(st, i, x.tv(fr, st, i.X), x.tv(fr, st, i.Y)))
	case *ssa.Call:
		return x.call(fr, st, i, i.Common(), nil)
	case *ssa.ChangeInterface:
		set(i, Val{t: x.tv(fr, st, i.X)})
	case *ssa.ChangeType:
		v := x.val(fr, st, i.X)
		if v.t != nil && v.t.sort != sortOf(i.Type()) {
			v = Val{t: x.convStruct(v.t, i.X.Type(), i.Type())}
		}
		set(i, v)
	case *ssa.Convert:
		x.convert(fr, st, i)
	case *ssa.MakeInterface:
		v := x.val(fr, st, i.X)
		if v.fn != nil {
			x.rememberFn(v, i.X.Type())
		}
		setT(i, mkIface(i.X.Type(), x.term(v, i.X.Type())))
		if !isRefLike(i.X.Type()) {
			boxedSorts[sortOf(i.X.Type())] = true
		}
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		r := x.alloc(st, "map")
		d, v, l := x.mkeys(m)
		ks, vs := sortOf(m.Key()), sortOf(m.Elem())
		x.set(st, d, Store(x.get(st, d), r, ConstArr(ArrSort(ks, "Bool"), False)))
		x.set(st, v, Store(x.get(st, v), r, ConstArr(ArrSort(ks, vs), zeroOf(m.Elem()))))
		x.set(st, l, Store(x.get(st, l), r, Int(0)))
		setT(i, r)
	case *ssa.MakeSlice:
		el := i.Type().Underlying().(*types.Slice).Elem()
		n, c := x.tv(fr, st, i.Len), x.tv(fr, st, i.Cap)
		r := x.alloc(st, "slice")
		k := x.ekey(el)
		x.set(st, k, Store(x.get(st, k), r, ConstArr(ArrSort("Int", sortOf(el)), zeroOf(el))))
		setT(i, Ctor(sliceDT, r, n, c))
		x.assume(st, And(Le(Int(0), n), Le(n, c)))
	case *ssa.MakeChan:
		setT(i, x.alloc(st, "chan"))
	case *ssa.MakeClosure:
		v := Val{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			v.binds = append(v.binds, x.val(fr, st, b))
		}
		set(i, v)
	case *ssa.Slice:
		x.slice(fr, st, i)
	case *ssa.Lookup:
		x.lookup(fr, st, i)
	case *ssa.MapUpdate:
		m := i.Map.Type().Underlying().(*types.Map)
		x.mapSet(st, m, x.tv(fr, st, i.Map), x.tv(fr, st, i.Key), x.tv(fr, st, i.Value))
	case *ssa.Range:
		x.rangeStart(fr, st, i)
	case *ssa.Next:
		x.rangeNext(fr, st, i)
	case *ssa.Extract:
		tp := x.val(fr, st, i.Tuple)
		if tp.tup == nil {
			panic(unsupported("extract from non-tuple"))
		}
		set(i, tp.tup[i.Index])
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, i)
	case *ssa.Defer:
		d := deferred{cond: st.pc, call: i.Call, ins: i}
		d.fnv, d.vals = x.callArgs(fr, st, &i.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		return x.runDefers(fr, st, false)
	case *ssa.Go:
		x.note("go statement executed synchronously at the point of the go statement: " + x.pos(i.Pos()))
		return x.call(fr, st, nil, i.Common(), nil)
	case *ssa.Send:
		x.note("channel send has no modelled effect: " + x.pos(i.Pos()))
	case *ssa.Select:
		panic(unsupported("select statement"))
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		panic(unsupported("instruction " + ins.String()))
	default:
		panic(unsupported("instruction " + ins.String()))
	}
	return st
}

func shortT(t types.Type) string {
	s := tname(t)
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		s = s[i+1:]
	}
	if len(s) > 20 {
		s = s[:20]
	}
	return s
}

var knownFns = map[string]Val{}

func (x *Exec) rememberFn(v Val, t types.Type) {
	if len(v.binds) == 0 {
		knownFns[x.term(v, t).name] = v
	}
}

func (x *Exec) convStruct(t *Term, from, to types.Type) *Term {
	fu, ok1 := from.Underlying().(*types.Struct)
	_, ok2 := to.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		panic(unsupported("change type " + from.String() + " to " + to.String()))
	}
	df, dt := structDT(from), structDT(to)
	var as []*Term
	for i := 0; i < fu.NumFields(); i++ {
		as = append(as, Acc(df, i, t))
	}
	return Ctor(dt, as...)
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		t := deref(i.X.Type())
		p := x.val(fr, st, i.X)
		l := x.lvOf(p, t)
		v := x.load(st, l)
		if v.op == "const" && strings.HasPrefix(v.name, "fn.") {
			if k, ok := knownFns[v.name]; ok {
				fr.env[i] = k
				return
			}
		}
		x.loadFacts(st, t, v)
		fr.env[i] = Val{t: v}
	case token.NOT:
		fr.env[i] = Val{t: Not(x.tv(fr, st, i.X))}
	case token.SUB:
		v := x.tv(fr, st, i.X)
		if v.sort == "Int" {
			fr.env[i] = Val{t: Sub(Int(0), v)}
		} else {
			fr.env[i] = Val{t: App("flt.neg", v.sort, v)}
		}
	case token.ARROW:
		x.note("channel receive yields an arbitrary value")
		if i.CommaOk {
			tt := i.Type().(*types.Tuple)
			fr.env[i] = Val{tup: []Val{{t: x.freshOf(st, "recv", tt.At(0).Type())}, {t: Fresh("ok", "Bool")}}}
		} else {
			fr.env[i] = Val{t: x.freshOf(st, "recv", i.Type())}
		}
	default:
		fr.env[i] = Val{t: App("un."+mangle(i.Op.String()), sortOf(i.Type()), x.tv(fr, st, i.X))}
	}
}

// loadFacts assumes the type facts of a loaded value.
func (x *Exec) loadFacts(st *State, t types.Type, v *Term) {
	if len(v.args) == 0 && v.op != "const" {
		return
	}
	if allocRank[v.id] > 0 || v.op == "ctor" {
		return
	}
	f := typedFact(t, v, x.get(st, allocKey))
	if f != True {
		x.assume(st, f)
	}
}

func (x *Exec) freshOf(st *State, hint string, t types.Type) *Term {
	v := Fresh(hint, sortOf(t))
	f := typedFact(t, v, x.get(st, allocKey))
	if f != True {
		x.assumes = append(x.assumes, Assume{t: f})
	}
	return v
}

func isStr(t types.Type) bool { return sortOf(t) == "Str" }

func (x *Exec) binop(st *State, i *ssa.BinOp, a, b *Term) *Term {
	t := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		var e *Term
		if a.sort != b.sort {
			// interface compared with concrete value
			if a.sort == "Iface" {
				b = mkIface(i.Y.Type(), b)
			} else if b.sort == "Iface" {
				a = mkIface(t, a)
			}
		}
		switch {
		case a.sort == "Slice":
			// only comparison with nil is legal
			s := a
			if a == nilSl {
				s = b
			}
			e = Eq(sRef(s), Int(0))
		case a.sort == "Iface" && (a == nilIf || b == nilIf):
			s := a
			if a == nilIf {
				s = b
			}
			e = Eq(iTag(s), Int(0))
		default:
			e = Eq(a, b)
		}
		if i.Op == token.NEQ {
			return Not(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.sort == "Int" {
			switch i.Op {
			case token.LSS:
				return Lt(a, b)
			case token.LEQ:
				return Le(a, b)
			case token.GTR:
				return Gt(a, b)
			case token.GEQ:
				return Ge(a, b)
			}
		}
		switch i.Op {
		case token.LSS:
			return App("lt."+a.sort, "Bool", a, b)
		case token.GTR:
			return App("lt."+a.sort, "Bool", b, a)
		case token.LEQ:
			return Not(App("lt."+a.sort, "Bool", b, a))
		default:
			return Not(App("lt."+a.sort, "Bool", a, b))
		}
	case token.ADD:
		if a.sort == "Int" {
			return Add(a, b)
		}
		if a.sort == "Str" {
			return StrCat(a, b)
		}
	case token.SUB:
		if a.sort == "Int" {
			return Sub(a, b)
		}
	case token.MUL:
		if a.sort == "Int" {
			return Mul(a, b)
		}
	}
	return App("op."+mangle(i.Op.String())+opName(i.Op)+"."+a.sort, sortOf(i.Type()), a, b)
}

func opName(op token.Token) string { return fmt.Sprintf("%d", int(op)) }

func (x *Exec) convert(fr *Frame, st *State, i *ssa.Convert) {
	v := x.tv(fr, st, i.X)
	from, to := sortOf(i.X.Type()), sortOf(i.Type())
	if from == to && from != "Slice" {
		if from == "Int" {
			// integer conversions are treated as exact unless truncating to an unsigned/smaller type
			fb, ok1 := i.X.Type().Underlying().(*types.Basic)
			tb, ok2 := i.Type().Underlying().(*types.Basic)
			if ok1 && ok2 && fb.Kind() != tb.Kind() {
				x.note("integer conversions are treated as exact (mathematical integers)")
			}
		}
		fr.env[i] = Val{t: v}
		return
	}
	fn := "conv." + mangle(from) + "." + mangle(to) + "." + mangle(tname(i.Type()))
	r := App(fn, to, v)
	if to == "Slice" {
		r2 := x.freshOf(st, "conv", i.Type())
		x.assume(st, Eq(sLen(r2), App("strlen$", "Int", v)))
		r = r2
	}
	fr.env[i] = Val{t: r}
}

func (x *Exec) slice(fr *Frame, st *State, i *ssa.Slice) {
	low := Int(0)
	if i.Low != nil {
		low = x.tv(fr, st, i.Low)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer: // pointer to array
		at := u.Elem().Underlying().(*types.Array)
		r := x.tv(fr, st, i.X)
		n := Int(at.Len())
		hi := n
		if i.High != nil {
			hi = x.tv(fr, st, i.High)
		}
		if low == Int(0) {
			fr.env[i] = Val{t: Ctor(sliceDT, r, hi, n)}
			return
		}
		panic(unsupported("slicing an array with a low bound"))
	case *types.Slice:
		s := x.tv(fr, st, i.X)
		hi := sLen(s)
		if i.High != nil {
			hi = x.tv(fr, st, i.High)
		}
		cp := sCap(s)
		if i.Max != nil {
			cp = x.tv(fr, st, i.Max)
		}
		x.assume(st, And(Le(Int(0), low), Le(low, hi), Le(hi, cp)))
		if low == Int(0) {
			fr.env[i] = Val{t: Ctor(sliceDT, sRef(s), hi, cp)}
			return
		}
		// a non-zero low bound: modelled as a fresh copy (aliasing lost, recorded)
		x.note("reslicing with a non-zero low bound modelled as a copy")
		k := x.ekey(u.Elem())
		r := x.alloc(st, "reslice")
		arr := Fresh("resl", ArrSort("Int", sortOf(u.Elem())))
		j := BoundVar("j", "Int")
		a := x.get(st, k)
		x.assumes = append(x.assumes, Assume{t: Forall([]*Term{j}, Eq(Select(arr, j), Select(Select(a, sRef(s)), Add(j, low))), []*Term{Select(arr, j)})})
		x.set(st, k, Store(a, r, arr))
		fr.env[i] = Val{t: Ctor(sliceDT, r, Sub(hi, low), Sub(cp, low))}
	default: // string
		s := x.tv(fr, st, i.X)
		hi := App("strlen$", "Int", s)
		if i.High != nil {
			hi = x.tv(fr, st, i.High)
		}
		fr.env[i] = Val{t: App("str.sub", "Str", s, low, hi)}
	}
}

func (x *Exec) mapHas(st *State, m *types.Map, r, k *Term) *Term {
	d, _, _ := x.mkeys(m)
	return Select(Select(x.get(st, d), r), k)
}
func (x *Exec) mapVal(st *State, m *types.Map, r, k *Term) *Term {
	_, v, _ := x.mkeys(m)
	return Select(Select(x.get(st, v), r), k)
}
func (x *Exec) mapSet(st *State, m *types.Map, r, k, v *Term) {
	d, vk, l := x.mkeys(m)
	x.assume(st, Ne(r, Int(0)))
	D, V, L := x.get(st, d), x.get(st, vk), x.get(st, l)
	had := Select(Select(D, r), k)
	x.set(st, d, Store(D, r, Store(Select(D, r), k, True)))
	x.set(st, vk, Store(V, r, Store(Select(V, r), k, v)))
	x.set(st, l, Store(L, r, Ite(had, Select(L, r), Add(Select(L, r), Int(1)))))
}
func (x *Exec) mapDelete(st *State, m *types.Map, r, k *Term) {
	d, _, l := x.mkeys(m)
	D, L := x.get(st, d), x.get(st, l)
	had := Select(Select(D, r), k)
	// deleting from a nil map is a no-op: its domain is already empty
	x.set(st, d, Store(D, r, Store(Select(D, r), k, False)))
	x.set(st, l, Store(L, r, Ite(had, Sub(Select(L, r), Int(1)), Select(L, r))))
}

func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) {
	m, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		fr.env[i] = Val{t: App("str.idx$", "Int", x.tv(fr, st, i.X), x.tv(fr, st, i.Index))}
		return
	}
	r, k := x.tv(fr, st, i.X), x.tv(fr, st, i.Index)
	has := x.mapHas(st, m, r, k)
	_, _, l := x.mkeys(m)
	x.assume(st, Implies(has, And(Gt(Select(x.get(st, l), r), Int(0)), Ne(r, Int(0)))))
	mv := x.mapVal(st, m, r, k)
	x.loadFacts(st, m.Elem(), mv)
	v := Ite(has, mv, zeroOf(m.Elem()))
	if i.CommaOk {
		fr.env[i] = Val{tup: []Val{{t: v}, {t: has}}}
	} else {
		fr.env[i] = Val{t: v}
	}
}

func (x *Exec) rangeStart(fr *Frame, st *State, i *ssa.Range) {
	m, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		fr.env[i] = Val{it: &mapIter{str: true}}
		return
	}
	r := x.tv(fr, st, i.X)
	x.localN++
	k := hkey(fmt.Sprintf("VIS$%s%d", sortOf(m.Key()), x.localN), ArrSort(sortOf(m.Key()), "Bool"))
	x.set(st, k, ConstArr(ArrSort(sortOf(m.Key()), "Bool"), False))
	n := hkey(fmt.Sprintf("VISN$%s%d", sortOf(m.Key()), x.localN), "Int")
	x.set(st, n, Int(0))
	d, _, _ := x.mkeys(m)
	fr.env[i] = Val{it: &mapIter{m: r, mt: m, vis: k, start: Select(x.get(st, d), r)}}
}

func (x *Exec) rangeNext(fr *Frame, st *State, i *ssa.Next) {
	it := x.val(fr, st, i.Iter).it
	if it.str {
		fr.env[i] = Val{tup: []Val{{t: Fresh("ok", "Bool")}, {t: Fresh("ix", "Int")}, {t: Fresh("rn", "Int")}}}
		return
	}
	ks := sortOf(it.mt.Key())
	ok := Fresh("ok", "Bool")
	k := x.freshOf(st, "k", it.mt.Key())
	dk, _, lk := x.mkeys(it.mt)
	D := Select(x.get(st, dk), it.m)
	vis := x.get(st, it.vis)
	nk := "VISN$" + strings.TrimPrefix(it.vis, "VIS$")
	n := x.get(st, nk)
	q := BoundVar("q", ks)
	L := Select(x.get(st, lk), it.m)
	x.assume(st, Implies(ok, And(Select(D, k), Not(Select(vis, k)))))
	x.assume(st, Implies(Not(ok), And(
		Forall([]*Term{q}, Implies(And(Select(it.start, q), Select(D, q)), Select(vis, q)), []*Term{Select(D, q)}),
		Implies(Eq(D, it.start), Eq(n, L)))))
	x.assume(st, Implies(And(ok, Eq(D, it.start)), Lt(n, L)))
	x.assume(st, Ge(n, Int(0)))
	x.set(st, it.vis, Ite(ok, Store(vis, k, True), vis))
	x.set(st, nk, Ite(ok, Add(n, Int(1)), n))
	mv := x.mapVal(st, it.mt, it.m, k)
	x.loadFacts(st, it.mt.Elem(), mv)
	fr.env[i] = Val{tup: []Val{{t: ok}, {t: k}, {t: mv}}}
}

func (x *Exec) implTags(t types.Type) *Term { return nil }

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) {
	v := x.tv(fr, st, i.X)
	var ok, r *Term
	if types.IsInterface(i.AssertedType) {
		ok = x.implements(v, i.AssertedType)
		r = v
		if i.CommaOk {
			r = Ite(ok, v, nilIf)
		}
	} else {
		tg := tagOf(i.AssertedType)
		ok = Eq(iTag(v), tg)
		r = unbox(i.AssertedType, v)
		if !isRefLike(i.AssertedType) {
			// re-boxing gives the payload back
			x.assume(st, Implies(ok, Eq(App(boxFn(r.sort), "Int", r), iPay(v))))
		}
		x.assume(st, Implies(ok, typedFact(i.AssertedType, r, x.get(st, allocKey))))
		if i.CommaOk {
			r = Ite(ok, r, zeroOf(i.AssertedType))
		}
	}
	if i.CommaOk {
		fr.env[i] = Val{tup: []Val{{t: r}, {t: ok}}}
	} else {
		x.assume(st, ok)
		x.note("type assertions without ok are assumed to succeed (runtime panics are out of scope)")
		fr.env[i] = Val{t: r}
	}
}

// implements: does dynamic type of v implement the interface?
func (x *Exec) implements(v *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if n, ok := intVal(iTag(v)); ok {
		if n == 0 {
			return False
		}
		return Bool(types.Implements(tagTypes[n], it))
	}
	if it.NumMethods() == 0 {
		return Ne(iTag(v), Int(0))
	}
	fn := "implements." + mangle(tname(t))
	a := App(fn, "Bool", iTag(v))
	x.assumes = append(x.assumes, Assume{t: Not(App(fn, "Bool", Int(0)))})
	for n := 1; n < len(tagTypes); n++ {
		if types.IsInterface(tagTypes[n]) {
			continue
		}
		x.assumes = append(x.assumes, Assume{t: Eq(App(fn, "Bool", Int(int64(n))), Bool(types.Implements(tagTypes[n], it)))})
	}
	return a
}
