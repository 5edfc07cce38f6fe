package main

// Go types -> SMT sorts, zero values, interface boxing, heap keys.

import (
	"fmt"
	"go/types"
	"strings"
)

func qual(p *types.Package) string {
	s := p.Path()
	s = strings.TrimPrefix(s, "github.com/project-flogo/")
	return s
}

func tname(t types.Type) string { return types.TypeString(types.Unalias(t), qual) }

func isFlogo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), "github.com/project-flogo/")
}

var (
	sliceDT = DeclDT("Slice", []string{"s.ref", "s.len", "s.cap"}, []string{"Int", "Int", "Int"})
	ifaceDT = DeclDT("Iface", []string{"i.tag", "i.pay"}, []string{"Int", "Int"})
	nilIf   = Ctor(ifaceDT, Int(0), Int(0))
	nilSl   = Ctor(sliceDT, Int(0), Int(0), Int(0))
)

func sRef(t *Term) *Term { return Acc(sliceDT, 0, t) }
func sLen(t *Term) *Term { return Acc(sliceDT, 1, t) }
func sCap(t *Term) *Term { return Acc(sliceDT, 2, t) }
func iTag(t *Term) *Term { return Acc(ifaceDT, 0, t) }
func iPay(t *Term) *Term { return Acc(ifaceDT, 1, t) }

var sortMemo = map[types.Type]string{}

func sortOf(t types.Type) string {
	if s, ok := sortMemo[t]; ok {
		return s
	}
	s := sortOf1(t)
	sortMemo[t] = s
	return s
}

func sortOf1(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			declSort("Str")
			return "Str"
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			declSort("Flt")
			return "Flt"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Int"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return ArrSort("Int", sortOf(u.Elem()))
	case *types.Struct:
		if opaqueStruct(t) {
			n := "X." + mangle(tname(t))
			declSort(n)
			return n
		}
		return structDT(t).name
	case *types.Tuple:
		return "Tuple"
	}
	panic(unsupported("type " + t.String()))
}

func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && !isFlogo(n.Obj().Pkg())
}

var structMemo = map[string]*dtype{}

func structDT(t types.Type) *dtype {
	st := t.Underlying().(*types.Struct)
	key := tname(t)
	if _, named := types.Unalias(t).(*types.Named); !named {
		key = "anon." + tname(st)
	}
	if d, ok := structMemo[key]; ok {
		return d
	}
	var fs, ss []string
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, "v."+mangle(key)+"."+st.Field(i).Name())
		ss = append(ss, sortOf(st.Field(i).Type()))
	}
	d := DeclDT("S."+mangle(key), fs, ss)
	structMemo[key] = d
	return d
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if opaqueStruct(t) {
			return Const("zero."+sortOf(t), sortOf(t))
		}
		d := structDT(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return Ctor(d, as...)
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s string) *Term {
	switch s {
	case "Bool":
		return False
	case "Int":
		return Int(0)
	case "Str":
		return StrLit("")
	case "Slice":
		return nilSl
	case "Iface":
		return nilIf
	case "Flt":
		return Const("flt.zero", "Flt")
	}
	return Const("zero."+s, s)
}

// ---- strings

var strLits = map[string]*Term{}
var strSeq []string

func StrLit(s string) *Term {
	if t, ok := strLits[s]; ok {
		return t
	}
	declSort("Str")
	nm := mangle(s)
	if len(nm) > 40 {
		nm = nm[:40]
	}
	t := Const(fmt.Sprintf("str.%d.%s", len(strLits), nm), "Str")
	strLits[s] = t
	strSeq = append(strSeq, s)
	distinctConsts[t.id] = 1
	return t
}

func litOf(t *Term) (string, bool) {
	if t.op != "const" || t.sort != "Str" {
		return "", false
	}
	for s, x := range strLits {
		if x == t {
			return s, true
		}
	}
	return "", false
}

// flatten a concatenation
func catParts(t *Term) []*Term {
	if t.op == "app" && t.name == "str.cat" {
		return append(catParts(t.args[0]), catParts(t.args[1])...)
	}
	return []*Term{t}
}

// StrCat concatenates; right-nested normal form with merged literals.
func StrCat(a, b *Term) *Term {
	ps := append(catParts(a), catParts(b)...)
	var out []*Term
	for _, p := range ps {
		if l, ok := litOf(p); ok {
			if l == "" {
				continue
			}
			if n := len(out); n > 0 {
				if l2, ok := litOf(out[n-1]); ok {
					out[n-1] = StrLit(l2 + l)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return StrLit("")
	}
	r := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		r = App("str.cat", "Str", out[i], r)
	}
	return r
}

// strAxioms gives the facts about literal prefixes and concatenation used by the listed terms.
// For every literal prefix c occurring in a concatenation (cat c x): injectivity in x and
// disequality with literals that lack the prefix, and with other incompatible prefixes.
func strAxioms(prefixes []string, lits []string) []*Term {
	var out []*Term
	x := BoundVar("sx", "Str")
	y := BoundVar("sy", "Str")
	for i, c := range prefixes {
		cx := App("str.cat", "Str", StrLit(c), x)
		un := App("str.uncat", "Str", StrLit(c), cx)
		out = append(out, Forall([]*Term{x}, Eq(un, x), []*Term{cx}))
		out = append(out, Forall([]*Term{x}, Not(Eq(cx, StrLit(""))), []*Term{cx}))
		for _, l := range lits {
			if !strings.HasPrefix(l, c) {
				out = append(out, Forall([]*Term{x}, Not(Eq(cx, StrLit(l))), []*Term{cx}))
			} else if l != "" {
				out = append(out, Forall([]*Term{x}, Eq(Eq(cx, StrLit(l)), Eq(x, StrLit(l[len(c):]))), []*Term{cx}))
			}
		}
		for j := i + 1; j < len(prefixes); j++ {
			d := prefixes[j]
			if !strings.HasPrefix(c, d) && !strings.HasPrefix(d, c) {
				dy := App("str.cat", "Str", StrLit(d), y)
				out = append(out, Forall([]*Term{x, y}, Not(Eq(cx, dy)), []*Term{cx, dy}))
			}
		}
	}
	return out
}

// ---- interface boxing

var typeTags = map[string]int{}
var tagNames = []string{"nil"}
var tagTypes = []types.Type{nil}

func tagOf(t types.Type) *Term {
	k := tname(t)
	if n, ok := typeTags[k]; ok {
		return Int(int64(n))
	}
	n := len(tagNames)
	typeTags[k] = n
	tagNames = append(tagNames, k)
	tagTypes = append(tagTypes, t)
	return Int(int64(n))
}

func isRefLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func boxFn(s string) string   { return "box." + mangle(s) }
func unboxFn(s string) string { return "unbox." + mangle(s) }

// mkIface boxes a value of static type t.
func mkIface(t types.Type, v *Term) *Term {
	if isRefLike(t) {
		return Ctor(ifaceDT, tagOf(t), v)
	}
	if v.op == "app" && v.name == unboxFn(v.sort) {
		return Ctor(ifaceDT, tagOf(t), v.args[0])
	}
	b := App(boxFn(v.sort), "Int", v)
	return Ctor(ifaceDT, tagOf(t), b)
}

func unbox(t types.Type, i *Term) *Term {
	p := iPay(i)
	if isRefLike(t) {
		return p
	}
	s := sortOf(t)
	if p.op == "app" && p.name == boxFn(s) {
		return p.args[0]
	}
	boxedSorts[s] = true
	App(boxFn(s), "Int", Const("zero.bx."+mangle(s), s))
	return App(unboxFn(s), s, p)
}

var boxedSorts = map[string]bool{}

// boxAxioms: box/unbox are inverse; boxed payloads are negative.
func boxAxioms(s string) []*Term {
	x := BoundVar("bx", s)
	bx := App(boxFn(s), "Int", x)
	return []*Term{Forall([]*Term{x}, And(Eq(App(unboxFn(s), s, bx), x), Lt(bx, Int(0))), []*Term{bx})}
}

// ---- heap keys

var heapSort = map[string]string{}

func hkey(name, srt string) string {
	if s, ok := heapSort[name]; ok && s != srt {
		panic(fmt.Sprintf("heap key %s: %s vs %s", name, s, srt))
	}
	heapSort[name] = srt
	return name
}

func structKeyName(t types.Type) string {
	if _, named := types.Unalias(t).(*types.Named); named {
		return tname(t)
	}
	return "anon." + tname(t.Underlying())
}

func fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return hkey("F$"+structKeyName(t)+"$"+st.Field(i).Name(), ArrSort("Int", sortOf(st.Field(i).Type())))
}
func elemKey(elem types.Type) string {
	return hkey("E$"+tname(elem), ArrSort("Int", ArrSort("Int", sortOf(elem))))
}
func mapKeys(m *types.Map) (dom, val, ln string) {
	n := tname(m.Key()) + "$" + tname(m.Elem())
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	return hkey("MD$"+n, ArrSort("Int", ArrSort(k, "Bool"))), hkey("MV$"+n, ArrSort("Int", ArrSort(k, v))), hkey("ML$"+n, ArrSort("Int", "Int"))
}
func cellKey(t types.Type) string { return hkey("C$"+tname(t), ArrSort("Int", sortOf(t))) }

const allocKey = "ALLOC"
const panicKey = "PANIC"

func init() {
	heapSort[allocKey] = "Int"
	heapSort[panicKey] = "Iface"
}

type unsup struct{ msg string }

func unsupported(m string) unsup { return unsup{m} }
func (u unsup) Error() string   { return "unsupported: " + u.msg }
