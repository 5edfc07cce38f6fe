package main

// Term library: hash-consed SMT terms with light simplification.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	op    string // "const" (name), "int", "true","false", "var" (bound), or an SMT operator / function
	name  string
	args  []*Term
	sort  string
	id    int
	bound bool // contains a bound variable
	size  int
	vars  []*Term // quantifier variables
	pats  [][]*Term
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	declFuns = map[string]funDecl{} // uninterpreted functions and constants
	declSeq  []string
	dtypes   = map[string]*dtype{}
	dtSeq    []string
	sortSeq  []string
	sortSet  = map[string]bool{}
)

type funDecl struct {
	args []string
	ret  string
}
type dtype struct {
	name   string
	ctor   string
	fields []string // accessor names
	sorts  []string
}

func mkT(op, name, srt string, args []*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, name: name, args: args, sort: srt, id: len(termList) + 1, size: 1}
	if op == "var" {
		t.bound = true
	}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		t.size += a.size
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

var (
	True  = mkT("true", "", "Bool", nil)
	False = mkT("false", "", "Bool", nil)
)

func Int(n int64) *Term  { return mkT("int", strconv.FormatInt(n, 10), "Int", nil) }
func IntS(s string) *Term { return mkT("int", s, "Int", nil) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func declSort(s string) {
	if !sortSet[s] {
		sortSet[s] = true
		sortSeq = append(sortSeq, s)
	}
}

func Const(name, srt string) *Term {
	if _, ok := declFuns[name]; !ok {
		declFuns[name] = funDecl{nil, srt}
		declSeq = append(declSeq, name)
	}
	return mkT("const", name, srt, nil)
}

var freshN = map[string]int{}

func Fresh(hint, srt string) *Term {
	hint = mangle(hint)
	freshN[hint]++
	return Const(fmt.Sprintf("%s!%d", hint, freshN[hint]), srt)
}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!':
			b.WriteRune(r)
		case r == '/':
			b.WriteByte('.')
		case r == '*':
			b.WriteString("ptr.")
		case r == '[':
			b.WriteString("lb.")
		case r == ']':
			b.WriteString("rb.")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func App(fn, ret string, args ...*Term) *Term {
	if _, ok := declFuns[fn]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, a.sort)
		}
		declFuns[fn] = funDecl{as, ret}
		declSeq = append(declSeq, fn)
	}
	if len(args) == 0 {
		return mkT("const", fn, ret, nil)
	}
	return mkT("app", fn, ret, args)
}

// BoundVar makes a bound variable.
func BoundVar(name, srt string) *Term { return mkT("var", name, srt, nil) }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mkT("not", "", "Bool", []*Term{a})
}

func isNeg(a, b *Term) bool {
	return (a.op == "not" && a.args[0] == b) || (b.op == "not" && b.args[0] == a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == True || seen[x.id] {
			return true
		}
		if x == False {
			return false
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkT("and", "", "Bool", out)
}

func conj(x *Term) []*Term {
	if x.op == "and" {
		return x.args
	}
	return []*Term{x}
}

// orMerge: (p & c) | (p & !c) => p
func orMerge(a, b *Term) (*Term, bool) {
	if a == b {
		return a, true
	}
	ca, cb := conj(a), conj(b)
	in := map[int]bool{}
	for _, x := range cb {
		in[x.id] = true
	}
	var onlyA, common []*Term
	for _, x := range ca {
		if in[x.id] {
			common = append(common, x)
		} else {
			onlyA = append(onlyA, x)
		}
	}
	if len(onlyA) == 0 { // a weaker
		return a, true
	}
	ina := map[int]bool{}
	for _, x := range ca {
		ina[x.id] = true
	}
	var onlyB []*Term
	for _, x := range cb {
		if !ina[x.id] {
			onlyB = append(onlyB, x)
		}
	}
	if len(onlyB) == 0 {
		return b, true
	}
	ra, rb := And(onlyA...), And(onlyB...)
	if Not(ra) == rb || Not(rb) == ra {
		return And(common...), true
	}
	// a = common & x ; b = common & !x & rest  => common & (x | rest)
	if len(onlyA) == 1 {
		for i, y := range onlyB {
			if isNeg(onlyA[0], y) {
				rest := append(append([]*Term{}, onlyB[:i]...), onlyB[i+1:]...)
				return And(append(common, Or(onlyA[0], And(rest...)))...), true
			}
		}
	}
	if len(onlyB) == 1 {
		for i, y := range onlyA {
			if isNeg(onlyB[0], y) {
				rest := append(append([]*Term{}, onlyA[:i]...), onlyA[i+1:]...)
				return And(append(common, Or(onlyB[0], And(rest...)))...), true
			}
		}
	}
	return nil, false
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var flat func(x *Term)
	flat = func(x *Term) {
		if x.op == "or" {
			for _, y := range x.args {
				flat(y)
			}
			return
		}
		if x == False || seen[x.id] {
			return
		}
		seen[x.id] = true
		out = append(out, x)
	}
	for _, x := range xs {
		flat(x)
	}
	for again := true; again; {
		again = false
	loop:
		for i := 0; i < len(out); i++ {
			if out[i] == True {
				return True
			}
			for j := i + 1; j < len(out); j++ {
				if m, ok := orMerge(out[i], out[j]); ok {
					rest := append([]*Term{}, out[:i]...)
					rest = append(rest, out[i+1:j]...)
					rest = append(rest, out[j+1:]...)
					out = append([]*Term{}, rest...)
					for _, y := range disj(m) {
						out = append(out, y)
					}
					again = true
					break loop
				}
			}
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, x := range out {
		if x == True {
			return True
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	k := 1
	for i := 1; i < len(out); i++ {
		if out[i] != out[i-1] {
			out[k] = out[i]
			k++
		}
	}
	out = out[:k]
	if len(out) == 1 {
		return out[0]
	}
	return mkT("or", "", "Bool", out)
}

func disj(x *Term) []*Term {
	if x.op == "or" {
		return x.args
	}
	return []*Term{x}
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mkT("=>", "", "Bool", []*Term{a, b})
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func isLit(t *Term) bool { return t.op == "int" || t.op == "true" || t.op == "false" }

var distinctConsts = map[int]int{} // term id -> group; two different terms of the same group are distinct

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if ga, ok := distinctConsts[a.id]; ok {
		if gb, ok := distinctConsts[b.id]; ok && ga == gb {
			return False
		}
	}
	if a.sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	// constructor equality
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "ite" && b.op != "ite" && isLit(b) {
		if isLit(a.args[1]) || isLit(a.args[2]) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if b.op == "ite" && a.op != "ite" && isLit(a) {
		if isLit(b.args[1]) || isLit(b.args[2]) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkT("=", "", "Bool", []*Term{a, b})
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch: %s vs %s", a.sort, b.sort))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		switch {
		case a == True && b == False:
			return c
		case a == False && b == True:
			return Not(c)
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var as []*Term
		for i := range a.args {
			as = append(as, Ite(c, a.args[i], b.args[i]))
		}
		return mkT("ctor", a.name, a.sort, as)
	}
	return mkT("ite", "", a.sort, []*Term{c, a, b})
}

func intVal(t *Term) (int64, bool) {
	if t.op == "int" {
		n, err := strconv.ParseInt(t.name, 10, 64)
		return n, err == nil
	}
	return 0, false
}

// linear normal form: base + k
func splitAdd(t *Term) (*Term, int64) {
	if n, ok := intVal(t); ok {
		return nil, n
	}
	if t.op == "+" && len(t.args) == 2 {
		if n, ok := intVal(t.args[1]); ok {
			return t.args[0], n
		}
	}
	return t, 0
}

func Add(a, b *Term) *Term {
	ba, ka := splitAdd(a)
	bb, kb := splitAdd(b)
	k := ka + kb
	var base *Term
	switch {
	case ba == nil && bb == nil:
		return Int(k)
	case ba == nil:
		base = bb
	case bb == nil:
		base = ba
	default:
		base = mkT("+", "", "Int", []*Term{ba, bb})
	}
	if k == 0 {
		return base
	}
	return mkT("+", "", "Int", []*Term{base, Int(k)})
}

func Sub(a, b *Term) *Term {
	if n, ok := intVal(b); ok {
		return Add(a, Int(-n))
	}
	ba, ka := splitAdd(a)
	bb, kb := splitAdd(b)
	if ba == bb {
		return Int(ka - kb)
	}
	return mkT("-", "", "Int", []*Term{a, b})
}

func Mul(a, b *Term) *Term {
	if x, ok := intVal(a); ok {
		if y, ok := intVal(b); ok {
			return Int(x * y)
		}
	}
	return mkT("*", "", "Int", []*Term{a, b})
}

func cmpFold(a, b *Term) (int64, bool) {
	ba, ka := splitAdd(a)
	bb, kb := splitAdd(b)
	if ba == bb {
		return ka - kb, true
	}
	return 0, false
}

func Lt(a, b *Term) *Term {
	if d, ok := cmpFold(a, b); ok {
		return Bool(d < 0)
	}
	return mkT("<", "", "Bool", []*Term{a, b})
}
func Le(a, b *Term) *Term {
	if d, ok := cmpFold(a, b); ok {
		return Bool(d <= 0)
	}
	return Not(Lt(b, a))
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func arraySorts(s string) (string, string) {
	// "(Array X Y)"
	in := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// mustDiffer is a syntactic disequality check (sound, incomplete).
func mustDiffer(a, b *Term) bool { return Eq(a, b) == False }

func Select(a, i *Term) *Term {
	_, vs := arraySorts(a.sort)
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if mustDiffer(a.args[1], i) || knownFreshDiff(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		x, y := a.args[1], a.args[2]
		// push the select into the branches when at least one side resolves
		sx, sy := Select(x, i), Select(y, i)
		if sx == sy {
			return sx
		}
		if !(sx.op == "select" && sx.args[0] == x) || !(sy.op == "select" && sy.args[0] == y) {
			return Ite(a.args[0], sx, sy)
		}
	}
	return mkT("select", "", vs, []*Term{a, i})
}

// knownFreshDiff: one of the terms is an allocation address created after the other existed.
var allocRank = map[int]int{} // address term id -> allocation rank (Fresh alloc constants)
var oldTerm = map[int]bool{}  // terms known to denote entry-state addresses

func knownFreshDiff(a, b *Term) bool {
	ra, oka := allocRank[a.id]
	rb, okb := allocRank[b.id]
	if oka && okb {
		return ra != rb
	}
	if oka && (knownOld(b) || isLit(b)) || okb && (knownOld(a) || isLit(a)) {
		return true
	}
	return false
}

var knownOld = func(t *Term) bool { return oldTerm[t.id] }

func Store(a, i, v *Term) *Term {
	_, vs := arraySorts(a.sort)
	if v.sort != vs {
		panic(fmt.Sprintf("Store sort mismatch: array %s value %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mkT("store", "", a.sort, []*Term{a, i, v})
}

func ConstArr(srt string, v *Term) *Term { return mkT("constarr", "", srt, []*Term{v}) }

func DeclDT(name string, fields, sorts []string) *dtype {
	if d, ok := dtypes[name]; ok {
		return d
	}
	d := &dtype{name: name, ctor: "mk." + name, fields: fields, sorts: sorts}
	dtypes[name] = d
	dtSeq = append(dtSeq, name)
	return d
}

func Ctor(d *dtype, args ...*Term) *Term {
	if len(args) != len(d.fields) {
		panic("ctor arity " + d.name)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("ctor %s field %s: sort %s want %s", d.name, d.fields[i], a.sort, d.sorts[i]))
		}
	}
	// eta
	if len(args) > 0 && args[0].op == "acc" && args[0].name == d.fields[0] {
		base := args[0].args[0]
		same := true
		for i, a := range args {
			if a.op != "acc" || a.name != d.fields[i] || a.args[0] != base {
				same = false
				break
			}
		}
		if same {
			return base
		}
	}
	return mkT("ctor", d.ctor, d.name, args)
}

func Acc(d *dtype, i int, v *Term) *Term {
	if v.op == "ctor" {
		return v.args[i]
	}
	if v.op == "ite" && (v.args[1].op == "ctor" || v.args[2].op == "ctor" || v.args[1].op == "ite" || v.args[2].op == "ite") {
		return Ite(v.args[0], Acc(d, i, v.args[1]), Acc(d, i, v.args[2]))
	}
	return mkT("acc", d.fields[i], d.sorts[i], []*Term{v})
}

func Quant(kind string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	// key must contain the variables and patterns: encode through args
	var nm strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&nm, "%s:%s;", v.name, v.sort)
	}
	args := []*Term{body}
	var shape []string
	for _, p := range pats {
		shape = append(shape, strconv.Itoa(len(p)))
		args = append(args, p...)
	}
	t := mkT(kind, nm.String()+strings.Join(shape, ","), "Bool", args)
	if t.vars == nil {
		t.vars = vars
		t.pats = pats
		t.bound = false
		// still bound if the body mentions other bound variables
		own := map[int]bool{}
		for _, v := range vars {
			own[v.id] = true
		}
		t.bound = hasOtherBound(body, own, map[int]bool{})
	}
	return t
}

func hasOtherBound(t *Term, own map[int]bool, seen map[int]bool) bool {
	if !t.bound || seen[t.id] {
		return false
	}
	seen[t.id] = true
	if t.op == "var" {
		return !own[t.id]
	}
	if t.vars != nil {
		own2 := map[int]bool{}
		for k := range own {
			own2[k] = true
		}
		for _, v := range t.vars {
			own2[v.id] = true
		}
		return hasOtherBound(t.args[0], own2, map[int]bool{})
	}
	for _, a := range t.args {
		if hasOtherBound(a, own, seen) {
			return true
		}
	}
	return false
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term { return Quant("forall", vars, body, pats) }
func Exists(vars []*Term, body *Term) *Term                  { return Quant("exists", vars, body, nil) }

// Subst replaces terms (by identity) in t.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[int]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t.id] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Implies(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "+":
		return Add(as[0], as[1])
	case "-":
		return Sub(as[0], as[1])
	case "*":
		return Mul(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "acc":
		for _, d := range dtypes {
			if d.name == t.args[0].sort {
				for i, f := range d.fields {
					if f == t.name {
						return Acc(d, i, as[0])
					}
				}
			}
		}
	case "forall", "exists":
		var pats [][]*Term
		k := 1
		for _, p := range t.pats {
			pats = append(pats, as[k:k+len(p)])
			k += len(p)
		}
		return Quant(t.op, t.vars, as[0], pats)
	}
	return mkT(t.op, t.name, t.sort, as)
}

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func sym(n string) string { return "|" + n + "|" }

func printTerm(t *Term, names map[int]string) string {
	if names != nil {
		if n, ok := names[t.id]; ok {
			return n
		}
	}
	return printRaw(t, names)
}

func printRaw(t *Term, names map[int]string) string {
	switch t.op {
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")"
		}
		return t.name
	case "true", "false":
		return t.op
	case "const", "var":
		return sym(t.name)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			fmt.Fprintf(&b, "(%s %s)", sym(v.name), sortStr(v.sort))
		}
		b.WriteString(") ")
		body := printTerm(t.args[0], names)
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(printTerm(x, names))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	op := t.op
	switch t.op {
	case "app", "ctor", "acc":
		op = sym(t.name)
	case "constarr":
		op = "(as const " + sortStr(t.sort) + ")"
	}
	if len(t.args) == 0 {
		return op
	}
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(printTerm(a, names))
	}
	b.WriteString(")")
	return b.String()
}

func sortStr(s string) string {
	if strings.HasPrefix(s, "(Array ") {
		k, v := arraySorts(s)
		return "(Array " + sortStr(k) + " " + sortStr(v) + ")"
	}
	switch s {
	case "Int", "Bool":
		return s
	}
	return sym(s)
}
