package main

// Contract files: lexer, parser.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type tok struct {
	k    string // id, int, str, op, eof, ghost
	s    string
	line int
	bol  bool
	file string
}

type Expr struct {
	op   string
	s    string
	args []*Expr
	typ  types.Type
	vars []Param
	trig [][]*Expr
	line int
	file string
}

type Param struct {
	name string
	typ  types.Type
}

type Clause struct {
	Kind  string
	Tags  []string
	Name  string
	E     *Expr
	Line  int
	Group string // proved from the ungrouped invariants and those of this group
}

type ModItem struct {
	All  bool
	E    *Expr
	T    types.Type
	Set  string
	When *Expr
}

type Template struct {
	Params  []Param
	E       *Expr
	Line    int
	UsesVis bool
	Only    []string
	Group   string
	Over    types.Type // only for ranges over a map of this type
	Plain bool
}

type SetClause struct {
	Tags []string
	L, R *Expr
	When *Expr
}

type FuncSpec struct {
	Name      string
	Key       string
	Kind      string // func, iface, extern, impl
	Params    []string
	Results   []string
	Requires  []Clause
	Assumes   []Clause
	Ensures   []Clause
	Asserts   []Clause
	Modifies  []ModItem
	Sets      []SetClause
	Panics    []Clause    // hold when the function panics
	PSets     []SetClause // ghost assignments when the function panics
	LoopInv   []Template
	MayPanic  bool
	Pure      bool
	Inline    bool
	Quiet     bool
	NoFrame   bool
	Trusted   bool
	InlineAll map[string]bool
	File      string
	Line      int
	Tags      map[string]bool
	ImplOf    *FuncSpec
	ImplKey   string
	Bound     int // > 0: loops unrolled up to Bound iterations (bounded check)
	BoundWhy  string
	Rlimit    int
	Split     bool
}

type Define struct {
	params []string
	e      *Expr
}
type GhostDecl struct {
	loose      string
	name       string
	field      bool
	typ        types.Type
	arrK, arrV types.Type
}

type specParser struct {
	w    *World
	toks []tok
	p    int
	file string
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	bol := true
	i := 0
	emit := func(k, s string) {
		out = append(out, tok{k, s, line, bol, file})
		bol = false
	}
	isId := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			bol = true
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			emit("str", strings.ReplaceAll(src[i+1:j], `\"`, `"`))
			i = j + 1
		case c == '#' || c == '$' || c == '@':
			j := i + 1
			for j < len(src) && isId(src[j]) {
				j++
			}
			emit("id", src[i:j])
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			emit("int", src[i:j])
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			emit("id", src[i:j])
			i = j
		default:
			done := false
			for _, op := range []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":=", "->"} {
				if strings.HasPrefix(src[i:], op) {
					emit("op", op)
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				emit("op", string(c))
				i++
			}
		}
	}
	line++
	bol = true
	emit("eof", "")
	return out
}

func (p *specParser) peek() tok { return p.toks[p.p] }
func (p *specParser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *specParser) fail(f string, a ...interface{}) {
	t := p.peek()
	panic(fmt.Errorf("%s:%d: %s (at %q)", p.file, t.line, fmt.Sprintf(f, a...), t.s))
}
func (p *specParser) is(s string) bool {
	return p.peek().s == s && p.peek().k != "str" && p.peek().k != "eof"
}
func (p *specParser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *specParser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected")
	}
	return t.s
}

var clauseKW = map[string]bool{"panics": true, "psets": true, "requires": true, "assumes": true, "ensures": true, "modifies": true, "may_panic": true, "pure": true,
	"inline": true, "noframe": true, "quiet": true, "trusted": true, "loopinv": true, "sets": true, "inline_calls": true, "bounded": true, "rlimit": true, "tags": true, "split": true}

func (p *specParser) file_() {
	for p.peek().k != "eof" {
		kw := p.ident()
		switch kw {
		case "import":
			a := p.ident()
			s := p.next().s
			p.w.aliases[a] = s
		case "closed":
			t := p.typ()
			p.expect("=")
			n := tname(t)
			for {
				closedWorld[n] = append(closedWorld[n], p.typ())
				if !p.accept(",") {
					break
				}
			}
		case "ghost":
			g := &GhostDecl{}
			if p.accept("loose") { // any call may change it, under the check of one property
				g.loose = p.ident()
			}
			if p.accept("field") {
				g.field = true
			}
			g.name = p.ident()
			if p.is("[") && p.toks[p.p+1].s != "]" {
				p.next()
				g.arrK = p.typ()
				p.expect("]")
				g.arrV = p.typ()
			} else {
				g.typ = p.typ()
			}
			p.w.ghosts[g.name] = g
			s := ""
			if g.arrK != nil {
				s = ArrSort(sortOf(g.arrK), sortOf(g.arrV))
			} else {
				s = sortOf(g.typ)
			}
			if g.field {
				hkey("GF$"+g.name, ArrSort("Int", s))
			} else {
				hkey("GG$"+g.name, s)
			}
		case "ufun":
			n := p.ident()
			p.expect("(")
			var ps []types.Type
			for !p.is(")") {
				ps = append(ps, p.typ())
				p.accept(",")
			}
			p.expect(")")
			p.w.ufuns[n] = ufun{ps, p.typ()}
		case "axiom":
			e := p.expr(0)
			p.w.axioms = append(p.w.axioms, e)
		case "define":
			n := p.ident()
			d := &Define{}
			p.expect("(")
			for !p.is(")") {
				d.params = append(d.params, p.ident())
				p.accept(",")
			}
			p.expect(")")
			p.expect("=")
			d.e = p.expr(0)
			p.w.defines[n] = d
		case "modset":
			n := p.ident()
			p.expect("=")
			p.w.modsets[n] = p.modItems()
		case "func", "iface", "extern":
			p.funcSpec(kw)
		case "impl":
			k := p.fnName()
			p.expect("of")
			ik := p.fnName()
			fs := &FuncSpec{Kind: "impl", Key: k, Name: k, ImplKey: ik, File: filepath.Base(p.file), Line: p.peek().line, InlineAll: map[string]bool{}, Tags: map[string]bool{}}
			if p.is("{") {
				p.clauses(fs)
			}
			p.w.impls = append(p.w.impls, fs)
		default:
			p.p--
			p.fail("unexpected %q", kw)
		}
	}
}

// fnName parses  pkg.Fn  |  (*pkg.T).M  |  (pkg.T).M  and optional $n suffixes.
func (p *specParser) fnName() string {
	exp := func(a string) string {
		if s, ok := p.w.aliases[a]; ok {
			return s
		}
		return a
	}
	var r string
	if p.accept("(") {
		star := ""
		if p.accept("*") {
			star = "*"
		}
		a := p.ident()
		if p.accept(".") {
			a = exp(a) + "." + p.ident()
		}
		p.expect(")")
		p.expect(".")
		r = "(" + star + a + ")." + p.ident()
	} else {
		a := p.ident()
		p.expect(".")
		r = exp(a) + "." + p.ident()
	}
	for strings.HasPrefix(p.peek().s, "$") {
		r += p.next().s
	}
	return r
}

func (p *specParser) funcSpec(kind string) {
	fs := &FuncSpec{Kind: kind, File: filepath.Base(p.file), Line: p.peek().line, InlineAll: map[string]bool{}, Tags: map[string]bool{}}
	fs.Key = p.fnName()
	fs.Name = fs.Key
	p.expect("(")
	for !p.is(")") {
		fs.Params = append(fs.Params, p.ident())
		p.accept(",")
	}
	p.expect(")")
	if p.accept("->") {
		p.expect("(")
		for !p.is(")") {
			fs.Results = append(fs.Results, p.ident())
			p.accept(",")
		}
		p.expect(")")
	}
	p.clauses(fs)
	m := p.w.specs
	if kind == "iface" {
		m = p.w.ispecs
	}
	if _, dup := m[fs.Key]; dup {
		p.fail("duplicate contract for %s", fs.Key)
	}
	m[fs.Key] = fs
}

func (p *specParser) tags() []string {
	var ts []string
	if p.accept("[") {
		for !p.is("]") {
			ts = append(ts, p.ident())
			p.accept(",")
		}
		p.expect("]")
	}
	return ts
}

func (p *specParser) clauses(fs *FuncSpec) {
	p.expect("{")
	for !p.accept("}") {
		line := p.peek().line
		kw := p.ident()
		switch kw {
		case "requires", "assumes", "ensures", "panics":
			c := Clause{Kind: kw, Line: line}
			c.Tags = p.tags()
			if p.peek().k == "str" {
				c.Name = p.next().s
			}
			if p.accept("group") {
				c.Group = p.ident()
			}
			c.E = p.expr(0)
			if c.Name == "" {
				c.Name = fmt.Sprintf("%s#%d", kw, len(fs.Requires)+len(fs.Ensures)+len(fs.Assumes)+1)
			}
			for _, t := range c.Tags {
				fs.Tags[t] = true
			}
			switch kw {
			case "requires":
				fs.Requires = append(fs.Requires, c)
			case "assumes":
				fs.Assumes = append(fs.Assumes, c)
			case "panics":
				fs.Panics = append(fs.Panics, c)
				fs.MayPanic = true
			default:
				fs.Ensures = append(fs.Ensures, c)
			}
		case "modifies":
			fs.Modifies = append(fs.Modifies, p.modItems()...)
		case "sets", "psets":
			var sc SetClause
			sc.Tags = p.tags()
			sc.L = p.expr(20)
			p.expect(":=")
			sc.R = p.expr(0)
			if p.accept("when") {
				sc.When = p.expr(0)
			}
			if kw == "psets" {
				fs.PSets = append(fs.PSets, sc)
			} else {
				fs.Sets = append(fs.Sets, sc)
			}
		case "loopinv":
			t := Template{Line: line}
			if p.accept("group") {
				t.Group = p.ident()
			}
			if p.accept("<") {
				for !p.accept(">") {
					n := p.ident()
					only := ""
					if p.accept("phi") { // only variables of loops
						only = "phi"
					} else if p.accept("new") { // only objects made by the function
						only = "new"
					}
					t.Params = append(t.Params, Param{n, p.typ()})
					t.Only = append(t.Only, only)
					p.accept(",")
				}
			}
			if p.accept("over") {
				if p.accept("plain") { // any loop that is no range over a map
					t.Plain = true
				} else {
					t.Over = p.typ()
				}
			}
			a := p.p
			t.E = p.expr(0)
			for _, tk := range p.toks[a:p.p] {
				if tk.s == "$vis" {
					t.UsesVis = true
				}
			}
			fs.LoopInv = append(fs.LoopInv, t)
		case "may_panic":
			fs.MayPanic = true
		case "pure":
			fs.Pure = true
		case "inline":
			fs.Inline = true
		case "quiet": // changes no loose ghost state
			fs.Quiet = true
		case "noframe":
			fs.NoFrame = true
		case "trusted":
			fs.Trusted = true
		case "split":
			fs.Split = true
		case "inline_calls":
			for {
				fs.InlineAll[p.fnName()] = true
				if !p.accept(",") {
					break
				}
			}
		case "bounded":
			n := p.next()
			fmt.Sscan(n.s, &fs.Bound)
			if p.peek().k == "str" {
				fs.BoundWhy = p.next().s
			}
		case "rlimit":
			n := p.next()
			fmt.Sscan(n.s, &fs.Rlimit)
		case "tags":
			for _, t := range p.tags() {
				fs.Tags[t] = true
			}
		default:
			p.p--
			p.fail("unknown clause %q", kw)
		}
	}
}

func (p *specParser) modItems() []ModItem {
	var out []ModItem
	for {
		if p.is("@") || strings.HasPrefix(p.peek().s, "@") {
			out = append(out, ModItem{Set: strings.TrimPrefix(p.next().s, "@")})
		} else if p.is("nothing") {
			p.next()
		} else if p.accept("all") {
			if strings.HasPrefix(p.peek().s, "#") {
				out = append(out, ModItem{All: true, E: &Expr{op: "id", s: p.next().s}})
			} else if p.is("[") || p.is("map") || p.is("*") {
				out = append(out, ModItem{All: true, T: p.typ()})
			} else {
				// pkg.Type.field | pkg.var
				a := p.ident()
				p.expect(".")
				b := p.ident()
				if p.accept(".") {
					t := p.w.namedType(a, b)
					if t == nil {
						p.fail("unknown type %s.%s", a, b)
					}
					f := p.next().s
					out = append(out, ModItem{All: true, T: t, E: &Expr{op: "field", s: f}})
				} else {
					out = append(out, ModItem{All: true, E: &Expr{op: "global", s: a + "." + b}})
				}
			}
		} else {
			out = append(out, ModItem{E: p.expr(20)})
		}
		if !p.accept(",") {
			break
		}
	}
	return out
}

// ---- types

func (p *specParser) typ() types.Type {
	switch {
	case p.accept("*"):
		return types.NewPointer(p.typ())
	case p.accept("["):
		p.expect("]")
		return types.NewSlice(p.typ())
	case p.is("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return types.NewMap(k, p.typ())
	}
	n := p.ident()
	switch n {
	case "int":
		return types.Typ[types.Int]
	case "bool":
		return types.Typ[types.Bool]
	case "string":
		return types.Typ[types.String]
	case "any":
		return types.NewInterfaceType(nil, nil)
	case "error":
		return types.Universe.Lookup("error").Type()
	case "int64":
		return types.Typ[types.Int64]
	case "float64":
		return types.Typ[types.Float64]
	case "byte":
		return types.Typ[types.Byte]
	case "func_":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	if !p.accept(".") {
		p.fail("unknown type %s", n)
	}
	m := p.ident()
	t := p.w.namedType(n, m)
	if t == nil {
		p.fail("unknown type %s.%s", n, m)
	}
	return t
}

// ---- expressions (Pratt)

var binPrec = map[string]int{"<==>": 2, "==>": 3, "||": 4, "&&": 5, "==": 7, "!=": 7, "<": 7, "<=": 7, ">": 7, ">=": 7, "in": 7, "+": 9, "-": 9, "*": 10}

func (p *specParser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k == "str" || t.k == "eof" || t.k == "int" {
			return l
		}
		if t.bol && (clauseKW[t.s] || topKW[t.s]) {
			return l
		}
		if t.s == "as" || t.s == "is" {
			if 12 < min {
				return l
			}
			p.next()
			l = &Expr{op: t.s, args: []*Expr{l}, typ: p.typ(), line: t.line, file: p.file}
			continue
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min || pr == min && min != 0 && t.s != "==>" {
			return l
		}
		p.next()
		np := pr
		if t.s == "==>" {
			np = pr - 1 // right associative
		}
		r := p.expr(np)
		if np != pr {
			// allow chains a ==> b ==> c
		}
		l = &Expr{op: t.s, args: []*Expr{l, r}, line: t.line, file: p.file}
	}
}

var topKW = map[string]bool{"func": true, "iface": true, "extern": true, "impl": true, "define": true, "ghost": true, "closed": true, "ufun": true, "modset": true, "axiom": true, "import": true}

func (p *specParser) unary() *Expr {
	t := p.peek()
	switch {
	case p.accept("!"):
		return &Expr{op: "!", args: []*Expr{p.unary()}, line: t.line, file: p.file}
	case p.accept("-"):
		return &Expr{op: "neg", args: []*Expr{p.unary()}, line: t.line, file: p.file}
	case t.k == "id" && (t.s == "forall" || t.s == "exists"):
		p.next()
		e := &Expr{op: t.s, line: t.line, file: p.file}
		for {
			n := p.ident()
			e.vars = append(e.vars, Param{n, p.typ()})
			if !p.accept(",") {
				break
			}
		}
		for p.accept("{") {
			var tr []*Expr
			for !p.accept("}") {
				tr = append(tr, p.expr(0))
				p.accept(",")
			}
			e.trig = append(e.trig, tr)
		}
		p.expect("::")
		e.args = []*Expr{p.expr(0)}
		return e
	case t.k == "id" && t.s == "if":
		p.next()
		c := p.expr(0)
		p.expect("then")
		a := p.expr(0)
		p.expect("else")
		b := p.expr(0)
		return &Expr{op: "ite", args: []*Expr{c, a, b}, line: t.line, file: p.file}
	case t.k == "id" && t.s == "let":
		p.next()
		n := p.ident()
		p.expect(":=")
		a := p.expr(0)
		p.expect("::")
		b := p.expr(0)
		return &Expr{op: "let", s: n, args: []*Expr{a, b}, line: t.line, file: p.file}
	}
	return p.postfix(p.primary())
}

func (p *specParser) primary() *Expr {
	t := p.next()
	e := &Expr{line: t.line, file: p.file}
	switch t.k {
	case "int":
		e.op, e.s = "int", t.s
		return e
	case "str":
		e.op, e.s = "str", t.s
		return e
	case "id":
		e.op, e.s = "id", t.s
		return e
	}
	if t.s == "(" {
		r := p.expr(0)
		p.expect(")")
		return r
	}
	p.p--
	p.fail("expression expected")
	return nil
}

func (p *specParser) postfix(e *Expr) *Expr {
	for {
		t := p.peek()
		switch {
		case t.s == "." && t.k == "op":
			p.next()
			e = &Expr{op: "sel", s: p.ident(), args: []*Expr{e}, line: t.line, file: p.file}
		case t.s == "[" && t.k == "op" && !t.bol:
			p.next()
			if p.accept("*") {
				p.expect("]")
				e = &Expr{op: "elems", args: []*Expr{e}, line: t.line, file: p.file}
				continue
			}
			i := p.expr(0)
			p.expect("]")
			e = &Expr{op: "idx", args: []*Expr{e, i}, line: t.line, file: p.file}
		case t.s == "(" && t.k == "op" && !t.bol:
			p.next()
			c := &Expr{op: "call", args: []*Expr{e}, line: t.line, file: p.file}
			for !p.accept(")") {
				c.args = append(c.args, p.expr(0))
				p.accept(",")
			}
			e = c
		default:
			return e
		}
	}
}

func (w *World) loadSpecs(dir string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return e
		}
		p := &specParser{w: w, file: f, toks: lexSpec(f, string(b))}
		p.file_()
		w.specFiles = append(w.specFiles, f)
	}
	for _, im := range w.impls {
		is := w.ispecs[im.ImplKey]
		if is == nil {
			return fmt.Errorf("impl of unknown interface contract %s", im.ImplKey)
		}
		im.ImplOf = is
		im.Params, im.Results = is.Params, is.Results
		im.Requires = append(append([]Clause{}, is.Requires...), im.Requires...)
		im.Assumes = append(append([]Clause{}, is.Assumes...), im.Assumes...)
		im.Ensures = append(append([]Clause{}, is.Ensures...), im.Ensures...)
		im.Modifies = append(append([]ModItem{}, is.Modifies...), im.Modifies...)
		im.LoopInv = append(append([]Template{}, is.LoopInv...), im.LoopInv...)
		im.Sets = is.Sets
		im.PSets = is.PSets
		im.Panics = append(append([]Clause{}, is.Panics...), im.Panics...)
		im.MayPanic = im.MayPanic || is.MayPanic
		for t := range is.Tags {
			im.Tags[t] = true
		}
		if im.Bound == 0 {
			im.Bound = is.Bound
		}
	}
	return nil
}
