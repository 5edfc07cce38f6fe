package main

// SMT emission and solver driver.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

var solverZ3 = "z3-new"

type emitter struct {
	b        strings.Builder
	decls    map[string]bool
	names    map[int]string
	seen     map[int]bool
	count    map[int]int
	dtNeed   map[string]bool
	sortNeed map[string]bool
	lits     map[string]bool
	prefixes map[string]bool
	symPrefix bool // concatenation with a prefix that is not a literal occurs
	boxes    map[string]bool
	consts   []string
	order    []*Term
}

func newEmitter() *emitter {
	return &emitter{decls: map[string]bool{}, names: map[int]string{}, seen: map[int]bool{}, count: map[int]int{}, dtNeed: map[string]bool{}, sortNeed: map[string]bool{}, lits: map[string]bool{}, prefixes: map[string]bool{}, boxes: map[string]bool{}}
}

var litName = map[string]string{} // const name -> literal

func (e *emitter) needSort(s string) {
	if e.sortNeed[s] {
		return
	}
	e.sortNeed[s] = true
	if strings.HasPrefix(s, "(Array ") {
		k, v := arraySorts(s)
		e.needSort(k)
		e.needSort(v)
		return
	}
	if d, ok := dtypes[s]; ok {
		for _, f := range d.sorts {
			e.needSort(f)
		}
		e.dtNeed[s] = true
	}
}

func (e *emitter) collect(t *Term) {
	e.count[t.id]++
	if e.seen[t.id] {
		return
	}
	e.seen[t.id] = true
	e.needSort(t.sort)
	switch t.op {
	case "const", "app":
		if !e.decls[t.name] {
			e.decls[t.name] = true
			e.consts = append(e.consts, t.name)
			d := declFuns[t.name]
			for _, a := range d.args {
				e.needSort(a)
			}
			e.needSort(d.ret)
		}
		if t.op == "const" && t.sort == "Str" {
			if l, ok := litOf(t); ok {
				e.lits[l] = true
			}
		}
		if t.op == "app" && t.name == "str.cat" {
			if l, ok := litOf(t.args[0]); ok {
				e.prefixes[l] = true
			} else {
				e.symPrefix = true
			}
		}
		if strings.HasPrefix(t.name, "box.") {
			e.boxes[declFuns[t.name].args[0]] = true
		}
		if strings.HasPrefix(t.name, "unbox.") {
			e.boxes[t.sort] = true
		}
	case "ctor", "acc", "constarr":
	case "forall", "exists":
		for _, v := range t.vars {
			e.needSort(v.sort)
		}
	}
	for _, a := range t.args {
		e.collect(a)
	}
	e.order = append(e.order, t)
}

// markOpaque marks the largest ground subterms of a trigger that contain a conditional.
func markOpaque(t *Term, out map[int]bool) {
	if !t.bound {
		if hasConditional(t) {
			out[t.id] = true
		}
		return
	}
	for _, a := range t.args {
		markOpaque(a, out)
	}
}

var condMemo = map[int]bool{}
var condMu sync.Mutex

func hasConditional(t *Term) bool {
	condMu.Lock()
	defer condMu.Unlock()
	return hasCond(t)
}

var quantMemo = map[int]bool{}
var quantMu sync.Mutex

func hasQuantifier(t *Term) bool {
	quantMu.Lock()
	defer quantMu.Unlock()
	return hasQ(t)
}

func hasQ(t *Term) bool {
	if v, ok := quantMemo[t.id]; ok {
		return v
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		r = r || hasQ(a)
	}
	quantMemo[t.id] = r
	return r
}

// ground returns the assumptions without quantifiers.
func groundOnly(pre []*Term) []*Term {
	var out []*Term
	for _, t := range pre {
		if !hasQuantifier(t) {
			out = append(out, t)
		}
	}
	return out
}

func hasCond(t *Term) bool {
	if v, ok := condMemo[t.id]; ok {
		return v
	}
	r := t.op == "ite" || t.op == "and" || t.op == "or" || t.op == "not"
	for _, a := range t.args {
		r = r || hasCond(a)
	}
	condMemo[t.id] = r
	return r
}

type query struct {
	pre   []*Term // shared assumptions
	goals []*Term // each is checked: pre |= goal
}

// script builds an SMT-LIB script; each goal is checked in its own scope (or just one).
func script(pre []*Term, goals []*Term, opts string, incremental bool) string {
	return scriptG(pre, goals, opts, incremental, false)
}

func scriptG(pre []*Term, goals []*Term, opts string, incremental, groundScript bool) string {
	e := newEmitter()
	dup := map[int]bool{}
	var uniq []*Term
	for _, t := range pre {
		if !dup[t.id] {
			dup[t.id] = true
			uniq = append(uniq, t)
		}
	}
	pre = uniq
	e.collect(StrLit(""))
	for _, t := range pre {
		e.collect(t)
	}
	for _, g := range goals {
		e.collect(g)
	}
	var extra []*Term
	var pf, ls []string
	for p := range e.prefixes {
		pf = append(pf, p)
	}
	for l := range e.lits {
		ls = append(ls, l)
	}
	sort.Strings(pf)
	sort.Strings(ls)
	extra = append(extra, strAxioms(pf, ls)...)
	if e.symPrefix {
		x, y := BoundVar("sx", "Str"), BoundVar("sy", "Str")
		c := App("str.cat", "Str", x, y)
		extra = append(extra, Forall([]*Term{x, y}, Eq(App("str.uncat", "Str", x, c), y), []*Term{c}))
	}
	var bs []string
	for s := range e.boxes {
		bs = append(bs, s)
	}
	sort.Strings(bs)
	for _, s := range bs {
		extra = append(extra, boxAxioms(s)...)
	}
	for _, t := range extra {
		e.collect(t)
	}
	var b strings.Builder
	b.WriteString(opts)
	for _, s := range sortSeq {
		if e.sortNeed[s] {
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", sym(s))
		}
	}
	// datatypes in dependency order
	done := map[string]bool{}
	var emitDT func(n string)
	emitDT = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		d := dtypes[n]
		var deps func(s string)
		deps = func(s string) {
			if strings.HasPrefix(s, "(Array ") {
				k, v := arraySorts(s)
				deps(k)
				deps(v)
				return
			}
			if _, ok := dtypes[s]; ok {
				emitDT(s)
			}
		}
		for _, s := range d.sorts {
			deps(s)
		}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", sym(n), sym(d.ctor))
		for i, f := range d.fields {
			fmt.Fprintf(&b, " (%s %s)", sym(f), sortStr(d.sorts[i]))
		}
		b.WriteString("))))\n")
	}
	for _, n := range dtSeq {
		if e.dtNeed[n] {
			emitDT(n)
		}
	}
	sort.Strings(e.consts)
	for _, c := range e.consts {
		d := declFuns[c]
		b.WriteString("(declare-fun " + sym(c) + " (")
		for i, a := range d.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(sortStr(a))
		}
		b.WriteString(") " + sortStr(d.ret) + ")\n")
	}
	if len(ls) > 1 {
		b.WriteString("(assert (distinct")
		for _, l := range ls {
			b.WriteString(" " + sym(StrLit(l).name))
		}
		b.WriteString("))\n")
	}
	// shared subterms; ground parts of triggers that the solver could not match on (conditionals) become constants
	opaque := map[int]bool{}
	for _, t := range e.order {
		for _, p := range t.pats {
			for _, x := range p {
				markOpaque(x, opaque)
			}
		}
	}
	for _, t := range e.order {
		if groundScript && (t.op == "forall" || t.op == "exists") && !t.bound {
			// a closed quantified formula becomes an unknown truth value
			n := fmt.Sprintf("q!%d", t.id)
			fmt.Fprintf(&b, "(declare-fun %s () Bool)\n", n)
			e.names[t.id] = n
			continue
		}
		if opaque[t.id] && !groundScript {
			n := fmt.Sprintf("p!%d", t.id)
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, sortStr(t.sort), n, printRaw(t, e.names))
			e.names[t.id] = n
			continue
		}
		if len(t.args) == 0 || t.bound || t.op == "forall" || t.op == "exists" {
			continue
		}
		if e.count[t.id] > 1 && t.size > 3 {
			n := fmt.Sprintf("n!%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, sortStr(t.sort), printRaw(t, e.names))
			e.names[t.id] = n
		}
	}
	for _, t := range extra {
		if groundScript && hasQuantifier(t) {
			continue
		}
		fmt.Fprintf(&b, "(assert %s)\n", printTerm(t, e.names))
	}
	for _, t := range pre {
		fmt.Fprintf(&b, "(assert %s)\n", printTerm(t, e.names))
	}
	for _, g := range goals {
		if incremental {
			b.WriteString("(push 1)\n")
		}
		fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", printTerm(g, e.names))
		if incremental {
			b.WriteString("(pop 1)\n")
		}
	}
	return b.String()
}

const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 1)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 50)\n"

func runSolver(name string, args []string, text string, timeout time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	f, err := os.CreateTemp(scratch, "q*.smt2")
	if err != nil {
		return "", err.Error()
	}
	f.WriteString(text)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.CommandContext(ctx, name, append(args, f.Name())...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	var keep []string
	for _, l := range strings.Split(out.String(), "\n") {
		if !strings.HasPrefix(l, "WARNING:") {
			keep = append(keep, l)
		}
	}
	return strings.Join(keep, "\n"), f.Name()
}

var scratch = "/tmp"

type sem chan struct{}

var workers = make(sem, 8)

func answers(out string) []string {
	var r []string
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown", "timeout":
			r = append(r, l)
		default:
			if strings.HasPrefix(l, "(error") {
				r = append(r, l)
			}
		}
	}
	return r
}

var dumpDir = os.Getenv("VC_DUMP")

var noFallback = false

// solvers run at a time
var solvers = 8

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < solvers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
