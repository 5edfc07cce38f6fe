package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	Name        string
	Loc         string
	Status      string // proved, failed, bounded
	Obls        []*Obl
	Total       int
	Proved      int
	Failed      []*Obl
	Secs        float64
	Invariants  []string
	Assumptions []string
	Uses        []string
	Inlined     []string
	Err         string
	Bound       int
	BoundWhy    string
	Cover       string
	Clauses     []string
	HasLoop     bool
	Missing     bool
}

func (x *Exec) setup(fn *ssa.Function, sp *FuncSpec) (*State, []Val) {
	st := &State{pc: True, h: map[string]*Term{}}
	x.entry = st
	x.get(st, allocKey)
	st.h[panicKey] = nilIf
	var vs []Val
	x.entryEnv = map[string]SVal{}
	sig := fn.Signature
	for i, p := range fn.Params {
		v := Const("p$"+mangle(p.Name())+fmt.Sprint(i), sortOf(p.Type()))
		oldTerm[v.id] = true
		x.base = append(x.base, typedFact(p.Type(), v, x.get(st, allocKey)))
		if i == 0 && sig.Recv() != nil {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				x.base = append(x.base, Gt(v, Int(0)))
			}
		}
		vs = append(vs, Val{t: v})
		if i < len(sp.Params) {
			sv := SVal{t: v, ty: p.Type()}
			if i == 0 && sp.ImplOf != nil {
				// the contract speaks about the interface value
				sv = SVal{t: mkIface(p.Type(), v), ty: x.w.ifaceOfKey(sp.ImplKey)}
			}
			x.entryEnv[sp.Params[i]] = sv
		}
	}
	if len(sp.Params) != len(fn.Params) {
		panic(fmt.Errorf("contract of %s names %d parameters, the function has %d", sp.Name, len(sp.Params), len(fn.Params)))
	}
	return st, vs
}

func (w *World) ifaceOfKey(k string) types.Type {
	// "(pkg.T).M"
	k = strings.TrimPrefix(k, "(")
	i := strings.LastIndex(k, ").")
	k = k[:i]
	j := strings.LastIndex(k, ".")
	return w.namedType(k[:j], k[j+1:])
}

func (w *World) verify(sp *FuncSpec, prop string, unroll int) (rep *FnReport) {
	rep = &FnReport{Name: sp.Name, Bound: unroll}
	start := time.Now()
	defer func() { rep.Secs = time.Since(start).Seconds() }()
	x := &Exec{w: w, spec: sp, prop: prop, inited: map[string]bool{}, notes: map[string]bool{}, usedSpec: map[string]bool{}, inlined: map[string]bool{}, unroll: unroll}
	fail := func(msg string) {
		rep.Err = msg
		rep.Status = "failed"
		o := &Obl{name: sp.Name + ": verification conditions can be generated", kind: "translation", fn: sp.Name, status: "error", output: msg}
		rep.Obls = []*Obl{o}
		rep.Failed = []*Obl{o}
		rep.Total = 1
	}
	fn := w.fnByKey[sp.Key]
	if fn == nil {
		rep.Missing = true
		fail("the function under contract does not exist in the working tree: " + sp.Key)
		return
	}
	rep.Loc = x.pos(fn.Pos())
	x.top = fn
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VC_TRACE") != "" {
					panic(r)
				}
				switch e := r.(type) {
				case unsup:
					err = e
				case error:
					err = e
				default:
					err = fmt.Errorf("%v", r)
				}
			}
		}()
		x.generate(fn, sp)
		return nil
	}()
	rep.HasLoop = x.sawLoop
	if err != nil {
		fail(err.Error())
		return
	}
	x.discharge(rep, sp)
	rep.HasLoop = rep.HasLoop || x.sawLoop
	for n := range x.notes {
		rep.Assumptions = append(rep.Assumptions, n)
	}
	for n := range x.usedSpec {
		rep.Uses = append(rep.Uses, n)
	}
	for n := range x.inlined {
		rep.Inlined = append(rep.Inlined, n)
	}
	sort.Strings(rep.Assumptions)
	sort.Strings(rep.Uses)
	sort.Strings(rep.Inlined)
	return
}

func (x *Exec) generate(fn *ssa.Function, sp *FuncSpec) {
	st, vs := x.setup(fn, sp)
	for _, a := range x.w.axioms {
		e := &Env{x: x, st: st, old: st, vars: map[string]SVal{}}
		x.base = append(x.base, e.boolExpr(a))
	}
	// the entry state must be a snapshot: later lazily created keys are shared through get()
	env := x.newEnv(st)
	for _, c := range append(append([]Clause{}, sp.Requires...), sp.Assumes...) {
		if c.Kind == "requires" && len(c.Tags) > 0 && x.prop != "" && !hasTag(c.Tags, x.prop) {
			continue
		}
		x.assumes = append(x.assumes, Assume{t: env.boolExpr(c.E)})
		if c.Kind == "assumes" {
			x.notes["data invariant assumed on entry of "+sp.Name+": "+c.Name] = true
		}
	}
	x.mods = x.resolveMods(sp.Modifies, env)
	if len(sp.Modifies) > 0 && !sp.Quiet {
		x.addLoose(x.mods, sp)
	}
	nEntry := len(x.assumes)
	run := st.clone()
	x.stack = []*ssa.Function{fn}
	_, rets, esc := x.body(nil, fn, nil, vs, run)
	if esc != nil && !sp.MayPanic {
		x.oblige(esc, "no panic escapes", "panic", False, x.pos(fn.Pos()))
	}
	if esc != nil && sp.MayPanic {
		ppenv := x.newEnv(esc)
		for _, s := range sp.PSets {
			x.applySet(ppenv, s, x.mods)
		}
		for _, c := range sp.Panics {
			if len(c.Tags) > 0 && x.prop != "" && !hasTag(c.Tags, x.prop) {
				continue
			}
			for i, part := range splitGoal(ppenv.boolExpr(c.E)) {
				nm := c.Name + " (panic)"
				if i > 0 {
					nm = fmt.Sprintf("%s /%d", nm, i+1)
				}
				x.oblige(esc, nm, "postcondition", part, fmt.Sprintf("%s:%d", sp.File, c.Line))
			}
		}
	}
	x.oblige(&State{pc: True, h: st.h}, "cover: precondition satisfiable", "cover", False, "").nAssume = nEntry
	if len(rets) == 0 {
		x.oblige(&State{pc: True, h: st.h}, "function can return", "cover", False, "")
		return
	}
	exit, rs := x.mergeRets(fn, rets)
	rn := x.resNames(sp, fn.Signature)
	penv := x.newEnv(exit)
	for i, n := range rn {
		t := fn.Signature.Results().At(i).Type()
		penv.vars[n] = SVal{t: x.term(rs[i], t), ty: t}
	}
	for _, s := range sp.Sets {
		x.applySet(penv, s, x.mods)
	}
	x.oblige(exit, "cover: a normal exit is reachable", "cover", False, "")
	if sp.Pure {
		// purity: nothing visible is written (frame below), result is a function of the arguments by construction
	}
	for _, c := range sp.Ensures {
		if len(c.Tags) > 0 && x.prop != "" && !hasTag(c.Tags, x.prop) {
			x.notes["clause proved by another check ("+strings.Join(c.Tags, ",")+"): "+sp.Name+": "+c.Name] = true
			continue
		}
		g := penv.boolExpr(c.E)
		for i, part := range splitGoal(g) {
			nm := c.Name
			if i > 0 {
				nm = fmt.Sprintf("%s /%d", c.Name, i+1)
			}
			x.oblige(exit, nm, "postcondition", part, fmt.Sprintf("%s:%d", sp.File, c.Line)).group = c.Group
		}
	}
	if sp.NoFrame {
		x.notes["no frame is proved for "+sp.Name+" (never used by a caller)"] = true
		return
	}
	var ks []string
	for k := range exit.h {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if k == allocKey || k == panicKey || strings.HasPrefix(k, "L$") || strings.HasPrefix(k, "VIS") || x.mods.whole[k] {
			continue
		}
		a, b := exit.h[k], x.get(st, k)
		if a == b {
			continue
		}
		if strings.HasPrefix(k, "G$") || strings.HasPrefix(k, "GG$") {
			x.oblige(exit, "frame: "+k+" unchanged", "frame", Eq(a, b), "")
			continue
		}
		r := Fresh("fr", "Int")
		pre := []*Term{inAlloc(r, x.get(st, allocKey))}
		if strings.HasPrefix(k, "MV$") { // a nil map has no values
			pre = append(pre, Ne(r, Int(0)))
		}
		for _, m := range x.mods.refs[k] {
			pre = append(pre, Ne(r, m.ref))
		}
		x.oblige(exit, "frame: "+k, "frame", Implies(And(pre...), Eq(Select(a, r), Select(b, r))), "")
	}
}

// splitGoal splits a conjunctive goal (also under implications and universal quantifiers).
func splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=":
		if g.args[0].sort == "Bool" && (hasQuant(g.args[0]) || hasQuant(g.args[1])) {
			return append(splitGoal(Implies(g.args[0], g.args[1])), splitGoal(Implies(g.args[1], g.args[0]))...)
		}
	case "=>":
		var out []*Term
		for _, a := range splitGoal(g.args[1]) {
			out = append(out, Implies(g.args[0], a))
		}
		return out
	case "forall":
		var out []*Term
		for _, a := range splitGoal(g.args[0]) {
			out = append(out, Forall(g.vars, a, g.pats...))
		}
		return out
	}
	return []*Term{g}
}

func hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	for _, a := range t.args {
		if a.sort == "Bool" && hasQuant(a) {
			return true
		}
	}
	return false
}

// skolem: strip outer universal quantifiers of a goal.
func skolem(g *Term) *Term {
	switch g.op {
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.vars {
			m[v] = Fresh("sk", v.sort)
		}
		r := skolem(Subst(g.args[0], m))
		// the trigger terms of the goal become ground terms the solver can instantiate with
		for _, ps := range g.pats {
			for _, p := range ps {
				t := Subst(p, m)
				r = Implies(App("hint."+t.sort, "Bool", t), r)
			}
		}
		return r
	case "=>":
		return Implies(g.args[0], skolem(g.args[1]))
	}
	return g
}

func (x *Exec) pre(o *Obl) []*Term {
	pre := append([]*Term{}, x.base...)
	for i := 0; i < o.nAssume; i++ {
		a := x.assumes[i]
		if a.cand != nil && !a.cand.alive {
			continue
		}
		if o.group != "" && a.cand != nil && a.cand.group != "" && a.cand.group != o.group {
			continue
		}
		pre = append(pre, a.t)
	}
	if o.pc != True {
		pre = append(pre, o.pc)
	}
	return pre
}

const houRlimit = 1500000
const oblRlimit = 30000000

func (x *Exec) houdini() int {
	rounds := 0
	type hob struct {
		o     *Obl
		goals []*Term
	}
	var obs []*hob
	for _, o := range x.obls {
		if o.cand != nil {
			h := &hob{o: o}
			for _, g := range splitGoal(o.goal) {
				if g = skolem(g); g != True {
					h.goals = append(h.goals, g)
				}
			}
			obs = append(obs, h)
		}
	}
	lim := houRlimit
	if x.spec.Rlimit > 0 {
		lim = x.spec.Rlimit * 100000
	}
	for {
		rounds++
		// group by program point
		groups := map[string][]*hob{}
		var order []string
		for _, h := range obs {
			if !h.o.cand.alive || len(h.goals) == 0 || h.o.pc == False {
				continue
			}
			k := fmt.Sprintf("%d/%d/%s", h.o.nAssume, h.o.pc.id, h.o.group)
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], h)
		}
		// split large groups for parallelism
		type job struct {
			hs   []*hob
			pre  []*Term
			text string
			own  []int
			n    int
			ok   []bool
		}
		var jobs []*job
		for _, k := range order {
			hs := groups[k]
			const chunk = 6
			for len(hs) > 0 {
				n := chunk
				if n > len(hs) {
					n = len(hs)
				}
				jobs = append(jobs, &job{hs: hs[:n]})
				hs = hs[n:]
			}
		}
		for _, j := range jobs {
			j.pre = x.pre(j.hs[0].o)
			var goals []*Term
			for i, h := range j.hs {
				for _, g := range h.goals {
					goals = append(goals, g)
					j.own = append(j.own, i)
				}
			}
			j.n = len(goals)
			j.ok = make([]bool, len(j.hs))
			j.text = script(j.pre, goals, z3opts+fmt.Sprintf("(set-option :rlimit %d)\n", lim), true)
		}
		parallel(len(jobs), func(i int) {
			j := jobs[i]
			res := runScript(j.text, j.n)
			for k := range j.ok {
				j.ok[k] = true
			}
			for k, r := range res {
				if !r {
					j.ok[j.own[k]] = false
				}
			}
		})
		// written invariants get a second, harder look before they are dropped
		type retry struct {
			h     *hob
			texts [][4]string
			ok    bool
		}
		var rs []*retry
		changed := false
		for _, j := range jobs {
			for k, h := range j.hs {
				if j.ok[k] || !h.o.cand.alive {
					continue
				}
				if !h.o.cand.user {
					h.o.cand.alive = false
					changed = true
					continue
				}
				r := &retry{h: h}
				for _, g := range h.goals {
					v := variants(j.pre, g, 20*lim)
					v[2] = ""
					r.texts = append(r.texts, v)
				}
				rs = append(rs, r)
			}
		}
		if changed {
			continue // first settle the automatic candidates
		}
		parallel(len(rs), func(i int) {
			r := rs[i]
			r.ok = true
			for k := range r.texts {
				o := &Obl{fn: r.h.o.fn, name: r.h.o.name, id: 1000*rounds + 10*i + k}
				t0 := time.Now()
				solveOne(o, r.texts[k])
				if verbose {
					fmt.Printf("  round %d: harder look %s /%d: %s %s %.1fs\n", rounds, o.name, k, o.status, o.backend, time.Since(t0).Seconds())
				}
				if o.status != "unsat" {
					r.ok = false
					break
				}
			}
		})
		for _, r := range rs {
			if !r.ok && r.h.o.cand.alive {
				r.h.o.cand.alive = false
				changed = true
				if verbose {
					fmt.Printf("  round %d: drop %s\n", rounds, r.h.o.name)
				}
			}
		}
		if !changed {
			return rounds
		}
	}
}

// variants of a query for the portfolio
func variants(pre []*Term, g *Term, lim int) [4]string {
	return [4]string{
		script(pre, []*Term{g}, z3opts+fmt.Sprintf("(set-option :rlimit %d)\n", lim), false),
		script(pre, []*Term{g}, fmt.Sprintf("(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :rlimit %d)\n", lim/3), false),
		script(pre, []*Term{g}, "(set-logic ALL)\n", false),
	}
}

func runScript(text string, n int) []bool {
	res := make([]bool, n)
	out, _ := runSolver(solverZ3, nil, text, 300*time.Second)
	a := answers(out)
	for i := 0; i < n && i < len(a); i++ {
		res[i] = a[i] == "unsat"
		if strings.HasPrefix(a[i], "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", a[i])
			if dumpDir != "" {
				os.WriteFile(dumpDir+"/err.smt2", []byte(text), 0644)
			}
			break
		}
	}
	return res
}

func (x *Exec) discharge(rep *FnReport, sp *FuncSpec) {
	if len(x.cands) > 0 {
		r := x.houdini()
		if verbose {
			fmt.Printf("  houdini: %d rounds\n", r)
		}
		for _, c := range x.cands {
			if c.alive {
				rep.Invariants = append(rep.Invariants, c.loop+": "+c.desc)
			} else if verbose && c.user {
				fmt.Printf("  dropped: %s: %s\n", c.loop, c.desc)
			}
		}
	}
	var todo []*Obl
	for _, o := range x.obls {
		if o.cand != nil {
			if o.cand.alive {
				o.status = "unsat"
				o.backend = "z3-5.3.2"
				if o.kind == "loopinv" && strings.Contains(o.name, "preserved") {
					rep.Obls = append(rep.Obls, o)
				}
			}
			continue
		}
		if o.kind != "cover" {
			o.goal = skolem(o.goal)
		}
		rep.Obls = append(rep.Obls, o)
		if o.goal == True || o.pc == False {
			if o.kind == "cover" {
				o.status = "unsat"
			} else {
				o.status = "unsat"
				o.backend = "simplifier"
			}
			continue
		}
		todo = append(todo, o)
	}
	pres := make([][]*Term, len(todo))
	texts := make([][4]string, len(todo))
	lim := oblRlimit
	if sp.Rlimit > 0 {
		lim = sp.Rlimit * 1000000
	}
	for i, o := range todo {
		o.id = i
		pres[i] = x.pre(o)
		l := lim
		if o.kind == "cover" {
			l = 3000000
		}
		texts[i][0] = script(pres[i], []*Term{o.goal}, z3opts+fmt.Sprintf("(set-option :rlimit %d)\n", l), false)
		if o.kind != "cover" {
			texts[i][1] = script(pres[i], []*Term{o.goal}, fmt.Sprintf("(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :rlimit %d)\n", l/3), false)
			texts[i][2] = script(pres[i], []*Term{o.goal}, "(set-logic ALL)\n", false)
			if g := groundOnly(pres[i]); len(g) < len(pres[i]) {
				texts[i][3] = scriptG(g, []*Term{o.goal}, "(set-option :smt.random_seed 1)\n(set-option :rlimit 20000000)\n", false, true)
			}
		}
	}
	parallel(len(todo), func(i int) { solveOne(todo[i], texts[i]) })
	for _, o := range rep.Obls {
		if o.kind == "cover" {
			if o.status == "unsat" {
				o.status = "vacuous"
				rep.Failed = append(rep.Failed, o)
				rep.Total++
			} else {
				rep.Cover = "ok"
			}
			continue
		}
		rep.Total++
		if o.status == "unsat" {
			rep.Proved++
		} else {
			rep.Failed = append(rep.Failed, o)
		}
	}
	if len(rep.Failed) > 0 {
		rep.Status = "failed"
	} else if rep.Bound > 0 {
		rep.Status = "bounded"
	} else {
		rep.Status = "proved"
	}
}

func solveOne(o *Obl, texts [4]string) {
	start := time.Now()
	if dumpDir != "" {
		os.WriteFile(fmt.Sprintf("%s/o%d.smt2", dumpDir, o.id), []byte("; "+o.fn+" "+o.name+"\n"+texts[0]), 0644)
		os.WriteFile(fmt.Sprintf("%s/g%d.smt2", dumpDir, o.id), []byte(texts[3]), 0644)
	}
	if texts[3] != "" {
		// the quantifier-free assumptions alone often suffice (fewer assumptions: an unsat answer carries over)
		out, _ := runSolver(solverZ3, nil, texts[3], 5*time.Second)
		if a := answers(out); len(a) > 0 && a[0] == "unsat" {
			o.status, o.output, o.backend = "unsat", strings.TrimSpace(out), "z3-5.3.2 (ground)"
			o.secs = time.Since(start).Seconds()
			return
		}
	}
	plain := texts[0]
	for strings.HasPrefix(plain, "(set-option") {
		plain = plain[strings.Index(plain, "\n")+1:]
	}
	old := func(secs int) bool {
		out, _ := runSolver("z3", []string{fmt.Sprintf("-T:%d", secs)}, plain, time.Duration(secs+5)*time.Second)
		if a := answers(out); len(a) > 0 && a[0] == "unsat" {
			o.status, o.output, o.backend = "unsat", strings.TrimSpace(out), "z3-4.8.12"
			o.secs = time.Since(start).Seconds()
			return true
		}
		return false
	}
	if o.kind != "cover" && old(2) {
		return
	}
	out, _ := runSolver(solverZ3, nil, texts[0], 90*time.Second)
	a := answers(out)
	o.backend = "z3-5.3.2"
	o.status = "timeout"
	if len(a) > 0 {
		o.status = a[0]
	}
	o.output = strings.TrimSpace(out)
	if o.status != "unsat" && o.status != "sat" && texts[1] != "" && !noFallback {
		out2, _ := runSolver(solverZ3, nil, texts[1], 40*time.Second)
		if b := answers(out2); len(b) > 0 && b[0] == "unsat" {
			o.status, o.output, o.backend = "unsat", strings.TrimSpace(out2), "z3-5.3.2 (default options)"
		} else if old(15) {
			return
		} else if texts[2] != "" {
			out3, _ := runSolver("cvc5", []string{"--tlimit=15000"}, texts[2], 20*time.Second)
			if c := answers(out3); len(c) > 0 && c[0] == "unsat" {
				o.status, o.output, o.backend = "unsat", strings.TrimSpace(out3), "cvc5-1.1.2"
			} else {
				o.output = "z3: " + strings.TrimSpace(out) + " | z3 default options: " + strings.TrimSpace(out2) + " | cvc5: " + strings.TrimSpace(out3)
			}
		}
	}
	o.secs = time.Since(start).Seconds()
}

var verbose = false
