package zzverif

// A small reference interpreter for flows (written from the documented behaviour, not
// from the engine's code) and the step-by-step comparison with the real engine.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
)

type sTask struct {
	id      string
	spec    *Task
	in      []int // link ids
	out     []int
	handler bool
}

type sLink struct {
	id       int
	spec     *Link
	from, to string
}

type sFlow struct {
	f     *Flow
	tasks map[string]*sTask
	links map[int]*sLink
}

func compile(f *Flow) *sFlow {
	s := &sFlow{f: f, tasks: map[string]*sTask{}, links: map[int]*sLink{}}
	n := 0
	add := func(ts []*Task, ls []*Link, h bool) {
		for _, t := range ts {
			s.tasks[t.ID] = &sTask{id: t.ID, spec: t, handler: h}
		}
		for _, l := range ls {
			s.links[n] = &sLink{id: n, spec: l, from: l.From, to: l.To}
			s.tasks[l.From].out = append(s.tasks[l.From].out, n)
			s.tasks[l.To].in = append(s.tasks[l.To].in, n)
			n++
		}
	}
	add(f.Tasks, f.Links, false)
	if f.Handler != nil {
		add(f.Handler.Tasks, f.Handler.Links, true)
	}
	return s
}

// one task instance
type inst struct {
	t       *sTask
	c       *cont
	st      int
	hostErr *edesc
	scheduled bool
}

// one running (sub)flow
type cont struct {
	sub      int
	flow     *sFlow
	st       int
	table    map[string]*inst
	links    map[int]int
	handling bool
	force    bool
	host     *inst
	vars     map[string]interface{}
	ret      map[string]interface{}
	errs     map[string]map[string]interface{} // error objects by name (C06)
}

// what an error is known by
type edesc struct {
	kind, msg, code, name string
	data                  interface{}
	part                  bool // the message only contains msg
}

func (e *edesc) object(id string) map[string]interface{} {
	o := map[string]interface{}{"activity": id, "message": e.msg, "type": e.kind, "code": e.code, "data": e.data}
	if e.name != "" {
		o["activity"] = e.name
	}
	return o
}

func (s *sim) note(c *cont, name, id string, e *edesc) {
	if c.errs == nil {
		c.errs = map[string]map[string]interface{}{}
	}
	o := e.object(id)
	o["~part"] = e.part
	c.errs[name] = o
}

type sim struct {
	flows  map[string]*sFlow
	conts  map[int]*cont
	nsub   int
	queue  []*inst
	calls  map[string]int
	master *cont
	// what happens in the current step
	evals    []string
	pushes   []string
	taskLast map[string]int
	linkLast map[string]int
	enters   map[string]int
	order    []string // first entry of each task, in order
	results  []string // subflow -> host hand backs
	unspec   map[string]bool
	flowSt   map[int][]int
	handlers int
	order0   []string // start order of leading tasks, taken from the observation
}

func newSim(flows []*Flow) *sim {
	s := &sim{flows: map[string]*sFlow{}, conts: map[int]*cont{}, calls: map[string]int{}}
	for _, f := range flows {
		s.flows[f.uri()] = compile(f)
	}
	s.reset()
	return s
}

func (s *sim) reset() {
	s.evals, s.pushes, s.results, s.order = nil, nil, nil, nil
	s.taskLast, s.linkLast, s.enters = map[string]int{}, map[string]int{}, map[string]int{}
	s.unspec = map[string]bool{}
	s.flowSt = map[int][]int{}
	s.handlers = 0
}

func tk(c *cont, id string) string { return fmt.Sprintf("%d/%s", c.sub, id) }
func lk(c *cont, id int) string    { return fmt.Sprintf("%d/%d", c.sub, id) }

func (s *sim) setT(i *inst, st int) {
	i.st = st
	s.taskLast[tk(i.c, i.t.id)] = st
}
func (s *sim) setL(c *cont, id, st int) {
	c.links[id] = st
	s.linkLast[lk(c, id)] = st
}
func (s *sim) setF(c *cont, st int) {
	c.st = st
	s.flowSt[c.sub] = append(s.flowSt[c.sub], st)
}

func (s *sim) begin(c *cont, vars map[string]interface{}) {
	s.conts[c.sub] = c
	c.table, c.links, c.vars = map[string]*inst{}, map[int]int{}, map[string]interface{}{}
	for k, v := range c.flow.f.Inputs {
		c.vars[k] = v
	}
	for k, v := range vars {
		c.vars[k] = v
	}
	s.setF(c, int(model.FlowStatusActive))
	s.enterAll(c, s.leading(c, false))
}

// the engine starts leading tasks in no particular order: follow the observed one
func (s *sim) leading(c *cont, handler bool) []string {
	var l []string
	for _, t := range c.flow.tasks {
		if t.handler == handler && len(t.in) == 0 {
			l = append(l, t.id)
		}
	}
	sort.Strings(l)
	pos := func(id string) int {
		for i, o := range s.order0 {
			if o == tk(c, id) {
				return i
			}
		}
		return 1 << 20
	}
	sort.SliceStable(l, func(i, j int) bool { return pos(l[i]) < pos(l[j]) })
	return l
}

func (s *sim) push(i *inst) {
	s.queue = append(s.queue, i)
	s.pushes = append(s.pushes, tk(i.c, i.t.id))
}

func (s *sim) enterAll(c *cont, ids []string) {
	for _, id := range ids {
		t := c.flow.tasks[id]
		known := len(t.in) == 0
		for _, l := range t.in {
			_, ok := c.links[l]
			known = known || ok
		}
		if !known {
			continue // already skipped and released
		}
		i := c.table[id]
		if i != nil && i.scheduled {
			continue
		}
		if i == nil {
			i = &inst{t: t, c: c}
			c.table[id] = i
		}
		s.enters[tk(c, id)]++
		s.order = append(s.order, tk(c, id))
		s.setT(i, 10)
		undecided, taken := 0, 0
		for _, l := range t.in {
			switch c.links[l] {
			case 0:
				undecided++
			case 2:
				taken++
			}
		}
		switch {
		case undecided > 0:
		case len(t.in) == 0 || taken > 0:
			s.setT(i, 20)
			i.scheduled = true
			s.push(i)
		default:
			s.setT(i, 50)
			var next []string
			for _, l := range t.out {
				s.setL(c, l, 3)
				next = append(next, c.flow.links[l].to)
			}
			s.after(i, next, len(t.out) == 0)
		}
	}
}

func (s *sim) pendingIn(c *cont) bool {
	for _, i := range c.table {
		if i.st < 40 {
			return true
		}
	}
	return false
}

func (s *sim) after(i *inst, next []string, notify bool) {
	c := i.c
	if c.force || notify && !s.pendingIn(c) {
		if c.st < stCompleted {
			s.complete(c)
		}
	} else {
		s.enterAll(c, next)
	}
	delete(c.table, i.t.id)
	for _, l := range i.t.in {
		delete(c.links, l)
	}
}

var stCompleted, stFailed, stActive = int(model.FlowStatusCompleted), int(model.FlowStatusFailed), int(model.FlowStatusActive)

func (s *sim) complete(c *cont) {
	s.setF(c, stCompleted)
	if c.host != nil {
		c.host.hostErr = nil
		s.results = append(s.results, fmt.Sprintf("ok %s", tk(c.host.c, c.host.t.id)))
		s.push(c.host)
		delete(s.conts, c.sub)
	}
}

func (s *sim) fail(c *cont, e *edesc) {
	s.setF(c, stFailed)
	if c.host != nil {
		c.host.hostErr = e
		s.results = append(s.results, fmt.Sprintf("err %s", tk(c.host.c, c.host.t.id)))
		s.push(c.host)
	}
}

func (s *sim) globalError(c *cont, id string, e *edesc) {
	if c.handling || c.flow.f.Handler == nil {
		c.handling = true
		s.fail(c, e)
		return
	}
	c.handling = true
	c.table = map[string]*inst{}
	s.handlers++
	s.note(c, "_E", id, e)
	s.note(c, "_E."+id, id, e)
	s.enterAll(c, s.leading(c, true))
}

func (s *sim) truth(c *cont, expr string) (val bool, ok bool) {
	v, found := c.vars[strings.TrimPrefix(expr, "$.")]
	if !found {
		return false, false
	}
	b, isb := v.(bool)
	return b, isb
}

func (s *sim) done(i *inst) {
	c := i.c
	s.setT(i, 40)
	type ent struct {
		to   string
		code int
	}
	var es []ent
	other, hasExpr, followed := -1, false, false
	for k, l := range i.t.out {
		sp := c.flow.links[l].spec
		st, code := 1, 4
		switch sp.Type {
		case "dependency", "":
			st, code = 2, 0
		case "label":
			st, code = 2, 3
			if support.GetPrioritizeExprTask() {
				code = 1
			}
		case "exprOtherwise":
			other = k
		case "expression":
			hasExpr = true
			v, ok := s.truth(c, sp.Value)
			if !ok {
				for _, l2 := range i.t.out {
					s.unspec[lk(c, l2)] = true
				}
				s.globalError(c, i.t.id, &edesc{kind: "link_expr", part: true})
				return
			}
			if v {
				followed = true
				st, code = 2, 1
				if support.GetPrioritizeExprTask() {
					code = 3
				}
			}
		}
		s.setL(c, l, st)
		es = append(es, ent{c.flow.links[l].to, code})
	}
	if other >= 0 && hasExpr && !followed {
		s.setL(c, i.t.out[other], 2)
		es[other].code = 2
	}
	sort.SliceStable(es, func(a, b int) bool { return es[a].code < es[b].code })
	var next []string
	for _, e := range es {
		next = append(next, e.to)
	}
	s.after(i, next, len(i.t.out) == 0)
}

func (s *sim) taskError(i *inst, e *edesc) {
	c := i.c
	s.setT(i, 100)
	var errs, rest []string
	for _, l := range i.t.out {
		if c.flow.links[l].spec.Type == "error" {
			errs = append(errs, c.flow.links[l].to)
		} else {
			rest = append(rest, c.flow.links[l].to)
		}
	}
	if len(errs) == 0 {
		s.globalError(c, i.t.id, e)
		return
	}
	s.note(c, "_E."+i.t.id, i.t.id, e)
	for _, l := range i.t.out {
		if c.flow.links[l].spec.Type == "error" {
			s.setL(c, l, 2)
		} else {
			s.setL(c, l, 1)
		}
	}
	s.enterAll(c, append(errs, rest...))
	delete(c.table, i.t.id)
	for _, l := range i.t.in {
		delete(c.links, l)
	}
}

func (s *sim) step() bool {
	if s.master.st != stActive || len(s.queue) == 0 {
		return false
	}
	i := s.queue[len(s.queue)-1] // the engine's work queue is a stack
	s.queue = s.queue[:len(s.queue)-1]
	c := i.c
	if c.st >= stCompleted {
		return true
	}
	if i.st == 30 {
		if i.hostErr != nil {
			s.taskError(i, i.hostErr)
		} else {
			s.done(i)
		}
		return true
	}
	if i.st == 40 || i.st == 50 {
		return true
	}
	key := c.flow.f.Name + "/" + i.t.id
	n := s.calls[key]
	s.calls[key]++
	s.evals = append(s.evals, tk(c, i.t.id))
	o := Outcome{Kind: "ok"}
	if sc := i.t.spec.Script; len(sc) > 0 {
		if n >= len(sc) {
			n = len(sc) - 1
		}
		o = sc[n]
	}
	switch o.Kind {
	case "err":
		s.taskError(i, &edesc{kind: "activity", msg: "boom " + key, code: "E42", name: c.flow.f.taskName(i.t.id), data: map[string]interface{}{"d": 1}})
	case "retriable":
		s.taskError(i, &edesc{kind: "activity", msg: "again " + key, code: "R1", name: c.flow.f.taskName(i.t.id)})
	case "plain":
		s.taskError(i, &edesc{kind: "unknown", msg: "plain " + key})
	case "panic":
		s.taskError(i, &edesc{kind: "unhandled", msg: "panic " + key, name: c.flow.f.taskName(i.t.id)})
	case "wait":
		s.setT(i, 30)
	case "sub":
		f := s.flows[o.Flow]
		if f == nil {
			s.taskError(i, &edesc{kind: "unknown", part: true})
			return true
		}
		s.nsub++
		s.begin(&cont{sub: s.nsub, flow: f, host: i}, o.In)
		s.setT(i, 30)
	case "return", "returnerr":
		c.force = true
		c.ret = o.Out
		s.done(i)
	default:
		s.done(i)
	}
	return true
}

// ---------------------------------------------------------------- observation of a step

type obs struct {
	evals, pops, pushes []string
	taskLast            map[string]int
	linkLast            map[string]int
	enters              map[string]int
	order               []string
	flowSt              map[int][]int
	statusCount         map[int]map[int]int
}

func observe(evs []Event, step int) *obs {
	o := &obs{taskLast: map[string]int{}, linkLast: map[string]int{}, enters: map[string]int{}, flowSt: map[int][]int{}}
	for _, e := range evs {
		if e.Step != step {
			continue
		}
		k := fmt.Sprintf("%d/%s", e.Sub, e.Task)
		switch e.K {
		case "eval":
			o.evals = append(o.evals, k)
		case "pop":
			o.pops = append(o.pops, k)
		case "push":
			o.pushes = append(o.pushes, k)
		case "task":
			o.taskLast[k] = e.St
			if e.St == 10 {
				o.enters[k]++
				o.order = append(o.order, k)
			}
		case "link":
			o.linkLast[fmt.Sprintf("%d/%d", e.Sub, e.Link)] = e.St
		case "status":
			o.flowSt[e.Sub] = append(o.flowSt[e.Sub], e.St)
		}
	}
	return o
}

func diffMap(kind string, a, b map[string]int, skip map[string]bool) string {
	for _, k := range sorted(a) {
		if !skip[k] && a[k] != b[k] {
			return fmt.Sprintf("%s %s: expected %d, engine %d", kind, k, a[k], b[k])
		}
	}
	for _, k := range sorted(b) {
		if _, ok := a[k]; !ok && !skip[k] {
			return fmt.Sprintf("%s %s: expected no change, engine %d", kind, k, b[k])
		}
	}
	return ""
}

type mismatch struct {
	props []string
	what  string
}

// compare the simulated step with the observed one; every mismatch names the properties it speaks about.
func compareStep(s *sim, o *obs, step int, popped string) []mismatch {
	var ms []mismatch
	add := func(what string, props ...string) {
		ms = append(ms, mismatch{props, fmt.Sprintf("step %d: %s", step, what)})
	}
	failedStep := false
	skipped := map[string]bool{}
	for k, st := range s.taskLast {
		if st == 100 {
			failedStep = true
		}
		if st == 50 {
			skipped[k] = true
		}
	}
	if a, b := strings.Join(s.evals, " "), strings.Join(o.evals, " "); a != b {
		ps := []string{"C04"}
		for _, e := range o.evals {
			if skipped[e] {
				ps = append(ps, "C03")
			}
		}
		add(fmt.Sprintf("evaluated [%s], expected [%s]", b, a), ps...)
	}
	for _, k := range sorted(s.taskLast) {
		a, b := s.taskLast[k], o.taskLast[k]
		if a == b {
			continue
		}
		var ps []string
		switch a {
		case 10, 20:
			ps = []string{"C01"}
		case 50:
			ps = []string{"C01", "C03"}
		case 30:
			ps = []string{"C04"}
			if b == 10 || b == 20 || b == 50 {
				ps = []string{"C01"}
			}
		case 40:
			ps = []string{"C02", "C04"}
		case 100:
			ps = []string{"C05"}
		}
		add(fmt.Sprintf("task %s has status %d, expected %d", k, b, a), ps...)
	}
	for _, k := range sorted(o.taskLast) {
		if _, ok := s.taskLast[k]; !ok {
			add(fmt.Sprintf("task %s got status %d, expected no change", k, o.taskLast[k]), "C04", "C03")
		}
	}
	if d := diffMap("entering", s.enters, o.enters, nil); d != "" {
		ps := []string{"C02", "C07"}
		if failedStep {
			ps = []string{"C05", "C07"}
		}
		if len(skipped) > 0 {
			ps = append(ps, "C03")
		}
		add(d, ps...)
	} else if a, b := strings.Join(s.order, " "), strings.Join(o.order, " "); a != b {
		ps := []string{"C02"}
		if failedStep {
			ps = []string{"C05"}
		}
		if len(skipped) > 0 {
			ps = append(ps, "C03")
		}
		add(fmt.Sprintf("tasks entered in order [%s], expected [%s]", b, a), ps...)
	}
	for _, k := range sorted(s.linkLast) {
		a, b := s.linkLast[k], o.linkLast[k]
		if a == b || s.unspec[k] {
			continue
		}
		ps := []string{"C02"}
		if failedStep {
			ps = []string{"C05"}
		}
		if a == 3 {
			ps = []string{"C03"}
		}
		add(fmt.Sprintf("link %s has status %d, expected %d", k, b, a), ps...)
	}
	for _, k := range sorted(o.linkLast) {
		if _, ok := s.linkLast[k]; !ok && !s.unspec[k] {
			add(fmt.Sprintf("link %s got status %d, expected no change", k, o.linkLast[k]), "C02", "C03", "C05")
		}
	}
	if a, b := strings.Join(s.pushes, " "), strings.Join(o.pushes, " "); a != b {
		ps := []string{"C04"}
		if len(s.results) > 0 || o.pushesHost(s) {
			ps = []string{"C08", "C04"}
		}
		add(fmt.Sprintf("queued [%s], expected [%s]", b, a), ps...)
	}
	for sub, a := range s.flowSt {
		if js(a) != js(o.flowSt[sub]) {
			ps := []string{"C07"}
			if len(a) > 0 && a[len(a)-1] == stFailed {
				ps = []string{"C05"}
			}
			if sub > 0 {
				ps = append(ps, "C08")
			}
			add(fmt.Sprintf("flow %d went through %v, expected %v", sub, o.flowSt[sub], a), ps...)
		}
	}
	for sub, b := range o.flowSt {
		if _, ok := s.flowSt[sub]; !ok {
			ps := []string{"C07"}
			if len(b) > 0 && b[len(b)-1] == stFailed {
				ps = append(ps, "C05")
			}
			if sub > 0 {
				ps = append(ps, "C08")
			}
			add(fmt.Sprintf("flow %d went through %v, expected no change", sub, b), ps...)
		}
	}
	return ms
}

func (o *obs) pushesHost(s *sim) bool {
	for _, p := range o.pushes {
		for _, i := range s.conts {
			if i.host != nil && tk(i.host.c, i.host.t.id) == p {
				return true
			}
		}
	}
	return false
}

// the error objects visible in the flows that go on
func compareErrors(s *sim, r *Run, step int) []mismatch {
	var ms []mismatch
	for _, c := range s.conts {
		host := r.hosts[c.sub]
		if c.st != stActive || host == nil {
			continue
		}
		for _, t := range c.flow.tasks {
			n := "_E." + t.id
			v, found := host.GetValue(n)
			if exp, ok := c.errs[n]; ok {
				if d := errDiff(exp, v); d != "" {
					ms = append(ms, mismatch{[]string{"C06"}, fmt.Sprintf("step %d: flow %d: %s: %s", step, c.sub, n, d)})
				}
			} else if found {
				ms = append(ms, mismatch{[]string{"C06"}, fmt.Sprintf("step %d: flow %d: %s is %s although that task did not fail", step, c.sub, n, js(v))})
			}
		}
		if c.handling {
			v, _ := host.GetValue("_E")
			if d := errDiff(c.errs["_E"], v); d != "" {
				ms = append(ms, mismatch{[]string{"C06"}, fmt.Sprintf("step %d: flow %d: _E: %s", step, c.sub, d)})
			}
		}
	}
	return ms
}

func errDiff(exp map[string]interface{}, v interface{}) string {
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("no error object: %v", v)
	}
	for _, k := range []string{"activity", "message", "type", "code", "data"} {
		if k == "message" && exp["~part"] == true {
			if msg, _ := m[k].(string); !strings.Contains(msg, exp[k].(string)) || msg == "" {
				return fmt.Sprintf("message is %q", msg)
			}
			continue
		}
		if js(exp[k]) != js(m[k]) {
			return fmt.Sprintf("%s is %s, expected %s", k, js(m[k]), js(exp[k]))
		}
	}
	return ""
}

// playFlow runs the flows on the engine and on the interpreter, step by step.
func playFlow(flows []*Flow, vars map[string]interface{}) ([]mismatch, *Run, *sim, error) {
	r, err := newRun(flows, state.RecordingModeOff, nil)
	if err != nil {
		return nil, nil, nil, fmt.Errorf("flow rejected: %v", err)
	}
	s := newSim(flows)
	if err := r.start(vars); err != nil {
		return []mismatch{{[]string{"C04", "C07"}, "start: " + err.Error()}}, r, s, nil
	}
	var ms []mismatch
	o := observe(r.events, 0)
	s.order0 = o.order
	s.master = &cont{flow: s.flows[flows[0].uri()]}
	s.begin(s.master, vars)
	ms = append(ms, compareStep(s, o, 0, "")...)
	if len(ms) > 0 {
		return ms, r, s, nil
	}
	for step := 1; step < 200; step++ {
		r.step = step
		var more bool
		front := ""
		if len(s.queue) > 0 {
			front = tk(s.queue[len(s.queue)-1].c, s.queue[len(s.queue)-1].t.id)
		}
		if err := guarded(20e9, func() { more = r.inst.DoStep() }); err != nil {
			return []mismatch{{[]string{"C04", "C07"}, fmt.Sprintf("step %d: %v", step, err)}}, r, s, nil
		}
		o := observe(r.events, step)
		s.reset()
		s.order0 = o.order
		exp := s.step()
		if exp != more {
			return []mismatch{{[]string{"C04"}, fmt.Sprintf("step %d: engine has more work: %v, expected %v", step, more, exp)}}, r, s, nil
		}
		if exp && (len(o.pops) != 1 || o.pops[0] != front) {
			return []mismatch{{[]string{"C04"}, fmt.Sprintf("step %d: took %v from the queue, expected %s", step, o.pops, front)}}, r, s, nil
		}
		ms = append(ms, compareStep(s, o, step, front)...)
		if len(ms) == 0 {
			ms = append(ms, compareErrors(s, r, step)...)
		}
		if len(ms) > 0 {
			return ms, r, s, nil
		}
		if !more {
			break
		}
	}
	if int(r.inst.Status()) != s.master.st {
		ms = append(ms, mismatch{[]string{"C07"}, fmt.Sprintf("final status %d, expected %d", r.inst.Status(), s.master.st)})
	}
	if s.master.st == stActive && len(s.queue) == 0 {
		waiting := false
		for _, c := range s.conts {
			for _, i := range c.table {
				waiting = waiting || i.st == 30
			}
		}
		if !waiting {
			return nil, r, s, fmt.Errorf("reference run is stuck")
		}
	}
	return ms, r, s, nil
}

// ---------------------------------------------------------------- random flows

type genCfg struct {
	maxTasks  int
	errLinks  bool
	subflows  bool
	handlers  bool
	badExpr   bool
	returns   bool
	failures  int // percent
	multiEdge bool
}

func genGraph(g *rand.Rand, f *Flow, prefix string, n int, c genCfg, subs []string) {
	for i := 0; i < n; i++ {
		t := &Task{ID: fmt.Sprintf("%s%d", prefix, i)}
		switch p := g.Intn(100); {
		case p < c.failures:
			t.Script = []Outcome{{Kind: []string{"err", "err", "plain", "panic", "retriable"}[g.Intn(5)]}}
		case p < c.failures+6 && c.returns:
			t.Script = []Outcome{{Kind: "return", Out: map[string]interface{}{"r": g.Intn(5)}}}
		case p < c.failures+25 && len(subs) > 0:
			t.Script = []Outcome{{Kind: "sub", Flow: subs[g.Intn(len(subs))], In: map[string]interface{}{"t": true, "f": false}}}
		}
		f.Tasks = append(f.Tasks, t)
	}
	dens := 25 + g.Intn(50)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			times := 0
			if g.Intn(100) < dens || (j == i+1 && g.Intn(2) == 0) {
				times = 1
				if c.multiEdge && g.Intn(8) == 0 {
					times = 2
				}
			}
			for ; times > 0; times-- {
				l := &Link{From: fmt.Sprintf("%s%d", prefix, i), To: fmt.Sprintf("%s%d", prefix, j)}
				switch p := g.Intn(20); {
				case p < 7:
					l.Type = "dependency"
				case p < 13:
					l.Type = "expression"
					l.Value = []string{"$.t", "$.f"}[g.Intn(2)]
					if c.badExpr && g.Intn(12) == 0 {
						l.Value = []string{"$.missing", "$.text"}[g.Intn(2)]
					}
				case p < 15:
					l.Type = "exprOtherwise"
				case p < 17:
					l.Type = "label"
				default:
					l.Type = "error"
					if !c.errLinks {
						l.Type = "dependency"
					}
				}
				f.Links = append(f.Links, l)
			}
		}
	}
	g.Shuffle(len(f.Links), func(a, b int) { f.Links[a], f.Links[b] = f.Links[b], f.Links[a] })
	// at most one otherwise link per task keeps the rule unambiguous
	seen := map[string]bool{}
	for _, l := range f.Links {
		if l.Type == "exprOtherwise" {
			if seen[l.From] {
				l.Type = "dependency"
			}
			seen[l.From] = true
		}
	}
}

func genFlow(g *rand.Rand, name string, c genCfg, subs []string) *Flow {
	f := &Flow{Name: name}
	genGraph(g, f, "T", 1+g.Intn(c.maxTasks), c, subs)
	if c.handlers && g.Intn(100) < 45 {
		h := &Flow{}
		hc := c
		hc.failures = c.failures / 3
		genGraph(g, h, "H", 1+g.Intn(3), hc, nil)
		f.Handler = h
	}
	return f
}

func flowCase(g *rand.Rand) ([]*Flow, map[string]interface{}) {
	c := genCfg{maxTasks: 6, errLinks: g.Intn(3) > 0, subflows: g.Intn(3) == 0, handlers: g.Intn(2) == 0, badExpr: g.Intn(4) == 0,
		returns: g.Intn(4) == 0, failures: []int{0, 10, 30}[g.Intn(3)], multiEdge: g.Intn(4) == 0}
	var flows []*Flow
	var subs []string
	if c.subflows {
		n := 1 + g.Intn(2)
		for i := 0; i < n; i++ {
			cc := c
			cc.maxTasks = 4
			f := genFlow(g, fmt.Sprintf("S%d", i), cc, subs)
			flows = append(flows, f)
			subs = append(subs, f.uri())
		}
	}
	m := genFlow(g, "M", c, subs)
	m.Named = g.Intn(2) == 0
	if g.Intn(40) == 0 { // a wide fan out and in
		m = &Flow{Name: "M", Tasks: []*Task{{ID: "A"}, {ID: "Z"}}}
		for i := 0; i < 13+g.Intn(20); i++ {
			id := fmt.Sprintf("W%d", i)
			m.Tasks = append(m.Tasks, &Task{ID: id})
			l := &Link{From: "A", To: id, Type: []string{"dependency", "expression", "label", "expression"}[g.Intn(4)]}
			if l.Type == "expression" {
				l.Value = []string{"$.t", "$.f"}[g.Intn(2)]
			}
			m.Links = append(m.Links, l, &Link{From: id, To: "Z", Type: "dependency"})
		}
	}
	return append([]*Flow{m}, flows...), map[string]interface{}{"t": true, "f": false, "text": "zz"}
}

var simProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"}

func mentions(m mismatch) bool {
	for _, p := range m.props {
		if p == prop {
			return true
		}
	}
	return false
}

func TestSim(t *testing.T) {
	if !want(simProps...) {
		t.Skip()
	}
	n := scale(4000, 60000)
	stuck := 0
	for i := 0; i < n; i++ {
		g := rng("sim", i)
		flows, vars := flowCase(g)
		ms, r, s, err := playFlow(flows, vars)
		if err != nil {
			stuck++
			if stuck < 3 {
				t.Logf("case %d: %v", i, err)
			}
			continue
		}
		b, _ := json.Marshal(flows)
		ran("random flow, step by step", map[string]interface{}{"seed": seed, "case": i, "flows": flows}, string(b), len(flows[0].Links) > 0 && r != nil && len(r.events) > 3)
		_ = s
		for _, m := range ms {
			if mentions(m) {
				violated(t, "random flow, step by step", map[string]interface{}{"flows": flows, "vars": vars, "events": r.events}, "%s", m.what)
				return
			}
		}
	}
	if rep.Rule == "" {
		rep.Rule = "random acyclic flows (tasks, all link types, failing/panicking/returning activities, error handlers, subflows) executed on the real engine and on an independent interpreter, compared after every step; a case is non-trivial if it has links and did something; distinct by flow description"
	}
}
