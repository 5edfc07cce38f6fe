package zzverif

// C12 and C18: chains of tasks A > B > C (going on after a failure over an error link) with random outcomes,
// plain, iterator and do-while tasks with and without accumulation, waiting tasks; for C18 with a random
// interceptor and patch. After every step the flow's data is compared with what the description says.

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
)

type outStep struct {
	K     string                 // ok err plain retriable panic wait
	Out   map[string]interface{} `json:",omitempty"`
	Inner string                 `json:",omitempty"` // ok, return, err: what the started subflow does
	Ret   map[string]interface{} `json:",omitempty"`
	Post  string                 `json:",omitempty"` // ok err panic
	POut  map[string]interface{} `json:",omitempty"`
}

type outTask struct {
	ID     string
	Kind   string
	N      int
	Acc    bool
	Steps  []outStep
	Reads  string `json:",omitempty"` // the task whose output "out" is read
	PatchI string `json:",omitempty"` // patched input: literal, expr
	PatchO bool   `json:",omitempty"` // patched output mapper
	Skip   bool   `json:",omitempty"`
	InSet  bool   `json:",omitempty"` // input overridden
	Mock   string `json:",omitempty"` // "", watch, outputs, mock, exception
	MockO  map[string]interface{} `json:",omitempty"`
}

type outCase struct {
	Tasks    []*outTask
	Inner    *outTask `json:",omitempty"` // interception of inner/A (flow name and task id)
	Other    string   `json:",omitempty"` // interception of a task that does not exist
	Coverage bool
}

type outRun struct {
	c       *outCase
	r       *Run
	exp     map[string]interface{}            // expected data of the flow
	outs    map[string]map[string]interface{} // what each task holds as its outputs
	calls   map[string]int
	last    map[string]outStep
	posted  map[string]bool
	inner   []outStep
	what    string
	innerIn []interface{}
}

type outAct struct {
	o *outRun
	t *outTask
}

func (o *outRun) fail(f string, a ...interface{}) {
	if o.what == "" {
		o.what = fmt.Sprintf(f, a...)
	}
}

func (o *outRun) merge(id string, m map[string]interface{}) {
	if o.outs[id] == nil && len(m) > 0 {
		o.outs[id] = map[string]interface{}{}
	}
	for k, v := range m {
		o.outs[id][k] = v
	}
}

// publish changes the expected data the way a completed activity does; false if the patched mapper fails.
func (o *outRun) publish(t *outTask) bool {
	outs := o.outs[t.ID]
	if t.Mock == "outputs" || t.Mock == "mock" {
		o.merge(t.ID, t.MockO)
		outs = o.outs[t.ID]
	}
	if t.Acc {
		old, _ := o.exp["_A."+t.ID].([]interface{})
		cp := map[string]interface{}{}
		for k, v := range outs {
			cp[k] = v
		}
		o.exp["_A."+t.ID] = append(append([]interface{}{}, old...), cp)
		if t.Kind == "iterator" {
			return true
		}
	}
	if t.PatchO {
		v, ok := outs["out"]
		if !ok {
			return false
		}
		o.exp["pub"+t.ID] = v
		return true
	}
	for _, k := range []string{"out", "out2"} {
		if v, ok := outs[k]; ok {
			o.exp["_A."+t.ID+"."+k] = v
		}
	}
	return true
}

func (o *outRun) input(t *outTask) (interface{}, bool) {
	if t.PatchI == "literal" {
		if t.InSet {
			return "given " + t.ID, true
		}
		return "patched " + t.ID, true
	}
	v, ok := interface{}(nil), true
	if t.PatchI == "expr" {
		v = "nval"
	} else if t.Reads != "" {
		v, ok = o.exp["_A."+t.Reads+".out"]
	}
	if !ok {
		return nil, false
	}
	if t.InSet {
		v = "given " + t.ID
	}
	return v, true
}

func (a *outAct) Eval(ctx activity.Context) (bool, error) {
	o, t := a.o, a.t
	n := o.calls[t.ID]
	o.calls[t.ID]++
	if want, ok := o.input(t); !ok {
		o.fail("task %s was run although its input cannot be computed", t.ID)
	} else if got := ctx.GetInput("in"); !reflect.DeepEqual(got, want) {
		o.fail("task %s was run with input %v, expected %v", t.ID, got, want)
	}
	if n >= len(t.Steps) {
		n = len(t.Steps) - 1
	}
	s := t.Steps[n]
	o.last[t.ID], o.posted[t.ID] = s, false
	for k, v := range s.Out {
		ctx.SetOutput(k, v)
	}
	o.merge(t.ID, s.Out)
	switch s.K {
	case "err":
		return false, activity.NewError("boom "+t.ID, "E", nil)
	case "plain":
		return false, errors.New("plain " + t.ID)
	case "panic":
		panic("panic " + t.ID)
	case "wait":
		o.inner = append(o.inner, s)
		return false, instance.StartSubFlow(ctx, "flow:inner", nil)
	}
	o.publish(t)
	return true, nil
}

func (a *outAct) PostEval(ctx activity.Context, ud interface{}) (bool, error) {
	o, t := a.o, a.t
	s := o.last[t.ID]
	o.posted[t.ID] = true
	o.outs[t.ID] = nil
	if s.Inner == "return" && !o.c.skips("A") && !o.c.mocksInner() {
		o.merge(t.ID, s.Ret)
	}
	for k, v := range s.POut {
		ctx.SetOutput(k, v)
	}
	o.merge(t.ID, s.POut)
	switch s.Post {
	case "err":
		return false, activity.NewError("post "+t.ID, "P", nil)
	case "panic":
		panic("postpanic " + t.ID)
	}
	if s.Inner != "err" || o.c.skips("A") || o.c.mocksInner() {
		o.publish(t)
	}
	return true, nil
}

func (c *outCase) mocksInner() bool { return c.Inner != nil && c.Inner.Mock == "mock" }
func (c *outCase) skips(id string) bool {
	for _, t := range c.Tasks {
		if t.ID == id {
			return t.Skip
		}
	}
	return false
}
func (c *outCase) task(id string) *outTask {
	for _, t := range c.Tasks {
		if t.ID == id {
			return t
		}
	}
	return nil
}

// the task A of the subflow
type innerAct struct{ o *outRun }

func (a *innerAct) Eval(ctx activity.Context) (bool, error) {
	o := a.o
	s := o.inner[len(o.inner)-1]
	o.calls["inner"]++
	t := o.c.task("A")
	want := interface{}(nil)
	if t.PatchI == "literal" {
		want = "patched A"
	} else if t.PatchI == "expr" {
		want = "innerval"
	}
	if t.InSet {
		want = "given A"
	}
	if got := ctx.GetInput("in"); !reflect.DeepEqual(got, want) {
		o.fail("task A of the subflow was run with input %v, expected %v", got, want)
	}
	switch s.Inner {
	case "return":
		ctx.ActivityHost().(*instance.Instance).Return(s.Ret, nil)
	case "err":
		return false, activity.NewError("inner", "I", nil)
	}
	ctx.SetOutput("out", "inner value")
	return true, nil
}
func (a *innerAct) PostEval(ctx activity.Context, ud interface{}) (bool, error) { return true, nil }

func (t *outTask) fails(s outStep, inner bool) bool {
	switch s.K {
	case "err", "plain", "panic":
		return true
	case "wait":
		return s.Post == "err" || s.Post == "panic" || inner
	}
	return false
}

func checkOutputs(c *outCase) string {
	o := &outRun{c: c, outs: map[string]map[string]interface{}{}, calls: map[string]int{}, last: map[string]outStep{}, posted: map[string]bool{}}
	f := &Flow{Name: "main", Inputs: map[string]interface{}{"n": 0}}
	for i, t := range c.Tasks {
		ft := &Task{ID: t.ID, Settings: map[string]interface{}{}, Input: map[string]interface{}{}}
		if t.Reads != "" {
			ft.Input["in"] = "=$activity[" + t.Reads + "].out"
		}
		switch t.Kind {
		case "iterator":
			ft.Type = "iterator"
			ft.Settings["iterate"] = t.N
			if t.Acc {
				ft.Settings["accumulate"] = true
			}
		case "dowhile":
			ft.Type = "doWhile"
			ft.Settings["condition"] = fmt.Sprintf("=$iteration[index] < %d", t.N-1)
			if t.Acc {
				ft.Settings["accumulate"] = true
			}
		}
		f.Tasks = append(f.Tasks, ft)
		if i > 0 {
			p := c.Tasks[i-1].ID
			f.Links = append(f.Links, &Link{From: p, To: t.ID, Type: "dependency"}, &Link{From: p, To: t.ID, Type: "error"})
		}
	}
	sub := &Flow{Name: "inner", Inputs: map[string]interface{}{"n": "innerval"}, Tasks: []*Task{{ID: "A"}}}
	r, err := newRun([]*Flow{f, sub}, state.RecordingModeOff, nil)
	if err != nil {
		return err.Error()
	}
	o.r = r
	r.task = map[string]activityLike{"inner/A": &innerAct{o}}
	for _, t := range c.Tasks {
		r.task["main/"+t.ID] = &outAct{o, t}
	}
	ics := map[string]*support.TaskInterceptor{}
	if prop == "C18" {
		ic, pa := &support.Interceptor{}, &support.Patch{}
		if c.Coverage {
			ic.Coverage = &support.Coverage{}
		}
		add := func(x *support.TaskInterceptor) *support.TaskInterceptor {
			if y := ics[x.ID]; y != nil {
				return y
			}
			ics[x.ID] = x
			ic.TaskInterceptors = append(ic.TaskInterceptors, x)
			return x
		}
		mock := func(id string, t *outTask) {
			if t.Mock == "" {
				return
			}
			x := add(&support.TaskInterceptor{ID: id})
			switch t.Mock {
			case "outputs", "mock":
				x.Outputs, x.Type = t.MockO, support.MockActivity
				x.SkipExecution = t.Mock == "mock"
			case "exception":
				x.SkipExecution, x.Type = true, support.MockException
				x.Outputs = map[string]interface{}{"message": "mocked failure " + t.ID}
			}
		}
		for _, t := range c.Tasks {
			if t.Skip || t.InSet {
				x := add(&support.TaskInterceptor{ID: t.ID})
				x.Skip = t.Skip
				if t.InSet {
					x.Inputs = map[string]interface{}{"in": "given " + t.ID}
				}
			}
			mock("main-"+t.ID, t)
			if t.PatchI != "" || t.PatchO {
				p := &support.TaskPatch{ID: t.ID}
				switch t.PatchI {
				case "literal":
					p.Input = map[string]interface{}{"in": "patched " + t.ID}
				case "expr":
					p.Input = map[string]interface{}{"in": "=$.n"}
				}
				if t.PatchO {
					p.Output = map[string]interface{}{"pub" + t.ID: "=$.out"}
				}
				pa.TaskPatches = append(pa.TaskPatches, p)
			}
		}
		if c.Inner != nil {
			mock("inner-A", c.Inner)
		}
		if c.Other != "" {
			add(&support.TaskInterceptor{ID: c.Other, Skip: true, SkipExecution: true, Type: support.MockActivity, Outputs: map[string]interface{}{"out": "other"}})
			pa.TaskPatches = append(pa.TaskPatches, &support.TaskPatch{ID: c.Other, Input: map[string]interface{}{"in": "other"}})
		}
		opt := &instance.ExecOptions{}
		if len(ic.TaskInterceptors) > 0 {
			opt.Interceptor = ic
		}
		if len(pa.TaskPatches) > 0 {
			opt.Patch = pa
		}
		instance.ApplyExecOptions(r.inst, opt)
	}
	if err := r.start(map[string]interface{}{"n": "nval"}); err != nil {
		return err.Error()
	}
	copyOf := func() map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range attrsOf(r.inst.Instance) {
			m[k] = v
		}
		return m
	}
	o.exp = copyOf()
	untouched := func(id string) bool { t := c.task(id); return t.Skip || t.Mock == "mock" || t.Mock == "exception" }
	compare := func(final bool, at string) {
		got := copyOf()
		for k := range got {
			if strings.HasPrefix(k, "_E") {
				delete(got, k)
			}
		}
		exp := map[string]interface{}{}
		for k, v := range o.exp {
			exp[k] = v
		}
		if !final {
			for _, t := range c.Tasks {
				if untouched(t.ID) {
					for _, m := range []map[string]interface{}{got, exp} {
						for k := range m {
							if k == "_A."+t.ID || strings.HasPrefix(k, "_A."+t.ID+".") || k == "pub"+t.ID {
								delete(m, k)
							}
						}
					}
				}
			}
		}
		for k, v := range got {
			if w, ok := exp[k]; !ok {
				o.fail("%s: the flow's data contains %s = %v, which was not published", at, k, js(v))
			} else if !reflect.DeepEqual(v, w) {
				o.fail("%s: the flow's data contains %s = %v, expected %v", at, k, js(v), js(w))
			}
		}
		for k, v := range exp {
			if _, ok := got[k]; !ok {
				o.fail("%s: the flow's data lacks %s = %v", at, k, js(v))
			}
		}
	}
	// a task that is not run for real changes the expectation as soon as the next one starts
	done := map[string]bool{}
	settle := func() {
		for _, t := range c.Tasks {
			if !untouched(t.ID) || done[t.ID] {
				continue
			}
			st := -1
			for _, e := range r.events {
				if e.K == "task" && e.Sub == 0 && e.Task == t.ID {
					st = e.St
				}
			}
			if st != 40 && st != 100 {
				continue
			}
			done[t.ID] = true
			n := 1
			if t.Kind != "plain" {
				n = t.N
			}
			if t.Kind == "dowhile" && n < 1 {
				n = 1
			}
			bad := t.Mock == "exception"
			if _, ok := o.input(t); !ok {
				bad = n > 0
			}
			ok := true
			if !bad {
				for i := 0; i < n && ok; i++ {
					ok = o.publish(t)
				}
			}
			if bad && n > 0 || !ok {
				if st != 100 {
					o.fail("task %s ended with status %d, expected failed", t.ID, st)
				}
			} else if st != 40 {
				o.fail("task %s ended with status %d, expected done", t.ID, st)
			}
		}
	}
	if err := r.steps(400, func(step int) { settle(); compare(false, fmt.Sprintf("after step %d", step)) }); err != nil {
		return err.Error()
	}
	settle()
	compare(true, "at the end")
	if o.what != "" {
		return o.what
	}
	at := attrsOf(r.inst.Instance)
	for _, t := range c.Tasks {
		e, hasErr := at["_E."+t.ID].(map[string]interface{})
		n := t.N
		if t.Kind == "plain" || t.Kind == "dowhile" && n < 1 {
			n = 1
		}
		if untouched(t.ID) {
			if o.calls[t.ID] != 0 {
				return fmt.Sprintf("the activity of task %s was executed %d times although it is skipped or mocked", t.ID, o.calls[t.ID])
			}
			_, inOK := o.input(t)
			if t.Mock == "exception" && n > 0 && inOK && (!hasErr || e["message"] != "mocked failure "+t.ID) {
				return fmt.Sprintf("task %s is mocked to fail but its error is %v", t.ID, at["_E."+t.ID])
			}
		} else {
			s, ran := o.last[t.ID]
			_, inOK := o.input(t)
			if !ran && n > 0 && inOK {
				return fmt.Sprintf("task %s was never executed", t.ID)
			}
			innerFails := s.K == "wait" && s.Inner == "err" && !c.skips("A") && !c.mocksInner()
			failed := ran && t.fails(s, innerFails)
			st := -1
			for _, e := range r.events {
				if e.K == "task" && e.Sub == 0 && e.Task == t.ID {
					st = e.St
				}
			}
			if failed && (st != 100 || !hasErr) {
				return fmt.Sprintf("task %s failed (%s) but ended with status %d and error %v", t.ID, js(s), st, at["_E."+t.ID])
			}
			if x := ics["main-"+t.ID]; x != nil {
				want := support.NotExecuted
				if failed {
					want = support.Fail
				} else if ran {
					want = support.Pass
				}
				if x.Result != want {
					return fmt.Sprintf("task %s is reported with result %d, expected %d (last: %s)", t.ID, x.Result, want, js(s))
				}
				if failed && x.Message == "" {
					return fmt.Sprintf("task %s is reported as failed without a message", t.ID)
				}
			}
		}
		if x := ics["main-"+t.ID]; x != nil && untouched(t.ID) {
			want := support.Mocked
			_, inOK := o.input(t)
			if t.Skip || n == 0 || !inOK {
				want = support.NotExecuted
			}
			if x.Result != want {
				return fmt.Sprintf("task %s is reported with result %d, expected %d (skipped or mocked)", t.ID, x.Result, want)
			}
		}
	}
	if want := len(o.inner); !c.skips("A") && !c.mocksInner() && o.calls["inner"] != want {
		return fmt.Sprintf("task A of the subflow was executed %d times, expected %d", o.calls["inner"], want)
	}
	if (c.skips("A") || c.mocksInner()) && o.calls["inner"] != 0 {
		return fmt.Sprintf("task A of the subflow was executed %d times although it is skipped or mocked", o.calls["inner"])
	}
	for id, x := range ics {
		if id == c.Other && x.Result != 0 {
			return "an interceptor for an unknown task was reported as used"
		}
	}
	return ""
}

var outCtr int

func randOut(g *rand.Rand, keys []string) map[string]interface{} {
	m := map[string]interface{}{}
	for _, k := range keys {
		outCtr++
		m[k] = fmt.Sprintf("%s%d", k, outCtr)
		switch g.Intn(8) {
		case 0:
			m[k] = nil
		case 1:
			m[k] = map[string]interface{}{"v": outCtr}
		}
	}
	return m
}

func randKeys(g *rand.Rand) []string {
	var ks []string
	for _, k := range []string{"out", "out2", "extra"} {
		if g.Intn(4) != 0 {
			ks = append(ks, k)
		}
	}
	return ks
}

func randOutCase(g *rand.Rand) *outCase {
	c := &outCase{}
	ids := []string{"A", "B", "C"}[:1+g.Intn(3)]
	for i, id := range ids {
		t := &outTask{ID: id, Kind: []string{"plain", "plain", "iterator", "dowhile"}[g.Intn(4)]}
		if t.Kind != "plain" {
			t.N = g.Intn(5)
			t.Acc = g.Intn(2) == 0
		}
		if i > 0 && g.Intn(3) > 0 {
			t.Reads = ids[g.Intn(i)]
		}
		for n := 0; n < 1+g.Intn(4); n++ {
			s := outStep{K: []string{"ok", "ok", "ok", "ok", "wait", "wait", "err", "plain", "panic"}[g.Intn(9)], Out: randOut(g, randKeys(g))}
			if s.K == "wait" {
				s.Inner = []string{"ok", "return", "err"}[g.Intn(3)]
				s.Post = []string{"ok", "ok", "err", "panic"}[g.Intn(4)]
				if s.Inner == "return" {
					s.Ret = randOut(g, []string{"out", "more"})
				}
				s.POut = randOut(g, randKeys(g))
			}
			t.Steps = append(t.Steps, s)
		}
		if prop == "C18" {
			switch g.Intn(8) {
			case 0:
				t.PatchI = "literal"
			case 1:
				t.PatchI = "expr"
			case 2:
				t.PatchO = true
			}
			t.Skip = g.Intn(6) == 0
			t.InSet = g.Intn(5) == 0
			t.Mock = []string{"", "", "watch", "watch", "outputs", "mock", "mock", "exception"}[g.Intn(8)]
			if t.Skip && t.Mock == "exception" {
				t.Mock = "mock"
			}
			if t.Mock == "outputs" || t.Mock == "mock" {
				t.MockO = randOut(g, append(randKeys(g), "mo"))
			}
			if t.PatchO { // a failing patched mapper is left to the proof
				for i := range t.Steps {
					if t.Steps[i].K != "ok" {
						t.Steps[i] = outStep{K: "ok", Out: t.Steps[i].Out}
					}
					t.Steps[i].Out["out"] = fmt.Sprintf("o%d", i)
				}
				t.Skip = false
				if t.Mock == "mock" {
					t.Mock, t.MockO = "mock", map[string]interface{}{"out": "mo"}
				}
			}
		}
		c.Tasks = append(c.Tasks, t)
	}
	if c.Tasks[0].PatchO { // the subflow's task A has that mapper as well
		for _, t := range c.Tasks {
			for i := range t.Steps {
				if t.Steps[i].Inner == "return" {
					t.Steps[i].Inner = "ok"
				}
			}
		}
	}
	if prop == "C18" {
		if g.Intn(3) == 0 {
			c.Inner = &outTask{ID: "A", Mock: []string{"mock", "watch"}[g.Intn(2)], MockO: map[string]interface{}{"out": "mocked inner"}}
		}
		c.Coverage = g.Intn(2) == 0
		c.Other = []string{"", "Z", "main-Z", "inner-B", "mainA", "a"}[g.Intn(6)]
	}
	return c
}

func TestOutputs(t *testing.T) {
	if !want("C12", "C18") {
		t.Skip()
	}
	for i := 0; i < scale(2500, 30000); i++ {
		g := rng("outputs", i)
		c := randOutCase(g)
		what := checkOutputs(c)
		ran("random chain of activities", c, js(c), true)
		if what != "" {
			violated(t, "random chain of activities", c, "%s", what)
			return
		}
	}
	rep.Rule = "random chains of up to three tasks (plain, iterator, do-while, accumulating or not) whose activities succeed, wait for a subflow, fail or panic and set random outputs" +
		map[string]string{"C18": ", with a random interceptor (skip, inputs, mocked outputs or error, watch only) and patch", "C12": ""}[prop] +
		"; the flow's data is compared with the description after every step; distinct by description"
}
