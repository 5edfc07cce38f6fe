package zzverif

// C16: flows are run with change recording; the extracted steps are compared with the calls made to the
// recorder and, replayed onto a shadow of the instance, with the instance itself.

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
)

type shadowFlow struct {
	uri    string
	status int
	attrs  map[string]string
	tasks  map[string]int
	links  map[int]int
}

type shadow struct {
	flows map[int]*shadowFlow
	queue map[int]string
}

func newShadowFlow() *shadowFlow {
	return &shadowFlow{attrs: map[string]string{}, tasks: map[string]int{}, links: map[int]int{}}
}

func (s *shadow) apply(step *state.Step) string {
	for k, fc := range step.FlowChanges {
		if fc.SubflowId != k {
			return fmt.Sprintf("the changes of flow %d are recorded as those of %d", k, fc.SubflowId)
		}
		f := s.flows[k]
		if fc.NewFlow {
			if f != nil {
				return fmt.Sprintf("flow %d is recorded as new twice", k)
			}
			f = newShadowFlow()
			f.uri = fc.FlowURI
			s.flows[k] = f
		}
		if f == nil {
			return fmt.Sprintf("a change of flow %d is recorded, which was not recorded as new", k)
		}
		if fc.Status != 0 {
			f.status = fc.Status
		}
		for n, v := range fc.Attrs {
			f.attrs[n] = js(v)
		}
		for n, t := range fc.Tasks {
			if t.ChgType == change.Delete {
				delete(f.tasks, n)
			} else {
				f.tasks[n] = t.Status
			}
		}
		for n, l := range fc.Links {
			if l.ChgType == change.Delete {
				delete(f.links, n)
			} else {
				f.links[n] = l.Status
			}
		}
	}
	for n, q := range step.QueueChanges {
		if q.ChgType == change.Delete {
			delete(s.queue, n)
		} else {
			s.queue[n] = fmt.Sprintf("%d/%s", q.SubflowId, q.TaskId)
		}
	}
	return ""
}

func queueOf(i *instance.IndependentInstance) map[int]string {
	q := map[int]string{}
	l := peek(i, "workItemQueue", "List")
	for e := l.MethodByName("Front").Call(nil)[0]; !e.IsNil(); e = e.MethodByName("Next").Call(nil)[0] {
		w := e.Elem().FieldByName("Value").Interface().(*instance.WorkItem)
		q[w.ID] = fmt.Sprintf("%d/%s", w.SubFlowID, w.TaskID)
	}
	return q
}

// compare the shadow with the instance; tasks given up by an error handler may still be worked on
func (s *shadow) compare(r *Run) string {
	check := func(k int, i *instance.Instance, uri string) string {
		f := s.flows[k]
		if f == nil {
			return fmt.Sprintf("the new flow %d was not recorded", k)
		}
		if f.uri != i.FlowURI() {
			return fmt.Sprintf("flow %d was recorded as %s, it is %s", k, f.uri, i.FlowURI())
		}
		if f.status != int(i.Status()) {
			return fmt.Sprintf("the recorded status of flow %d is %d, it is %d", k, f.status, i.Status())
		}
		at := map[string]string{}
		for n, v := range attrsOf(i) {
			if n != "shared" {
				at[n] = js(v)
			}
		}
		rec := map[string]string{}
		for n, v := range f.attrs {
			if n != "shared" {
				rec[n] = v
			}
		}
		if !reflect.DeepEqual(at, rec) {
			return fmt.Sprintf("the recorded values of flow %d are %v, they are %v", k, rec, at)
		}
		given := peek(i, "isHandlingError").Bool()
		for n, t := range tasksOf(i) {
			if st, ok := f.tasks[n]; !ok || st != int(t.Status()) {
				return fmt.Sprintf("the recorded status of task %s of flow %d is %d (%v), it is %d", n, k, st, ok, t.Status())
			}
		}
		if !given {
			for n := range f.tasks {
				if _, ok := tasksOf(i)[n]; !ok {
					return fmt.Sprintf("the removal of task %s of flow %d was not recorded", n, k)
				}
			}
		}
		for n, l := range linksOf(i) {
			if st, ok := f.links[n]; !ok || st != int(l.Status()) {
				return fmt.Sprintf("the recorded status of link %d of flow %d is %d (%v), it is %d", n, k, st, ok, l.Status())
			}
		}
		for n := range f.links {
			if _, ok := linksOf(i)[n]; !ok {
				return fmt.Sprintf("the removal of link %d of flow %d was not recorded", n, k)
			}
		}
		return ""
	}
	if w := check(0, r.inst.Instance, ""); w != "" {
		return w
	}
	for k, sub := range subflowsOf(r.inst) {
		if w := check(k, sub, ""); w != "" {
			return w
		}
	}
	if q := queueOf(r.inst); !reflect.DeepEqual(q, s.queue) {
		return fmt.Sprintf("the recorded queue is %v, it is %v", s.queue, q)
	}
	return ""
}

// what a step must hold according to the calls made to the recorder
type stepKey struct {
	kind string
	flow int
	id   string
}

func expectStep(evs []Event) map[stepKey]string {
	m := map[stepKey]string{}
	for _, e := range evs {
		switch e.K {
		case "status":
			m[stepKey{"status", e.Sub, ""}] = fmt.Sprint(e.St)
		case "subcreated":
			m[stepKey{"new", e.Sub, ""}] = e.Name
		case "attr":
			m[stepKey{"attr", e.Sub, e.Name}] = js(e.Val)
		case "taskadded":
			m[stepKey{"task", e.Sub, e.Task}] = "0 0"
		case "task":
			m[stepKey{"task", e.Sub, e.Task}] = fmt.Sprintf("1 %d", e.St)
		case "taskremoved":
			m[stepKey{"task", e.Sub, e.Task}] = "2"
		case "linkadded":
			m[stepKey{"link", e.Sub, fmt.Sprint(e.Link)}] = "0 0"
		case "link":
			m[stepKey{"link", e.Sub, fmt.Sprint(e.Link)}] = fmt.Sprintf("1 %d", e.St)
		case "linkremoved":
			m[stepKey{"link", e.Sub, fmt.Sprint(e.Link)}] = "2"
		case "push":
			m[stepKey{"item", e.Sub, fmt.Sprint(e.Link)}] = "0 " + e.Task
		case "pop":
			m[stepKey{"item", e.Sub, fmt.Sprint(e.Link)}] = "2 " + e.Task
		}
	}
	return m
}

func actualStep(s *state.Step) map[stepKey]string {
	m := map[stepKey]string{}
	show := func(c change.Type, st int) string {
		if c == change.Delete {
			return "2"
		}
		return fmt.Sprintf("%d %d", c, st)
	}
	for k, fc := range s.FlowChanges {
		if fc.Status != 0 {
			m[stepKey{"status", k, ""}] = fmt.Sprint(fc.Status)
		}
		if fc.NewFlow && k > 0 {
			m[stepKey{"new", k, ""}] = fc.FlowURI
		}
		for n, v := range fc.Attrs {
			m[stepKey{"attr", k, n}] = js(v)
		}
		for n, t := range fc.Tasks {
			m[stepKey{"task", k, n}] = show(t.ChgType, t.Status)
		}
		for n, l := range fc.Links {
			m[stepKey{"link", k, fmt.Sprint(n)}] = show(l.ChgType, l.Status)
		}
	}
	for n, q := range s.QueueChanges {
		m[stepKey{"item", q.SubflowId, fmt.Sprint(n)}] = fmt.Sprintf("%d %s", q.ChgType, q.TaskId)
	}
	return m
}

type recCase struct {
	Flows []*Flow
	Vars  map[string]interface{}
	Mode  string
	Every int // a step is extracted after that many steps of the flow
}

func checkRecorded(c *recCase) (what string, nontrivial bool) {
	mode := state.RecordingMode(c.Mode)
	instance.EnableChangeTracking(true, mode)
	defer instance.EnableChangeTracking(false, state.RecordingModeOff)
	r, err := newRun(c.Flows, state.RecordingModeOff, nil)
	if err != nil {
		return "", false
	}
	shared := map[string]interface{}{"n": 0}
	vars := map[string]interface{}{"shared": shared}
	for k, v := range c.Vars {
		vars[k] = v
	}
	n := 0
	r.onEval = func(ctx activity.Context, key string) {
		n++
		shared["n"] = n // a value changed in place belongs to the flow, not to the steps already recorded
		h := ctx.ActivityHost().(*instance.Instance)
		_ = h.SetValue(fmt.Sprintf("v%d", n%4), n)
		if n%3 == 0 {
			_ = h.SetValue("shared", shared)
		}
	}
	sh := &shadow{flows: map[int]*shadowFlow{}, queue: map[int]string{}}
	var steps []*state.Step
	var kept []string
	from := 0
	extract := func() string {
		if look := r.inst.CurrentStep(false); look == nil || look != r.inst.CurrentStep(false) {
			return "looking at the current step replaces it"
		}
		before := len(steps)
		step := r.inst.CurrentStep(true)
		if step == nil {
			return "no step is recorded"
		}
		if step.Id != before || step.FlowId != "I1" {
			return fmt.Sprintf("step %d of I1 is recorded as step %d of %s", before, step.Id, step.FlowId)
		}
		exp, act := expectStep(r.events[from:]), actualStep(step)
		from = len(r.events)
		for k, v := range exp {
			if act[k] != v && !(k.id == "shared") {
				return fmt.Sprintf("step %d: %v is recorded as %q, expected %q", before, k, act[k], v)
			}
		}
		for k, v := range act {
			if _, ok := exp[k]; !ok {
				return fmt.Sprintf("step %d: %v is recorded as %q, but was not changed", before, k, v)
			}
		}
		if w := sh.apply(step); w != "" {
			return fmt.Sprintf("step %d: %s", before, w)
		}
		if w := sh.compare(r); w != "" {
			return fmt.Sprintf("after step %d: %s", before, w)
		}
		steps = append(steps, step)
		kept = append(kept, js(step))
		return ""
	}
	if err := r.start(vars); err != nil {
		return "", false // the execution itself is the subject of other properties
	}
	if what = extract(); what != "" {
		return what, true
	}
	err = r.steps(200, func(step int) {
		if step%c.Every == 0 && what == "" {
			what = extract()
		}
	})
	if what != "" {
		return what, true
	}
	if err != nil {
		return "", false
	}
	if what = extract(); what != "" {
		return what, true
	}
	shared["n"] = -1
	for i, s := range steps {
		if js(s) != kept[i] {
			return fmt.Sprintf("the extracted step %d changed afterwards:\n%s\n%s", i, kept[i], js(s)), true
		}
	}
	return "", len(r.events) > 5
}

func TestRecorded(t *testing.T) {
	if !want("C16") {
		t.Skip()
	}
	for i := 0; i < scale(1500, 20000); i++ {
		g := rng("record", i)
		c := &recCase{Mode: []string{"step", "debugger", "full"}[g.Intn(3)], Every: 1 + g.Intn(3)}
		c.Flows, c.Vars = flowCase(g)
		for _, f := range c.Flows {
			if g.Intn(2) == 0 {
				f.Inputs = map[string]interface{}{"dflt": 7, "none": nil}
			}
			for _, x := range f.Tasks {
				if len(x.Script) == 0 && g.Intn(2) == 0 {
					x.Script = []Outcome{{Kind: "ok", Out: map[string]interface{}{"out": randScopeVal(g, g.Intn(9))}}}
				}
				if g.Intn(4) == 0 {
					x.Input = map[string]interface{}{"in": "=$.shared"}
				}
			}
		}
		what, nt := checkRecorded(c)
		ran("random flow with recording", c, js(c), nt)
		if what != "" {
			violated(t, "random flow with recording", c, "%s", what)
			return
		}
	}
	// recording does not change what is executed
	for i := 0; i < scale(600, 5000); i++ {
		g := rng("record-exec", i)
		flows, vars := flowCase(g)
		instance.EnableChangeTracking(true, state.RecordingModeDebugger)
		ms, _, _, err := playFlow(flows, vars)
		instance.EnableChangeTracking(false, state.RecordingModeOff)
		ran("recording does not interfere", flows, js(flows), err == nil)
		if err == nil && len(ms) > 0 {
			if plain, _, _, err := playFlow(flows, vars); err == nil && len(plain) == 0 {
				violated(t, "recording does not interfere", flows, "with recording: %s", ms[0].what)
				return
			}
		}
	}
	rep.Rule = "random flows run with change recording, steps extracted at random points; each step is compared with the calls made to the recorder, replayed onto a shadow instance that is compared with the real one, and compared again at the end; plus runs compared with the reference interpreter while recording"
}

var _ = model.FlowStatusActive
