package zzverif

// C23: snapshots are rebuilt from random sequences of steps and compared with a replay of these steps in
// their order.

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/state/change"
)

type replayed struct {
	status int
	uri    string
	attrs  map[string]string
	tasks  map[string]int
	links  map[int]int
}

// replay of the steps, oldest first; a status of zero says nothing
func replaySteps(steps []*state.Step) map[int]*replayed {
	m := map[int]*replayed{}
	for _, s := range steps {
		for _, fc := range s.FlowChanges {
			f := m[fc.SubflowId]
			if f == nil {
				f = &replayed{attrs: map[string]string{}, tasks: map[string]int{}, links: map[int]int{}}
				m[fc.SubflowId] = f
			}
			if fc.Status != 0 {
				f.status = fc.Status
			}
			if fc.NewFlow {
				f.uri = fc.FlowURI
			}
			for n, v := range fc.Attrs {
				f.attrs[n] = js(v)
			}
			for n, c := range fc.Tasks {
				if _, ok := f.tasks[n]; !ok || c.Status != 0 {
					f.tasks[n] = c.Status
				}
			}
			for n, c := range fc.Links {
				if _, ok := f.links[n]; !ok || c.Status != 0 {
					f.links[n] = c.Status
				}
			}
		}
	}
	return m
}

func compareFlow(id int, e *replayed, b *state.SnapshotBase) string {
	if b == nil {
		return fmt.Sprintf("flow %d has no content", id)
	}
	if e == nil {
		e = &replayed{}
	}
	if b.Status != e.status {
		return fmt.Sprintf("flow %d has the status %d, the latest recorded is %d", id, b.Status, e.status)
	}
	if b.FlowURI != e.uri {
		return fmt.Sprintf("flow %d is of %q, recorded was %q", id, b.FlowURI, e.uri)
	}
	for n, v := range e.attrs {
		a, ok := b.Attrs[n]
		if !ok {
			return fmt.Sprintf("attribute %s of flow %d is missing", n, id)
		}
		if js(a) != v {
			return fmt.Sprintf("attribute %s of flow %d is %s, the latest recorded is %s", n, id, js(a), v)
		}
	}
	for n := range b.Attrs {
		if _, ok := e.attrs[n]; !ok {
			return fmt.Sprintf("attribute %s of flow %d was never recorded", n, id)
		}
	}
	ts := map[string]bool{}
	for _, t := range b.Tasks {
		st, ok := e.tasks[t.Id]
		if ts[t.Id] || !ok {
			return fmt.Sprintf("task %s of flow %d is present twice or was never recorded", t.Id, id)
		}
		ts[t.Id] = true
		if st != t.Status {
			return fmt.Sprintf("task %s of flow %d has the status %d, the latest recorded is %d", t.Id, id, t.Status, st)
		}
	}
	for n := range e.tasks {
		if !ts[n] {
			return fmt.Sprintf("task %s of flow %d is missing", n, id)
		}
	}
	ls := map[int]bool{}
	for _, l := range b.Links {
		st, ok := e.links[l.Id]
		if ls[l.Id] || !ok {
			return fmt.Sprintf("link %d of flow %d is present twice or was never recorded", l.Id, id)
		}
		ls[l.Id] = true
		if st != l.Status {
			return fmt.Sprintf("link %d of flow %d has the status %d, the latest recorded is %d", l.Id, id, l.Status, st)
		}
	}
	for n := range e.links {
		if !ls[n] {
			return fmt.Sprintf("link %d of flow %d is missing", n, id)
		}
	}
	return ""
}

func checkSnapshot(steps []*state.Step) (what string) {
	before := js(steps)
	if err := guarded(20*time.Second, func() {
		exp := replaySteps(steps)
		fs := state.StepsToSnapshot("F", steps)
		if fs == nil || fs.Id != "F" {
			what = "the snapshot is not that of flow instance F"
			return
		}
		if what = compareFlow(0, exp[0], fs.SnapshotBase); what != "" {
			return
		}
		seen := map[int]bool{0: true}
		for _, sf := range fs.Subflows {
			if seen[sf.Id] || exp[sf.Id] == nil {
				what = fmt.Sprintf("subflow %d is present twice or was never recorded", sf.Id)
				return
			}
			seen[sf.Id] = true
			if what = compareFlow(sf.Id, exp[sf.Id], sf.SnapshotBase); what != "" {
				return
			}
		}
		for id := range exp {
			if !seen[id] {
				what = fmt.Sprintf("subflow %d is missing", id)
				return
			}
		}
		if after := js(steps); after != before {
			what = "rebuilding altered the recorded steps:\n" + before + "\n" + after
			return
		}
	}); err != nil {
		return "rebuilding the snapshot panicked: " + err.Error()
	}
	return what
}

func randSteps(g *rand.Rand) []*state.Step {
	var steps []*state.Step
	pool := []int{0, 1 + g.Intn(3), 4 + g.Intn(8)}
	n := g.Intn(6)
	for i := 0; i < n; i++ {
		s := &state.Step{Id: i, FlowId: "F"}
		if g.Intn(6) > 0 {
			s.FlowChanges = map[int]*change.Flow{}
		}
		for _, k := range pool {
			if s.FlowChanges == nil || g.Intn(3) == 0 {
				continue
			}
			fc := &change.Flow{SubflowId: k}
			if g.Intn(3) == 0 {
				fc.Status = []int{100, 500, 600, 700}[g.Intn(4)]
			}
			if i == 0 && g.Intn(3) > 0 {
				fc.NewFlow, fc.FlowURI = true, fmt.Sprintf("res://flow:%d", k)
			}
			if k > 0 && g.Intn(2) == 0 {
				fc.TaskId = "sub"
			}
			if g.Intn(3) > 0 {
				fc.Attrs = map[string]interface{}{}
				for j := 0; j < g.Intn(4); j++ {
					fc.Attrs[fmt.Sprintf("a%d", g.Intn(4))] = []interface{}{nil, i, "x", 0, "", false, []interface{}{i}, map[string]interface{}{"k": i}}[g.Intn(8)]
				}
			}
			if g.Intn(3) > 0 {
				fc.Tasks = map[string]*change.Task{}
				for j := 0; j < g.Intn(4); j++ {
					fc.Tasks[fmt.Sprintf("t%d", g.Intn(4))] = &change.Task{ChgType: change.Type(g.Intn(3)), Status: []int{0, 10, 20, 30, 40, 50, 100}[g.Intn(7)]}
				}
			}
			if g.Intn(3) > 0 {
				fc.Links = map[int]*change.Link{}
				for j := 0; j < g.Intn(4); j++ {
					fc.Links[g.Intn(4)] = &change.Link{ChgType: change.Type(g.Intn(3)), Status: g.Intn(4)}
				}
			}
			s.FlowChanges[k] = fc
		}
		if g.Intn(2) == 0 {
			s.QueueChanges = map[int]*change.Queue{g.Intn(3): {ChgType: change.Type([]int{0, 2}[g.Intn(2)]), SubflowId: 0, TaskId: "t0"}}
		}
		steps = append(steps, s)
	}
	return steps
}

func TestSnapshotFromSteps(t *testing.T) {
	if !want("C23") {
		t.Skip()
	}
	for i := 0; i < scale(20000, 400000); i++ {
		steps := randSteps(rng("snapshot", i))
		ran("random steps", steps, js(steps), len(steps) > 1)
		if w := checkSnapshot(steps); w != "" {
			violated(t, "random steps", steps, "%s", w)
			return
		}
	}
	// the steps recorded by running flows
	for i := 0; i < scale(500, 5000); i++ {
		g := rng("snapshot-run", i)
		flows, vars := flowCase(g)
		every := 1 + g.Intn(3)
		steps := stepsOf(flows, vars, every)
		ran("steps of a random flow", flows, js(flows), len(steps) > 1)
		if w := checkSnapshot(steps); w != "" {
			violated(t, "steps of a random flow", map[string]interface{}{"flows": flows, "vars": vars, "every": every}, "%s", w)
			return
		}
	}
	rep.Rule = "random sequences of steps (several flows, statuses, attributes, tasks and links recorded once or repeatedly) and the steps recorded while random flows run; the rebuilt snapshot is compared with a replay of the steps in their order, and the steps with what they were"
}

func stepsOf(flows []*Flow, vars map[string]interface{}, every int) (steps []*state.Step) {
	instance.EnableChangeTracking(true, state.RecordingModeDebugger)
	defer instance.EnableChangeTracking(false, state.RecordingModeOff)
	r, err := newRun(flows, state.RecordingModeOff, nil)
	if err != nil {
		return nil
	}
	if r.start(vars) != nil {
		return nil
	}
	steps = append(steps, r.inst.CurrentStep(true))
	_ = r.steps(200, func(step int) {
		if step%every == 0 {
			steps = append(steps, r.inst.CurrentStep(true))
		}
	})
	return append(steps, r.inst.CurrentStep(true))
}
