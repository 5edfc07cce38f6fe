package zzverif

// C13: random writes and reads on the scopes of several real flow instances and tasks, compared with plain maps.

import (
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/project-flogo/core/data"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/state"
)

type scopeOp struct {
	Op   string
	Inst int
	Task string `json:",omitempty"`
	Name string
	Val  interface{} `json:",omitempty"`
}

type scopeModel struct {
	inst *instance.Instance
	vals map[string]interface{}
	work map[string]map[string]interface{}
}

var scopeNames = []string{"a", "b", "A", "out", "", "iteration", "_W.a", "_W.iteration", "_A.T1.out", "_A.T1", "_A.T2.out", "_A.T1.out2", "_A.T", "_E", "_E.T1", "_E.T2", "_fctx.FlowName", "_fctx.X", "W.a", "_W", "x.y", "名"}

func (m *scopeModel) task(id string) *instance.TaskInst {
	ti, _ := m.inst.FindOrCreateTaskInst(m.inst.FlowDefinition().GetTask(id))
	return ti
}

func (m *scopeModel) scope(task string) data.Scope {
	if task == "" || m.work[task] == nil {
		return m.inst
	}
	return m.task(task).GetWorkingDataScope()
}

func (m *scopeModel) lookup(task, name string) (interface{}, bool) {
	if task != "" && m.work[task] != nil && len(name) >= 3 && name[:3] == "_W." {
		v, ok := m.work[task][name[3:]]
		return v, ok
	}
	v, ok := m.vals[name]
	return v, ok
}

func randScopeVal(g *rand.Rand, n int) interface{} {
	switch g.Intn(6) {
	case 0:
		return nil
	case 1:
		return map[string]interface{}{"p": n, "message": fmt.Sprint("m", n)}
	case 2:
		return []interface{}{n}
	case 3:
		return n
	}
	return fmt.Sprint("v", n)
}

func checkScopes(g *rand.Rand) (ops []scopeOp, what string) {
	f := &Flow{Name: "main", Tasks: []*Task{{ID: "T1"}, {ID: "T2"}}}
	var ms []*scopeModel
	for i := 0; i < 2; i++ {
		r, err := newRun([]*Flow{f, {Name: "inner", Tasks: []*Task{{ID: "T1"}, {ID: "T2"}}}}, state.RecordingModeOff, nil)
		if err != nil {
			return nil, err.Error()
		}
		r.script["main/T1"] = []Outcome{{Kind: "sub", Flow: "flow:inner", In: map[string]interface{}{"a": "given"}}}
		r.script["main/T2"] = []Outcome{{Kind: "sub", Flow: "flow:inner", In: map[string]interface{}{"b": "given2"}}}
		if err := r.start(map[string]interface{}{"a": "start"}); err != nil {
			return nil, err.Error()
		}
		for k := 0; k < 2; k++ { // both tasks start a subflow
			if err := guarded(20e9, func() { r.inst.DoStep() }); err != nil {
				return nil, err.Error()
			}
		}
		add := func(in *instance.Instance) {
			m := &scopeModel{inst: in, vals: map[string]interface{}{}, work: map[string]map[string]interface{}{}}
			for k, v := range attrsOf(in) {
				m.vals[k] = v
			}
			ms = append(ms, m)
		}
		add(r.inst.Instance)
		subs := subflowsOf(r.inst)
		for _, s := range subs {
			add(s)
		}
	}
	res := definition.GetDataResolver()
	checkName := func(i int, task, name string) string {
		m := ms[i]
		v, ok := m.scope(task).GetValue(name)
		wv, wok := m.lookup(task, name)
		if ok != wok || ok && !reflect.DeepEqual(v, wv) {
			return fmt.Sprintf("flow %d task %q: %q reads %v (%v), expected %v (%v)", i, task, name, v, ok, wv, wok)
		}
		return ""
	}
	checkRef := func(i int, task, ref, name, prop string) string {
		m := ms[i]
		v, err := func() (v interface{}, err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("%v", x)
				}
			}()
			return res.Resolve(ref, m.scope(task))
		}()
		wv, wok := m.lookup(task, name)
		if wok && prop != "" {
			mm, isMap := wv.(map[string]interface{})
			if !isMap {
				return ""
			}
			wv, wok = mm[prop]
			if !wok {
				return ""
			}
		}
		if (err == nil) != wok || wok && !reflect.DeepEqual(v, wv) {
			return fmt.Sprintf("flow %d task %q: reference %s resolves to %v (error %v), expected %v (present: %v)", i, task, ref, v, err, wv, wok)
		}
		return ""
	}
	refs := [][3]string{{"$.a", "a", ""}, {"$.out", "out", ""}, {"$flow.b", "b", ""}, {"$activity[T1].out", "_A.T1.out", ""}, {"$activity[T1]", "_A.T1", ""}, {"$activity[T2].out", "_A.T2.out", ""}, {"$activity[T1].out2", "_A.T1.out2", ""},
		{"$activity[T1].out.p", "_A.T1.out", "p"}, {"$error", "_E", ""}, {"$error.message", "_E", "message"}, {"$error[T1]", "_E.T1", ""}, {"$error[T1].message", "_E.T1", "message"}, {"$error[T2]", "_E.T2", ""},
		{"$flowctx[FlowName]", "_fctx.FlowName", ""}, {"$flowctx[X]", "_fctx.X", ""}, {"$iteration[p]", "_W.iteration", "p"}, {"$iteration[message]", "_W.iteration", "message"}}
	for n := 0; n < 25; n++ {
		o := scopeOp{Inst: g.Intn(len(ms)), Name: scopeNames[g.Intn(len(scopeNames))], Val: randScopeVal(g, n)}
		m := ms[o.Inst]
		o.Op = []string{"set", "set", "work", "work", "scopeset", "update", "getwork"}[g.Intn(7)]
		if o.Op != "set" && o.Op != "update" {
			o.Task = []string{"T1", "T2"}[g.Intn(2)]
		}
		ops = append(ops, o)
		switch o.Op {
		case "set":
			if err := m.inst.SetValue(o.Name, o.Val); err != nil {
				return ops, err.Error()
			}
			m.vals[o.Name] = o.Val
		case "update":
			u := map[string]interface{}{o.Name: o.Val, "u": n}
			m.inst.UpdateAttrs(u)
			m.vals[o.Name], m.vals["u"] = o.Val, n
		case "work":
			m.task(o.Task).SetWorkingData(o.Name, o.Val)
			if m.work[o.Task] == nil {
				m.work[o.Task] = map[string]interface{}{}
			}
			m.work[o.Task][o.Name] = o.Val
		case "scopeset":
			_ = m.scope(o.Task).SetValue(o.Name, o.Val)
			m.vals[o.Name] = o.Val
		case "getwork":
			v, ok := m.task(o.Task).GetWorkingData(o.Name)
			wv, wok := m.work[o.Task][o.Name]
			if ok != wok || ok && !reflect.DeepEqual(v, wv) {
				return ops, fmt.Sprintf("working data %q of %s reads %v (%v), expected %v (%v)", o.Name, o.Task, v, ok, wv, wok)
			}
		}
		for i := range ms {
			task := []string{"", "T1", "T2"}[g.Intn(3)]
			for _, nm := range scopeNames {
				if w := checkName(i, task, nm); w != "" {
					return ops, fmt.Sprintf("after %s: %s", js(o), w)
				}
			}
			for _, r := range refs {
				if w := checkRef(i, task, r[0], r[1], r[2]); w != "" {
					return ops, fmt.Sprintf("after %s: %s", js(o), w)
				}
			}
		}
	}
	return ops, ""
}

func TestScopes(t *testing.T) {
	if !want("C13") {
		t.Skip()
	}
	for i := 0; i < scale(400, 8000); i++ {
		ops, what := checkScopes(rng("scopes", i))
		ran("random writes and reads", ops, js(ops), true)
		if what != "" {
			violated(t, "random writes and reads", ops, "%s", what)
			return
		}
	}
	rep.Rule = "random sequences of 25 writes (flow values, working data of tasks, bulk updates) on two running flows with two subflows each; after every write all names and references are read in every flow and compared with plain maps; distinct by sequence"
}
