package zzverif

// C14: random flow interfaces, inputs, returns and replies, with subflows; results and inputs are compared
// with the description, while the flow is being looked at by listeners and by early requests for its result.

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/project-flogo/core/activity"
	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support/event"
)

type ioCase struct {
	Declared map[string]interface{} // declared inputs with defaults
	Given    map[string]interface{}
	Outputs  []string
	Fixed    map[string]interface{}   `json:",omitempty"` // outputs with a fixed value
	Writes   []map[string]interface{} // what each of the tasks A, B, C writes into the flow
	Return   int                      // task that returns (-1: none)
	RetData  map[string]interface{}   `json:",omitempty"`
	RetErr   bool                     `json:",omitempty"`
	Reply    int
	Listen   bool
	Early    bool
	Sub      *ioCase `json:",omitempty"` // task S calls this flow with inputs Sub.Given
}

type ioAct struct {
	o    *ioRun
	c    *ioCase
	n    int
	flow string
}

type ioRun struct {
	r    *Run
	what string
	seen map[string]map[string]interface{} // flow -> values at its first task
	subs map[string]interface{}            // outputs of the calling task when it is resumed
}

func (o *ioRun) fail(f string, a ...interface{}) {
	if o.what == "" {
		o.what = fmt.Sprintf(f, a...)
	}
}

type nullResult struct{}

func (nullResult) HandleResult(map[string]interface{}, error) {}
func (nullResult) Done()                                      {}

func (a *ioAct) Eval(ctx activity.Context) (bool, error) {
	h := ctx.ActivityHost().(*instance.Instance)
	if a.n == 0 {
		m := map[string]interface{}{}
		for k, v := range attrsOf(h) {
			m[k] = v
		}
		a.o.seen[a.flow] = m
		a.o.ctx(h, a.flow)
	}
	for k, v := range a.c.Writes[a.n] {
		_ = h.SetValue(k, v)
	}
	if a.c.Reply == a.n {
		h.Reply(map[string]interface{}{"replied": a.n}, nil)
	}
	if a.c.Return == a.n {
		var err error
		if a.c.RetErr {
			err = errors.New("returned error")
		}
		h.Return(a.c.RetData, err)
	}
	return true, nil
}
func (a *ioAct) PostEval(ctx activity.Context, ud interface{}) (bool, error) { return true, nil }

// ctx checks the flow context of an instance
func (o *ioRun) ctx(h *instance.Instance, flow string) {
	exp := map[string]interface{}{"FlowName": "main", "FlowId": "I1", "ParentFlowName": "", "ParentFlowId": ""}
	if flow == "inner" {
		exp = map[string]interface{}{"FlowName": "inner", "FlowId": "I1-1", "ParentFlowName": "main", "ParentFlowId": "I1"}
	}
	for k, w := range exp {
		if v, _ := h.GetValue("_fctx." + k); v != w {
			o.fail("flow %s: context value %s is %v, expected %v", flow, k, v, w)
		}
	}
}

type subAct struct {
	o *ioRun
	c *ioCase
}

func (s *subAct) Eval(ctx activity.Context) (bool, error) {
	return false, instance.StartSubFlow(ctx, "flow:inner", s.c.Sub.Given)
}
func (s *subAct) PostEval(ctx activity.Context, ud interface{}) (bool, error) {
	ti := ctx.(*instance.TaskInst)
	s.o.subs = map[string]interface{}{}
	for k, v := range peek(ti, "outputs").Interface().(map[string]interface{}) {
		s.o.subs[k] = v
	}
	return true, nil
}

type ioListener struct{ n int }

func (l *ioListener) HandleEvent(c *coreevent.Context) error {
	if e, ok := c.GetEvent().(event.FlowEvent); ok {
		l.n += len(e.FlowOutput()) + len(e.FlowInput())
	}
	return nil
}

var listening bool

// listen registers the listener for the rest of the run (core's publisher does not take well to being stopped often)
func listen() {
	if !listening {
		listening = true
		_ = coreevent.RegisterListener("io", &ioListener{}, []string{event.FlowEventType, event.TaskEventType})
	}
}

// result of one flow on its own; forced tells that it ended at the returning task
func (c *ioCase) result(initial map[string]interface{}, handler bool) (res map[string]interface{}) {
	at := map[string]interface{}{}
	for k, v := range initial {
		at[k] = v
	}
	var ret map[string]interface{}
	for n, w := range c.Writes {
		for k, v := range w {
			at[k] = v
		}
		if c.Reply == n && handler {
			ret = map[string]interface{}{"replied": n}
		}
		if c.Return == n {
			ret = c.RetData
			break
		}
	}
	if ret != nil {
		return ret
	}
	if c.Outputs == nil && c.Declared == nil {
		return nil
	}
	res = map[string]interface{}{}
	for _, k := range c.Outputs {
		if v, ok := at[k]; ok {
			res[k] = v
		}
		if f, ok := c.Fixed[k]; ok && f != nil {
			res[k] = f
		}
	}
	return res
}

func (c *ioCase) flow(name string) *Flow {
	f := &Flow{Name: name, Inputs: c.Declared, Outputs: c.Outputs, Fixed: c.Fixed}
	for i := range c.Writes {
		id := string(rune('A' + i))
		f.Tasks = append(f.Tasks, &Task{ID: id})
		if i > 0 {
			f.Links = append(f.Links, &Link{From: string(rune('A' + i - 1)), To: id, Type: "dependency"})
		}
	}
	return f
}

func checkIO(c *ioCase) string {
	o := &ioRun{seen: map[string]map[string]interface{}{}}
	f := c.flow("main")
	flows := []*Flow{f}
	if c.Sub != nil {
		flows = append(flows, c.Sub.flow("inner"))
		// S comes before A
		f.Tasks = append(f.Tasks, &Task{ID: "S"})
		f.Links = append(f.Links, &Link{From: "S", To: "A", Type: "dependency"})
	}
	r, err := newRun(flows, state.RecordingModeOff, nil)
	if err != nil {
		return err.Error()
	}
	o.r = r
	r.task = map[string]activityLike{"main/S": &subAct{o, c}}
	for i := range c.Writes {
		r.task["main/"+string(rune('A'+i))] = &ioAct{o, c, i, "main"}
	}
	if c.Sub != nil {
		for i := range c.Sub.Writes {
			r.task["inner/"+string(rune('A'+i))] = &ioAct{o, c.Sub, i, "inner"}
		}
	}
	if c.Listen {
		listen()
	}
	handler := c.Reply >= 0
	if handler {
		r.inst.SetResultHandler(nullResult{})
	}
	given := map[string]interface{}{}
	for k, v := range c.Given {
		given[k] = v
	}
	if err := r.start(given); err != nil {
		return err.Error()
	}
	early := func() {
		if c.Early {
			r.inst.GetReturnData()
			for _, s := range subflowsOf(r.inst) {
				s.GetReturnData()
			}
		}
	}
	early()
	if err := r.steps(50, func(int) { early() }); err != nil {
		return err.Error()
	}
	if o.what != "" {
		return o.what
	}
	if st := r.inst.Status(); st != model.FlowStatusCompleted {
		return fmt.Sprintf("the flow ended with status %v", st)
	}
	inputs := func(c *ioCase, flow string) string {
		seen := o.seen[flow]
		for k, v := range c.Given {
			if got, ok := seen[k]; !ok || !reflect.DeepEqual(got, v) {
				return fmt.Sprintf("flow %s: the given input %s is %v (%v), expected %v", flow, k, got, ok, v)
			}
		}
		for k, v := range c.Declared {
			if _, given := c.Given[k]; given {
				continue
			}
			if got, ok := seen[k]; !ok || !reflect.DeepEqual(got, v) {
				return fmt.Sprintf("flow %s: the input %s that was not given is %v (%v), expected its default %v", flow, k, got, ok, v)
			}
		}
		return ""
	}
	if w := inputs(c, "main"); w != "" {
		return w
	}
	for i := 0; i < 2; i++ {
		got, err := r.inst.GetReturnData()
		want := c.result(o.seen["main"], handler)
		if !reflect.DeepEqual(got, want) && !(len(got) == 0 && len(want) == 0) {
			return fmt.Sprintf("the result of the flow is %v, expected %v", js(got), js(want))
		}
		if (err != nil) != (c.RetErr && c.Return >= 0) {
			return fmt.Sprintf("the error of the flow is %v, expected one: %v", err, c.RetErr)
		}
	}
	if c.Sub != nil {
		if w := inputs(c.Sub, "inner"); w != "" {
			return w
		}
		want := c.Sub.result(o.seen["inner"], false)
		if !reflect.DeepEqual(o.subs, want) && !(len(o.subs) == 0 && len(want) == 0) {
			return fmt.Sprintf("the calling task received %v from the subflow, expected %v", js(o.subs), js(want))
		}
		if !reflect.DeepEqual(given, c.Given) && len(given)+len(c.Given) > 0 {
			return fmt.Sprintf("the given inputs were changed to %v", js(given))
		}
	}
	return ""
}

var ioNames = []string{"a", "b", "c", "d", "e"}

func randVals(g *rand.Rand, p int) map[string]interface{} {
	m := map[string]interface{}{}
	for _, k := range ioNames {
		if g.Intn(p) == 0 {
			m[k] = randScopeVal(g, g.Intn(1000))
		}
	}
	return m
}

func randIO(g *rand.Rand, sub, listen bool) *ioCase {
	c := &ioCase{Return: -1, Reply: -1}
	if g.Intn(5) > 0 {
		c.Declared = randVals(g, 2)
	}
	c.Given = randVals(g, 2)
	if g.Intn(5) > 0 {
		c.Outputs = []string{}
		for _, k := range ioNames {
			if g.Intn(2) == 0 {
				c.Outputs = append(c.Outputs, k)
				if g.Intn(8) == 0 {
					if c.Fixed == nil {
						c.Fixed = map[string]interface{}{}
					}
					c.Fixed[k] = "fixed " + k
				}
			}
		}
	}
	for i := 0; i < 1+g.Intn(3); i++ {
		c.Writes = append(c.Writes, randVals(g, 3))
	}
	if g.Intn(3) == 0 {
		c.Return = g.Intn(len(c.Writes))
		if g.Intn(4) > 0 {
			c.RetData = randVals(g, 2)
		}
		c.RetErr = !sub && g.Intn(4) == 0
	}
	if !sub {
		if g.Intn(5) == 0 {
			c.Reply = g.Intn(len(c.Writes))
		}
		c.Listen = listen
		c.Early = g.Intn(2) == 0
		if g.Intn(2) == 0 {
			c.Sub = randIO(g, true, false)
		}
	}
	return c
}

func TestInOut(t *testing.T) {
	if !want("C14") {
		t.Skip()
	}
	n := scale(2500, 30000)
	for i := 0; i < n; i++ {
		c := randIO(rng("inout", i), false, i >= n/2)
		what := checkIO(c)
		ran("random interface", c, js(c), true)
		if what != "" {
			violated(t, "random interface", c, "%s", what)
			return
		}
	}
	rep.Rule = "random declared inputs and outputs, given inputs, writes, returns and replies of a flow and of a subflow it calls, with and without listeners and early requests for the result; distinct by description"
}
