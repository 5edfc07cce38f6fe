package zzverif

// C20: what the caller of a flow action is given, in processes of their own with different step limits, with and without
// concurrent execution. The reference is an instance of the same flow run step by step.

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/ondemand"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
)

type resCase struct {
	Flows     []*Flow                `json:"flows,omitempty"`
	Vars      map[string]interface{} `json:"vars,omitempty"`
	OnDemand  bool                   `json:"ondemand,omitempty"`
	Explicit  bool                   `json:"explicitReply,omitempty"`
	NoOptions bool                   `json:"noOptions,omitempty"`
	ReturnID  bool                   `json:"returnID,omitempty"`
	Keep      string                 `json:"preservedInstanceId,omitempty"`
	Detach    bool                   `json:"detach,omitempty"`
	Resume    int                    `json:"resumeAfter,omitempty"`  // steps made before the instance is handed over (OpResume)
	Restart   int                    `json:"restartAfter,omitempty"` // the same, saved and loaded (OpRestart)
	InitStep  int                    `json:"initStep,omitempty"`
	Bad       string                 `json:"bad,omitempty"` // an invalid request
	Chain     bool                   `json:"chain,omitempty"` // the order of the tasks is determined
}

type resBatch struct {
	Cases []resCase `json:"cases"`
	Limit int       `json:"limit"`
	Conc  bool      `json:"concurrent"`
}

func (h *resHandler) snapshot() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]string{}, h.log...)
}

// one runs a case and describes how it differs from what is expected, or "".
func (c *resCase) one(limit int, conc bool, seen map[string]bool) string {
	bg := context.Background()
	h := &resHandler{done: make(chan struct{}, 9)}
	refused := func(err error) string {
		time.Sleep(2 * time.Millisecond)
		if err == nil {
			return "an invalid request (" + c.Bad + ") is accepted"
		}
		if l := h.snapshot(); len(l) > 0 {
			return "a refused request (" + c.Bad + ") delivers " + js(l)
		}
		return ""
	}
	opts := &instance.RunOptions{ReturnID: c.ReturnID, PreservedInstanceId: c.Keep, DetachExecution: c.Detach, InitStepId: c.InitStep}
	if c.Bad != "" && (c.Bad != "options" || c.OnDemand) {
		if c.OnDemand {
			in := map[string]interface{}{}
			switch c.Bad {
			case "json":
				in["flowPackage"] = json.RawMessage("{\"flow\": 3")
			case "type":
				in["flowPackage"] = 3
			case "noflow":
				in["flowPackage"] = json.RawMessage("{\"inputs\": {}}")
			case "badflow":
				in["flowPackage"] = json.RawMessage(`{"flow": {"name":"X","tasks":[{"id":"A","activity":{"ref":"no/such"}}]}}`)
			}
			return refused((&ondemand.FlowAction{}).Run(bg, in, h))
		}
		a := &flow.FlowAction{}
		switch c.Bad {
		case "unknown":
			opts.FlowURI = "flow:nosuch"
		case "restart":
			opts.Op, opts.FlowURI = instance.OpRestart, "flow:M"
		case "resume":
			opts.Op, opts.FlowURI = instance.OpResume, "flow:M"
		case "restart-unresolved":
			opts.Op, opts.FlowURI = instance.OpRestart, "flow:M"
			opts.InitialState = &instance.IndependentInstance{}
			_ = json.Unmarshal([]byte(`{"id":"7","flowUri":"flow:nosuch","tasks":[],"links":[],"workQueue":[]}`), opts.InitialState)
		case "op":
			opts.Op, opts.FlowURI = 3, "flow:M"
		}
		in := map[string]interface{}{"_run_options": opts}
		if c.Bad == "nouri" {
			in = map[string]interface{}{}
		}
		return refused(a.Run(bg, in, h))
	}

	vars := func() map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range c.Vars {
			m[k] = v
		}
		return m
	}
	// the reference
	r, err := newRun(c.Flows, state.RecordingModeOff, nil)
	if err != nil {
		return ""
	}
	rh := &resHandler{done: make(chan struct{}, 9)}
	r.inst.SetResultHandler(rh)
	r.inst.Start(vars())
	n := 0
	if c.Restart > 0 && c.InitStep > 0 {
		n = c.InitStep - 1
	}
	before := c.Resume + c.Restart
	for i := 0; i < before && r.inst.DoStep(); i++ {
	}
	if before > 0 && r.inst.Status() >= model.FlowStatusCompleted {
		return ""
	}
	if before > 0 {
		rh.log = nil
	}
	more := true
	for more && r.inst.Status() < model.FlowStatusCompleted && n < limit {
		n++
		more = r.inst.DoStep()
	}
	final := ""
	switch {
	case r.inst.Status() == model.FlowStatusCompleted:
		d, err := r.inst.GetReturnData()
		final = "data " + js(d)
		if err != nil {
			final = "error " + err.Error()
		}
	case r.inst.Status() == model.FlowStatusFailed:
		final = "error " + r.inst.GetError().Error()
	case n >= limit:
		final = "limit"
	}
	replies := append([]string{}, rh.log...)
	withID := c.ReturnID && !c.OnDemand && !c.NoOptions || c.OnDemand && !c.Explicit

	// the action
	base := 0
	r2, err := newRun(c.Flows, state.RecordingModeOff, nil)
	if err != nil {
		return "harness: " + err.Error()
	}
	in := vars()
	if !c.NoOptions {
		in["_run_options"] = opts
	}
	if c.OnDemand {
		rep := c.Flows[0].rep()
		rep.ExplicitReply = c.Explicit
		b, err := json.Marshal(rep)
		if err != nil {
			return "harness: " + err.Error()
		}
		ins := map[string]interface{}{}
		for k, v := range c.Vars {
			if s, ok := v.(string); !ok || !strings.HasPrefix(s, "=") {
				ins[k] = v
			}
		}
		p, _ := json.Marshal(map[string]interface{}{"inputs": ins, "flow": json.RawMessage(b)})
		err = (&ondemand.FlowAction{}).Run(bg, map[string]interface{}{"flowPackage": json.RawMessage(p)}, h)
		if err != nil {
			return "harness: refused: " + err.Error()
		}
	} else {
		def, err := definition.NewDefinition(c.Flows[0].rep())
		if err != nil {
			return "harness: " + err.Error()
		}
		support.InitDefaultDefLookup(support.NewFlowManager(provider{}), resource.NewManager(map[string]*resource.Resource{"flow:M": resource.New("flow", def)}))
		a, err := (&flow.ActionFactory{}).New(&action.Config{Settings: map[string]interface{}{"flowURI": "res://flow:M"}})
		if err != nil {
			return "harness: " + err.Error()
		}
		if before > 0 {
			r2.inst.SetResultHandler(&resHandler{done: make(chan struct{}, 9)})
			r2.inst.Start(vars())
			for i := 0; i < before && r2.inst.DoStep(); i++ {
			}
			base, r2.hosts, r2.replies = r2.inst.StepID(), map[int]*instance.Instance{}, nil
			if r2.inst.Status() >= model.FlowStatusCompleted {
				return ""
			}
			opts.Op, opts.InitialState = instance.OpResume, r2.inst
			in = map[string]interface{}{"_run_options": opts}
			if c.Restart > 0 {
				opts.Op = instance.OpRestart
				b, err := json.Marshal(r2.inst)
				if err != nil {
					return "harness: " + err.Error()
				}
				ni := &instance.IndependentInstance{}
				if err := json.Unmarshal(b, ni); err != nil {
					return "harness: " + err.Error()
				}
				opts.InitialState = ni
			}
		}
		if err := a.(action.AsyncAction).Run(bg, in, h); err != nil {
			return "a valid request is refused: " + err.Error()
		}
	}
	extra := 1
	if withID {
		extra++
	}
	// what the caller is to be given, from the state of the instance that was run
	expect := func() ([]string, string) {
		exp := []string{}
		if c.Detach {
			exp = append(exp, "done")
		}
		if withID {
			exp = append(exp, "id")
		}
		r2.mu.Lock()
		inst := r2.hosts[0]
		rep := append([]string{}, r2.replies...)
		r2.mu.Unlock()
		exp = append(exp, rep...)
		if inst == nil { // no task of the main flow was run
			if !c.Chain {
				return nil, "-"
			}
			if final != "" {
				exp = append(exp, final)
			}
		} else {
			m := masterOf(inst)
			used := m.StepID() - base
			if c.Restart > 0 {
				used = n
			}
			if c.Restart == 0 && used > limit {
				return nil, fmt.Sprintf("%d steps were made, the limit is %d", used, limit)
			}
			switch {
			case inst.Status() == model.FlowStatusCompleted:
				d, err := inst.GetReturnData()
				if err != nil {
					exp = append(exp, "error "+err.Error())
				} else {
					exp = append(exp, "data "+js(d))
				}
			case inst.Status() == model.FlowStatusFailed:
				exp = append(exp, "error "+inst.GetError().Error())
			case used >= limit:
				exp = append(exp, "limit")
			}
		}
		if !c.Detach {
			exp = append(exp, "done")
		}
		if c.Chain {
			var e1, e2 []string
			kind := func(s string) string {
				if c.OnDemand {
					s = strings.SplitN(s, " ", 2)[0]
				}
				return s
			}
			for _, s := range exp {
				if s != "done" && s != "id" {
					e2 = append(e2, kind(s))
				}
			}
			for _, s := range append(append([]string{}, replies...), final) {
				if s != "" {
					e1 = append(e1, kind(s))
				}
			}
			if js(e1) != js(e2) && (len(e1) > 0 || len(e2) > 0) {
				return nil, fmt.Sprintf("the flow run leads to %s, step by step to %s", js(e2), js(e1))
			}
		}
		return exp, ""
	}
	var exp []string
	what := ""
	limitTime := time.Now().Add(10 * time.Second)
	for !time.Now().After(limitTime) {
		l := h.snapshot()
		if len(l) > 0 && (l[len(l)-1] == "done" && !c.Detach || c.Detach && len(l) >= extra) {
			time.Sleep(3 * time.Millisecond)
			exp, what = expect()
			if what == "" && len(h.snapshot()) >= len(exp) {
				break
			}
			if !c.Detach {
				break
			}
		}
		time.Sleep(200 * time.Microsecond)
	}
	time.Sleep(2 * time.Millisecond)
	exp, what = expect()
	if what == "-" {
		return ""
	}
	if what != "" {
		return what
	}
	got := h.snapshot()
	for i, g := range got {
		if i < len(exp) && exp[i] == "id" {
			var m map[string]interface{}
			if !strings.HasPrefix(g, "data ") || json.Unmarshal([]byte(g[5:]), &m) != nil {
				return fmt.Sprintf("the id is not delivered: %s instead of %s", js(got), js(exp))
			}
			id, _ := m["id"].(string)
			switch {
			case len(m) != 1 || id == "":
				return "the id delivered is " + g
			case c.Keep != "" && !c.OnDemand && c.Resume == 0 && id != c.Keep:
				return "the id delivered is " + id + " instead of " + c.Keep
			case c.Keep == "" && c.Resume == 0 && seen[id]:
				return "the id " + id + " was used before"
			}
			if c.Keep == "" && c.Resume == 0 {
				seen[id] = true
			}
			got[i] = "id"
		}
		if strings.HasPrefix(g, "error ") && strings.Contains(g, "max step count") {
			got[i] = "limit"
		}
	}
	if js(got) != js(exp) {
		return fmt.Sprintf("delivered %s, expected %s", js(got), js(exp))
	}
	return ""
}

func init() {
	children["results"] = func(arg []byte) interface{} {
		var b resBatch
		_ = json.Unmarshal(arg, &b)
		ctx := &initCtx{rm: resource.NewManager(nil), sm: service.NewServiceManager(), set: nil}
		for _, f := range []action.Factory{&flow.ActionFactory{}, &ondemand.ActionFactory{}} {
			if err := f.(interface {
				Initialize(action.InitContext) error
			}).Initialize(ctx); err != nil {
				return []string{"harness: " + err.Error()}
			}
		}
		var out []string
		seen := map[string]bool{}
		for i := range b.Cases {
			out = append(out, b.Cases[i].one(b.Limit, b.Conc, seen))
		}
		return out
	}
}

// a flow without work in parallel, for concurrent execution
func chainCase(g *rand.Rand) ([]*Flow, map[string]interface{}) {
	f := &Flow{Name: "M"}
	n := 1 + g.Intn(6)
	for i := 0; i < n; i++ {
		t := &Task{ID: fmt.Sprintf("T%d", i)}
		switch g.Intn(12) {
		case 0:
			t.Script = []Outcome{{Kind: "plain"}}
		case 1:
			t.Script = []Outcome{{Kind: "return", Out: map[string]interface{}{"r": i}}}
		case 2:
			t.Script = []Outcome{{Kind: "reply", Out: map[string]interface{}{"early": i}}}
		}
		f.Tasks = append(f.Tasks, t)
		if i > 0 {
			f.Links = append(f.Links, &Link{From: fmt.Sprintf("T%d", i-1), To: t.ID})
		}
	}
	if g.Intn(2) == 0 {
		f.Outputs = []string{"t", "o"}
		f.Inputs = map[string]interface{}{"t": 1, "z": 2}
	}
	return []*Flow{f}, map[string]interface{}{"t": true}
}

func genRes(g *rand.Rand, conc bool) resCase {
	var c resCase
	if !conc && g.Intn(12) == 0 {
		c.OnDemand = g.Intn(2) == 0
		if c.OnDemand {
			c.Bad = []string{"none", "json", "noflow", "badflow", "type"}[g.Intn(5)]
		} else {
			c.Bad = []string{"nouri", "unknown", "restart", "resume", "restart-unresolved", "op"}[g.Intn(6)]
		}
		c.ReturnID, c.Detach = g.Intn(2) == 0, g.Intn(3) == 0
		return c
	}
	if conc || g.Intn(3) == 0 {
		c.Flows, c.Vars = chainCase(g)
		c.Chain = true
	} else {
		c.Flows, c.Vars = flowCase(g)
		if g.Intn(4) == 0 {
			c.Flows[0].Outputs = []string{"t", "text", "o"}
			c.Flows[0].Inputs = map[string]interface{}{}
		}
		if len(c.Flows[0].Tasks) > 0 && g.Intn(3) == 0 {
			t := c.Flows[0].Tasks[g.Intn(len(c.Flows[0].Tasks))]
			if len(t.Script) == 0 {
				t.Script = []Outcome{{Kind: []string{"reply", "return"}[g.Intn(2)], Out: map[string]interface{}{"early": g.Intn(9)}}}
			}
		}
	}
	switch g.Intn(8) {
	case 0, 1:
		c.OnDemand, c.Explicit = true, g.Intn(2) == 0
		return c
	case 2:
		c.NoOptions = true
		return c
	}
	c.ReturnID, c.Detach = g.Intn(2) == 0, g.Intn(3) == 0
	if g.Intn(3) == 0 {
		c.Keep = fmt.Sprintf("kept-%d", g.Intn(1000))
	}
	if !conc {
		switch g.Intn(8) {
		case 0:
			c.Resume = 1 + g.Intn(3)
			c.Keep = ""
		case 1:
			c.Flows, c.Vars = chainCase(g)
			c.Chain = true
			for _, t := range c.Flows[0].Tasks { // what was replied is not part of a saved instance
				if len(t.Script) > 0 && t.Script[0].Kind == "reply" {
					t.Script = nil
				}
			}
			c.Restart = 1 + g.Intn(3)
			c.InitStep = c.Restart + 1
		}
	}
	return c
}

// runBatch describes the first case that fails.
func runBatch(b resBatch) (*resCase, string) {
	env := map[string]string{"FLOGO_MAX_STEP_COUNT": fmt.Sprint(b.Limit)}
	if b.Conc {
		env["FLOGO_FLOW_CONCURRENT_TASK_EXECUTION"] = "true"
	}
	var res []string
	err := child("results", b, env, &res)
	if err != nil && len(b.Cases) > 1 {
		for _, c := range b.Cases {
			if fc, what := runBatch(resBatch{[]resCase{c}, b.Limit, b.Conc}); what != "" {
				return fc, what
			}
		}
		return nil, "" // only together, and not again
	}
	if err != nil {
		return &b.Cases[0], "the engine crashed: " + err.Error()
	}
	for i, s := range res {
		if s != "" && !strings.HasPrefix(s, "harness:") {
			return &b.Cases[i], s
		}
	}
	return nil, ""
}

func TestResults(t *testing.T) {
	if !want("C20") {
		return
	}
	rep.Rule = "a request whose flow fails, is cut off at the step limit, is invalid, or is run with options"
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	limits := []int{1000, 1, 2, 3, 4, 6, 1000, 9}
	for i := 0; i < scale(48, 480) && !failedAlready(); i++ {
		g := rng("results", i)
		b := resBatch{Limit: limits[i%len(limits)], Conc: i%4 == 3}
		for k := 0; k < 30; k++ {
			b.Cases = append(b.Cases, genRes(g, b.Conc))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			c, what := runBatch(b)
			for k := range b.Cases {
				x := &b.Cases[k]
				ran("results", x, js(x), x.Bad != "" || b.Limit < 10 || x.ReturnID || x.Detach || x.OnDemand || x.Resume+x.Restart > 0)
			}
			if what != "" {
				violated(t, "results", map[string]interface{}{"case": c, "limit": b.Limit, "concurrent": b.Conc}, "%s", what)
			}
		}()
	}
	wg.Wait()
}
