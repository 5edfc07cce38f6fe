package zzverif

// Flow descriptions, a scripted activity, a recording change tracker and a runner
// for the real engine.

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	_ "github.com/project-flogo/core/data/expression/script"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/model/simple"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
)

// ---------------------------------------------------------------- reporting

type Report struct {
	mu       sync.Mutex
	Prop     string                 `json:"property"`
	Evals    int                    `json:"evaluations"`
	seen     map[string]bool        // distinct non-trivial cases
	Distinct int                    `json:"distinct_nontrivial"`
	Rule     string                 `json:"rule"`
	Samples  []interface{}          `json:"samples"`
	Failure  map[string]interface{} `json:"failure,omitempty"`
	Known    []string               `json:"known,omitempty"`
	Parts    map[string]int         `json:"parts"`
}

var reports = map[string]*Report{}
var prop = os.Getenv("VERIF_PROP")
var seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
var thorough = os.Getenv("VERIF_TIER") == "thorough"

var rep = &Report{Prop: prop, seen: map[string]bool{}, Parts: map[string]int{}}

func scale(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

func want(ps ...string) bool {
	for _, p := range ps {
		if p == prop {
			return true
		}
	}
	return false
}

// ran records one explored case.
func ran(part string, desc interface{}, key string, nontrivial bool) {
	rep.mu.Lock()
	defer rep.mu.Unlock()
	rep.Evals++
	rep.Parts[part]++
	if nontrivial && !rep.seen[part+key] {
		rep.seen[part+key] = true
		rep.Distinct++
		if len(rep.Samples) < 4 || (rep.Parts[part] == 1 && len(rep.Samples) < 12) {
			rep.Samples = append(rep.Samples, map[string]interface{}{"part": part, "case": desc})
		}
	}
}

// violated records the first failing case of this property.
func violated(t *testing.T, part string, desc interface{}, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	rep.mu.Lock()
	if rep.Failure == nil {
		rep.Failure = map[string]interface{}{"part": part, "case": desc, "what": msg}
	}
	rep.mu.Unlock()
	t.Errorf("%s: %s", part, msg)
}

func failedAlready() bool {
	rep.mu.Lock()
	defer rep.mu.Unlock()
	return rep.Failure != nil
}

func TestMain(m *testing.M) {
	log.SetLogLevel(log.RootLogger(), log.ErrorLevel)
	quietLogger()
	childMain()
	code := m.Run()
	if out := os.Getenv("VERIF_OUT"); out != "" {
		b, err := json.MarshalIndent(rep, "", " ")
		if err != nil {
			rep.Samples = nil
			if rep.Failure != nil {
				rep.Failure["case"] = fmt.Sprintf("%+v", rep.Failure["case"])
			}
			b, _ = json.MarshalIndent(rep, "", " ")
		}
		os.MkdirAll(filepath.Dir(out), 0755)
		os.WriteFile(out, b, 0644)
	}
	os.Exit(code)
}

// ---------------------------------------------------------------- activity

type Outcome struct {
	Kind string                 `json:"kind"` // ok, err, retriable, panic, return, replyret, wait, sub
	Out  map[string]interface{} `json:"out,omitempty"`
	Flow string                 `json:"flow,omitempty"` // sub: index of the flow to start
	In   map[string]interface{} `json:"in,omitempty"`
}

type act struct{}

// an activity taking the place of the scripted one for one task
type activityLike interface {
	Eval(ctx activity.Context) (bool, error)
	PostEval(ctx activity.Context, ud interface{}) (bool, error)
}

var actMd = &activity.Metadata{IOMetadata: &metadata.IOMetadata{
	Input: map[string]data.TypedValue{"in": data.NewTypedValue(data.TypeAny, nil), "key": data.NewTypedValue(data.TypeAny, nil),
		"value": data.NewTypedValue(data.TypeAny, nil), "index": data.NewTypedValue(data.TypeAny, nil)},
	Output: map[string]data.TypedValue{"out": data.NewTypedValue(data.TypeAny, nil), "out2": data.NewTypedValue(data.TypeAny, nil)},
}}

func (a *act) Metadata() *activity.Metadata { return actMd }

var cur *Run // the run in progress (runs are sequential)

func (a *act) Eval(ctx activity.Context) (bool, error) {
	r := cur
	host := ctx.ActivityHost().(*instance.Instance)
	key := host.Name() + "/" + taskOf(ctx)
	if a := r.task[key]; a != nil {
		return a.Eval(ctx)
	}
	r.mu.Lock()
	n := r.calls[key]
	r.calls[key]++
	r.event(Event{K: "eval", Sub: subID(host), Task: taskOf(ctx), Val: ctx.GetInput("in")})
	r.mu.Unlock()
	r.mu.Lock()
	r.hosts[subID(host)] = host
	r.mu.Unlock()
	outs := r.script[key]
	o := Outcome{Kind: "ok"}
	if len(outs) > 0 {
		if n >= len(outs) {
			n = len(outs) - 1
		}
		o = outs[n]
	}
	if r.onEval != nil {
		r.onEval(ctx, key)
	}
	switch o.Kind {
	case "err":
		return false, activity.NewError("boom "+key, "E42", map[string]interface{}{"d": 1})
	case "plain":
		return false, errors.New("plain " + key)
	case "retriable":
		return false, activity.NewRetriableError("again "+key, "R1", nil)
	case "panic":
		panic("panic " + key)
	case "wait":
		return false, nil
	case "return":
		host.Return(o.Out, nil)
		return true, nil
	case "reply":
		r.mu.Lock()
		r.replies = append(r.replies, "data "+js(o.Out))
		r.mu.Unlock()
		host.Reply(o.Out, nil)
	case "returnerr":
		host.Return(o.Out, errors.New("returned "+key))
		return true, nil
	case "sub":
		err := instance.StartSubFlow(ctx, o.Flow, o.In)
		return false, err
	}
	for k, v := range o.Out {
		ctx.SetOutput(k, v)
	}
	return true, nil
}

func (a *act) PostEval(ctx activity.Context, ud interface{}) (bool, error) {
	r := cur
	host := ctx.ActivityHost().(*instance.Instance)
	key := host.Name() + "/" + taskOf(ctx)
	if a := r.task[key]; a != nil {
		return a.PostEval(ctx, ud)
	}
	r.mu.Lock()
	r.event(Event{K: "posteval", Sub: subID(host), Task: taskOf(ctx)})
	n := r.pcalls[key]
	r.pcalls[key]++
	r.mu.Unlock()
	outs := r.script["post:"+key]
	if len(outs) == 0 {
		return true, nil
	}
	if n >= len(outs) {
		n = len(outs) - 1
	}
	o := outs[n]
	switch o.Kind {
	case "err":
		return false, activity.NewError("post "+key, "P1", nil)
	case "retriable":
		return false, activity.NewRetriableError("postagain "+key, "P2", nil)
	case "panic":
		panic("postpanic " + key)
	}
	for k, v := range o.Out {
		ctx.SetOutput(k, v)
	}
	return true, nil
}

var actRef string

func init() {
	model.RegisterDefault(simple.New())
	activity.Register(&act{})
	actRef = activity.GetRef(&act{})
	support.InitDefaultDefLookup(support.NewFlowManager(provider{}), resource.NewManager(nil))
}

// flows by URI, for subflows
type provider struct{}

var flowReps = map[string]*definition.DefinitionRep{}

func (provider) GetFlow(uri string) (*definition.DefinitionRep, error) {
	if r, ok := flowReps[uri]; ok {
		return r, nil
	}
	return nil, errors.New("no such flow: " + uri)
}

// ---------------------------------------------------------------- flow descriptions

type Task struct {
	ID       string                 `json:"id"`
	Type     string                 `json:"type,omitempty"`
	Settings map[string]interface{} `json:"settings,omitempty"`
	Input    map[string]interface{} `json:"input,omitempty"`
	Output   map[string]interface{} `json:"output,omitempty"`
	Script   []Outcome              `json:"script,omitempty"`
	Post     []Outcome              `json:"post,omitempty"`
}

type Link struct {
	From  string `json:"from"`
	To    string `json:"to"`
	Type  string `json:"type"`
	Value string `json:"value,omitempty"`
	Label string `json:"label,omitempty"`
}

type Flow struct {
	Name    string                 `json:"name"`
	Named   bool                   `json:"named,omitempty"` // task names differ from their ids
	Inputs  map[string]interface{} `json:"inputs,omitempty"`  // declared defaults
	Outputs []string               `json:"outputs,omitempty"` // declared outputs
	Fixed   map[string]interface{} `json:"fixed,omitempty"`   // outputs with a fixed value
	Tasks   []*Task                `json:"tasks"`
	Links   []*Link                `json:"links"`
	Handler *Flow                  `json:"handler,omitempty"`
}

func (f *Flow) taskName(id string) string {
	if f.Named {
		return "name of " + id
	}
	return id
}

// taskOf is the id of the task an activity runs for
func taskOf(ctx activity.Context) string { return strings.TrimPrefix(ctx.Name(), "name of ") }

func (f *Flow) taskReps(ts []*Task) []*definition.TaskRep {
	var out []*definition.TaskRep
	for _, t := range ts {
		out = append(out, &definition.TaskRep{ID: t.ID, Name: f.taskName(t.ID), Type: t.Type, Settings: t.Settings,
			ActivityCfgRep: &activity.Config{Ref: actRef, Input: t.Input, Output: t.Output}})
	}
	return out
}

func linkReps(ls []*Link) []*definition.LinkRep {
	var out []*definition.LinkRep
	for _, l := range ls {
		out = append(out, &definition.LinkRep{FromID: l.From, ToID: l.To, Type: l.Type, Value: l.Value, Label: l.Label})
	}
	return out
}

func (f *Flow) rep() *definition.DefinitionRep {
	r := &definition.DefinitionRep{Name: f.Name, Tasks: f.taskReps(f.Tasks), Links: linkReps(f.Links)}
	if f.Inputs != nil || f.Outputs != nil {
		r.Metadata = &metadata.IOMetadata{Input: map[string]data.TypedValue{}, Output: map[string]data.TypedValue{}}
		for k, v := range f.Inputs {
			r.Metadata.Input[k] = data.NewTypedValue(data.TypeAny, v)
		}
		for _, k := range f.Outputs {
			r.Metadata.Output[k] = data.NewTypedValue(data.TypeAny, f.Fixed[k])
		}
	} else {
		r.Metadata = &metadata.IOMetadata{}
	}
	if f.Handler != nil {
		r.ErrorHandler = &definition.ErrorHandlerRep{Tasks: f.taskReps(f.Handler.Tasks), Links: linkReps(f.Handler.Links)}
	}
	return r
}

func (f *Flow) scripts(into map[string][]Outcome) {
	add := func(ts []*Task) {
		for _, t := range ts {
			into[f.Name+"/"+t.ID] = t.Script
			if len(t.Post) > 0 {
				into["post:"+f.Name+"/"+t.ID] = t.Post
			}
		}
	}
	add(f.Tasks)
	if f.Handler != nil {
		add(f.Handler.Tasks)
	}
}

// ---------------------------------------------------------------- runs

type Event struct {
	K    string      `json:"k"`
	Sub  int         `json:"sub,omitempty"`
	Task string      `json:"task,omitempty"`
	Link int         `json:"link,omitempty"`
	St   int         `json:"st,omitempty"`
	Name string      `json:"name,omitempty"`
	Val  interface{} `json:"val,omitempty"`
	Step int         `json:"step"`
}

type Run struct {
	mu     sync.Mutex
	flows  []*Flow
	inst   *instance.IndependentInstance
	script map[string][]Outcome
	calls  map[string]int
	pcalls map[string]int
	events []Event
	step   int
	onEval func(ctx activity.Context, key string)
	track  *tracker
	task   map[string]activityLike
	panics string
	hosts  map[int]*instance.Instance
	replies []string
}

func (r *Run) event(e Event) {
	e.Step = r.step
	r.events = append(r.events, e)
}

type tracker struct {
	r     *Run
	inner instance.ChangeTracker
}

func subOf(ti *instance.TaskInst) int { return subID(ti.ActivityHost().(*instance.Instance)) }

func (t *tracker) ev(e Event) { t.r.mu.Lock(); t.r.event(e); t.r.mu.Unlock() }
func (t *tracker) FlowCreated(f *instance.IndependentInstance) {
	t.inner.FlowCreated(f)
	t.ev(Event{K: "flowcreated"})
}
func (t *tracker) FlowDone(f *instance.IndependentInstance) {
	t.inner.FlowDone(f)
	t.ev(Event{K: "flowdone"})
}
func (t *tracker) SetStatus(s int, st model.FlowStatus) {
	t.inner.SetStatus(s, st)
	t.ev(Event{K: "status", Sub: s, St: int(st)})
}
func (t *tracker) AttrChange(s int, n string, v interface{}) {
	t.inner.AttrChange(s, n, v)
	t.ev(Event{K: "attr", Sub: s, Name: n, Val: v})
}
func (t *tracker) SubflowCreated(s *instance.Instance) {
	t.inner.SubflowCreated(s)
	t.ev(Event{K: "subcreated", Sub: subID(s), Name: s.FlowURI()})
}
func (t *tracker) SubflowDone(s *instance.Instance) {
	t.inner.SubflowDone(s)
	t.ev(Event{K: "subdone", Sub: subID(s)})
}
func (t *tracker) WorkItemAdded(w *instance.WorkItem) {
	t.inner.WorkItemAdded(w)
	t.ev(Event{K: "push", Sub: w.SubFlowID, Task: w.TaskID, Link: w.ID})
}
func (t *tracker) WorkItemRemoved(w *instance.WorkItem) {
	t.inner.WorkItemRemoved(w)
	t.ev(Event{K: "pop", Sub: w.SubFlowID, Task: w.TaskID, Link: w.ID})
}
func (t *tracker) TaskAdded(ti *instance.TaskInst) {
	t.inner.TaskAdded(ti)
	t.ev(Event{K: "taskadded", Sub: subOf(ti), Task: ti.Task().ID()})
}
func (t *tracker) TaskUpdated(ti *instance.TaskInst) {
	t.inner.TaskUpdated(ti)
	t.ev(Event{K: "task", Sub: subOf(ti), Task: ti.Task().ID(), St: int(ti.Status())})
}
func (t *tracker) TaskRemoved(s int, id string) {
	t.inner.TaskRemoved(s, id)
	t.ev(Event{K: "taskremoved", Sub: s, Task: id})
}
func (t *tracker) LinkAdded(li *instance.LinkInst) {
	t.inner.LinkAdded(li)
	t.ev(Event{K: "linkadded", Sub: linkSub(li), Link: li.Link().ID()})
}
func (t *tracker) LinkUpdated(li *instance.LinkInst) {
	t.inner.LinkUpdated(li)
	t.ev(Event{K: "link", Sub: linkSub(li), Link: li.Link().ID(), St: int(li.Status())})
}
func (t *tracker) LinkRemoved(s int, id int) {
	t.inner.LinkRemoved(s, id)
	t.ev(Event{K: "linkremoved", Sub: s, Link: id})
}
func (t *tracker) ExtractStep(reset bool) *state.Step { return t.inner.ExtractStep(reset) }

type memRecorder struct {
	steps  []*state.Step
	snaps  []*state.Snapshot
	starts []*state.FlowState
	dones  []*state.FlowState
}

func (m *memRecorder) RecordStart(s *state.FlowState) error  { m.starts = append(m.starts, s); return nil }
func (m *memRecorder) RecordSnapshot(s *state.Snapshot) error { m.snaps = append(m.snaps, s); return nil }
func (m *memRecorder) RecordStep(s *state.Step) error         { m.steps = append(m.steps, s); return nil }
func (m *memRecorder) RecordDone(s *state.FlowState) error    { m.dones = append(m.dones, s); return nil }

func (r *Run) tree() *Flow { return r.flows[0] }

var uriCtr int

// newRun builds the real engine's instance for flows[0]; flows[i] has URI "flow:<name>".
func newRun(flows []*Flow, mode state.RecordingMode, recorder state.Recorder) (*Run, error) {
	uriCtr++
	for _, f := range flows {
		flowReps[f.uri()] = f.rep()
	}
	support.InitDefaultDefLookup(support.NewFlowManager(provider{}), resource.NewManager(nil))
	def, _, err := support.GetDefinition(flows[0].uri())
	if err != nil {
		return nil, err
	}
	r := &Run{flows: flows, script: map[string][]Outcome{}, calls: map[string]int{}, pcalls: map[string]int{}, hosts: map[int]*instance.Instance{}}
	for _, f := range flows {
		f.scripts(r.script)
	}
	if recorder == nil {
		recorder = &memRecorder{}
	}
	inst, err := instance.NewIndependentInstance("I1", flows[0].uri(), def, instance.NewStateInstanceRecorder(recorder, mode, false), log.RootLogger())
	if err != nil {
		return nil, err
	}
	r.inst = inst
	r.track = &tracker{r: r, inner: trackerOf(inst)}
	setTracker(inst, r.track)
	cur = r
	return r, nil
}

func (f *Flow) uri() string { return "flow:" + f.Name }

// guarded runs f; a panic or a hang of the engine is reported as an error.
func guarded(d time.Duration, f func()) error {
	ch := make(chan error, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				ch <- fmt.Errorf("panic: %v\n%s", x, debug.Stack())
				return
			}
		}()
		f()
		ch <- nil
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(d):
		return fmt.Errorf("did not return within %v", d)
	}
}

func (r *Run) start(attrs map[string]interface{}) error {
	return guarded(20*time.Second, func() { r.inst.Start(attrs) })
}

// steps runs until the engine has nothing to do.
func (r *Run) steps(max int, after func(step int)) error {
	for i := 0; i < max; i++ {
		r.step++
		var more bool
		if err := guarded(20*time.Second, func() { more = r.inst.DoStep() }); err != nil {
			return err
		}
		if !more {
			return nil
		}
		if after != nil {
			after(r.step)
		}
	}
	return fmt.Errorf("still running after %d steps", max)
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

func sorted(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func rng(part string, i int) *rand.Rand {
	h := int64(0)
	for _, c := range part {
		h = h*31 + int64(c)
	}
	return rand.New(rand.NewSource(seed*1000003 + h*7919 + int64(i)))
}

var _ = strings.Join
