package zzverif

// C21: status codes, recording modes and settings, decoded by the public functions and as they take effect in
// the events, the records and the results of real runs.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/project-flogo/core/action"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	coreevent "github.com/project-flogo/core/engine/event"
	"github.com/project-flogo/core/support/service"
	"github.com/project-flogo/flow"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/ondemand"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
	"github.com/project-flogo/flow/support/event"
	"github.com/project-flogo/flow/util"
)

// ---------------------------------------------------------------- child processes: settings are read at start-up

var children = map[string]func(arg []byte) interface{}{}

// child runs children[name] in a process of its own with the given environment.
func child(name string, arg interface{}, env map[string]string, res interface{}) error {
	a, _ := json.Marshal(arg)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, os.Args[0], "-test.run=^$")
	c.Env = append(os.Environ(), "ZZ_CHILD="+name, "ZZ_ARG="+string(a), "VERIF_OUT=")
	for k, v := range env {
		c.Env = append(c.Env, k+"="+v)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Run(); err != nil {
		s := e.String()
		if len(s) > 2000 {
			s = s[:2000]
		}
		return fmt.Errorf("%v: %s", err, s)
	}
	i := strings.LastIndex(o.String(), "ZZ_RESULT ")
	if i < 0 {
		return fmt.Errorf("no result: %s", e.String())
	}
	return json.Unmarshal([]byte(o.String()[i+len("ZZ_RESULT "):]), res)
}

func childMain() {
	name := os.Getenv("ZZ_CHILD")
	if name == "" {
		return
	}
	r := children[name]([]byte(os.Getenv("ZZ_ARG")))
	b, _ := json.Marshal(r)
	fmt.Printf("\nZZ_RESULT %s\n", b)
	os.Exit(0)
}

type initCtx struct {
	rm  *resource.Manager
	sm  *service.Manager
	set map[string]interface{}
}

func (c *initCtx) ResourceManager() *resource.Manager        { return c.rm }
func (c *initCtx) ServiceManager() *service.Manager          { return c.sm }
func (c *initCtx) RuntimeSettings() map[string]interface{}   { return c.set }

// a recorder that is a service
type recService struct{ memRecorder }

func (*recService) Name() string { return "zzrec" }
func (*recService) Start() error { return nil }
func (*recService) Stop() error  { return nil }

// handler of results
type resHandler struct {
	mu   sync.Mutex
	log  []string
	done chan struct{}
}

func (h *resHandler) HandleResult(m map[string]interface{}, err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if err != nil {
		h.log = append(h.log, "error "+err.Error())
	} else {
		h.log = append(h.log, "data "+js(m))
	}
}
func (h *resHandler) Done() {
	h.mu.Lock()
	h.log = append(h.log, "done")
	h.mu.Unlock()
	select {
	case h.done <- struct{}{}:
	default:
	}
}

type modeCase struct {
	Settings map[string]interface{} `json:"settings"`
	Recorder bool                   `json:"recorder"`
	OnDemand bool                   `json:"ondemand,omitempty"`
	Tasks    int                    `json:"tasks"`
	MaxSteps string                 `json:"maxSteps,omitempty"`
}

type modeRes struct {
	Err      string
	Started  bool
	Log      []string
	Snaps    int
	Steps    int
	Starts   int
	Evals    int
	Tracked  bool
}

func init() {
	children["mode"] = func(arg []byte) interface{} {
		var c modeCase
		_ = json.Unmarshal(arg, &c)
		res := &modeRes{}
		fl := &Flow{Name: "M"}
		for i := 0; i < c.Tasks; i++ {
			fl.Tasks = append(fl.Tasks, &Task{ID: fmt.Sprintf("T%d", i)})
			if i > 0 {
				fl.Links = append(fl.Links, &Link{From: fmt.Sprintf("T%d", i-1), To: fmt.Sprintf("T%d", i)})
			}
		}
		def, err := definition.NewDefinition(fl.rep())
		if err != nil {
			res.Err = "harness: " + err.Error()
			return res
		}
		rm := resource.NewManager(map[string]*resource.Resource{"flow:M": resource.New("flow", def)})
		sm := service.NewServiceManager()
		rec := &recService{}
		if c.Recorder {
			_ = sm.RegisterService(rec)
		}
		ctx := &initCtx{rm: rm, sm: sm, set: c.Settings}
		var f action.Factory = &flow.ActionFactory{}
		if c.OnDemand {
			f = &ondemand.ActionFactory{}
		}
		if err := f.(interface{ Initialize(action.InitContext) error }).Initialize(ctx); err != nil {
			res.Err = err.Error()
			return res
		}
		if c.OnDemand {
			return res
		}
		a, err := f.New(&action.Config{Settings: map[string]interface{}{"flowURI": "res://flow:M"}})
		if err != nil {
			res.Err = err.Error()
			return res
		}
		cur = &Run{script: map[string][]Outcome{}, calls: map[string]int{}, pcalls: map[string]int{}, hosts: map[int]*instance.Instance{}}
		h := &resHandler{done: make(chan struct{}, 9)}
		err = a.(action.AsyncAction).Run(context.Background(), map[string]interface{}{}, h)
		if err != nil {
			res.Err = err.Error()
			return res
		}
		res.Started = true
		select {
		case <-h.done:
		case <-time.After(30 * time.Second):
		}
		time.Sleep(20 * time.Millisecond)
		h.mu.Lock()
		res.Log = h.log
		h.mu.Unlock()
		res.Snaps, res.Steps, res.Starts = len(rec.snaps), len(rec.steps), len(rec.starts)
		for _, n := range cur.calls {
			res.Evals += n
		}
		return res
	}
	children["limit"] = func(arg []byte) interface{} { return util.GetMaxStepCount() }
}

// expected recording of steps and snapshots; ok: the setting is valid
func expectMode(set map[string]interface{}) (ok, steps, snaps bool) {
	v, given := set["stateRecordingMode"]
	if !given {
		st, _ := set["stepRecordingMode"].(string)
		sn, _ := set["snapshotRecordingMode"].(string)
		return true, strings.EqualFold(st, "full"), strings.EqualFold(sn, "full")
	}
	s, isStr := v.(string)
	if !isStr {
		return false, false, false
	}
	switch strings.ToLower(s) {
	case "off":
		return true, false, false
	case "debugger", "step":
		return true, true, false
	case "full":
		return true, true, true
	case "snapshot":
		return true, false, true
	}
	return false, false, false
}

func checkMode(c modeCase) string {
	ok, steps, snaps := expectMode(c.Settings)
	if len(c.Settings) == 0 {
		ok, steps, snaps = true, false, false
	}
	var r modeRes
	env := map[string]string{}
	if err := child("mode", c, env, &r); err != nil {
		return "the run crashed: " + err.Error()
	}
	if strings.HasPrefix(r.Err, "harness:") {
		return ""
	}
	if ok != (r.Err == "") {
		return fmt.Sprintf("a recording mode that is valid: %v; error reported: %q", ok, r.Err)
	}
	if r.Err != "" || c.OnDemand {
		return ""
	}
	if r.Evals != c.Tasks {
		return fmt.Sprintf("%d evaluations of %d tasks", r.Evals, c.Tasks)
	}
	steps, snaps = steps && c.Recorder, snaps && c.Recorder
	if (r.Steps > 0) != steps {
		return fmt.Sprintf("%d steps recorded, expected: %v", r.Steps, steps)
	}
	if (r.Snaps > 0) != snaps {
		return fmt.Sprintf("%d snapshots recorded, expected: %v", r.Snaps, snaps)
	}
	if steps && r.Steps < c.Tasks || snaps && r.Snaps < c.Tasks || steps && snaps && r.Steps != r.Snaps {
		return fmt.Sprintf("%d steps and %d snapshots recorded of %d tasks", r.Steps, r.Snaps, c.Tasks)
	}
	return ""
}

// ---------------------------------------------------------------- events

type evSink struct {
	mu sync.Mutex
	fl []string
	ta []string
}

func (s *evSink) HandleEvent(c *coreevent.Context) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch e := c.GetEvent().(type) {
	case event.FlowEvent:
		s.fl = append(s.fl, string(e.FlowStatus()))
	case event.TaskEvent:
		s.ta = append(s.ta, string(e.TaskStatus()))
	}
	return nil
}

func (s *evSink) wait(f func() bool) bool {
	for i := 0; i < 1000; i++ {
		s.mu.Lock()
		b := f()
		s.mu.Unlock()
		if b {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

var flowEvents = map[int]string{0: "Created", 100: "Started", 500: "Completed", 600: "Cancelled", 700: "Failed"}
var taskEvents = map[int]string{0: "Created", 10: "Scheduled", 20: "Started", 30: "Waiting", 40: "Completed", 50: "Skipped", 100: "Failed"}

func nameIn(m map[int]string, c int) string {
	if s, ok := m[c]; ok {
		return s
	}
	return "Unknown"
}

func TestSettings(t *testing.T) {
	if !want("C21") {
		return
	}
	rep.Rule = "setting or code whose value is not the default"
	_ = state.RecordingModeOff

	// modes
	words := []string{"off", "debugger", "step", "full", "snapshot", "", "of", "steps", "Full ", "all", "on", "none", "true", "debug", "snapshots", "0"}
	for i := 0; i < scale(400, 6000) && !failedAlready(); i++ {
		r := rng("modes", i)
		w := []byte(words[r.Intn(len(words))])
		for k := range w {
			if r.Intn(2) == 0 {
				w[k] = bytes.ToUpper(w[k : k+1])[0]
			}
		}
		var v interface{} = string(w)
		if i%17 == 0 {
			v = []interface{}{nil, 3, true, 1.5}[r.Intn(4)]
		}
		ok, steps, snaps := expectMode(map[string]interface{}{"stateRecordingMode": v})
		m, err := state.ToRecordingMode(v)
		what := ""
		if ok != (err == nil) {
			what = fmt.Sprintf("the recording mode %q: error %v", v, err)
		} else if err == nil && string(m) != strings.ToLower(v.(string)) {
			what = fmt.Sprintf("the recording mode %q is taken as %q", v, m)
		} else if err == nil && (state.RecordSteps(m) != steps || state.RecordSnapshot(m) != snaps) {
			what = fmt.Sprintf("mode %q: steps recorded %v, snapshots recorded %v", v, state.RecordSteps(m), state.RecordSnapshot(m))
		}
		ran("modes", v, fmt.Sprint(v), ok)
		if what != "" {
			violated(t, "modes", v, "%s", what)
		}
	}

	// boolean settings and the step limit
	old := map[string]string{}
	set := func(k, v string, given bool) {
		old[k] = v
		if given {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
	bools := map[string]int{"true": 1, "false": 0, "TRUE": 1, "False": 0, "1": 1, "0": 0, "t": 1, "f": 0, "T": 1, "F": 0, "True": 1, "FALSE": 0,
		"yes": -1, "": -1, "2": -1, "tru": -1, "no": -1, " true": -1, "on": -1}
	for s, v := range bools {
		for _, given := range []bool{true, false} {
			want := func(d bool) bool {
				if !given || v < 0 {
					return d
				}
				return v == 1
			}
			set("FLOGO_TASK_PROPAGATE_SKIP", s, given)
			set("FLOGO_TASK_PRIORITIZE_EXPR_LINK", s, given)
			set("FLOGO_FLOW_CONCURRENT_TASK_EXECUTION", s, given)
			ran("booleans", s, s, given)
			if b := support.GetPropagateSkip(); b != want(true) {
				violated(t, "booleans", s, "FLOGO_TASK_PROPAGATE_SKIP=%q (given: %v) is taken as %v", s, given, b)
			}
			if b := support.GetPrioritizeExprTask(); b != want(false) {
				violated(t, "booleans", s, "FLOGO_TASK_PRIORITIZE_EXPR_LINK=%q (given: %v) is taken as %v", s, given, b)
			}
			if v := s; v == "true" || v == "false" || v == "" || !given {
				if b := instance.IsConcurrentTaskExcutionEnabled(); b != (given && s == "true") {
					violated(t, "booleans", s, "FLOGO_FLOW_CONCURRENT_TASK_EXECUTION=%q (given: %v) is taken as %v", s, given, b)
				}
			}
		}
	}
	for _, k := range []string{"FLOGO_TASK_PROPAGATE_SKIP", "FLOGO_TASK_PRIORITIZE_EXPR_LINK", "FLOGO_FLOW_CONCURRENT_TASK_EXECUTION"} {
		os.Unsetenv(k)
	}
	for i := 0; i < scale(200, 3000); i++ {
		r := rng("limit", i)
		n := r.Intn(1 << uint(1+r.Intn(30)))
		s, exp, given := fmt.Sprint(n), n, true
		switch r.Intn(6) {
		case 0:
			s, exp = []string{"", "x", s + "x", "1.5", "ten", "0x", s + " ", "1e3"}[r.Intn(8)], 10000000
		case 1:
			given, exp = false, 10000000
		}
		set("FLOGO_MAX_STEP_COUNT", s, given)
		ran("limit", s, s, given)
		if g := util.GetMaxStepCount(); g != exp {
			violated(t, "limit", s, "FLOGO_MAX_STEP_COUNT=%q (given: %v) is taken as %d", s, given, g)
			break
		}
	}
	os.Unsetenv("FLOGO_MAX_STEP_COUNT")
	_ = old

	// events
	sink := &evSink{}
	_ = coreevent.RegisterListener("sink", sink, []string{event.FlowEventType, event.TaskEventType})
	fl := &Flow{Name: "ev", Tasks: []*Task{{ID: "A", Script: []Outcome{{Kind: "wait"}}}}}
	r, err := newRun([]*Flow{fl}, state.RecordingModeOff, nil)
	if err != nil {
		t.Fatal(err)
	}
	_ = r.start(map[string]interface{}{})
	_ = r.steps(10, nil)
	ti := tasksOf(r.inst.Instance)["A"]
	if ti == nil {
		t.Fatal("no task instance")
	}
	codes := []int{0, 10, 20, 30, 40, 50, 100, 500, 600, 700}
	for i := 0; i < scale(120, 1200) && !failedAlready(); i++ {
		g := rng("events", i)
		c := codes[g.Intn(len(codes))]
		if g.Intn(3) == 0 {
			c = g.Intn(1000) - 100
		}
		sink.mu.Lock()
		nf, nt := len(sink.fl), len(sink.ta)
		sink.mu.Unlock()
		if err := guarded(20*time.Second, func() {
			r.inst.SetStatus(model.FlowStatus(c))
			ti.SetStatus(model.TaskStatus(c))
		}); err != nil {
			violated(t, "events", c, "%v", err)
			break
		}
		ran("events", c, fmt.Sprint(c), c != 0)
		if !sink.wait(func() bool { return len(sink.fl) > nf && len(sink.ta) > nt }) {
			violated(t, "events", c, "no event reports the status %d", c)
			break
		}
		sink.mu.Lock()
		f, a := sink.fl[len(sink.fl)-1], sink.ta[len(sink.ta)-1]
		sink.mu.Unlock()
		if f != nameIn(flowEvents, c) {
			violated(t, "events", c, "flow status %d is reported as %s", c, f)
		}
		if a != nameIn(taskEvents, c) {
			violated(t, "events", c, "task status %d is reported as %s", c, a)
		}
	}

	// recording of a run, in a process of its own
	var cases []modeCase
	for _, m := range []interface{}{"off", "OFF", "step", "Step", "full", "FULL", "snapshot", "sNapshot", "debugger", "Debugger", "", "all", "fully", 7, true} {
		for _, rec := range []bool{true, false} {
			cases = append(cases, modeCase{Settings: map[string]interface{}{"stateRecordingMode": m}, Recorder: rec, Tasks: 1 + len(cases)%4})
		}
		cases = append(cases, modeCase{Settings: map[string]interface{}{"stateRecordingMode": m}, Recorder: true, OnDemand: true, Tasks: 1})
	}
	for _, a := range []string{"", "full", "Full", "off", "none"} {
		for _, b := range []string{"", "full", "FULL", "off"} {
			set := map[string]interface{}{}
			if a != "" {
				set["stepRecordingMode"] = a
			}
			if b != "" {
				set["snapshotRecordingMode"] = b
			}
			cases = append(cases, modeCase{Settings: set, Recorder: true, Tasks: 2})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 6)
	for _, c := range cases {
		wg.Add(1)
		go func(c modeCase) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			if what := checkMode(c); what != "" {
				violated(t, "recording", c, "%s", what)
			}
			ran("recording", c, js(c), len(c.Settings) > 0)
		}(c)
	}
	wg.Wait()
}

var _ = data.TypeAny
