package zzdemo

// Small driver for flows with scripted activities; used by the demonstrations.

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/data"
	"github.com/project-flogo/core/data/metadata"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/model/simple"
	"github.com/project-flogo/flow/state"
	"github.com/project-flogo/flow/support"
)

type script struct {
	Kind string
	Out  map[string]interface{}
	Sub  string
	In   map[string]interface{}
	Fn   func(ctx activity.Context)
}

var (
	scripts map[string][]script
	calls   map[string]int
	evals   []string
	ins     []interface{}
	reps    = map[string]*definition.DefinitionRep{}
)

type act struct{}

var md = &activity.Metadata{IOMetadata: &metadata.IOMetadata{
	Input:  map[string]data.TypedValue{"in": data.NewTypedValue(data.TypeAny, nil)},
	Output: map[string]data.TypedValue{"out": data.NewTypedValue(data.TypeAny, nil), "out2": data.NewTypedValue(data.TypeAny, nil)},
}}

func (*act) Metadata() *activity.Metadata { return md }
func (*act) Eval(ctx activity.Context) (bool, error) {
	host := ctx.ActivityHost().(*instance.Instance)
	key := host.Name() + "/" + ctx.Name()
	n := calls[key]
	calls[key]++
	evals = append(evals, key)
	ins = append(ins, ctx.GetInput("in"))
	sc := scripts[key]
	if len(sc) == 0 {
		return true, nil
	}
	if n >= len(sc) {
		n = len(sc) - 1
	}
	s := sc[n]
	if s.Fn != nil {
		s.Fn(ctx)
	}
	for k, v := range s.Out {
		if s.Kind != "return" {
			ctx.SetOutput(k, v)
		}
	}
	switch s.Kind {
	case "err":
		return false, activity.NewError("boom "+key, "E1", nil)
	case "plain":
		return false, errors.New("plain " + key)
	case "retriable":
		return false, activity.NewRetriableError("again "+key, "R1", nil)
	case "panic":
		panic("panic " + key)
	case "wait":
		return false, nil
	case "return":
		host.Return(s.Out, nil)
	case "sub":
		return false, instance.StartSubFlow(ctx, s.Sub, s.In)
	}
	return true, nil
}

type asyncAct struct{ act }

func (*asyncAct) PostEval(ctx activity.Context, ud interface{}) (bool, error) {
	key := "post:" + ctx.ActivityHost().(*instance.Instance).Name() + "/" + ctx.Name()
	evals = append(evals, key)
	n := calls[key]
	calls[key]++
	sc := scripts[key]
	if n >= len(sc) {
		n = len(sc) - 1
	}
	if n >= 0 && sc[n].Kind == "err" {
		return false, activity.NewError("post "+key, "P1", nil)
	}
	if n >= 0 && sc[n].Kind == "retriable" {
		return false, activity.NewRetriableError("post "+key, "P2", nil)
	}
	return true, nil
}

type prov struct{}

func (prov) GetFlow(uri string) (*definition.DefinitionRep, error) {
	if r, ok := reps[uri]; ok {
		return r, nil
	}
	return nil, errors.New("no flow " + uri)
}

func init() {
	model.RegisterDefault(simple.New())
	_ = activity.Register(&act{})
	_ = activity.LegacyRegister("asyncdemo", &asyncAct{})
}

func TestMain(m *testing.M) {
	log.SetLogLevel(log.RootLogger(), log.ErrorLevel)
	os.Exit(m.Run())
}

// flow builds a flow description: "A B" tasks, "A>B", "A>B:expr=$.x", "A>B:otherwise", "A>B:error", "A>B:label" links.
func flow(name, tasks, links string) *definition.DefinitionRep {
	r := &definition.DefinitionRep{Name: name, Metadata: &metadata.IOMetadata{}}
	r.Tasks, r.Links = section(tasks, links)
	reps["flow:"+name] = r
	return r
}

func section(tasks, links string) (ts []*definition.TaskRep, ls []*definition.LinkRep) {
	for _, t := range strings.Fields(tasks) {
		ref := activity.GetRef(&act{})
		if strings.HasSuffix(t, "~") {
			t = strings.TrimSuffix(t, "~")
			ref = "asyncdemo"
		}
		ts = append(ts, &definition.TaskRep{ID: t, Name: t, ActivityCfgRep: &activity.Config{Ref: ref}})
	}
	for _, l := range strings.Fields(links) {
		p := strings.SplitN(l, ":", 2)
		ft := strings.Split(p[0], ">")
		lr := &definition.LinkRep{FromID: ft[0], ToID: ft[1], Type: "dependency"}
		if len(p) == 2 {
			kv := strings.SplitN(p[1], "=", 2)
			lr.Type = map[string]string{"expr": "expression", "otherwise": "exprOtherwise"}[kv[0]]
			if lr.Type == "" {
				lr.Type = kv[0]
			}
			if len(kv) == 2 {
				lr.Value = kv[1]
			}
		}
		ls = append(ls, lr)
	}
	return
}

func handler(r *definition.DefinitionRep, tasks, links string) {
	r.ErrorHandler = &definition.ErrorHandlerRep{}
	r.ErrorHandler.Tasks, r.ErrorHandler.Links = section(tasks, links)
}

func task(r *definition.DefinitionRep, id string) *definition.TaskRep {
	for _, t := range r.Tasks {
		if t.ID == id {
			return t
		}
	}
	if r.ErrorHandler != nil {
		for _, t := range r.ErrorHandler.Tasks {
			if t.ID == id {
				return t
			}
		}
	}
	return nil
}

func prepare(t *testing.T, r *definition.DefinitionRep) *instance.IndependentInstance {
	calls, evals, ins = map[string]int{}, nil, nil
	support.InitDefaultDefLookup(support.NewFlowManager(prov{}), resource.NewManager(nil))
	def, _, err := support.GetDefinition("flow:" + r.Name)
	if err != nil {
		t.Fatalf("definition: %v", err)
	}
	inst, err := instance.NewIndependentInstance("I1", "flow:"+r.Name, def, instance.NewStateInstanceRecorder(nil, state.RecordingModeOff, false), log.RootLogger())
	if err != nil {
		t.Fatal(err)
	}
	return inst
}

// run starts the flow and steps until nothing is left to do.
func run(t *testing.T, r *definition.DefinitionRep, sc map[string][]script, vars map[string]interface{}) *instance.IndependentInstance {
	scripts = sc
	inst := prepare(t, r)
	done := make(chan string, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				done <- fmt.Sprint("panic: ", x)
			}
		}()
		inst.Start(vars)
		for i := 0; i < 500 && inst.DoStep(); i++ {
		}
		done <- ""
	}()
	select {
	case s := <-done:
		if s != "" {
			t.Fatal(s)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("the flow engine hangs")
	}
	return inst
}

func trace() string { return strings.Join(evals, " ") }

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

func expect(t *testing.T, what string, got, want interface{}) {
	t.Helper()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Errorf("%s: got %v, want %v", what, got, want)
	}
}
