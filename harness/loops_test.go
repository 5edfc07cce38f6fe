package zzverif

// C09, C10, C11: random iterator, do-while and retried tasks on the real engine, immediate and waiting
// activities, compared with what the description says.

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"testing"
	"time"

	"github.com/project-flogo/core/activity"
	"github.com/project-flogo/flow/instance"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/state"
)

type seen struct {
	Key, Value, Index interface{}
	At                time.Time `json:"-"`
}

type loopCase struct {
	Kind    string // iterator, dowhile, plain
	On      interface{}
	Async   bool
	FailAt  int // evaluation (0-based) that fails with a final error, -1 none
	PostErr bool
	PostFails int // plain waiting task: that many failures on being resumed
	Retry   int
	Ivl     int
	Again   int // that many retriable errors first, at evaluation AgainAt
	AgainAt int
	Until   int // do-while: repeat while index < Until
	Mode    string
	Nested  bool
	Keys    []interface{} `json:"-"`
	Vals    []interface{} `json:"-"`
}

var loopNow *loopRun

type loopRun struct {
	c     *loopCase
	seen  []seen
	again int
	evals int // attempts
	posts int
}

func (l *loopRun) Eval(ctx activity.Context) (bool, error) {
	n := len(l.seen)
	l.evals++
	l.seen = append(l.seen, seen{ctx.GetInput("key"), ctx.GetInput("value"), ctx.GetInput("index"), time.Now()})
	if l.c.Again > l.again && n >= l.c.AgainAt && l.c.Again > 0 {
		l.again++
		return false, activity.NewRetriableError(fmt.Sprintf("again %d", l.again), "R", nil)
	}
	if l.c.FailAt >= 0 && n-l.again == l.c.FailAt && !l.c.PostErr {
		return false, activity.NewError("final", "F", nil)
	}
	ctx.SetOutput("out", n-l.again)
	if l.c.Async {
		return false, instance.StartSubFlow(ctx, "flow:inner", nil)
	}
	return true, nil
}

func (l *loopRun) PostEval(ctx activity.Context, ud interface{}) (bool, error) {
	l.posts++
	if l.posts <= l.c.PostFails {
		return false, activity.NewError("post", "P", nil)
	}
	if l.c.PostErr && l.c.FailAt >= 0 && l.posts-1 == l.c.FailAt {
		return false, fmt.Errorf("post final")
	}
	ctx.SetOutput("out", len(l.seen)-l.again-1)
	return true, nil
}

// playLoop runs one task L of the kind, followed by task E, and returns what happened.
func playLoop(c *loopCase) (*loopRun, *Run, map[string]interface{}, error) {
	f := &Flow{Name: "loop", Inputs: map[string]interface{}{"on": c.On, "n": c.Until}}
	t := &Task{ID: "L", Settings: map[string]interface{}{}}
	f.Tasks = []*Task{t, {ID: "E"}}
	f.Links = []*Link{{From: "L", To: "E", Type: "dependency"}}
	switch c.Kind {
	case "iterator":
		t.Type = "iterator"
		on := c.On
		if c.Mode == "expr" {
			on = "=$.on"
		}
		t.Settings["iterate"] = on
		t.Input = map[string]interface{}{"key": "=$iteration[key]", "value": "=$iteration[value]", "index": "=$iteration[index]"}
	case "dowhile":
		t.Type = "doWhile"
		if c.Mode != "nocondition" {
			cond := map[string]string{"badcond": "=$.bad", "nocond": "=$.nope", "output": "=$activity[L].out < $.n"}[c.Mode]
			if cond == "" {
				cond = "=$iteration[index] < $.n"
			}
			if c.Nested {
				t.Settings["doWhile"] = map[string]interface{}{"condition": cond}
			} else {
				t.Settings["condition"] = cond
			}
			if c.Mode == "accumulate" {
				t.Settings["accumulate"] = true
			}
		}
		t.Input = map[string]interface{}{"index": "=$iteration[index]"}
	}
	if c.Retry >= 0 {
		t.Settings["retryOnError"] = map[string]interface{}{"count": c.Retry, "interval": c.Ivl}
	}
	l := &loopRun{c: c}
	loopNow = l
	sub := &Flow{Name: "inner", Tasks: []*Task{{ID: "P"}}}
	r, err := newRun([]*Flow{f, sub}, state.RecordingModeOff, nil)
	if err != nil {
		return l, nil, nil, err
	}
	r.task = map[string]activityLike{"loop/L": l}
	fin := map[string]interface{}{}
	if err := r.start(map[string]interface{}{"on": c.On, "n": c.Until, "bad": "zz"}); err != nil {
		return l, r, fin, err
	}
	if err := r.steps(400, nil); err != nil {
		return l, r, fin, err
	}
	fin["status"] = int(r.inst.Status())
	last := -1
	for _, e := range r.events {
		if e.K == "task" && e.Task == "L" {
			last = e.St
		}
	}
	fin["L"] = last
	nE := 0
	for _, e := range r.events {
		if e.K == "eval" && e.Task == "E" {
			nE++
		}
	}
	fin["E"] = nE
	return l, r, fin, nil
}

func iterables(g *rand.Rand) (on interface{}, keys, vals []interface{}, mode string) {
	n := []int{0, 1, 2, 3, 5, 14}[g.Intn(6)]
	arr := func() []interface{} {
		a := []interface{}{}
		for i := 0; i < n; i++ {
			a = append(a, fmt.Sprintf("v%d", g.Intn(4)))
		}
		return a
	}
	idx := func() []interface{} {
		a := []interface{}{}
		for i := 0; i < n; i++ {
			a = append(a, i)
		}
		return a
	}
	mode = "expr"
	switch g.Intn(9) {
	case 0:
		return n, idx(), idx(), []string{"expr", "literal"}[g.Intn(2)]
	case 1:
		return int64(n), idx(), idx(), "expr"
	case 2:
		return float64(n), idx(), idx(), []string{"expr", "literal"}[g.Intn(2)]
	case 3:
		return fmt.Sprint(n), idx(), idx(), "expr"
	case 4, 5:
		a := arr()
		return a, idx(), a, []string{"expr", "literal"}[g.Intn(2)]
	case 6:
		a := arr()
		s := make([]string, n)
		for i := range a {
			s[i] = a[i].(string)
		}
		return s, idx(), a, "expr"
	case 7:
		s := make([]int, n)
		v := []interface{}{}
		for i := range s {
			s[i] = 7 * i
			v = append(v, 7*i)
		}
		return s, idx(), v, "expr"
	}
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("k%d", g.Intn(30))
		m[k] = i * 3
		if i == 1 && g.Intn(3) == 0 {
			m[k] = nil
		}
	}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].(string) < keys[j].(string) })
	for _, k := range keys {
		vals = append(vals, m[k.(string)])
	}
	return m, keys, vals, []string{"expr", "literal"}[g.Intn(2)]
}

func checkLoop(c *loopCase) (what string) {
	l, r, fin, err := playLoop(c)
	if r == nil {
		return fmt.Sprintf("flow rejected: %v", err)
	}
	if err != nil {
		return err.Error()
	}
	// successful evaluations (and the final failing one), in order
	n := 1 // planned iterations
	switch c.Kind {
	case "iterator":
		n = len(c.Keys)
	case "dowhile":
		if c.Mode != "nocondition" {
			n = c.Until + 1
			if n < 1 || c.Mode == "badcond" || c.Mode == "nocond" {
				n = 1
			}
		}
	}
	fails := c.FailAt >= 0 && c.FailAt < n || c.Mode == "badcond" || c.Mode == "nocond"
	attempts := n
	if fails && c.FailAt >= 0 && c.FailAt < n {
		attempts = c.FailAt + 1
	}
	// retriable failures
	retriesUsed := 0
	if c.Again > 0 && c.AgainAt < attempts {
		budget := c.Retry
		if budget < 0 {
			budget = 0
		}
		if c.Again > budget { // the last retriable failure is final
			attempts = c.AgainAt + budget + 1
			fails = true
			retriesUsed = budget
		} else {
			attempts += c.Again
			retriesUsed = c.Again
		}
	}
	if c.PostFails > 0 {
		budget := c.Retry
		if budget < 0 {
			budget = 0
		}
		if c.PostFails > budget {
			attempts, fails = 1+budget, true
		} else {
			attempts = 1 + c.PostFails
		}
	}
	if l.evals != attempts {
		return fmt.Sprintf("the activity was evaluated %d times, expected %d (%d iterations)", l.evals, attempts, n)
	}
	wantStatus := int(model.FlowStatusCompleted)
	wantE, wantL := 1, 40
	if fails {
		wantStatus, wantE, wantL = int(model.FlowStatusFailed), 0, 100
	}
	if fin["status"] != wantStatus || fin["E"] != wantE {
		return fmt.Sprintf("flow ended with status %v (expected %d), the next task ran %v times (expected %d)", fin["status"], wantStatus, fin["E"], wantE)
	}
	if fin["L"] != wantL {
		return fmt.Sprintf("the task ended with status %v, expected %d", fin["L"], wantL)
	}
	if fails {
		_, rerr := r.inst.GetReturnData()
		if c.Again > retriesUsed && c.AgainAt+retriesUsed < l.evals && c.Again > 0 {
			wantMsg := fmt.Sprintf("again %d", retriesUsed+1)
			if rerr == nil || rerr.Error() != wantMsg {
				return fmt.Sprintf("reported error %v, expected that of the last attempt: %s", rerr, wantMsg)
			}
		}
	}
	// iteration context
	var keys []interface{}
	it := 0
	for i, s := range l.seen {
		if c.Kind == "iterator" {
			if s.Index != it {
				return fmt.Sprintf("evaluation %d saw index %v, expected %d", i, s.Index, it)
			}
			if _, isMap := c.On.(map[string]interface{}); isMap {
				keys = append(keys, s.Key)
				k, _ := s.Key.(string)
				m := c.On.(map[string]interface{})
				if v, ok := m[k]; !ok || !reflect.DeepEqual(v, s.Value) {
					return fmt.Sprintf("evaluation %d saw key %v with value %v", i, s.Key, s.Value)
				}
			} else if s.Key != it || !reflect.DeepEqual(s.Value, c.Vals[it]) {
				return fmt.Sprintf("evaluation %d saw key %v value %v, expected %v and %v", i, s.Key, s.Value, it, c.Vals[it])
			}
		}
		if c.Kind == "dowhile" && s.Index != it {
			return fmt.Sprintf("evaluation %d saw index %v, expected %d", i, s.Index, it)
		}
		if i < c.AgainAt || i >= c.AgainAt+retriesUsed || c.Again == 0 {
			it++
		} else if c.Ivl > 0 && i+1 < len(l.seen) {
			if gap := l.seen[i+1].At.Sub(s.At); gap < time.Duration(c.Ivl)*time.Millisecond {
				return fmt.Sprintf("retried after %v, configured interval %dms", gap, c.Ivl)
			}
		}
	}
	if len(keys) > 0 && !fails {
		distinct := map[interface{}]bool{}
		for _, k := range keys {
			distinct[k] = true
		}
		if len(distinct) != len(c.Keys) {
			return fmt.Sprintf("keys visited %v, expected each of %v once", keys, c.Keys)
		}
	}
	return ""
}

func TestLoops(t *testing.T) {
	if !want("C09", "C10", "C11") {
		t.Skip()
	}
	n := scale(1500, 20000)
	kind := map[string]string{"C09": "iterator", "C10": "dowhile", "C11": ""}[prop]
	for i := 0; i < n; i++ {
		g := rng("loops", i)
		c := &loopCase{Kind: kind, FailAt: -1, Retry: -1, Async: g.Intn(2) == 0}
		if kind == "" {
			c.Kind = []string{"plain", "plain", "iterator", "dowhile"}[g.Intn(4)]
		}
		switch c.Kind {
		case "iterator":
			c.On, c.Keys, c.Vals, c.Mode = iterables(g)
		case "dowhile":
			c.Until = g.Intn(6) - 1
			c.Mode = []string{"", "", "nocondition", "accumulate", "output", "badcond", "nocond"}[g.Intn(7)]
			c.Nested = g.Intn(3) == 0
		}
		if g.Intn(3) == 0 {
			c.FailAt = g.Intn(4)
			c.PostErr = c.Async && g.Intn(2) == 0
			if c.PostErr && prop == "C11" {
				c.FailAt, c.PostErr = -1, false
			}
		}
		if prop == "C11" || g.Intn(5) == 0 {
			c.Retry = g.Intn(5) - 1
			c.Again = g.Intn(6)
			c.AgainAt = g.Intn(2)
			if c.Again > 0 && c.FailAt >= 0 && c.FailAt < c.AgainAt {
				c.FailAt = -1
			}
			if g.Intn(12) == 0 {
				c.Ivl = 2 + g.Intn(4)
			}
			if c.Kind == "plain" {
				c.AgainAt = 0
				if c.FailAt > 0 {
					c.FailAt = 0
				}
			}
		}
		if prop == "C11" && c.Kind == "plain" && c.Async && g.Intn(2) == 0 {
			c.FailAt, c.Again, c.PostFails = -1, 0, 1+g.Intn(3)
		}
		what := checkLoop(c)
		ran("random loop or retried task", c, js(c), true)
		if what != "" {
			violated(t, "random loop or retried task", c, "%s", what)
			return
		}
	}
	rep.Rule = "random iterator (count, text count, array, typed array, object), do-while and retried tasks, activities finishing at once or after waiting, failing or retriably failing at a random evaluation; the evaluations, their iteration context, the final status and error are compared with the description; distinct by description"
}
