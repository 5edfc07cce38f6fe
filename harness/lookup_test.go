package zzverif

// C22: random sequences of lookups and registrations, compared with the tables they describe.

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/project-flogo/core/app/resource"
	"github.com/project-flogo/core/support/log"
	"github.com/project-flogo/flow/definition"
	"github.com/project-flogo/flow/model"
	"github.com/project-flogo/flow/model/simple"
	"github.com/project-flogo/flow/support"
	"github.com/project-flogo/flow/util"
)

// ---------------------------------------------------------------- flows

type countingProvider struct {
	mu   sync.Mutex
	n    map[string]int
	fail map[string]int // how many times the fetch fails first
	bad  map[string]bool // the description is not valid
	slow time.Duration
}

func (p *countingProvider) GetFlow(uri string) (*definition.DefinitionRep, error) {
	p.mu.Lock()
	p.n[uri]++
	f := p.fail[uri] >= p.n[uri]
	bad := p.bad[uri]
	p.mu.Unlock()
	if p.slow > 0 {
		time.Sleep(p.slow)
	}
	if f {
		return nil, errors.New("fetch failed " + uri)
	}
	fl := &Flow{Name: uri, Tasks: []*Task{{ID: "A"}}}
	if bad {
		fl.Tasks[0].Type = "nosuchtype"
	}
	return fl.rep(), nil
}

type lookupCase struct {
	Fail       map[string]int  `json:"fail"`
	Bad        map[string]bool `json:"bad"`
	Seq        []string        `json:"sequence"`
	Concurrent bool            `json:"concurrent,omitempty"`
	Default    bool            `json:"default,omitempty"` // through the default lookup
}

func checkLookup(c lookupCase) (what string) {
	p := &countingProvider{n: map[string]int{}, fail: c.Fail, bad: c.Bad}
	fm := support.NewFlowManager(p)
	resDef, err := definition.NewDefinition((&Flow{Name: "res", Tasks: []*Task{{ID: "A"}}}).rep())
	if err != nil {
		return ""
	}
	get := fm.GetFlow
	if c.Default {
		rm := resource.NewManager(map[string]*resource.Resource{"flow:res": resource.New("flow", resDef), "other:x": resource.New("other", "x")})
		support.InitDefaultDefLookup(fm, rm)
		get = func(uri string) (*definition.Definition, error) {
			d, isRes, err := support.GetDefinition(uri)
			if isRes {
				return nil, errors.New("taken for a resource: " + uri)
			}
			return d, err
		}
		d, isRes, err := support.GetDefinition("res://flow:res")
		if d != resDef || !isRes || err != nil {
			return fmt.Sprintf("the resource res://flow:res is not found: %v, %v", isRes, err)
		}
		for _, u := range []string{"res://flow:none", "res://other:x"} {
			if d, isRes, _ := support.GetDefinition(u); d != nil || isRes {
				return u + " gives a flow"
			}
		}
	}
	if c.Concurrent {
		p.slow = time.Millisecond
		var mu sync.Mutex
		got := map[string]map[*definition.Definition]bool{}
		var wg sync.WaitGroup
		for _, u := range c.Seq {
			wg.Add(1)
			go func(u string) {
				defer wg.Done()
				d, err := get(u)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					return
				}
				if got[u] == nil {
					got[u] = map[*definition.Definition]bool{}
				}
				got[u][d] = true
			}(u)
		}
		wg.Wait()
		for u, ds := range got {
			if len(ds) != 1 {
				return fmt.Sprintf("%d definitions of %s were handed out", len(ds), u)
			}
			if p.n[u] != c.Fail[u]+1 {
				return fmt.Sprintf("%s was fetched %d times, with %d failures", u, p.n[u], c.Fail[u])
			}
		}
		return ""
	}
	have := map[string]*definition.Definition{}
	for i, u := range c.Seq {
		before := p.n[u]
		d, err := get(u)
		exp := 1
		if have[u] != nil {
			exp = 0
		}
		if p.n[u]-before != exp {
			return fmt.Sprintf("request %d: %s was fetched %d times, expected %d", i, u, p.n[u]-before, exp)
		}
		failed := have[u] == nil && (p.n[u] <= c.Fail[u] || c.Bad[u])
		if failed != (err != nil) {
			return fmt.Sprintf("request %d for %s: error %v, expected one: %v", i, u, err, failed)
		}
		if err != nil {
			if d != nil {
				return fmt.Sprintf("request %d for %s: an error and a flow", i, u)
			}
			continue
		}
		if d == nil || d.Name() != u {
			return fmt.Sprintf("request %d for %s: not the flow of that reference", i, u)
		}
		if have[u] != nil && d != have[u] {
			return fmt.Sprintf("request %d for %s: another definition than before", i, u)
		}
		have[u] = d
	}
	return ""
}

// ---------------------------------------------------------------- models

type modelOp struct {
	Op   string `json:"op"` // register, default, nil, type, deftype
	Name string `json:"name,omitempty"`
	Type string `json:"type,omitempty"`
}

func panics(f func()) (b bool) {
	defer func() { b = recover() != nil }()
	f()
	return
}

func checkModels(ops []modelOp, pre string) string {
	all := map[string]*model.FlowModel{}                   // models made
	types := map[*model.FlowModel]map[string]model.TaskBehavior{} // their types
	defs := map[*model.FlowModel]model.TaskBehavior{}
	reg := map[string]*model.FlowModel{}
	make_ := func(n string) *model.FlowModel {
		m := model.New(pre + n)
		types[m] = map[string]model.TaskBehavior{}
		all[n] = m
		return m
	}
	var def *model.FlowModel
	defer model.RegisterDefault(model.Default())
	for i, o := range ops {
		switch o.Op {
		case "register", "again":
			m := all[o.Name]
			if m == nil || o.Op == "again" {
				m = make_(o.Name)
			}
			dup := reg[o.Name] != nil
			if panics(func() { model.Register(m) }) != dup {
				return fmt.Sprintf("operation %d: registering model %s (registered before: %v)", i, o.Name, dup)
			}
			if !dup {
				reg[o.Name] = m
			}
		case "default":
			m := all[o.Name]
			if m == nil {
				m = make_(o.Name)
			}
			model.RegisterDefault(m)
			if reg[o.Name] == nil {
				reg[o.Name] = m
			}
			def = m
		case "nil":
			if !panics(func() { model.Register(nil) }) || !panics(func() { model.RegisterDefault(nil) }) {
				return fmt.Sprintf("operation %d: no model was registered", i)
			}
		case "type", "deftype":
			m := all[o.Name]
			if m == nil {
				m = make_(o.Name)
			}
			var b model.TaskBehavior = &namedBehavior{TaskBehavior: simple.TaskBehavior{}, n: i}
			types[m][o.Type] = b
			if o.Op == "type" {
				m.RegisterTaskBehavior(o.Type, b)
			} else {
				m.RegisterDefaultTaskBehavior(o.Type, b)
				defs[m] = b
			}
		}
		// everything is as described
		for n := range all {
			m, err := model.Get(pre + n)
			if (err == nil) != (reg[n] != nil) || m != reg[n] {
				return fmt.Sprintf("after operation %d: the model found under %s is not the one registered (%v)", i, n, err)
			}
		}
		if def != nil && model.Default() != def {
			return fmt.Sprintf("after operation %d: the default model is not the last one registered as default", i)
		}
		for m, ts := range types {
			for _, t := range []string{"", "a", "b", "c", "none"} {
				b, ok := ts[t]
				if t == "" && defs[m] != nil {
					b, ok = defs[m], true
				}
				if m.IsValidTaskType(t) != ok {
					return fmt.Sprintf("after operation %d: task type %q is accepted: %v, registered: %v", i, t, !ok, ok)
				}
				if g := m.GetTaskBehavior(t); t != "" && g != b || t == "" && g != defs[m] {
					return fmt.Sprintf("after operation %d: the behaviour of task type %q is not the one registered", i, t)
				}
				if def == m && util.IsValidTaskType("", t) != ok {
					return fmt.Sprintf("after operation %d: task type %q of the default model is accepted: %v", i, t, !ok)
				}
			}
			if m.GetDefaultTaskBehavior() != defs[m] {
				return fmt.Sprintf("after operation %d: the default behaviour is not the one registered", i)
			}
		}
		for n := range all {
			for _, t := range []string{"", "a", "b", "c", "none"} {
				ok := reg[n] != nil && reg[n].IsValidTaskType(t)
				if util.IsValidTaskType(pre+n, t) != ok {
					return fmt.Sprintf("after operation %d: task type %q of model %s is accepted: %v", i, t, n, !ok)
				}
				if t != "" && ok != typeAccepted(pre+n, t) {
					return fmt.Sprintf("after operation %d: a flow of model %s with a task of type %q is accepted: %v", i, n, t, !ok)
				}
			}
		}
	}
	return ""
}

func typeAccepted(m, typ string) bool {
	r := (&Flow{Name: "x", Tasks: []*Task{{ID: "A", Type: typ}}}).rep()
	r.ModelID = m
	_, err := definition.NewDefinition(r)
	return err == nil
}

type namedBehavior struct {
	simple.TaskBehavior
	n int
}


// ---------------------------------------------------------------- remote flows

func zipped(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, _ = w.Write(b)
	_ = w.Close()
	return buf.Bytes()
}

type remoteCase struct {
	How string `json:"how"`
	URI string `json:"uri"`
	OK  bool   `json:"ok"`
}

func checkRemote(c remoteCase) string {
	fm := support.NewFlowManager(nil)
	var what string
	if err := guarded(20*time.Second, func() {
		for k := 0; k < 2; k++ {
			d, err := fm.GetFlow(c.URI)
			if (err == nil) != c.OK {
				what = fmt.Sprintf("request %d for a flow (%s): error %v", k, c.How, err)
				return
			}
			if err == nil && (d == nil || d.Name() != "remote" || len(d.Tasks()) != 2) {
				what = "not the flow described"
				return
			}
		}
	}); err != nil {
		return err.Error()
	}
	return what
}

func TestLookup(t *testing.T) {
	if !want("C22") {
		return
	}
	rep.Rule = "sequence with at least one repeated reference or name"
	log.SetLogLevel(log.RootLogger(), log.ErrorLevel)
	uris := []string{"u1", "u2", "http://h/u1", "file:///u2", ""}
	for i := 0; i < scale(400, 8000) && !failedAlready(); i++ {
		g := rng("flows", i)
		c := lookupCase{Fail: map[string]int{}, Bad: map[string]bool{}, Concurrent: g.Intn(4) == 0, Default: g.Intn(3) == 0}
		for _, u := range uris {
			if g.Intn(3) == 0 {
				c.Fail[u] = 1 + g.Intn(2)
			} else if g.Intn(5) == 0 {
				c.Bad[u] = true
			}
		}
		for k := 3 + g.Intn(12); k > 0; k-- {
			c.Seq = append(c.Seq, uris[g.Intn(len(uris))])
		}
		what := ""
		if err := guarded(30*time.Second, func() { what = checkLookup(c) }); err != nil {
			what = err.Error()
		}
		ran("flows", c, js(c), true)
		if what != "" {
			violated(t, "flows", c, "%s", what)
		}
	}
	for i := 0; i < scale(300, 5000) && !failedAlready(); i++ {
		g := rng("models", i)
		var ops []modelOp
		for k := 2 + g.Intn(10); k > 0; k-- {
			ops = append(ops, modelOp{Op: []string{"register", "register", "again", "default", "nil", "type", "type", "deftype"}[g.Intn(8)],
				Name: []string{"m1", "m2", "m3"}[g.Intn(3)], Type: []string{"a", "b", "c"}[g.Intn(3)]})
		}
		what := ""
		if err := guarded(30*time.Second, func() { what = checkModels(ops, fmt.Sprintf("zz%d-", i)) }); err != nil {
			what = err.Error()
		}
		ran("models", ops, js(ops), true)
		if what != "" {
			violated(t, "models", ops, "%s", what)
		}
	}
	// the simple model: the types of its documentation
	m := simple.New()
	for _, ty := range []string{"", "basic", "iterator", "doWhile", "Basic", "loop", "subflow"} {
		ok := ty == "" || ty == "basic" || ty == "iterator" || ty == "doWhile"
		if m.IsValidTaskType(ty) != ok || (m.GetTaskBehavior(ty) != nil) != ok {
			violated(t, "models", ty, "the simple model takes task type %q: %v", ty, m.IsValidTaskType(ty))
		}
	}

	dir, err := os.MkdirTemp("", "zzlookup")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	good, _ := json.Marshal((&Flow{Name: "remote", Tasks: []*Task{{ID: "A"}, {ID: "B"}}, Links: []*Link{{From: "A", To: "B"}}}).rep())
	files := map[string][]byte{"plain": good, "zipped": zipped(good), "empty": {}, "one": {0x1f}, "notjson": []byte("{no"), "badzip": {0x1f, 0x8b, 1, 2}, "truncated": zipped(good)[:40], "list": []byte("[1]")}
	okFiles := map[string]bool{"plain": true, "zipped": true}
	var cases []remoteCase
	for n, b := range files {
		p := filepath.Join(dir, n)
		_ = os.WriteFile(p, b, 0644)
		cases = append(cases, remoteCase{"file " + n, "file://" + p, okFiles[n]})
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n := r.URL.Path[1:]
		switch n {
		case "missing":
			w.WriteHeader(404)
			_, _ = w.Write(good)
		case "broken":
			w.WriteHeader(500)
			_, _ = w.Write(good)
		case "compressed", "compressedTrue":
			w.Header().Set("flow-compressed", map[string]string{"compressed": "true", "compressedTrue": "True"}[n])
			_, _ = w.Write([]byte(base64.StdEncoding.EncodeToString(zipped(good))))
		case "badcompressed":
			w.Header().Set("flow-compressed", "true")
			_, _ = w.Write(good)
		case "notcompressed":
			w.Header().Set("flow-compressed", "false")
			_, _ = w.Write(good)
		case "short":
			w.Header().Set("Content-Length", "100000")
			_, _ = w.Write(good)
		default:
			_, _ = w.Write(files[n])
		}
	}))
	defer srv.Close()
	for n, ok := range map[string]bool{"plain": true, "empty": false, "notjson": false, "missing": false, "broken": false, "compressed": true, "compressedTrue": true, "badcompressed": false, "notcompressed": true, "short": false} {
		cases = append(cases, remoteCase{"http " + n, srv.URL + "/" + n, ok})
	}
	cases = append(cases, remoteCase{"missing file", "file://" + filepath.Join(dir, "nothing"), false}, remoteCase{"invalid uri", "http://a b/%zz", false},
		remoteCase{"no uri", "", false}, remoteCase{"unknown scheme", "ftp://x/y", false}, remoteCase{"nobody listens", "http://127.0.0.1:1/x", false})
	for _, c := range cases {
		if failedAlready() {
			return
		}
		what := checkRemote(c)
		ran("remote", c, c.How, true)
		if what != "" {
			violated(t, "remote", c, "%s", what)
		}
	}
}
