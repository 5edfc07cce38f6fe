package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "working tree")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	fn := flag.String("fn", "", "verify the functions whose key contains this text")
	prop := flag.String("prop", "", "property")
	unroll := flag.Int("unroll", 0, "unroll loops")
	jsonOut := flag.String("json", "", "write a report to this file")
	retryUnroll := flag.Int("retry-unroll", 0, "retry failed functions that have loops with this bound")
	budget := flag.Float64("budget", 0, "stop starting new functions after this many seconds")
	workers := flag.Int("workers", 0, "verify that many functions at a time")
	serve := flag.Bool("serve", false, "verify the functions named on the standard input")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.BoolVar(&noFallback, "nofb", false, "no fallback solvers")
	flag.Parse()
	w, err := loadWorld(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := w.loadSpecs(*specs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	start := time.Now()
	if *serve {
		solvers = 4
	}
	if (*jsonOut != "" || *prop != "") && *fn == "" {
		*fn = "all"
	}
	var reports []*jFn
	if *fn == "" {
		var ks []string
		for k := range w.fnByKey {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	var list []*FuncSpec
	for _, sp := range w.specs {
		if sp.Kind == "func" && !sp.Trusted {
			list = append(list, sp)
		}
	}
	list = append(list, w.impls...)
	sort.Slice(list, func(i, j int) bool { return list[i].Name < list[j].Name })
	var todo []*FuncSpec
	queued := map[*FuncSpec]bool{}
	for _, sp := range list {
		if !strings.Contains(sp.Name, *fn) && *fn != "all" {
			continue
		}
		if *prop != "" && !sp.Tags[*prop] {
			continue
		}
		todo = append(todo, sp)
		queued[sp] = true
	}
	one := func(sp *FuncSpec) *jFn {
		u := *unroll
		if u == 0 {
			u = sp.Bound
		}
		r := w.verify(sp, *prop, u)
		if u > 0 {
			r.BoundWhy = sp.BoundWhy
		}
		if r.Status == "failed" && *retryUnroll > 0 && r.HasLoop && u == 0 {
			r2 := w.verify(sp, *prop, *retryUnroll)
			if r2.Status == "bounded" {
				r2.BoundWhy = fmt.Sprintf("the inductive proof no longer goes through on the changed text (%d of %d obligations); loops unrolled %d times instead", r.Proved, r.Total, *retryUnroll)
				r = r2
			}
		}
		return toJSON(r)
	}
	if *serve {
		in := bufio.NewScanner(os.Stdin)
		real := os.Stdout
		os.Stdout = os.Stderr
		enc := json.NewEncoder(real)
		for in.Scan() {
			for _, sp := range list {
				if sp.Name == in.Text() {
					enc.Encode(one(sp))
				}
			}
		}
		return
	}
	type result struct {
		sp *FuncSpec
		r  *jFn
	}
	results := make(chan result)
	work := make(chan *FuncSpec)
	n := *workers
	if n < 1 {
		n = 1
	}
	for k := 0; k < n; k++ {
		k := k
		go func() {
			var in io.WriteCloser
			var out *json.Decoder
			for sp := range work {
				if *workers < 1 {
					results <- result{sp, one(sp)}
					continue
				}
				if in == nil {
					args := append([]string{"-serve"}, os.Args[1:]...)
					c := exec.Command(os.Args[0], args...)
					c.Stderr = os.Stderr
					in, _ = c.StdinPipe()
					o, _ := c.StdoutPipe()
					out = json.NewDecoder(o)
					if err := c.Start(); err != nil {
						fmt.Fprintln(os.Stderr, err)
						os.Exit(2)
					}
				}
				r := &jFn{}
				fmt.Fprintln(in, sp.Name)
				if err := out.Decode(r); err != nil {
					fmt.Fprintf(os.Stderr, "worker %d ended at %s: %v\n", k, sp.Name, err)
					os.Exit(2)
				}
				results <- result{sp, r}
			}
			if in != nil {
				in.Close()
			}
		}()
	}
	running := 0
	for len(todo) > 0 || running > 0 {
		for len(todo) > 0 && *budget > 0 && time.Since(start).Seconds() > *budget {
			reports = append(reports, &jFn{Name: todo[0].Name, Status: "not reached", Total: 1, Obls: []jObl{}, Failed: []jObl{}})
			todo = todo[1:]
		}
		if len(todo) == 0 && running == 0 {
			break
		}
		var next *FuncSpec
		send := work
		if len(todo) > 0 && running < n {
			next = todo[0]
		} else {
			send = nil
		}
		var r *jFn
		select {
		case send <- next:
			todo = todo[1:]
			running++
			continue
		case d := <-results:
			running--
			r = d.r
		}
		reports = append(reports, r)
		if *prop != "" {
			// contracts that belong to no property (frames of helpers) are verified wherever they are used
			for _, n := range r.Uses {
				for _, h := range list {
					if h.Key == n && len(h.Tags) == 0 && !queued[h] {
						queued[h] = true
						todo = append(todo, h)
					}
				}
			}
		}
		fmt.Printf("%-60s %-8s %d/%d  %.1fs %s\n", r.Name, r.Status, r.Proved, r.Total, r.Secs, r.Err)
		for _, o := range r.Obls {
			if verbose || (o.Status != "unsat" && o.Kind != "cover") {
				fmt.Printf("   [%s] %-12s %s  (%.2fs %s) %s\n", o.Status, o.Kind, o.Name, o.Secs, o.Backend, o.Pos)
				if o.Status != "unsat" && o.Kind != "cover" {
					fmt.Println("       " + strings.ReplaceAll(o.Output, "\n", " / "))
				}
			}
		}
		for _, o := range r.Failed {
			if o.Kind == "cover" {
				fmt.Printf("   VACUOUS: %s\n", o.Name)
			}
		}
		if verbose {
			for _, i := range r.Invariants {
				fmt.Println("   inv:", i)
			}
			for _, i := range r.Assumptions {
				fmt.Println("   assume:", i)
			}
			fmt.Println("   inlined:", strings.Join(r.Inlined, " "))
		}
	}
	close(work)
	sort.SliceStable(reports, func(i, j int) bool { return reports[i].Name < reports[j].Name })
	if *jsonOut != "" {
		if err := writeReport(*jsonOut, reports); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
}

type jObl struct {
	Name    string  `json:"name"`
	Kind    string  `json:"kind"`
	Status  string  `json:"status"`
	Backend string  `json:"backend"`
	Secs    float64 `json:"secs"`
	Pos     string  `json:"pos,omitempty"`
	Output  string  `json:"output,omitempty"`
}

type jFn struct {
	Name        string   `json:"name"`
	Loc         string   `json:"loc"`
	Status      string   `json:"status"`
	Total       int      `json:"total"`
	Proved      int      `json:"proved"`
	Secs        float64  `json:"secs"`
	Err         string   `json:"err,omitempty"`
	Missing     bool     `json:"missing,omitempty"`
	Bound       int      `json:"bound,omitempty"`
	BoundWhy    string   `json:"bound_why,omitempty"`
	Obls        []jObl   `json:"obligations"`
	Failed      []jObl   `json:"failed"`
	Invariants  []string `json:"invariants"`
	Assumptions []string `json:"assumptions"`
	Uses        []string `json:"uses"`
	Inlined     []string `json:"inlined"`
}

func writeReport(path string, out []*jFn) error {
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0644)
}

func toJSON(r *FnReport) *jFn {
	conv := func(os []*Obl) []jObl {
		l := []jObl{}
		for _, o := range os {
			j := jObl{Name: o.name, Kind: o.kind, Status: o.status, Backend: o.backend, Secs: o.secs, Pos: o.pos}
			if o.status != "unsat" {
				j.Output = o.output
			}
			l = append(l, j)
		}
		return l
	}
	return &jFn{Name: r.Name, Loc: r.Loc, Status: r.Status, Total: r.Total, Proved: r.Proved, Secs: r.Secs, Err: r.Err, Missing: r.Missing,
		Bound: r.Bound, BoundWhy: r.BoundWhy, Obls: conv(r.Obls), Failed: conv(r.Failed), Invariants: r.Invariants, Assumptions: r.Assumptions, Uses: r.Uses, Inlined: r.Inlined}
}
