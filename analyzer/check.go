package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Env is one run of one check.
type Env struct {
	reader   string // the operation whose memory may hold anything (see memo.go)
	id, tier string
	poolFree map[*ssa.Function]bool
	seed     int
	w        *World
	viol     []violation
	cov      map[string]int
	samples  []string
	rules    []string
	funcs    map[string]bool
	assume   []string
	// comparisons are spread over processes: part is the one to run here (-1: only
	// list them, -2: all of them)
	part   int
	jobs   []string
	floors []floorRule
}

type floorRule struct {
	name string
	min  int
}

// job reports whether the next comparison is to be run in this process.
func (e *Env) job(name string) bool {
	e.jobs = append(e.jobs, name)
	return e.part == -2 || e.part == len(e.jobs)-1
}

type violation struct {
	key  string // rule + construct: identifies it in the known-findings file
	text string
}

func (e *Env) bad(rule, construct, format string, a ...any) {
	e.bad0(rule+" "+construct, fmt.Sprintf(format, a...))
}

func (e *Env) bad0(k, text string) {
	for _, v := range e.viol {
		if v.key == k {
			return
		}
	}
	e.viol = append(e.viol, violation{k, text})
}

func (e *Env) count(k string, n int) { e.cov[k] += n }

func (e *Env) sample(format string, a ...any) {
	if len(e.samples) < 12 {
		e.samples = append(e.samples, trunc(fmt.Sprintf(format, a...), 400))
	}
}

func (e *Env) ok(cond bool) {
	e.cov["obligations"]++
	if cond {
		e.cov["discharged"]++
	}
}

// floor fails the check when a rule finds fewer instances than confirmed by hand: a rule
// that matches nothing would pass forever.
func (e *Env) floor(name string, min int) {
	if e.part != -2 {
		e.floors = append(e.floors, floorRule{name, min})
		return
	}
	if e.cov[name] < min {
		e.bad("floor", name, "only %d instances of %q found, at least %d expected: the rule no longer sees the code it is about", e.cov[name], name, min)
	}
}

type Check struct {
	id    string
	level string
	specs []string // packages whose reference functions it uses
	run   func(e *Env)
}

var checks = map[string]*Check{}

func register(id, level string, run func(e *Env), specs ...string) {
	checks[id] = &Check{id, level, specs, run}
}

// entry resolves a function of the public interface; its absence is a violation.
func (e *Env) entry(name string) *ssa.Function {
	f := e.w.fn(name)
	if f == nil || len(f.Blocks) == 0 {
		e.bad("missing", name, "%s is gone: the property is about it", name)
		return nil
	}
	e.funcs[name] = true
	return f
}

// guard runs part of a check; an analysis that gives up is reported, never passed over.
func (e *Env) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if l, ok := r.(analysisLimit); ok {
				e.bad("undecided", what, "%s: not decided: %s", what, string(l))
				return
			}
			if os.Getenv("CRASH") != "" {
				panic(r)
			}
			e.bad("undecided", what, "%s: not decided: %v", what, r)
		}
	}()
	f()
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "dbg" {
		os.Args = append(os.Args[:1], os.Args[2:]...)
		dbgMain()
		return
	}
	prop := flag.String("property", "", "property to check")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "directory of the machinery")
	part := flag.Int("part", -1, "run one comparison of the property and write its result to -out")
	partOut := flag.String("out", "", "result of -part")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if *part >= 0 {
		os.Exit(runPart(*prop, *repo, *verif, *part, *partOut))
	}
	os.Exit(runCheck(*prop, *repo, *verif, tier, seed))
}

// partResult is what a process that ran one comparison reports.
type partResult struct {
	Viol    [][2]string
	Cov     map[string]int
	Samples []string
	Funcs   []string
}

func runPart(prop, repo, verif string, part int, out string) int {
	c := checks[prop]
	e := &Env{id: prop, cov: map[string]int{}, funcs: map[string]bool{}, part: part}
	w, err := loadWorld(repo, filepath.Join(verif, "spec"), c.specs...)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	e.w = w
	e.guard("check "+prop, func() { c.run(e) })
	r := partResult{Cov: e.cov, Samples: e.samples}
	for _, v := range e.viol {
		r.Viol = append(r.Viol, [2]string{v.key, v.text})
	}
	for f := range e.funcs {
		r.Funcs = append(r.Funcs, f)
	}
	b, _ := json.Marshal(r)
	if os.WriteFile(out, b, 0o644) != nil {
		return 2
	}
	return 0
}

// runParts runs every comparison in a process of its own.
func (e *Env) runParts(repo, verif string) {
	dir, err := os.MkdirTemp("", "permcheck")
	if err != nil {
		panic(analysisLimit(err.Error()))
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		panic(analysisLimit(err.Error()))
	}
	limit := time.Now().Add(780 * time.Second)
	n := runtime.NumCPU()
	if n > 7 {
		n = 7
	}
	slots := make(chan bool, n)
	res := make([]*partResult, len(e.jobs))
	why := make([]string, len(e.jobs))
	var wg sync.WaitGroup
	for i := range e.jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			ctx, cancel := context.WithDeadline(context.Background(), limit)
			defer cancel()
			out := filepath.Join(dir, fmt.Sprint(i))
			cmd := exec.CommandContext(ctx, self, "-property", e.id, "-repo", repo, "-verif", verif, "-part", fmt.Sprint(i), "-out", out)
			msg, err := cmd.CombinedOutput()
			b, rerr := os.ReadFile(out)
			r := &partResult{}
			if err != nil || rerr != nil || json.Unmarshal(b, r) != nil {
				why[i] = fmt.Sprint(err, " ", trunc(string(msg), 300))
				return
			}
			res[i] = r
		}()
	}
	wg.Wait()
	for i, r := range res {
		if r == nil {
			e.bad("undecided", e.jobs[i], "%s: not decided: %s", e.jobs[i], why[i])
			continue
		}
		for _, v := range r.Viol {
			e.bad0(v[0], v[1])
		}
		for k, n := range r.Cov {
			e.cov[k] += n
		}
		for _, s := range r.Samples {
			e.sample("%s", s)
		}
		for _, f := range r.Funcs {
			e.funcs[f] = true
		}
	}
	e.count("comparisons", len(e.jobs))
	e.part = -2
	for _, f := range e.floors {
		e.floor(f.name, f.min)
	}
}

func runCheck(prop, repo, verif, tier string, seed int) int {
	t0 := time.Now()
	c := checks[prop]
	if c == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	e := &Env{id: prop, tier: tier, seed: seed, cov: map[string]int{}, funcs: map[string]bool{}}
	w, err := loadWorld(repo, filepath.Join(verif, "spec"), c.specs...)
	if err != nil {
		e.bad("load", "repository", "the repository (with the reference functions) does not type-check: %v", err)
	} else {
		e.w = w
		e.part = -1
		e.guard("check "+prop, func() {
			c.run(e)
			e.runParts(repo, verif)
		})
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), prop)
	sort.Slice(e.viol, func(i, j int) bool { return e.viol[i].key < e.viol[j].key })
	rep := filepath.Join(verif, "evidence", prop+".report.txt")
	os.MkdirAll(filepath.Dir(rep), 0o755)
	var out strings.Builder
	n := 0
	for _, v := range e.viol {
		if known[v.key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, v.key)
			continue
		}
		n++
		fmt.Fprintf(&out, "[%s] %s\n", v.key, v.text)
	}
	os.WriteFile(rep, []byte(out.String()), 0o644)
	if out.Len() > 0 {
		fmt.Println(strings.TrimRight(trunc(out.String(), 6000), "\n"))
	}
	cov := map[string]any{}
	for k, v := range e.cov {
		cov[k] = v
	}
	fs := make([]string, 0, len(e.funcs))
	for f := range e.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	cov["entry_points"] = fs
	cov["rule"] = strings.Join(e.rules, " | ")
	cov["explanation"] = strings.Join(e.rules, " | ")
	cov["samples"] = e.samples
	if w != nil {
		cov["source_files"] = w.nsrc
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": c.level, "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": n, "assumptions": e.assume}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	if n > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rep)
		return 1
	}
	fmt.Printf("ok property=%s obligations=%d discharged=%d wall=%.1fs\n", prop, e.cov["obligations"], e.cov["discharged"], time.Since(t0).Seconds())
	return 0
}

// readKnown reads the lines "known: property=<id> <rule> <construct>"; "fixed:" lines
// suppress nothing.
func readKnown(file, prop string) map[string]bool {
	r := map[string]bool{}
	b, err := os.ReadFile(file)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(strings.TrimSpace(l), "known: property="+prop+" "); ok {
			r[strings.TrimSpace(s)] = true
		}
	}
	return r
}
