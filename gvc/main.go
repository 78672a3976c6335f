package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type outObl struct {
	Name, Kind, Pos, Path, Status, Solver, Output string
	Ms                                            int64
}

type outFunc struct {
	Func, Pos, Status, Err         string
	Obligations, Discharged, Cover int
	BySolver                       map[string]int
	Failed                         []outObl
	Uses, Assumptions, Inlined     []string
	Candidates                     []string `json:"dropped_candidates,omitempty"`
	Paths, TermLoops               int
	Ms                             int64
}

type outAll struct {
	Functions   []outFunc
	Obligations int
	Discharged  int
	BySolver    map[string]int
	SolverMs    map[string]int64
	WallMs      int64
	Ok          bool
	Missing     []string
}

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Preds: map[string]*Pred{}, Folds: map[string]*Fold{}, Contracts: map[string]*Contract{}, UFs: map[string]*UFDecl{}, Ghosts: map[string]*UFDecl{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := ParseSpecs(f, db); err != nil {
			return nil, err
		}
	}
	return db, nil
}

var repoTargets = []string{
	modPath, modPath + "/log", modPath + "/blobstore", modPath + "/blobstore/memstore", modPath + "/blobstore/filestore", modPath + "/backup", modPath + "/api", modPath + "/api/morph", modPath + "/api/app", modPath + "/api/log",
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract directory")
	funcs := flag.String("funcs", "", "comma separated functions (default: all contracts); callees under contract are added")
	out := flag.String("json", "", "write results here")
	keep := flag.String("keep", "", "directory for failed queries")
	verbose := flag.Bool("v", false, "verbose")
	only := flag.Bool("only", false, "do not follow callees")
	targets := flag.String("targets", "", "packages to load from source")
	lemmas := flag.String("lemmas", "", "comma separated lemmas to prove")
	flag.BoolVar(&debugPanics, "debug", false, "crash on internal errors")
	fast := flag.Int("fast", 4000, "first solver timeout (ms)")
	slow := flag.Int("slow", 20000, "last solver timeout (ms)")
	locks := flag.String("locks", "", "verify the ownership contracts of this file instead")
	codecs := flag.String("codec", "", "verify the codec contracts of this file instead")
	list := flag.Bool("list", false, "list all source functions of the targets and whether they have contracts")
	flag.Parse()
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "gvc")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	db, err := loadSpecs(*dir)
	if err != nil {
		fatal(err)
	}
	ts := []string{modPath}
	if *targets != "" {
		ts = nil
		for _, t := range strings.Split(*targets, ",") {
			if t == "." {
				ts = append(ts, modPath)
			} else if f, ok := strings.CutPrefix(t, "std:"); ok { // a package of the standard library
				ts = append(ts, f)
			} else if strings.Contains(strings.SplitN(t, "/", 2)[0], ".") {
				ts = append(ts, t) // full import path
			} else {
				ts = append(ts, modPath+"/"+t)
			}
		}
	}
	prog, err := Load(*repo, scratch, ts)
	if err != nil {
		os.RemoveAll(scratch)
		fmt.Fprintln(os.Stderr, "LOAD-ERROR:", err)
		os.Exit(2)
	}
	if *list {
		for _, k := range sortedKeys(prog.Funcs) {
			m := " "
			if c := db.Contracts[k]; c != nil {
				m = "C"
				if c.Inline {
					m = "i"
				}
			}
			fmt.Println(m, k)
		}
		return
	}
	if *locks != "" {
		ok := ledgerMain(prog, *locks, *out, *verbose)
		os.RemoveAll(scratch)
		if !ok {
			os.Exit(1)
		}
		return
	}
	if *codecs != "" {
		ok := codecMain(prog, *codecs, *out, *verbose)
		os.RemoveAll(scratch)
		if !ok {
			os.Exit(1)
		}
		return
	}
	globalSem = make(chan struct{}, runtime.NumCPU())
	if *keep != "" {
		_ = os.MkdirAll(*keep, 0755)
	}
	sv := NewSolver(runtime.NumCPU(), *keep)
	sv.Fast, sv.Slow = *fast, *slow
	var want []string
	if *funcs != "" {
		want = strings.Split(*funcs, ",")
	} else if *lemmas == "" {
		for _, k := range db.Order {
			if !db.Contracts[k].Extern && !db.Contracts[k].Inline {
				if prog.Funcs[k] != nil {
					want = append(want, k)
				}
			}
		}
	}
	res := outAll{BySolver: map[string]int{}, Ok: true}
	done := map[string]bool{}
	var mu sync.Mutex
	var results []*FuncResult
	for len(want) > 0 {
		var batch []string
		for _, k := range want {
			if !done[k] {
				done[k] = true
				batch = append(batch, k)
			}
		}
		want = nil
		if len(batch) == 0 {
			break
		}
		var wg sync.WaitGroup
		lim := make(chan struct{}, runtime.NumCPU())
		for _, k := range batch {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				lim <- struct{}{}
				defer func() { <-lim }()
				r := verifyFunc(prog, db, k, sv)
				mu.Lock()
				results = append(results, r)
				if !*only {
					for _, u := range r.Used {
						if !done[u] {
							want = append(want, u)
						}
					}
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	ld := map[string]bool{}
	var lq []string
	if *lemmas != "" {
		lq = strings.Split(*lemmas, ",")
	}
	for _, r := range results {
		lq = append(lq, r.Lemmas...)
	}
	for i := 0; i < len(lq); i++ {
		if l := lq[i]; !ld[l] {
			ld[l] = true
			r := verifyLemma(prog, db, l, sv)
			results = append(results, r)
			lq = append(lq, r.Lemmas...)
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].Func < results[j].Func })
	sv.Rescue(results)
	for _, r := range results {
		of := outFunc{Func: r.Func, Pos: r.Pos, Status: "verified", Err: r.Err, BySolver: map[string]int{}, Uses: r.Used, Assumptions: r.Externs, Inlined: r.Inlined, Candidates: r.Dropped, Paths: r.Paths, Ms: r.Ms, TermLoops: r.TermLoop}
		retCover, anyCover := false, false
		var vac *Obl
		for _, o := range r.Obls {
			if o.Cover {
				of.Cover++
				if o.Label == "return" {
					anyCover = true
					if o.Status == "proved" {
						retCover = true
					} else {
						vac = o
					}
				} else if o.Status != "proved" {
					of.Failed = append(of.Failed, outObl{Name: o.Name, Kind: "vacuous", Pos: o.Pos, Path: o.Path, Status: o.Status})
				}
				continue
			}
			of.Obligations++
			if o.Status == "proved" {
				of.Discharged++
				of.BySolver[o.Solver]++
			} else {
				of.Failed = append(of.Failed, outObl{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Path: o.Path, Status: o.Status, Solver: o.Solver, Output: o.Output, Ms: o.Ms})
			}
			if *verbose && o.Ms > 1000 {
				fmt.Printf("   slow %s %dms %s\n", o.Name, o.Ms, o.Solver)
			}
		}
		if anyCover && !retCover {
			of.Failed = append(of.Failed, outObl{Name: vac.Name, Kind: "vacuous", Pos: vac.Pos, Path: vac.Path, Status: "no return path is reachable under the contract"})
		}
		if r.Err != "" {
			of.Status = "error"
			of.Obligations++
		} else if len(of.Failed) > 0 {
			of.Status = "failed"
		}
		if of.Status != "verified" {
			res.Ok = false
		}
		res.Obligations += of.Obligations
		res.Discharged += of.Discharged
		for k, v := range of.BySolver {
			res.BySolver[k] += v
		}
		res.Functions = append(res.Functions, of)
		fmt.Printf("%-8s %-45s %4d/%-4d obligations, %d paths, %d ms\n", of.Status, of.Func, of.Discharged, of.Obligations, of.Paths, of.Ms)
		if of.Err != "" {
			fmt.Printf("    error: %s\n", of.Err)
		}
		for i, f := range of.Failed {
			if i >= 12 {
				fmt.Printf("    ... %d more\n", len(of.Failed)-i)
				break
			}
			fmt.Printf("    FAILED %s at %s [%s] %s\n", f.Name, f.Pos, f.Path, strings.SplitN(f.Output, "\n", 2)[0])
		}
		if *verbose && len(of.Candidates) > 0 {
			fmt.Printf("    dropped candidates: %s\n", strings.Join(of.Candidates, " "))
		}
	}
	res.SolverMs = sv.TimeMs
	res.WallMs = time.Since(t0).Milliseconds()
	fmt.Printf("total %d/%d obligations discharged, %d functions, %d ms\n", res.Discharged, res.Obligations, len(res.Functions), res.WallMs)
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		_ = os.WriteFile(*out, b, 0644)
	}
	os.RemoveAll(scratch)
	if !res.Ok {
		os.Exit(1)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "gvc:", err)
	os.Exit(3)
}

// verifyLemma proves a stand-alone statement over contract predicates.
func verifyLemma(prog *Program, db *SpecDB, name string, sv *Solver) (res *FuncResult) {
	t0 := time.Now()
	res = &FuncResult{Func: "lemma " + name}
	var l *LemmaDecl
	li := 0
	for i, x := range db.Lemmas {
		if x.Name == name {
			l, li = x, i
		}
	}
	if l == nil {
		res.Err = "no such lemma"
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if debugPanics {
				panic(r)
			}
			res.Err = fmt.Sprint(r)
		}
	}()
	w := NewWorld(prog, db)
	w.BV = l.Mode == "bv"
	p := w.pkgByName(l.Pkg)
	var fi *FuncInfo
	for _, k := range sortedKeys(prog.Funcs) {
		if prog.Funcs[k].Pkg == p {
			fi = prog.Funcs[k]
			break
		}
	}
	e := newEx(w, fi, nil)
	w.declare("alloc!0", "(declare-const alloc!0 Int)")
	st := &State{vars: map[vkey]Value{}, heaps: map[string]*Term{}, alloc: sym("alloc!0", "Int"), defers: map[int][]deferred{}}
	vars := map[string]Value{}
	for _, q := range l.Params {
		t := w.resolveType(q.Type, l.Pkg)
		v := w.fresh(q.Name, w.sortOf(t))
		e.wf(st, v, t)
		vars[q.Name] = Value{T: v, Typ: t}
	}
	env := &Env{e: e, w: w, st: st, old: st, vars: vars, pkg: l.Pkg, goal: false, freshA: st.alloc, lemmaMax: li}
	req := func(st *State, env *Env) {
		for _, r := range l.Req {
			env.goal, env.nq = false, nil
			st.assume(env.evalBool(r.X))
		}
	}
	use := func(st *State, env *Env) {
		for _, u := range l.Use {
			a := *env
			a.goal, a.nq, a.useLemma = false, nil, true
			st.assume(a.evalBool(u.X))
		}
	}
	prove := func(st *State, env *Env, part string) {
		env.goal = true
		for i, en := range l.Ens {
			env.nq = nil
			e.oblige(st, "lemma", name+":"+labelOr(en.Label, i)+part, en.Pos, env.evalBool(en.X))
		}
	}
	if l.Induct == "" {
		req(st, env)
		use(st, env)
		prove(st, env, "")
	} else {
		with := func(t *Term) *Env {
			n := env.sub()
			n.vars[l.Induct] = Value{T: t, Typ: vars[l.Induct].Typ}
			return n
		}
		base := st.clone()
		req(base, with(zero))
		use(base, with(zero))
		prove(base, with(zero), ".base")
		k := vars[l.Induct].T
		st.assume(le(zero, k))
		nx := with(add(k, one))
		req(st, nx)
		var rs, es []*Term
		for _, r := range l.Req {
			env.goal, env.nq = true, nil
			rs = append(rs, env.evalBool(r.X))
		}
		for _, en := range l.Ens {
			env.goal, env.nq = false, nil
			es = append(es, env.evalBool(en.X))
		}
		st.assume(imp(and(rs...), and(es...)))
		use(st, nx)
		prove(st, nx, ".step")
	}
	res.Lemmas = sortedKeys(e.lemmas)
	nameObls(e.obls)
	for _, o := range e.obls {
		o.Func = "lemma " + name
	}
	sv.SolveAll(e, e.obls, false)
	res.Obls = e.obls
	res.Ms = time.Since(t0).Milliseconds()
	return
}
