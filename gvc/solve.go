package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	Workers int
	Dir     string // keep failing queries here
	mu      sync.Mutex
	seen    map[string]*Obl
	TimeMs  map[string]int64
	Fast    int // ms
	Slow    int
}

func NewSolver(workers int, dir string) *Solver {
	return &Solver{Workers: workers, Dir: dir, seen: map[string]*Obl{}, TimeMs: map[string]int64{}, Fast: 4000, Slow: 20000}
}

// text builds the SMT-LIB query of an obligation.
func (e *Ex) text(o *Obl, prune bool) string {
	w := e.w
	syms := map[string]bool{}
	o.Goal.symbols(syms)
	facts := o.Facts
	if prune {
		fold := false
		for s := range syms {
			fold = fold || strings.HasPrefix(s, "F_")
		}
		if !fold {
			facts = nil
			for _, f := range o.Facts {
				ss := map[string]bool{}
				f.symbols(ss)
				use := true
				for s := range ss {
					if strings.HasPrefix(s, "F_") {
						use = false
					}
				}
				if use {
					facts = append(facts, f)
				}
			}
		}
	}
	{
		seen := map[string]bool{}
		var out []*Term
		for _, f := range facts {
			if k := f.String(); !seen[k] {
				seen[k] = true
				out = append(out, f)
			}
		}
		facts = out
	}
	for _, f := range facts {
		f.symbols(syms)
	}
	// entry heaps
	var extra []*Term
	st := &State{vars: nil, heaps: map[string]*Term{}, alloc: sym("alloc!0", "Int")}
	for _, s := range sortedKeys(syms) {
		if strings.HasSuffix(s, "!0") && s != "alloc!0" {
			key := strings.TrimSuffix(s, "!0")
			if strings.HasPrefix(key, "GV_") {
				for _, f := range e.wfFacts(sym(s, w.heapSort(key)), w.heapTyp[key], st.alloc) {
					extra = append(extra, f)
				}
				continue
			}
			tmp := &State{alloc: st.alloc}
			e.wfHeap(tmp, key, sym(s, w.heapSort(key)))
			extra = append(extra, tmp.facts()...)
		}
	}
	if !w.BV {
		for _, f := range e.foldAxioms() {
			ss := map[string]bool{}
			f.symbols(ss)
			use := false
			for s := range ss {
				if strings.HasPrefix(s, "F_") && syms[s] {
					use = true
				}
			}
			if use {
				extra = append(extra, f)
			}
		}
	}
	if !w.BV {
		for _, a := range w.axioms {
			ss := map[string]bool{}
			a.symbols(ss)
			use := false
			for s := range ss {
				if syms[s] && !strings.HasSuffix(s, "?") && isFnName(s) {
					use = true
				}
			}
			if use {
				extra = append(extra, a)
			}
		}
	}
	for _, f := range extra {
		f.symbols(syms)
	}
	var b strings.Builder
	if !w.BV {
		b.WriteString(w.structDeclsFor(syms))
	} else {
		b.WriteString(w.structDecls())
	}
	// distinct error globals
	var eg []string
	for _, g := range w.errGlob {
		if syms[g] {
			eg = append(eg, g)
		}
	}
	for _, d := range w.declOrd {
		if syms[d] {
			b.WriteString(w.decls[d] + "\n")
		}
	}
	if len(eg) > 0 {
		b.WriteString("(assert (distinct onil " + strings.Join(eg, " ") + "))\n")
	}
	for _, f := range extra {
		b.WriteString("(assert " + f.String() + ")\n")
	}
	for _, f := range facts {
		b.WriteString("(assert " + f.String() + ")\n")
	}
	b.WriteString("(assert (not " + o.Goal.String() + "))\n(check-sat)\n")
	return b.String()
}

func isFnName(s string) bool {
	return strings.HasPrefix(s, "str_") || s == "slen" || s == "substr" || strings.HasPrefix(s, "U_") || strings.HasPrefix(s, "F_") || strings.HasPrefix(s, "obox") || s == "bytes_str" || s == "sat"
}

func (w *World) structDeclsFor(syms map[string]bool) string { return w.structDecls() }

type attempt struct {
	name string
	args []string
	pre  string
	ms   int
}

func (s *Solver) run(ctx context.Context, text string, a attempt) (string, string) {
	ctx, cancel := context.WithTimeout(ctx, time.Duration(a.ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, a.args[0], a.args[1:]...)
	cmd.Stdin = strings.NewReader(a.pre + text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	s.mu.Lock()
	s.TimeMs[a.name] += time.Since(t0).Milliseconds()
	s.mu.Unlock()
	o := strings.TrimSpace(out.String())
	for strings.HasPrefix(o, "WARNING:") && strings.Contains(o, "\n") {
		o = strings.SplitN(o, "\n", 2)[1]
	}
	first := strings.SplitN(o, "\n", 2)[0]
	switch first {
	case "unsat", "sat", "unknown":
		return first, o
	case "timeout":
		return "unknown", o
	}
	if o == "" || strings.Contains(o, "interrupted") || strings.Contains(o, "timeout") || strings.Contains(o, "resource") {
		return "unknown", o
	}
	return "error", o
}

const z3pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

func (s *Solver) attempts(bv bool, quick bool) [][]attempt {
	z := func(bin string, ms int, pre string, extra ...string) attempt {
		return attempt{bin, append(append([]string{bin, "-smt2", "-in", fmt.Sprintf("-t:%d", ms)}, extra...)), pre, ms}
	}
	cv := func(ms int) attempt {
		return attempt{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q"}, "(set-logic ALL)\n", ms}
	}
	if bv {
		return [][]attempt{{z("z3-new", s.Slow, ""), cv(s.Slow), z("z3", s.Slow, "")}}
	}
	if quick {
		return [][]attempt{{z("z3-new", s.Fast, z3pre)}, {z("z3", s.Fast, z3pre), cv(s.Fast)}}
	}
	return [][]attempt{{z("z3-new", s.Fast, z3pre)}, {z("z3", s.Fast, z3pre), cv(s.Fast)}, {z("z3-new", s.Slow, z3pre, "smt.random_seed=7"), z("z3", s.Slow, "(set-option :smt.mbqi true)\n"), cv(s.Slow)}}
}

func (s *Solver) solve(e *Ex, o *Obl, quick bool) {
	if o.Status != "" {
		return
	}
	e.w.mu.Lock()
	bv := e.w.BV
	text := e.text(o, false)
	pruned := text
	if !bv && !o.Cover {
		pruned = e.text(o, true)
	}
	e.w.mu.Unlock()
	h := sha256.Sum256([]byte(text))
	hk := hex.EncodeToString(h[:12])
	s.mu.Lock()
	if p, ok := s.seen[hk]; ok && p.Status != "" {
		o.Status, o.Solver = p.Status, p.Solver
		s.mu.Unlock()
		return
	}
	s.mu.Unlock()
	t0 := time.Now()
	ctx := context.Background()
	if o.Cover {
		st, out := s.run(ctx, text, attempt{"z3-new", []string{"z3-new", "-smt2", "-in", "-t:1500"}, z3pre, 1500})
		o.Output = out
		if st == "unsat" {
			o.Status = "vacuous"
		} else {
			o.Status, o.Solver = "proved", "z3-new"
		}
		o.Ms = time.Since(t0).Milliseconds()
		return
	}
	for ri, round := range s.attempts(bv, quick) {
		q := pruned
		if ri >= 2 {
			q = text
		}
		if o.Status != "" {
			break
		}
		type ans struct {
			st, out, name string
		}
		c2, cancel := context.WithCancel(ctx)
		ch := make(chan ans, len(round))
		for _, a := range round {
			a := a
			go func() {
				st, out := s.run(c2, q, a)
				ch <- ans{st, out, a.name}
			}()
		}
		for range round {
			r := <-ch
			if r.st == "unsat" {
				o.Status, o.Solver = "proved", r.name
				break
			}
			if r.st == "sat" && bv {
				o.Status, o.Solver, o.Output = "failed", r.name, r.out
				break
			}
			o.Output = r.name + ": " + r.out
			if r.st == "error" && len(r.out) > 0 {
				o.Output = r.name + " error: " + r.out
			}
		}
		cancel()
	}
	if o.Status == "" {
		o.Status = "failed"
	}
	o.Ms = time.Since(t0).Milliseconds()
	if f := os.Getenv("GVC_TIMES"); f != "" {
		fmt.Fprintln(os.Stderr, "TIME", o.Ms, o.Name, o.Solver, len(text), len(pruned))
	}
	if o.Status == "failed" && s.Dir != "" {
		_ = os.WriteFile(filepath.Join(s.Dir, sanitize(o.Name)+".pruned.smt2"), []byte("; "+o.Name+" "+o.Pos+" path "+o.Path+"\n"+z3pre+pruned), 0644)
		_ = os.WriteFile(filepath.Join(s.Dir, sanitize(o.Name)+".smt2"), []byte("; "+o.Name+" "+o.Pos+" path "+o.Path+"\n"+z3pre+text), 0644)
	}
	s.mu.Lock()
	s.seen[hk] = o
	s.mu.Unlock()
}

func (s *Solver) SolveAll(e *Ex, os []*Obl, quick bool) {
	var wg sync.WaitGroup
	var gone sync.Map // candidates already found not to hold
	for _, o := range os {
		if o.Status != "" {
			continue
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			globalSem <- struct{}{}
			defer func() { <-globalSem }()
			if _, ok := gone.Load(o.Label); ok && quick {
				o.Status = "failed"
				return
			}
			s.solve(e, o, quick)
			if quick && o.Status != "proved" {
				gone.Store(o.Label, true)
			}
		}()
	}
	wg.Wait()
}

// Rescue gives a few obligations that stay open a wider portfolio, one at a time, until one cannot be proved.
func (s *Solver) Rescue(rs []*FuncResult) {
	left := 12
	for _, r := range rs {
		var open []*Obl
		for _, o := range r.Obls {
			if o.Status == "failed" && !o.Cover {
				open = append(open, o)
			}
		}
		if r.ex == nil || len(open) > 6 || r.ex.w.BV {
			continue
		}
		for _, o := range open {
			if left == 0 || !s.rescue(r.ex, o) {
				break
			}
			left--
		}
	}
}

func (s *Solver) rescue(e *Ex, o *Obl) bool {
	e.w.mu.Lock()
	text, pruned := e.text(o, false), e.text(o, true)
	e.w.mu.Unlock()
	t0 := time.Now()
	ms := s.Slow + s.Slow/2
	z := func(bin string, extra ...string) attempt {
		return attempt{bin, append([]string{bin, "-smt2", "-in", fmt.Sprintf("-t:%d", ms)}, extra...), z3pre, ms}
	}
	cv := attempt{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q"}, "(set-logic ALL)\n", ms}
	type job struct {
		a attempt
		q string
	}
	jobs := []job{
		{z("z3-new", "smt.random_seed=1"), pruned},
		{z("z3-new", "smt.random_seed=2", "smt.case_split=3"), pruned},
		{z("z3-new", "smt.random_seed=3", "smt.arith.solver=2"), pruned},
		{z("z3-new", "smt.random_seed=4", "smt.qi.eager_threshold=20"), pruned},
		{z("z3", "smt.random_seed=5"), pruned},
		{z("z3", "smt.random_seed=6", "smt.case_split=3"), text},
		{z("z3-new", "smt.random_seed=8"), text},
		{cv, pruned},
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan string, len(jobs))
	for _, j := range jobs {
		j := j
		go func() {
			st, _ := s.run(ctx, j.q, j.a)
			if st == "unsat" {
				ch <- j.a.name
			} else {
				ch <- ""
			}
		}()
	}
	for range jobs {
		if n := <-ch; n != "" {
			o.Status, o.Solver, o.Output = "proved", n, ""
			o.Ms += time.Since(t0).Milliseconds()
			return true
		}
	}
	return false
}

var globalSem chan struct{}
