package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"
)

// FuncResult is the outcome for one function under contract.
type FuncResult struct {
	Func     string
	Pos      string
	Obls     []*Obl
	Err      string
	Used     []string
	Externs  []string
	Inlined  []string
	Rounds   int
	Dropped  []string
	ex       *Ex
	Paths    int
	Ms       int64
	TermLoop int
	Lemmas   []string
	w        *World
}

func newEx(w *World, fi *FuncInfo, c *Contract) *Ex {
	return &Ex{w: w, prog: w.Prog, fi: fi, c: c, used: map[string]bool{}, externs: map[string]bool{}, inlined: map[string]bool{}, defs: map[string]heapDef{}, drop: map[string]bool{}}
}

// generate runs the symbolic execution of one function and yields its obligations.
func generate(w *World, fi *FuncInfo, c *Contract, drop map[string]bool) (e *Ex, err error) {
	e = newEx(w, fi, c)
	e.drop = drop
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("%s", x.msg)
			case specErr:
				err = fmt.Errorf("contract: %s", x.msg)
			default:
				if debugPanics {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	w.declare("alloc!0", "(declare-const alloc!0 Int)")
	st := &State{vars: map[vkey]Value{}, heaps: map[string]*Term{}, alloc: sym("alloc!0", "Int"), defers: map[int][]deferred{}, ghost: map[string]Value{}}
	st.assume(le(one, st.alloc))
	e.nframe = 1
	fr := &Frame{id: 1, fi: fi, pkg: fi.Pkg, sig: fi.Obj.Type().(*types.Signature), loops: loopOrdinals(fi.Decl), boxed: boxedVars(fi), spec: c, top: true}
	e.topBoxed = fr.boxed
	sig := fr.sig
	var recv *Value
	var all []Value
	mk := func(name string, t types.Type) Value {
		if name == "" || name == "_" {
			name = "p"
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return Value{T: e.w.fresh(name, "Opaque"), Typ: t}
		}
		v := e.w.fresh(name, e.w.sortOf(t))
		e.wf(st, v, t)
		return Value{T: v, Typ: t}
	}
	if r := sig.Recv(); r != nil {
		v := mk(r.Name(), r.Type())
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			st.assume(neq(pArr(v.T), zero))
		}
		recv = &v
		all = append(all, v)
	}
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		v := mk(sig.Params().At(i).Name(), sig.Params().At(i).Type())
		args = append(args, v)
		all = append(all, v)
	}
	e.env0 = map[string]Value{}
	// captured variables of a literal are bound by name, and only those the contract names
	if n := len(fi.Captured); n > 0 {
		own, at := all[n:], map[string]Value{}
		for i, v := range fi.Captured {
			at[v.Name()] = all[i]
		}
		var vs []Value
		for _, p := range c.Params {
			if v, ok := at[p]; ok {
				vs = append(vs, v)
				delete(at, p)
			} else if len(own) > 0 {
				vs, own = append(vs, own[0]), own[1:]
			}
		}
		if len(own) == 0 {
			all = vs
		}
	}
	if len(c.Params) != len(all) {
		return e, fmt.Errorf("contract %s names %d parameters, the function has %d", c.Key, len(c.Params), len(all))
	}
	if len(c.Results) > sig.Results().Len() {
		return e, fmt.Errorf("contract %s names %d results, the function has %d", c.Key, len(c.Results), sig.Results().Len())
	}
	for i, n := range c.Params {
		e.env0[n] = all[i]
	}
	e.entry = st.clone()
	env := &Env{e: e, w: w, st: st, old: e.entry, vars: e.env0, pkg: c.Pkg, goal: false, freshA: st.alloc}
	for _, r := range c.Requires {
		env.nq = nil
		st.assume(env.evalBool(r.X))
	}
	e.entry = st.clone()
	renv := &Env{e: e, w: w, st: e.entry, old: e.entry, vars: e.env0, pkg: c.Pkg, goal: true, freshA: st.alloc}
	e.entryRegs = e.regions(renv, c.Modifies)
	if e.entryRegs == nil {
		e.entryRegs = []Region{}
	}
	e.useLemmasEntry(st, env, c.Use)
	for _, u := range c.Unproved {
		g := &Env{e: e, w: w, st: st, old: e.entry, vars: e.env0, pkg: c.Pkg, goal: true, freshA: e.entry.alloc}
		st.assume(not(g.evalBool(u.X)))
		e.externs["contract of "+c.Key+" assumed, not proved, for calls where "+labelOr(u.Label, 0)] = true
	}
	e.obls = append(e.obls, &Obl{Func: fi.Key, Kind: "cover", Label: "requires", Pos: e.pos(fi.Decl), Facts: st.facts(), Goal: tFalse, Cover: true})
	e.stack = []*FuncInfo{fi}
	for i, l := range c.Entry {
		g := &Env{e: e, w: w, st: st, old: e.entry, vars: e.env0, pkg: c.Pkg, goal: true, freshA: e.entry.alloc}
		e.oblige(st, "entry", labelOr(l.Label, i), fi.Decl, g.evalBool(l.X))
		env.st, env.nq = st, nil
		st.assume(env.evalBool(l.X))
	}
	// bind with copies so that parameters may be reassigned
	e.bindParams(st, fr, fi, recv, args)
	e.body(st, fr, fi.Decl.Type, fi.Decl.Body, fi.Decl, func(st *State, vs []Value) { e.exit(st, fr, vs) })
	if e.retNo == 0 {
		return e, fmt.Errorf("no path returns")
	}
	return e, nil
}

func (e *Ex) exit(st *State, fr *Frame, vs []Value) {
	if e.dry > 0 || e.infeasible(st) {
		return
	}
	e.retNo++
	c := e.c
	env := &Env{e: e, w: e.w, st: st, old: e.entry, vars: map[string]Value{}, pkg: c.Pkg, goal: true, freshA: e.entry.alloc}
	for k, v := range e.env0 {
		env.vars[k] = v
	}
	for i, n := range c.Results {
		v := e.convertTo(st, vs[i], fr.sig.Results().At(i).Type())
		env.vars[n] = v
	}
	if e.retNo <= 40 {
		e.obls = append(e.obls, &Obl{Func: e.fi.Key, Kind: "cover", Label: "return", Pos: e.pos(e.fi.Decl), Path: strings.Join(st.path, "/"), Facts: st.facts(), Goal: tFalse, Cover: true})
	}
	e.useLemmas(st, env, c.Use)
	for i, l := range c.Lemmas {
		env.nq = nil
		e.oblige(st, "lemma", labelOr(l.Label, i), e.fi.Decl, env.evalBool(l.X))
		a := *env
		a.goal, a.nq = false, nil
		st.assume(a.evalBool(l.X))
	}
	for i, en := range c.Ensures {
		env.nq = nil
		// split conjunctions so that failures name the clause that broke
		e.oblige(st, "ensures", labelOr(en.Label, i), e.fi.Decl, env.evalBool(en.X))
	}
	for _, h := range sortedKeys(st.heaps) {
		H, E := st.heaps[h], e.heap(e.entry, h)
		if eqT(H, E) {
			continue
		}
		regs := e.entryRegs
		free := false
		for _, r := range regs {
			if r.key == h && r.ghost == nil && (r.globVar || r.arr == nil) {
				free = true
			}
		}
		if free {
			continue
		}
		if strings.HasPrefix(h, "GV_") {
			for _, r := range regs {
				if r.key == h {
					E = ghostPatch(E, H, r.ghost)
				}
			}
			e.oblige(st, "frame", h, e.fi.Decl, eq(H, E))
			continue
		}
		a, p := sym("fa?", "Int"), sym("fp?", "Int")
		cs := []*Term{lt(a, e.entry.alloc)}
		if strings.HasPrefix(h, "H_") {
			cs = append(cs, lt(zero, a))
			for i, r := range regs {
				if r.key == h {
					cs = append(cs, not(inRegion(r, a, p)))
					if r.fields != nil {
						e.oblige(st, "frame", h+" other fields", e.fi.Decl, e.otherFields(regs, i, H, E))
					}
				}
			}
			e.oblige(st, "frame", h, e.fi.Decl, forall([]Binder{{"fa?", "Int"}, {"fp?", "Int"}}, nil, imp(and(cs...), eq(sel(sel(H, a), p), sel(sel(E, a), p)))))
		} else {
			cs = append(cs, lt(zero, a))
			for _, r := range regs {
				if r.key == h {
					cs = append(cs, neq(a, r.arr))
				}
			}
			e.oblige(st, "frame", h, e.fi.Decl, forall([]Binder{{"fa?", "Int"}}, nil, imp(and(cs...), eq(sel(H, a), sel(E, a)))))
		}
	}
}

// useLemmasEntry assumes the instances that speak about the parameters only.
func (e *Ex) useLemmasEntry(st *State, env *Env, us []Clause) {
	for _, u := range us {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); !ok || !strings.Contains(s.msg, "unknown identifier") {
						panic(r)
					}
				}
			}()
			e.useLemmas(st, env, []Clause{u})
		}()
	}
}

// useLemmas assumes instances of lemmas, each of which is proved by itself.
func (e *Ex) useLemmas(st *State, env *Env, us []Clause) {
	for _, u := range us {
		a := *env
		a.goal, a.nq, a.useLemma, a.lemmaMax = false, nil, true, len(e.w.DB.Lemmas)
		st.assume(a.evalBool(u.X))
	}
}

var debugPanics = false

// verifyFunc generates and solves the obligations of one function, dropping candidate loop invariants that do not hold.
func verifyFunc(prog *Program, db *SpecDB, key string, sv *Solver) *FuncResult {
	t0 := time.Now()
	res := &FuncResult{Func: key}
	c := db.Contracts[key]
	fi := prog.Funcs[key]
	if c == nil {
		res.Err = "no contract"
		return res
	}
	if fi == nil {
		res.Err = "function not found in the source"
		return res
	}
	drop := map[string]bool{}
	for round := 0; round < 10; round++ {
		w := NewWorld(prog, db)
		w.BV = c.Mode == "bv"
		e, err := generate(w, fi, c, drop)
		res.Rounds = round + 1
		res.Pos = e.pos(fi.Decl)
		if err != nil {
			res.Err = err.Error()
			break
		}
		res.Used, res.Externs, res.Inlined = sortedKeys(e.used), sortedKeys(e.externs), sortedKeys(e.inlined)
		res.Paths, res.TermLoop = e.paths, e.termLoops
		res.Lemmas = sortedKeys(e.lemmas)
		res.w = w
		// candidates first
		var auto, rest []*Obl
		for _, o := range e.obls {
			if strings.HasPrefix(o.Kind, "auto-") {
				auto = append(auto, o)
			} else {
				rest = append(rest, o)
			}
		}
		nameObls(e.obls)
		sv.SolveAll(e, auto, true)
		bad := false
		for _, o := range auto {
			if o.Status != "proved" {
				drop[o.Label] = true
				bad = true
			}
		}
		if bad {
			continue
		}
		sv.SolveAll(e, rest, false)
		res.Obls, res.ex = e.obls, e
		break
	}
	res.Dropped = sortedKeys(drop)
	if res.Err == "" && res.Obls == nil {
		res.Err = "candidate invariants do not stabilise"
	}
	res.Ms = time.Since(t0).Milliseconds()
	return res
}

func nameObls(os []*Obl) {
	n := map[string]int{}
	for _, o := range os {
		b := o.Func + "/" + o.Kind
		if o.Label != "" {
			b += ":" + o.Label
		}
		n[b]++
		o.Name = fmt.Sprintf("%s@%d", b, n[b])
	}
}
