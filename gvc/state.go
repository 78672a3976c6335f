package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strconv"
	"strings"
)

type Value struct {
	T   *Term
	Typ types.Type
	Clo *Closure
}

type Closure struct {
	lit   *ast.FuncLit
	frame *Frame
	pkg   *Pkg
	fn    *FuncInfo // method value or function value
	recv  *Value
	obj   *types.Func // the function, where it has no source here
	nop   bool
	name  string
}

type Frame struct {
	id     int
	parent *Frame
	fi     *FuncInfo
	pkg    *Pkg
	named  []types.Object // named results
	sig    *types.Signature
	boxed  map[types.Object]bool
	loops  map[ast.Node]int
	spec   *Contract // loop specs
	top    bool
}

type vkey struct {
	f int
	o types.Object
}

type PC struct {
	prev   *PC
	t      *Term
	branch bool
	n      int
}

type deferred struct {
	run func(st *State, k func(*State))
}

type State struct {
	vars   map[vkey]Value
	heaps  map[string]*Term
	alloc  *Term
	pc     *PC
	path   []string
	defers map[int][]deferred
	ghost  map[string]Value
	wlog   *wlog  // heap writes, newest first
	lock   *State // the state in which the monitored lock was taken
	unlock *State // the state in which it was last released
}

type wlog struct {
	prev *wlog
	key  string
	ref  *Term
	n    int
}

func (s *State) wrote(key string, ref *Term) {
	n := 0
	if s.wlog != nil {
		n = s.wlog.n
	}
	s.wlog = &wlog{s.wlog, key, ref, n + 1}
}

func (s *State) clone() *State {
	n := *s
	n.vars = make(map[vkey]Value, len(s.vars))
	for k, v := range s.vars {
		n.vars[k] = v
	}
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v
	}
	n.ghost = make(map[string]Value, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t == nil || t.Op == "true" {
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{prev: s.pc, t: t, n: n + 1}
}
func (s *State) assumeBranch(t *Term) {
	if t.Op == "true" {
		return
	}
	n := 0
	if s.pc != nil {
		n = s.pc.n
	}
	s.pc = &PC{prev: s.pc, t: t, branch: true, n: n + 1}
}

func (s *State) facts() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Obl is one proof obligation.
type Obl struct {
	Func  string
	Kind  string
	Label string
	Pos   string
	Path  string
	Facts []*Term
	Goal  *Term
	Cover bool // must NOT be provable (vacuity check)
	// results
	Name   string
	Status string // proved, failed, unknown
	Solver string
	Ms     int64
	Output string
}

type unsupported struct{ msg string }

// Ex executes one function symbolically.
type Ex struct {
	w         *World
	prog      *Program
	fi        *FuncInfo
	c         *Contract
	obls      []*Obl
	dry       int // >0 while discovering the write set of a loop
	entry     *State
	nframe    int
	depth     int
	params    map[string]Value
	env0      map[string]Value
	used      map[string]bool // contracts relied on
	externs   map[string]bool // assumptions
	inlined   map[string]bool
	paths     int
	defs      map[string]heapDef
	stack     []*FuncInfo
	pure      int
	loopAlt   bool
	fallback  bool
	drop      map[string]bool // houdini: dropped candidates
	houd      bool
	noObl     int
	rangeObj  map[ast.Node]*types.Var
	seenObj   map[ast.Node]*types.Var
	fieldArgs map[*ast.UnaryExpr]bool
	loopStack []*loopDesc
	entryRegs []Region
	termLoops int
	deadline  int64
	lines     map[string]bool
	retNo     int
	boxParams map[string]bool
	lemmas    map[string]bool
	topBoxed  map[types.Object]bool
}

type heapDef struct {
	h, arr, a *Term
}

type recorder struct {
	vars  map[vkey]bool
	heaps map[string]bool
	refs  map[string]map[string]*Term // heap key -> written array references
}

func newRecorder() *recorder {
	return &recorder{vars: map[vkey]bool{}, heaps: map[string]bool{}, refs: map[string]map[string]*Term{}}
}

func (r *recorder) ref(key string, t *Term) {
	r.heaps[key] = true
	if r.refs[key] == nil {
		r.refs[key] = map[string]*Term{}
	}
	r.refs[key][t.String()] = t
}

func (e *Ex) fail(n ast.Node, f string, a ...interface{}) {
	pos := ""
	if n != nil {
		pos = e.pos(n) + ": "
	}
	panic(unsupported{pos + fmt.Sprintf(f, a...)})
}

func (e *Ex) pos(n ast.Node) string {
	p := e.prog.Fset.Position(n.Pos())
	f := strings.TrimPrefix(p.Filename, e.prog.Repo+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---- obligations

func (e *Ex) oblige(st *State, kind, label string, n interface{}, goal *Term) {
	if e.dry > 0 || e.pure > 0 || e.noObl > 0 {
		st.assume(goal)
		return
	}
	pos := ""
	switch x := n.(type) {
	case ast.Node:
		pos = e.pos(x)
	case string:
		pos = x
	}
	if goal.Op == "true" && goal.isSym() {
		// trivially true: still count as an obligation discharged by simplification
		e.obls = append(e.obls, &Obl{Func: e.fi.Key, Kind: kind, Label: label, Pos: pos, Path: strings.Join(st.path, "/"), Goal: goal, Status: "proved", Solver: "simplifier"})
		return
	}
	e.obls = append(e.obls, &Obl{Func: e.fi.Key, Kind: kind, Label: label, Pos: pos, Path: strings.Join(st.path, "/"), Facts: st.facts(), Goal: goal})
	switch kind {
	case "inv-keep", "ensures", "inv-init":
		// the goal form of a quantified statement carries no triggers: it would only slow down what follows
		if hasQuant(goal) {
			return
		}
	}
	st.assume(goal)
}

func hasQuant(t *Term) bool {
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if hasQuant(a) {
			return true
		}
	}
	return false
}

// ---- variables

func (e *Ex) lookupKey(st *State, fr *Frame, o types.Object) (vkey, bool) {
	for f := fr; f != nil; f = f.parent {
		k := vkey{f.id, o}
		if _, ok := st.vars[k]; ok {
			return k, true
		}
	}
	return vkey{}, false
}

func isBoxed(fr *Frame, o types.Object) bool {
	for f := fr; f != nil; f = f.parent {
		if f.boxed[o] {
			return true
		}
	}
	return false
}

func (e *Ex) declVar(st *State, fr *Frame, o types.Object, v Value) {
	if o == nil || o.Name() == "_" {
		return
	}
	v = e.convertTo(st, v, o.Type())
	k := vkey{fr.id, o}
	if isBoxed(fr, o) && v.Clo == nil {
		if at, ok := o.Type().Underlying().(*types.Array); ok {
			// an array that is sliced lives where slices live
			r := e.newRef(st)
			st.assume(neq(r, zero))
			e.setArr(st, e.w.heapKey(at.Elem()), r, e.name(st, o.Name(), v.T))
			st.vars[k] = Value{T: mkPtr(r, zero), Typ: types.NewPointer(o.Type())}
			return
		}
		p := e.allocCell(st, o.Type(), v.T)
		st.vars[k] = Value{T: p, Typ: types.NewPointer(o.Type())}
	} else {
		st.vars[k] = v
	}
}

func (e *Ex) readVar(st *State, fr *Frame, o types.Object, n ast.Node) Value {
	k, ok := e.lookupKey(st, fr, o)
	if !ok {
		e.fail(n, "unbound variable %s", o.Name())
	}
	v := st.vars[k]
	if isBoxed(fr, o) && v.Clo == nil {
		if at, ok := o.Type().Underlying().(*types.Array); ok {
			return Value{T: e.selH(e.heap(st, e.w.heapKey(at.Elem())), pArr(v.T)), Typ: o.Type()}
		}
		return Value{T: e.loadPtr(st, v.T, o.Type()), Typ: o.Type()}
	}
	return v
}

func (e *Ex) writeVar(st *State, fr *Frame, o types.Object, v Value, n ast.Node) {
	k, ok := e.lookupKey(st, fr, o)
	if !ok {
		e.fail(n, "unbound variable %s", o.Name())
	}
	v = e.convertTo(st, v, o.Type())
	cur := st.vars[k]
	if isBoxed(fr, o) && cur.Clo == nil {
		if at, ok := o.Type().Underlying().(*types.Array); ok {
			e.setArr(st, e.w.heapKey(at.Elem()), pArr(cur.T), v.T)
			return
		}
		e.storePtr(st, cur.T, o.Type(), v.T)
		return
	}
	v.Typ = o.Type()
	if v.T != nil {
		v.T = e.name(st, o.Name(), v.T)
	}
	st.vars[k] = v
}

// name introduces a constant for a big term.
func (e *Ex) name(st *State, hint string, t *Term) *Term {
	if isCtor(t) {
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = e.name(st, hint, a)
		}
		return &Term{Op: t.Op, Args: args, Sort: t.Sort}
	}
	if t.Size() <= 12 || e.pure > 0 {
		return t
	}
	c := e.w.fresh(hint, t.Sort)
	st.assume(app("=", "Bool", c, t))
	return c
}

// ---- heap

func (e *Ex) heap(st *State, key string) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	// untouched heaps share the entry symbol
	s := e.w.heapSort(key)
	n := key + "!0"
	e.w.declare(n, fmt.Sprintf("(declare-const %s %s)", n, s))
	h := sym(n, s)
	return h
}

func symSeq(s string) int {
	i := strings.LastIndexByte(s, '!')
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(s[i+1:])
	if err != nil {
		return -1
	}
	return n
}

func maxSeq(t *Term) int {
	m := -1
	if len(t.Args) == 0 {
		if strings.HasSuffix(t.Op, "?") {
			return 1 << 40
		}
		return symSeq(t.Op)
	}
	for _, a := range t.Args {
		if x := maxSeq(a); x > m {
			m = x
		}
	}
	return m
}

func (e *Ex) isFreshRef(t *Term) (int, bool) {
	if t.isSym() && strings.HasPrefix(t.Op, "ref!") {
		return symSeq(t.Op), true
	}
	return 0, false
}

func (e *Ex) refsDistinct(a, b *Term) bool {
	if n, ok := e.isFreshRef(a); ok {
		if maxSeq(b) < n {
			return true
		}
	}
	if n, ok := e.isFreshRef(b); ok {
		if maxSeq(a) < n {
			return true
		}
	}
	return false
}

// selH selects the array r out of heap h, seeing through known stores.
func (e *Ex) selH(h, r *Term) *Term {
	for {
		d, ok := e.defs[h.Op]
		if !ok || !h.isSym() {
			break
		}
		if eqT(d.arr, r) {
			return d.a
		}
		if e.refsDistinct(d.arr, r) {
			h = d.h
			continue
		}
		break
	}
	return sel(h, r)
}

// setArr replaces backing array r of heap key by a.
func (e *Ex) setArr(st *State, key string, r, a *Term) { e.setArrRec(st, key, r, a, r) }

func (e *Ex) setArrRec(st *State, key string, r, a, rec *Term) {
	h := e.heap(st, key)
	n := e.w.fresh(key, h.Sort)
	e.defs[n.Op] = heapDef{h, r, a}
	st.assume(app("=", "Bool", n, store(h, r, a)))
	st.heaps[key] = n
	st.wrote(key, rec)
}

func (e *Ex) loadElem(st *State, et types.Type, arr, idx *Term) *Term {
	t := sel(e.selH(e.heap(st, e.w.heapKey(et)), arr), idx)
	return t
}

func (e *Ex) loadPtr(st *State, p *Term, et types.Type) *Term {
	t := e.loadElem(st, et, pArr(p), pIdx(p))
	e.wf(st, t, et)
	return t
}

// storeElem writes one cell and emits the fold facts.
func (e *Ex) storeElem(st *State, et types.Type, arr, idx, v *Term) {
	if e.pure > 0 {
		panic(unsupported{"heap write in pure context"})
	}
	key := e.w.heapKey(et)
	a := e.selH(e.heap(st, key), arr)
	na := e.w.fresh("A", a.Sort)
	v = e.name(st, "v", v)
	st.assume(app("=", "Bool", na, store(a, idx, v)))
	e.foldStore(st, et, na, a, idx, v)
	e.setArr(st, key, arr, na)
}

func (e *Ex) storePtr(st *State, p *Term, et types.Type, v *Term) {
	e.storeElem(st, et, pArr(p), pIdx(p), v)
}

func (e *Ex) newRef(st *State) *Term {
	r := e.w.fresh("ref", "Int")
	st.assume(le(st.alloc, r))
	st.alloc = add(r, one)
	return r
}

func (e *Ex) allocCell(st *State, t types.Type, v *Term) *Term {
	r := e.newRef(st)
	key := e.w.heapKey(t)
	st.assume(neq(r, zero))
	a := e.w.fresh("A", arrRange(e.heap(st, key).Sort))
	v = e.name(st, "v", v)
	st.assume(eq(sel(a, zero), v))
	e.setArr(st, key, r, store(a, zero, v))
	// keep definitional simplification: select(store(a,0,v),0) = v
	return mkPtr(r, zero)
}

// ---- folds facts

func (e *Ex) foldBody(f *Fold, elem *Term, ps []*Term) *Term {
	env := &Env{e: e, w: e.w, vars: map[string]Value{}, pkg: f.Pkg, goal: true}
	env.vars[f.Elem.Name] = Value{T: elem, Typ: e.w.resolveType(f.Elem.Type, f.Pkg)}
	for i, p := range f.Params {
		env.vars[p.Name] = Value{T: ps[i], Typ: e.w.resolveType(p.Type, f.Pkg)}
	}
	t := env.eval(f.Body).T
	if t.Sort == "Bool" {
		t = ite(t, one, zero)
	}
	return t
}

func (e *Ex) foldQuant(f *Fold, mk func(fn func(a, k *Term) *Term, k *Term, ps []*Term) (*Term, []*Term)) *Term {
	name, _, psorts := e.w.foldFn(f)
	k := sym("k?", "Int")
	bs := []Binder{{"k?", "Int"}}
	var ps []*Term
	for i, s := range psorts {
		n := fmt.Sprintf("u%d?", i)
		bs = append(bs, Binder{n, s})
		ps = append(ps, sym(n, s))
	}
	fn := func(a, k *Term) *Term {
		return app(name, "Int", append([]*Term{a, k}, ps...)...)
	}
	body, pat := mk(fn, k, ps)
	return forall(bs, [][]*Term{pat}, body)
}

// foldStore: na = store(a, idx, v)
func (e *Ex) foldStore(st *State, et types.Type, na, a, idx, v *Term) {
	for _, f := range e.w.foldsFor(et) {
		f := f
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, k *Term, ps []*Term) (*Term, []*Term) {
			d := sub(e.foldBody(f, v, ps), e.foldBody(f, sel(a, idx), ps))
			return eq(fn(na, k), add(fn(a, k), ite(lt(idx, k), d, zero))), []*Term{fn(na, k)}
		}))
		// the same fact usable from the old array
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, k *Term, ps []*Term) (*Term, []*Term) {
			d := sub(e.foldBody(f, v, ps), e.foldBody(f, sel(a, idx), ps))
			return eq(fn(na, k), add(fn(a, k), ite(lt(idx, k), d, zero))), []*Term{fn(a, k)}
		}))
	}
}

// foldCopy: na equals a outside [d,d+n) and src[s+(k-d)] inside.
func (e *Ex) foldCopy(st *State, et types.Type, na, a, d, src, s, n *Term) {
	for _, f := range e.w.foldsFor(et) {
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, k *Term, ps []*Term) (*Term, []*Term) {
			end := add(d, n)
			mid := add(fn(a, d), sub(fn(src, add(s, sub(k, d))), fn(src, s)))
			hi := add(add(fn(a, d), sub(fn(src, add(s, n)), fn(src, s))), sub(fn(a, k), fn(a, end)))
			return eq(fn(na, k), ite(le(k, d), fn(a, k), ite(le(k, end), mid, hi))), []*Term{fn(na, k)}
		}))
	}
}

// foldFrame: na agrees with a outside [lo,hi).
func (e *Ex) foldFrame(st *State, et types.Type, na, a, lo, hi *Term) {
	for _, f := range e.w.foldsFor(et) {
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, k *Term, ps []*Term) (*Term, []*Term) {
			return and(imp(le(k, lo), eq(fn(na, k), fn(a, k))),
				imp(le(hi, k), eq(sub(fn(na, k), fn(na, hi)), sub(fn(a, k), fn(a, hi))))), []*Term{fn(na, k)}
		}))
	}
}

// unfold emits P(A,p+1)=P(A,p)+f(A[p]) when A[p] is read by the code.
func (e *Ex) unfold(st *State, et types.Type, a, p *Term) {
	if e.pure > 0 {
		return
	}
	for _, f := range e.w.foldsFor(et) {
		name, _, psorts := e.w.foldFn(f)
		var bs []Binder
		var ps []*Term
		for i, s := range psorts {
			n := fmt.Sprintf("u%d?", i)
			bs = append(bs, Binder{n, s})
			ps = append(ps, sym(n, s))
		}
		fn := func(k *Term) *Term { return app(name, "Int", append([]*Term{a, k}, ps...)...) }
		b := eq(fn(add(p, one)), add(fn(p), e.foldBody(f, sel(a, p), ps)))
		if len(bs) == 0 {
			st.assume(b)
		} else {
			st.assume(forall(bs, [][]*Term{{fn(p)}, {fn(add(p, one))}}, b))
		}
	}
}

// foldAxioms are the defining equations and derived lemmas of all folds (proved by induction in lemma obligations).
func (e *Ex) foldAxioms() []*Term {
	var out []*Term
	for _, n := range sortedKeys(e.w.DB.Folds) {
		f := e.w.DB.Folds[n]
		if !e.w.foldKnown(f) {
			continue
		}
		name, as, psorts := e.w.foldFn(f)
		a := sym("a?", as)
		bs := []Binder{{"a?", as}}
		var ps []*Term
		for i, s := range psorts {
			n := fmt.Sprintf("u%d?", i)
			bs = append(bs, Binder{n, s})
			ps = append(ps, sym(n, s))
		}
		fn := func(k *Term) *Term { return app(name, "Int", append([]*Term{a, k}, ps...)...) }
		k := sym("k?", "Int")
		j := sym("j?", "Int")
		bk := append(append([]Binder{}, bs...), Binder{"k?", "Int"})
		out = append(out, forall(bs, [][]*Term{{fn(zero)}}, eq(fn(zero), zero)))
		out = append(out, forall(bk, [][]*Term{{fn(k), sel(a, k)}}, eq(fn(add(k, one)), add(fn(k), e.foldBody(f, sel(a, k), ps)))))
		if f.NonNeg {
			bj := append(append([]Binder{}, bk...), Binder{"j?", "Int"})
			out = append(out, forall(bj, [][]*Term{{fn(k), fn(j)}}, imp(le(k, j), le(fn(k), fn(j)))))
		}
	}
	return out
}

// ---- well-formedness facts of values of Go types

func (e *Ex) wf(st *State, t *Term, typ types.Type) {
	if e.pure > 0 || e.w.BV {
		return
	}
	for _, f := range e.wfFacts(t, typ, st.alloc) {
		st.assume(f)
	}
}

func (e *Ex) wfFacts(t *Term, typ types.Type, alloc *Term) []*Term {
	var out []*Term
	if n, ok := isUnsigned(typ); ok && t.Sort == "Int" {
		if _, c := constInt(t); !c {
			out = append(out, le(zero, t), lt(t, pow2(n)))
		}
		return out
	}
	switch t.Sort {
	case "Slice":
		if t.Op == "mk_Slice" {
			return nil
		}
		out = append(out, le(zero, sOff(t)), le(zero, sLen(t)), le(sLen(t), sCap(t)), le(zero, sArr(t)), lt(sArr(t), alloc),
			imp(eq(sArr(t), zero), and(eq(sCap(t), zero), eq(sOff(t), zero))))
	case "Ptr":
		if t.Op == "mk_Ptr" {
			return nil
		}
		out = append(out, le(zero, pArr(t)), lt(pArr(t), alloc), imp(eq(pArr(t), zero), eq(pIdx(t), zero)), le(zero, pIdx(t)))
	case "Str":
		e.w.fn("slen", []string{"Str"}, "Int")
		out = append(out, le(zero, app("slen", "Int", t)))
	}
	if _, ok := typ.Underlying().(*types.Map); ok {
		out = append(out, le(zero, t), lt(t, alloc))
	}
	if si := e.w.structs[t.Sort]; si != nil {
		for i, f := range si.Fields {
			out = append(out, e.wfFacts(e.w.field(t, i), f.Typ, alloc)...)
		}
	}
	return out
}

// wfHeap: all cells of a heap hold well-formed values.
func (e *Ex) wfHeap(st *State, key string, h *Term) {
	if !strings.HasPrefix(key, "H_") {
		if strings.HasPrefix(key, "MC_") {
			r := sym("r?", "Int")
			st.assume(forall([]Binder{{"r?", "Int"}}, [][]*Term{{sel(h, r)}}, le(zero, sel(h, r))))
			st.assume(eq(sel(h, zero), zero))
		}
		if strings.HasPrefix(key, "MV_") {
			m := e.w.heapTyp[key].Underlying().(*types.Map)
			r, k := sym("r?", "Int"), sym("k?", e.w.sortOf(m.Key()))
			c := sel(sel(h, r), k)
			if fs := e.wfFacts(c, m.Elem(), st.alloc); len(fs) > 0 {
				st.assume(forall([]Binder{{"r?", "Int"}, {"k?", k.Sort}}, [][]*Term{{c}}, imp(lt(r, st.alloc), and(fs...))))
			}
		}
		if strings.HasPrefix(key, "MD_") {
			ks := arrDom(arrRange(h.Sort))
			k := sym("k?", ks)
			st.assume(forall([]Binder{{"k?", ks}}, [][]*Term{{sel(sel(h, zero), k)}}, not(sel(sel(h, zero), k))))
		}
		return
	}
	et := e.w.heapTyp[key]
	a, p := sym("a?", "Int"), sym("p?", "Int")
	c := sel(sel(h, a), p)
	fs := e.wfFacts(c, et, st.alloc)
	if len(fs) == 0 {
		return
	}
	st.assume(forall([]Binder{{"a?", "Int"}, {"p?", "Int"}}, [][]*Term{{c}}, imp(lt(a, st.alloc), and(fs...))))
}
