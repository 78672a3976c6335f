package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type loopDesc struct {
	node    ast.Node
	label   string
	pos     token.Pos // position for name lookup
	cond    func(st *State, kt, kf func(*State))
	body    func(st *State, c *ctl, k func(*State))
	post    func(st *State, k func(*State))
	hidden  map[string]func(st *State) (Value, bool)
	auto    func(st, pre *State) []autoInv // always-true facts checked as candidates
	bodyAst ast.Node
	onlyObj []types.Object // extra variables to havoc
	bound   func(st *State) []*Term
}

type autoInv struct {
	name string
	t    *Term
}

func (e *Ex) loopFor(st *State, fr *Frame, s *ast.ForStmt, label string, c *ctl, k func(*State)) {
	start := func(st *State) {
		d := &loopDesc{node: s, label: label, pos: s.Body.Lbrace + 1, bodyAst: s}
		d.cond = func(st *State, kt, kf func(*State)) {
			if s.Cond == nil {
				kt(st)
				return
			}
			e.branch(st, fr, s.Cond, s, kt, kf)
		}
		d.body = func(st *State, c *ctl, k func(*State)) { e.exec(st, fr, s.Body, c, k) }
		d.post = func(st *State, k func(*State)) {
			if s.Post != nil {
				e.exec(st, fr, s.Post, c, k)
			} else {
				k(st)
			}
		}
		d.hidden = map[string]func(*State) (Value, bool){}
		if as, ok := s.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 {
			if o := e.info(fr).Defs[as.Lhs[0].(*ast.Ident)]; o != nil {
				d.hidden["$i"] = func(st *State) (Value, bool) { return e.readVar(st, fr, o, s), true }
			}
		}
		d.auto = func(st, pre *State) []autoInv {
			var out []autoInv
			if b, ok := s.Cond.(*ast.BinaryExpr); ok && e.pureExpr(fr, b.X) && e.pureExpr(fr, b.Y) && isInt(e.typeOf(fr, b.X)) {
				var l, r *Term
				e.noObl++
				tmp := st.clone()
				e.eval(tmp, fr, b.X, func(_ *State, v Value) { l = v.T })
				e.eval(tmp, fr, b.Y, func(_ *State, v Value) { r = v.T })
				e.noObl--
				if l != nil && r != nil && l.Sort == "Int" {
					switch b.Op {
					case token.LSS:
						out = append(out, autoInv{"cond-bound", le(l, r)})
					case token.GTR:
						out = append(out, autoInv{"cond-bound", le(r, l)})
					}
				}
			}
			return out
		}
		e.loop(st, fr, d, c, k)
	}
	if s.Init != nil {
		e.exec(st, fr, s.Init, c, start)
	} else {
		start(st)
	}
}

func (e *Ex) hiddenVar(n ast.Node, name string, t types.Type) *types.Var {
	if e.rangeObj == nil {
		e.rangeObj, e.seenObj = map[ast.Node]*types.Var{}, map[ast.Node]*types.Var{}
	}
	m := e.rangeObj
	if name == "$seen" {
		m = e.seenObj
	}
	if m[n] == nil {
		m[n] = types.NewVar(n.Pos(), nil, name, t)
	}
	return m[n]
}

func (e *Ex) loopRange(st *State, fr *Frame, s *ast.RangeStmt, label string, c *ctl, k func(*State)) {
	assignTo := func(st *State, x ast.Expr, v Value, k func(*State)) {
		if x == nil {
			k(st)
			return
		}
		if id, ok := x.(*ast.Ident); ok {
			if id.Name == "_" {
				k(st)
				return
			}
			if s.Tok == token.DEFINE {
				if o := e.info(fr).Defs[id]; o != nil {
					e.declVar(st, fr, o, v)
				}
				k(st)
				return
			}
		}
		e.lval(st, fr, x, func(st *State, l *loc) {
			e.storeLoc(st, fr, l, v, s)
			k(st)
		})
	}
	e.eval(st, fr, s.X, func(st *State, xv Value) {
		if _, isMap := xv.Typ.Underlying().(*types.Map); isMap {
			e.loopRangeMap(st, fr, s, label, xv, assignTo, c, k)
			return
		}
		iobj := e.hiddenVar(s, "$i", intTyp)
		ik := vkey{fr.id, iobj}
		get := func(st *State) *Term { return st.vars[ik].T }
		set := func(st *State, t *Term) {
			st.vars[ik] = Value{T: t, Typ: intTyp}
		}
		set(st, zero)
		var n *Term
		var elem func(st *State, i *Term) Value
		switch u := xv.Typ.Underlying().(type) {
		case *types.Slice:
			n = sLen(xv.T)
			elem = func(st *State, i *Term) Value {
				p := add(sOff(xv.T), i)
				v := e.loadElem(st, u.Elem(), sArr(xv.T), p)
				e.wf(st, v, u.Elem())
				e.unfold(st, u.Elem(), e.selH(e.heap(st, e.w.heapKey(u.Elem())), sArr(xv.T)), p)
				return Value{T: v, Typ: u.Elem()}
			}
		case *types.Array:
			n = intT(u.Len())
			elem = func(st *State, i *Term) Value { return Value{T: sel(xv.T, i), Typ: u.Elem()} }
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				n = ite(le(zero, xv.T), xv.T, zero)
				elem = nil
			} else {
				n = e.strLen(st, xv.T)
				elem = func(st *State, i *Term) Value {
					r := e.w.fresh("rune", "Int")
					return Value{T: r, Typ: types.Typ[types.Rune]}
				}
			}
		case *types.Chan:
			n = e.w.fresh("chanlen", "Int")
			st.assume(le(zero, n))
			e.externs["values received from channels are arbitrary"] = true
			elem = nil
		default:
			e.fail(s, "range over %s", xv.Typ)
		}
		d := &loopDesc{node: s, label: label, pos: s.Body.Lbrace + 1, bodyAst: s}
		d.cond = func(st *State, kt, kf func(*State)) {
			t := lt(get(st), n)
			if t.Op == "true" {
				kt(st)
				return
			}
			if t.Op == "false" {
				kf(st)
				return
			}
			e.countPath(s)
			a, b := st.clone(), st
			a.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:iter", e.prog.Fset.Position(s.Pos()).Line))
			a.assumeBranch(t)
			b.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:done", e.prog.Fset.Position(s.Pos()).Line))
			b.assumeBranch(not(t))
			kt(a)
			kf(b)
		}
		_, isChan := xv.Typ.Underlying().(*types.Chan)
		d.body = func(st *State, c *ctl, k func(*State)) {
			i := get(st)
			kv := Value{T: i, Typ: e.keyType(fr, s, intTyp)}
			if isChan {
				t := xv.Typ.Underlying().(*types.Chan).Elem()
				r := e.w.fresh("recv", e.w.sortOf(t))
				e.wf(st, r, t)
				kv = Value{T: r, Typ: t}
				e.chanOp(st, fr, s, "receives", kv)
			}
			assignTo(st, s.Key, kv, func(st *State) {
				if s.Value == nil {
					e.exec(st, fr, s.Body, c, k)
					return
				}
				if elem == nil {
					e.fail(s, "range value over integer")
				}
				if id, ok := s.Value.(*ast.Ident); ok && id.Name == "_" {
					e.exec(st, fr, s.Body, c, k)
					return
				}
				assignTo(st, s.Value, elem(st, i), func(st *State) { e.exec(st, fr, s.Body, c, k) })
			})
		}
		d.post = func(st *State, k func(*State)) {
			set(st, add(get(st), one))
			k(st)
		}
		d.hidden = map[string]func(*State) (Value, bool){
			"$i":     func(st *State) (Value, bool) { return Value{T: get(st), Typ: intTyp}, true },
			"$range": func(st *State) (Value, bool) { return xv, true },
		}
		if id, ok := s.Key.(*ast.Ident); ok && s.Tok == token.DEFINE && !isChan {
			d.hidden[id.Name] = d.hidden["$i"]
		}
		d.bound = func(st *State) []*Term { return []*Term{le(zero, get(st)), le(get(st), n)} }
		e.loop(st, fr, d, c, k)
	})
}

func (e *Ex) keyType(fr *Frame, s *ast.RangeStmt, def types.Type) types.Type {
	if s.Key != nil {
		t := e.typeOf(fr, s.Key)
		if t != nil && t != types.Typ[types.Invalid] {
			return t
		}
	}
	return def
}

func (e *Ex) loopRangeMap(st *State, fr *Frame, s *ast.RangeStmt, label string, m Value, assignTo func(*State, ast.Expr, Value, func(*State)), c *ctl, k func(*State)) {
	mt := m.Typ.Underlying().(*types.Map)
	md, _, mc := e.w.mapKeys(m.Typ)
	ks := e.w.sortOf(mt.Key())
	dom0 := e.selH(e.heap(st, md), m.T)
	card0 := e.selH(e.heap(st, mc), m.T)
	st.assume(le(zero, card0))
	st.assume(imp(eq(m.T, zero), eq(card0, zero)))
	iobj := e.hiddenVar(s, "$i", intTyp)
	sobj := e.hiddenVar(s, "$seen", intTyp)
	ik, sk := vkey{fr.id, iobj}, vkey{fr.id, sobj}
	seenSort := "(Array " + ks + " Bool)"
	st.vars[ik] = Value{T: zero, Typ: intTyp}
	st.vars[sk] = Value{T: &Term{Op: "((as const " + seenSort + ") false)", Sort: seenSort}, Typ: intTyp}
	var curKey *Term
	_ = curKey
	q := sym("k?", ks)
	B := []Binder{{"k?", ks}}
	d := &loopDesc{node: s, label: label, pos: s.Body.Lbrace + 1, bodyAst: s}
	d.bound = func(st *State) []*Term {
		seen := st.vars[sk].T
		n := st.vars[ik].T
		dm := e.selH(e.heap(st, md), m.T)
		cd := e.selH(e.heap(st, mc), m.T)
		_ = dm
		_ = cd
		return []*Term{le(zero, n), le(n, card0),
			forall(B, [][]*Term{{sel(seen, q)}}, imp(sel(seen, q), sel(dom0, q)))}
	}
	keyVar := e.hiddenVar(s.Body, "$i", mt.Key())
	kk := vkey{fr.id, keyVar}
	d.cond = func(st *State, kt, kf func(*State)) {
		seen, n := st.vars[sk].T, st.vars[ik].T
		e.countPath(s)
		a, b := st.clone(), st
		line := e.prog.Fset.Position(s.Pos()).Line
		a.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:iter", line))
		a.assumeBranch(lt(n, card0))
		key := e.w.fresh("key", ks)
		e.wf(a, key, mt.Key())
		a.assume(and(sel(dom0, key), not(sel(seen, key))))
		a.vars[kk] = Value{T: key, Typ: mt.Key()}
		// if the map is changed during iteration, removed entries are not visited
		if dm := e.selH(e.heap(a, md), m.T); !eqT(dm, dom0) {
			a.assume(sel(dm, key))
		}
		b.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:done", line))
		if dm := e.selH(e.heap(b, md), m.T); eqT(dm, dom0) {
			b.assumeBranch(eq(n, card0))
			b.assume(forall(B, [][]*Term{{sel(dom0, q)}}, imp(sel(dom0, q), sel(seen, q))))
			b.assume(forall(B, [][]*Term{{sel(seen, q)}}, eq(sel(dom0, q), sel(seen, q))))
		} else {
			b.assume(forall(B, [][]*Term{{sel(dm, q)}}, imp(and(sel(dom0, q), sel(dm, q)), sel(seen, q))))
		}
		kt(a)
		kf(b)
	}
	d.body = func(st *State, c *ctl, k func(*State)) {
		key := st.vars[kk].T
		st.vars[sk] = Value{T: e.nameAlways(st, "seen", store(st.vars[sk].T, key, tTrue)), Typ: intTyp}
		st.vars[ik] = Value{T: add(st.vars[ik].T, one), Typ: intTyp}
		assignTo(st, s.Key, Value{T: key, Typ: mt.Key()}, func(st *State) {
			if s.Value == nil {
				e.exec(st, fr, s.Body, c, k)
				return
			}
			v, _ := e.mapGet(st, m, key)
			assignTo(st, s.Value, v, func(st *State) { e.exec(st, fr, s.Body, c, k) })
		})
	}
	d.post = func(st *State, k func(*State)) { k(st) }
	d.hidden = map[string]func(*State) (Value, bool){
		"$i":    func(st *State) (Value, bool) { return st.vars[ik], true },
		"$n":    func(st *State) (Value, bool) { return st.vars[ik], true },
		"$seen": func(st *State) (Value, bool) { return st.vars[sk], true },
	}
	e.loop(st, fr, d, c, k)
}

func (e *Ex) nameAlways(st *State, hint string, t *Term) *Term {
	c := e.w.fresh(hint, t.Sort)
	st.assume(app("=", "Bool", c, t))
	return c
}

func cloneSet[K comparable](m map[K]bool) map[K]bool {
	o := map[K]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

// loopEnv builds the environment for loop clauses.
func (e *Ex) loopEnv(st, pre *State, fr *Frame, d *loopDesc, goal bool) *Env {
	pkgName := fr.pkg.Name
	spec := fr.spec
	env := &Env{e: e, w: e.w, st: st, old: e.entry, vars: map[string]Value{}, pkg: pkgName, goal: goal, freshA: e.entry.alloc, pre: pre}
	if spec != nil {
		env.pkg = spec.Pkg
	}
	if fr.top || fr.fi == e.fi {
		env.oldV = e.env0
	}
	mk := func(st *State) func(string) (Value, bool) {
		return func(name string) (Value, bool) {
			if h, ok := d.hidden[name]; ok {
				return h(st)
			}
			sc := e.innermost(fr.pkg, d.pos)
			if sc != nil {
				_, o := sc.LookupParent(name, d.pos)
				if v, ok := o.(*types.Var); ok && (v.Pkg() == nil || v.Parent() != v.Pkg().Scope()) {
					if kk, ok := e.lookupKey(st, fr, o); ok {
						x := st.vars[kk]
						if isBoxed(fr, o) && x.Clo == nil {
							if at, ok := o.Type().Underlying().(*types.Array); ok {
								return Value{T: e.selH(e.heap(st, e.w.heapKey(at.Elem())), pArr(x.T)), Typ: o.Type()}, true
							}
							return Value{T: e.loadElem(st, o.Type(), pArr(x.T), pIdx(x.T)), Typ: o.Type()}, true
						}
						if x.Clo == nil {
							return x, true
						}
					}
				}
			}
			// positional parameter names of the contract
			if spec != nil {
				for i, p := range spec.Params {
					if p == name {
						if o := paramObj(fr.fi, i); o != nil {
							if kk, ok := e.lookupKey(st, fr, o); ok {
								return st.vars[kk], true
							}
						}
					}
				}
			}
			if spec != nil {
				rs := fr.fi.Obj.Type().(*types.Signature).Results()
				for i, p := range spec.Results {
					if p == name && i < rs.Len() && rs.At(i).Name() != "" {
						if kk, ok := e.lookupKey(st, fr, rs.At(i)); ok {
							return st.vars[kk], true
						}
					}
				}
			}
			// enclosing loops' hidden variables
			for _, od := range e.loopStack {
				if h, ok := od.hidden[name]; ok {
					return h(st)
				}
			}
			return Value{}, false
		}
	}
	env.local = mk(st)
	if pre != nil {
		env.preLocal = mk(pre)
	}
	return env
}

// innerLoopEnv: clauses the verified function's contract gives for a loop of a function inlined into it
// speak about the verified function's variables.
func (e *Ex) innerLoopEnv(st, pre *State, fr *Frame, d *loopDesc, goal bool) *Env {
	env := &Env{e: e, w: e.w, st: st, old: e.entry, vars: map[string]Value{}, pkg: e.c.Pkg, goal: goal, freshA: e.entry.alloc, pre: pre, oldV: e.env0}
	mk := func(st *State) func(string) (Value, bool) {
		return func(name string) (Value, bool) {
			var best *vkey
			for k := range st.vars {
				if k.f != 1 || k.o.Name() != name {
					continue
				}
				if best == nil || k.o.Pos() > best.o.Pos() {
					k := k
					best = &k
				}
			}
			if best != nil {
				x := st.vars[*best]
				if x.Clo != nil {
					return Value{}, false
				}
				if o, ok := best.o.(*types.Var); ok && e.topBoxed != nil && e.topBoxed[o] {
					return Value{T: e.loadElem(st, o.Type(), pArr(x.T), pIdx(x.T)), Typ: o.Type()}, true
				}
				return x, true
			}
			for i, p := range e.c.Params {
				if p == name {
					if o := paramObj(e.fi, i); o != nil {
						if x, ok := st.vars[vkey{1, o}]; ok {
							return x, true
						}
					}
				}
			}
			return Value{}, false
		}
	}
	env.local = mk(st)
	if pre != nil {
		env.preLocal = mk(pre)
	}
	return env
}

func (e *Ex) innermost(p *Pkg, pos token.Pos) *types.Scope {
	var best *types.Scope
	for _, f := range p.Files {
		if f.FileStart <= pos && pos <= f.FileEnd {
			fs := p.Info.Scopes[f]
			if fs == nil {
				continue
			}
			best = fs.Innermost(pos)
		}
	}
	return best
}

func paramObj(fi *FuncInfo, i int) types.Object {
	sig := fi.Obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		if i == 0 {
			return r
		}
		i--
	}
	if i < sig.Params().Len() {
		return sig.Params().At(i)
	}
	return nil
}

func (e *Ex) loop(st *State, fr *Frame, d *loopDesc, c *ctl, k func(*State)) {
	if e.pure > 0 {
		e.fail(d.node, "loop in pure context")
	}
	var ls *LoopSpec
	ord := -1
	if n, ok := fr.loops[d.node]; ok {
		ord = n
		if fr.spec != nil {
			ls = fr.spec.Loops[n]
		}
	}
	inner := false
	if e.c != nil && fr.fi != e.fi {
		if is := e.c.InnerLoops[fmt.Sprintf("%s#%d", fr.fi.Key, ord)]; is != nil {
			ls, inner = is, true
		}
	}
	if ls == nil {
		ls = &LoopSpec{}
	}
	fkey := fr.fi.Key
	lname := fmt.Sprintf("%s.loop%d", fkey, ord)
	e.loopStack = append([]*loopDesc{d}, e.loopStack...)
	popStack := func() {
		if len(e.loopStack) > 0 {
			e.loopStack = e.loopStack[1:]
		}
	}
	outer := func(f func(*State)) func(*State) {
		return func(st *State) {
			sv := e.loopStack
			if len(e.loopStack) > 0 && e.loopStack[0] == d {
				e.loopStack = e.loopStack[1:]
			}
			f(st)
			e.loopStack = sv
		}
	}
	defer popStack()

	bodyCtl := func(onEnd func(*State), onExit func(*State)) *ctl {
		return &ctl{
			ret: func(st *State, vs []Value) { outer(func(st *State) { c.ret(st, vs) })(st) },
			brk: func(st *State, l string) {
				if l == "" || l == d.label {
					onExit(st)
					return
				}
				outer(func(st *State) { c.brk(st, l) })(st)
			},
			cont: func(st *State, l string) {
				if l == "" || l == d.label {
					onEnd(st)
					return
				}
				outer(func(st *State) { c.cont(st, l) })(st)
			},
		}
	}

	startSeq := e.w.nfresh
	pre := st.clone()

	// ---- write set by symbolic dry runs: what differs at the end of an iteration
	ws := newRecorder()
	for round := 0; ; round++ {
		if round > 8 {
			e.fail(d.node, "write set does not stabilise")
		}
		savedPaths, savedSeq := e.paths, e.retNo
		e.dry++
		s2 := st.clone()
		e.havocLoop(s2, pre, ws, fr, d, nil)
		h0 := s2.clone()
		grew := false
		endIter := func(end *State) {
			d.post(end, func(end *State) {
				for v, pv := range h0.vars {
					if _, ok := st.vars[v]; !ok || ws.vars[v] {
						continue
					}
					ev := end.vars[v]
					if pv.Clo != ev.Clo || (pv.T != ev.T && (pv.T == nil || ev.T == nil || !eqT(pv.T, ev.T))) {
						ws.vars[v] = true
						grew = true
					}
				}
				for h, ht := range end.heaps {
					if ws.heaps[h] {
						continue
					}
					if ht != e.heap(h0, h) && !eqT(ht, e.heap(h0, h)) {
						ws.heaps[h] = true
						grew = true
					}
				}
				for l := end.wlog; l != h0.wlog && l != nil; l = l.prev {
					if ws.refs[l.key] == nil {
						ws.refs[l.key] = map[string]*Term{}
					}
					if rk := l.ref.String(); ws.refs[l.key][rk] == nil {
						ws.refs[l.key][rk] = l.ref
					}
				}
			})
		}
		dc := &ctl{ret: func(*State, []Value) {}, brk: func(*State, string) {}, cont: func(st *State, l string) {
			if l == "" || l == d.label {
				endIter(st)
			}
		}}
		d.cond(s2, func(st *State) { d.body(st, dc, endIter) }, func(*State) {})
		e.dry--
		e.paths, e.retNo = savedPaths, savedSeq
		if !grew {
			break
		}
	}

	autos := func(st *State) []autoInv { return e.autoInvs(st, pre, fr, d, ws, lname, startSeq) }

	// ---- establish
	newEnv := e.loopEnv
	if inner {
		newEnv = e.innerLoopEnv
	}
	env := newEnv(st, pre, fr, d, true)
	e.useLemmas(st, env, ls.Use)
	for i, inv := range ls.Inv {
		env.nq = nil
		e.oblige(st, "inv-init", fmt.Sprintf("loop%d:%s", ord, labelOr(inv.Label, i)), d.node, env.evalBool(inv.X))
	}
	for _, a := range autos(st) {
		e.oblige(st, "auto-init", a.name, d.node, a.t)
	}

	// ---- arbitrary iteration
	head := st.clone()
	e.havocLoop(head, pre, ws, fr, d, nil)
	for _, h := range sortedKeys(ws.heaps) {
		for _, rk := range sortedKeys(ws.refs[h]) {
			head.wrote(h, ws.refs[h][rk])
		}
	}
	if d.bound != nil {
		for _, t := range d.bound(head) {
			head.assume(t)
		}
	}
	for _, a := range autos(head) {
		head.assume(a.t)
	}
	henv := newEnv(head, pre, fr, d, false)
	for _, inv := range ls.Inv {
		henv.nq = nil
		head.assume(henv.evalBool(inv.X))
	}
	e.useLemmas(head, henv, ls.Use)
	var decStart []*Term
	onEnd := func(st *State) {
		d.post(st, func(st *State) {
			if e.infeasible(st) {
				return
			}
			env := newEnv(st, pre, fr, d, true)
			e.useLemmas(st, env, ls.Use)
			for i, inv := range ls.Inv {
				env.nq = nil
				e.oblige(st, "inv-keep", fmt.Sprintf("loop%d:%s", ord, labelOr(inv.Label, i)), d.node, env.evalBool(inv.X))
			}
			for _, a := range autos(st) {
				e.oblige(st, "auto-keep", a.name, d.node, a.t)
			}
			for i, dc := range ls.Dec {
				t := env.eval(dc.X).T
				e.oblige(st, "decreases", fmt.Sprintf("loop%d", ord), d.node, and(lt(t, decStart[i]), le(zero, decStart[i])))
			}
		})
	}
	exit := outer(k)
	d.cond(head, func(st *State) {
		denv := newEnv(st, pre, fr, d, true)
		decStart = nil
		for _, dc := range ls.Dec {
			decStart = append(decStart, denv.eval(dc.X).T)
		}
		if len(ls.Dec) > 0 {
			e.termLoops++
		}
		d.body(st, bodyCtl(onEnd, exit), onEnd)
	}, exit)
}

// havocLoop forgets everything the loop may change.
func (e *Ex) havocLoop(st, pre *State, ws *recorder, fr *Frame, d *loopDesc, _ []types.Object) {
	na := e.w.fresh("alloc", "Int")
	st.assume(le(st.alloc, na))
	st.alloc = na
	keys := sortVars(ws.vars)
	for _, v := range keys {
		cur, ok := st.vars[v]
		if !ok {
			continue
		}
		if cur.Clo != nil {
			e.fail(d.node, "function variable %s assigned in a loop", v.o.Name())
		}
		t := e.w.fresh(v.o.Name(), cur.T.Sort)
		e.wf(st, t, cur.Typ)
		// give slices and pointers constructor shape for simplification
		st.vars[v] = Value{T: t, Typ: cur.Typ}
	}
	for _, h := range sortedKeys(ws.heaps) {
		n := e.w.fresh(h, e.w.heapSort(h))
		st.heaps[h] = n
		if strings.HasPrefix(h, "GV_") {
			e.wf(st, n, e.w.heapTyp[h])
			continue
		}
		e.wfHeap(st, h, n)
	}
}

// autoInvs are candidate invariants; each is checked and dropped when it does not hold.
func (e *Ex) autoInvs(st, pre *State, fr *Frame, d *loopDesc, ws *recorder, lname string, startSeq int) []autoInv {
	var out []autoInv
	addI := func(name string, t *Term) {
		n := lname + "/" + name
		if e.drop[n] || t.Op == "true" {
			return
		}
		out = append(out, autoInv{n, t})
	}
	if d.auto != nil {
		for _, a := range d.auto(st, pre) {
			addI(a.name, a.t)
		}
	}
	for _, v := range sortVars(ws.vars) {
		cur, pv := st.vars[v], pre.vars[v]
		if cur.T == nil || pv.T == nil {
			continue
		}
		switch cur.T.Sort {
		case "Slice":
			addI("slice:"+v.o.Name(), or(eq(sArr(cur.T), sArr(pv.T)), le(pre.alloc, sArr(cur.T))))
		case "Ptr":
		case "Int":
			if isInt(v.o.Type()) && v.o.Name() != "$i" {
				addI("up:"+v.o.Name(), le(pv.T, cur.T))
				addI("down:"+v.o.Name(), le(cur.T, pv.T))
			}
		}
	}
	for _, h := range sortedKeys(ws.heaps) {
		if strings.HasPrefix(h, "GV_") {
			// specification state changes only where the contract allows
			if strings.HasPrefix(h, "GV_ghost_") {
				H, E := e.heap(st, h), e.heap(e.entry, h)
				free := false
				for _, r := range e.entryRegs {
					if r.key == h && r.ghost == nil {
						free = true
					}
					if r.key == h {
						E = ghostPatch(E, H, r.ghost)
					}
				}
				if !free {
					addI("ghostframe:"+h, eq(H, E))
				}
			}
			continue
		}
		H, P := e.heap(st, h), e.heap(pre, h)
		// frame relative to the loop entry
		var excl []*Term
		unstable := false
		a := sym("fa?", "Int")
		for _, rk := range sortedKeys(ws.refs[h]) {
			r := ws.refs[h][rk]
			if n, ok := e.isFreshRef(r); ok && n > startSeq {
				continue
			}
			if maxSeq(r) <= startSeq && r.Op != "*" {
				excl = append(excl, neq(a, r))
				continue
			}
			unstable = true
		}
		if unstable {
			for _, v := range sortVars(ws.vars) {
				pv := pre.vars[v]
				if pv.T == nil {
					continue
				}
				switch u := pv.Typ.Underlying().(type) {
				case *types.Slice:
					if e.w.heapKey(u.Elem()) == h {
						excl = append(excl, neq(a, sArr(pv.T)))
					}
				case *types.Pointer:
					if e.w.heapKey(u.Elem()) == h {
						excl = append(excl, neq(a, pArr(pv.T)))
					}
				}
			}
		}
		if unstable && (len(excl) > 0 || e.drop[lname+"/frame:"+h]) {
			addI("keepall:"+h, forall([]Binder{{"fa?", "Int"}}, [][]*Term{{sel(H, a)}}, imp(lt(a, e.entry.alloc), eq(sel(H, a), sel(P, a)))))
			for _, v := range sortVars(ws.vars) {
				if pv := pre.vars[v]; pv.T != nil {
					if u, ok := pv.Typ.Underlying().(*types.Slice); ok && e.w.heapKey(u.Elem()) == h {
						addI("keep:"+v.o.Name()+":"+h, eq(sel(H, sArr(pv.T)), e.selH(P, sArr(pv.T))))
					}
				}
			}
		}
		body := imp(and(append([]*Term{lt(a, pre.alloc)}, excl...)...), eq(sel(H, a), sel(P, a)))
		addI("frame:"+h, forall([]Binder{{"fa?", "Int"}}, [][]*Term{{sel(H, a)}}, body))
		// the function's own frame
		if strings.HasPrefix(h, "H_") && e.entryRegs != nil {
			E := e.heap(e.entry, h)
			p := sym("fp?", "Int")
			cs := []*Term{lt(a, e.entry.alloc)}
			any := false
			for _, r := range e.entryRegs {
				if r.key == h {
					any = true
					cs = append(cs, not(inRegion(r, a, p)))
				}
			}
			if any {
				addI("fnframe:"+h, forall([]Binder{{"fa?", "Int"}, {"fp?", "Int"}}, [][]*Term{{sel(sel(H, a), p)}}, imp(and(cs...), eq(sel(sel(H, a), p), sel(sel(E, a), p)))))
			}
		}
	}
	return out
}

func sortVars(m map[vkey]bool) []vkey {
	var keys []vkey
	for v := range m {
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i], keys[j]
		if a.f != b.f {
			return a.f < b.f
		}
		if a.o.Pos() != b.o.Pos() {
			return a.o.Pos() < b.o.Pos()
		}
		return a.o.Name() < b.o.Name()
	})
	return keys
}
