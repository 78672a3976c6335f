package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

func floatBits(f float64) uint64 { return math.Float64bits(f) }

// Region is a set of heap cells named by a modifies clause.
type Region struct {
	key     string
	arr     *Term
	lo, hi  *Term
	whole   bool
	globVar bool
	fields  []int   // when set, only these fields of the single cell change
	ghost   []*Term // for specification state: only the part at these leading arguments changes
}

func (e *Ex) call(st *State, fr *Frame, x *ast.CallExpr, k func(*State, []Value)) {
	fun := ast.Unparen(x.Fun)
	for _, a := range x.Args {
		u, ok := ast.Unparen(a).(*ast.UnaryExpr)
		if !ok || u.Op != token.AND {
			continue
		}
		if s, ok := ast.Unparen(u.X).(*ast.SelectorExpr); ok && !isSyncType(e.typeOf(fr, s)) {
			// &x.f as an argument: the callee works on a copy of the field that is stored back afterwards
			if e.fieldArgs == nil {
				e.fieldArgs = map[*ast.UnaryExpr]bool{}
			}
			e.fieldArgs[u] = true
			e.externs["pointer to a field passed at "+e.pos(x)+" is not kept by the callee"] = true
			k0 := k
			k = func(st *State, vs []Value) {
				if p, ok := st.vars[vkey{fr.id, e.hiddenVar(u, "$i", intTyp)}]; ok && e.pure == 0 {
					e.lval(st, fr, u.X, func(st *State, l *loc) {
						nv := e.loadPtr(st, p.T, l.typ)
						e.storeLoc(st, fr, l, Value{T: nv, Typ: l.typ}, x)
						k0(st, vs)
					})
					return
				}
				k0(st, vs)
			}
		}
	}
	if tv, ok := fr.pkg.Info.Types[fun]; ok && tv.IsType() {
		e.eval(st, fr, x.Args[0], func(st *State, v Value) {
			k(st, []Value{e.explicitConv(st, fr, v, tv.Type, x)})
		})
		return
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := fr.pkg.Info.Uses[f].(type) {
		case *types.Builtin:
			e.builtin(st, fr, x, o.Name(), k)
			return
		case *types.Func:
			e.args(st, fr, x, o.Type().(*types.Signature), func(st *State, args []Value) {
				e.callFunc(st, fr, x, o, nil, args, k)
			})
			return
		}
	case *ast.SelectorExpr:
		if sl, ok := fr.pkg.Info.Selections[f]; ok {
			if sl.Kind() == types.MethodVal {
				m := sl.Obj().(*types.Func)
				sig := m.Type().(*types.Signature)
				if m.Pkg() != nil && (m.Pkg().Path() == "sync" || m.Pkg().Path() == "sync/atomic") {
					e.syncCall(st, fr, x, f, m, k)
					return
				}
				e.recvFor(st, fr, f, sl, m, func(st *State, recv Value, done func(*State)) {
					e.args(st, fr, x, sig, func(st *State, args []Value) {
						rv := recv
						if p, ok := rv.Typ.Underlying().(*types.Pointer); ok && rv.Clo == nil {
							rt := sig.Recv().Type()
							_, wp := rt.Underlying().(*types.Pointer)
							_, wi := rt.Underlying().(*types.Interface)
							if !wp && !wi {
								e.oblige(st, "nil", "", x, neq(pArr(rv.T), zero))
								rv = Value{T: e.loadPtr(st, rv.T, p.Elem()), Typ: p.Elem()}
								e.unfoldPtr(st, p.Elem(), rv)
							}
						}
						e.callFunc(st, fr, x, m, &rv, args, func(st *State, vs []Value) {
							if done != nil {
								done(st)
							}
							k(st, vs)
						})
					})
				})
				return
			}
		} else if o, ok := fr.pkg.Info.Uses[f.Sel].(*types.Func); ok {
			key := funcKey(o)
			if e.special(st, fr, x, key, k) {
				return
			}
			e.args(st, fr, x, o.Type().(*types.Signature), func(st *State, args []Value) {
				e.callFunc(st, fr, x, o, nil, args, k)
			})
			return
		}
	}
	// function values
	e.eval(st, fr, fun, func(st *State, v Value) {
		sig := e.typeOf(fr, fun).Underlying().(*types.Signature)
		e.args(st, fr, x, sig, func(st *State, args []Value) {
			if v.Clo != nil {
				e.callClosure(st, fr, x, v.Clo, args, k)
				return
			}
			if pv := e.packageVar(fr, fun); pv != nil {
				// A contract may be assumed for a function stored in a package-level variable.
				if c := e.w.DB.Contracts[pv.Pkg().Name()+"."+pv.Name()]; c != nil {
					e.callContract(st, fr, x, types.NewFunc(pv.Pos(), pv.Pkg(), pv.Name(), sig), c, nil, args, k)
					return
				}
			}
			if key := e.funcField(fr, fun); key != "" {
				if c := e.w.DB.Contracts[key]; c != nil {
					e.callContract(st, fr, x, types.NewFunc(x.Pos(), fr.pkg.Types, key, sig), c, nil, args, k)
					return
				}
			}
			if n, ok := e.typeOf(fr, fun).(*types.Named); ok && n.Obj().Pkg() != nil {
				// the contract of a named function type, which the functions of that type are checked against by themselves
				if c := e.w.DB.Contracts[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; c != nil {
					e.callContract(st, fr, x, types.NewFunc(x.Pos(), fr.pkg.Types, n.Obj().Name(), sig), c, nil, args, k)
					return
				}
			}
			// unknown function value
			e.externs["call of unknown function value at "+e.pos(x)+" assumed to have no effect on modelled memory"] = true
			e.havocResults(st, sig, k)
		})
	})
}

func (e *Ex) packageVar(fr *Frame, x ast.Expr) *types.Var {
	var o types.Object
	switch x := x.(type) {
	case *ast.Ident:
		o = e.info(fr).Uses[x]
	case *ast.SelectorExpr:
		if e.info(fr).Selections[x] == nil {
			o = e.info(fr).Uses[x.Sel]
		}
	}
	if v, ok := o.(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return v
	}
	return nil
}

// funcField names the struct field a called function value comes from: pkg.Type.field.
func (e *Ex) funcField(fr *Frame, x ast.Expr) string {
	s, ok := x.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	sl := e.info(fr).Selections[s]
	if sl == nil || sl.Kind() != types.FieldVal {
		return ""
	}
	t := sl.Recv()
	for _, i := range sl.Index() {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		f := t.Underlying().(*types.Struct).Field(i)
		if f == sl.Obj() {
			if n, ok := t.(*types.Named); ok {
				return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
			}
			return ""
		}
		t = f.Type()
	}
	return ""
}

func first(xs []ast.Expr) ast.Expr {
	if len(xs) == 0 {
		return nil
	}
	return xs[0]
}

func (e *Ex) isTuple(fr *Frame, x ast.Expr) bool {
	_, ok := e.typeOf(fr, x).(*types.Tuple)
	return ok
}

func (e *Ex) args(st *State, fr *Frame, x *ast.CallExpr, sig *types.Signature, k func(*State, []Value)) {
	np := sig.Params().Len()
	_, isCall := ast.Unparen(first(x.Args)).(*ast.CallExpr)
	if len(x.Args) == 1 && np > 1 && isCall && !(sig.Variadic() && !e.isTuple(fr, x.Args[0])) {
		e.evalMulti(st, fr, x.Args, np, func(st *State, vs []Value) {
			for i := range vs {
				vs[i] = e.convertTo(st, vs[i], sig.Params().At(i).Type())
			}
			k(st, vs)
		})
		return
	}
	e.evalMulti(st, fr, x.Args, len(x.Args), func(st *State, vs []Value) {
		out := make([]Value, 0, np)
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 && !x.Ellipsis.IsValid() {
				et := pt.(*types.Slice).Elem()
				rest := vs[i:]
				if len(rest) == 0 {
					out = append(out, Value{T: nilSlice, Typ: pt})
					break
				}
				r := e.newRef(st)
				st.assume(neq(r, zero))
				key := e.w.heapKey(et)
				a := e.w.fresh("A", arrRange(e.w.heapSort(key)))
				for j, v := range rest {
					v = e.convertTo(st, v, et)
					if v.T == nil {
						v.T = e.nonNilOpaque(st, "fn")
					}
					st.assume(app("=", "Bool", sel(a, intT(int64(j))), v.T))
				}
				if e.pure == 0 {
					e.setArr(st, key, r, a)
				}
				n := intT(int64(len(rest)))
				out = append(out, Value{T: mkSlice(r, zero, n, n), Typ: pt})
				break
			}
			out = append(out, e.convertTo(st, vs[i], pt))
		}
		k(st, out)
	})
}

func (e *Ex) explicitConv(st *State, fr *Frame, v Value, t types.Type, n ast.Node) Value {
	if v.Clo != nil {
		v.Typ = t
		return v
	}
	if v.T.Sort == "nil" {
		return e.convertTo(st, v, t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return e.convertTo(st, v, t)
	}
	// string <-> []byte
	vs, tsrt := v.T.Sort, e.w.sortOf(t)
	if vs == "Str" && tsrt == "Slice" {
		return e.strToBytes(st, v.T, t)
	}
	if vs == "Slice" && tsrt == "Str" {
		u := v.Typ.Underlying().(*types.Slice)
		a := e.selH(e.heap(st, e.w.heapKey(u.Elem())), sArr(v.T))
		e.w.fn("bytes_str", []string{a.Sort, "Int", "Int"}, "Str")
		r := app("bytes_str", "Str", a, sOff(v.T), sLen(v.T))
		e.w.fn("slen", []string{"Str"}, "Int")
		st.assume(eq(app("slen", "Int", r), sLen(v.T)))
		if arrRange(a.Sort) == "Int" && e.pure == 0 {
			r = e.nameAlways(st, "str", r)
			e.w.fn("sat", []string{"Str", "Int"}, "Int")
			q := sym("q?", "Int")
			c := app("sat", "Int", r, q)
			st.assume(forall([]Binder{{"q?", "Int"}}, [][]*Term{{c}}, imp(and(le(zero, q), lt(q, sLen(v.T))), eq(c, sel(a, add(sOff(v.T), q))))))
		}
		return Value{T: r, Typ: t}
	}
	return e.numConv(st, v, t, n)
}

func (e *Ex) strToBytes(st *State, s *Term, t types.Type) Value {
	u := t.Underlying().(*types.Slice)
	r := e.newRef(st)
	st.assume(neq(r, zero))
	key := e.w.heapKey(u.Elem())
	a := e.w.fresh("A", arrRange(e.w.heapSort(key)))
	e.setArr(st, key, r, a)
	n := e.strLen(st, s)
	e.w.fn("bytes_str", []string{a.Sort, "Int", "Int"}, "Str")
	st.assume(app("=", "Bool", app("bytes_str", "Str", a, zero, n), s))
	e.w.fn("sat", []string{"Str", "Int"}, "Int")
	q := sym("q?", "Int")
	c := app("sat", "Int", s, q)
	st.assume(forall([]Binder{{"q?", "Int"}}, [][]*Term{{c}, {sel(a, q)}}, imp(and(le(zero, q), lt(q, n)), eq(c, sel(a, q)))))
	return Value{T: mkSlice(r, zero, n, n), Typ: t}
}

// recvFor computes the receiver for a method call.
func (e *Ex) recvFor(st *State, fr *Frame, x *ast.SelectorExpr, sl *types.Selection, m *types.Func, k func(*State, Value, func(*State))) {
	sig := m.Type().(*types.Signature)
	rt := sig.Recv().Type()
	path := sl.Index()[:len(sl.Index())-1]
	_, wantPtr := rt.Underlying().(*types.Pointer)
	_, isIface := rt.Underlying().(*types.Interface)
	if isIface || !wantPtr {
		e.eval(st, fr, x.X, func(st *State, v Value) {
			typ := v.Typ
			deref := func() {
				if p, ok := typ.Underlying().(*types.Pointer); ok {
					e.oblige(st, "nil", "", x, neq(pArr(v.T), zero))
					v = Value{T: e.loadPtr(st, v.T, p.Elem()), Typ: p.Elem()}
					e.unfoldPtr(st, p.Elem(), v)
					typ = p.Elem()
				}
			}
			for _, i := range path {
				deref()
				f := typ.Underlying().(*types.Struct).Field(i)
				if e.w.structOf(v.T.Sort) == nil {
					v = Value{T: e.w.fresh("of", e.w.sortOf(f.Type())), Typ: f.Type()}
				} else {
					v = Value{T: e.w.field(v.T, i), Typ: f.Type()}
				}
				typ = f.Type()
			}
			// gc loads an implicitly dereferenced receiver after the arguments' calls: left to the caller
			k(st, v, nil)
		})
		return
	}
	// pointer receiver
	bt := e.typeOf(fr, x.X)
	if _, ok := bt.Underlying().(*types.Pointer); ok && len(path) == 0 {
		e.eval(st, fr, x.X, func(st *State, v Value) { k(st, v, nil) })
		return
	}
	// build a location for x.X plus the path
	cont := func(st *State, l *loc, typ types.Type) {
		for _, i := range path {
			if p, ok := typ.Underlying().(*types.Pointer); ok {
				cur := e.loadLoc(st, l, x)
				e.oblige(st, "nil", "", x, neq(pArr(cur.T), zero))
				l = &loc{heapT: p.Elem(), arr: pArr(cur.T), idx: pIdx(cur.T), root: p.Elem(), typ: p.Elem()}
				typ = p.Elem()
			}
			f := typ.Underlying().(*types.Struct).Field(i)
			n := *l
			n.path = append(append([]pstep{}, l.path...), pstep{field: i, typ: f.Type()})
			n.typ = f.Type()
			l = &n
			typ = f.Type()
		}
		if _, ok := typ.Underlying().(*types.Pointer); ok {
			k(st, e.loadLoc(st, l, x), nil)
			return
		}
		if l.heapT != nil && len(l.path) == 0 {
			k(st, Value{T: mkPtr(l.arr, l.idx), Typ: types.NewPointer(typ)}, nil)
			return
		}
		// copy in, copy out
		cur := e.loadLoc(st, l, x)
		p := e.allocCell(st, typ, cur.T)
		k(st, Value{T: p, Typ: types.NewPointer(typ)}, func(st *State) {
			nv := e.loadPtr(st, p, typ)
			if e.pure == 0 {
				e.storeLoc(st, fr, l, Value{T: nv, Typ: typ}, x)
			}
		})
	}
	if _, ok := bt.Underlying().(*types.Pointer); ok {
		e.eval(st, fr, x.X, func(st *State, v Value) {
			p := v.Typ.Underlying().(*types.Pointer)
			e.oblige(st, "nil", "", x, neq(pArr(v.T), zero))
			cont(st, &loc{heapT: p.Elem(), arr: pArr(v.T), idx: pIdx(v.T), root: p.Elem(), typ: p.Elem()}, p.Elem())
		})
		return
	}
	if !e.addressable(fr, x.X) {
		e.eval(st, fr, x.X, func(st *State, v Value) {
			p := e.allocCell(st, v.Typ, v.T)
			k(st, Value{T: p, Typ: types.NewPointer(v.Typ)}, nil)
		})
		return
	}
	e.lval(st, fr, x.X, func(st *State, l *loc) { cont(st, l, l.typ) })
}

func (e *Ex) addressable(fr *Frame, x ast.Expr) bool {
	tv := fr.pkg.Info.Types[x]
	return tv.Addressable()
}

func (e *Ex) syncCall(st *State, fr *Frame, x *ast.CallExpr, f *ast.SelectorExpr, m *types.Func, k func(*State, []Value)) {
	e.externs["sync and sync/atomic operations have no effect on modelled memory (single-threaded semantics)"] = true
	sig := m.Type().(*types.Signature)
	if mo := e.monitorOf(fr, f); mo != nil && e.monitorOp(st, fr, x, mo, m.Name()) {
		k(st, nil)
		return
	}
	if fl := rangeLit(x); fl != nil && e.w.DB.UFs["smKeys"] != nil {
		e.eval(st, fr, f.X, func(st *State, v Value) { e.syncRange(st, fr, x, fl, v, k) })
		return
	}
	if c := e.w.DB.Contracts[funcKey(m)]; c != nil {
		e.eval(st, fr, f.X, func(st *State, v Value) {
			e.args(st, fr, x, sig, func(st *State, args []Value) { e.callContract(st, fr, x, m, c, &v, args, k) })
		})
		return
	}
	if m.Name() == "Do" && len(x.Args) == 1 { // sync.Once
		e.eval(st, fr, x.Args[0], func(st *State, v Value) {
			a := st.clone()
			if v.Clo != nil {
				e.callClosure(a, fr, x, v.Clo, nil, k)
			}
			k(st, nil)
		})
		return
	}
	e.havocResults(st, sig, k)
}

func (e *Ex) havocResults(st *State, sig *types.Signature, k func(*State, []Value)) {
	var vs []Value
	if sig.Results().Len() > 0 {
		na := e.w.fresh("alloc", "Int")
		st.assume(le(st.alloc, na))
		st.alloc = na
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := e.w.fresh("r", e.w.sortOf(t))
		e.wf(st, r, t)
		vs = append(vs, Value{T: r, Typ: t})
	}
	k(st, vs)
}

func (e *Ex) callFunc(st *State, fr *Frame, x *ast.CallExpr, o *types.Func, recv *Value, args []Value, k func(*State, []Value)) {
	key := funcKey(o)
	fi := e.prog.ByPos[o]
	// Facts about results cannot leave a pure context (a comparison under a quantifier), so bodies are used there.
	if c := e.w.DB.Contracts[key]; c != nil && !c.Inline && (e.pure == 0 || fi == nil) && (fi != nil || c.Extern) {
		e.callContract(st, fr, x, o, c, recv, args, k)
		return
	}
	if fi != nil {
		e.inline(st, fr, x, fi, recv, args, k)
		return
	}
	e.foreign(st, fr, x, o, recv, args, k)
}

func (e *Ex) callClosure(st *State, fr *Frame, x ast.Node, c *Closure, args []Value, k func(*State, []Value)) {
	if c.nop {
		k(st, nil)
		return
	}
	if c.fn != nil || c.obj != nil {
		var call *ast.CallExpr
		if ce, ok := x.(*ast.CallExpr); ok {
			call = ce
		}
		obj := c.obj
		if obj == nil {
			obj = c.fn.Obj
		}
		if p := obj.Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
			e.externs["sync and sync/atomic operations have no effect on modelled memory (single-threaded semantics)"] = true
			e.havocResults(st, obj.Type().(*types.Signature), k)
			return
		}
		e.callFunc(st, fr, call, obj, c.recv, args, k)
		return
	}
	if c.lit == nil {
		e.fail(x, "call of unknown function %s", c.name)
	}
	sig := c.pkg.Info.Types[c.lit].Type.(*types.Signature)
	e.nframe++
	nf := &Frame{id: e.nframe, parent: c.frame, fi: c.frame.fi, pkg: c.pkg, sig: sig, loops: c.frame.loops, spec: c.frame.spec, boxed: c.frame.boxed}
	i := 0
	for _, f := range c.lit.Type.Params.List {
		for _, n := range f.Names {
			if o := c.pkg.Info.Defs[n]; o != nil {
				e.declVar(st, nf, o, args[i])
			}
			i++
		}
		if len(f.Names) == 0 {
			i++
		}
	}
	e.body(st, nf, c.lit.Type, c.lit.Body, x, k)
}

// body runs a function body in a prepared frame.
func (e *Ex) body(st *State, nf *Frame, ft *ast.FuncType, body *ast.BlockStmt, n ast.Node, k func(*State, []Value)) {
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, nm := range f.Names {
				o := nf.pkg.Info.Defs[nm]
				if o == nil { // "_"
					nf.named = append(nf.named, nil)
					continue
				}
				e.declVar(st, nf, o, Value{T: e.w.zeroVal(o.Type()), Typ: o.Type()})
				nf.named = append(nf.named, o)
			}
		}
	}
	done := func(st *State, vs []Value) {
		ds := st.defers[nf.id]
		var run func(st *State, i int)
		run = func(st *State, i int) {
			if i < 0 {
				delete(st.defers, nf.id)
				// named results may have been changed by defers
				if len(ds) > 0 && len(nf.named) == len(vs) {
					for j, o := range nf.named {
						if o != nil && o.Name() != "_" {
							vs[j] = e.readVar(st, nf, o, n)
						}
					}
				}
				k(st, vs)
				return
			}
			ds[i].run(st, func(st *State) { run(st, i-1) })
		}
		run(st, len(ds)-1)
	}
	c := &ctl{ret: done, brk: func(*State, string) { panic(unsupported{"break outside loop"}) }, cont: func(*State, string) { panic(unsupported{"continue outside loop"}) }}
	e.execList(st, nf, body.List, c, func(st *State) {
		if nf.sig.Results().Len() > 0 && len(nf.named) == 0 {
			// falls off the end: only after a terminating statement such as an infinite loop or panic
			return
		}
		var vs []Value
		for _, o := range nf.named {
			if o == nil {
				e.fail(n, "blank named result")
			}
			vs = append(vs, e.readVar(st, nf, o, n))
		}
		done(st, vs)
	})
}

func (e *Ex) inline(st *State, fr *Frame, x ast.Node, fi *FuncInfo, recv *Value, args []Value, k func(*State, []Value)) {
	for _, s := range e.stack {
		if s == fi {
			e.fail(x, "recursive function %s needs a contract", fi.Key)
		}
	}
	if len(e.stack) > 12 {
		e.fail(x, "inlining too deep at %s", fi.Key)
	}
	e.inlined[fi.Key] = true
	e.nframe++
	nf := &Frame{id: e.nframe, fi: fi, pkg: fi.Pkg, sig: fi.Obj.Type().(*types.Signature), loops: loopOrdinals(fi.Decl), boxed: boxedVars(fi)}
	if c := e.w.DB.Contracts[fi.Key]; c != nil {
		nf.spec = c
	}
	e.bindParams(st, nf, fi, recv, args)
	e.stack = append(e.stack, fi)
	sv := e.stack
	e.body(st, nf, fi.Decl.Type, fi.Decl.Body, x, func(st *State, vs []Value) {
		cur := e.stack
		e.stack = sv[:len(sv)-1]
		k(st, vs)
		e.stack = cur
	})
	e.stack = sv[:len(sv)-1]
}

func (e *Ex) bindParams(st *State, nf *Frame, fi *FuncInfo, recv *Value, args []Value) {
	d := fi.Decl
	if d.Recv != nil && len(d.Recv.List) > 0 && len(d.Recv.List[0].Names) > 0 {
		if o := fi.Pkg.Info.Defs[d.Recv.List[0].Names[0]]; o != nil && recv != nil {
			v := *recv
			// value receivers reached through pointers were already loaded
			e.declVar(st, nf, o, v)
		}
	}
	i := 0
	for _, o := range fi.Captured {
		e.declVar(st, nf, o, args[i])
		i++
	}
	for _, f := range d.Type.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			if o := fi.Pkg.Info.Defs[n]; o != nil {
				e.declVar(st, nf, o, args[i])
			}
			i++
		}
	}
}

// loopOrdinals numbers the loops of a declaration in source order.
func loopOrdinals(d *ast.FuncDecl) map[ast.Node]int {
	m := map[ast.Node]int{}
	n := 0
	ast.Inspect(d.Body, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ForStmt, *ast.RangeStmt:
			m[x] = n
			n++
		case *ast.CallExpr:
			if y := x.(*ast.CallExpr); rangeLit(y) != nil {
				m[x] = n
				n++
			}
		}
		return true
	})
	return m
}

// rangeLit: the function literal of a call x.Range(func...), which is a loop.
func rangeLit(x *ast.CallExpr) *ast.FuncLit {
	if f, ok := x.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "Range" && len(x.Args) == 1 {
		if fl, ok := ast.Unparen(x.Args[0]).(*ast.FuncLit); ok {
			return fl
		}
	}
	return nil
}

// syncRange: sync.Map.Range calls the function once for every entry, in some order, until it returns false.
// The specification names that order: smKeys(m) is the slice of the keys, smAt(m, k) the value of k.
func (e *Ex) syncRange(st *State, fr *Frame, x *ast.CallExpr, fl *ast.FuncLit, m Value, k func(*State, []Value)) {
	e.externs["sync.Map.Range calls its function once for each entry of the map, in some order, until it returns false"] = true
	env := &Env{e: e, w: e.w, st: st, old: st, vars: map[string]Value{"m": m}, pkg: e.c.Pkg, goal: true}
	id := func(n string) *Sx { return &Sx{Op: "ident", Name: n} }
	keys := env.eval(&Sx{Op: "call", A: []*Sx{id("smKeys"), id("m")}})
	et := keys.Typ.Underlying().(*types.Slice).Elem()
	n := sLen(keys.T)
	iobj := e.hiddenVar(x, "$i", intTyp)
	ik := vkey{fr.id, iobj}
	get := func(st *State) *Term { return st.vars[ik].T }
	st.vars[ik] = Value{T: zero, Typ: intTyp}
	d := &loopDesc{node: x, pos: fl.Body.Lbrace + 1, bodyAst: fl}
	line := e.prog.Fset.Position(x.Pos()).Line
	d.cond = func(st *State, kt, kf func(*State)) {
		t := lt(get(st), n)
		e.countPath(x)
		a, b := st.clone(), st
		a.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:iter", line))
		a.assumeBranch(t)
		b.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:done", line))
		b.assumeBranch(not(t))
		kt(a)
		kf(b)
	}
	d.body = func(st *State, c *ctl, k func(*State)) {
		key := Value{T: e.loadElem(st, et, sArr(keys.T), add(sOff(keys.T), get(st))), Typ: et}
		env := &Env{e: e, w: e.w, st: st, old: st, vars: map[string]Value{"m": m, "k": key}, pkg: e.c.Pkg, goal: true}
		val := env.eval(&Sx{Op: "call", A: []*Sx{id("smAt"), id("m"), id("k")}})
		clo := &Closure{lit: fl, frame: fr, pkg: fr.pkg}
		e.callClosure(st, fr, x, clo, []Value{key, val}, func(st *State, vs []Value) {
			switch vs[0].T.Op {
			case "true":
				k(st)
				return
			case "false":
				c.brk(st, "")
				return
			}
			a := st.clone()
			a.assumeBranch(vs[0].T)
			k(a)
			st.assumeBranch(not(vs[0].T))
			c.brk(st, "")
		})
	}
	d.post = func(st *State, k func(*State)) {
		st.vars[ik] = Value{T: add(get(st), one), Typ: intTyp}
		k(st)
	}
	d.hidden = map[string]func(*State) (Value, bool){
		"$i":     func(st *State) (Value, bool) { return Value{T: get(st), Typ: intTyp}, true },
		"$range": func(st *State) (Value, bool) { return keys, true },
	}
	d.bound = func(st *State) []*Term { return []*Term{le(zero, get(st)), le(get(st), n)} }
	e.loop(st, fr, d, &ctl{ret: func(*State, []Value) {}, brk: func(*State, string) {}, cont: func(*State, string) {}}, func(st *State) { k(st, nil) })
}

// boxedVars: locals whose address is taken explicitly.
func boxedVars(fi *FuncInfo) map[types.Object]bool {
	m := map[types.Object]bool{}
	ast.Inspect(fi.Decl, func(x ast.Node) bool {
		if u, ok := x.(*ast.SliceExpr); ok {
			if id, ok := ast.Unparen(u.X).(*ast.Ident); ok {
				if o, ok := fi.Pkg.Info.ObjectOf(id).(*types.Var); ok && o.Parent() != o.Pkg().Scope() {
					if _, ok := o.Type().Underlying().(*types.Array); ok {
						m[o] = true
					}
				}
			}
		}
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
			y := ast.Unparen(u.X)
			if id, ok := y.(*ast.Ident); ok {
				if o, ok := fi.Pkg.Info.ObjectOf(id).(*types.Var); ok && !isSyncType(o.Type()) {
					m[o] = true
				}
			}
		}
		return true
	})
	return m
}

// ---- contracts at call sites

func (e *Ex) contractEnv(st, old *State, c *Contract, o *types.Func, recv *Value, args, results []Value, at ast.Node) *Env {
	env := &Env{e: e, w: e.w, st: st, old: old, vars: map[string]Value{}, pkg: c.Pkg, goal: true}
	var ps []Value
	if recv != nil {
		ps = append(ps, *recv)
	}
	ps = append(ps, args...)
	for i, n := range c.Params {
		if i < len(ps) {
			env.vars[n] = ps[i]
		}
	}
	for i, n := range c.Results {
		if i < len(results) {
			env.vars[n] = results[i]
		}
	}
	return env
}

func (e *Ex) regions(env *Env, xs []*Sx) []Region {
	var out []Region
	for _, x := range xs {
		switch {
		case x.Op == "sel":
			p := env.eval(x.A[0])
			pt, ok := p.Typ.Underlying().(*types.Pointer)
			if !ok {
				env.err(x, "modifies field of non-pointer")
			}
			su, ok := pt.Elem().Underlying().(*types.Struct)
			fi := -1
			for i := 0; ok && i < su.NumFields(); i++ {
				if su.Field(i).Name() == x.Name {
					fi = i
				}
			}
			if fi < 0 {
				env.err(x, "no field %s", x.Name)
			}
			r := Region{key: e.w.heapKey(pt.Elem()), arr: pArr(p.T), lo: pIdx(p.T), hi: add(pIdx(p.T), one), fields: []int{fi}}
			for i, q := range out {
				if q.fields != nil && q.key == r.key && eqT(q.arr, r.arr) && eqT(q.lo, r.lo) {
					out[i].fields = append(out[i].fields, fi)
					r.fields = nil
				}
			}
			if r.fields != nil {
				out = append(out, r)
			}
		case x.Op == "un" && x.Name == "*":
			p := env.eval(x.A[0])
			pt, ok := p.Typ.Underlying().(*types.Pointer)
			if !ok {
				env.err(x, "modifies of non-pointer")
			}
			out = append(out, Region{key: e.w.heapKey(pt.Elem()), arr: pArr(p.T), lo: pIdx(p.T), hi: add(pIdx(p.T), one)})
		case x.Op == "call" && x.A[0].Name == "elems":
			s := env.eval(x.A[1])
			u := s.Typ.Underlying().(*types.Slice)
			out = append(out, Region{key: e.w.heapKey(u.Elem()), arr: sArr(s.T), lo: sOff(s.T), hi: add(sOff(s.T), sCap(s.T))})
		case x.Op == "call" && x.A[0].Name == "elemsIf": // elemsIf(c, s): the elements of s when c holds
			c := env.evalBool(x.A[1])
			s := env.eval(x.A[2])
			u := s.Typ.Underlying().(*types.Slice)
			out = append(out, Region{key: e.w.heapKey(u.Elem()), arr: ite(c, sArr(s.T), zero), lo: sOff(s.T), hi: add(sOff(s.T), sCap(s.T))})
		case x.Op == "call" && x.A[0].Name == "array":
			s := env.eval(x.A[1])
			u := s.Typ.Underlying().(*types.Slice)
			out = append(out, Region{key: e.w.heapKey(u.Elem()), arr: sArr(s.T), whole: true})
		case x.Op == "call" && x.A[0].Name == "map":
			m := env.eval(x.A[1])
			d, v, cc := e.w.mapKeys(m.Typ)
			for _, k := range []string{d, v, cc} {
				out = append(out, Region{key: k, arr: m.T, whole: true})
			}
		case x.Op == "call" && x.A[0].Name == "maps": // every map of the type of m
			d, v, cc := e.w.mapKeys(env.eval(x.A[1]).Typ)
			for _, k := range []string{d, v, cc} {
				out = append(out, Region{key: k})
			}
		case x.Op == "call" && x.A[0].Name == "all": // every cell of a type
			t := env.typeArg(x.A[1])
			out = append(out, Region{key: e.w.heapKey(t)})
		case x.Op == "ident" && e.w.DB.Ghosts[x.Name] != nil:
			k, _ := e.w.ghostKey(e.w.DB.Ghosts[x.Name])
			out = append(out, Region{key: k, globVar: true})
		case x.Op == "call" && e.w.DB.Ghosts[x.A[0].Name] != nil:
			k, g := e.w.ghostKey(e.w.DB.Ghosts[x.A[0].Name])
			out = append(out, Region{key: k, globVar: true, ghost: env.ghostArgs(x, g, x.A[1:])})
		case x.Op == "ident":
			if p := e.w.pkgByName(env.pkg); p != nil {
				if o, ok := p.Types.Scope().Lookup(x.Name).(*types.Var); ok {
					out = append(out, Region{key: e.globKey(o), globVar: true})
					continue
				}
			}
			env.err(x, "bad modifies %s", x.Name)
		default:
			env.err(x, "bad modifies")
		}
	}
	return out
}

// otherFields says that region i, some fields of one cell, keeps its other fields unless another region covers the cell.
func (e *Ex) otherFields(regs []Region, i int, H, O *Term) *Term {
	r := regs[i]
	var cs, fs []*Term
	for j, q := range regs {
		if j != i && q.key == r.key {
			cs = append(cs, not(inRegion(q, r.arr, r.lo)))
		}
	}
	a, b := sel(e.selH(H, r.arr), r.lo), sel(e.selH(O, r.arr), r.lo)
	for f := range e.w.structs[a.Sort].Fields {
		keep := true
		for _, g := range r.fields {
			keep = keep && f != g
		}
		if keep {
			fs = append(fs, eq(e.w.field(a, f), e.w.field(b, f)))
		}
	}
	return imp(and(cs...), and(fs...))
}

func inRegion(r Region, a, p *Term) *Term {
	if r.arr == nil {
		return tTrue
	}
	if r.whole {
		return eq(a, r.arr)
	}
	return and(eq(a, r.arr), le(r.lo, p), lt(p, r.hi))
}

func (e *Ex) callContract(st *State, fr *Frame, x *ast.CallExpr, o *types.Func, c *Contract, recv *Value, args []Value, k func(*State, []Value)) {
	if c.Extern {
		e.externs["assumed contract: "+c.Key] = true
	} else {
		e.used[c.Key] = true
	}
	if e.pure > 0 && len(c.Modifies) > 0 {
		panic(unsupported{"call of modifying function in pure context"})
	}
	sig := o.Type().(*types.Signature)
	if recv != nil {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			e.oblige(st, "nil", "receiver of "+c.Key, x, neq(pArr(recv.T), zero))
		}
	}
	// closures passed to contracts are opaque
	for i := range args {
		if args[i].Clo != nil && args[i].T == nil {
			args[i].T = e.nonNilOpaque(st, "fn")
		}
	}
	env := e.contractEnv(st, st, c, o, recv, args, nil, x)
	e.callOp(st, fr, x, c, env.vars)
	for i, r := range c.Requires {
		g := env.evalBool(r.X)
		e.oblige(st, "requires", c.Key+":"+labelOr(r.Label, i), x, g)
		_ = g
	}
	// re-assume requires in assumption polarity
	if e.pure == 0 && e.dry == 0 {
		env.goal = false
		env.nq = nil
		for _, r := range c.Requires {
			st.assume(env.evalBool(r.X))
		}
	}
	old := st.clone()
	oenv := e.contractEnv(old, old, c, o, recv, args, nil, x)
	regs := e.regions(oenv, c.Modifies)
	na := e.w.fresh("alloc", "Int")
	st.assume(le(st.alloc, na))
	st.alloc = na
	e.havocRegions(st, old, regs)
	for i, r := range regs {
		if r.fields != nil {
			st.assume(e.otherFields(regs, i, e.heap(st, r.key), e.heap(old, r.key)))
		}
	}
	var results []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		hint := "r"
		if i < len(c.Results) {
			hint = c.Results[i]
		}
		r := e.w.fresh(hint, e.w.sortOf(t))
		e.wf(st, r, t)
		results = append(results, Value{T: r, Typ: t})
	}
	penv := e.contractEnv(st, old, c, o, recv, args, results, x)
	penv.goal = false
	penv.freshA = old.alloc
	for _, en := range c.Ensures {
		penv.nq = nil
		st.assume(penv.evalBool(en.X))
	}
	if e.infeasible(st) {
		return
	}
	k(st, results)
}

func labelOr(l string, i int) string {
	if l != "" {
		return l
	}
	return fmt.Sprintf("#%d", i)
}

// ghostPatch is h with the part at the given leading arguments taken from n.
func ghostPatch(h, n *Term, as []*Term) *Term {
	if len(as) == 0 {
		return n
	}
	return store(h, as[0], ghostPatch(sel(h, as[0]), sel(n, as[0]), as[1:]))
}

// havocRegions replaces the named regions by arbitrary contents.
func (e *Ex) havocRegions(st, old *State, regs []Region) {
	byKey := map[string][]Region{}
	for _, r := range regs {
		byKey[r.key] = append(byKey[r.key], r)
	}
	for _, key := range sortedKeys(byKey) {
		rs := byKey[key]
		if rs[0].globVar {
			st.wrote(key, sym("*", "Int"))
			n := e.w.fresh(key, e.w.heapSort(key))
			partial := true
			h := e.heap(st, key)
			for _, r := range rs {
				if r.ghost == nil {
					partial = false
				}
			}
			if partial {
				for _, r := range rs {
					h = ghostPatch(h, n, r.ghost)
				}
				st.heaps[key] = e.name(st, key, h)
				continue
			}
			st.heaps[key] = n
			e.wf(st, n, e.w.heapTyp[key])
			continue
		}
		h := e.heap(st, key)
		allCells := false
		for _, r := range rs {
			if r.arr == nil {
				allCells = true
			}
		}
		if allCells {
			n := e.w.fresh(key, h.Sort)
			st.heaps[key] = n
			e.wfHeap(st, key, n)
			st.wrote(key, sym("*", "Int"))
			continue
		}
		if len(rs) == 1 && strings.HasPrefix(key, "H_") {
			// one region: a single array changes
			r := rs[0]
			a := e.selH(h, r.arr)
			nw := e.w.fresh("A", a.Sort)
			if !r.whole {
				if c, ok := constInt(sub(r.hi, r.lo)); ok && c.Int64() == 1 {
					v := e.w.fresh("c", arrRange(a.Sort))
					e.wf(st, v, e.w.heapTyp[key])
					st.assume(app("=", "Bool", nw, store(a, r.lo, v)))
					e.foldStore(st, e.w.heapTyp[key], nw, a, r.lo, v)
				} else {
					p := sym("p?", "Int")
					st.assume(forall([]Binder{{"p?", "Int"}}, [][]*Term{{sel(nw, p)}}, imp(or(lt(p, r.lo), le(r.hi, p)), eq(sel(nw, p), sel(a, p)))))
					e.foldFrame(st, e.w.heapTyp[key], nw, a, r.lo, r.hi)
					e.wfArr(st, key, nw)
				}
			} else {
				e.wfArr(st, key, nw)
			}
			e.setArr(st, key, r.arr, nw)
			continue
		}
		if !strings.HasPrefix(key, "H_") && len(rs) == 1 {
			nw := e.w.fresh("M", arrRange(h.Sort))
			if strings.HasPrefix(key, "MC_") {
				st.assume(le(zero, nw))
			}
			// a nil map cannot be written
			if was := ite(eq(rs[0].arr, zero), e.selH(h, rs[0].arr), nw); was != nw {
				st.assume(imp(eq(rs[0].arr, zero), eq(nw, e.selH(h, rs[0].arr))))
			}
			e.setArr(st, key, rs[0].arr, nw)
			continue
		}
		n := e.w.fresh(key, h.Sort)
		a, p := sym("a?", "Int"), sym("p?", "Int")
		var notIn, notArr []*Term
		for _, r := range rs {
			notIn = append(notIn, not(inRegion(r, a, p)))
			notArr = append(notArr, neq(a, r.arr))
		}
		if strings.HasPrefix(key, "H_") {
			st.assume(forall([]Binder{{"a?", "Int"}, {"p?", "Int"}}, [][]*Term{{sel(sel(n, a), p)}}, imp(and(notIn...), eq(sel(sel(n, a), p), sel(sel(h, a), p)))))
		}
		st.assume(forall([]Binder{{"a?", "Int"}}, [][]*Term{{sel(n, a)}}, imp(and(notArr...), eq(sel(n, a), sel(h, a)))))
		for i, r := range rs {
			if r.whole || !strings.HasPrefix(key, "H_") {
				continue
			}
			var others []*Term
			for j, q := range rs {
				if j != i {
					others = append(others, neq(q.arr, r.arr))
				}
			}
			for _, f := range e.w.foldsFor(e.w.heapTyp[key]) {
				_ = f
			}
			e.foldFrameIf(st, and(others...), e.w.heapTyp[key], sel(n, r.arr), e.selH(h, r.arr), r.lo, r.hi)
		}
		st.heaps[key] = n
		e.wfHeap(st, key, n)
		for _, r := range rs {
			st.wrote(key, r.arr)
		}
	}
}

func (e *Ex) wfArr(st *State, key string, a *Term) {
	p := sym("p?", "Int")
	c := sel(a, p)
	fs := e.wfFacts(c, e.w.heapTyp[key], st.alloc)
	if len(fs) > 0 {
		st.assume(forall([]Binder{{"p?", "Int"}}, [][]*Term{{c}}, and(fs...)))
	}
}

func (e *Ex) foldFrameIf(st *State, cond *Term, et types.Type, na, a, lo, hi *Term) {
	tmp := &State{}
	e.foldFrame(tmp, et, na, a, lo, hi)
	for _, f := range tmp.facts() {
		st.assume(imp(cond, f))
	}
}

// ---- builtins

func (e *Ex) builtin(st *State, fr *Frame, x *ast.CallExpr, name string, k func(*State, []Value)) {
	one1 := func(st *State, v Value) { k(st, []Value{v}) }
	switch name {
	case "len", "cap":
		e.eval(st, fr, x.Args[0], func(st *State, v Value) {
			switch u := v.Typ.Underlying().(type) {
			case *types.Slice:
				if name == "len" {
					one1(st, Value{T: sLen(v.T), Typ: intTyp})
				} else {
					one1(st, Value{T: sCap(v.T), Typ: intTyp})
				}
			case *types.Map:
				dk, _, c := e.w.mapKeys(v.Typ)
				n := e.selH(e.heap(st, c), v.T)
				st.assume(le(zero, n))
				st.assume(imp(eq(v.T, zero), eq(n, zero)))
				// a map is empty exactly when it has no key
				D := e.selH(e.heap(st, dk), v.T)
				ks := e.w.sortOf(u.Key())
				q, w := sym("mk?", ks), e.w.fresh("mk", ks)
				st.assume(imp(eq(n, zero), forall([]Binder{{"mk?", ks}}, [][]*Term{{sel(D, q)}}, not(sel(D, q)))))
				st.assume(imp(lt(zero, n), sel(D, w)))
				one1(st, Value{T: n, Typ: intTyp})
			case *types.Basic:
				one1(st, Value{T: e.strLen(st, v.T), Typ: intTyp})
			case *types.Array:
				one1(st, Value{T: intT(u.Len()), Typ: intTyp})
			default:
				n := e.w.fresh("len", "Int")
				st.assume(le(zero, n))
				one1(st, Value{T: n, Typ: intTyp})
			}
		})
	case "append":
		e.eval(st, fr, x.Args[0], func(st *State, s Value) {
			st0 := e.typeOf(fr, x)
			s = e.convertTo(st, s, st0)
			u := st0.Underlying().(*types.Slice)
			if len(x.Args) == 1 {
				one1(st, s)
				return
			}
			if x.Ellipsis.IsValid() {
				e.eval(st, fr, x.Args[1], func(st *State, t Value) {
					if t.T.Sort == "Str" {
						t = e.strToBytes(st, t.T, st0)
					}
					t = e.convertTo(st, t, st0)
					one1(st, e.appendSlice(st, s, t, u.Elem()))
				})
				return
			}
			e.evalMulti(st, fr, x.Args[1:], len(x.Args)-1, func(st *State, vs []Value) {
				if len(vs) == 1 {
					v := e.convertTo(st, vs[0], u.Elem())
					if v.Clo != nil {
						v.T = e.nonNilOpaque(st, "clo")
					}
					one1(st, e.appendOne(st, s, v.T, u.Elem()))
					return
				}
				cur := s
				r := e.newRef(st)
				st.assume(neq(r, zero))
				key := e.w.heapKey(u.Elem())
				a := e.w.fresh("A", arrRange(e.w.heapSort(key)))
				for j, v := range vs {
					v = e.convertTo(st, v, u.Elem())
					st.assume(app("=", "Bool", sel(a, intT(int64(j))), v.T))
				}
				e.setArr(st, key, r, a)
				for j := range vs {
					e.unfold(st, u.Elem(), a, intT(int64(j)))
				}
				n := intT(int64(len(vs)))
				one1(st, e.appendSlice(st, cur, Value{T: mkSlice(r, zero, n, n), Typ: st0}, u.Elem()))
			})
		})
	case "copy":
		e.eval(st, fr, x.Args[0], func(st *State, d Value) {
			e.eval(st, fr, x.Args[1], func(st *State, s Value) {
				if s.T.Sort == "Str" {
					s = e.strToBytes(st, s.T, d.Typ)
				}
				et := d.Typ.Underlying().(*types.Slice).Elem()
				n := e.name(st, "n", ite(le(sLen(d.T), sLen(s.T)), sLen(d.T), sLen(s.T)))
				e.copySlice(st, et, d.T, s.T, n)
				one1(st, Value{T: n, Typ: intTyp})
			})
		})
	case "make":
		t := e.typeOf(fr, x)
		switch u := t.Underlying().(type) {
		case *types.Slice:
			e.eval(st, fr, x.Args[1], func(st *State, ln Value) {
				fin := func(st *State, cp Value) {
					e.oblige(st, "make", "", x, and(le(zero, ln.T), le(ln.T, cp.T)))
					one1(st, e.makeSlice(st, t, u.Elem(), ln.T, cp.T))
				}
				if len(x.Args) > 2 {
					e.eval(st, fr, x.Args[2], fin)
				} else {
					fin(st, ln)
				}
			})
		case *types.Map:
			fin := func(st *State) { one1(st, e.newMap(st, t)) }
			if len(x.Args) > 1 {
				e.eval(st, fr, x.Args[1], func(st *State, v Value) { fin(st) })
			} else {
				fin(st)
			}
		default:
			one1(st, Value{T: e.nonNilOpaque(st, "chan"), Typ: t})
		}
	case "new":
		t := e.typeOf(fr, x).(*types.Pointer).Elem()
		one1(st, Value{T: e.allocCell(st, t, e.w.zeroVal(t)), Typ: e.typeOf(fr, x)})
	case "delete":
		e.eval(st, fr, x.Args[0], func(st *State, m Value) {
			e.eval(st, fr, x.Args[1], func(st *State, kk Value) {
				kk = e.convertTo(st, kk, m.Typ.Underlying().(*types.Map).Key())
				e.mapDelete(st, m, kk.T)
				k(st, nil)
			})
		})
	case "panic":
		e.eval(st, fr, x.Args[0], func(st *State, v Value) {
			e.oblige(st, "panic", "", x, tFalse)
		})
	case "close":
		e.eval(st, fr, x.Args[0], func(st *State, v Value) {
			e.chanOp(st, fr, x, "closes", v)
			k(st, nil)
		})
	case "min", "max":
		e.evalMulti(st, fr, x.Args, len(x.Args), func(st *State, vs []Value) {
			t := e.typeOf(fr, x)
			r := e.convertTo(st, vs[0], t).T
			for _, v := range vs[1:] {
				y := e.convertTo(st, v, t).T
				if name == "min" {
					r = ite(le(r, y), r, y)
				} else {
					r = ite(le(y, r), r, y)
				}
			}
			one1(st, Value{T: e.name(st, "m", r), Typ: t})
		})
	case "print", "println":
		k(st, nil)
	default:
		e.fail(x, "unsupported builtin %s", name)
	}
}

func (e *Ex) makeSlice(st *State, t, et types.Type, ln, cp *Term) Value {
	r := e.newRef(st)
	st.assume(neq(r, zero))
	key := e.w.heapKey(et)
	s := arrRange(e.w.heapSort(key))
	z := e.w.zeroVal(et)
	a := e.w.fresh("A", s)
	p := sym("p?", "Int")
	st.assume(forall([]Binder{{"p?", "Int"}}, [][]*Term{{sel(a, p)}}, eq(sel(a, p), z)))
	if e.pure == 0 {
		e.setArr(st, key, r, a)
	}
	return Value{T: mkSlice(r, zero, ln, cp), Typ: t}
}

// appendHeader introduces the result header of an append of n elements.
func (e *Ex) appendHeader(st *State, s *Term, n *Term) (arr, off, ln, cp, inPlace *Term) {
	if eqT(sCap(s), zero) { // known empty capacity: always grows unless nothing is added
		if c, ok := constInt(n); ok && c.Sign() > 0 {
			r := e.newRef(st)
			st.assume(neq(r, zero))
			cp = e.w.fresh("cap", "Int")
			st.assume(le(add(sLen(s), n), cp))
			return r, zero, add(sLen(s), n), cp, tFalse
		}
	}
	r := e.newRef(st)
	st.assume(neq(r, zero))
	arr, off, cp = e.w.fresh("arr", "Int"), e.w.fresh("off", "Int"), e.w.fresh("cap", "Int")
	ln = add(sLen(s), n)
	c := le(ln, sCap(s))
	inPlace = c
	st.assume(ite(c, and(eq(arr, sArr(s)), eq(off, sOff(s)), eq(cp, sCap(s))), and(eq(arr, r), eq(off, zero), le(ln, cp))))
	return
}

func (e *Ex) appendOne(st *State, s Value, v *Term, et types.Type) Value {
	key := e.w.heapKey(et)
	A := e.selH(e.heap(st, key), sArr(s.T))
	v = e.name(st, "v", v)
	arr, off, ln, cp, c := e.appendHeader(st, s.T, one)
	na := e.w.fresh("A", A.Sort)
	so, sl := sOff(s.T), sLen(s.T)
	p := sym("p?", "Int")
	P := []Binder{{"p?", "Int"}}
	st.assume(app("=", "Bool", sel(na, add(off, sl)), v))
	st.assume(forall(P, [][]*Term{{sel(na, p)}}, imp(and(le(off, p), lt(p, add(off, sl))), eq(sel(na, p), sel(A, add(so, sub(p, off)))))))
	st.assume(forall(P, [][]*Term{{sel(A, p)}}, imp(and(le(so, p), lt(p, add(so, sl))), eq(sel(na, add(off, sub(p, so))), sel(A, p)))))
	st.assume(imp(c, app("=", "Bool", na, store(A, add(so, sl), v))))
	for _, f := range e.w.foldsFor(et) {
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, kk *Term, ps []*Term) (*Term, []*Term) {
			return and(imp(and(le(off, kk), le(kk, add(off, sl))), eq(sub(fn(na, kk), fn(na, off)), sub(fn(A, add(so, sub(kk, off))), fn(A, so)))),
				eq(fn(na, add(off, add(sl, one))), add(fn(na, add(off, sl)), e.foldBody(f, v, ps)))), []*Term{fn(na, kk)}
		}))
	}
	e.foldStoreIf(st, c, et, na, A, add(so, sl), v)
	e.setArrRec(st, key, arr, na, sArr(s.T))
	return Value{T: mkSlice(arr, off, ln, cp), Typ: s.Typ}
}

func (e *Ex) foldStoreIf(st *State, c *Term, et types.Type, na, a, idx, v *Term) {
	tmp := &State{}
	e.foldStore(tmp, et, na, a, idx, v)
	for _, f := range tmp.facts() {
		st.assume(imp(c, f))
	}
}

func (e *Ex) appendSlice(st *State, s, t Value, et types.Type) Value {
	key := e.w.heapKey(et)
	A := e.selH(e.heap(st, key), sArr(s.T))
	T := e.selH(e.heap(st, key), sArr(t.T))
	n := sLen(t.T)
	arr, off, ln, cp, c := e.appendHeader(st, s.T, n)
	na := e.w.fresh("A", A.Sort)
	so, sl, to := sOff(s.T), sLen(s.T), sOff(t.T)
	p := sym("p?", "Int")
	P := []Binder{{"p?", "Int"}}
	mid := add(off, sl)
	st.assume(forall(P, [][]*Term{{sel(na, p)}}, and(
		imp(and(le(off, p), lt(p, mid)), eq(sel(na, p), sel(A, add(so, sub(p, off))))),
		imp(and(le(mid, p), lt(p, add(mid, n))), eq(sel(na, p), sel(T, add(to, sub(p, mid))))),
		imp(and(c, or(lt(p, mid), le(add(mid, n), p))), eq(sel(na, p), sel(A, p))))))
	st.assume(forall(P, [][]*Term{{sel(A, p)}}, and(imp(and(le(so, p), lt(p, add(so, sl))), eq(sel(na, add(off, sub(p, so))), sel(A, p))),
		imp(and(c, le(add(mid, n), p)), eq(sel(na, p), sel(A, p))))))
	st.assume(forall(P, [][]*Term{{sel(T, p)}}, imp(and(le(to, p), lt(p, add(to, n))), eq(sel(na, add(mid, sub(p, to))), sel(T, p)))))
	for _, f := range e.w.foldsFor(et) {
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, kk *Term, ps []*Term) (*Term, []*Term) {
			return and(imp(and(le(off, kk), le(kk, mid)), eq(sub(fn(na, kk), fn(na, off)), sub(fn(A, add(so, sub(kk, off))), fn(A, so)))),
				imp(and(le(mid, kk), le(kk, add(mid, n))), eq(sub(fn(na, kk), fn(na, mid)), sub(fn(T, add(to, sub(kk, mid))), fn(T, to)))),
				imp(c, and(imp(le(kk, mid), eq(fn(na, kk), fn(A, kk))),
					imp(le(add(mid, n), kk), eq(sub(fn(na, kk), fn(na, add(mid, n))), sub(fn(A, kk), fn(A, add(mid, n)))))))), []*Term{fn(na, kk)}
		}))
	}
	e.setArrRec(st, key, arr, na, sArr(s.T))
	return Value{T: mkSlice(arr, off, ln, cp), Typ: s.Typ}
}

func (e *Ex) copySlice(st *State, et types.Type, d, s, n *Term) {
	key := e.w.heapKey(et)
	A := e.selH(e.heap(st, key), sArr(d))
	S := e.selH(e.heap(st, key), sArr(s))
	na := e.w.fresh("A", A.Sort)
	do, so := sOff(d), sOff(s)
	p := sym("p?", "Int")
	P := []Binder{{"p?", "Int"}}
	in := and(le(do, p), lt(p, add(do, n)))
	st.assume(forall(P, [][]*Term{{sel(na, p)}}, eq(sel(na, p), ite(in, sel(S, add(so, sub(p, do))), sel(A, p)))))
	st.assume(forall(P, [][]*Term{{sel(S, p)}}, imp(and(le(so, p), lt(p, add(so, n))), eq(sel(na, add(do, sub(p, so))), sel(S, p)))))
	if A != S {
		st.assume(forall(P, [][]*Term{{sel(A, p)}}, imp(not(in), eq(sel(na, p), sel(A, p)))))
	}
	e.foldCopy(st, et, na, A, do, S, so, n)
	e.setArr(st, key, sArr(d), na)
}

// ---- defer

func (e *Ex) deferCall(st *State, fr *Frame, s *ast.DeferStmt, k func(*State)) {
	call := s.Call
	// owner frame: the function frame itself
	id := fr.id
	if fl, ok := ast.Unparen(call.Fun).(*ast.FuncLit); ok {
		e.evalMulti(st, fr, call.Args, len(call.Args), func(st *State, args []Value) {
			clo := &Closure{lit: fl, frame: fr, pkg: fr.pkg}
			d := deferred{run: func(st *State, k func(*State)) {
				e.callClosure(st, fr, call, clo, args, func(st *State, _ []Value) { k(st) })
			}}
			st.defers[id] = append(append([]deferred{}, st.defers[id]...), d)
			k(st)
		})
		return
	}
	if fc, ok := ast.Unparen(call.Fun).(*ast.CallExpr); ok { // defer f(x)(y): f(x) and y are evaluated now
		e.eval(st, fr, fc, func(st *State, v Value) {
			sig := e.typeOf(fr, fc).Underlying().(*types.Signature)
			e.args(st, fr, call, sig, func(st *State, args []Value) {
				d := deferred{run: func(st *State, k func(*State)) {
					if v.Clo != nil {
						e.callClosure(st, fr, call, v.Clo, args, func(st *State, _ []Value) { k(st) })
						return
					}
					e.externs["call of unknown function value at "+e.pos(call)+" assumed to have no effect on modelled memory"] = true
					e.havocResults(st, sig, func(st *State, _ []Value) { k(st) })
				}}
				st.defers[id] = append(append([]deferred{}, st.defers[id]...), d)
				k(st)
			})
		})
		return
	}
	d := deferred{run: func(st *State, k func(*State)) {
		e.call(st, fr, call, func(st *State, _ []Value) { k(st) })
	}}
	if len(call.Args) > 0 {
		e.externs["arguments of deferred call at "+e.pos(s)+" evaluated at function exit"] = true
	}
	st.defers[id] = append(append([]deferred{}, st.defers[id]...), d)
	k(st)
}

// ---- pure evaluation of closures

// pureCall evaluates a side-effect free closure into a single boolean term.
func (e *Ex) pureCall(st *State, fr *Frame, n ast.Node, c *Closure, args []Value) *Term {
	type res struct {
		cond, val *Term
	}
	var rs []res
	st2 := st.clone()
	start := st2.pc
	e.pure++
	defer func() { e.pure-- }()
	e.callClosure(st2, fr, n, c, args, func(s *State, vs []Value) {
		var cs []*Term
		for _, p := range e.factsSince(s, start) {
			if p.branch {
				cs = append(cs, p.t)
			}
		}
		rs = append(rs, res{and(cs...), vs[0].T})
	})
	if len(rs) == 0 {
		e.fail(n, "closure yields no result")
	}
	t := rs[len(rs)-1].val
	for i := len(rs) - 2; i >= 0; i-- {
		t = ite(rs[i].cond, rs[i].val, t)
	}
	return t
}

// special handles library functions whose arguments need particular treatment.
func (e *Ex) special(st *State, fr *Frame, x *ast.CallExpr, key string, k func(*State, []Value)) bool {
	switch key {
	case "sort.Slice", "sort.SliceStable", "sort.SliceIsSorted":
		e.eval(st, fr, x.Args[0], func(st *State, s Value) {
			e.eval(st, fr, x.Args[1], func(st *State, f Value) {
				if f.Clo == nil {
					e.fail(x, "sort with unknown less function")
				}
				e.sortModel(st, fr, x, key, s, f.Clo, k)
			})
		})
		return true
	case "sort.Search":
		e.eval(st, fr, x.Args[0], func(st *State, n Value) {
			e.eval(st, fr, x.Args[1], func(st *State, f Value) {
				if f.Clo == nil {
					e.fail(x, "sort.Search with unknown function")
				}
				e.searchModel(st, fr, x, n, f.Clo, k)
			})
		})
		return true
	case "math.Float64bits", "math.Float64frombits":
		if e.w.BV {
			e.eval(st, fr, x.Args[0], func(st *State, v Value) {
				if key == "math.Float64frombits" {
					k(st, []Value{{T: app("(_ to_fp 11 53)", "(_ FloatingPoint 11 53)", v.T), Typ: types.Typ[types.Float64]}})
					return
				}
				b := e.w.fresh("bits", "(_ BitVec 64)")
				st.assume(app("=", "Bool", app("(_ to_fp 11 53)", "(_ FloatingPoint 11 53)", b), v.T))
				k(st, []Value{{T: b, Typ: types.Typ[types.Uint64]}})
			})
			return true
		}
	case "math.IsNaN":
		if e.w.BV {
			e.eval(st, fr, x.Args[0], func(st *State, v Value) {
				k(st, []Value{{T: app("fp.isNaN", "Bool", v.T), Typ: boolTyp}})
			})
			return true
		}
	case "math.Inf", "math.NaN":
		if e.w.BV && key == "math.NaN" {
			k(st, []Value{{T: sym("(_ NaN 11 53)", "(_ FloatingPoint 11 53)"), Typ: types.Typ[types.Float64]}})
			return true
		}
	case "math.Signbit":
		if e.w.BV {
			e.eval(st, fr, x.Args[0], func(st *State, v Value) {
				b := e.w.fresh("bits", "(_ BitVec 64)")
				st.assume(app("=", "Bool", app("(_ to_fp 11 53)", "(_ FloatingPoint 11 53)", b), v.T))
				k(st, []Value{{T: app("=", "Bool", app("(_ extract 63 63)", "(_ BitVec 1)", b), sym("#b1", "(_ BitVec 1)")), Typ: boolTyp}})
			})
			return true
		}
	}
	return false
}

func (e *Ex) searchModel(st *State, fr *Frame, x *ast.CallExpr, n Value, clo *Closure, k func(*State, []Value)) {
	// monotone predicate required
	i, j := e.w.fresh("i", "Int"), e.w.fresh("j", "Int")
	s2 := st.clone()
	s2.assume(and(le(zero, i), lt(i, j), lt(j, n.T)))
	e.callClosure(s2.clone(), fr, x, clo, []Value{{T: i, Typ: intTyp}}, func(*State, []Value) {})
	pi := e.pureCall(s2, fr, x, clo, []Value{{T: i, Typ: intTyp}})
	pj := e.pureCall(s2, fr, x, clo, []Value{{T: j, Typ: intTyp}})
	e.oblige(s2, "search-monotone", "", x, imp(pi, pj))
	r := e.w.fresh("idx", "Int")
	st.assume(and(le(zero, r), le(r, n.T)))
	// r = first index satisfying
	r1 := sub(r, one)
	st.assume(imp(lt(r, n.T), e.pureCall(st, fr, x, clo, []Value{{T: r, Typ: intTyp}})))
	st.assume(imp(lt(zero, r), not(e.pureCall(st, fr, x, clo, []Value{{T: r1, Typ: intTyp}}))))
	q := sym("q?", "Int")
	pq := e.pureCall(st, fr, x, clo, []Value{{T: q, Typ: intTyp}})
	st.assume(e.pivotForall(q, pq, func(body *Term) *Term {
		return and(imp(and(le(zero, q), lt(q, r)), not(body)), imp(and(le(r, q), lt(q, n.T)), body))
	}))
	k(st, []Value{{T: r, Typ: intTyp}})
}

// pivotForall closes a fact over q, triggering on the array reads of body that mention q.
func (e *Ex) pivotForall(q, body *Term, mk func(*Term) *Term) *Term {
	var pats [][]*Term
	seen := map[string]bool{}
	var offs *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "select" && len(t.Args) == 2 && mentions(t.Args[1], q.Op) && !mentions(t.Args[0], q.Op) {
			d := sub(t.Args[1], q)
			if !mentions(d, q.Op) && !strings.Contains(d.String(), "?") {
				if offs == nil {
					offs = d
				}
				if eqT(offs, d) && !seen[t.Args[0].String()] {
					seen[t.Args[0].String()] = true
					pats = append(pats, []*Term{sel(t.Args[0], q)})
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	f := mk(body)
	if offs != nil {
		f = subst(f, q.Op, sub(q, offs))
	}
	return forall([]Binder{{q.Op, "Int"}}, pats, f)
}

func subst(t *Term, name string, by *Term) *Term {
	if t.isSym() {
		if t.Op == name {
			return by
		}
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, name, by)
		if args[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	switch {
	case t.Op == "+" && t.Sort == "Int":
		r := args[0]
		for _, a := range args[1:] {
			r = add(r, a)
		}
		return r
	case t.Op == "*" && t.Sort == "Int" && len(args) == 2:
		return mul(args[0], args[1])
	}
	n := *t
	n.Args = args
	n.str, n.size = "", 0
	return &n
}

// sortModel: sort.Slice permutes x so that less never holds backwards.
func (e *Ex) sortModel(st *State, fr *Frame, x *ast.CallExpr, key string, s Value, clo *Closure, k func(*State, []Value)) {
	u, ok := s.Typ.Underlying().(*types.Slice)
	if !ok {
		e.fail(x, "sort of non-slice")
	}
	iv := func(t *Term) Value { return Value{T: t, Typ: intTyp} }
	ln := sLen(s.T)
	// safety of the comparison function
	i, j, l := e.w.fresh("i", "Int"), e.w.fresh("j", "Int"), e.w.fresh("k", "Int")
	rng := func(t *Term) *Term { return and(le(zero, t), lt(t, ln)) }
	s2 := st.clone()
	s2.assume(and(rng(i), rng(j), rng(l)))
	e.callClosure(s2.clone(), fr, x, clo, []Value{iv(i), iv(j)}, func(*State, []Value) {})
	lessAt := func(st *State, a, b *Term) *Term { return e.pureCall(st, fr, x, clo, []Value{iv(a), iv(b)}) }
	hk := e.w.heapKey(u.Elem())
	if key == "sort.SliceIsSorted" {
		r := e.w.fresh("sorted", "Bool")
		q := sym("q?", "Int")
		body := lessAt(st, add(q, one), q)
		f := e.pivotForall(q, body, func(b *Term) *Term { return imp(and(le(zero, q), lt(add(q, one), ln)), not(b)) })
		st.assume(imp(r, f))
		w := e.w.fresh("unsorted_at", "Int")
		st.assume(imp(not(r), and(le(zero, w), lt(add(w, one), ln), lessAt(st, add(w, one), w))))
		e.lessLocal(x, lessAt(s2.clone(), i, j), e.selH(e.heap(st, hk), sArr(s.T)), sOff(s.T), i, j)
		// pairwise form: holds for a transitive order (strict weak order is checked)
		e.checkSWO(s2, x, lessAt, i, j, l)
		a, b := sym("qa?", "Int"), sym("qb?", "Int")
		st.assume(imp(r, e.pairForall(st, s.T, hk, a, b, ln, lessAt(st, b, a))))
		k(st, []Value{{T: r, Typ: boolTyp}})
		return
	}
	e.checkSWO(s2, x, lessAt, i, j, l)
	A := e.selH(e.heap(st, hk), sArr(s.T))
	e.lessLocal(x, lessAt(s2.clone(), i, j), A, sOff(s.T), i, j)
	na := e.w.fresh("A", A.Sort)
	e.w.nfresh++
	pf, qf := fmt.Sprintf("perm_%d", e.w.nfresh), fmt.Sprintf("pinv_%d", e.w.nfresh)
	e.w.fn(pf, []string{"Int"}, "Int")
	e.w.fn(qf, []string{"Int"}, "Int")
	P := func(t *Term) *Term { return app(pf, "Int", t) }
	Q := func(t *Term) *Term { return app(qf, "Int", t) }
	off := sOff(s.T)
	p := sym("p?", "Int")
	B := []Binder{{"p?", "Int"}}
	in := and(le(off, p), lt(p, add(off, ln)))
	inT := func(t *Term) *Term { return and(le(off, t), lt(t, add(off, ln))) }
	st.assume(forall(B, [][]*Term{{sel(na, p)}}, ite(in, and(inT(P(p)), eq(Q(P(p)), p), eq(sel(na, p), sel(A, P(p)))), eq(sel(na, p), sel(A, p)))))
	st.assume(forall(B, [][]*Term{{sel(A, p)}}, ite(in, and(inT(Q(p)), eq(P(Q(p)), p), eq(sel(na, Q(p)), sel(A, p))), eq(sel(na, p), sel(A, p)))))
	for _, f := range e.w.foldsFor(u.Elem()) {
		st.assume(e.foldQuant(f, func(fn func(a, k *Term) *Term, kk *Term, ps []*Term) (*Term, []*Term) {
			hi := add(off, ln)
			return and(imp(or(le(kk, off), le(hi, kk)), eq(fn(na, kk), fn(A, kk)))), []*Term{fn(na, kk)}
		}))
	}
	e.setArr(st, hk, sArr(s.T), na)
	a, b := sym("qa?", "Int"), sym("qb?", "Int")
	st.assume(e.pairForall(st, s.T, hk, a, b, ln, lessAt(st, b, a)))
	k(st, nil)
}

// pairForall: for all a<b in range, not less(b,a), triggered by reads of the sorted slice.
func (e *Ex) pairForall(st *State, s *Term, hk string, a, b, ln, less *Term) *Term {
	arr := e.selH(e.heap(st, hk), sArr(s))
	off := sOff(s)
	f := imp(and(le(zero, a), lt(a, b), lt(b, ln)), not(less))
	f = subst(subst(f, a.Op, sub(sym("za?", "Int"), off)), b.Op, sub(sym("zb?", "Int"), off))
	za, zb := sym("za?", "Int"), sym("zb?", "Int")
	return forall([]Binder{{"za?", "Int"}, {"zb?", "Int"}}, [][]*Term{{sel(arr, za), sel(arr, zb)}}, f)
}

// lessLocal: the comparison must depend on the two compared cells of the sorted slice only;
// otherwise the sort model does not apply.
func (e *Ex) lessLocal(n ast.Node, t, A, off, i, j *Term) {
	bad := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "select" && len(t.Args) == 2 && eqT(t.Args[0], A) && (eqT(t.Args[1], add(off, i)) || eqT(t.Args[1], add(off, j))) {
			return
		}
		if eqT(t, A) || eqT(t, i) || eqT(t, j) {
			bad = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	if bad {
		e.fail(n, "the comparison passed to sort reads something other than the two compared elements of the sorted slice")
	}
}

func (e *Ex) checkSWO(st *State, n ast.Node, less func(*State, *Term, *Term) *Term, i, j, k *Term) {
	st = st.clone()
	e.oblige(st, "sort-order", "irreflexive", n, not(less(st, i, i)))
	e.oblige(st, "sort-order", "transitive", n, imp(and(less(st, i, j), less(st, j, k)), less(st, i, k)))
	inc := func(a, b *Term) *Term { return and(not(less(st, a, b)), not(less(st, b, a))) }
	e.oblige(st, "sort-order", "incomparability-transitive", n, imp(and(inc(i, j), inc(j, k)), inc(i, k)))
}

// ---- foreign functions

var pureForeign = map[string]bool{"fmt": true, "log": true, "strings": true, "errors": true, "time": true, "context": true, "strconv": true, "math": true, "bytes": true, "unicode": true, "regexp": true, "path": true, "filepath": true, "uuid": true, "runtime": true, "os": true, "jwt": true, "goa": true, "slog": true, "http": true}

func (e *Ex) foreign(st *State, fr *Frame, x *ast.CallExpr, o *types.Func, recv *Value, args []Value, k func(*State, []Value)) {
	key := funcKey(o)
	sig := o.Type().(*types.Signature)
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Name()
	}
	res1 := func(t *Term, typ types.Type) { k(st, []Value{{T: t, Typ: typ}}) }
	switch key {
	case "fmt.Errorf", "errors.New":
		res1(e.freshErr(st), sig.Results().At(0).Type())
		return
	case "math.Float64bits", "math.Float64frombits":
	case "strings.HasPrefix":
		e.w.fn("str_prefix", []string{"Str", "Str"}, "Bool")
		res1(app("str_prefix", "Bool", args[0].T, args[1].T), boolTyp)
		return
	case "strings.ToLower", "strings.TrimSpace", "strings.ToUpper":
		fn := "str_" + strings.ToLower(o.Name())
		e.w.fn(fn, []string{"Str"}, "Str")
		res1(app(fn, "Str", args[0].T), sig.Results().At(0).Type())
		return
	}
	if !pureForeign[pkg] {
		chk := func(t types.Type) bool {
			switch u := t.Underlying().(type) {
			case *types.Slice, *types.Map:
				return true
			case *types.Pointer:
				if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && e.prog.Pkgs[n.Obj().Pkg().Path()] == nil {
					return false
				}
				return true
			}
			return false
		}
		for _, a := range args {
			if a.Typ != nil && chk(a.Typ) {
				e.fail(x, "call of external %s with memory argument and no contract", key)
			}
		}
	}
	e.externs["external function "+key+" assumed to terminate, to leave modelled memory unchanged and to return an arbitrary value"] = true
	e.havocResults(st, sig, k)
}

var _ = sort.Strings
