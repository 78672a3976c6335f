package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

type ctl struct {
	ret  func(st *State, vs []Value)
	brk  func(st *State, label string)
	cont func(st *State, label string)
}

const maxPaths = 20000

func (e *Ex) countPath(n ast.Node) {
	e.paths++
	if e.paths > maxPaths {
		e.fail(n, "too many paths")
	}
}

func (e *Ex) execList(st *State, fr *Frame, list []ast.Stmt, c *ctl, k func(*State)) {
	if len(list) == 0 {
		k(st)
		return
	}
	e.exec(st, fr, list[0], c, func(st *State) { e.execList(st, fr, list[1:], c, k) })
}

func (e *Ex) info(fr *Frame) *types.Info { return fr.pkg.Info }

func (e *Ex) typeOf(fr *Frame, x ast.Expr) types.Type {
	if tv, ok := fr.pkg.Info.Types[x]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := fr.pkg.Info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func (e *Ex) infeasible(st *State) bool {
	return st.pc != nil && st.pc.t.Op == "false"
}

func (e *Ex) branch(st *State, fr *Frame, cond ast.Expr, n ast.Node, kt, kf func(*State)) {
	e.evalCond(st, fr, cond, func(st *State, t *Term) {
		if t.Op == "true" {
			kt(st)
			return
		}
		if t.Op == "false" && t.isSym() {
			kf(st)
			return
		}
		e.countPath(n)
		line := e.prog.Fset.Position(n.Pos()).Line
		a := st.clone()
		a.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:T", line))
		a.assumeBranch(t)
		b := st.clone()
		b.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:F", line))
		b.assumeBranch(not(t))
		kt(a)
		kf(b)
	})
}

// evalCond evaluates a boolean expression.
func (e *Ex) evalCond(st *State, fr *Frame, x ast.Expr, k func(*State, *Term)) {
	e.eval(st, fr, x, func(st *State, v Value) { k(st, v.T) })
}

func (e *Ex) exec(st *State, fr *Frame, s ast.Stmt, c *ctl, k func(*State)) {
	if e.infeasible(st) {
		return
	}
	switch s := s.(type) {
	case nil:
		k(st)
	case *ast.BlockStmt:
		e.execList(st, fr, s.List, c, k)
	case *ast.EmptyStmt:
		k(st)
	case *ast.ExprStmt:
		if call, ok := s.X.(*ast.CallExpr); ok {
			e.call(st, fr, call, func(st *State, vs []Value) { k(st) })
			return
		}
		if u, ok := s.X.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			e.eval(st, fr, u.X, func(st *State, v Value) {
				e.chanOp(st, fr, u, "awaits", v)
				k(st)
			})
			return
		}
		e.eval(st, fr, s.X, func(st *State, v Value) { k(st) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k(st)
			return
		}
		var do func(st *State, specs []ast.Spec)
		do = func(st *State, specs []ast.Spec) {
			if len(specs) == 0 {
				k(st)
				return
			}
			vs := specs[0].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := e.info(fr).Defs[n]
					if o == nil {
						continue
					}
					e.declVar(st, fr, o, Value{T: e.w.zeroVal(o.Type()), Typ: o.Type()})
				}
				do(st, specs[1:])
				return
			}
			e.evalMulti(st, fr, vs.Values, len(vs.Names), func(st *State, vals []Value) {
				for i, n := range vs.Names {
					if o := e.info(fr).Defs[n]; o != nil {
						e.declVar(st, fr, o, vals[i])
					}
				}
				do(st, specs[1:])
			})
		}
		do(st, gd.Specs)
	case *ast.AssignStmt:
		e.assign(st, fr, s, k)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		e.lval(st, fr, s.X, func(st *State, l *loc) {
			cur := e.loadLoc(st, l, s.X)
			v := e.arith(st, op, cur, Value{T: e.intLit(big.NewInt(1), cur.Typ), Typ: cur.Typ}, cur.Typ, s)
			e.storeLoc(st, fr, l, v, s)
			k(st)
		})
	case *ast.IfStmt:
		body := func(st *State) {
			e.branch(st, fr, s.Cond, s,
				func(st *State) { e.exec(st, fr, s.Body, c, k) },
				func(st *State) {
					if s.Else != nil {
						e.exec(st, fr, s.Else, c, k)
					} else {
						k(st)
					}
				})
		}
		if s.Init != nil {
			e.exec(st, fr, s.Init, c, body)
		} else {
			body(st)
		}
	case *ast.ReturnStmt:
		e.execReturn(st, fr, s, c)
	case *ast.BranchStmt:
		lab := ""
		if s.Label != nil {
			lab = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			c.brk(st, lab)
		case token.CONTINUE:
			c.cont(st, lab)
		default:
			e.fail(s, "unsupported branch %s", s.Tok)
		}
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.ForStmt:
			e.loopFor(st, fr, in, s.Label.Name, c, k)
		case *ast.RangeStmt:
			e.loopRange(st, fr, in, s.Label.Name, c, k)
		default:
			e.exec(st, fr, s.Stmt, e.labelled(c, s.Label.Name, k), k)
		}
	case *ast.ForStmt:
		e.loopFor(st, fr, s, "", c, k)
	case *ast.RangeStmt:
		e.loopRange(st, fr, s, "", c, k)
	case *ast.SwitchStmt:
		e.execSwitch(st, fr, s, c, k)
	case *ast.TypeSwitchStmt:
		e.execTypeSwitch(st, fr, s, c, k)
	case *ast.DeferStmt:
		e.deferCall(st, fr, s, k)
	case *ast.GoStmt:
		if e.goContract(st, fr, s, k) {
			return
		}
		e.externs["goroutine started at "+e.pos(s)+" is executed to completion where it is started (assumes goroutines share no written memory)"] = true
		e.call(st, fr, s.Call, func(st *State, vs []Value) { k(st) })
	case *ast.SelectStmt:
		e.execSelect(st, fr, s, c, k)
	case *ast.SendStmt:
		e.eval(st, fr, s.Value, func(st *State, v Value) {
			e.chanOp(st, fr, s, "sends", v)
			k(st)
		})
	default:
		e.fail(s, "unsupported statement %T", s)
	}
}

func (e *Ex) labelled(c *ctl, name string, k func(*State)) *ctl {
	n := *c
	n.brk = func(st *State, l string) {
		if l == name {
			k(st)
			return
		}
		c.brk(st, l)
	}
	return &n
}

func (e *Ex) execSwitch(st *State, fr *Frame, s *ast.SwitchStmt, c *ctl, k func(*State)) {
	c2 := *c
	c2.brk = func(st *State, l string) {
		if l == "" {
			k(st)
			return
		}
		c.brk(st, l)
	}
	run := func(st *State) {
		var tag *Value
		cases := func(st *State) {
			var def *ast.CaseClause
			var list []*ast.CaseClause
			for _, b := range s.Body.List {
				cc := b.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
				} else {
					list = append(list, cc)
				}
			}
			var bodyOf func(st *State, cc *ast.CaseClause)
			bodyOf = func(st *State, cc *ast.CaseClause) {
				stmts := cc.Body
				if n := len(stmts); n > 0 {
					if b, ok := stmts[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
						idx := -1
						for i, x := range s.Body.List {
							if x == ast.Stmt(cc) {
								idx = i
							}
						}
						next := s.Body.List[idx+1].(*ast.CaseClause)
						e.execList(st, fr, stmts[:n-1], &c2, func(st *State) { bodyOf(st, next) })
						return
					}
				}
				e.execList(st, fr, stmts, &c2, k)
			}
			var try func(st *State, ci, ei int)
			try = func(st *State, ci, ei int) {
				if ci >= len(list) {
					if def != nil {
						bodyOf(st, def)
					} else {
						k(st)
					}
					return
				}
				cc := list[ci]
				if ei >= len(cc.List) {
					try(st, ci+1, 0)
					return
				}
				cond := func(st *State, t *Term) {
					if t.Op == "true" {
						bodyOf(st, cc)
						return
					}
					if t.Op == "false" && t.isSym() {
						try(st, ci, ei+1)
						return
					}
					e.countPath(cc)
					line := e.prog.Fset.Position(cc.Pos()).Line
					a := st.clone()
					a.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:case", line))
					a.assumeBranch(t)
					b := st.clone()
					b.assumeBranch(not(t))
					bodyOf(a, cc)
					try(b, ci, ei+1)
				}
				e.eval(st, fr, cc.List[ei], func(st *State, v Value) {
					if tag == nil {
						cond(st, v.T)
						return
					}
					cond(st, e.compare(st, token.EQL, *tag, v, cc).T)
				})
			}
			try(st, 0, 0)
		}
		if s.Tag != nil {
			e.eval(st, fr, s.Tag, func(st *State, v Value) {
				tag = &v
				cases(st)
			})
		} else {
			cases(st)
		}
	}
	if s.Init != nil {
		e.exec(st, fr, s.Init, c, run)
	} else {
		run(st)
	}
}

// execSelect: any ready case may be taken, and received values are arbitrary.
func (e *Ex) execSelect(st *State, fr *Frame, s *ast.SelectStmt, c *ctl, k func(*State)) {
	c2 := *c
	c2.brk = func(st *State, l string) {
		if l == "" {
			k(st)
			return
		}
		c.brk(st, l)
	}
	e.externs["select statements may take any case; values received from channels are arbitrary"] = true
	pick := e.w.fresh("select", "Int")
	for i, b := range s.Body.List {
		cc := b.(*ast.CommClause)
		a := st.clone()
		e.countPath(cc)
		a.path = append(append([]string{}, st.path...), fmt.Sprintf("%d:select", e.prog.Fset.Position(cc.Pos()).Line))
		a.assumeBranch(eq(pick, intT(int64(i))))
		e.exec(a, fr, cc.Comm, &c2, func(st *State) { e.execList(st, fr, cc.Body, &c2, k) })
	}
}

func (e *Ex) execTypeSwitch(st *State, fr *Frame, s *ast.TypeSwitchStmt, c *ctl, k func(*State)) {
	c2 := *c
	c2.brk = func(st *State, l string) {
		if l == "" {
			k(st)
			return
		}
		c.brk(st, l)
	}
	run := func(st *State) {
		var subj ast.Expr
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			subj = ast.Unparen(a.X).(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			subj = ast.Unparen(a.Rhs[0]).(*ast.TypeAssertExpr).X
		}
		e.eval(st, fr, subj, func(st *State, v Value) {
			none := boolT(true)
			var def *ast.CaseClause
			take := func(cc *ast.CaseClause, cond *Term, val Value) {
				a := st.clone()
				a.assumeBranch(cond)
				if e.infeasible(a) {
					return
				}
				e.countPath(cc)
				if o := e.info(fr).Implicits[cc]; o != nil {
					e.declVar(a, fr, o, Value{T: val.T, Typ: o.Type()})
				}
				e.execList(a, fr, cc.Body, &c2, k)
			}
			for _, b := range s.Body.List {
				cc := b.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
					continue
				}
				any := boolT(false)
				val := v
				for _, tx := range cc.List {
					if tv := e.info(fr).Types[tx]; tv.IsNil() {
						any = or(any, eq(v.T, oNil))
						continue
					}
					t := e.typeOf(fr, tx)
					r, ok := e.assertTo(st, v, t)
					if len(cc.List) == 1 {
						val = Value{T: r, Typ: t}
					}
					any = or(any, ok)
				}
				take(cc, and(none, any), val)
				none = and(none, not(any))
			}
			if def != nil {
				take(def, none, v)
				return
			}
			st.assumeBranch(none)
			if !e.infeasible(st) {
				k(st)
			}
		})
	}
	if s.Init != nil {
		e.exec(st, fr, s.Init, c, run)
	} else {
		run(st)
	}
}

func (e *Ex) execReturn(st *State, fr *Frame, s *ast.ReturnStmt, c *ctl) {
	res := fr.sig.Results()
	if len(s.Results) == 0 {
		var vs []Value
		for _, o := range fr.named {
			vs = append(vs, e.readVar(st, fr, o, s))
		}
		c.ret(st, vs)
		return
	}
	e.evalMulti(st, fr, s.Results, res.Len(), func(st *State, vs []Value) {
		for i := range vs {
			vs[i] = e.convertTo(st, vs[i], res.At(i).Type())
		}
		for i, o := range fr.named {
			if o != nil && o.Name() != "_" && o.Name() != "" {
				e.writeVar(st, fr, o, vs[i], s)
			}
		}
		c.ret(st, vs)
	})
}

// evalMulti evaluates a list of expressions into n values.
func (e *Ex) evalMulti(st *State, fr *Frame, xs []ast.Expr, n int, k func(*State, []Value)) {
	if len(xs) == 1 && n > 1 {
		switch x := ast.Unparen(xs[0]).(type) {
		case *ast.CallExpr:
			e.call(st, fr, x, k)
			return
		case *ast.IndexExpr:
			e.eval(st, fr, x.X, func(st *State, m Value) {
				e.eval(st, fr, x.Index, func(st *State, i Value) {
					mt, ok := m.Typ.Underlying().(*types.Map)
					if !ok {
						e.fail(x, "comma-ok index of non-map")
					}
					i = e.convertTo(st, i, mt.Key())
					v, has := e.mapGet(st, m, i.T)
					k(st, []Value{v, {T: has, Typ: boolTyp}})
				})
			})
			return
		case *ast.TypeAssertExpr:
			e.eval(st, fr, x.X, func(st *State, v Value) {
				t := e.typeOf(fr, x.Type)
				r, ok := e.assertTo(st, v, t)
				k(st, []Value{{T: ite(ok, r, e.w.zeroVal(t)), Typ: t}, {T: ok, Typ: boolTyp}})
			})
			return
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				e.eval(st, fr, x.X, func(st *State, v Value) {
					t := v.Typ.Underlying().(*types.Chan).Elem()
					r := e.w.fresh("recv", e.w.sortOf(t))
					e.wf(st, r, t)
					k(st, []Value{{T: r, Typ: t}, {T: e.w.fresh("ok", "Bool"), Typ: boolTyp}})
				})
				return
			}
		}
		e.fail(xs[0], "multi-value expression %T", xs[0])
	}
	var vals []Value
	var do func(st *State, i int, acc []Value)
	do = func(st *State, i int, acc []Value) {
		if i == len(xs) {
			// gc reads plain variables after the calls in the other operands
			late := false
			for j, x := range xs {
				if id, ok := ast.Unparen(x).(*ast.Ident); ok && j+1 < len(xs) && acc[j].Clo == nil {
					if o, ok := e.info(fr).Uses[id].(*types.Var); ok && o != nil {
						e.eval(st, fr, id, func(s2 *State, v Value) {
							if v.Clo == nil && v.T != nil && acc[j].T != nil && !eqT(v.T, acc[j].T) {
								acc[j] = v
								late = true
							}
							st = s2
						})
					}
				}
			}
			if late {
				e.externs["variables among operands are read after the calls among those operands, as the gc compiler does"] = true
			}
			k(st, acc)
			return
		}
		e.eval(st, fr, xs[i], func(st *State, v Value) {
			do(st, i+1, append(append([]Value{}, acc...), v))
		})
	}
	do(st, 0, vals)
}

func (e *Ex) assign(st *State, fr *Frame, s *ast.AssignStmt, k func(*State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR}[s.Tok]
		e.lval(st, fr, s.Lhs[0], func(st *State, l *loc) {
			e.eval(st, fr, s.Rhs[0], func(st *State, r Value) {
				cur := e.loadLoc(st, l, s)
				v := e.arith(st, op, cur, r, cur.Typ, s)
				e.storeLoc(st, fr, l, v, s)
				k(st)
			})
		})
		return
	}
	// resolve left-hand sides first when they have subexpressions
	e.lvals(st, fr, s, s.Lhs, 0, nil, func(st *State, ls []*loc) {
		e.evalMulti(st, fr, s.Rhs, len(s.Lhs), func(st *State, vs []Value) {
			if len(vs) != len(ls) {
				e.fail(s, "assignment count mismatch")
			}
			for i, l := range ls {
				if l == nil {
					continue
				}
				if l.def != nil {
					e.declVar(st, fr, l.def, vs[i])
					continue
				}
				e.storeLoc(st, fr, l, vs[i], s)
			}
			k(st)
		})
	})
}

func (e *Ex) lvals(st *State, fr *Frame, s *ast.AssignStmt, xs []ast.Expr, i int, acc []*loc, k func(*State, []*loc)) {
	if i == len(xs) {
		k(st, acc)
		return
	}
	if id, ok := xs[i].(*ast.Ident); ok {
		if id.Name == "_" {
			e.lvals(st, fr, s, xs, i+1, append(append([]*loc{}, acc...), nil), k)
			return
		}
		if s.Tok == token.DEFINE {
			if o := e.info(fr).Defs[id]; o != nil {
				e.lvals(st, fr, s, xs, i+1, append(append([]*loc{}, acc...), &loc{def: o, typ: o.Type()}), k)
				return
			}
		}
	}
	e.lval(st, fr, xs[i], func(st *State, l *loc) {
		e.lvals(st, fr, s, xs, i+1, append(append([]*loc{}, acc...), l), k)
	})
}

// ---- locations

type pstep struct {
	field int
	idx   *Term
	typ   types.Type // type after the step
}

type loc struct {
	def      types.Object // newly defined variable
	key      vkey         // variable
	isVar    bool
	fr       *Frame
	obj      types.Object
	heapT    types.Type // heap cell element type
	arr, idx *Term
	mapV     *Value
	mapK     *Term
	glob     *types.Var
	array    *types.Array // a sliced array variable, at arr
	path     []pstep
	root     types.Type
	typ      types.Type
}

func (e *Ex) lval(st *State, fr *Frame, x ast.Expr, k func(*State, *loc)) {
	switch x := x.(type) {
	case *ast.ParenExpr:
		e.lval(st, fr, x.X, k)
	case *ast.Ident:
		o := e.info(fr).ObjectOf(x)
		vr, ok := o.(*types.Var)
		if !ok {
			e.fail(x, "not a variable: %s", x.Name)
		}
		if vr.Parent() != nil && vr.Pkg() != nil && vr.Parent() == vr.Pkg().Scope() {
			k(st, &loc{glob: vr, root: vr.Type(), typ: vr.Type()})
			return
		}
		vk, ok := e.lookupKey(st, fr, o)
		if !ok {
			e.fail(x, "unbound variable %s", x.Name)
		}
		if isBoxed(fr, o) && st.vars[vk].Clo == nil {
			p := st.vars[vk].T
			if at, ok := o.Type().Underlying().(*types.Array); ok {
				k(st, &loc{array: at, arr: pArr(p), root: o.Type(), typ: o.Type()})
				return
			}
			k(st, &loc{heapT: o.Type(), arr: pArr(p), idx: pIdx(p), root: o.Type(), typ: o.Type()})
			return
		}
		k(st, &loc{isVar: true, key: vk, fr: fr, obj: o, root: o.Type(), typ: o.Type()})
	case *ast.StarExpr:
		e.eval(st, fr, x.X, func(st *State, p Value) {
			pt := p.Typ.Underlying().(*types.Pointer)
			e.oblige(st, "nil", "", x, neq(pArr(p.T), zero))
			k(st, &loc{heapT: pt.Elem(), arr: pArr(p.T), idx: pIdx(p.T), root: pt.Elem(), typ: pt.Elem()})
		})
	case *ast.SelectorExpr:
		if sel, ok := e.info(fr).Selections[x]; ok {
			e.lvalSel(st, fr, x, sel, k)
			return
		}
		if o, ok := e.info(fr).Uses[x.Sel].(*types.Var); ok {
			k(st, &loc{glob: o, root: o.Type(), typ: o.Type()})
			return
		}
		e.fail(x, "unsupported selector")
	case *ast.IndexExpr:
		bt := e.typeOf(fr, x.X)
		switch u := bt.Underlying().(type) {
		case *types.Slice:
			e.eval(st, fr, x.X, func(st *State, s Value) {
				e.eval(st, fr, x.Index, func(st *State, i Value) {
					e.boundsCheck(st, x, i.T, sLen(s.T))
					k(st, &loc{heapT: u.Elem(), arr: sArr(s.T), idx: add(sOff(s.T), i.T), root: u.Elem(), typ: u.Elem()})
				})
			})
		case *types.Map:
			e.eval(st, fr, x.X, func(st *State, m Value) {
				e.eval(st, fr, x.Index, func(st *State, i Value) {
					i = e.convertTo(st, i, u.Key())
					mv := m
					k(st, &loc{mapV: &mv, mapK: i.T, root: u.Elem(), typ: u.Elem()})
				})
			})
		case *types.Array:
			e.lval(st, fr, x.X, func(st *State, l *loc) {
				e.eval(st, fr, x.Index, func(st *State, i Value) {
					e.boundsCheck(st, x, i.T, intT(u.Len()))
					if l.array != nil && len(l.path) == 0 {
						k(st, &loc{heapT: u.Elem(), arr: l.arr, idx: i.T, root: u.Elem(), typ: u.Elem()})
						return
					}
					n := *l
					n.path = append(append([]pstep{}, l.path...), pstep{idx: i.T, field: -1, typ: u.Elem()})
					n.typ = u.Elem()
					k(st, &n)
				})
			})
		case *types.Pointer:
			e.fail(x, "unsupported index of array pointer")
		default:
			e.fail(x, "unsupported index target %s", bt)
		}
	default:
		e.fail(x, "not addressable: %T", x)
	}
}

func (e *Ex) lvalSel(st *State, fr *Frame, x *ast.SelectorExpr, sel *types.Selection, k func(*State, *loc)) {
	// walk the path
	walk := func(st *State, l *loc, typ types.Type) {
		for _, i := range sel.Index() {
			if p, ok := typ.Underlying().(*types.Pointer); ok {
				cur := e.loadLoc(st, l, x)
				e.oblige(st, "nil", "", x, neq(pArr(cur.T), zero))
				l = &loc{heapT: p.Elem(), arr: pArr(cur.T), idx: pIdx(cur.T), root: p.Elem(), typ: p.Elem()}
				typ = p.Elem()
			}
			f := typ.Underlying().(*types.Struct).Field(i)
			n := *l
			n.path = append(append([]pstep{}, l.path...), pstep{field: i, typ: f.Type()})
			n.typ = f.Type()
			l = &n
			typ = f.Type()
		}
		k(st, l)
	}
	bt := e.typeOf(fr, x.X)
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		e.eval(st, fr, x.X, func(st *State, v Value) {
			e.oblige(st, "nil", "", x, neq(pArr(v.T), zero))
			walk(st, &loc{heapT: p.Elem(), arr: pArr(v.T), idx: pIdx(v.T), root: p.Elem(), typ: p.Elem()}, p.Elem())
		})
		return
	}
	e.lval(st, fr, x.X, func(st *State, l *loc) { walk(st, l, l.typ) })
}

func (e *Ex) getPath(t *Term, path []pstep) *Term {
	for _, s := range path {
		if s.idx != nil {
			t = sel(t, s.idx)
		} else {
			t = e.w.field(t, s.field)
		}
	}
	return t
}

func (e *Ex) setPath(t *Term, path []pstep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != nil {
		return store(t, s.idx, e.setPath(sel(t, s.idx), path[1:], v))
	}
	return e.w.setField(t, s.field, e.setPath(e.w.field(t, s.field), path[1:], v))
}

func (e *Ex) loadRoot(st *State, l *loc, n ast.Node) Value {
	switch {
	case l.isVar:
		return st.vars[l.key]
	case l.heapT != nil:
		v := e.loadElem(st, l.heapT, l.arr, l.idx)
		e.wf(st, v, l.heapT)
		e.unfold(st, l.heapT, e.selH(e.heap(st, e.w.heapKey(l.heapT)), l.arr), l.idx)
		return Value{T: v, Typ: l.heapT}
	case l.array != nil:
		return Value{T: e.selH(e.heap(st, e.w.heapKey(l.array.Elem())), l.arr), Typ: l.root}
	case l.mapV != nil:
		v, _ := e.mapGet(st, *l.mapV, l.mapK)
		return v
	case l.glob != nil:
		return e.global(st, l.glob)
	}
	e.fail(n, "cannot load location")
	panic(0)
}

func (e *Ex) loadLoc(st *State, l *loc, n ast.Node) Value {
	r := e.loadRoot(st, l, n)
	if len(l.path) == 0 {
		return r
	}
	return Value{T: e.getPath(r.T, l.path), Typ: l.typ}
}

func (e *Ex) storeLoc(st *State, fr *Frame, l *loc, v Value, n ast.Node) {
	v = e.convertTo(st, v, l.typ)
	if v.Clo != nil && (len(l.path) > 0 || !l.isVar) {
		if l.isVar || l.heapT != nil {
			// closures stored in structures are opaque
			v = Value{T: e.nonNilOpaque(st, "clo"), Typ: l.typ}
		}
	}
	if v.T != nil {
		v.T = e.name(st, "v", v.T)
	}
	switch {
	case l.isVar:
		if len(l.path) == 0 {
			v.Typ = l.typ
			st.vars[l.key] = v
		} else {
			st.vars[l.key] = Value{T: e.setPath(st.vars[l.key].T, l.path, v.T), Typ: l.root}
		}
	case l.heapT != nil:
		nv := v.T
		if len(l.path) > 0 {
			nv = e.setPath(e.loadElem(st, l.heapT, l.arr, l.idx), l.path, v.T)
		}
		e.storeElem(st, l.heapT, l.arr, l.idx, nv)
	case l.array != nil:
		if len(l.path) > 0 {
			e.fail(n, "store into a part of a sliced array")
		}
		e.setArr(st, e.w.heapKey(l.array.Elem()), l.arr, v.T)
	case l.mapV != nil:
		if len(l.path) > 0 {
			e.fail(n, "store into map element field")
		}
		e.oblige(st, "nilmap", "", n, neq(l.mapV.T, zero))
		e.mapPut(st, *l.mapV, l.mapK, v.T)
	case l.glob != nil:
		cur := e.global(st, l.glob)
		nv := v.T
		if len(l.path) > 0 {
			nv = e.setPath(cur.T, l.path, v.T)
		}
		key := e.globKey(l.glob)
		st.heaps[key] = nv
	default:
		e.fail(n, "cannot store")
	}
}

func (e *Ex) boundsCheck(st *State, n ast.Node, i, ln *Term) {
	e.oblige(st, "bounds", "", n, and(le(zero, i), lt(i, ln)))
}

// ---- globals

func (e *Ex) globKey(o *types.Var) string {
	k := "GV_" + o.Pkg().Name() + "_" + o.Name()
	e.w.heapTyp[k] = o.Type()
	return k
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (e *Ex) global(st *State, o *types.Var) Value {
	if isErrorType(o.Type()) || (strings.HasPrefix(o.Name(), "Err") && e.w.sortOf(o.Type()) == "Opaque") {
		n := "G_" + o.Pkg().Name() + "_" + o.Name()
		if e.w.decls[n] == "" {
			e.w.declare(n, fmt.Sprintf("(declare-const %s Opaque)", n))
			e.w.errGlob = append(e.w.errGlob, n)
		}
		e.externs["package-level error variables are never reassigned and are pairwise distinct and non-nil"] = true
		return Value{T: sym(n, "Opaque"), Typ: o.Type()}
	}
	key := e.globKey(o)
	if h, ok := st.heaps[key]; ok {
		return Value{T: h, Typ: o.Type()}
	}
	if e.constGlobal(o) {
		if v, ok := e.globInit(o); ok {
			return v
		}
	}
	s := e.w.sortOf(o.Type())
	n := key + "!0"
	e.w.declare(n, fmt.Sprintf("(declare-const %s %s)", n, s))
	return Value{T: sym(n, s), Typ: o.Type()}
}

// constGlobal: package-level variable of the repository that no source of its package writes.
func (e *Ex) constGlobal(o *types.Var) bool {
	p := e.prog.Pkgs[o.Pkg().Path()]
	if p == nil || o.Exported() {
		return false
	}
	written := false
	for _, f := range p.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			chk := func(x ast.Expr) {
				for {
					switch y := x.(type) {
					case *ast.ParenExpr:
						x = y.X
						continue
					case *ast.IndexExpr:
						x = y.X
						continue
					case *ast.SelectorExpr:
						x = y.X
						continue
					}
					break
				}
				if id, ok := x.(*ast.Ident); ok && p.Info.Uses[id] == o {
					written = true
				}
			}
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					chk(l)
				}
			case *ast.IncDecStmt:
				chk(s.X)
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					chk(s.X)
				}
			}
			return true
		})
	}
	return !written
}

func (e *Ex) globInit(o *types.Var) (v Value, ok bool) {
	p := e.prog.Pkgs[o.Pkg().Path()]
	for _, f := range p.Files {
		for _, d := range f.Decls {
			gd, isg := d.(*ast.GenDecl)
			if !isg || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if p.Info.Defs[n] == types.Object(o) && i < len(vs.Values) {
						if tv := p.Info.Types[vs.Values[i]]; tv.Value != nil {
							return e.constValue(tv.Value, o.Type()), true
						}
					}
				}
			}
		}
	}
	return Value{}, false
}

// ---- constants and conversions

func (e *Ex) intLit(b *big.Int, t types.Type) *Term {
	if e.w.BV {
		s := e.w.sortOf(t)
		if strings.HasPrefix(s, "(_ BitVec") {
			var n int
			fmt.Sscanf(s, "(_ BitVec %d)", &n)
			m := new(big.Int).Lsh(big.NewInt(1), uint(n))
			return sym(fmt.Sprintf("(_ bv%s %d)", new(big.Int).Mod(b, m).String(), n), s)
		}
	}
	return intB(b)
}

func (e *Ex) constValue(c constant.Value, t types.Type) Value {
	u := t.Underlying()
	if _, ok := u.(*types.Interface); ok {
		// constant boxed into an interface
		return e.constValue(c, defaultType(c))
	}
	b, _ := u.(*types.Basic)
	switch {
	case b != nil && b.Info()&types.IsBoolean != 0:
		return Value{T: boolT(constant.BoolVal(c)), Typ: t}
	case b != nil && b.Info()&types.IsString != 0:
		return Value{T: e.strConst(constant.StringVal(c)), Typ: t}
	case b != nil && b.Info()&types.IsFloat != 0:
		if e.w.BV {
			f, _ := constant.Float64Val(c)
			return Value{T: fpLit(f), Typ: t}
		}
		n := "fltc_" + sanitize(c.ExactString())
		e.w.declare(n, fmt.Sprintf("(declare-const %s Flt)", n))
		if constant.Sign(c) == 0 {
			return Value{T: sym("flt0", "Flt"), Typ: t}
		}
		return Value{T: sym(n, "Flt"), Typ: t}
	default:
		ci := constant.ToInt(c)
		bi, ok := new(big.Int).SetString(ci.ExactString(), 10)
		if !ok {
			panic(unsupported{"constant " + c.ExactString()})
		}
		return Value{T: e.intLit(bi, t), Typ: t}
	}
}

func (e *Ex) strConst(s string) *Term {
	t := e.w.strLit(s)
	return t
}

func defaultType(c constant.Value) types.Type {
	switch c.Kind() {
	case constant.Bool:
		return types.Typ[types.Bool]
	case constant.String:
		return types.Typ[types.String]
	case constant.Float:
		return types.Typ[types.Float64]
	}
	return types.Typ[types.Int]
}

func (e *Ex) nonNilOpaque(st *State, hint string) *Term {
	t := e.w.fresh(hint, "Opaque")
	st.assume(neq(t, oNil))
	return t
}

// freshErr is a newly created error value.
func (e *Ex) freshErr(st *State) *Term {
	t := e.nonNilOpaque(st, "err")
	for _, g := range e.w.errGlob {
		st.assume(neq(t, sym(g, "Opaque")))
	}
	return t
}

// convertTo implements assignability conversions.
func (e *Ex) convertTo(st *State, v Value, t types.Type) Value {
	if t == nil {
		return v
	}
	if v.Clo != nil {
		v.Typ = t
		return v
	}
	if v.T == nil {
		return Value{T: e.w.zeroVal(t), Typ: t}
	}
	if v.T.Sort == "nil" || (v.Typ != nil && types.Identical(v.Typ, types.Typ[types.UntypedNil])) {
		return Value{T: e.w.zeroVal(t), Typ: t}
	}
	want := e.w.sortOf(t)
	if v.T.Sort == want {
		return Value{T: v.T, Typ: t}
	}
	if want == "Opaque" { // boxing into an interface
		b := e.box(v)
		st.assume(neq(b, oNil))
		st.assume(eq(e.dynT(b), e.dynTag(v.Typ)))
		st.assume(valEq(Value{T: e.unbox(b, v.Typ), Typ: v.Typ}, v))
		return Value{T: b, Typ: t}
	}
	panic(unsupported{fmt.Sprintf("conversion of %s (%s) to %s", v.Typ, v.T.Sort, t)})
}

// Interface values: obox_T injects a value of type T, dynT gives its dynamic type.
func (e *Ex) box(v Value) *Term {
	fn := "obox_" + sanitize(typeKey(v.Typ))
	e.w.fn(fn, []string{v.T.Sort}, "Opaque")
	return app(fn, "Opaque", v.T)
}

func (e *Ex) unbox(v *Term, t types.Type) *Term {
	s := e.w.sortOf(t)
	fn := "ounbox_" + sanitize(typeKey(t))
	e.w.fn(fn, []string{"Opaque"}, s)
	return app(fn, s, v)
}

func (e *Ex) dynT(v *Term) *Term {
	e.w.fn("dynT", []string{"Opaque"}, "Int")
	return app("dynT", "Int", v)
}

func (e *Ex) dynTag(t types.Type) *Term {
	k := typeKey(t)
	if e.w.dynTags == nil {
		e.w.dynTags = map[string]int{}
	}
	if e.w.dynTags[k] == 0 {
		e.w.dynTags[k] = len(e.w.dynTags) + 1
	}
	return intT(int64(e.w.dynTags[k]))
}

// assertTo gives the value of v asserted to type t and whether that succeeds.
func (e *Ex) assertTo(st *State, v Value, t types.Type) (r, ok *Term) {
	st.assume(eq(e.dynT(oNil), zero))
	if _, isI := t.Underlying().(*types.Interface); isI {
		fn := "implements_" + sanitize(typeKey(t))
		e.w.fn(fn, []string{"Int"}, "Bool")
		return v.T, and(neq(v.T, oNil), app(fn, "Bool", e.dynT(v.T)))
	}
	r = e.unbox(v.T, t)
	e.wf(st, r, t)
	ok = eq(e.dynT(v.T), e.dynTag(t))
	if e.w.sortOf(t) != "Opaque" {
		st.assume(imp(ok, eq(e.box(Value{T: r, Typ: t}), v.T)))
	}
	return r, ok
}

// numConv implements explicit numeric conversions.
func (e *Ex) numConv(st *State, v Value, t types.Type, n ast.Node) Value {
	ft, tt := v.Typ, t
	if e.w.BV {
		return e.bvConv(v, t, n)
	}
	if isInt(ft) && isInt(tt) {
		x := v.T
		fb, fu := isUnsigned(ft)
		tb, tu := isUnsigned(tt)
		fbits := intBits(ft.Underlying().(*types.Basic))
		tbits := intBits(tt.Underlying().(*types.Basic))
		_ = fb
		if c, ok := constInt(x); ok {
			if tu {
				m := new(big.Int).Lsh(big.NewInt(1), uint(tb))
				return Value{T: intB(new(big.Int).Mod(c, m)), Typ: t}
			}
		}
		switch {
		case fu && tu:
			if tbits >= fbits {
				return Value{T: x, Typ: t}
			}
			return Value{T: e.modPow(st, x, tbits), Typ: t}
		case fu && !tu:
			if tbits > fbits {
				return Value{T: x, Typ: t}
			}
			m := x
			if fbits > tbits {
				m = e.modPow(st, x, tbits)
			}
			half := pow2(tbits - 1)
			return Value{T: ite(lt(m, half), m, sub(m, pow2(tbits))), Typ: t}
		case !fu && tu:
			if tbits == 64 {
				return Value{T: ite(le(zero, x), x, add(x, pow2(64))), Typ: t}
			}
			return Value{T: e.modPow(st, x, tbits), Typ: t}
		default:
			if tbits >= fbits {
				return Value{T: x, Typ: t}
			}
			m := e.modPow(st, x, tbits)
			return Value{T: ite(lt(m, pow2(tbits-1)), m, sub(m, pow2(tbits))), Typ: t}
		}
	}
	s1, s2 := v.T.Sort, e.w.sortOf(t)
	if s1 == s2 {
		return Value{T: v.T, Typ: t}
	}
	fn := "conv_" + sanitize(s1) + "_" + sanitize(s2) + "_" + sanitize(typeKey(t.Underlying()))
	e.w.fn(fn, []string{s1}, s2)
	r := app(fn, s2, v.T)
	e.wf(st, r, t)
	return Value{T: r, Typ: t}
}

func (e *Ex) modPow(st *State, x *Term, bits int) *Term {
	p := pow2(bits)
	return ite(and(le(zero, x), lt(x, p)), x, app("mod", "Int", x, p))
}

func fpLit(f float64) *Term {
	bits := floatBits(f)
	return sym(fmt.Sprintf("((_ to_fp 11 53) #x%016x)", bits), "(_ FloatingPoint 11 53)")
}

func (e *Ex) bvConv(v Value, t types.Type, n ast.Node) Value {
	s2 := e.w.sortOf(t)
	if v.T.Sort == s2 {
		return Value{T: v.T, Typ: t}
	}
	var a, b int
	if k, _ := fmt.Sscanf(v.T.Sort, "(_ BitVec %d)", &a); k == 1 {
		if k, _ := fmt.Sscanf(s2, "(_ BitVec %d)", &b); k == 1 {
			if b < a {
				return Value{T: app(fmt.Sprintf("(_ extract %d 0)", b-1), s2, v.T), Typ: t}
			}
			ext := "sign_extend"
			if _, u := isUnsigned(v.Typ); u {
				ext = "zero_extend"
			}
			return Value{T: app(fmt.Sprintf("(_ %s %d)", ext, b-a), s2, v.T), Typ: t}
		}
	}
	e.fail(n, "unsupported bv conversion %s -> %s", v.T.Sort, s2)
	panic(0)
}

// ---- arithmetic

func (e *Ex) arith(st *State, op token.Token, a, b Value, t types.Type, n ast.Node) Value {
	if e.w.BV {
		return e.bvArith(op, a, b, t, n)
	}
	if a.T.Sort == "Str" && op == token.ADD {
		return Value{T: e.strCat(st, a.T, b.T), Typ: t}
	}
	if a.T.Sort == "Flt" {
		fn := "flt_" + strings.ToLower(opName(op))
		e.w.fn(fn, []string{"Flt", "Flt"}, "Flt")
		return Value{T: app(fn, "Flt", a.T, b.T), Typ: t}
	}
	if a.T.Sort != "Int" || b.T.Sort != "Int" {
		e.fail(n, "arithmetic on %s and %s", a.T.Sort, b.T.Sort)
	}
	bits, uns := isUnsigned(t)
	wrapHi := func(r *Term) *Term { // r < 2*2^bits, r >= 0
		return ite(lt(r, pow2(bits)), r, sub(r, pow2(bits)))
	}
	switch op {
	case token.ADD:
		r := add(a.T, b.T)
		if uns {
			r = wrapHi(r)
		}
		return Value{T: r, Typ: t}
	case token.SUB:
		r := sub(a.T, b.T)
		if uns {
			r = ite(le(zero, r), r, add(r, pow2(bits)))
		}
		return Value{T: r, Typ: t}
	case token.MUL:
		r := mul(a.T, b.T)
		if uns {
			r = ite(lt(r, pow2(bits)), r, app("mod", "Int", r, pow2(bits)))
		}
		return Value{T: r, Typ: t}
	case token.QUO, token.REM:
		e.oblige(st, "div0", "", n, neq(b.T, zero))
		// Go truncates towards zero
		d := app("div", "Int", a.T, b.T)
		m := app("mod", "Int", a.T, b.T)
		if uns {
			if op == token.QUO {
				return Value{T: d, Typ: t}
			}
			return Value{T: m, Typ: t}
		}
		if _, c := constInt(b.T); !c {
			// what the solvers do not find by themselves for a divisor that is no constant
			p := mul(b.T, d)
			st.assume(imp(and(lt(zero, b.T), le(zero, a.T)), and(le(p, a.T), lt(a.T, add(p, b.T)), le(zero, d))))
		}
		q := ite(le(zero, a.T), d, sub(zero, app("div", "Int", sub(zero, a.T), b.T)))
		if op == token.QUO {
			return Value{T: q, Typ: t}
		}
		return Value{T: ite(le(zero, a.T), m, sub(a.T, app("*", "Int", b.T, q))), Typ: t}
	case token.SHL:
		if c, ok := constInt(b.T); ok && c.IsInt64() {
			r := mul(a.T, pow2(int(c.Int64())))
			if uns {
				r = app("mod", "Int", r, pow2(bits))
			}
			return Value{T: r, Typ: t}
		}
	case token.SHR:
		if c, ok := constInt(b.T); ok && c.IsInt64() {
			return Value{T: app("div", "Int", a.T, pow2(int(c.Int64()))), Typ: t}
		}
	case token.AND:
		if c, ok := constInt(b.T); ok {
			c1 := new(big.Int).Add(c, big.NewInt(1))
			if new(big.Int).And(c1, c).Sign() == 0 { // mask 2^k-1
				return Value{T: app("mod", "Int", a.T, intB(c1)), Typ: t}
			}
		}
	}
	fn := "int_" + strings.ToLower(opName(op)) + fmt.Sprint(bits)
	e.w.fn(fn, []string{"Int", "Int"}, "Int")
	r := app(fn, "Int", a.T, b.T)
	e.wf(st, r, t)
	return Value{T: r, Typ: t}
}

func opName(op token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div", token.REM: "rem", token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
}

func (e *Ex) bvArith(op token.Token, a, b Value, t types.Type, n ast.Node) Value {
	s := a.T.Sort
	if strings.HasPrefix(s, "(_ BitVec") {
		var an, bn int
		fmt.Sscanf(s, "(_ BitVec %d)", &an)
		fmt.Sscanf(b.T.Sort, "(_ BitVec %d)", &bn)
		bt := b.T
		if bn < an {
			bt = app(fmt.Sprintf("(_ zero_extend %d)", an-bn), s, bt)
		} else if bn > an {
			bt = app(fmt.Sprintf("(_ extract %d 0)", an-1), s, bt)
		}
		_, uns := isUnsigned(t)
		m := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl"}
		o := m[op]
		switch op {
		case token.SHR:
			o = "bvashr"
			if uns {
				o = "bvlshr"
			}
		case token.QUO:
			o = "bvsdiv"
			if uns {
				o = "bvudiv"
			}
		case token.REM:
			o = "bvsrem"
			if uns {
				o = "bvurem"
			}
		case token.AND_NOT:
			return Value{T: app("bvand", s, a.T, app("bvnot", s, bt)), Typ: t}
		}
		if o == "" {
			e.fail(n, "bv operator %s", op)
		}
		return Value{T: app(o, s, a.T, bt), Typ: t}
	}
	if strings.HasPrefix(s, "(_ FloatingPoint") {
		m := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}
		return Value{T: app(m[op]+" RNE", s, a.T, b.T), Typ: t}
	}
	e.fail(n, "bv arithmetic on %s", s)
	panic(0)
}

func (e *Ex) compare(st *State, op token.Token, a, b Value, n ast.Node) Value {
	if a.Clo != nil || b.Clo != nil {
		isNil := a.T != nil || b.T != nil
		if op == token.EQL || op == token.NEQ {
			_ = isNil
			return Value{T: boolT(op == token.NEQ), Typ: boolTyp}
		}
	}
	a, b = coerceNil(a, b)
	if a.T.Sort == "nil" && b.T.Sort == "nil" {
		return Value{T: boolT(op == token.EQL), Typ: boolTyp}
	}
	if a.T.Sort != b.T.Sort {
		if a.T.Sort == "Opaque" {
			b = e.convertTo(st, b, a.Typ)
		} else if b.T.Sort == "Opaque" {
			a = e.convertTo(st, a, b.Typ)
		}
	}
	if a.T.Sort != b.T.Sort {
		e.fail(n, "comparison of %s and %s", a.T.Sort, b.T.Sort)
	}
	s := a.T.Sort
	if e.w.BV {
		_, uns := isUnsigned(a.Typ)
		if strings.HasPrefix(s, "(_ FloatingPoint") {
			m := map[token.Token]string{token.EQL: "fp.eq", token.LSS: "fp.lt", token.LEQ: "fp.leq", token.GTR: "fp.gt", token.GEQ: "fp.geq"}
			if op == token.NEQ {
				return Value{T: not(app("fp.eq", "Bool", a.T, b.T)), Typ: boolTyp}
			}
			return Value{T: app(m[op], "Bool", a.T, b.T), Typ: boolTyp}
		}
		if strings.HasPrefix(s, "(_ BitVec") && op != token.EQL && op != token.NEQ {
			m := map[token.Token]string{token.LSS: "bvslt", token.LEQ: "bvsle", token.GTR: "bvsgt", token.GEQ: "bvsge"}
			if uns {
				m = map[token.Token]string{token.LSS: "bvult", token.LEQ: "bvule", token.GTR: "bvugt", token.GEQ: "bvuge"}
			}
			return Value{T: app(m[op], "Bool", a.T, b.T), Typ: boolTyp}
		}
	}
	switch op {
	case token.EQL:
		return Value{T: valEq(a, b), Typ: boolTyp}
	case token.NEQ:
		return Value{T: not(valEq(a, b)), Typ: boolTyp}
	}
	o := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[op]
	switch s {
	case "Int":
		return Value{T: cmp(o, a.T, b.T), Typ: boolTyp}
	case "Str":
		return Value{T: e.strCmp(o, a.T, b.T), Typ: boolTyp}
	case "Flt":
		fn := "flt_" + map[string]string{"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[o]
		e.w.fn(fn, []string{"Flt", "Flt"}, "Bool")
		return Value{T: app(fn, "Bool", a.T, b.T), Typ: boolTyp}
	}
	e.fail(n, "comparison %s of %s", op, s)
	panic(0)
}

func (e *Ex) strCmp(op string, a, b *Term) *Term {
	e.w.fn("str_lt", []string{"Str", "Str"}, "Bool")
	e.w.strOrder()
	l := func(x, y *Term) *Term { return app("str_lt", "Bool", x, y) }
	switch op {
	case "<":
		return l(a, b)
	case ">":
		return l(b, a)
	case "<=":
		return not(l(b, a))
	}
	return not(l(a, b))
}

func (w *World) addAxiom(name string, t *Term) {
	for _, n := range w.axName {
		if n == name {
			return
		}
	}
	w.axName = append(w.axName, name)
	w.axioms = append(w.axioms, t)
}

func (w *World) strOrder() {
	a, b, c := sym("a?", "Str"), sym("b?", "Str"), sym("c?", "Str")
	l := func(x, y *Term) *Term { return app("str_lt", "Bool", x, y) }
	A, B, C := Binder{"a?", "Str"}, Binder{"b?", "Str"}, Binder{"c?", "Str"}
	w.addAxiom("str_irr", forall([]Binder{A}, [][]*Term{{l(a, a)}}, not(l(a, a))))
	w.addAxiom("str_asym", forall([]Binder{A, B}, [][]*Term{{l(a, b)}}, and(imp(l(a, b), not(l(b, a))), or(l(a, b), l(b, a), app("=", "Bool", a, b)))))
	w.addAxiom("str_trans", forall([]Binder{A, B, C}, [][]*Term{{l(a, b), l(b, c)}}, imp(and(l(a, b), l(b, c)), l(a, c))))
	w.addAxiom("str_trans2", forall([]Binder{A, B, C}, [][]*Term{{l(a, b), l(a, c)}}, and(imp(and(l(a, b), not(l(c, b)), app("distinct", "Bool", b, c)), l(a, c)), imp(and(not(l(a, b)), l(a, c)), or(l(b, c), app("=", "Bool", a, b))))))
	em := w.strLit("")
	w.addAxiom("str_empty", forall([]Binder{A}, [][]*Term{{l(a, em)}}, not(l(a, em))))
	w.addAxiom("str_empty2", forall([]Binder{A}, [][]*Term{{l(em, a)}}, or(l(em, a), app("=", "Bool", a, em))))
}

func (e *Ex) strCat(st *State, a, b *Term) *Term {
	em := e.w.strLit("")
	if eqT(a, em) {
		return b
	}
	if eqT(b, em) {
		return a
	}
	e.w.fn("str_cat", []string{"Str", "Str"}, "Str")
	e.w.fn("slen", []string{"Str"}, "Int")
	r := app("str_cat", "Str", a, b)
	x, y, z := sym("a?", "Str"), sym("b?", "Str"), sym("c?", "Str")
	X, Y, Z := Binder{"a?", "Str"}, Binder{"b?", "Str"}, Binder{"c?", "Str"}
	cat := func(p, q *Term) *Term { return app("str_cat", "Str", p, q) }
	ln := func(p *Term) *Term { return app("slen", "Int", p) }
	for lit, t := range e.w.lits {
		if eqT(t, a) || eqT(t, b) {
			e.w.addAxiom("litlen_"+t.Op, eq(app("slen", "Int", t), intT(int64(len(lit)))))
		}
	}
	e.w.addAxiom("cat_len", forall([]Binder{X, Y}, [][]*Term{{cat(x, y)}}, eq(ln(cat(x, y)), add(ln(x), ln(y)))))
	e.w.addAxiom("cat_l", forall([]Binder{X, Y, Z}, [][]*Term{{cat(x, y), cat(x, z)}}, imp(app("=", "Bool", cat(x, y), cat(x, z)), app("=", "Bool", y, z))))
	e.w.addAxiom("cat_r", forall([]Binder{X, Y, Z}, [][]*Term{{cat(y, x), cat(z, x)}}, imp(app("=", "Bool", cat(y, x), cat(z, x)), app("=", "Bool", y, z))))
	e.w.addAxiom("len_nn", forall([]Binder{X}, [][]*Term{{ln(x)}}, and(le(zero, ln(x)), eq(eq(ln(x), zero), app("=", "Bool", x, em)))))
	return r
}

// ---- maps

func (e *Ex) mapGet(st *State, m Value, key *Term) (Value, *Term) {
	mt := m.Typ.Underlying().(*types.Map)
	d, v, _ := e.w.mapKeys(m.Typ)
	has := sel(e.selH(e.heap(st, d), m.T), key)
	val := sel(e.selH(e.heap(st, v), m.T), key)
	e.wf(st, val, mt.Elem())
	st.assume(imp(eq(m.T, zero), not(has)))
	r := ite(has, val, e.w.zeroVal(mt.Elem()))
	if e.pure == 0 && r.Op == "ite" {
		n := e.w.fresh("mv", r.Sort)
		st.assume(eq(n, r))
		r = n
	}
	return Value{T: r, Typ: mt.Elem()}, has
}

func (e *Ex) mapSet(st *State, key string, ref, a *Term) {
	if e.pure > 0 {
		panic(unsupported{"map write in pure context"})
	}
	e.setArr(st, key, ref, a)
}

func (e *Ex) mapPut(st *State, m Value, key, val *Term) {
	d, v, c := e.w.mapKeys(m.Typ)
	D := e.selH(e.heap(st, d), m.T)
	V := e.selH(e.heap(st, v), m.T)
	C := e.selH(e.heap(st, c), m.T)
	had := sel(D, key)
	nd, nv := e.w.fresh("D", D.Sort), e.w.fresh("V", V.Sort)
	st.assume(app("=", "Bool", nd, store(D, key, tTrue)))
	st.assume(app("=", "Bool", nv, store(V, key, val)))
	nc := e.w.fresh("C", "Int")
	st.assume(eq(nc, ite(had, C, add(C, one))))
	e.mapSet(st, d, m.T, nd)
	e.mapSet(st, v, m.T, nv)
	e.mapSet(st, c, m.T, nc)
}

func (e *Ex) mapDelete(st *State, m Value, key *Term) {
	d, _, c := e.w.mapKeys(m.Typ)
	D := e.selH(e.heap(st, d), m.T)
	C := e.selH(e.heap(st, c), m.T)
	had := sel(D, key)
	nd := e.w.fresh("D", D.Sort)
	st.assume(app("=", "Bool", nd, store(D, key, tFalse)))
	nc := e.w.fresh("C", "Int")
	st.assume(eq(nc, ite(had, sub(C, one), C)))
	st.assume(imp(had, le(one, C)))
	e.mapSet(st, d, m.T, nd)
	e.mapSet(st, c, m.T, nc)
}

func (e *Ex) newMap(st *State, t types.Type) Value {
	d, v, c := e.w.mapKeys(t)
	r := e.newRef(st)
	st.assume(neq(r, zero))
	ds := arrRange(e.w.heapSort(d))
	e.mapSet(st, d, r, &Term{Op: "((as const " + ds + ") false)", Sort: ds})
	_ = v
	e.mapSet(st, c, r, zero)
	return Value{T: r, Typ: t}
}

// ---- expressions

func (e *Ex) pureExpr(fr *Frame, x ast.Expr) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch c := n.(type) {
		case *ast.CallExpr:
			if tv, isT := fr.pkg.Info.Types[c.Fun]; isT && tv.IsType() {
				return true
			}
			if id, isId := c.Fun.(*ast.Ident); isId {
				if b, isB := fr.pkg.Info.Uses[id].(*types.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
					return true
				}
			}
			ok = false
		case *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if c.Op == token.ARROW || c.Op == token.AND {
				ok = false
			}
		case *ast.BinaryExpr:
		}
		return ok
	})
	return ok
}

func (e *Ex) factsSince(st *State, pc *PC) []*PC {
	var out []*PC
	for p := st.pc; p != nil && p != pc; p = p.prev {
		out = append(out, p)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Ex) eval(st *State, fr *Frame, x ast.Expr, k func(*State, Value)) {
	if tv, ok := fr.pkg.Info.Types[x]; ok && tv.Value != nil {
		k(st, e.constValue(tv.Value, tv.Type))
		return
	}
	switch x := x.(type) {
	case *ast.ParenExpr:
		e.eval(st, fr, x.X, k)
	case *ast.Ident:
		o := e.info(fr).ObjectOf(x)
		switch o := o.(type) {
		case *types.Nil:
			k(st, Value{T: sym("nil", "nil"), Typ: types.Typ[types.UntypedNil]})
		case *types.Var:
			if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				v := e.global(st, o)
				e.wf(st, v.T, v.Typ)
				k(st, v)
				return
			}
			k(st, e.readVar(st, fr, o, x))
		case *types.Func:
			k(st, Value{Clo: &Closure{fn: e.prog.ByPos[o], obj: o, name: funcKey(o)}, Typ: o.Type()})
		default:
			e.fail(x, "unsupported identifier %s", x.Name)
		}
	case *ast.SelectorExpr:
		e.evalSelector(st, fr, x, k)
	case *ast.StarExpr:
		e.lval(st, fr, x, func(st *State, l *loc) { k(st, e.loadLoc(st, l, x)) })
	case *ast.IndexExpr:
		bt := e.typeOf(fr, x.X)
		switch u := bt.Underlying().(type) {
		case *types.Array:
			e.eval(st, fr, x.X, func(st *State, a Value) {
				e.eval(st, fr, x.Index, func(st *State, i Value) {
					e.boundsCheck(st, x, i.T, intT(u.Len()))
					k(st, Value{T: sel(a.T, i.T), Typ: u.Elem()})
				})
			})
		case *types.Basic: // string
			e.eval(st, fr, x.X, func(st *State, a Value) {
				e.eval(st, fr, x.Index, func(st *State, i Value) {
					e.w.fn("slen", []string{"Str"}, "Int")
					e.w.fn("sat", []string{"Str", "Int"}, "Int")
					e.boundsCheck(st, x, i.T, e.strLen(st, a.T))
					r := app("sat", "Int", a.T, i.T)
					st.assume(and(le(zero, r), lt(r, intT(256))))
					k(st, Value{T: r, Typ: types.Typ[types.Uint8]})
				})
			})
		default:
			e.lval(st, fr, x, func(st *State, l *loc) { k(st, e.loadLoc(st, l, x)) })
		}
	case *ast.SliceExpr:
		e.evalSlice(st, fr, x, k)
	case *ast.UnaryExpr:
		e.evalUnary(st, fr, x, k)
	case *ast.BinaryExpr:
		e.evalBinary(st, fr, x, k)
	case *ast.CallExpr:
		e.call(st, fr, x, func(st *State, vs []Value) {
			if len(vs) != 1 {
				e.fail(x, "call yields %d values", len(vs))
			}
			k(st, vs[0])
		})
	case *ast.CompositeLit:
		e.evalComposite(st, fr, x, e.typeOf(fr, x), k)
	case *ast.FuncLit:
		k(st, Value{Clo: &Closure{lit: x, frame: fr, pkg: fr.pkg}, Typ: e.typeOf(fr, x)})
	case *ast.TypeAssertExpr:
		e.eval(st, fr, x.X, func(st *State, v Value) {
			t := e.typeOf(fr, x)
			r, ok := e.assertTo(st, v, t)
			st.assume(ok)
			e.externs["type assertion at "+e.pos(x)+" assumed to succeed"] = true
			k(st, Value{T: r, Typ: t})
		})
	default:
		e.fail(x, "unsupported expression %T", x)
	}
}

func (e *Ex) strLen(st *State, s *Term) *Term {
	for lit, t := range e.w.lits {
		if eqT(t, s) {
			return intT(int64(len(lit)))
		}
	}
	e.w.fn("slen", []string{"Str"}, "Int")
	em := e.w.strLit("")
	x := sym("a?", "Str")
	ln := app("slen", "Int", x)
	e.w.addAxiom("len_nn", forall([]Binder{{"a?", "Str"}}, [][]*Term{{ln}}, and(le(zero, ln), eq(eq(ln, zero), app("=", "Bool", x, em)))))
	r := app("slen", "Int", s)
	st.assume(le(zero, r))
	return r
}

func (e *Ex) evalSelector(st *State, fr *Frame, x *ast.SelectorExpr, k func(*State, Value)) {
	sl, ok := e.info(fr).Selections[x]
	if !ok {
		switch o := e.info(fr).Uses[x.Sel].(type) {
		case *types.Var:
			v := e.global(st, o)
			e.wf(st, v.T, v.Typ)
			k(st, v)
			return
		case *types.Func:
			k(st, Value{Clo: &Closure{fn: e.prog.ByPos[o], obj: o, name: funcKey(o)}, Typ: o.Type()})
			return
		}
		e.fail(x, "unsupported selector %s", x.Sel.Name)
	}
	if sl.Kind() == types.MethodVal {
		// method value: bind the receiver now
		f := sl.Obj().(*types.Func)
		e.recvFor(st, fr, x, sl, f, func(st *State, recv Value, done func(*State)) {
			rv := recv
			k(st, Value{Clo: &Closure{fn: e.prog.ByPos[f], obj: f, recv: &rv, name: funcKey(f)}, Typ: e.typeOf(fr, x)})
		})
		return
	}
	if sl.Kind() != types.FieldVal {
		e.fail(x, "unsupported selection")
	}
	e.eval(st, fr, x.X, func(st *State, v Value) {
		typ := v.Typ
		for _, i := range sl.Index() {
			if p, ok := typ.Underlying().(*types.Pointer); ok {
				e.oblige(st, "nil", "", x, neq(pArr(v.T), zero))
				v = Value{T: e.loadPtr(st, v.T, p.Elem()), Typ: p.Elem()}
				e.unfoldPtr(st, p.Elem(), v)
				typ = p.Elem()
			}
			stt, ok := typ.Underlying().(*types.Struct)
			if !ok || e.w.structOf(v.T.Sort) == nil {
				// field of a foreign struct: opaque projection
				f := stt.Field(i)
				fn := "ofield_" + sanitize(typeKey(typ)) + "_" + f.Name()
				s := e.w.sortOf(f.Type())
				e.w.fn(fn, []string{v.T.Sort}, s)
				v = Value{T: app(fn, s, v.T), Typ: f.Type()}
				e.wf(st, v.T, v.Typ)
				typ = f.Type()
				continue
			}
			f := stt.Field(i)
			v = Value{T: e.w.field(v.T, i), Typ: f.Type()}
			typ = f.Type()
		}
		k(st, v)
	})
}

func (e *Ex) unfoldPtr(st *State, et types.Type, v Value) {
	if v.T.Op == "select" && len(v.T.Args) == 2 {
		e.unfold(st, et, v.T.Args[0], v.T.Args[1])
	}
}

func (e *Ex) evalSlice(st *State, fr *Frame, x *ast.SliceExpr, k func(*State, Value)) {
	if at, ok := e.typeOf(fr, x.X).Underlying().(*types.Array); ok {
		if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
			if vk, ok := e.lookupKey(st, fr, e.info(fr).ObjectOf(id)); ok && isBoxed(fr, e.info(fr).ObjectOf(id)) {
				n := intT(at.Len())
				e.sliceOf(st, fr, x, Value{T: mkSlice(pArr(st.vars[vk].T), zero, n, n), Typ: types.NewSlice(at.Elem())}, k)
				return
			}
		}
	}
	e.eval(st, fr, x.X, func(st *State, s Value) { e.sliceOf(st, fr, x, s, k) })
}

func (e *Ex) sliceOf(st *State, fr *Frame, x *ast.SliceExpr, s Value, k func(*State, Value)) {
	func() {
		opt := func(st *State, y ast.Expr, def *Term, k func(*State, *Term)) {
			if y == nil {
				k(st, def)
				return
			}
			e.eval(st, fr, y, func(st *State, v Value) { k(st, v.T) })
		}
		switch u := s.Typ.Underlying().(type) {
		case *types.Slice:
			opt(st, x.Low, zero, func(st *State, lo *Term) {
				opt(st, x.High, sLen(s.T), func(st *State, hi *Term) {
					opt(st, x.Max, sCap(s.T), func(st *State, mx *Term) {
						e.oblige(st, "slice", "", x, and(le(zero, lo), le(lo, hi), le(hi, mx), le(mx, sCap(s.T))))
						lo, hi = e.name(st, "lo", lo), e.name(st, "hi", hi)
						k(st, Value{T: mkSlice(sArr(s.T), add(sOff(s.T), lo), sub(hi, lo), sub(mx, lo)), Typ: s.Typ})
					})
				})
			})
		case *types.Basic:
			_ = u
			ln := e.strLen(st, s.T)
			opt(st, x.Low, zero, func(st *State, lo *Term) {
				opt(st, x.High, ln, func(st *State, hi *Term) {
					e.oblige(st, "slice", "", x, and(le(zero, lo), le(lo, hi), le(hi, ln)))
					e.w.fn("substr", []string{"Str", "Int", "Int"}, "Str")
					r := app("substr", "Str", s.T, lo, hi)
					st.assume(eq(app("slen", "Int", r), sub(hi, lo)))
					k(st, Value{T: r, Typ: s.Typ})
				})
			})
		case *types.Pointer:
			e.fail(x, "slice of array pointer")
		default:
			e.fail(x, "unsupported slice of %s", s.Typ)
		}
	}()
}

func (e *Ex) evalUnary(st *State, fr *Frame, x *ast.UnaryExpr, k func(*State, Value)) {
	switch x.Op {
	case token.AND:
		in := ast.Unparen(x.X)
		if cl, ok := in.(*ast.CompositeLit); ok {
			t := e.typeOf(fr, cl)
			e.evalComposite(st, fr, cl, t, func(st *State, v Value) {
				k(st, Value{T: e.allocCell(st, t, v.T), Typ: types.NewPointer(t)})
			})
			return
		}
		e.lval(st, fr, in, func(st *State, l *loc) {
			if l.heapT != nil && len(l.path) == 0 {
				k(st, Value{T: mkPtr(l.arr, l.idx), Typ: types.NewPointer(l.heapT)})
				return
			}
			if isSyncType(l.typ) {
				k(st, Value{T: mkPtr(e.w.fresh("lk", "Int"), zero), Typ: types.NewPointer(l.typ)})
				return
			}
			if e.fieldArgs[x] { // copied in here and back out after the call, see call
				cur := e.loadLoc(st, l, x)
				p := Value{T: e.allocCell(st, l.typ, cur.T), Typ: types.NewPointer(l.typ)}
				st.vars[vkey{fr.id, e.hiddenVar(x, "$i", p.Typ)}] = p
				k(st, p)
				return
			}
			e.fail(x, "address of a field or unboxed variable")
		})
	case token.NOT:
		e.eval(st, fr, x.X, func(st *State, v Value) { k(st, Value{T: not(v.T), Typ: v.Typ}) })
	case token.SUB:
		e.eval(st, fr, x.X, func(st *State, v Value) {
			if e.w.BV && strings.HasPrefix(v.T.Sort, "(_ BitVec") {
				k(st, Value{T: app("bvneg", v.T.Sort, v.T), Typ: v.Typ})
				return
			}
			if e.w.BV {
				k(st, Value{T: app("fp.neg", v.T.Sort, v.T), Typ: v.Typ})
				return
			}
			if v.T.Sort == "Flt" {
				e.w.fn("flt_neg", []string{"Flt"}, "Flt")
				k(st, Value{T: app("flt_neg", "Flt", v.T), Typ: v.Typ})
				return
			}
			k(st, e.arith(st, token.SUB, Value{T: zero, Typ: v.Typ}, v, v.Typ, x))
		})
	case token.ADD:
		e.eval(st, fr, x.X, k)
	case token.XOR:
		e.eval(st, fr, x.X, func(st *State, v Value) {
			if e.w.BV {
				k(st, Value{T: app("bvnot", v.T.Sort, v.T), Typ: v.Typ})
				return
			}
			if n, ok := isUnsigned(v.Typ); ok {
				k(st, Value{T: sub(sub(pow2(n), one), v.T), Typ: v.Typ})
				return
			}
			k(st, Value{T: sub(intT(-1), v.T), Typ: v.Typ})
		})
	case token.ARROW:
		e.eval(st, fr, x.X, func(st *State, v Value) {
			t := v.Typ.Underlying().(*types.Chan).Elem()
			r := e.w.fresh("recv", e.w.sortOf(t))
			e.wf(st, r, t)
			e.chanOp(st, fr, x, "receives", Value{T: r, Typ: t})
			k(st, Value{T: r, Typ: t})
		})
	default:
		e.fail(x, "unary %s", x.Op)
	}
}

func (e *Ex) evalBinary(st *State, fr *Frame, x *ast.BinaryExpr, k func(*State, Value)) {
	if x.Op == token.LAND || x.Op == token.LOR {
		if e.pureExpr(fr, x.Y) {
			e.eval(st, fr, x.X, func(st *State, l Value) {
				g := l.T
				if x.Op == token.LOR {
					g = not(g)
				}
				if g.Op == "false" && g.isSym() {
					k(st, l)
					return
				}
				st2 := st.clone()
				st2.assumeBranch(g)
				start := st2.pc
				n := 0
				var r Value
				e.eval(st2, fr, x.Y, func(s *State, v Value) {
					n++
					r = v
					st2 = s
				})
				if n != 1 {
					e.fail(x, "pure expression forked")
				}
				for _, f := range e.factsSince(st2, start) {
					st.assume(imp(g, f.t))
				}
				t := and(l.T, r.T)
				if x.Op == token.LOR {
					t = or(l.T, r.T)
				}
				k(st, Value{T: t, Typ: boolTyp})
			})
			return
		}
		e.branch(st, fr, x.X, x,
			func(st *State) {
				if x.Op == token.LAND {
					e.eval(st, fr, x.Y, k)
				} else {
					k(st, Value{T: tTrue, Typ: boolTyp})
				}
			},
			func(st *State) {
				if x.Op == token.LAND {
					k(st, Value{T: tFalse, Typ: boolTyp})
				} else {
					e.eval(st, fr, x.Y, k)
				}
			})
		return
	}
	e.eval(st, fr, x.X, func(st *State, a Value) {
		e.eval(st, fr, x.Y, func(st *State, b Value) {
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				k(st, e.compare(st, x.Op, a, b, x))
			default:
				r := e.arith(st, x.Op, a, b, e.typeOf(fr, x), x)
				r.T = e.name(st, "t", r.T)
				k(st, r)
			}
		})
	})
}

func (e *Ex) evalComposite(st *State, fr *Frame, x *ast.CompositeLit, t types.Type, k func(*State, Value)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		si := e.w.structOf(e.w.sortOf(t))
		if si == nil {
			// opaque foreign struct
			k(st, Value{T: e.w.fresh("lit", e.w.sortOf(t)), Typ: t})
			return
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = e.w.zeroVal(u.Field(i).Type())
		}
		var do func(st *State, i int, args []*Term)
		do = func(st *State, i int, args []*Term) {
			if i == len(x.Elts) {
				k(st, Value{T: e.w.mkStruct(si.Sort, args), Typ: t})
				return
			}
			fi := i
			val := x.Elts[i]
			if kv, ok := val.(*ast.KeyValueExpr); ok {
				val = kv.Value
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						fi = j
					}
				}
			}
			e.evalElt(st, fr, val, u.Field(fi).Type(), func(st *State, v Value) {
				v = e.convertTo(st, v, u.Field(fi).Type())
				if v.Clo != nil {
					v.T = e.nonNilOpaque(st, "clo")
				}
				n := append([]*Term{}, args...)
				n[fi] = e.name(st, "f", v.T)
				do(st, i+1, n)
			})
		}
		do(st, 0, args)
	case *types.Slice:
		n := len(x.Elts)
		if n == 0 {
			r := e.newRef(st)
			st.assume(neq(r, zero))
			k(st, Value{T: mkSlice(r, zero, zero, zero), Typ: t})
			return
		}
		var do func(st *State, i int, vals []*Term)
		do = func(st *State, i int, vals []*Term) {
			if i == n {
				r := e.newRef(st)
				st.assume(neq(r, zero))
				key := e.w.heapKey(u.Elem())
				s := arrRange(e.w.heapSort(key))
				a := e.w.fresh("A", s)
				for j, v := range vals {
					st.assume(app("=", "Bool", sel(a, intT(int64(j))), v))
				}
				e.setArr(st, key, r, a)
				for j := range vals {
					e.unfold(st, u.Elem(), a, intT(int64(j)))
				}
				k(st, Value{T: mkSlice(r, zero, intT(int64(n)), intT(int64(n))), Typ: t})
				return
			}
			val := x.Elts[i]
			if _, ok := val.(*ast.KeyValueExpr); ok {
				e.fail(x, "keyed slice literal")
			}
			e.evalElt(st, fr, val, u.Elem(), func(st *State, v Value) {
				v = e.convertTo(st, v, u.Elem())
				if v.Clo != nil {
					v.T = e.nonNilOpaque(st, "clo")
				}
				do(st, i+1, append(append([]*Term{}, vals...), e.name(st, "f", v.T)))
			})
		}
		do(st, 0, nil)
	case *types.Map:
		m := e.newMap(st, t)
		var do func(st *State, i int)
		do = func(st *State, i int) {
			if i == len(x.Elts) {
				k(st, m)
				return
			}
			kv := x.Elts[i].(*ast.KeyValueExpr)
			e.evalElt(st, fr, kv.Key, u.Key(), func(st *State, kk Value) {
				kk = e.convertTo(st, kk, u.Key())
				e.evalElt(st, fr, kv.Value, u.Elem(), func(st *State, v Value) {
					v = e.convertTo(st, v, u.Elem())
					e.mapPut(st, m, kk.T, v.T)
					do(st, i+1)
				})
			})
		}
		do(st, 0)
	case *types.Array:
		a := e.w.zeroVal(t)
		var do func(st *State, i int, a *Term)
		do = func(st *State, i int, a *Term) {
			if i == len(x.Elts) {
				k(st, Value{T: e.name(st, "arr", a), Typ: t})
				return
			}
			e.evalElt(st, fr, x.Elts[i], u.Elem(), func(st *State, v Value) {
				v = e.convertTo(st, v, u.Elem())
				do(st, i+1, store(a, intT(int64(i)), v.T))
			})
		}
		do(st, 0, a)
	default:
		e.fail(x, "composite literal of %s", t)
	}
}

// evalElt handles elided types in composite literals.
func (e *Ex) evalElt(st *State, fr *Frame, x ast.Expr, t types.Type, k func(*State, Value)) {
	if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			e.evalComposite(st, fr, cl, p.Elem(), func(st *State, v Value) {
				k(st, Value{T: e.allocCell(st, p.Elem(), v.T), Typ: t})
			})
			return
		}
		e.evalComposite(st, fr, cl, t, k)
		return
	}
	e.eval(st, fr, x, k)
}
