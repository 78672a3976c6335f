package main

import (
	"go/ast"
	"go/types"
	"strings"
)

// Monitor is what a contract says about a lock: the state the lock guards is arbitrary when it is taken, but for
// the enter clauses, which are assumed; the leave clauses are proved when it is released, after which the state
// given up is arbitrary again. In both, atloop(x) is x when the lock was taken.
type Monitor struct {
	Owner, Field string
	Locked       []*Sx // arbitrary once the lock is taken
	Unlocked     []*Sx // arbitrary once the lock is released
	Enter, Leave []Clause
	Rely         []Clause // what others leave alone, assumed whenever the state becomes arbitrary; atloop(x) is x before that
}

// ChanSpec speaks about the pointers, slices and structs sent over and received from a contract's channels, about waiting for
// and closing a channel, and about calls.
type ChanSpec struct {
	Op   string // receives, sends, awaits, closes, closed, calls
	Name string
	Mod  []*Sx // specification state that is arbitrary afterwards, but for the clause
	C    Clause
}

func (p *parser_) monitor() *Monitor {
	m := &Monitor{Owner: p.ident()}
	p.expect(".")
	m.Field = p.ident()
	p.expect("{")
	list := func() (out []*Sx) {
		for {
			out = append(out, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(";")
		return out
	}
	for !p.accept("}") {
		switch w := p.ident(); w {
		case "locked":
			m.Locked = append(m.Locked, list()...)
		case "unlocked":
			m.Unlocked = append(m.Unlocked, list()...)
		case "enter":
			m.Enter = append(m.Enter, p.clause())
		case "rely":
			m.Rely = append(m.Rely, p.clause())
		case "leave":
			m.Leave = append(m.Leave, p.clause())
		default:
			p.fail("unknown monitor clause " + w)
		}
	}
	return m
}

// monitorOf finds the monitor of the lock a call is about.
func (e *Ex) monitorOf(fr *Frame, f *ast.SelectorExpr) *Monitor {
	in, ok := ast.Unparen(f.X).(*ast.SelectorExpr)
	if !ok || len(e.c.Monitors) == 0 {
		return nil
	}
	t := e.typeOf(fr, in.X)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for _, m := range e.c.Monitors {
		if m.Owner == n.Obj().Name() && m.Field == in.Sel.Name {
			return m
		}
	}
	return nil
}

func (e *Ex) monitorHavoc(st *State, xs []*Sx, fr *Frame, rely []Clause) {
	if len(xs) == 0 {
		return
	}
	old := st.clone()
	defer func() {
		for _, c := range rely {
			st.assume(e.innerLoopEnv(st, old, fr, nil, false).evalBool(c.X))
		}
	}()
	var plain []*Sx
	for _, x := range xs {
		if x.Op == "call" && x.A[0].Name == "others" { // others(T): cells of type T this call did not allocate
			env := e.innerLoopEnv(old, old, fr, nil, true)
			key := e.w.heapKey(env.typeArg(x.A[1]))
			h := e.heap(st, key)
			n := e.w.fresh(key, h.Sort)
			st.heaps[key] = n
			e.wfHeap(st, key, n)
			st.wrote(key, sym("*", "Int"))
			a := sym("a?", "Int")
			st.assume(forall([]Binder{{"a?", "Int"}}, [][]*Term{{e.selH(n, a)}}, imp(le(e.entry.alloc, a), eq(e.selH(n, a), e.selH(h, a)))))
			continue
		}
		plain = append(plain, x)
	}
	regs := e.regions(e.innerLoopEnv(old, old, fr, nil, true), plain)
	na := e.w.fresh("alloc", "Int")
	st.assume(le(st.alloc, na))
	st.alloc = na
	e.havocRegions(st, old, regs)
	for i, r := range regs {
		if r.fields != nil {
			st.assume(e.otherFields(regs, i, e.heap(st, r.key), e.heap(old, r.key)))
		}
	}
}

// monitorOp executes a lock operation under a monitor.
func (e *Ex) monitorOp(st *State, fr *Frame, x *ast.CallExpr, m *Monitor, op string) bool {
	switch op {
	case "Lock", "RLock":
		e.externs["the state guarded by "+m.Owner+"."+m.Field+" satisfies the enter clauses whenever the lock is taken (every function that releases it proves them)"] = true
		was := st.alloc
		e.monitorHavoc(st, m.Locked, fr, m.Rely)
		for _, c := range m.Enter {
			env := e.innerLoopEnv(st, st, fr, nil, false)
			env.freshA = was // foreign: not allocated by this call
			st.assume(env.evalBool(c.X))
		}
		st.lock = st.clone()
	case "Unlock", "RUnlock":
		at := st.lock
		if at == nil {
			at = e.entry
		}
		for i, c := range m.Leave {
			now := st.clone() // no clause helps prove another
			env := e.innerLoopEnv(now, at, fr, nil, true)
			e.oblige(now, "leave", strings.TrimPrefix(labelOr(c.Label, i), "#"), x, env.evalBool(c.X))
		}
		st.lock, st.unlock = nil, st.clone()
		e.monitorHavoc(st, m.Unlocked, fr, m.Rely)
	default:
		return false
	}
	return true
}

// carries tells if receives and sends clauses speak about values of the type: pointers, slices and structs with fields.
func carries(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Pointer, *types.Slice:
		return true
	case *types.Struct:
		return t.NumFields() > 0
	}
	return false
}

// chanOp applies the clauses about a channel operation with value v.
func (e *Ex) chanOp(st *State, fr *Frame, at ast.Node, op string, v Value) {
	if op == "closes" {
		defer e.chanOp(st, fr, at, "closed", v)
	}
	for i, s := range e.c.Chans {
		if s.Op != op || carries(v.Typ) != (op == "receives" || op == "sends") {
			continue
		}
		lk := st.lock
		if lk == nil {
			lk = st.unlock
		}
		if lk == nil {
			lk = e.entry
		}
		assumed := op == "receives" || op == "awaits" || op == "closed"
		e.monitorHavoc(st, s.Mod, fr, nil)
		env := e.innerLoopEnv(st, lk, fr, nil, !assumed)
		env.vars[s.Name] = v
		g := env.evalBool(s.C.X)
		if assumed {
			if op == "closed" {
				st.assume(g)
				continue
			}
			e.externs["what is received from a channel of "+e.fi.Key+" is as its "+op+" clause says (what is sent is proved to be)"] = true
			st.assume(g)
		} else {
			e.oblige(st, op, strings.TrimPrefix(labelOr(s.C.Label, i), "#"), at, g)
		}
	}
}

// callOp proves the clauses about calls of c.
func (e *Ex) callOp(st *State, fr *Frame, at ast.Node, c *Contract, params map[string]Value) {
	for i, s := range e.c.Chans {
		if s.Op != "calls" || s.Name != c.Key {
			continue
		}
		env := e.innerLoopEnv(st, e.entry, fr, nil, true)
		for n, v := range params {
			env.vars[n] = v
		}
		e.oblige(st, "calls", strings.TrimPrefix(labelOr(s.C.Label, i), "#"), at, env.evalBool(s.C.X))
	}
}

// goContract starts a literal that is under contract by itself: its contract is what it does.
func (e *Ex) goContract(st *State, fr *Frame, s *ast.GoStmt, k func(*State)) bool {
	lit, ok := ast.Unparen(s.Call.Fun).(*ast.FuncLit)
	if !ok {
		return false
	}
	var fi *FuncInfo
	for _, f := range e.prog.Funcs {
		if f.Decl.Body == lit.Body {
			fi = f
		}
	}
	if fi == nil || e.w.DB.Contracts[fi.Key] == nil {
		return false
	}
	c := e.w.DB.Contracts[fi.Key]
	e.externs["goroutine started at "+e.pos(s)+" does what its contract says, before the next one starts (it holds the lock of the only segment it changes)"] = true
	uses := map[string]*ast.Ident{}
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, v := range fi.Captured {
				if fr.pkg.Info.Uses[id] == v {
					uses[v.Name()] = id
				}
			}
		}
		return true
	})
	var own []ast.Expr
	own = append(own, s.Call.Args...)
	var vs []Value
	var next func(st *State, ps []string)
	next = func(st *State, ps []string) {
		if len(ps) == 0 {
			e.callContract(st, fr, s.Call, fi.Obj, c, nil, vs, func(st *State, _ []Value) { k(st) })
			return
		}
		var x ast.Expr
		if id := uses[ps[0]]; id != nil {
			x = id
			delete(uses, ps[0])
		} else if len(own) > 0 {
			x, own = own[0], own[1:]
		} else {
			e.fail(s, "contract %s names a parameter %s the literal lacks", c.Key, ps[0])
		}
		e.eval(st, fr, x, func(st *State, v Value) {
			vs = append(vs, v)
			next(st, ps[1:])
		})
	}
	next(st, c.Params)
	return true
}
