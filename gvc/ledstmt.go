package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// ---- merging of paths that hold the same locks

func (l *ledger) mergeStates(xs []*ldState) []*ldState {
	if len(xs) < 2 {
		return xs
	}
	bySig := map[string]*ldState{}
	var out []*ldState
	for _, s := range xs {
		k := s.mergeKey()
		t := bySig[k]
		if t == nil {
			bySig[k] = s
			out = append(out, s)
			continue
		}
		l.mergeInto(t, s)
	}
	return out
}

func (l *ledger) known(st *ldState, v ldVal) string {
	switch l.nilness(st, v) {
	case 1:
		return "nil"
	}
	if b, ok := st.facts[fmt.Sprintf("b#%d", v.id)]; ok && v.id != 0 {
		return ldVal{cv: constant.MakeBool(b)}.key()
	}
	k := v.key()
	if v.clo != nil {
		k = fmt.Sprintf("f%p", v.clo)
	}
	return k
}

// mergeInto keeps in t what holds in both states.
func (l *ledger) mergeInto(t, s *ldState) {
	facts := map[string]bool{}
	for k, v := range t.facts {
		if w, ok := s.facts[k]; ok && v == w {
			facts[k] = v
		}
	}
	join := func(a, b ldVal) ldVal {
		if a.id == b.id && a.id != 0 {
			return a
		}
		if ka, kb := l.known(t, a), l.known(s, b); ka == kb && ka != "" {
			if ka == "nil" {
				return ldVal{nilv: true}
			}
			if b, ok := t.facts[fmt.Sprintf("b#%d", a.id)]; ok && a.id != 0 {
				return ldVal{cv: constant.MakeBool(b)}
			}
			return a
		}
		if a.clo != nil && b.clo != nil && a.clo.lit != nil && a.clo.lit == b.clo.lit {
			return a
		}
		v := l.freshVal("")
		if n := l.names[a.id]; n != "" {
			l.names[v.id] = n
		}
		if na, nb := l.nilness(t, a), l.nilness(s, b); na == nb && na >= 0 {
			facts[fmt.Sprintf("n#%d", v.id)] = na == 1
		}
		return v
	}
	vars := map[types.Object]ldVal{}
	for o, a := range t.vars {
		if b, ok := s.vars[o]; ok {
			vars[o] = join(a, b)
		}
	}
	heap := map[hk]ldVal{}
	for k, a := range t.heap {
		if b, ok := s.heap[k]; ok {
			if a.id == b.id && a.key() == b.key() {
				heap[k] = a
			} else if l.keptField(k.f) {
				heap[k] = join(a, b)
			}
		}
	}
	t.facts, t.vars, t.heap = facts, vars, heap
	for o := range s.vol {
		t.vol[o] = true
	}
	for k, n := range s.runs {
		if t.runs[k] < n {
			t.runs[k] = n
		}
	}
	n := 0
	for n < len(t.path) && n < len(s.path) && t.path[n] == s.path[n] {
		n++
	}
	t.path = t.path[:n]
}

func (l *ledger) mergeOuts(xs []ldOut) []ldOut {
	var plain []*ldState
	var out []ldOut
	type bk struct{ kind, label string }
	br := map[bk][]*ldState{}
	var order []bk
	for _, o := range xs {
		switch o.kind {
		case "":
			plain = append(plain, o.st)
		case "break", "continue", "fall", "goto":
			k := bk{o.kind, o.label}
			if br[k] == nil {
				order = append(order, k)
			}
			br[k] = append(br[k], o.st)
		case "dead":
		default:
			out = append(out, o)
		}
	}
	for _, s := range l.mergeStates(plain) {
		out = append(out, ldOut{st: s})
	}
	for _, k := range order {
		for _, s := range l.mergeStates(br[k]) {
			out = append(out, ldOut{st: s, kind: k.kind, label: k.label})
		}
	}
	return out
}

// mergeEv merges results of a call that agree in everything that matters.
func (l *ledger) mergeEv(xs []ldEv) []ldEv {
	if len(xs) < 2 {
		return xs
	}
	by := map[string]int{}
	var out []ldEv
	for _, e := range xs {
		k := e.st.mergeKey()
		for _, v := range e.vs {
			k += fmt.Sprintf("|%d", l.nilness(e.st, v))
			if v.cv != nil {
				k += v.cv.ExactString()
			}
			if v.clo != nil {
				k += fmt.Sprintf("%p", v.clo)
			}
			if v.lock != nil || l.debts[v.id] != nil || l.fresh[v.id] || l.maps[v.id] {
				k += v.key()
			}
		}
		if i, ok := by[k]; ok {
			a := out[i]
			var vs []ldVal
			for j := range a.vs {
				if j < len(e.vs) && a.vs[j].key() == e.vs[j].key() {
					vs = append(vs, a.vs[j])
					continue
				}
				if a.vs[j].clo != nil || a.vs[j].cv != nil {
					vs = append(vs, a.vs[j])
					continue
				}
				n := l.nilness(a.st, a.vs[j])
				if n == 1 {
					vs = append(vs, ldVal{nilv: true})
					continue
				}
				v := l.freshVal("")
				vs = append(vs, v)
				if n == 0 {
					a.st.facts[fmt.Sprintf("n#%d", v.id)] = false
					e.st.facts[fmt.Sprintf("n#%d", v.id)] = false
				}
			}
			l.mergeInto(a.st, e.st)
			out[i].vs = vs
			continue
		}
		by[k] = len(out)
		out = append(out, e)
	}
	return out
}

// ---- statements

func (l *ledger) block(st *ldState, c *ldCtx, ss []ast.Stmt) []ldOut {
	outs := []ldOut{{st: st}}
	var done []ldOut
	for _, s := range ss {
		var next []ldOut
		for _, o := range outs {
			next = append(next, l.stmt(o.st, c, s, "")...)
		}
		next = l.mergeOuts(next)
		outs = outs[:0:0]
		for _, o := range next {
			if o.kind == "" {
				outs = append(outs, o)
			} else {
				done = append(done, o)
			}
		}
		if len(outs) == 0 {
			break
		}
	}
	return append(outs, done...)
}

func plainOuts(sts []*ldState) []ldOut {
	var out []ldOut
	for _, s := range sts {
		out = append(out, ldOut{st: s})
	}
	return out
}

func (l *ledger) stmt(st *ldState, c *ldCtx, s ast.Stmt, label string) []ldOut {
	l.tick(s)
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
		return []ldOut{{st: st}}
	case *ast.BlockStmt:
		return l.block(st, c, x.List)
	case *ast.ExprStmt:
		var out []ldOut
		for _, e := range l.eval(st, c, x.X) {
			out = append(out, ldOut{st: e.st})
		}
		return out
	case *ast.AssignStmt:
		return plainOuts(l.assign(st, c, x))
	case *ast.IncDecStmt:
		var out []ldOut
		for _, e := range l.eval(st, c, x.X) {
			for _, t := range l.store(e.st, c, x.X, l.freshVal(""), x) {
				out = append(out, ldOut{st: t})
			}
		}
		return out
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		sts := []*ldState{st}
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			var next []*ldState
			for _, s := range sts {
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						o := c.pkg.Info.Defs[n]
						if o == nil {
							continue
						}
						delete(s.vol, o)
						if isMutex(o.Type()) {
							s.vars[o] = l.freshVal(n.Name)
						} else {
							s.vars[o] = l.zero(s, o.Type(), n.Name)
						}
					}
					next = append(next, s)
					continue
				}
				lhs := make([]ast.Expr, len(vs.Names))
				for i, n := range vs.Names {
					lhs[i] = n
				}
				next = append(next, l.assignAll(s, c, lhs, vs.Values, x)...)
			}
			sts = next
		}
		return plainOuts(sts)
	case *ast.IfStmt:
		var out []ldOut
		inits := []ldOut{{st: st}}
		if x.Init != nil {
			inits = l.stmt(st, c, x.Init, "")
		}
		for _, i := range inits {
			t, f := l.cond(i.st, c, x.Cond)
			for _, s := range l.mergeStates(t) {
				out = append(out, l.block(s, c, x.Body.List)...)
			}
			for _, s := range l.mergeStates(f) {
				if x.Else != nil {
					out = append(out, l.stmt(s, c, x.Else, "")...)
				} else {
					out = append(out, ldOut{st: s})
				}
			}
		}
		return l.mergeOuts(out)
	case *ast.LabeledStmt:
		out := l.stmt(st, c, x.Stmt, x.Label.Name)
		for i := range out {
			if out[i].kind == "break" && out[i].label == x.Label.Name {
				out[i].kind, out[i].label = "", ""
			}
		}
		return l.mergeOuts(out)
	case *ast.BranchStmt:
		lb := ""
		if x.Label != nil {
			lb = x.Label.Name
		}
		switch x.Tok {
		case token.BREAK:
			return []ldOut{{st: st, kind: "break", label: lb}}
		case token.CONTINUE:
			return []ldOut{{st: st, kind: "continue", label: lb}}
		case token.FALLTHROUGH:
			return []ldOut{{st: st, kind: "fall"}}
		}
		l.unsup(x, "goto")
	case *ast.ReturnStmt:
		var out []ldOut
		var evs []ldEv
		switch {
		case len(x.Results) == 0:
			e := ldEv{st: st}
			for _, n := range c.named {
				if n != nil {
					e.vs = append(e.vs, st.vars[n])
				} else {
					e.vs = append(e.vs, l.freshVal(""))
				}
			}
			evs = []ldEv{e}
		case len(x.Results) == 1:
			evs = l.eval(st, c, x.Results[0])
		default:
			evs = l.evalList(st, c, x.Results)
		}
		for _, e := range evs {
			for i, n := range c.named {
				if n != nil && i < len(e.vs) {
					e.st.vars[n] = e.vs[i]
				}
			}
			out = append(out, ldOut{st: e.st, kind: "return", vs: e.vs})
		}
		return out
	case *ast.ForStmt:
		return l.loop(st, c, x, x.Init, x.Cond, x.Post, x.Body, nil, label)
	case *ast.RangeStmt:
		return l.loop(st, c, x, nil, nil, nil, x.Body, x, label)
	case *ast.SwitchStmt:
		return l.swtch(st, c, x)
	case *ast.TypeSwitchStmt:
		var out []ldOut
		inits := []ldOut{{st: st}}
		if x.Init != nil {
			inits = l.stmt(st, c, x.Init, "")
		}
		for _, i := range inits {
			for _, a := range l.stmt(i.st, c, x.Assign, "") {
				def := false
				for _, cc := range x.Body.List {
					cl := cc.(*ast.CaseClause)
					def = def || cl.List == nil
					s := a.st.clone()
					s.path = append(s.path, fmt.Sprintf("%d:case", l.line(cl)))
					if o := c.pkg.Info.Implicits[cl]; o != nil {
						s.vars[o] = l.freshVal(o.Name())
					}
					out = append(out, l.block(s, c, cl.Body)...)
				}
				if !def {
					out = append(out, ldOut{st: a.st})
				}
			}
		}
		return l.mergeOuts(unbreak(out))
	case *ast.SelectStmt:
		var out []ldOut
		for _, cc := range x.Body.List {
			cl := cc.(*ast.CommClause)
			s := st.clone()
			s.path = append(s.path, fmt.Sprintf("%d:case", l.line(cl)))
			pre := []ldOut{{st: s}}
			if cl.Comm != nil {
				pre = l.stmt(s, c, cl.Comm, "")
			}
			for _, p := range pre {
				out = append(out, l.block(p.st, c, cl.Body)...)
			}
		}
		return l.mergeOuts(unbreak(out))
	case *ast.SendStmt:
		var out []ldOut
		for _, e := range l.evalList(st, c, []ast.Expr{x.Chan, x.Value}) {
			l.escape(e.st, c, e.vs[1], x)
			out = append(out, ldOut{st: e.st})
		}
		return out
	case *ast.GoStmt:
		return l.goStmt(st, c, x)
	case *ast.DeferStmt:
		return l.deferStmt(st, c, x)
	}
	l.unsup(s, "statement %T", s)
	return nil
}

func unbreak(xs []ldOut) []ldOut {
	for i := range xs {
		if xs[i].kind == "break" && xs[i].label == "" {
			xs[i].kind = ""
		}
	}
	return xs
}

func (l *ledger) swtch(st *ldState, c *ldCtx, x *ast.SwitchStmt) []ldOut {
	var out []ldOut
	inits := []ldOut{{st: st}}
	if x.Init != nil {
		inits = l.stmt(st, c, x.Init, "")
	}
	for _, i := range inits {
		tags := []ldEv{{i.st, []ldVal{{cv: constant.MakeBool(true)}}}}
		if x.Tag != nil {
			tags = l.eval(i.st, c, x.Tag)
		}
		for _, tg := range tags {
			rest := []*ldState{tg.st}
			enter := make([][]*ldState, len(x.Body.List))
			def := -1
			for k, cc := range x.Body.List {
				cl := cc.(*ast.CaseClause)
				if cl.List == nil {
					def = k
					continue
				}
				for _, ce := range cl.List {
					var next []*ldState
					for _, s := range rest {
						if x.Tag == nil {
							t, f := l.cond(s, c, ce)
							enter[k], next = append(enter[k], t...), append(next, f...)
							continue
						}
						for _, e := range l.eval(s, c, ce) {
							t, f := l.compare(e.st, ce, token.EQL, tg.v(), e.v())
							enter[k], next = append(enter[k], t...), append(next, f...)
						}
					}
					rest = next
				}
			}
			if def >= 0 {
				enter[def] = append(enter[def], rest...)
			} else {
				out = append(out, plainOuts(rest)...)
			}
			var fall []*ldState
			for k, cc := range x.Body.List {
				in := append(fall, enter[k]...)
				fall = nil
				for _, s := range l.mergeStates(in) {
					for _, o := range l.block(s, c, cc.(*ast.CaseClause).Body) {
						if o.kind == "fall" {
							fall = append(fall, o.st)
						} else {
							out = append(out, o)
						}
					}
				}
			}
		}
	}
	return l.mergeOuts(unbreak(out))
}

func (l *ledger) assign(st *ldState, c *ldCtx, x *ast.AssignStmt) []*ldState {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		var out []*ldState
		for _, e := range l.evalList(st, c, []ast.Expr{x.Lhs[0], x.Rhs[0]}) {
			out = append(out, l.store(e.st, c, x.Lhs[0], l.freshVal(""), x)...)
		}
		return out
	}
	return l.assignAll(st, c, x.Lhs, x.Rhs, x)
}

func (l *ledger) assignAll(st *ldState, c *ldCtx, lhs, rhs []ast.Expr, n ast.Node) []*ldState {
	for i, r := range rhs {
		if fl, ok := ast.Unparen(r).(*ast.FuncLit); ok && i < len(lhs) {
			if id, ok := lhs[i].(*ast.Ident); ok {
				ldLitVar[fl] = c.pkg.Info.ObjectOf(id)
			}
		}
	}
	var evs []ldEv
	if len(rhs) == 1 && len(lhs) > 1 {
		evs = l.eval(st, c, rhs[0])
		for i := range evs {
			for len(evs[i].vs) < len(lhs) {
				evs[i].vs = append(evs[i].vs, l.freshVal(""))
			}
		}
	} else {
		evs = l.evalList(st, c, rhs)
	}
	var out []*ldState
	for _, e := range evs {
		sts := []*ldState{e.st}
		for i, y := range lhs {
			v := e.vs[i]
			// copying a struct makes another object
			if len(rhs) == len(lhs) {
				v = l.copyStruct(e.st, c, rhs[i], v)
			}
			var next []*ldState
			for _, s := range sts {
				next = append(next, l.store(s, c, y, v, n)...)
			}
			sts = next
		}
		out = append(out, sts...)
	}
	return out
}

func (l *ledger) copyStruct(st *ldState, c *ldCtx, x ast.Expr, v ldVal) ldVal {
	t := l.typ(c, x)
	if _, ok := t.Underlying().(*types.Struct); !ok || v.id == 0 {
		return v
	}
	switch ast.Unparen(x).(type) {
	case *ast.CompositeLit, *ast.CallExpr:
		return v
	}
	w := l.freshVal(typeName(t))
	for k, y := range st.heap {
		if k.id == v.id {
			st.heap[hk{w.id, k.f}] = y
		}
	}
	return w
}

func (l *ledger) store(st *ldState, c *ldCtx, x ast.Expr, v ldVal, n ast.Node) []*ldState {
	x = ast.Unparen(x)
	switch y := x.(type) {
	case *ast.Ident:
		if y.Name == "_" {
			return []*ldState{st}
		}
		o := c.pkg.Info.ObjectOf(y)
		if o == nil {
			return []*ldState{st}
		}
		if c.pkg.Info.Defs[y] != nil {
			delete(st.vol, o)
		}
		if vv, ok := o.(*types.Var); ok && vv.Pkg() != nil && vv.Parent() == vv.Pkg().Scope() {
			l.escape(st, c, v, n)
			return []*ldState{st}
		}
		if l.names[v.id] == "" && v.id != 0 {
			l.names[v.id] = y.Name
		}
		st.vars[o] = v
		return []*ldState{st}
	case *ast.SelectorExpr:
		sl := c.pkg.Info.Selections[y]
		if sl == nil {
			l.escape(st, c, v, n)
			return []*ldState{st}
		}
		var out []*ldState
		for _, e := range l.eval(st, c, y.X) {
			s := e.st
			idx := sl.Index()
			b, t := l.descend(s, e.v(), l.typ(c, y.X), idx[:len(idx)-1])
			f := sl.Obj().(*types.Var)
			if l.protected(t, f.Name()) {
				l.oblige(s, "owner", "assigns "+typeName(t)+"."+f.Name(), n, l.fresh[b.id], "the object is not the function's own")
			} else {
				l.escape(s, c, v, n)
			}
			for k := range s.heap {
				if k.f == f && k.id != b.id && !(l.fresh[b.id] || l.fresh[k.id]) {
					delete(s.heap, k)
				}
			}
			s.heap[hk{b.id, f}] = v
			out = append(out, s)
		}
		return out
	case *ast.IndexExpr:
		var out []*ldState
		for _, e := range l.evalList(st, c, []ast.Expr{y.X, y.Index}) {
			s := e.st
			m := e.vs[0]
			t := l.typ(c, y.X)
			if l.ownerMap(t) && l.maps[m.id] {
				// the map takes over what the value has to unlock
				f := l.unlockField(t.Underlying().(*types.Map).Elem())
				u := l.field(s, v, t.Underlying().(*types.Map).Elem(), f)
				tok := fmt.Sprintf("D:%d", u.id)
				ok := l.debts[u.id] != nil && s.led[tok] > 0
				l.oblige(s, "handover", "to map "+l.names[m.id], n, ok, "the function does not own the locks of this segment")
				if ok {
					s.add(tok, -1)
				}
				if len(s.defers) > 0 && !l.isDetached(s, m) {
					s.led[fmt.Sprintf("M:%d", m.id)] = 1
				}
				l.cur.assume["a map entry that holds locked segments is not overwritten by another one"] = true
				out = append(out, s)
				continue
			}
			l.escape(s, c, v, n)
			l.wholeStore(s, l.typ(c, x))
			out = append(out, s)
		}
		return out
	case *ast.StarExpr:
		var out []*ldState
		for _, e := range l.eval(st, c, y.X) {
			l.escape(e.st, c, v, n)
			l.wholeStore(e.st, l.typ(c, x))
			out = append(out, e.st)
		}
		return out
	}
	return []*ldState{st}
}

// isDetached: the map belongs to the function a goroutine was started by; that function accounts for it.
func (l *ledger) isDetached(st *ldState, m ldVal) bool { return st.facts[fmt.Sprintf("det#%d", m.id)] }

func (l *ledger) wholeStore(st *ldState, t types.Type) {
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	m := map[*types.Var]bool{}
	for i := 0; i < su.NumFields(); i++ {
		m[su.Field(i)] = true
	}
	l.invalidate(st, m)
}

// ---- loops

func (l *ledger) loop(st *ldState, c *ldCtx, n ast.Stmt, init ast.Stmt, cond ast.Expr, post ast.Stmt, body *ast.BlockStmt, rg *ast.RangeStmt, label string) []ldOut {
	var res []ldOut
	inits := []ldOut{{st: st}}
	if init != nil {
		inits = l.stmt(st, c, init, "")
	}
	for _, in := range inits {
		heads := []ldEv{{st: in.st}}
		if rg != nil {
			heads = l.eval(in.st, c, rg.X)
		}
		for _, h := range heads {
			res = append(res, l.loopFrom(h.st, c, n, cond, post, body, rg, h.v(), label)...)
		}
	}
	return l.mergeOuts(res)
}

func (l *ledger) loopFrom(st *ldState, c *ldCtx, n ast.Stmt, cond ast.Expr, post ast.Stmt, body *ast.BlockStmt, rg *ast.RangeStmt, over ldVal, label string) []ldOut {
	// what the loop may change is unknown at its head
	l.havocVars(st, c.pkg, n)
	mods := map[*types.Var]bool{}
	l.bodyMods(c.pkg, n, mods)
	l.invalidate(st, mods)
	headSig := st.sig()
	depth := len(st.defers)
	headDefers := 0
	if depth > 0 {
		headDefers = len(st.defers[depth-1])
	}
	var res []ldOut
	var enter []*ldState
	exit := st.clone()
	var drained *ldVal // debt of the current entry of an owner map
	mtok := ""
	switch {
	case rg != nil:
		s := st.clone()
		s.path = append(s.path, fmt.Sprintf("%d:iter", l.line(n)))
		t := l.typ(c, rg.X)
		if rg.Key != nil {
			s = l.store(s, c, rg.Key, l.freshVal(""), rg)[0]
		}
		v := l.freshVal("")
		if l.ownerMap(t) && l.maps[over.id] {
			mt := t.Underlying().(*types.Map)
			f := l.unlockField(mt.Elem())
			u := ldVal{id: l.newID("")}
			l.debts[u.id] = &ldDebt{hint: "unlock of a segment in map " + l.names[over.id], cond: map[string]ldVal{}}
			s.heap[hk{v.id, f}] = u
			l.setNil(s, v, false)
			mtok = fmt.Sprintf("M:%d", over.id)
			if s.led[mtok] > 0 {
				s.add(fmt.Sprintf("D:%d", u.id), 1)
				drained = &u
			}
		}
		if rg.Value != nil {
			s = l.store(s, c, rg.Value, v, rg)[0]
		}
		enter = []*ldState{s}
		exit.path = append(exit.path, fmt.Sprintf("%d:done", l.line(n)))
	case cond != nil:
		exit = nil
		t, f := l.cond(st.clone(), c, cond)
		enter = t
		for _, s := range l.mergeStates(f) {
			res = append(res, ldOut{st: s})
		}
	default:
		exit = nil
		enter = []*ldState{st.clone()}
	}
	consumed, kept := 0, 0
	for _, s := range l.mergeStates(enter) {
		for _, o := range l.block(s, c, body.List) {
			switch {
			case o.kind == "dead":
			case o.kind == "" || (o.kind == "continue" && (o.label == "" || o.label == label)):
				ends := []*ldState{o.st}
				if post != nil {
					ends = nil
					for _, p := range l.stmt(o.st, c, post, "") {
						ends = append(ends, p.st)
					}
				}
				for _, e := range ends {
					// deferred unlocks added in the iteration will run: what they were set aside for is accounted for
					if depth > 0 && len(e.defers) >= depth && len(e.defers[depth-1]) > headDefers {
						more := append([]ldDefer{}, e.defers[depth-1][headDefers:]...)
						e.defers[depth-1] = e.defers[depth-1][:headDefers]
						for i := len(more) - 1; i >= 0; i-- {
							if more[i].tok == "" {
								for _, r := range l.apply(e, c, more[i].call, *more[i].clo, more[i].args, more[i].call.Fun) {
									e = r.st
									break
								}
							}
						}
					}
					if drained != nil {
						dt := fmt.Sprintf("D:%d", drained.id)
						if e.led[dt] > 0 {
							kept++
							e.add(dt, -1)
						} else {
							consumed++
						}
					}
					l.oblige(e, "loop", "an iteration leaves locks as they were", n, e.sig() == headSig, "after an iteration: "+l.ledName(e)+"; before: "+l.ledName(st))
				}
			case o.kind == "break" && (o.label == "" || o.label == label):
				if drained != nil {
					dt := fmt.Sprintf("D:%d", drained.id)
					if o.st.led[dt] > 0 {
						o.st.add(dt, -1)
					} else {
						l.oblige(o.st, "loop", "all of the map is unlocked", n, false, "the loop may stop early")
					}
				}
				res = append(res, ldOut{st: o.st})
			default:
				if drained != nil {
					o.st.add(fmt.Sprintf("D:%d", drained.id), -o.st.led[fmt.Sprintf("D:%d", drained.id)])
				}
				res = append(res, o)
			}
		}
	}
	if drained != nil && consumed > 0 {
		l.oblige(st, "loop", "every iteration unlocks its entry", n, kept == 0, "only some iterations unlock the entry of the map")
		if exit != nil {
			exit.add(mtok, -exit.led[mtok])
		}
	}
	if exit != nil {
		res = append(res, ldOut{st: exit})
	}
	return res
}

// ---- goroutines and deferred calls

func (l *ledger) goStmt(st *ldState, c *ldCtx, x *ast.GoStmt) []ldOut {
	var out []ldOut
	fl, isLit := ast.Unparen(x.Call.Fun).(*ast.FuncLit)
	for _, e := range l.evalList(st, c, x.Call.Args) {
		s := e.st
		if isLit {
			g := s.clone()
			for id := range l.maps {
				g.facts[fmt.Sprintf("det#%d", id)] = true
			}
			clo := &ldClo{lit: fl, pkg: c.pkg}
			l.detached(g, c, clo, e.vs, "a goroutine releases every lock it takes", x)
			for _, o := range assigned(c.pkg, fl) {
				if o.Pos() < fl.Pos() || o.Pos() > fl.End() {
					s.vol[o] = true
				}
			}
			mods := map[*types.Var]bool{}
			l.bodyMods(c.pkg, fl.Body, mods)
			l.invalidate(s, mods)
			// maps the goroutine may put locked segments into
			for id := range l.maps {
				if l.storesTo(s, c, fl, id, 0) {
					s.led[fmt.Sprintf("M:%d", id)] = 1
				}
			}
			out = append(out, ldOut{st: s})
			continue
		}
		for _, f := range l.eval(s, c, x.Call.Fun) {
			g := f.st.clone()
			g.led = map[string]int{}
			g.defers = nil
			if f.v().clo == nil || f.v().clo.op != "" {
				if f.v().clo != nil {
					l.oblige(f.st, "escape", "lock operation in a goroutine", x, false, f.v().clo.op)
				}
				out = append(out, ldOut{st: f.st})
				continue
			}
			for _, r := range l.apply(g, c, x.Call, f.v(), e.vs, x.Call.Fun) {
				l.oblige(r.st, "exit", "a goroutine releases every lock it takes", x, len(r.st.led) == 0, "still holds "+l.ledName(r.st))
			}
			l.invalidateAll(f.st)
			out = append(out, ldOut{st: f.st})
		}
	}
	return out
}

// storesTo: may the code put entries into the map (directly or through function variables it calls)?
func (l *ledger) storesTo(st *ldState, c *ldCtx, n ast.Node, id int, depth int) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, y := range x.Lhs {
				if ix, ok := ast.Unparen(y).(*ast.IndexExpr); ok {
					if m, ok := ix.X.(*ast.Ident); ok {
						if o := c.pkg.Info.ObjectOf(m); o != nil && st.vars[o].id == id {
							hit = true
						}
					}
				}
			}
		case *ast.Ident:
			if o := c.pkg.Info.Uses[x]; o != nil && depth < 4 {
				if v, ok := st.vars[o]; ok && v.clo != nil && v.clo.lit != nil && ast.Node(v.clo.lit) != n {
					hit = hit || l.storesTo(st, c, v.clo.lit, id, depth+1)
				}
			}
		}
		return !hit
	})
	return hit
}

func (l *ledger) deferStmt(st *ldState, c *ldCtx, x *ast.DeferStmt) []ldOut {
	var out []ldOut
	for _, f := range l.eval(st, c, x.Call.Fun) {
		if id, ok := ast.Unparen(x.Call.Fun).(*ast.Ident); ok {
			if _, ok := c.pkg.Info.Uses[id].(*types.Builtin); ok {
				for _, e := range l.evalList(f.st, c, x.Call.Args) {
					if id.Name == "close" && l.chans[e.v().id] {
						tok := fmt.Sprintf("C:%d", e.v().id)
						l.oblige(e.st, "release", "deferred close of a channel others wait for", x, e.st.led[tok] > 0, "it was closed before")
						e.st.add(tok, -e.st.led[tok])
						top := len(e.st.defers) - 1
						e.st.defers[top] = append(e.st.defers[top], ldDefer{tok: tok, n: 1, call: x.Call})
					}
					out = append(out, ldOut{st: e.st})
				}
				continue
			}
		}
		fv := f.v()
		for _, e := range l.callArgs(f.st, c, x.Call) {
			s := e.st
			top := len(s.defers) - 1
			// a deferred unlock: what it will release is set aside now, so nothing else can release it
			if d := l.debts[fv.id]; d != nil {
				tok := fmt.Sprintf("D:%d", fv.id)
				ok := s.led[tok] > 0
				l.oblige(s, "release", "deferred "+d.hint, x, ok, "not owned here; held: "+l.ledName(s))
				if ok {
					s.add(tok, -1)
				}
				s.defers[top] = append(s.defers[top], ldDefer{tok: tok, n: 1, call: x.Call})
				out = append(out, ldOut{st: s})
				continue
			}
			if fv.clo != nil && (fv.clo.op == "Unlock" || fv.clo.op == "RUnlock") {
				mode := "W"
				if fv.clo.op[0] == 'R' {
					mode = "R"
				}
				tok := tokOf(mode, *fv.clo.lock)
				if s.led[tok] > 0 {
					l.oblige(s, "release", "deferred "+fv.clo.op+" "+fv.clo.lock.cls, x, true, "")
					s.add(tok, -1)
					s.defers[top] = append(s.defers[top], ldDefer{tok: tok, n: 1, call: x.Call})
					out = append(out, ldOut{st: s})
					continue
				}
			}
			v := fv
			s.defers[top] = append(s.defers[top], ldDefer{call: x.Call, clo: &v, args: e.vs})
			out = append(out, ldOut{st: s})
		}
	}
	return out
}

// ---- driver

func ledgerMain(prog *Program, spec, out string, verbose bool) bool {
	t0 := time.Now()
	sp, err := parseLedger(spec)
	if err != nil {
		fatal(err)
	}
	l := &ledger{prog: prog, sp: sp, debts: map[int]*ldDebt{}, names: map[int]string{}, fresh: map[int]bool{}, maps: map[int]bool{}, chans: map[int]bool{}, funcs: map[*types.Func]*ldFunc{}}
	var order []*FuncInfo
	for _, k := range sortedKeys(prog.Funcs) {
		if fi := prog.Funcs[k]; fi.Obj != nil && fi.Decl != nil && fi.Decl.Body != nil && prog.ByPos[fi.Obj] == fi {
			order = append(order, fi)
		}
	}
	called := map[*types.Func]bool{}
	for _, fi := range order {
		ast.Inspect(fi.Decl.Body, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.CallExpr:
				if o := calleeOf(fi.Pkg.Info, x); o != nil {
					called[o] = true
				}
			}
			return true
		})
	}
	res := outAll{BySolver: map[string]int{}, Ok: true}
	bound := map[string]bool{}
	missing := []string{}
	for _, fi := range order {
		k := l.key(fi.Obj)
		if ct := sp.contracts[k]; ct != nil {
			bound[k] = true
			l.verify(l.get(fi.Obj), ct)
		}
	}
	for _, k := range sortedKeys(sp.contracts) {
		if !bound[k] {
			missing = append(missing, k)
		}
	}
	skipped := []string{}
	for _, fi := range order {
		k := l.key(fi.Obj)
		if sp.contracts[k] != nil || sp.inline[k] {
			continue
		}
		if sp.skip[k] != "" {
			skipped = append(skipped, k+": "+sp.skip[k])
			continue
		}
		if l.touch(fi.Obj) {
			if hasFuncParam(fi.Obj.Type().(*types.Signature)) && called[fi.Obj] && !ast.IsExported(fi.Obj.Name()) {
				continue // executed at its calls, with the functions it is given
			}
			l.neutral(fi.Obj)
		}
	}
	for _, fi := range order {
		f := l.funcs[fi.Obj]
		if f == nil || f.state == 0 {
			continue
		}
		k := l.key(fi.Obj)
		if f.state == 3 && sp.contracts[k] == nil && called[fi.Obj] && !ast.IsExported(fi.Obj.Name()) {
			continue // a helper that takes or releases locks for its callers: executed in each of them
		}
		of := outFunc{Func: fi.Key, Pos: l.pos(fi.Decl), Status: "verified", BySolver: map[string]int{}, Paths: f.npaths, Err: f.err, Inlined: sortedKeys(f.inlined), Assumptions: sortedKeys(f.assume)}
		for _, o := range f.obls {
			of.Obligations++
			if o.ok {
				of.Discharged++
				of.BySolver["ledger"]++
			} else {
				of.Failed = append(of.Failed, outObl{Name: "locks:" + fi.Key + ":" + o.name, Kind: o.kind, Pos: o.pos, Path: o.path, Status: "failed", Solver: "ledger", Output: o.detail})
			}
		}
		if f.err != "" {
			of.Status = "error"
			of.Obligations++
		} else if len(of.Failed) > 0 {
			of.Status = "failed"
		}
		if of.Status != "verified" {
			res.Ok = false
		}
		res.Obligations += of.Obligations
		res.Discharged += of.Discharged
		res.BySolver["ledger"] += of.Discharged
		res.Functions = append(res.Functions, of)
		if verbose || of.Status != "verified" {
			fmt.Printf("%-8s %-45s %4d/%-4d obligations, %d paths\n", of.Status, of.Func, of.Discharged, of.Obligations, of.Paths)
		}
		if of.Err != "" {
			fmt.Printf("    error: %s\n", of.Err)
		}
		for _, x := range of.Failed {
			fmt.Printf("    FAILED %s [%s] %s\n", x.Name, x.Path, x.Output)
		}
	}
	if len(missing) > 0 {
		res.Ok = false
		of := outFunc{Func: "ownership contracts", Status: "error", Err: "no function for the contract of " + strings.Join(missing, ", "), Obligations: 1}
		res.Obligations++
		res.Functions = append(res.Functions, of)
		fmt.Println("    error:", of.Err)
	}
	sort.Strings(skipped)
	if len(skipped) > 0 {
		of := outFunc{Func: "out of reach of the ledger (assumed)", Status: "assumed", BySolver: map[string]int{}, Assumptions: skipped}
		res.Functions = append(res.Functions, of)
	}
	res.WallMs = time.Since(t0).Milliseconds()
	fmt.Printf("locks: %d/%d obligations discharged, %d functions, %d ms\n", res.Discharged, res.Obligations, len(res.Functions), res.WallMs)
	if out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		_ = os.WriteFile(out, b, 0644)
	}
	return res.Ok
}
