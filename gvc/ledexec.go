package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type ldEv struct {
	st *ldState
	vs []ldVal
}

func (e ldEv) v() ldVal {
	if len(e.vs) == 0 {
		return ldVal{}
	}
	return e.vs[0]
}

type ldOut struct {
	st    *ldState
	kind  string // "", break, continue, return, fall, dead
	label string
	vs    []ldVal
}

// ldCtx is where a piece of code stands.
type ldCtx struct {
	pkg   *Pkg
	sig   *types.Signature
	named []*types.Var
}

func (l *ledger) tick(n ast.Node) {
	l.steps++
	if l.steps > 400000 {
		l.unsup(n, "too many paths")
	}
}

func (l *ledger) typ(c *ldCtx, x ast.Expr) types.Type {
	if tv, ok := c.pkg.Info.Types[x]; ok {
		return tv.Type
	}
	if id, ok := x.(*ast.Ident); ok {
		if o := c.pkg.Info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

// ---- facts

func (v ldVal) key() string {
	switch {
	case v.nilv:
		return "nil"
	case v.cv != nil:
		return "c" + v.cv.ExactString()
	case v.lock != nil:
		return fmt.Sprintf("L%s@%d", v.lock.cls, v.lock.owner)
	case v.id != 0:
		return fmt.Sprintf("#%d", v.id)
	}
	return ""
}

// nilness: 1 nil, 0 not nil, -1 unknown
func (l *ledger) nilness(st *ldState, v ldVal) int {
	if v.nilv {
		return 1
	}
	if v.clo != nil || v.lock != nil || v.cv != nil {
		return 0
	}
	if l.debts[v.id] != nil {
		return 0
	}
	if b, ok := st.facts[fmt.Sprintf("n#%d", v.id)]; ok {
		if b {
			return 1
		}
		return 0
	}
	return -1
}

func (l *ledger) setNil(st *ldState, v ldVal, is bool) {
	if v.id != 0 && !v.nilv {
		st.facts[fmt.Sprintf("n#%d", v.id)] = is
	}
}

func (l *ledger) fork(st *ldState, n ast.Node, atom string, set func(*ldState, bool)) (t, f []*ldState) {
	if b, ok := st.facts[atom]; ok && atom != "" {
		if b {
			return []*ldState{st}, nil
		}
		return nil, []*ldState{st}
	}
	l.tick(n)
	a, b := st.clone(), st
	ln := l.line(n)
	a.path = append(a.path, fmt.Sprintf("%d:true", ln))
	b.path = append(b.path, fmt.Sprintf("%d:false", ln))
	if atom != "" {
		a.facts[atom], b.facts[atom] = true, false
	}
	if set != nil {
		set(a, true)
		set(b, false)
	}
	return []*ldState{a}, []*ldState{b}
}

func (l *ledger) cond(st *ldState, c *ldCtx, x ast.Expr) (t, f []*ldState) {
	x = ast.Unparen(x)
	if tv, ok := c.pkg.Info.Types[x]; ok && tv.Value != nil && tv.Value.Kind() == constant.Bool {
		if constant.BoolVal(tv.Value) {
			return []*ldState{st}, nil
		}
		return nil, []*ldState{st}
	}
	switch y := x.(type) {
	case *ast.UnaryExpr:
		if y.Op == token.NOT {
			f, t = l.cond(st, c, y.X)
			return
		}
	case *ast.BinaryExpr:
		switch y.Op {
		case token.LAND:
			a, b := l.cond(st, c, y.X)
			f = b
			for _, s := range a {
				p, q := l.cond(s, c, y.Y)
				t, f = append(t, p...), append(f, q...)
			}
			return
		case token.LOR:
			a, b := l.cond(st, c, y.X)
			t = a
			for _, s := range b {
				p, q := l.cond(s, c, y.Y)
				t, f = append(t, p...), append(f, q...)
			}
			return
		case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			for _, e1 := range l.eval(st, c, y.X) {
				for _, e2 := range l.eval(e1.st, c, y.Y) {
					p, q := l.compare(e2.st, x, y.Op, e1.v(), e2.v())
					t, f = append(t, p...), append(f, q...)
				}
			}
			return
		}
	}
	for _, e := range l.eval(st, c, x) {
		v := e.v()
		if v.cv != nil && v.cv.Kind() == constant.Bool {
			if constant.BoolVal(v.cv) {
				t = append(t, e.st)
			} else {
				f = append(f, e.st)
			}
			continue
		}
		atom := ""
		if v.id != 0 {
			atom = fmt.Sprintf("b#%d", v.id)
		}
		p, q := l.fork(e.st, x, atom, nil)
		t, f = append(t, p...), append(f, q...)
	}
	return
}

func (l *ledger) compare(st *ldState, n ast.Node, op token.Token, a, b ldVal) (t, f []*ldState) {
	if op == token.NEQ {
		f, t = l.compare(st, n, token.EQL, a, b)
		return
	}
	if a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
		if constant.Compare(a.cv, op, b.cv) {
			return []*ldState{st}, nil
		}
		return nil, []*ldState{st}
	}
	if op == token.EQL {
		if a.nilv {
			a, b = b, a
		}
		if b.nilv {
			switch l.nilness(st, a) {
			case 1:
				return []*ldState{st}, nil
			case 0:
				return nil, []*ldState{st}
			}
			return l.fork(st, n, fmt.Sprintf("n#%d", a.id), nil)
		}
		ka, kb := a.key(), b.key()
		if ka != "" && ka == kb {
			return []*ldState{st}, nil
		}
		if kb < ka {
			ka, kb = kb, ka
		}
		return l.fork(st, n, "="+ka+","+kb, func(s *ldState, eq bool) {
			if eq {
				if l.nilness(s, a) == 0 {
					l.setNil(s, b, false)
				}
				if l.nilness(s, b) == 0 {
					l.setNil(s, a, false)
				}
			}
		})
	}
	ka, kb := a.key(), b.key()
	if op == token.GTR || op == token.GEQ {
		ka, kb = kb, ka
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	atom := ""
	if ka != "" && kb != "" {
		atom = op.String() + ka + "," + kb
	}
	return l.fork(st, n, atom, nil)
}

// ---- values

func (l *ledger) zero(st *ldState, t types.Type, hint string) ldVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ldVal{cv: constant.MakeBool(false)}
		case u.Info()&types.IsInteger != 0:
			return ldVal{cv: constant.MakeInt64(0)}
		case u.Info()&types.IsString != 0:
			return ldVal{cv: constant.MakeString("")}
		}
		return l.freshVal(hint)
	case *types.Struct:
		v := l.freshVal(hint)
		l.fresh[v.id] = true
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); !isMutex(f.Type()) {
				if _, ok := f.Type().Underlying().(*types.Struct); !ok {
					st.heap[hk{v.id, f}] = l.zero(st, f.Type(), "")
				}
			}
		}
		return v
	case *types.Array:
		return l.freshVal(hint)
	}
	return ldVal{nilv: true}
}

func ev1(st *ldState, v ldVal) []ldEv { return []ldEv{{st, []ldVal{v}}} }

func (l *ledger) evalList(st *ldState, c *ldCtx, xs []ast.Expr) []ldEv {
	evs := []ldEv{{st, nil}}
	for _, x := range xs {
		var next []ldEv
		for _, e := range evs {
			for _, r := range l.eval(e.st, c, x) {
				vs := append(append([]ldVal{}, e.vs...), r.v())
				next = append(next, ldEv{r.st, vs})
			}
		}
		evs = next
	}
	return evs
}

// field reads field f of v, an object of type t or a pointer to it.
func (l *ledger) field(st *ldState, v ldVal, t types.Type, f *types.Var) ldVal {
	if isMutex(f.Type()) {
		if _, ok := f.Type().Underlying().(*types.Pointer); !ok {
			return ldVal{lock: &ldLock{v.id, typeName(t) + "." + f.Name()}}
		}
	}
	k := hk{v.id, f}
	if w, ok := st.heap[k]; ok && v.id != 0 {
		return w
	}
	n := l.names[v.id]
	if n == "" {
		n = typeName(t)
	}
	w := l.freshVal(n + "." + f.Name())
	if v.id != 0 {
		st.heap[k] = w
	}
	return w
}

// descend follows the fields of a selection.
func (l *ledger) descend(st *ldState, v ldVal, t types.Type, path []int) (ldVal, types.Type) {
	for _, i := range path {
		f := structUnder(t).Field(i)
		v = l.field(st, v, t, f)
		t = f.Type()
	}
	return v, t
}

func isErrType(t types.Type) bool { return t != nil && t.String() == "error" }

func (l *ledger) eval(st *ldState, c *ldCtx, x ast.Expr) []ldEv {
	x = ast.Unparen(x)
	if tv, ok := c.pkg.Info.Types[x]; ok {
		if tv.Value != nil {
			return ev1(st, ldVal{cv: tv.Value})
		}
		if tv.IsNil() {
			return ev1(st, ldVal{nilv: true})
		}
	}
	switch y := x.(type) {
	case *ast.Ident:
		o := c.pkg.Info.ObjectOf(y)
		if y.Name == "_" {
			return ev1(st, ldVal{})
		}
		if fn, ok := o.(*types.Func); ok {
			return ev1(st, ldVal{id: l.newID(""), clo: &ldClo{fn: fn, pkg: c.pkg}})
		}
		if v, ok := o.(*types.Var); ok {
			if isMutex(v.Type()) {
				if _, ptr := v.Type().Underlying().(*types.Pointer); !ptr {
					w, ok := st.vars[o]
					if !ok {
						w = l.freshVal(v.Name())
						st.vars[o] = w
					}
					return ev1(st, ldVal{lock: &ldLock{w.id, v.Name()}})
				}
			}
			if v.Parent() == v.Pkg().Scope() {
				r := l.freshVal(v.Name())
				if isErrType(v.Type()) {
					l.setNil(st, r, false)
				}
				return ev1(st, r)
			}
			if st.vol[o] {
				return ev1(st, l.freshVal(v.Name()))
			}
			if w, ok := st.vars[o]; ok {
				return ev1(st, w)
			}
			w := l.freshVal(v.Name())
			st.vars[o] = w
			return ev1(st, w)
		}
		return ev1(st, l.freshVal(y.Name))
	case *ast.StarExpr:
		return l.eval(st, c, y.X)
	case *ast.UnaryExpr:
		switch y.Op {
		case token.NOT:
			return l.boolOf(st, c, x)
		case token.AND:
			if id, ok := ast.Unparen(y.X).(*ast.Ident); ok {
				o := c.pkg.Info.ObjectOf(id)
				if o != nil && structUnder(o.Type()) == nil && !isMutex(o.Type()) {
					st.vol[o] = true
				}
			}
			evs := l.eval(st, c, y.X)
			for i := range evs {
				v := evs[i].v()
				if v.lock == nil {
					if v.id == 0 || v.cv != nil || v.nilv {
						v = l.freshVal("")
					}
					v = ldVal{id: v.id}
					l.setNil(evs[i].st, v, false)
				}
				evs[i].vs = []ldVal{v}
			}
			return evs
		}
		evs := l.eval(st, c, y.X)
		for i := range evs {
			evs[i].vs = []ldVal{l.freshVal("")}
		}
		return evs
	case *ast.BinaryExpr:
		switch y.Op {
		case token.LAND, token.LOR, token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
			return l.boolOf(st, c, x)
		}
		evs := l.evalList(st, c, []ast.Expr{y.X, y.Y})
		for i := range evs {
			evs[i].vs = []ldVal{l.freshVal("")}
		}
		return evs
	case *ast.CallExpr:
		return l.call(st, c, y)
	case *ast.FuncLit:
		return ev1(st, ldVal{id: l.newID(""), clo: &ldClo{lit: y, pkg: c.pkg, env: l.capture(st, c.pkg, y)}})
	case *ast.CompositeLit:
		return l.composite(st, c, y)
	case *ast.SelectorExpr:
		sl := c.pkg.Info.Selections[y]
		if sl == nil { // qualified identifier
			if fn, ok := c.pkg.Info.Uses[y.Sel].(*types.Func); ok {
				return ev1(st, ldVal{id: l.newID(""), clo: &ldClo{fn: fn, pkg: c.pkg}})
			}
			r := l.freshVal(y.Sel.Name)
			if isErrType(l.typ(c, x)) {
				l.setNil(st, r, false)
			}
			return ev1(st, r)
		}
		if sl.Kind() == types.MethodExpr {
			return ev1(st, l.freshVal(""))
		}
		evs := l.eval(st, c, y.X)
		for i := range evs {
			s := evs[i].st
			if sl.Kind() == types.MethodVal {
				v, t := l.descend(s, evs[i].v(), l.typ(c, y.X), sl.Index()[:len(sl.Index())-1])
				m := sl.Obj().(*types.Func)
				if isMutex(t) {
					k := v.lock
					if k == nil {
						k = &ldLock{v.id, "mutex"}
					}
					evs[i].vs = []ldVal{{id: l.newID(""), clo: &ldClo{op: m.Name(), lock: k, pkg: c.pkg}}}
				} else {
					evs[i].vs = []ldVal{{id: l.newID(""), clo: &ldClo{fn: m, recv: &v, pkg: c.pkg}}}
				}
				continue
			}
			v, _ := l.descend(s, evs[i].v(), l.typ(c, y.X), sl.Index())
			evs[i].vs = []ldVal{v}
		}
		return evs
	case *ast.IndexExpr:
		evs := l.evalList(st, c, []ast.Expr{y.X, y.Index})
		for i := range evs {
			evs[i].vs = []ldVal{l.freshVal("")}
		}
		return evs
	case *ast.SliceExpr:
		xs := []ast.Expr{y.X}
		for _, z := range []ast.Expr{y.Low, y.High, y.Max} {
			if z != nil {
				xs = append(xs, z)
			}
		}
		evs := l.evalList(st, c, xs)
		for i := range evs {
			evs[i].vs = []ldVal{l.freshVal("")}
		}
		return evs
	case *ast.TypeAssertExpr:
		evs := l.eval(st, c, y.X)
		for i := range evs {
			evs[i].vs = []ldVal{l.freshVal("")}
		}
		return evs
	case *ast.KeyValueExpr:
		return l.evalList(st, c, []ast.Expr{y.Value})
	}
	return ev1(st, l.freshVal(""))
}

func (l *ledger) boolOf(st *ldState, c *ldCtx, x ast.Expr) []ldEv {
	t, f := l.cond(st, c, x)
	var out []ldEv
	for _, s := range t {
		out = append(out, ldEv{s, []ldVal{{cv: constant.MakeBool(true)}}})
	}
	for _, s := range f {
		out = append(out, ldEv{s, []ldVal{{cv: constant.MakeBool(false)}}})
	}
	return out
}

func (l *ledger) composite(st *ldState, c *ldCtx, x *ast.CompositeLit) []ldEv {
	t := l.typ(c, x)
	su, isStruct := t.Underlying().(*types.Struct)
	var xs []ast.Expr
	var fs []*types.Var
	for i, el := range x.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			xs = append(xs, kv.Value)
			if isStruct {
				fs = append(fs, fieldNamed(t, kv.Key.(*ast.Ident).Name))
			}
			continue
		}
		xs = append(xs, el)
		if isStruct {
			fs = append(fs, su.Field(i))
		}
	}
	evs := l.evalList(st, c, xs)
	for i := range evs {
		s := evs[i].st
		var v ldVal
		if isStruct {
			v = l.zero(s, t, typeName(t))
			for j, f := range fs {
				w := evs[i].vs[j]
				if !l.protected(t, f.Name()) {
					l.escape(s, c, w, x)
				}
				s.heap[hk{v.id, f}] = w
			}
		} else {
			v = l.freshVal("")
			for _, w := range evs[i].vs {
				l.escape(s, c, w, x)
			}
		}
		l.setNil(s, v, false)
		evs[i].vs = []ldVal{v}
	}
	return evs
}

// escape: a function value that others may call at any time has to leave the ledger alone.
func (l *ledger) escape(st *ldState, c *ldCtx, v ldVal, n ast.Node) {
	if v.clo == nil {
		return
	}
	if v.clo.lit == nil {
		if v.clo.op != "" {
			l.oblige(st, "escape", "lock operation stored or passed as a function", n, false, v.clo.op+" may be called at any time")
		}
		if v.clo.fn != nil && l.touch(v.clo.fn) {
			l.neutral(v.clo.fn)
		}
		return
	}
	l.detached(st, c, v.clo, nil, "a function passed on to others leaves locks as they are", n)
}

// detached runs a function literal on its own: with an empty ledger, and anything may have happened before.
func (l *ledger) detached(st *ldState, c *ldCtx, clo *ldClo, args []ldVal, what string, n ast.Node) {
	if !l.touchNode(clo.pkg, clo.lit.Body) {
		return
	}
	for _, s := range l.stack {
		if s == clo.lit {
			return
		}
	}
	s := st.clone()
	s.led = map[string]int{}
	s.defers = nil
	s.path = append(s.path, fmt.Sprintf("func@%d", l.line(clo.lit)))
	l.havocVars(s, clo.pkg, clo.lit.Body)
	mods := map[*types.Var]bool{}
	l.bodyMods(clo.pkg, clo.lit.Body, mods)
	l.invalidate(s, mods)
	for _, e := range l.runLit(s, c, clo, args) {
		ok := len(e.st.led) == 0
		l.oblige(e.st, "exit", what, clo.lit, ok, "still holds "+l.ledName(e.st))
	}
}

func (l *ledger) bodyMods(p *Pkg, n ast.Node, out map[*types.Var]bool) {
	l.directMods(p, n, out, func(o *types.Func) {
		for f := range l.modsOf(o) {
			out[f] = true
		}
	})
}

// havocVars forgets the variables a piece of code assigns (those that exist already).
func (l *ledger) havocVars(st *ldState, p *Pkg, n ast.Node) {
	for _, o := range assigned(p, n) {
		if v, ok := st.vars[o]; ok {
			if v.clo != nil && v.clo.lit != nil && n.Pos() <= v.clo.lit.Pos() && v.clo.lit.End() <= n.End() {
				continue
			}
			if l.maps[v.id] {
				continue
			}
			st.vars[o] = l.freshVal(o.Name())
		}
	}
}

func assigned(p *Pkg, n ast.Node) []types.Object {
	var out []types.Object
	add := func(x ast.Expr) {
		if id, ok := ast.Unparen(x).(*ast.Ident); ok {
			if o := p.Info.Uses[id]; o != nil {
				out = append(out, o)
			}
			if o := p.Info.Defs[id]; o != nil {
				out = append(out, o)
			}
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, y := range x.Lhs {
				add(y)
			}
		case *ast.IncDecStmt:
			add(x.X)
		case *ast.RangeStmt:
			if x.Key != nil {
				add(x.Key)
			}
			if x.Value != nil {
				add(x.Value)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				add(x.X)
			}
		}
		return true
	})
	return out
}

// ---- locks

func (l *ledger) lockOp(st *ldState, n ast.Node, k ldLock, op string) []ldEv {
	mode := "W"
	if strings.HasPrefix(op, "R") || strings.HasPrefix(op, "TryR") {
		mode = "R"
	}
	tok := tokOf(mode, k)
	label := op + " " + k.cls
	switch op {
	case "Lock", "RLock":
		l.acquire(st, n, k, mode, "")
		st.add(tok, 1)
		return ev1(st, ldVal{})
	case "TryLock", "TryRLock":
		a := st.clone()
		a.add(tok, 1)
		return []ldEv{{a, []ldVal{{cv: constant.MakeBool(true)}}}, {st, []ldVal{{cv: constant.MakeBool(false)}}}}
	case "Unlock", "RUnlock":
		var out []ldEv
		for _, s := range l.want(st, tok, k) {
			ok := s.led[tok] > 0
			l.oblige(s, "release", label, n, ok, l.tokName(tok)+" is not held here; held: "+l.ledName(s))
			if ok {
				s.add(tok, -1)
			}
			out = append(out, ldEv{s, []ldVal{{}}})
		}
		return out
	}
	return ev1(st, l.freshVal(""))
}

// acquire checks that the lock is not held already by the same operation.
func (l *ledger) acquire(st *ldState, n ast.Node, k ldLock, mode, via string) {
	if p, ok := l.par[k.owner]; ok && l.quiet == 0 {
		l.cur.acq[ldAcq{p, k.cls, mode}] = true
	}
	held := func(m string) bool {
		tok := tokOf(m, k)
		if st.led[tok] > 0 {
			return true
		}
		for _, fr := range st.defers {
			for _, d := range fr {
				if d.tok == tok {
					return true
				}
			}
		}
		return false
	}
	bad := held("W") || (mode == "W" && held("R"))
	l.oblige(st, "acquire", k.cls+via, n, !bad, "the operation waits for "+l.tokName(tokOf(mode, k))+", which it holds itself; held: "+l.ledName(st))
}

// want opens a folded debt that contains the lock.
func (l *ledger) want(st *ldState, tok string, k ldLock) []*ldState {
	if st.led[tok] > 0 {
		return []*ldState{st}
	}
	for t := range st.led {
		if !strings.HasPrefix(t, "D:") {
			continue
		}
		var id int
		fmt.Sscanf(t, "D:%d", &id)
		d := l.debts[id]
		if d == nil || d.pred == "" {
			continue
		}
		p := l.sp.preds[d.pred]
		for _, cl := range p.clauses {
			if i := indexOf(p.params, cl.name); d.args[i] == k.owner && strings.HasSuffix(k.cls, "."+cl.field) {
				st.add(t, -1)
				return l.unfold(st, p, d, k.cls[:strings.Index(k.cls, ".")])
			}
		}
	}
	return []*ldState{st}
}

func indexOf(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return 0
}

// unfold turns a debt into the locks it stands for.
func (l *ledger) unfold(st *ldState, p *ldPred, d *ldDebt, owner string) []*ldState {
	sts := []*ldState{st}
	for _, cl := range p.clauses {
		var next []*ldState
		tok := tokOf(cl.mode, ldLock{d.args[indexOf(p.params, cl.name)], owner + "." + cl.field})
		for _, s := range sts {
			if cl.condName == "" {
				s.add(tok, 1)
				next = append(next, s)
				continue
			}
			v := d.cond[cl.condName+"."+cl.condField]
			t, f := l.boolVal(s, v)
			if cl.neg {
				t, f = f, t
			}
			for _, x := range t {
				x.add(tok, 1)
			}
			next = append(append(next, t...), f...)
		}
		sts = next
	}
	return sts
}

func (l *ledger) boolVal(st *ldState, v ldVal) (t, f []*ldState) {
	if v.cv != nil && v.cv.Kind() == constant.Bool {
		if constant.BoolVal(v.cv) {
			return []*ldState{st}, nil
		}
		return nil, []*ldState{st}
	}
	atom := fmt.Sprintf("b#%d", v.id)
	if b, ok := st.facts[atom]; ok {
		if b {
			return []*ldState{st}, nil
		}
		return nil, []*ldState{st}
	}
	a := st.clone()
	a.facts[atom], st.facts[atom] = true, false
	return []*ldState{a}, []*ldState{st}
}

// ---- calls

func (l *ledger) call(st *ldState, c *ldCtx, x *ast.CallExpr) []ldEv {
	l.tick(x)
	fun := ast.Unparen(x.Fun)
	if tv, ok := c.pkg.Info.Types[fun]; ok && tv.IsType() {
		evs := l.eval(st, c, x.Args[0])
		for i := range evs {
			v := evs[i].v()
			if v.cv != nil || (v.id == 0 && v.lock == nil && !v.nilv) {
				v = l.freshVal("")
			}
			evs[i].vs = []ldVal{v}
		}
		return evs
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := c.pkg.Info.Uses[id].(*types.Builtin); ok {
			return l.builtin(st, c, x, b.Name())
		}
	}
	// the function value and its receiver, then the arguments
	var out []ldEv
	for _, fe := range l.eval(st, c, fun) {
		f := fe.v()
		if f.clo != nil && f.clo.op != "" {
			out = append(out, l.lockOp(fe.st, x, *f.clo.lock, f.clo.op)...)
			continue
		}
		for _, ae := range l.callArgs(fe.st, c, x) {
			out = append(out, l.apply(ae.st, c, x, f, ae.vs, x.Fun)...)
		}
	}
	return l.mergeEv(out)
}

func (l *ledger) callArgs(st *ldState, c *ldCtx, x *ast.CallExpr) []ldEv {
	if len(x.Args) == 1 {
		if tp, ok := l.typ(c, x.Args[0]).(*types.Tuple); ok {
			evs := l.eval(st, c, x.Args[0])
			for i := range evs {
				for len(evs[i].vs) < tp.Len() {
					evs[i].vs = append(evs[i].vs, l.freshVal(""))
				}
			}
			return evs
		}
	}
	return l.evalList(st, c, x.Args)
}

func (l *ledger) results(sig *types.Signature) []ldVal {
	vs := make([]ldVal, sig.Results().Len())
	for i := range vs {
		vs[i] = l.freshVal(sig.Results().At(i).Name())
	}
	return vs
}

// apply calls a function value.
func (l *ledger) apply(st *ldState, c *ldCtx, n ast.Node, f ldVal, args []ldVal, where ast.Expr) []ldEv {
	if d := l.debts[f.id]; d != nil {
		tok := fmt.Sprintf("D:%d", f.id)
		ok := st.led[tok] > 0
		l.oblige(st, "release", d.hint, n, ok, d.hint+" is called again, or was handed over; held: "+l.ledName(st))
		if ok {
			st.add(tok, -1)
		}
		return ev1(st, ldVal{})
	}
	if f.clo == nil {
		var sig *types.Signature
		if where != nil {
			sig, _ = l.typ(c, where).Underlying().(*types.Signature)
			if s, ok := ast.Unparen(where).(*ast.SelectorExpr); ok {
				if sl := c.pkg.Info.Selections[s]; sl != nil && l.protected(sl.Recv(), s.Sel.Name) {
					l.oblige(st, "release", typeName(sl.Recv())+"."+s.Sel.Name, n, false, "the function does not own this lock; held: "+l.ledName(st))
				}
			}
		}
		for _, a := range args {
			l.escape(st, c, a, n)
		}
		l.invalidateAll(st)
		l.cur.assume["function values of unknown origin do not lock or unlock"] = true
		if sig == nil {
			return ev1(st, l.freshVal(""))
		}
		return []ldEv{{st, l.results(sig)}}
	}
	if f.clo.op != "" {
		return l.lockOp(st, n, *f.clo.lock, f.clo.op)
	}
	if f.clo.lit != nil {
		for _, s := range l.stack {
			if s == f.clo.lit {
				// a recursive call: the function itself is checked to leave the ledger as it was
				sig := f.clo.pkg.Info.Types[f.clo.lit].Type.(*types.Signature)
				l.invalidateAll(st)
				return []ldEv{{st, l.results(sig)}}
			}
		}
		if recursive(f.clo, c) {
			return l.recLit(st, c, f.clo, args, n)
		}
		return l.runLit(st, c, f.clo, args)
	}
	return l.callFunc(st, c, n, f.clo.fn, f.clo.recv, args)
}

// recursive: does the literal call the variable it is assigned to? (found by its name among the called identifiers)
func recursive(clo *ldClo, c *ldCtx) bool {
	rec := false
	ast.Inspect(clo.lit.Body, func(x ast.Node) bool {
		if ce, ok := x.(*ast.CallExpr); ok {
			if id, ok := ce.Fun.(*ast.Ident); ok {
				if v, ok := clo.pkg.Info.Uses[id].(*types.Var); ok && v.Pos() < clo.lit.Pos() && ldLitVar[clo.lit] == types.Object(v) {
					rec = true
				}
			}
		}
		return true
	})
	return rec
}

var ldLitVar = map[*ast.FuncLit]types.Object{}

// recLit calls a recursive function literal: by its contract, which is that it leaves the ledger as it was.
func (l *ledger) recLit(st *ldState, c *ldCtx, clo *ldClo, args []ldVal, n ast.Node) []ldEv {
	g := st.clone()
	for id := range l.maps {
		g.facts[fmt.Sprintf("det#%d", id)] = true
	}
	l.detached(g, c, clo, nil, "a recursive function literal leaves locks as they are", n)
	for id := range l.maps {
		if !l.isDetached(st, ldVal{id: id}) && l.storesTo(st, c, clo.lit, id, 0) {
			st.led[fmt.Sprintf("M:%d", id)] = 1
		}
	}
	mods := map[*types.Var]bool{}
	l.bodyMods(clo.pkg, clo.lit.Body, mods)
	l.invalidate(st, mods)
	l.havocVars(st, clo.pkg, clo.lit.Body)
	return []ldEv{{st, l.results(clo.pkg.Info.Types[clo.lit].Type.(*types.Signature))}}
}

// capture records the variables of enclosing calls a literal refers to.
func (l *ledger) capture(st *ldState, p *Pkg, lit *ast.FuncLit) map[types.Object]ldCap {
	env := map[types.Object]ldCap{}
	ast.Inspect(lit.Body, func(x ast.Node) bool {
		id, ok := x.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := p.Info.Uses[id].(*types.Var)
		if !ok || o.IsField() || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || (lit.Pos() <= o.Pos() && o.Pos() <= lit.End()) {
			return true
		}
		if _, ok := env[o]; ok {
			return true
		}
		for i := len(l.stack) - 1; i >= 0; i-- {
			if n := l.stack[i]; n.Pos() <= o.Pos() && o.Pos() <= n.End() {
				w, known := st.vars[o]
				if !known {
					break
				}
				k := 0
				for _, a := range assigned(p, n) {
					if a == o {
						k++
					}
				}
				env[o] = ldCap{w, n, st.runs[n], k <= 1}
				break
			}
		}
		return true
	})
	return env
}

func (l *ledger) runLit(st *ldState, c *ldCtx, clo *ldClo, args []ldVal) []ldEv {
	for o, cp := range clo.env {
		if st.runs[cp.frame] > cp.run { // the enclosing call is over, and its variables have been used by another one
			if cp.once {
				st.vars[o] = cp.val
			} else {
				st.vars[o] = l.freshVal(o.Name())
			}
		}
	}
	sig := clo.pkg.Info.Types[clo.lit].Type.(*types.Signature)
	return l.runBody(st, clo.pkg, sig, nil, nil, clo.lit.Type, clo.lit.Body, clo.lit, args)
}

// runBody executes a function body in a new frame.
func (l *ledger) runBody(st *ldState, p *Pkg, sig *types.Signature, recv *ast.FieldList, rv *ldVal, ft *ast.FuncType, body *ast.BlockStmt, node ast.Node, args []ldVal) []ldEv {
	l.stack = append(l.stack, node)
	defer func() { l.stack = l.stack[:len(l.stack)-1] }()
	st.runs[node]++
	if recv != nil && len(recv.List) > 0 && len(recv.List[0].Names) > 0 && rv != nil {
		if o := p.Info.Defs[recv.List[0].Names[0]]; o != nil {
			st.vars[o] = *rv
			delete(st.vol, o)
		}
	}
	i := 0
	for _, f := range ft.Params.List {
		for _, n := range f.Names {
			v := ldVal{}
			if i < len(args) {
				v = args[i]
			} else {
				v = l.freshVal(n.Name)
			}
			if o := p.Info.Defs[n]; o != nil {
				if sig.Variadic() && i == sig.Params().Len()-1 {
					v = l.freshVal(n.Name)
				}
				st.vars[o] = v
				delete(st.vol, o)
			}
			i++
		}
		if len(f.Names) == 0 {
			i++
		}
	}
	c := &ldCtx{pkg: p, sig: sig}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o, _ := p.Info.Defs[n].(*types.Var)
				c.named = append(c.named, o)
				if o != nil {
					st.vars[o] = l.zero(st, o.Type(), n.Name)
				}
			}
		}
	}
	st.defers = append(st.defers, nil)
	depth := len(st.defers)
	var out []ldEv
	for _, o := range l.block(st, c, body.List) {
		if o.kind == "dead" {
			continue
		}
		if o.kind == "" {
			o.vs = nil
			for _, n := range c.named {
				if n != nil {
					o.vs = append(o.vs, o.st.vars[n])
				} else {
					o.vs = append(o.vs, l.freshVal(""))
				}
			}
		}
		out = append(out, l.runDefers(o.st, c, o.vs, depth)...)
	}
	return l.mergeEv(out)
}

func (l *ledger) runDefers(st *ldState, c *ldCtx, vs []ldVal, depth int) []ldEv {
	if len(st.defers) != depth {
		panic(unsupported{"defer frames out of step"})
	}
	top := st.defers[depth-1]
	if len(top) == 0 {
		st.defers = st.defers[:depth-1]
		return []ldEv{{st, vs}}
	}
	d := top[len(top)-1]
	st.defers[depth-1] = top[:len(top)-1]
	if d.tok != "" { // what was set aside is released now
		return l.runDefers(st, c, vs, depth)
	}
	var out []ldEv
	for _, e := range l.apply(st, c, d.call, *d.clo, d.args, d.call.Fun) {
		out = append(out, l.runDefers(e.st, c, l.namedNow(e.st, c, vs), depth)...)
	}
	return out
}

func (l *ledger) namedNow(st *ldState, c *ldCtx, vs []ldVal) []ldVal {
	if len(c.named) == 0 || len(c.named) != len(vs) {
		return vs
	}
	return vs
}

func (l *ledger) callFunc(st *ldState, c *ldCtx, n ast.Node, o *types.Func, recv *ldVal, args []ldVal) []ldEv {
	f := l.get(o)
	sig := o.Type().(*types.Signature)
	if f == nil {
		// outside the package
		if o.Pkg() != nil && o.Pkg().Path() == "sync" && recv != nil && (o.Name() == "Lock" || o.Name() == "Unlock") {
			return l.lockOp(st, n, ldLock{recv.id, "Locker"}, o.Name())
		}
		for _, a := range args {
			l.escape(st, c, a, n)
		}
		rs := l.results(sig)
		if k := funcKey(o); k == "errors.New" || k == "fmt.Errorf" {
			l.setNil(st, rs[0], false)
		}
		return []ldEv{{st, rs}}
	}
	key := l.key(o)
	var all []ldVal
	if sig.Recv() != nil {
		if recv != nil {
			all = append(all, *recv)
		} else {
			all = append(all, ldVal{})
		}
	}
	all = append(all, args...)
	if ct := l.sp.contracts[key]; ct != nil {
		return l.byContract(st, c, n, f, ct, all)
	}
	opaque := func() []ldEv {
		for _, a := range args {
			l.escape(st, c, a, n)
		}
		l.invalidate(st, l.modsOf(o))
		return []ldEv{{st, l.results(sig)}}
	}
	if !l.sp.inline[key] {
		if !l.touch(o) && !hasFuncParam(sig) {
			return opaque()
		}
		if why := l.sp.skip[key]; why != "" {
			l.cur.assume[key+" leaves locks as they are ("+why+")"] = true
			return opaque()
		}
		if !hasFuncParam(sig) && l.neutral(o) && !returnsFunc(sig) {
			for a := range f.acq {
				if a.param < len(all) && all[a.param].id != 0 {
					l.acquire(st, n, ldLock{all[a.param].id, a.cls}, a.mode, " (in "+key+")")
				}
			}
			return opaque()
		}
	}
	for _, s := range l.stack {
		if s == ast.Node(f.fi.Decl) {
			l.unsup(n, "recursive function %s changes the locks held", key)
		}
	}
	if len(l.stack) > 14 {
		l.unsup(n, "calls nested too deeply at %s", key)
	}
	l.cur.inlined[key] = true
	return l.runBody(st, f.fi.Pkg, sig, f.fi.Decl.Recv, recv, f.fi.Decl.Type, f.fi.Decl.Body, f.fi.Decl, args)
}

func hasFuncParam(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// waited: is a function running whose channels others wait for?
func (l *ledger) waited() bool {
	for _, n := range l.stack {
		if d, ok := n.(*ast.FuncDecl); ok {
			for _, p := range l.prog.Pkgs {
				if o, ok := p.Info.Defs[d.Name].(*types.Func); ok && l.sp.waits[l.key(o)] {
					return true
				}
			}
		}
	}
	return false
}

func returnsFunc(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (l *ledger) builtin(st *ldState, c *ldCtx, x *ast.CallExpr, name string) []ldEv {
	if name == "panic" {
		evs := l.evalList(st, c, x.Args)
		_ = evs
		return nil // the path ends
	}
	var xs []ast.Expr
	for _, a := range x.Args {
		if tv, ok := c.pkg.Info.Types[a]; ok && tv.IsType() {
			continue
		}
		xs = append(xs, a)
	}
	evs := l.evalList(st, c, xs)
	for i := range evs {
		v := l.freshVal("")
		switch name {
		case "make", "new":
			l.setNil(evs[i].st, v, false)
			if t := l.typ(c, x); l.ownerMap(t) {
				l.maps[v.id] = true
				evs[i].st.led[fmt.Sprintf("M:%d", v.id)] = 1
			}
			if name == "new" {
				l.fresh[v.id] = true
			}
			if t := l.typ(c, x).String(); t == "chan struct{}" && l.waited() {
				l.chans[v.id] = true
				evs[i].st.add(fmt.Sprintf("C:%d", v.id), 1)
				l.names[v.id] = "made at " + l.pos(x)
			}
		case "close":
			if w := evs[i].v(); l.chans[w.id] {
				tok := fmt.Sprintf("C:%d", w.id)
				ok := evs[i].st.led[tok] > 0
				l.oblige(evs[i].st, "release", "close of a channel others wait for", x, ok, "it was closed before")
				if ok {
					evs[i].st.add(tok, -1)
				}
			}
		case "append":
			for _, a := range evs[i].vs[1:] {
				l.escape(evs[i].st, c, a, x)
			}
		}
		evs[i].vs = []ldVal{v}
	}
	return evs
}

// byContract replaces a call by the callee's ownership contract.
func (l *ledger) byContract(st *ldState, c *ldCtx, n ast.Node, f *ldFunc, ct *ldContract, all []ldVal) []ldEv {
	sts := []*ldState{st}
	bind := map[string]ldVal{}
	types_ := map[string]types.Type{}
	l.contractTypes(f, ct, types_)
	for i, p := range ct.params {
		if i < len(all) {
			bind[p] = all[i]
		}
	}
	for _, a := range all {
		l.escape(st, c, a, n)
	}
	for _, g := range ct.takes {
		var next []*ldState
		for _, s := range sts {
			next = append(next, l.take(s, c, n, ct.key, g, bind, types_)...)
		}
		sts = next
	}
	mods := l.modsOf(f.fi.Obj)
	sig := f.fi.Obj.Type().(*types.Signature)
	var out []ldEv
	for i, s := range sts {
		_ = i
		l.invalidate(s, mods)
		for j, o := range ct.outs {
			t := s
			if j < len(ct.outs)-1 {
				t = s.clone()
			}
			rs := l.results(sig)
			b := map[string]ldVal{}
			for k, v := range bind {
				b[k] = v
			}
			for k, r := range ct.results {
				if k < len(rs) {
					b[r] = rs[k]
				}
			}
			set := func(q [2]string) {
				if q[0] != "" {
					v := b[q[0]]
					if q[1] == "nil" {
						for k, r := range ct.results {
							if r == q[0] {
								rs[k] = ldVal{nilv: true}
								b[r] = rs[k]
							}
						}
					} else {
						l.setNil(t, v, false)
					}
				}
			}
			set(o.cond)
			for _, q := range o.facts {
				set(q)
			}
			if len(ct.outs) > 1 {
				t.path = append(t.path, fmt.Sprintf("%d:%s %s %s", l.line(n), ct.key, o.cond[0], o.cond[1]))
			}
			for _, g := range o.gives {
				obj := b[g.name]
				l.fresh[obj.id] = true
				fld := fieldNamed(types_[g.name], g.field)
				u := ldVal{id: l.newID("")}
				d := &ldDebt{pred: g.pred, hint: "unlock of what " + ct.key + " locked at " + l.pos(n), cond: map[string]ldVal{}}
				if p := l.sp.preds[g.pred]; p != nil {
					for _, a := range g.args {
						d.args = append(d.args, b[a].id)
					}
					for _, cl := range p.clauses {
						if cl.condName != "" {
							an := g.args[indexOf(p.params, cl.condName)]
							d.cond[cl.condName+"."+cl.condField] = l.field(t, b[an], types_[an], fieldNamed(types_[an], cl.condField))
						}
					}
				}
				l.debts[u.id] = d
				t.heap[hk{obj.id, fld}] = u
				t.add(fmt.Sprintf("D:%d", u.id), 1)
			}
			out = append(out, ldEv{t, rs})
		}
	}
	return out
}

func (l *ledger) contractTypes(f *ldFunc, ct *ldContract, m map[string]types.Type) {
	sig := f.fi.Obj.Type().(*types.Signature)
	i := 0
	if sig.Recv() != nil {
		m[ct.params[0]] = sig.Recv().Type()
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		if i+j < len(ct.params) {
			m[ct.params[i+j]] = sig.Params().At(j).Type()
		}
	}
	for j := 0; j < sig.Results().Len() && j < len(ct.results); j++ {
		m[ct.results[j]] = sig.Results().At(j).Type()
	}
}

// take: the callee takes over an unlock function the caller owns.
func (l *ledger) take(st *ldState, c *ldCtx, n ast.Node, who string, g ldGive, bind map[string]ldVal, tm map[string]types.Type) []*ldState {
	obj := bind[g.name]
	sts := []*ldState{st}
	var skip []*ldState
	if g.cond[0] != "" {
		t, f := l.compare(st, n, token.EQL, bind[g.cond[0]], ldVal{nilv: true})
		if g.cond[1] == "nil" {
			sts, skip = t, f
		} else {
			sts, skip = f, t
		}
	}
	var out []*ldState
	for _, s := range sts {
		u := l.field(s, obj, tm[g.name], fieldNamed(tm[g.name], g.field))
		label := who + " takes " + g.name + "." + g.field
		out = append(out, l.surrender(s, c, n, "takes", label, u, g, bind, tm, nil)...)
	}
	return append(out, skip...)
}

// surrender gives up the unlock function u: its debt, or the locks it would release.
func (l *ledger) surrender(st *ldState, c *ldCtx, n ast.Node, kind, label string, u ldVal, g ldGive, bind map[string]ldVal, tm map[string]types.Type, at ast.Node) []*ldState {
	if d := l.debts[u.id]; d != nil {
		tok := fmt.Sprintf("D:%d", u.id)
		ok := st.led[tok] > 0
		why := "its unlock function was called or handed over before; held: " + l.ledName(st)
		if ok && g.pred != "" {
			ok = d.pred == g.pred
			for i, a := range g.args {
				if ok && d.args[i] != bind[a].id && !(tm[a] != nil && l.sameObj(st, u, bind[a], g, tm)) {
					ok, why = false, "the locks belong to another "+typeName(tm[a])
				}
			}
		}
		l.oblige(st, kind, label, n, ok, why)
		if ok || st.led[tok] > 0 {
			st.add(tok, -1)
		}
		return []*ldState{st}
	}
	if u.clo == nil {
		l.oblige(st, kind, label, n, false, "the function does not own these locks; held: "+l.ledName(st))
		return []*ldState{st}
	}
	// a function made here: run it on the locks that are held
	if p := l.sp.preds[g.pred]; p != nil {
		d := &ldDebt{pred: g.pred, cond: map[string]ldVal{}}
		owner := ""
		for _, a := range g.args {
			d.args = append(d.args, bind[a].id)
		}
		owner = typeName(tm[g.args[0]])
		for _, cl := range p.clauses {
			if cl.condName != "" {
				an := g.args[indexOf(p.params, cl.condName)]
				d.cond[cl.condName+"."+cl.condField] = l.field(st, bind[an], tm[an], fieldNamed(tm[an], cl.condField))
			}
		}
		base := st.clone()
		base.led = map[string]int{}
		base.defers = nil
		var out []*ldState
		for _, s := range l.unfold(base, p, d, owner) {
			// 1. the function releases exactly the locks of the predicate
			full := st.clone()
			for k, v := range s.facts {
				full.facts[k] = v
			}
			need := s.led
			run := s.clone()
			for _, e := range l.apply(run, c, n, u, nil, nil) {
				l.oblige(e.st, kind, label+": releases exactly these locks", n, len(e.st.led) == 0, "after the unlock function, still held: "+l.ledName(e.st))
			}
			// 2. those locks are held
			sts := []*ldState{full}
			for tok, k := range need {
				var next []*ldState
				for _, x := range sts {
					for _, y := range l.want(x, tok, tokLock(tok)) {
						ok := y.led[tok] >= k
						l.oblige(y, kind, label+": "+tok[:strings.LastIndex(tok, "@")], n, ok, l.tokName(tok)+" is not held; held: "+l.ledName(y))
						if ok {
							y.add(tok, -k)
						}
						next = append(next, y)
					}
				}
				sts = next
			}
			out = append(out, sts...)
		}
		return out
	}
	var out []*ldState
	for _, e := range l.apply(st, c, n, u, nil, nil) {
		out = append(out, e.st)
	}
	return out
}

func tokLock(tok string) ldLock {
	i := strings.LastIndex(tok, "@")
	var id int
	fmt.Sscanf(tok[i+1:], "%d", &id)
	return ldLock{id, tok[2:i]}
}

// sameObj: the debt's own segments object may be known under another identity (a contract returned the one it was given).
func (l *ledger) sameObj(st *ldState, u, obj ldVal, g ldGive, tm map[string]types.Type) bool {
	f := fieldNamed(tm[g.name], g.field)
	if f == nil {
		return false
	}
	w, ok := st.heap[hk{obj.id, f}]
	return ok && w.id == u.id
}

// neutral decides whether a function leaves the ledger as it found it.
func (l *ledger) neutral(o *types.Func) bool {
	f := l.get(o)
	switch f.state {
	case 1: // recursion: assumed, and checked by the run in progress
		return true
	case 2:
		return true
	case 3:
		return false
	}
	l.verify(f, nil)
	return f.state == 2
}

// verify runs one function against its contract, or against "leaves the ledger as it is".
func (l *ledger) verify(f *ldFunc, ct *ldContract) {
	if f.state != 0 {
		return
	}
	f.state = 1
	sv := *l
	l.cur, l.par, l.stack, l.quiet, l.steps = f, map[int]int{}, nil, 0, 0
	defer func() {
		l.cur, l.par, l.stack, l.quiet, l.steps = sv.cur, sv.par, sv.stack, sv.quiet, sv.steps
		f.state = 2
		for _, o := range f.obls {
			if !o.ok {
				f.state = 3
			}
		}
		if f.err != "" {
			f.state = 3
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				f.err = u.msg
				return
			}
			panic(r)
		}
	}()
	st := &ldState{vars: map[types.Object]ldVal{}, heap: map[hk]ldVal{}, facts: map[string]bool{}, led: map[string]int{}, vol: map[types.Object]bool{}, runs: map[ast.Node]int{}}
	d := f.fi.Decl
	sig := f.fi.Obj.Type().(*types.Signature)
	var recv *ldVal
	var all []ldVal
	if sig.Recv() != nil {
		nm := sig.Recv().Name()
		v := l.freshVal(nm)
		recv = &v
		l.par[v.id] = 0
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			l.setNil(st, v, false)
		}
		all = append(all, v)
	}
	var args []ldVal
	for i := 0; i < sig.Params().Len(); i++ {
		v := l.freshVal(sig.Params().At(i).Name())
		l.par[v.id] = len(all)
		args = append(args, v)
		all = append(all, v)
	}
	sts := []*ldState{st}
	bind := map[string]ldVal{}
	tm := map[string]types.Type{}
	c := &ldCtx{pkg: f.fi.Pkg, sig: sig}
	if ct != nil {
		if len(ct.params) != len(all) || len(ct.results) != sig.Results().Len() {
			f.err = "the contract does not fit the function's signature"
			return
		}
		l.contractTypes(f, ct, tm)
		for i, p := range ct.params {
			bind[p] = all[i]
		}
		for _, g := range ct.takes {
			var next []*ldState
			for _, s := range sts {
				on := []*ldState{s}
				if g.cond[0] != "" {
					t, e := l.compare(s, d, token.EQL, bind[g.cond[0]], ldVal{nilv: true})
					if g.cond[1] == "nil" {
						on, next = t, append(next, e...)
					} else {
						on, next = e, append(next, t...)
					}
				}
				for _, s := range on {
					u := ldVal{id: l.newID("")}
					dd := &ldDebt{pred: g.pred, hint: "unlock of " + g.name, cond: map[string]ldVal{}}
					if p := l.sp.preds[g.pred]; p != nil {
						for _, a := range g.args {
							dd.args = append(dd.args, bind[a].id)
						}
						for _, cl := range p.clauses {
							if cl.condName != "" {
								an := g.args[indexOf(p.params, cl.condName)]
								dd.cond[cl.condName+"."+cl.condField] = l.field(s, bind[an], tm[an], fieldNamed(tm[an], cl.condField))
							}
						}
					}
					l.debts[u.id] = dd
					s.heap[hk{bind[g.name].id, fieldNamed(tm[g.name], g.field)}] = u
					s.add(fmt.Sprintf("D:%d", u.id), 1)
					next = append(next, s)
				}
			}
			sts = next
		}
	}
	for _, s := range sts {
		for _, e := range l.runBody(s, f.fi.Pkg, sig, d.Recv, recv, d.Type, d.Body, d, args) {
			f.npaths++
			if ct == nil {
				l.oblige(e.st, "exit", "every lock is released", d, len(e.st.led) == 0, "returns holding "+l.ledName(e.st))
				continue
			}
			l.exit(e.st, c, f, ct, bind, tm, e.vs)
		}
	}
	if f.npaths == 0 {
		f.err = "no path returns"
	}
}

func (l *ledger) exit(st *ldState, c *ldCtx, f *ldFunc, ct *ldContract, bind map[string]ldVal, tm map[string]types.Type, vs []ldVal) {
	b := map[string]ldVal{}
	for k, v := range bind {
		b[k] = v
	}
	for i, r := range ct.results {
		if i < len(vs) {
			b[r] = vs[i]
		}
	}
	d := f.fi.Decl
	holds := func(s *ldState, q [2]string) (yes, no []*ldState) {
		if q[0] == "" {
			return []*ldState{s}, nil
		}
		t, e := l.compare(s, d, token.EQL, b[q[0]], ldVal{nilv: true})
		if q[1] == "nil" {
			return t, e
		}
		return e, t
	}
	rest := []*ldState{st}
	for i, o := range ct.outs {
		var next []*ldState
		for _, s := range rest {
			yes, no := holds(s, o.cond)
			next = append(next, no...)
			for _, s := range yes {
				for _, q := range o.facts {
					ok := l.nilness(s, b[q[0]]) == map[string]int{"nil": 1, "nonnil": 0}[q[1]]
					l.oblige(s, "result", fmt.Sprintf("outcome %d: %s is %s", i, q[0], q[1]), d, ok, "not so")
				}
				sts := []*ldState{s}
				for _, g := range o.gives {
					var n2 []*ldState
					for _, s := range sts {
						u := l.field(s, b[g.name], tm[g.name], fieldNamed(tm[g.name], g.field))
						n2 = append(n2, l.surrender(s, c, d, "gives", g.name+"."+g.field, u, g, b, tm, d)...)
					}
					sts = n2
				}
				for _, s := range sts {
					l.oblige(s, "exit", "every other lock is released", d, len(s.led) == 0, "returns holding "+l.ledName(s))
				}
			}
		}
		rest = next
	}
	for _, s := range rest {
		l.oblige(s, "result", "some outcome applies", d, false, "no outcome of the contract fits")
	}
}
