package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
)

// The ledger verifier: contracts about who owns which lock.
//
// Every function is executed symbolically with a ledger of the locks it holds (tokens) and of the unlock functions
// it has to call (debts). Locking adds a token, unlocking consumes one; a call of a function with an ownership
// contract moves tokens and debts as that contract says; every other function has to leave the ledger as it found it.
// Loops are cut: an iteration must leave the ledger as at the head. Goroutines start with an empty ledger and end with one.

type ldVal struct {
	id   int
	cv   constant.Value
	nilv bool
	clo  *ldClo
	lock *ldLock
}

type ldLock struct {
	owner int
	cls   string
}

type ldClo struct {
	lit  *ast.FuncLit
	pkg  *Pkg
	op   string // lock operation of a method value
	lock *ldLock
	fn   *types.Func
	recv *ldVal
	env  map[types.Object]ldCap // what a literal captures
}

type ldCap struct {
	val   ldVal
	frame ast.Node
	run   int
	once  bool // assigned only where it is declared
}

type hk struct {
	id int
	f  *types.Var
}

type ldDefer struct {
	tok  string // a token or debt set aside for the deferred call
	n    int
	call *ast.CallExpr
	clo  *ldVal
	args []ldVal
}

type ldState struct {
	vars   map[types.Object]ldVal
	heap   map[hk]ldVal
	facts  map[string]bool
	led    map[string]int
	defers [][]ldDefer
	vol    map[types.Object]bool
	runs   map[ast.Node]int // how often each function body was entered
	path   []string
}

func (s *ldState) clone() *ldState {
	n := &ldState{vars: make(map[types.Object]ldVal, len(s.vars)), heap: make(map[hk]ldVal, len(s.heap)), facts: make(map[string]bool, len(s.facts)), led: make(map[string]int, len(s.led)), vol: make(map[types.Object]bool, len(s.vol)), runs: make(map[ast.Node]int, len(s.runs))}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.led {
		n.led[k] = v
	}
	for k, v := range s.vol {
		n.vol[k] = v
	}
	for k, v := range s.runs {
		n.runs[k] = v
	}
	n.defers = make([][]ldDefer, len(s.defers))
	for i, d := range s.defers {
		n.defers[i] = append([]ldDefer{}, d...)
	}
	n.path = append([]string{}, s.path...)
	return n
}

func (s *ldState) add(tok string, n int) {
	if s.led[tok]+n == 0 {
		delete(s.led, tok)
	} else {
		s.led[tok] += n
	}
}

func (s *ldState) sig() string {
	var xs []string
	for k, n := range s.led {
		xs = append(xs, fmt.Sprintf("%s=%d", k, n))
	}
	return strings.Join(s.tail(xs), ";")
}

// mergeKey: paths are merged only if they agree on the locks held and on the unlock functions made so far.
func (s *ldState) mergeKey() string {
	var xs []string
	for k, v := range s.heap {
		if ldKept[k.f] && v.clo != nil && v.clo.lit != nil {
			xs = append(xs, fmt.Sprintf("u%d:%d:%p", k.id, k.f.Pos(), v.clo.lit))
		}
	}
	sort.Strings(xs)
	return s.sig() + ";" + strings.Join(xs, ";")
}

func (s *ldState) tail(xs []string) []string {
	sort.Strings(xs)
	for i, f := range s.defers {
		for _, d := range f {
			xs = append(xs, fmt.Sprintf("d%d:%s:%p", i, d.tok, d.call))
		}
	}
	return xs
}

// ---- contracts

type ldGive struct {
	name  string // result or parameter
	field string
	pred  string
	args  []string
	cond  [2]string // name, "nil" or "nonnil"; empty: always
}

type ldOutcome struct {
	cond  [2]string
	facts [][2]string
	gives []ldGive
}

type ldContract struct {
	key     string
	params  []string
	results []string
	takes   []ldGive
	outs    []ldOutcome
	line    int
}

type ldPredClause struct {
	mode, name, field string
	condName          string
	condField         string
	neg               bool
}

type ldPred struct {
	params  []string
	clauses []ldPredClause
}

type ldSpec struct {
	contracts map[string]*ldContract
	preds     map[string]*ldPred
	protect   map[string]bool // Type.field
	inline    map[string]bool
	skip      map[string]string // out of reach, with the reason
	waits     map[string]bool   // others wait for the channels these functions make
}

func parseLedger(path string) (*ldSpec, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	sp := &ldSpec{contracts: map[string]*ldContract{}, preds: map[string]*ldPred{}, protect: map[string]bool{}, inline: map[string]bool{}, skip: map[string]string{}, waits: map[string]bool{}}
	names := func(s string) []string {
		s = strings.Trim(strings.TrimSpace(s), "()")
		var out []string
		for _, x := range strings.Split(s, ",") {
			if x = strings.TrimSpace(x); x != "" {
				out = append(out, x)
			}
		}
		return out
	}
	cond := func(s string) [2]string {
		s = strings.TrimSpace(s)
		if s == "" {
			return [2]string{}
		}
		f := strings.Fields(s)
		if len(f) == 3 && f[2] == "nil" {
			if f[1] == "==" {
				return [2]string{f[0], "nil"}
			}
			return [2]string{f[0], "nonnil"}
		}
		panic(fmt.Sprintf("%s: bad condition %q", path, s))
	}
	give := func(s string) ldGive {
		g := ldGive{}
		if i := strings.Index(s, " if "); i >= 0 {
			g.cond = cond(s[i+4:])
			s = s[:i]
		}
		if i := strings.Index(s, " as "); i >= 0 {
			p := strings.TrimSpace(s[i+4:])
			j := strings.Index(p, "(")
			g.pred, g.args = p[:j], names(p[j:])
			s = s[:i]
		}
		xs := strings.SplitN(strings.TrimSpace(s), ".", 2)
		g.name, g.field = xs[0], xs[1]
		return g
	}
	var cur *ldContract
	for ln, line := range strings.Split(string(b), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		if strings.HasPrefix(line, "out:") {
			line = "out " + line[3:]
		}
		w := strings.SplitN(line, " ", 2)
		rest := ""
		if len(w) > 1 {
			rest = strings.TrimSpace(w[1])
		}
		switch w[0] {
		case "protect":
			for _, x := range strings.Fields(rest) {
				sp.protect[x] = true
			}
		case "inline":
			for _, x := range strings.Fields(rest) {
				sp.inline[x] = true
			}
		case "waits":
			for _, x := range strings.Fields(rest) {
				sp.waits[x] = true
			}
		case "skip":
			x := strings.SplitN(rest, ":", 2)
			sp.skip[strings.TrimSpace(x[0])] = strings.TrimSpace(x[1])
		case "pred": // pred name(a, b) = W a.f if !b.g; R a.f
			x := strings.SplitN(rest, "=", 2)
			j := strings.Index(x[0], "(")
			p := &ldPred{params: names(x[0][j:])}
			for _, cl := range strings.Split(x[1], ";") {
				f := strings.Fields(cl)
				c := ldPredClause{mode: f[0]}
				xs := strings.SplitN(f[1], ".", 2)
				c.name, c.field = xs[0], xs[1]
				if len(f) == 4 && f[2] == "if" {
					q := f[3]
					if q[0] == '!' {
						c.neg = true
						q = q[1:]
					}
					ys := strings.SplitN(q, ".", 2)
					c.condName, c.condField = ys[0], ys[1]
				}
				p.clauses = append(p.clauses, c)
			}
			sp.preds[strings.TrimSpace(x[0][:j])] = p
		case "func": // func Type.name(params) (results)
			j := strings.Index(rest, "(")
			k := strings.Index(rest, ")")
			cur = &ldContract{key: rest[:j], params: names(rest[j : k+1]), results: names(rest[k+1:]), line: ln + 1}
			sp.contracts[cur.key] = cur
		case "takes":
			cur.takes = append(cur.takes, give(rest))
		case "out": // out [cond]: fact; gives ...
			x := strings.SplitN(rest, ":", 2)
			o := ldOutcome{cond: cond(x[0])}
			if len(x) > 1 {
				for _, f := range strings.Split(x[1], ";") {
					f = strings.TrimSpace(f)
					switch {
					case f == "":
					case strings.HasPrefix(f, "gives "):
						o.gives = append(o.gives, give(f[6:]))
					default:
						o.facts = append(o.facts, cond(f))
					}
				}
			}
			cur.outs = append(cur.outs, o)
		default:
			return nil, fmt.Errorf("%s:%d: unknown line", path, ln+1)
		}
	}
	return sp, nil
}

// ---- the checker

type ldDebt struct {
	pred string
	args []int // identities of the predicate's arguments
	cond map[string]ldVal
	hint string
}

type ldObl struct {
	name, kind, pos, path, detail string
	ok                            bool
	paths                         int
}

type ldAcq struct {
	param int
	cls   string
	mode  string
}

type ldFunc struct {
	fi      *FuncInfo
	state   int // 0 new, 1 running, 2 neutral, 3 not neutral
	touches int // 0 unknown, 1 running, 2 no, 3 yes
	obls    []*ldObl
	idx     map[string]*ldObl
	err     string
	acq     map[ldAcq]bool
	mods    map[*types.Var]bool
	inlined map[string]bool
	npaths  int
	assume  map[string]bool
}

type ledger struct {
	prog  *Program
	sp    *ldSpec
	next  int
	debts map[int]*ldDebt
	names map[int]string
	fresh map[int]bool // objects allocated by the function itself or by a contract
	maps  map[int]bool // owner maps
	funcs map[*types.Func]*ldFunc
	cur   *ldFunc
	par   map[int]int // identity of a parameter -> its position
	stack []ast.Node
	quiet int
	steps int
	viol  int
	chans map[int]bool
}

func (l *ledger) key(o *types.Func) string {
	k := funcKey(o)
	if i := strings.Index(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (l *ledger) newID(hint string) int {
	l.next++
	if hint != "" {
		l.names[l.next] = hint
	}
	return l.next
}

func (l *ledger) freshVal(hint string) ldVal { return ldVal{id: l.newID(hint)} }

func (l *ledger) pos(n ast.Node) string {
	p := l.prog.Fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, l.prog.Repo+"/"), p.Line)
}

func (l *ledger) line(n ast.Node) int { return l.prog.Fset.Position(n.Pos()).Line }

func (l *ledger) unsup(n ast.Node, f string, a ...interface{}) {
	panic(unsupported{l.pos(n) + ": " + fmt.Sprintf(f, a...)})
}

// oblige records one instance of a named obligation.
func (l *ledger) oblige(st *ldState, kind, label string, n ast.Node, ok bool, detail string) {
	if l.quiet > 0 {
		if !ok {
			l.viol++
		}
		return
	}
	name := kind + ":" + label + "@" + l.pos(n)
	o := l.cur.idx[name]
	if o == nil {
		o = &ldObl{name: name, kind: kind, pos: l.pos(n), ok: true}
		l.cur.idx[name] = o
		l.cur.obls = append(l.cur.obls, o)
	}
	o.paths++
	if !ok && o.ok {
		o.ok = false
		o.detail = detail
		o.path = strings.Join(st.path, "/")
	}
}

func (l *ledger) tokName(tok string) string {
	var mode string
	var id int
	var cls string
	if strings.HasPrefix(tok, "D:") {
		fmt.Sscanf(tok, "D:%d", &id)
		if d := l.debts[id]; d != nil {
			return d.hint + " (not called)"
		}
		return "an unlock function"
	}
	if strings.HasPrefix(tok, "C:") {
		fmt.Sscanf(tok, "C:%d", &id)
		return "the duty to close channel " + l.names[id]
	}
	if strings.HasPrefix(tok, "M:") {
		fmt.Sscanf(tok, "M:%d", &id)
		return "the segments locked in map " + l.names[id]
	}
	i := strings.LastIndex(tok, "@")
	mode, cls = tok[:1], tok[2:i]
	fmt.Sscanf(tok[i+1:], "%d", &id)
	m := "write lock "
	if mode == "R" {
		m = "read lock "
	}
	nm := l.names[id]
	if nm != "" {
		nm = " of " + nm
	}
	return m + cls + nm
}

func (l *ledger) ledName(st *ldState) string {
	var xs []string
	for k, n := range st.led {
		s := l.tokName(k)
		if n != 1 {
			s = fmt.Sprintf("%d x %s", n, s)
		}
		xs = append(xs, s)
	}
	sort.Strings(xs)
	return strings.Join(xs, ", ")
}

func tokOf(mode string, k ldLock) string { return fmt.Sprintf("%s:%s@%d", mode, k.cls, k.owner) }

// ---- types

func isMutex(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func typeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "struct"
}

func structUnder(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (l *ledger) protected(owner types.Type, f string) bool {
	return l.sp.protect[typeName(owner)+"."+f]
}

// ownerMap: a map whose values carry an unlock function.
func (l *ledger) ownerMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && l.unlockField(m.Elem()) != nil
}

func (l *ledger) unlockField(t types.Type) *types.Var {
	s := structUnder(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Signature); ok && l.protected(t, f.Name()) {
			return f
		}
	}
	return nil
}

func fieldNamed(t types.Type, n string) *types.Var {
	s := structUnder(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return s.Field(i)
		}
	}
	return nil
}

// ---- syntactic summaries

func (l *ledger) get(o *types.Func) *ldFunc {
	if f := l.funcs[o]; f != nil {
		return f
	}
	fi := l.prog.ByPos[o]
	if fi == nil {
		return nil
	}
	f := &ldFunc{fi: fi, idx: map[string]*ldObl{}, acq: map[ldAcq]bool{}, inlined: map[string]bool{}, assume: map[string]bool{}}
	l.funcs[o] = f
	return f
}

func calleeOf(info *types.Info, x *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		o, _ := info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := info.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

// touch: does the function, directly or through calls, work with locks or unlock functions?
func (l *ledger) touch(o *types.Func) bool {
	f := l.get(o)
	if f == nil {
		return false
	}
	if f.touches == 0 {
		f.touches = 1
		if l.sp.contracts[l.key(o)] != nil || l.touchNode(f.fi.Pkg, f.fi.Decl.Body) {
			f.touches = 3
		} else {
			f.touches = 2
		}
	}
	return f.touches == 3
}

func (l *ledger) touchNode(p *Pkg, n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.SelectorExpr:
			o := p.Info.Uses[x.Sel]
			if fn, ok := o.(*types.Func); ok {
				if fn.Pkg() != nil && fn.Pkg().Path() == "sync" && strings.Contains(fn.Name(), "ock") {
					hit = true
				}
				if l.touch(fn) {
					hit = true
				}
			}
			if sl := p.Info.Selections[x]; sl != nil && sl.Kind() == types.FieldVal && l.protected(sl.Recv(), x.Sel.Name) {
				hit = true
			}
		case *ast.Ident:
			if fn, ok := p.Info.Uses[x].(*types.Func); ok && l.touch(fn) {
				hit = true
			}
		}
		return !hit
	})
	return hit
}

// modsOf: the struct fields a piece of code may assign, with those of the functions it calls.
func (l *ledger) modsOf(o *types.Func) map[*types.Var]bool {
	f := l.get(o)
	if f == nil {
		return nil
	}
	if f.mods != nil {
		return f.mods
	}
	out := map[*types.Var]bool{}
	f.mods = out
	seen := map[*types.Func]bool{}
	var visit func(o *types.Func)
	visit = func(o *types.Func) {
		g := l.get(o)
		if g == nil || seen[o] {
			return
		}
		seen[o] = true
		l.directMods(g.fi.Pkg, g.fi.Decl.Body, out, visit)
	}
	visit(o)
	return out
}

func (l *ledger) directMods(p *Pkg, n ast.Node, out map[*types.Var]bool, visit func(*types.Func)) {
	whole := func(t types.Type) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				out[s.Field(i)] = true
			}
		}
	}
	lhs := func(x ast.Expr) {
		x = ast.Unparen(x)
		switch y := x.(type) {
		case *ast.SelectorExpr:
			if v, ok := p.Info.Uses[y.Sel].(*types.Var); ok && v.IsField() {
				out[v] = true
			}
		case *ast.StarExpr, *ast.IndexExpr:
			if tv, ok := p.Info.Types[x]; ok {
				whole(tv.Type)
			}
		}
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, y := range x.Lhs {
				lhs(y)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.RangeStmt:
			if x.Key != nil {
				lhs(x.Key)
			}
			if x.Value != nil {
				lhs(x.Value)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if s, ok := ast.Unparen(x.X).(*ast.SelectorExpr); ok {
					if v, ok := p.Info.Uses[s.Sel].(*types.Var); ok && v.IsField() && !isMutex(v.Type()) {
						out[v] = true
					}
				}
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && id.Name == "copy" && len(x.Args) > 0 {
				if sl, ok := p.Info.Types[x.Args[0]].Type.Underlying().(*types.Slice); ok {
					whole(sl.Elem())
				}
			}
		case *ast.Ident:
			if fn, ok := p.Info.Uses[x].(*types.Func); ok && visit != nil {
				visit(fn)
			}
		}
		return true
	})
}

func (l *ledger) invalidate(st *ldState, mods map[*types.Var]bool) {
	for k := range st.heap {
		if mods[k.f] && !l.keptField(k.f) {
			delete(st.heap, k)
		}
	}
}

func (l *ledger) invalidateAll(st *ldState) {
	for k := range st.heap {
		if !l.keptField(k.f) {
			delete(st.heap, k)
		}
	}
}

var ldKept map[*types.Var]bool

func (l *ledger) keptField(f *types.Var) bool {
	if ldKept == nil {
		ldKept = map[*types.Var]bool{}
		for _, p := range l.prog.Pkgs {
			if p.Types == nil {
				continue
			}
			for _, n := range p.Types.Scope().Names() {
				tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				s, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					if l.sp.protect[n+"."+s.Field(i).Name()] {
						ldKept[s.Field(i)] = true
					}
				}
			}
		}
	}
	return ldKept[f]
}
