package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// Env evaluates specification expressions.
type Env struct {
	e        *Ex
	w        *World
	st       *State // heaps for plain expressions
	old      *State // heaps and values for old(...)
	vars     map[string]Value
	oldV     map[string]Value
	local    func(name string) (Value, bool)
	pkg      string
	goal     bool // true: positive occurrence is to be proved
	acc      *[]access
	trg      *[]*Term
	bound    map[string]bool
	nq       *int
	depth    int
	freshA   *Term  // alloc bound for fresh()
	pre      *State // loop entry state for atloop(...)
	preLocal func(name string) (Value, bool)
	useLemma bool
	lemmaMax int // lemmas declared before this index may be used
}

type access struct {
	a   *Term // array term
	off *Term
	idx *Term
	app *Term
}

type specErr struct{ msg string }

func (v *Env) err(x *Sx, f string, a ...interface{}) {
	panic(specErr{x.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (v *Env) sub() *Env {
	n := *v
	n.vars = map[string]Value{}
	for k, x := range v.vars {
		n.vars[k] = x
	}
	return &n
}

var intTyp = types.Typ[types.Int]
var boolTyp = types.Typ[types.Bool]

func (v *Env) evalBool(x *Sx) *Term {
	t := v.eval(x).T
	if t.Sort != "Bool" {
		v.err(x, "boolean expected, got %s", t.Sort)
	}
	return t
}

func (v *Env) flip() *Env {
	n := *v
	n.goal = !v.goal
	return &n
}

func (v *Env) ident(x *Sx) Value {
	n := x.Name
	if r, ok := v.vars[n]; ok {
		return r
	}
	if v.local != nil {
		if r, ok := v.local(n); ok {
			return r
		}
	}
	switch n {
	case "true":
		return Value{T: tTrue, Typ: boolTyp}
	case "false":
		return Value{T: tFalse, Typ: boolTyp}
	case "nil":
		return Value{T: sym("nil", "nil"), Typ: types.Typ[types.UntypedNil]}
	case "MaxUint64":
		b := new(big.Int).Lsh(big.NewInt(1), 64)
		return Value{T: intB(b.Sub(b, big.NewInt(1))), Typ: intTyp}
	case "MaxUint32":
		return Value{T: intT(1<<32 - 1), Typ: intTyp}
	}
	if p := v.w.pkgByName(v.pkg); p != nil {
		if o := p.Types.Scope().Lookup(n); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return v.constVal(o.Val(), o.Type())
			case *types.Var:
				if v.e != nil {
					return v.e.global(v.st, o)
				}
			}
		}
	}
	v.err(x, "unknown identifier %s", n)
	panic(0)
}

func (v *Env) constVal(c constant.Value, t types.Type) Value {
	switch c.Kind() {
	case constant.Int:
		b, _ := new(big.Int).SetString(c.ExactString(), 10)
		return Value{T: intB(b), Typ: t}
	case constant.Bool:
		return Value{T: boolT(constant.BoolVal(c)), Typ: t}
	case constant.String:
		return Value{T: v.w.strLit(constant.StringVal(c)), Typ: t}
	}
	panic(specErr{"unsupported constant"})
}

func (v *Env) eval(x *Sx) Value {
	v.depth++
	defer func() { v.depth-- }()
	switch x.Op {
	case "int":
		b, ok := new(big.Int).SetString(x.Name, 0)
		if !ok {
			v.err(x, "bad integer %s", x.Name)
		}
		return Value{T: intB(b), Typ: intTyp}
	case "str":
		return Value{T: v.w.strLit(x.Name), Typ: types.Typ[types.String]}
	case "ident":
		return v.ident(x)
	case "un":
		switch x.Name {
		case "!":
			return Value{T: not(v.flip().evalBool(x.A[0])), Typ: boolTyp}
		case "-":
			a := v.eval(x.A[0])
			return Value{T: sub(zero, a.T), Typ: a.Typ}
		case "*":
			a := v.eval(x.A[0])
			return v.deref(x, a)
		}
		v.err(x, "unsupported unary %s", x.Name)
	case "bin":
		return v.binary(x)
	case "sel":
		return v.selector(x)
	case "idx":
		return v.index(x)
	case "slice":
		s := v.eval(x.A[0])
		lo := zero
		if x.A[1] != nil {
			lo = v.eval(x.A[1]).T
		}
		hi := sLen(s.T)
		if x.A[2] != nil {
			hi = v.eval(x.A[2]).T
		}
		return Value{T: mkSlice(sArr(s.T), add(sOff(s.T), lo), sub(hi, lo), sub(sCap(s.T), lo)), Typ: s.Typ}
	case "quant":
		return Value{T: v.quant(x), Typ: boolTyp}
	case "call":
		return v.call(x)
	}
	v.err(x, "bad expression")
	panic(0)
}

func (v *Env) deref(x *Sx, a Value) Value {
	p, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		v.err(x, "dereference of non-pointer %s", a.Typ)
	}
	h := v.e.heap(v.st, v.w.heapKey(p.Elem()))
	return Value{T: sel(v.e.selH(h, pArr(a.T)), pIdx(a.T)), Typ: p.Elem()}
}

func coerceNil(a, b Value) (Value, Value) {
	nilOf := func(o Value) Value {
		switch o.T.Sort {
		case "Slice":
			return Value{T: nilSlice, Typ: o.Typ}
		case "Ptr":
			return Value{T: nilPtr, Typ: o.Typ}
		case "Int":
			return Value{T: zero, Typ: o.Typ}
		}
		return Value{T: oNil, Typ: o.Typ}
	}
	if a.T.Op == "nil" && a.T.Sort == "nil" && b.T.Sort != "nil" {
		a = nilOf(b)
	}
	if b.T.Op == "nil" && b.T.Sort == "nil" && a.T.Sort != "nil" {
		b = nilOf(a)
	}
	return a, b
}

func valEq(a, b Value) *Term {
	a, b = coerceNil(a, b)
	if a.T.Sort == "Slice" && (eqT(a.T, nilSlice) || eqT(b.T, nilSlice)) {
		return eq(sArr(a.T), sArr(b.T))
	}
	if a.T.Sort == "Ptr" && (eqT(a.T, nilPtr) || eqT(b.T, nilPtr)) {
		return eq(pArr(a.T), pArr(b.T))
	}
	return eq(a.T, b.T)
}

func (v *Env) binary(x *Sx) Value {
	switch x.Name {
	case "==>":
		l := v.flip().evalBool(x.A[0])
		if l.Op == "false" {
			return Value{T: tTrue, Typ: boolTyp}
		}
		r := v.evalBool(x.A[1])
		return Value{T: imp(l, r), Typ: boolTyp}
	case "<==>":
		n := *v
		n.goal = false
		l, r := n.evalBool(x.A[0]), n.evalBool(x.A[1])
		return Value{T: eq(l, r), Typ: boolTyp}
	case "&&":
		return Value{T: and(v.evalBool(x.A[0]), v.evalBool(x.A[1])), Typ: boolTyp}
	case "||":
		return Value{T: or(v.evalBool(x.A[0]), v.evalBool(x.A[1])), Typ: boolTyp}
	}
	a, b := v.eval(x.A[0]), v.eval(x.A[1])
	a, b = coerceNil(a, b)
	if v.w.BV {
		return v.bvBinary(x, a, b)
	}
	if a.T.Sort != b.T.Sort {
		v.err(x, "sort mismatch %s %s %s", a.T.Sort, x.Name, b.T.Sort)
	}
	switch x.Name {
	case "==":
		return Value{T: valEq(a, b), Typ: boolTyp}
	case "!=":
		return Value{T: not(valEq(a, b)), Typ: boolTyp}
	case "<", "<=", ">", ">=":
		if a.T.Sort == "Str" {
			return Value{T: v.e.strCmp(x.Name, a.T, b.T), Typ: boolTyp}
		}
		return Value{T: cmp(x.Name, a.T, b.T), Typ: boolTyp}
	case "+":
		if a.T.Sort == "Str" {
			return Value{T: v.e.strCat(v.st, a.T, b.T), Typ: a.Typ}
		}
		return Value{T: add(a.T, b.T), Typ: a.Typ}
	case "-":
		return Value{T: sub(a.T, b.T), Typ: a.Typ}
	case "*":
		return Value{T: mul(a.T, b.T), Typ: a.Typ}
	case "/":
		return Value{T: app("div", "Int", a.T, b.T), Typ: a.Typ}
	case "%":
		return Value{T: app("mod", "Int", a.T, b.T), Typ: a.Typ}
	}
	v.err(x, "unsupported operator %s", x.Name)
	panic(0)
}

func (v *Env) bvBinary(x *Sx, a, b Value) Value {
	fp := strings.HasPrefix(a.T.Sort, "(_ FloatingPoint")
	if a.T.Sort == "Int" && strings.HasPrefix(b.T.Sort, "(_ BitVec") {
		a.T = toBV(a.T, b.T.Sort)
	}
	if b.T.Sort == "Int" && strings.HasPrefix(a.T.Sort, "(_ BitVec") {
		b.T = toBV(b.T, a.T.Sort)
	}
	if fp {
		ops := map[string]string{"==": "fp.eq", "<": "fp.lt", "<=": "fp.leq", ">": "fp.gt", ">=": "fp.geq"}
		if o := ops[x.Name]; o != "" {
			return Value{T: app(o, "Bool", a.T, b.T), Typ: boolTyp}
		}
		if x.Name == "!=" {
			return Value{T: not(app("fp.eq", "Bool", a.T, b.T)), Typ: boolTyp}
		}
	}
	ops := map[string]string{"<": "bvult", "<=": "bvule", ">": "bvugt", ">=": "bvuge"}
	switch x.Name {
	case "==":
		return Value{T: app("=", "Bool", a.T, b.T), Typ: boolTyp}
	case "!=":
		return Value{T: not(app("=", "Bool", a.T, b.T)), Typ: boolTyp}
	}
	if o := ops[x.Name]; o != "" {
		return Value{T: app(o, "Bool", a.T, b.T), Typ: boolTyp}
	}
	if o := map[string]string{"+": "bvadd", "-": "bvsub", "*": "bvmul"}[x.Name]; o != "" {
		return Value{T: app(o, a.T.Sort, a.T, b.T), Typ: a.Typ}
	}
	v.err(x, "unsupported bv operator %s", x.Name)
	panic(0)
}

func toBV(t *Term, sort string) *Term {
	c, ok := constInt(t)
	if !ok {
		panic(specErr{"non-constant int in bv mode"})
	}
	var n int
	fmt.Sscanf(sort, "(_ BitVec %d)", &n)
	return sym(fmt.Sprintf("(_ bv%s %d)", c.String(), n), sort)
}

// fieldPath finds a (possibly promoted) field.
func (v *Env) selector(x *Sx) Value {
	// package-qualified identifiers
	if x.A[0].Op == "ident" {
		if _, ok := v.vars[x.A[0].Name]; !ok {
			isLocal := false
			if v.local != nil {
				_, isLocal = v.local(x.A[0].Name)
			}
			if !isLocal {
				if p := v.w.pkgByName(x.A[0].Name); p != nil {
					if o := p.Types.Scope().Lookup(x.Name); o != nil {
						switch o := o.(type) {
						case *types.Const:
							return v.constVal(o.Val(), o.Type())
						case *types.Var:
							return v.e.global(v.st, o)
						}
					}
				}
			}
		}
	}
	a := v.eval(x.A[0])
	return v.fieldOf(x, a, x.Name)
}

// typeArg reads an argument that names a type.
func (v *Env) typeArg(x *Sx) types.Type {
	n := ""
	ptr := false
	if x.Op == "un" && x.Name == "*" {
		ptr = true
		x = x.A[0]
	}
	switch {
	case x.Op == "ident":
		n = x.Name
	case x.Op == "sel" && x.A[0].Op == "ident":
		n = x.A[0].Name + "." + x.Name
	default:
		v.err(x, "not a type")
	}
	t := v.w.resolveType(&TypeX{Kind: "name", Name: n}, v.pkg)
	if ptr {
		return types.NewPointer(t)
	}
	return t
}

func (v *Env) fieldOf(x *Sx, a Value, name string) Value {
	obj, path, _ := types.LookupFieldOrMethod(a.Typ, true, v.pkgTypes(), name)
	if obj == nil {
		// try with the declaring package
		t := a.Typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			obj, path, _ = types.LookupFieldOrMethod(a.Typ, true, n.Obj().Pkg(), name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		v.err(x, "no field %s in %s", name, a.Typ)
	}
	for _, i := range path {
		if _, ok := a.Typ.Underlying().(*types.Pointer); ok {
			a = v.deref(x, a)
		}
		st := a.Typ.Underlying().(*types.Struct)
		if v.w.structOf(a.T.Sort) == nil { // field of a foreign struct
			f := st.Field(i)
			fn := "ofield_" + sanitize(typeKey(a.Typ)) + "_" + f.Name()
			s := v.w.sortOf(f.Type())
			v.w.fn(fn, []string{a.T.Sort}, s)
			a = Value{T: app(fn, s, a.T), Typ: f.Type()}
			continue
		}
		a = Value{T: v.w.field(a.T, i), Typ: st.Field(i).Type()}
	}
	return a
}

func (v *Env) pkgTypes() *types.Package {
	if p := v.w.pkgByName(v.pkg); p != nil {
		return p.Types
	}
	return nil
}

func (v *Env) index(x *Sx) Value {
	a := v.eval(x.A[0])
	i := v.eval(x.A[1])
	switch u := a.Typ.Underlying().(type) {
	case *types.Slice:
		arr := v.e.selH(v.e.heap(v.st, v.w.heapKey(u.Elem())), sArr(a.T))
		ix := add(sOff(a.T), i.T)
		r := sel(arr, ix)
		if v.acc != nil {
			*v.acc = append(*v.acc, access{arr, sOff(a.T), i.T, r})
		}
		return Value{T: r, Typ: u.Elem()}
	case *types.Map:
		_, mv, _ := v.w.mapKeys(a.Typ)
		r := sel(v.e.selH(v.e.heap(v.st, mv), a.T), i.T)
		v.addTrig(r)
		return Value{T: r, Typ: u.Elem()}
	case *types.Array:
		r := sel(a.T, i.T)
		if v.acc != nil {
			*v.acc = append(*v.acc, access{a.T, zero, i.T, r})
		}
		return Value{T: r, Typ: u.Elem()}
	}
	if a.T.Sort == "Str" {
		v.w.fn("sat", []string{"Str", "Int"}, "Int")
		r := app("sat", "Int", a.T, i.T)
		v.addTrig(r)
		return Value{T: r, Typ: types.Typ[types.Uint8]}
	}
	v.err(x, "cannot index %s", a.Typ)
	panic(0)
}

func (v *Env) addTrig(t *Term) {
	if v.trg != nil {
		*v.trg = append(*v.trg, t)
	}
}

// ghost set indexing: $seen[k] is translated by call "inset".

func (v *Env) quant(x *Sx) *Term {
	if v.nq == nil {
		v.nq = new(int)
	}
	universal := x.Name == "forall"
	base := v.sub()
	base.nq = v.nq
	if !universal {
		base.goal = !v.goal
	}
	mkBody := func(m map[string]Value, acc *[]access, trg *[]*Term) *Term {
		n := base.sub()
		n.nq = v.nq
		for k, t := range m {
			n.vars[k] = t
		}
		n.acc, n.trg = acc, trg
		b := n.evalBool(x.A[0])
		if !universal {
			b = not(b)
		}
		var rng []*Term
		for _, q := range x.Q {
			if bits, ok := isUnsigned(m[q.Name].Typ); ok && m[q.Name].T.Sort == "Int" {
				rng = append(rng, le(zero, m[q.Name].T), lt(m[q.Name].T, pow2(bits)))
			}
		}
		if len(rng) > 0 {
			b = imp(and(rng...), b)
		}
		return b
	}
	type bv struct {
		name string
		t    *Term
		typ  types.Type
	}
	var bs []bv
	var binders []Binder
	for _, q := range x.Q {
		*v.nq++
		typ := v.w.resolveType(q.Type, v.pkg)
		s := v.w.sortOf(typ)
		nm := fmt.Sprintf("%s_%d?", sanitize(q.Name), *v.nq)
		bs = append(bs, bv{q.Name, sym(nm, s), typ})
		binders = append(binders, Binder{nm, s})
	}
	m0 := map[string]Value{}
	for _, b := range bs {
		m0[b.name] = Value{T: b.t, Typ: b.typ}
	}
	finish := func(t *Term) *Term {
		if universal {
			return t
		}
		return not(t)
	}
	// In goal position of a forall (or assumption position of an exists) no patterns are needed.
	if base.goal {
		b := mkBody(m0, v.acc, v.trg)
		return finish(forall(binders, nil, b))
	}
	if len(x.Trig) > 0 {
		trigs := func(m map[string]Value, acc *[]access) []*Term {
			n := base.sub()
			for k, t := range m {
				n.vars[k] = t
			}
			n.acc = acc
			var pat []*Term
			for _, tx := range x.Trig {
				pat = append(pat, n.eval(tx).T)
			}
			return pat
		}
		var acc []access
		trigs(m0, &acc)
		m := map[string]Value{}
		for _, b := range bs {
			m[b.name] = m0[b.name]
			if b.t.Sort != "Int" {
				continue
			}
			for _, a := range acc {
				// index the trigger by the position in the backing array
				c := sub(a.idx, b.t)
				if !strings.Contains(c.String(), "?") && !strings.Contains(a.off.String(), "?") && !strings.Contains(a.a.String(), "?") {
					m[b.name] = Value{T: sub(sub(b.t, a.off), c), Typ: b.typ}
					break
				}
			}
		}
		return finish(forall(binders, [][]*Term{trigs(m, nil)}, mkBody(m, nil, nil)))
	}
	var acc []access
	var trg []*Term
	b0 := mkBody(m0, &acc, &trg)
	if v.acc != nil { // let outer quantifiers see inner accesses without our variables
		for _, a := range acc {
			free := true
			for _, b := range bs {
				if mentions(a.app, b.t.Op) {
					free = false
				}
			}
			if free {
				*v.acc = append(*v.acc, a)
			}
		}
	}
	if v.trg != nil {
		for _, a := range trg {
			free := true
			for _, b := range bs {
				if mentions(a, b.t.Op) {
					free = false
				}
			}
			if free {
				*v.trg = append(*v.trg, a)
			}
		}
	}
	// pivots per variable
	type pivot struct {
		a, off, c *Term
	}
	var cands [][]*pivot
	for _, b := range bs {
		var cs []*pivot
		seen := map[string]bool{}
		if b.t.Sort == "Int" {
			for _, a := range acc {
				c := sub(a.idx, b.t)
				bad := mentions(c, b.t.Op) || mentions(a.a, b.t.Op) || mentions(a.off, b.t.Op)
				for _, o := range bs {
					if mentions(c, o.t.Op) {
						bad = true
					}
				}
				if strings.Contains(c.String(), "?") {
					bad = true
				}
				if bad {
					continue
				}
				k := a.a.String() + "|" + a.off.String() + "|" + c.String()
				if !seen[k] {
					seen[k] = true
					cs = append(cs, &pivot{a.a, a.off, c})
				}
			}
		}
		if len(cs) == 0 {
			cs = []*pivot{nil}
		}
		if len(cs) > 3 {
			cs = cs[:3]
		}
		cands = append(cands, cs)
	}
	var combos [][]*pivot
	var gen func(i int, cur []*pivot)
	gen = func(i int, cur []*pivot) {
		if len(combos) >= 6 {
			return
		}
		if i == len(bs) {
			combos = append(combos, append([]*pivot{}, cur...))
			return
		}
		for _, c := range cands[i] {
			gen(i+1, append(cur, c))
		}
	}
	gen(0, nil)
	var versions []*Term
	for _, cb := range combos {
		m := map[string]Value{}
		var pat []*Term
		covered := map[string]bool{}
		for i, b := range bs {
			if cb[i] == nil {
				m[b.name] = m0[b.name]
				continue
			}
			m[b.name] = Value{T: sub(sub(b.t, cb[i].off), cb[i].c), Typ: b.typ}
			covered[b.t.Op] = true
			pat = append(pat, sel(cb[i].a, b.t))
		}
		var acc2 []access
		var trg2 []*Term
		body := mkBody(m, &acc2, &trg2)
		for _, b := range bs {
			if covered[b.t.Op] {
				continue
			}
			// find a trigger term
			found := false
			for _, t := range trg2 {
				if mentions(t, b.t.Op) && validTrigger(t) {
					pat = append(pat, t)
					found = true
					break
				}
			}
			if !found {
				for _, a := range acc2 {
					if mentions(a.app, b.t.Op) && validTrigger(a.app) {
						pat = append(pat, a.app)
						found = true
						break
					}
				}
			}
			if found {
				for _, o := range bs {
					if mentions(pat[len(pat)-1], o.t.Op) {
						covered[o.t.Op] = true
					}
				}
			} else {
				pat = nil
				break
			}
		}
		if len(pat) == 0 {
			versions = append(versions, forall(binders, nil, body))
		} else {
			versions = append(versions, forall(binders, [][]*Term{dedupTerms(pat)}, body))
		}
	}
	_ = b0
	return finish(and(versions...))
}

func dedupTerms(ts []*Term) []*Term {
	seen := map[string]bool{}
	var o []*Term
	for _, t := range ts {
		if !seen[t.String()] {
			seen[t.String()] = true
			o = append(o, t)
		}
	}
	return o
}

func mentions(t *Term, s string) bool {
	if t == nil {
		return false
	}
	if t.isSym() {
		return t.Op == s
	}
	for _, a := range t.Args {
		if mentions(a, s) {
			return true
		}
	}
	return false
}

// validTrigger: no interpreted boolean/ite structure inside patterns.
func validTrigger(t *Term) bool {
	switch t.Op {
	case "ite", "and", "or", "not", "=", "=>", "forall", "exists", "<", "<=", ">", ">=":
		return false
	}
	for _, a := range t.Args {
		if !validTrigger(a) {
			return false
		}
	}
	return true
}

func (v *Env) ghostArgs(x *Sx, g *ghostTyp, args []*Sx) []*Term {
	var as []*Term
	for i, a := range args {
		t := v.eval(a)
		if t.T.Sort == "nil" {
			t.T = v.w.zeroVal(g.params[i])
		}
		if want := v.w.sortOf(g.params[i]); t.T.Sort != want {
			v.err(x, "argument %d has sort %s, want %s", i, t.T.Sort, want)
		}
		as = append(as, t.T)
	}
	return as
}

var builtinArity = map[string]int{"len": 1, "cap": 1, "arr": 1, "off": 1, "addr": 2, "allocated": 1, "fresh": 1, "foreign": 1, "old": 1, "atloop": 1, "same": 1, "sameAtLoop": 1, "ite": 3, "min": 2, "max": 2, "has": 2, "sameDom": 2, "mapUnchanged": 1, "disjoint": 2, "isA": 2, "asA": 2, "unchanged": 1}

func (v *Env) call(x *Sx) Value {
	if x.A[0].Op == "sel" {
		// conversion pkg.T(x)
		if x.A[0].A[0].Op == "ident" {
			if t := v.w.tryResolve(&TypeX{Kind: "name", Name: x.A[0].A[0].Name + "." + x.A[0].Name}, v.pkg); t != nil {
				r := v.eval(x.A[1])
				return Value{T: r.T, Typ: t}
			}
		}
		v.err(x, "unsupported call")
	}
	if x.A[0].Op != "ident" {
		v.err(x, "unsupported call")
	}
	name := x.A[0].Name
	args := x.A[1:]
	if n, ok := builtinArity[name]; ok && len(args) != n {
		v.err(x, "%s takes %d arguments", name, n)
	}
	switch name {
	case "len":
		a := v.eval(args[0])
		switch a.Typ.Underlying().(type) {
		case *types.Slice:
			return Value{T: sLen(a.T), Typ: intTyp}
		case *types.Map:
			_, _, mc := v.w.mapKeys(a.Typ)
			return Value{T: v.e.selH(v.e.heap(v.st, mc), a.T), Typ: intTyp}
		case *types.Basic:
			v.w.fn("slen", []string{"Str"}, "Int")
			return Value{T: app("slen", "Int", a.T), Typ: intTyp}
		}
		v.err(x, "len of %s", a.Typ)
	case "isA": // isA(x, T): the interface value x holds a T
		t := v.typeArg(args[1])
		_, ok := v.e.assertTo(&State{alloc: v.st.alloc}, v.eval(args[0]), t)
		if _, isI := t.Underlying().(*types.Interface); !isI && v.w.sortOf(t) != "Opaque" {
			q := sym("k?", "Opaque")
			u := v.e.unbox(q, t)
			v.w.addAxiom("box_"+sanitize(typeKey(t)), forall([]Binder{{"k?", "Opaque"}}, [][]*Term{{u}}, imp(eq(v.e.dynT(q), v.e.dynTag(t)), eq(v.e.box(Value{T: u, Typ: t}), q))))
		}
		return Value{T: ok, Typ: boolTyp}
	case "asA": // asA(x, T): the T held by the interface value x
		t := v.typeArg(args[1])
		return Value{T: v.e.unbox(v.eval(args[0]).T, t), Typ: t}
	case "cap":
		return Value{T: sCap(v.eval(args[0]).T), Typ: intTyp}
	case "arr":
		a := v.eval(args[0])
		if a.T.Sort == "Ptr" {
			return Value{T: pArr(a.T), Typ: intTyp}
		}
		if a.T.Sort == "Int" {
			return Value{T: a.T, Typ: intTyp}
		}
		return Value{T: sArr(a.T), Typ: intTyp}
	case "addr": // addr(slice, i): the address of an element
		sl, ix := v.eval(args[0]), v.eval(args[1])
		u, ok := sl.Typ.Underlying().(*types.Slice)
		if !ok {
			v.err(x, "addr of a non-slice")
		}
		return Value{T: mkPtr(sArr(sl.T), add(sOff(sl.T), ix.T)), Typ: types.NewPointer(u.Elem())}
	case "off":
		a := v.eval(args[0])
		if a.T.Sort == "Ptr" {
			return Value{T: pIdx(a.T), Typ: intTyp}
		}
		return Value{T: sOff(a.T), Typ: intTyp}
	case "allocated", "fresh", "foreign": // allocated: in the state at hand; foreign: not allocated by the function under verification itself
		a := v.eval(args[0])
		var r *Term
		switch a.T.Sort {
		case "Slice":
			r = sArr(a.T)
		case "Ptr":
			r = pArr(a.T)
		default:
			r = a.T
		}
		if name == "allocated" {
			return Value{T: lt(r, v.st.alloc), Typ: boolTyp}
		}
		if name == "foreign" {
			return Value{T: or(eq(r, zero), le(v.freshA, r), lt(r, v.e.entry.alloc)), Typ: boolTyp}
		}
		return Value{T: or(eq(r, zero), le(v.freshA, r)), Typ: boolTyp}
	case "old":
		n := *v
		n.st = v.old
		if v.oldV != nil {
			n.vars = map[string]Value{}
			for k, t := range v.vars {
				n.vars[k] = t
			}
			for k, t := range v.oldV {
				n.vars[k] = t
			}
		}
		return n.eval(args[0])
	case "atloop":
		if v.pre == nil {
			v.err(x, "atloop outside a loop clause")
		}
		n := *v
		n.st = v.pre
		n.local = v.preLocal
		return n.eval(args[0])
	case "ite":
		n := *v
		n.goal = false
		c := n.evalBool(args[0])
		a, b := v.eval(args[1]), v.eval(args[2])
		a, b = coerceNil(a, b)
		return Value{T: ite(c, a.T, b.T), Typ: a.Typ}
	case "min", "max":
		a, b := v.eval(args[0]), v.eval(args[1])
		if name == "min" {
			return Value{T: ite(le(a.T, b.T), a.T, b.T), Typ: a.Typ}
		}
		return Value{T: ite(le(a.T, b.T), b.T, a.T), Typ: a.Typ}
	case "has": // has(m, k): k in domain of map or ghost set
		a := v.eval(args[0])
		k := v.eval(args[1])
		if strings.HasPrefix(a.T.Sort, "(Array") {
			r := sel(a.T, k.T)
			v.addTrig(r)
			return Value{T: r, Typ: boolTyp}
		}
		md, _, _ := v.w.mapKeys(a.Typ)
		r := sel(v.e.selH(v.e.heap(v.st, md), a.T), k.T)
		v.addTrig(r)
		return Value{T: r, Typ: boolTyp}
	case "sameDom": // domains equal
		a, b := v.eval(args[0]), v.eval(args[1])
		md, _, _ := v.w.mapKeys(a.Typ)
		return Value{T: eq(v.e.selH(v.e.heap(v.st, md), a.T), v.e.selH(v.e.heap(v.st, md), b.T)), Typ: boolTyp}
	case "mapUnchanged": // content of m as in the old state
		a := v.eval(args[0])
		md, mv, mc := v.w.mapKeys(a.Typ)
		var cs []*Term
		for _, k := range []string{md, mv, mc} {
			cs = append(cs, eq(v.e.selH(v.e.heap(v.st, k), a.T), v.e.selH(v.e.heap(v.old, k), a.T)))
		}
		return Value{T: and(cs...), Typ: boolTyp}
	case "sameAtLoop": // backing array content as at loop entry
		a := v.eval(args[0])
		k := v.w.heapKey(a.Typ.Underlying().(*types.Slice).Elem())
		return Value{T: eq(v.e.selH(v.e.heap(v.st, k), sArr(a.T)), v.e.selH(v.e.heap(v.pre, k), sArr(a.T))), Typ: boolTyp}
	case "unchanged": // unchanged(T): every cell of type T is as in the old state
		k := v.w.heapKey(v.typeArg(args[0]))
		return Value{T: eq(v.e.heap(v.st, k), v.e.heap(v.old, k)), Typ: boolTyp}
	case "same": // same content array as in old state for whole backing region of slice
		a := v.eval(args[0])
		u := a.Typ.Underlying().(*types.Slice)
		k := v.w.heapKey(u.Elem())
		return Value{T: eq(v.e.selH(v.e.heap(v.st, k), sArr(a.T)), v.e.selH(v.e.heap(v.old, k), sArr(a.T))), Typ: boolTyp}
	case "disjoint":
		a, b := v.eval(args[0]), v.eval(args[1])
		return Value{T: or(eq(sArr(a.T), zero), neq(sArr(a.T), sArr(b.T)), le(add(sOff(a.T), sCap(a.T)), sOff(b.T)), le(add(sOff(b.T), sCap(b.T)), sOff(a.T))), Typ: boolTyp}
	case "slit": // sort.Str helpers
	case "float_is_nan":
		return Value{T: app("fp.isNaN", "Bool", v.eval(args[0]).T), Typ: boolTyp}
	case "float_same":
		a, b := v.eval(args[0]), v.eval(args[1])
		return Value{T: app("=", "Bool", a.T, b.T), Typ: boolTyp}
	case "float_of": // the float64 with these bits
		a := v.eval(args[0])
		if a.T.Sort == "Int" {
			a.T = toBV(a.T, "(_ BitVec 64)")
		}
		return Value{T: app("(_ to_fp 11 53)", "(_ FloatingPoint 11 53)", a.T), Typ: types.Typ[types.Float64]}
	case "float_is_zero":
		return Value{T: app("fp.isZero", "Bool", v.eval(args[0]).T), Typ: boolTyp}
	}
	if f := v.w.DB.Folds[name]; f != nil {
		fn, _, _ := v.w.foldFn(f)
		s := v.eval(args[0])
		u, ok := s.Typ.Underlying().(*types.Slice)
		if !ok {
			v.err(x, "fold over non-slice")
		}
		a := v.e.selH(v.e.heap(v.st, v.w.heapKey(u.Elem())), sArr(s.T))
		lo, hi := v.eval(args[1]).T, v.eval(args[2]).T
		var ps []*Term
		for _, p := range args[3:] {
			ps = append(ps, v.eval(p).T)
		}
		mk := func(k *Term) *Term {
			t := app(fn, "Int", append([]*Term{a, add(sOff(s.T), k)}, ps...)...)
			v.addTrig(t)
			return t
		}
		h := mk(hi)
		l := mk(lo)
		return Value{T: sub(h, l), Typ: intTyp}
	}
	if u := v.w.DB.Ghosts[name]; u != nil {
		k, g := v.w.ghostKey(u)
		if len(args) != len(g.params) {
			v.err(x, "%s takes %d arguments", name, len(g.params))
		}
		t := v.e.heap(v.st, k)
		for i, as := range v.ghostArgs(x, g, args) {
			_ = i
			t = sel(t, as)
		}
		v.addTrig(t)
		return Value{T: t, Typ: g.ret}
	}
	if u := v.w.DB.UFs[name]; u != nil {
		var as []*Term
		var ss []string
		for i, a := range args {
			t := v.eval(a)
			want := v.w.sortOf(v.w.resolveType(u.Params[i].Type, u.Pkg))
			if t.T.Sort != want {
				v.err(x, "argument %d of %s has sort %s, want %s", i, name, t.T.Sort, want)
			}
			as = append(as, t.T)
			ss = append(ss, want)
		}
		rt := v.w.resolveType(u.Ret, u.Pkg)
		v.w.fn("U_"+name, ss, v.w.sortOf(rt))
		t := app("U_"+name, v.w.sortOf(rt), as...)
		if u.Injective && len(as) == 1 {
			v.w.fn("UI_"+name, []string{v.w.sortOf(rt)}, ss[0])
			q := sym("a?", ss[0])
			c := app("U_"+name, v.w.sortOf(rt), q)
			v.w.addAxiom("inj_"+name, forall([]Binder{{"a?", ss[0]}}, [][]*Term{{c}}, eq(app("UI_"+name, ss[0], c), q)))
			if v.e != nil {
				v.e.externs["specification function "+name+" assumed one-to-one"] = true
			}
		}
		if len(as) == 0 {
			t = sym("U_"+name, v.w.sortOf(rt))
		}
		v.addTrig(t)
		return Value{T: t, Typ: rt}
	}
	if p := v.w.DB.Preds[name]; p != nil {
		if len(args) != len(p.Params) {
			v.err(x, "pred %s wants %d arguments", name, len(p.Params))
		}
		n := *v
		n.vars = map[string]Value{}
		n.local = nil
		n.oldV = nil
		n.pkg = p.Pkg
		for i, q := range p.Params {
			a := v.eval(args[i])
			t := v.w.resolveType(q.Type, p.Pkg)
			if a.T.Sort == "nil" {
				a.T = v.w.zeroVal(t)
			}
			if want := v.w.sortOf(t); want != a.T.Sort {
				v.err(x, "argument %d of %s has sort %s, want %s", i, name, a.T.Sort, want)
			}
			n.vars[q.Name] = Value{T: a.T, Typ: t}
		}
		if v.depth > 60 {
			v.err(x, "recursive pred")
		}
		return n.eval(p.Body)
	}
	for i, l := range v.w.DB.Lemmas {
		if l.Name != name || !v.useLemma || i >= v.lemmaMax {
			continue
		}
		if len(args) != len(l.Params) {
			v.err(x, "lemma %s wants %d arguments", name, len(l.Params))
		}
		if v.e.lemmas == nil {
			v.e.lemmas = map[string]bool{}
		}
		v.e.lemmas[name] = true
		n := *v
		n.vars = map[string]Value{}
		n.local, n.oldV, n.pkg = nil, nil, l.Pkg
		pre := tTrue
		for i, q := range l.Params {
			a := v.eval(args[i])
			t := v.w.resolveType(q.Type, l.Pkg)
			if want := v.w.sortOf(t); want != a.T.Sort {
				v.err(x, "argument %d of %s has sort %s, want %s", i, name, a.T.Sort, want)
			}
			n.vars[q.Name] = Value{T: a.T, Typ: t}
			if q.Name == l.Induct {
				pre = and(pre, le(zero, a.T))
			}
		}
		for _, r := range l.Req {
			pre = and(pre, n.flip().evalBool(r.X))
		}
		post := tTrue
		for _, en := range l.Ens {
			post = and(post, n.evalBool(en.X))
		}
		return Value{T: imp(pre, post), Typ: boolTyp}
	}
	// conversions
	if t := v.w.tryResolve(&TypeX{Kind: "name", Name: name}, v.pkg); t != nil && len(args) == 1 {
		r := v.eval(args[0])
		return Value{T: r.T, Typ: t}
	}
	v.err(x, "unknown function %s", name)
	panic(0)
}
