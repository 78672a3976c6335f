package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an SMT-LIB term with its sort.
type Term struct {
	Op   string // symbol, literal, function symbol or "forall"/"exists"
	Args []*Term
	Sort string
	// quantifiers
	Bind []Binder
	Pats [][]*Term
	str  string
	size int
}

type Binder struct{ Name, Sort string }

func sym(name, sort string) *Term { return &Term{Op: name, Sort: sort} }

func (t *Term) isSym() bool { return len(t.Args) == 0 && len(t.Bind) == 0 }

func (t *Term) Size() int {
	if t.size == 0 {
		n := 1
		for _, a := range t.Args {
			n += a.Size()
		}
		t.size = n
	}
	return t.size
}

func (t *Term) String() string {
	if t.str != "" {
		return t.str
	}
	var s string
	switch {
	case len(t.Bind) > 0:
		var b strings.Builder
		b.WriteString("(" + t.Op + " (")
		for i, x := range t.Bind {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString("(" + x.Name + " " + x.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! " + t.Args[0].String())
			for _, p := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteString(" ")
					}
					b.WriteString(x.String())
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(t.Args[0].String())
		}
		b.WriteString(")")
		s = b.String()
	case len(t.Args) == 0:
		s = t.Op
	default:
		var b strings.Builder
		b.WriteString("(" + t.Op)
		for _, a := range t.Args {
			b.WriteString(" ")
			b.WriteString(a.String())
		}
		b.WriteString(")")
		s = b.String()
	}
	t.str = s
	return s
}

func eqT(a, b *Term) bool { return a == b || a.String() == b.String() }

var tTrue = sym("true", "Bool")
var tFalse = sym("false", "Bool")

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func intB(b *big.Int) *Term {
	if b.Sign() < 0 {
		return &Term{Op: "(- " + new(big.Int).Neg(b).String() + ")", Sort: "Int"}
	}
	return &Term{Op: b.String(), Sort: "Int"}
}
func intT(i int64) *Term { return intB(big.NewInt(i)) }

// constInt returns the value if t is an integer literal.
func constInt(t *Term) (*big.Int, bool) {
	if t.Sort != "Int" || len(t.Args) != 0 {
		return nil, false
	}
	s := t.Op
	neg := false
	if strings.HasPrefix(s, "(- ") {
		neg = true
		s = s[3 : len(s)-1]
	}
	if s == "" || s[0] < '0' || s[0] > '9' {
		return nil, false
	}
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return nil, false
	}
	if neg {
		b.Neg(b)
	}
	return b, true
}

func app(op, sort string, args ...*Term) *Term { return &Term{Op: op, Sort: sort, Args: args} }

func not(a *Term) *Term {
	if eqT(a, tTrue) {
		return tFalse
	}
	if eqT(a, tFalse) {
		return tTrue
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return app("not", "Bool", a)
}

func and(ts ...*Term) *Term {
	var o []*Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t == nil || t == tTrue || t.Op == "true" {
			continue
		}
		if t.Op == "false" {
			return tFalse
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !seen[x.String()] {
					seen[x.String()] = true
					o = append(o, x)
				}
			}
			continue
		}
		if !seen[t.String()] {
			seen[t.String()] = true
			o = append(o, t)
		}
	}
	if len(o) == 0 {
		return tTrue
	}
	if len(o) == 1 {
		return o[0]
	}
	return app("and", "Bool", o...)
}

func or(ts ...*Term) *Term {
	var o []*Term
	for _, t := range ts {
		if t.Op == "false" && t.isSym() {
			continue
		}
		if t.Op == "true" && t.isSym() {
			return tTrue
		}
		if t.Op == "or" {
			o = append(o, t.Args...)
			continue
		}
		o = append(o, t)
	}
	if len(o) == 0 {
		return tFalse
	}
	if len(o) == 1 {
		return o[0]
	}
	return app("or", "Bool", o...)
}

func imp(a, b *Term) *Term {
	if a.Op == "true" && a.isSym() {
		return b
	}
	if a.Op == "false" && a.isSym() {
		return tTrue
	}
	if b.Op == "true" && b.isSym() {
		return tTrue
	}
	if b.Op == "=>" {
		return imp(and(a, b.Args[0]), b.Args[1])
	}
	return app("=>", "Bool", a, b)
}

func ite(c, a, b *Term) *Term {
	if c.Op == "true" && c.isSym() {
		return a
	}
	if c.Op == "false" && c.isSym() {
		return b
	}
	if eqT(a, b) {
		return a
	}
	return app("ite", a.Sort, c, a, b)
}

func isCtor(t *Term) bool { return strings.HasPrefix(t.Op, "mk_") && len(t.Args) > 0 }

func eq(a, b *Term) *Term {
	if eqT(a, b) {
		return tTrue
	}
	if x, ok := constInt(a); ok {
		if y, ok := constInt(b); ok {
			return boolT(x.Cmp(y) == 0)
		}
	}
	if a.Sort == "Bool" {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return not(b)
		}
		if b.Op == "false" {
			return not(a)
		}
	}
	if isCtor(a) && isCtor(b) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, eq(a.Args[i], b.Args[i]))
		}
		return and(cs...)
	}
	if a.Sort == "Int" && b.Sort == "Int" {
		d := sub(a, b)
		if c, ok := constInt(d); ok {
			return boolT(c.Sign() == 0)
		}
	}
	return app("=", "Bool", a, b)
}

func neq(a, b *Term) *Term { return not(eq(a, b)) }

// ---- linear arithmetic normalisation

type lin struct {
	c     *big.Int
	order []string
	coef  map[string]*big.Int
	tm    map[string]*Term
}

func newLin() *lin {
	return &lin{c: new(big.Int), coef: map[string]*big.Int{}, tm: map[string]*Term{}}
}

func (l *lin) add(t *Term, k *big.Int) {
	if v, ok := constInt(t); ok {
		l.c.Add(l.c, new(big.Int).Mul(v, k))
		return
	}
	switch t.Op {
	case "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
		return
	case "-":
		if len(t.Args) == 1 {
			l.add(t.Args[0], new(big.Int).Neg(k))
			return
		}
		if len(t.Args) == 2 {
			l.add(t.Args[0], k)
			l.add(t.Args[1], new(big.Int).Neg(k))
			return
		}
	case "*":
		if len(t.Args) == 2 {
			if v, ok := constInt(t.Args[0]); ok {
				l.add(t.Args[1], new(big.Int).Mul(v, k))
				return
			}
		}
	}
	s := t.String()
	if _, ok := l.coef[s]; !ok {
		l.coef[s] = new(big.Int)
		l.tm[s] = t
		l.order = append(l.order, s)
	}
	l.coef[s].Add(l.coef[s], k)
}

func (l *lin) term() *Term {
	var pos []*Term
	one := big.NewInt(1)
	for _, s := range l.order {
		k := l.coef[s]
		if k.Sign() == 0 {
			continue
		}
		if k.Cmp(one) == 0 {
			pos = append(pos, l.tm[s])
		} else {
			pos = append(pos, app("*", "Int", intB(k), l.tm[s]))
		}
	}
	if l.c.Sign() != 0 || len(pos) == 0 {
		pos = append(pos, intB(l.c))
	}
	if len(pos) == 1 {
		return pos[0]
	}
	return app("+", "Int", pos...)
}

func add(a, b *Term) *Term {
	l := newLin()
	l.add(a, big.NewInt(1))
	l.add(b, big.NewInt(1))
	return l.term()
}
func sub(a, b *Term) *Term {
	l := newLin()
	l.add(a, big.NewInt(1))
	l.add(b, big.NewInt(-1))
	return l.term()
}
func mul(a, b *Term) *Term {
	if v, ok := constInt(a); ok {
		l := newLin()
		l.add(b, v)
		return l.term()
	}
	if v, ok := constInt(b); ok {
		l := newLin()
		l.add(a, v)
		return l.term()
	}
	return app("*", "Int", a, b)
}

func cmp(op string, a, b *Term) *Term {
	if a.Sort == "Int" {
		d := sub(a, b)
		if c, ok := constInt(d); ok {
			s := c.Sign()
			switch op {
			case "<":
				return boolT(s < 0)
			case "<=":
				return boolT(s <= 0)
			case ">":
				return boolT(s > 0)
			case ">=":
				return boolT(s >= 0)
			}
		}
	}
	return app(op, "Bool", a, b)
}
func lt(a, b *Term) *Term { return cmp("<", a, b) }
func le(a, b *Term) *Term { return cmp("<=", a, b) }

// ---- arrays

// arrElem returns the range sort of an array sort "(Array Int X)".
func arrRange(s string) string {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	// skip domain sort
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}
func arrDom(s string) string {
	r := arrRange(s)
	in := s[len("(Array ") : len(s)-1]
	return in[:len(in)-len(r)-1]
}

func sel(a, i *Term) *Term {
	if a.Op == "store" {
		if eqT(a.Args[1], i) {
			return a.Args[2]
		}
		if i.Sort == "Int" {
			if c, ok := constInt(sub(a.Args[1], i)); ok && c.Sign() != 0 {
				return sel(a.Args[0], i)
			}
		}
	}
	return app("select", arrRange(a.Sort), a, i)
}
func store(a, i, v *Term) *Term {
	if v.Sort != arrRange(a.Sort) {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.Sort, a.Sort))
	}
	return app("store", a.Sort, a, i, v)
}

func forall(bs []Binder, pats [][]*Term, body *Term) *Term {
	if body.Op == "true" {
		return body
	}
	return &Term{Op: "forall", Sort: "Bool", Bind: bs, Pats: pats, Args: []*Term{body}}
}
func exists(bs []Binder, body *Term) *Term {
	return &Term{Op: "exists", Sort: "Bool", Bind: bs, Args: []*Term{body}}
}

// collect free symbols (as strings) in t.
func (t *Term) symbols(out map[string]bool) {
	if len(t.Args) == 0 {
		out[t.Op] = true
		return
	}
	if len(t.Bind) == 0 {
		out[t.Op] = true
	}
	for _, a := range t.Args {
		a.symbols(out)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			x.symbols(out)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
