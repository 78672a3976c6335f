package main

import (
	"fmt"
	"os"
	"strings"
	"unicode"
)

// Sx is a specification expression.
type Sx struct {
	Op   string // ident, int, str, un, bin, sel, idx, slice, call, quant, ite
	Name string
	A    []*Sx
	Q    []QVar
	Pos  string
	Trig []*Sx
}

type QVar struct {
	Name string
	Type *TypeX
}

// TypeX is a type expression in a contract.
type TypeX struct {
	Kind string // name, slice, ptr, map
	Name string
	Elem *TypeX
	Key  *TypeX
}

func (t *TypeX) String() string {
	switch t.Kind {
	case "slice":
		return "[]" + t.Elem.String()
	case "ptr":
		return "*" + t.Elem.String()
	case "map":
		return "map[" + t.Key.String() + "]" + t.Elem.String()
	}
	return t.Name
}

type Clause struct {
	Label string
	X     *Sx
	Pos   string
}

type LoopSpec struct {
	N   int
	Inv []Clause
	Dec []Clause
	Use []Clause
}

type Pred struct {
	Name   string
	Params []QVar
	Body   *Sx
	Pkg    string
}

// Fold is a prefix fold over arrays of Elem: F(A,k,p...) = sum_{0<=j<k} Body(A[j],p...).
type Fold struct {
	Name   string
	Elem   QVar
	Params []QVar
	Body   *Sx
	Pkg    string
	NonNeg bool
	Count  bool // body is 0/1
}

type Contract struct {
	Key        string
	Params     []string
	Results    []string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []*Sx
	Unproved   []Clause
	Entry      []Clause // proved from the preconditions at entry, then assumed
	Loops      map[int]*LoopSpec
	InnerLoops map[string]*LoopSpec // loops of functions inlined into this one, by "key#n", over this function's variables
	Extern     bool
	Inline     bool
	Lemmas     []Clause
	Use        []Clause
	Asserts    map[string][]Clause // "exit"
	Mode       string              // "" or "bv"
	Pos        string
	Pkg        string
	Pure       bool
	NoTerm     bool
	Note       string
	Monitors   []*Monitor
	Chans      []ChanSpec
}

type SpecDB struct {
	Preds     map[string]*Pred
	Folds     map[string]*Fold
	Contracts map[string]*Contract
	Order     []string
	Lemmas    []*LemmaDecl
	UFs       map[string]*UFDecl
	Ghosts    map[string]*UFDecl // mutable specification state
}

// UFDecl is an uninterpreted specification function.
type UFDecl struct {
	Name      string
	Params    []QVar
	Ret       *TypeX
	Pkg       string
	Injective bool // assumed one-to-one (single parameter)
}

// LemmaDecl is a pure statement over spec vars, proved by the solver from requires.
type LemmaDecl struct {
	Mode   string
	Name   string
	Params []QVar
	Req    []Clause
	Ens    []Clause
	Pkg    string
	Axiom  bool
	Induct string   // variable of an induction: proved for 0, and from k >= 0 for k+1
	Use    []Clause // instances of earlier lemmas
}

type tok struct {
	k    string // id int str op eof
	s    string
	line int
}

type parser_ struct {
	file string
	toks []tok
	p    int
}

func lexSpec(file, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "<=", ">=", "==", "!=", "&&", "||", "<", ">", "+", "-", "*", "/", "%", "!", "&", "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "=", "?"}
	for i < len(src) {
		c := src[i]
		if c == '\n' {
			line++
			i++
			continue
		}
		if unicode.IsSpace(rune(c)) {
			i++
			continue
		}
		if c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/') {
			for i < len(src) && src[i] != '\n' {
				i++
			}
			continue
		}
		if c == '"' {
			j := i + 1
			for src[j] != '"' {
				j++
			}
			ts = append(ts, tok{"str", src[i+1 : j], line})
			i = j + 1
			continue
		}
		if unicode.IsLetter(rune(c)) || c == '_' || c == '$' {
			j := i + 1
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'') {
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
			continue
		}
		if unicode.IsDigit(rune(c)) {
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(src[i:], o) {
				ts = append(ts, tok{"op", o, line})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			panic(fmt.Sprintf("%s:%d: bad character %q", file, line, c))
		}
	}
	return append(ts, tok{"eof", "", line})
}

func (p *parser_) peek() tok { return p.toks[p.p] }
func (p *parser_) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser_) is(s string) bool {
	return p.peek().s == s && p.peek().k != "str"
}
func (p *parser_) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser_) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s + ", got " + p.peek().s)
	}
}
func (p *parser_) fail(m string) {
	panic(fmt.Sprintf("%s:%d: %s", p.file, p.peek().line, m))
}
func (p *parser_) pos() string { return fmt.Sprintf("%s:%d", p.file, p.peek().line) }
func (p *parser_) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("identifier expected, got " + t.s)
	}
	return t.s
}

func (p *parser_) typ() *TypeX {
	if p.accept("[") {
		p.expect("]")
		return &TypeX{Kind: "slice", Elem: p.typ()}
	}
	if p.accept("*") {
		return &TypeX{Kind: "ptr", Elem: p.typ()}
	}
	n := p.ident()
	if n == "map" {
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeX{Kind: "map", Key: k, Elem: p.typ()}
	}
	if p.accept(".") {
		n += "." + p.ident()
	}
	return &TypeX{Kind: "name", Name: n}
}

func (p *parser_) qvars(end string) []QVar {
	var q []QVar
	for !p.is(end) {
		n := p.ident()
		q = append(q, QVar{n, p.typ()})
		if !p.accept(",") {
			break
		}
	}
	return q
}

func (p *parser_) expr() *Sx { return p.bin(1) }

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser_) bin(min int) *Sx {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if !ok || t.k != "op" || pr < min {
			return l
		}
		pos := p.pos()
		p.next()
		var r *Sx
		switch {
		case t.s == "==>":
			r = p.bin(pr)
			l = &Sx{Op: "bin", Name: t.s, A: []*Sx{l, r}, Pos: pos}
		case pr == 5:
			r = p.bin(pr + 1)
			res := &Sx{Op: "bin", Name: t.s, A: []*Sx{l, r}, Pos: pos}
			last := r
			for binPrec[p.peek().s] == 5 && p.peek().k == "op" {
				o := p.next().s
				r2 := p.bin(pr + 1)
				res = &Sx{Op: "bin", Name: "&&", A: []*Sx{res, {Op: "bin", Name: o, A: []*Sx{last, r2}, Pos: pos}}, Pos: pos}
				last = r2
			}
			l = res
		default:
			r = p.bin(pr + 1)
			l = &Sx{Op: "bin", Name: t.s, A: []*Sx{l, r}, Pos: pos}
		}
	}
}

func (p *parser_) unary() *Sx {
	pos := p.pos()
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Sx{Op: "un", Name: t.s, A: []*Sx{p.unary()}, Pos: pos}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") && p.p+1 < len(p.toks) && p.toks[p.p+1].k == "id" {
		p.next()
		q := p.qvars("::")
		var trig []*Sx
		if p.accept("{") {
			trig = append(trig, p.expr())
			for p.accept(",") {
				trig = append(trig, p.expr())
			}
			p.expect("}")
		}
		p.expect("::")
		b := p.bin(1)
		return &Sx{Op: "quant", Name: t.s, Q: q, A: []*Sx{b}, Pos: pos, Trig: trig}
	}
	return p.postfix()
}

func (p *parser_) postfix() *Sx {
	pos := p.pos()
	var x *Sx
	t := p.next()
	switch {
	case t.k == "int":
		x = &Sx{Op: "int", Name: t.s, Pos: pos}
	case t.k == "str":
		x = &Sx{Op: "str", Name: t.s, Pos: pos}
	case t.k == "id":
		x = &Sx{Op: "ident", Name: t.s, Pos: pos}
	case t.s == "(":
		x = p.expr()
		p.expect(")")
	default:
		p.p--
		p.fail("unexpected " + t.s)
	}
	for {
		switch {
		case p.accept("."):
			x = &Sx{Op: "sel", Name: p.ident(), A: []*Sx{x}, Pos: pos}
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				x = &Sx{Op: "slice", A: []*Sx{x, nil, hi}, Pos: pos}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Sx
				if !p.is("]") {
					hi = p.expr()
				}
				p.expect("]")
				x = &Sx{Op: "slice", A: []*Sx{x, i, hi}, Pos: pos}
				continue
			}
			p.expect("]")
			x = &Sx{Op: "idx", A: []*Sx{x, i}, Pos: pos}
		case p.accept("("):
			c := &Sx{Op: "call", A: []*Sx{x}, Pos: pos}
			for !p.is(")") {
				c.A = append(c.A, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			x = c
		default:
			return x
		}
	}
}

func (p *parser_) clause() Clause {
	c := Clause{Pos: p.pos()}
	if p.peek().k == "id" && p.toks[p.p+1].s == ":" && p.toks[p.p+1].k == "op" {
		c.Label = p.ident()
		p.expect(":")
	}
	c.X = p.expr()
	p.expect(";")
	return c
}

// ParseSpecs reads one contract file into db.
func ParseSpecs(file string, db *SpecDB) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	p := &parser_{file: file, toks: lexSpec(file, string(b))}
	pkg := ""
	for p.peek().k != "eof" {
		pos := p.pos()
		switch kw := p.ident(); kw {
		case "package":
			pkg = p.ident()
			p.expect(";")
		case "pred":
			pr := &Pred{Name: p.ident(), Pkg: pkg}
			p.expect("(")
			pr.Params = p.qvars(")")
			p.expect(")")
			p.expect("{")
			pr.Body = p.expr()
			p.expect("}")
			if db.Preds[pr.Name] != nil {
				return fmt.Errorf("%s: duplicate pred %s", pos, pr.Name)
			}
			db.Preds[pr.Name] = pr
		case "ghost":
			u := &UFDecl{Name: p.ident(), Pkg: pkg}
			p.expect("(")
			u.Params = p.qvars(")")
			p.expect(")")
			u.Ret = p.typ()
			p.expect(";")
			db.Ghosts[u.Name] = u
		case "uf":
			u := &UFDecl{Name: p.ident(), Pkg: pkg}
			p.expect("(")
			u.Params = p.qvars(")")
			p.expect(")")
			u.Ret = p.typ()
			if p.peek().k == "id" && p.peek().s == "injective" {
				p.next()
				u.Injective = true
			}
			p.expect(";")
			db.UFs[u.Name] = u
		case "fold":
			f := &Fold{Name: p.ident(), Pkg: pkg}
			p.expect("(")
			n := p.ident()
			f.Elem = QVar{n, p.typ()}
			if p.accept(";") {
				f.Params = p.qvars(")")
			}
			p.expect(")")
			for p.peek().k == "id" {
				switch fl := p.ident(); fl {
				case "nonneg":
					f.NonNeg = true
				case "count":
					f.Count = true
					f.NonNeg = true
				}
			}
			p.expect("{")
			f.Body = p.expr()
			p.expect("}")
			db.Folds[f.Name] = f
		case "lemma", "axiom":
			l := &LemmaDecl{Name: p.ident(), Pkg: pkg, Axiom: kw == "axiom"}
			p.expect("(")
			l.Params = p.qvars(")")
			p.expect(")")
			p.expect("{")
			for !p.accept("}") {
				switch w := p.ident(); w {
				case "requires":
					l.Req = append(l.Req, p.clause())
				case "ensures":
					l.Ens = append(l.Ens, p.clause())
				case "mode":
					l.Mode = p.ident()
					p.expect(";")
				case "induction":
					l.Induct = p.ident()
					p.expect(";")
				case "use":
					l.Use = append(l.Use, p.clause())
				default:
					p.fail("unknown lemma clause " + w)
				}
			}
			db.Lemmas = append(db.Lemmas, l)
		case "contract", "extern":
			c := &Contract{Extern: kw == "extern", Loops: map[int]*LoopSpec{}, InnerLoops: map[string]*LoopSpec{}, Pos: pos, Pkg: pkg}
			key := p.ident()
			for p.accept(".") {
				key += "." + p.ident()
			}
			c.Key = key
			p.expect("(")
			for !p.is(")") {
				c.Params = append(c.Params, p.ident())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if p.accept("(") {
				for !p.is(")") {
					c.Results = append(c.Results, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			p.expect("{")
			for !p.accept("}") {
				switch w := p.ident(); w {
				case "requires":
					c.Requires = append(c.Requires, p.clause())
				case "ensures":
					c.Ensures = append(c.Ensures, p.clause())
				case "lemma":
					c.Lemmas = append(c.Lemmas, p.clause())
				case "use": // instances of proved lemmas, assumed at entry and at each return
					c.Use = append(c.Use, p.clause())
				case "modifies":
					for {
						c.Modifies = append(c.Modifies, p.expr())
						if !p.accept(",") {
							break
						}
					}
					p.expect(";")
				case "unproved": // unproved when EXPR: executions where EXPR holds at entry are assumed, not proved
					if w := p.ident(); w != "when" {
						p.fail("expected when")
					}
					c.Unproved = append(c.Unproved, p.clause())
				case "monitor":
					c.Monitors = append(c.Monitors, p.monitor())
				case "receives", "sends", "closes", "closed", "awaits", "calls":
					n := p.ident()
					for w == "calls" && p.accept(".") {
						n += "." + p.ident()
					}
					var mod []*Sx
					for p.accept("modifies") || len(mod) > 0 && p.accept(",") {
						mod = append(mod, p.expr())
					}
					p.expect(":")
					c.Chans = append(c.Chans, ChanSpec{w, n, mod, p.clause()})
				case "entry":
					c.Entry = append(c.Entry, p.clause())
				case "mode":
					c.Mode = p.ident()
					p.expect(";")
				case "inline":
					c.Inline = true
					p.expect(";")
				case "noterm":
					c.NoTerm = true
					p.expect(";")
				case "note":
					c.Note = p.next().s
					p.expect(";")
				case "loop":
					in := ""
					if p.peek().k == "id" { // loop pkg.Func N: a loop of an inlined function
						in = p.ident()
						for p.accept(".") {
							in += "." + p.ident()
						}
					}
					t := p.next()
					n := 0
					fmt.Sscan(t.s, &n)
					ls := &LoopSpec{N: n}
					p.expect("{")
					for !p.accept("}") {
						switch w := p.ident(); w {
						case "invariant":
							ls.Inv = append(ls.Inv, p.clause())
						case "use":
							ls.Use = append(ls.Use, p.clause())
						case "decreases":
							ls.Dec = append(ls.Dec, p.clause())
						default:
							p.fail("unknown loop clause " + w)
						}
					}
					if in != "" {
						c.InnerLoops[fmt.Sprintf("%s#%d", in, n)] = ls
					} else {
						c.Loops[n] = ls
					}
				default:
					p.fail("unknown clause " + w)
				}
			}
			if db.Contracts[c.Key] != nil {
				return fmt.Errorf("%s: duplicate contract %s", pos, c.Key)
			}
			db.Contracts[c.Key] = c
			db.Order = append(db.Order, c.Key)
		default:
			return fmt.Errorf("%s: unknown top-level %q", pos, kw)
		}
	}
	return nil
}
