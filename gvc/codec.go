package main

// Codec verification: MarshalMsg, EncodeMsg, UnmarshalMsg, DecodeMsg and Msgsize of each stored type, by symbolic
// execution over token sequences.
//
// Contracts, the same for every type T with stored parts F (contracts/codec.own names them):
//   z.MarshalMsg(b)      returns b extended by enc(z) and no error, where enc(z) is the token sequence the body produces
//   z.EncodeMsg(en)      writes a token sequence enc'(z), or returns an error when a write failed
//   z.UnmarshalMsg(bs)   for bs = enc(v) ++ rest or enc'(v) ++ rest: returns rest, no error, and every stored part of z equals that of v,
//                        whatever z held before
//   z.DecodeMsg(dc)      the same for a stream
//   z.Msgsize()          at least the largest size of enc(z) and of enc'(z)
// Calls of these methods on parts use the contract of the part's type. Loops over the parts of a collection are decided for one
// arbitrary part (an inductive argument: the collection's encoding is the concatenation of the parts' encodings).

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

// csum is a sum: constant, multiples of non-negative atoms, sums over collections.
type csum struct {
	c    int64
	at   map[string]int64
	sums map[string]*csum
}

func num(n int64) *csum { return &csum{c: n} }
func atom(a string) *csum {
	return &csum{at: map[string]int64{a: 1}}
}
func (a *csum) add(b *csum, k int64) *csum {
	r := &csum{c: a.c + k*b.c, at: map[string]int64{}, sums: map[string]*csum{}}
	for x, n := range a.at {
		r.at[x] += n
	}
	for x, n := range b.at {
		r.at[x] += k * n
	}
	for x, n := range a.sums {
		r.sums[x] = n
	}
	for x, n := range b.sums {
		if o := r.sums[x]; o != nil {
			r.sums[x] = o.add(n, k)
		} else {
			r.sums[x] = num(0).add(n, k)
		}
	}
	for x, n := range r.at {
		if n == 0 {
			delete(r.at, x)
		}
	}
	for x, n := range r.sums {
		if n.zero() {
			delete(r.sums, x)
		}
	}
	return r
}
func (a *csum) zero() bool      { return a.c == 0 && len(a.at) == 0 && len(a.sums) == 0 }
func (a *csum) isConst() bool   { return len(a.at) == 0 && len(a.sums) == 0 }
func (a *csum) eq(b *csum) bool { return a.add(b, -1).zero() }
func (a *csum) nonneg() bool {
	if a.c < 0 {
		return false
	}
	for _, n := range a.at {
		if n < 0 {
			return false
		}
	}
	for _, s := range a.sums {
		if !s.nonneg() {
			return false
		}
	}
	return true
}
func (a *csum) String() string {
	var p []string
	for _, k := range sortedKeys(a.at) {
		p = append(p, fmt.Sprintf("%d*%s", a.at[k], k))
	}
	for _, k := range sortedKeys(a.sums) {
		p = append(p, fmt.Sprintf("sum over %s of (%s)", k, a.sums[k]))
	}
	if a.c != 0 || len(p) == 0 {
		p = append(p, fmt.Sprint(a.c))
	}
	return strings.Join(p, " + ")
}

// ctok is a token of an encoding.
type ctok struct {
	kind  string // map arr str int uint float bool bytes nil val rep
	n     *csum  // map, arr: number of entries
	name  string // value written; val: path of the part
	lit   string // str: constant (key) when isLit
	isLit bool
	bits  int
	typ   *types.Named // val
	over  string       // rep: collection
	idx   string       // rep: index name
	toks  []ctok       // rep
	size  int64        // exact size when known, else 0
}

func (t ctok) String() string {
	switch t.kind {
	case "map", "arr":
		return fmt.Sprintf("%s(%s)", t.kind, t.n)
	case "str":
		if t.isLit {
			return fmt.Sprintf("%q", t.lit)
		}
	case "val":
		return fmt.Sprintf("%s(%s)", t.typ.Obj().Name(), t.name)
	case "rep":
		return fmt.Sprintf("each %s {%s}", t.over, tokString(t.toks))
	case "nil":
		return "nil"
	case "end":
		return "end of part"
	}
	return fmt.Sprintf("%s%d(%s)", t.kind, t.bits, t.name)
}
func tokString(ts []ctok) string {
	var p []string
	for _, t := range ts {
		p = append(p, t.String())
	}
	return strings.Join(p, " ")
}

// substitute names
func (a *csum) rename(f func(string) string) *csum {
	r := &csum{c: a.c, at: map[string]int64{}, sums: map[string]*csum{}}
	for x, n := range a.at {
		r.at[f(x)] += n
	}
	for x, n := range a.sums {
		r.sums[f(x)] = n.rename(f)
	}
	return r
}
func renameToks(ts []ctok, f func(string) string) []ctok {
	var r []ctok
	for _, t := range ts {
		if t.n != nil {
			t.n = t.n.rename(f)
		}
		t.name, t.over = f(t.name), f(t.over)
		t.toks = renameToks(t.toks, f)
		r = append(r, t)
	}
	return r
}

// rebase renames the root v to path p.
func rebase(p string) func(string) string {
	return func(s string) string { return subRoot(s, "v", p) }
}
func subRoot(s, root, p string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], root) && (i == 0 || !identByte(s[i-1])) && (i+len(root) == len(s) || !identByte(s[i+len(root)])) && (i == 0 || s[i-1] != '.') {
			b.WriteString(p)
			i += len(root)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}
func identByte(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// cval is a value.
type cval struct {
	k    string // num sym bytes rest err nil bool str ptr slice map stream opaque
	lin  *csum
	name string // sym: name; ptr, slice, map: path
	typ  types.Type
	toks []ctok
	b    bool
	s    string
	bad  bool   // err: not nil; map: may hold old entries
	tail string // rest: what follows
}

func (v cval) String() string {
	switch v.k {
	case "num":
		return v.lin.String()
	case "bytes":
		return "b ++ " + tokString(v.toks)
	case "rest":
		return tokString(v.toks) + " ++ " + v.tail
	case "str":
		return fmt.Sprintf("%q", v.s)
	case "err":
		if v.bad {
			return "an error"
		}
		return "nil"
	}
	return v.k + " " + v.name
}

type cst struct {
	vars map[types.Object]cval
	mem  map[string]cval
	toks []ctok // stream: written so far, or still to be read
	asm  map[string]bool
	fail bool // a write or read failed
	// functions around the codecs (pairs.go)
	ext    bool // something outside failed
	skip   bool // the result comes from elsewhere
	pre    map[ast.Expr][]cval
	defers []*ast.CallExpr
	events []string
}

func (s *cst) clone() *cst {
	r := &cst{vars: map[types.Object]cval{}, mem: map[string]cval{}, asm: map[string]bool{}, toks: append([]ctok(nil), s.toks...), fail: s.fail, ext: s.ext, skip: s.skip}
	for k, v := range s.pre {
		if r.pre == nil {
			r.pre = map[ast.Expr][]cval{}
		}
		r.pre[k] = v
	}
	r.defers = append(r.defers, s.defers...)
	r.events = append(r.events, s.events...)
	for k, v := range s.vars {
		r.vars[k] = v
	}
	for k, v := range s.mem {
		r.mem[k] = v
	}
	for k, v := range s.asm {
		r.asm[k] = v
	}
	return r
}

type cout struct {
	st   *cst
	kind string // fall return break continue
	ret  []cval
}

type cvariant struct {
	asm  map[string]bool
	toks []ctok
}

type codecErr struct {
	pos token.Pos
	msg string
}

type codec struct {
	prog   *Program
	stored map[string][]string
	order  []string
	named  map[string]*types.Named
	// function under execution
	pkg      *Pkg
	mode     string // encode decode size
	root     string
	nidx     int
	enc      map[string][]cvariant // type + method -> encodings
	reads    int
	depth    int
	inlined  map[string]bool
	loopVars []types.Object
	// range of the number of parts a foreign encoding announces
	otherLo, otherHi int64
	// functions around the codecs (pairs.go)
	loose   bool
	errVars map[types.Object]bool
	nobj    int
	partner *cpair
}

func (c *codec) bad(n ast.Node, f string, a ...interface{}) {
	panic(codecErr{n.Pos(), fmt.Sprintf(f, a...)})
}

var codecMethods = map[string]bool{"MarshalMsg": true, "EncodeMsg": true, "UnmarshalMsg": true, "DecodeMsg": true, "Msgsize": true}

const msgpPath = "github.com/tinylib/msgp/msgp"

// method of a stored type, the receiver's path
func (c *codec) method(st *cst, x *ast.CallExpr) (T *types.Named, m string, recv ast.Expr, fn *types.Func) {
	se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr)
	if !ok {
		return
	}
	sel := c.pkg.Info.Selections[se]
	if sel == nil || sel.Kind() != types.MethodVal {
		return
	}
	f := sel.Obj().(*types.Func)
	if !codecMethods[f.Name()] {
		return
	}
	r := f.Type().(*types.Signature).Recv().Type()
	if p, ok := r.(*types.Pointer); ok {
		r = p.Elem()
	}
	nt, ok := r.(*types.Named)
	if !ok {
		return
	}
	return nt, f.Name(), se.X, f
}

// ---- locations

// path resolves an expression to a location, "" when it is none.
func (c *codec) path(st *cst, x ast.Expr) string { return c.pathOf(st, x, false) }

// pathOf: raw leaves a pointer at the end as it is.
func (c *codec) pathOf(st *cst, x ast.Expr, raw bool) string {
	switch x := ast.Unparen(x).(type) {
	case *ast.Ident:
		o := c.obj(x)
		if v, ok := st.vars[o]; ok && (v.k == "ptr" || v.k == "loc") {
			return v.name
		}
	case *ast.StarExpr:
		return c.path(st, x.X)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return c.path(st, x.X)
		}
	case *ast.SelectorExpr:
		sel := c.pkg.Info.Selections[x]
		if sel == nil || sel.Kind() != types.FieldVal {
			return ""
		}
		p := c.path(st, x.X)
		if p == "" {
			return ""
		}
		p += c.fieldPath(sel.Recv(), sel.Index())
		if !raw {
			if v, ok := st.mem[p]; ok && v.k == "ptr" {
				return v.name
			}
		}
		return p
	case *ast.IndexExpr:
		p := c.path(st, x.X)
		if p == "" {
			return ""
		}
		if _, ok := c.pkg.Info.TypeOf(x.X).Underlying().(*types.Map); ok {
			return ""
		}
		i := c.eval1(st, x.Index)
		if i.k == "sym" && strings.HasPrefix(i.name, "$") {
			return p + "[" + i.name + "]"
		}
		c.bad(x, "index %s is not the position of the part under consideration", i)
	}
	return ""
}

func (c *codec) fieldPath(t types.Type, idx []int) string {
	s := ""
	for _, i := range idx {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		f := t.Underlying().(*types.Struct).Field(i)
		s += "." + f.Name()
		t = f.Type()
	}
	return s
}

func (c *codec) obj(id *ast.Ident) types.Object {
	if o := c.pkg.Info.Defs[id]; o != nil {
		return o
	}
	return c.pkg.Info.Uses[id]
}

// read a location
func (c *codec) load(st *cst, p string, t types.Type) cval {
	if v, ok := st.mem[p]; ok {
		v.typ = t
		return v
	}
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '.' || p[i] == '[' {
			if v, ok := st.mem[p[:i]]; ok {
				if v.k == "sym" {
					return cval{k: "sym", name: v.name + p[i:], typ: t}
				}
			}
		}
	}
	if c.mode == "decode" {
		return cval{k: "sym", name: "old:" + p, typ: t}
	}
	return cval{k: "sym", name: p, typ: t}
}

func (c *codec) store(st *cst, p string, v cval) {
	for k := range st.mem {
		if strings.HasPrefix(k, p) && len(k) > len(p) && (k[len(p)] == '.' || k[len(p)] == '[') {
			delete(st.mem, k)
		}
	}
	st.mem[p] = v
}

// ---- values

func intRange(t types.Type) (bits int, uns, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, false, true
	case types.Uint, types.Uint64:
		return 64, true, true
	case types.Int32:
		return 32, false, true
	case types.Uint32:
		return 32, true, true
	case types.Int16:
		return 16, false, true
	case types.Uint16:
		return 16, true, true
	case types.Int8:
		return 8, false, true
	case types.Uint8:
		return 8, true, true
	}
	return
}

// every value of kind (bits, uns) is one of type t
func fits(bits int, uns bool, t types.Type) bool {
	b, u, ok := intRange(t)
	if !ok {
		return false
	}
	if uns == u {
		return bits <= b
	}
	return uns && bits < b
}

func asLin(v cval) *csum {
	if v.k == "num" {
		return v.lin
	}
	if v.k == "sym" {
		return atom(v.name)
	}
	return nil
}

func (c *codec) eval1(st *cst, x ast.Expr) cval {
	r := c.eval(st, x)
	if len(r) != 1 {
		c.bad(x, "one value expected")
	}
	return r[0]
}

// eval of an expression without forking; writes to the stream are statements.
func (c *codec) eval(st *cst, x ast.Expr) []cval {
	x = ast.Unparen(x)
	if tv, ok := c.pkg.Info.Types[x]; ok && tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(tv.Value); ok {
				return []cval{{k: "num", lin: num(n), typ: tv.Type}}
			}
		case constant.String:
			return []cval{{k: "str", s: constant.StringVal(tv.Value), typ: tv.Type}}
		case constant.Bool:
			return []cval{{k: "bool", b: constant.BoolVal(tv.Value)}}
		}
		return []cval{{k: "opaque", name: tv.Value.String()}}
	}
	switch x := x.(type) {
	case *ast.Ident:
		if x.Name == "nil" {
			return []cval{{k: "nil"}}
		}
		o := c.obj(x)
		if v, ok := st.vars[o]; ok {
			if v.k == "loc" {
				return []cval{c.load(st, v.name, o.Type())}
			}
			return []cval{v}
		}
		if c.loose && c.errVar(o) {
			return []cval{{k: "err", bad: true}}
		}
		return []cval{{k: "opaque", name: x.Name, typ: c.pkg.Info.TypeOf(x)}}
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		if p := c.path(st, x); p != "" {
			t := c.pkg.Info.TypeOf(x)
			if _, ok := t.Underlying().(*types.Pointer); ok {
				if v, ok := st.mem[c.pathOf(st, x, true)]; ok {
					return []cval{v}
				}
				return []cval{{k: "ptr", name: p, typ: t}}
			}
			return []cval{c.load(st, p, t)}
		}
		if ix, ok := x.(*ast.IndexExpr); ok {
			if _, isMap := c.pkg.Info.TypeOf(ix.X).Underlying().(*types.Map); isMap {
				return []cval{{k: "opaque", name: "map entry"}}
			}
		}
		return []cval{{k: "opaque", name: "?", typ: c.pkg.Info.TypeOf(x)}}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if p := c.path(st, x.X); p != "" {
				return []cval{{k: "ptr", name: p}}
			}
			if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				if c.loose {
					if v := c.composite(st, cl); v.k == "lit" {
						return []cval{{k: "ptr", name: v.name}}
					}
				}
				return []cval{{k: "new"}}
			}
		}
		return []cval{{k: "opaque", name: "?"}}
	case *ast.BinaryExpr:
		a, b := c.eval1(st, x.X), c.eval1(st, x.Y)
		la, lb := asLin(a), asLin(b)
		if la != nil && lb != nil {
			switch x.Op {
			case token.ADD:
				return []cval{{k: "num", lin: la.add(lb, 1)}}
			case token.SUB:
				return []cval{{k: "num", lin: la.add(lb, -1)}}
			case token.MUL:
				if lb.isConst() {
					return []cval{{k: "num", lin: num(0).add(la, lb.c)}}
				}
				if la.isConst() {
					return []cval{{k: "num", lin: num(0).add(lb, la.c)}}
				}
			}
		}
		if t, known := c.truth(st, x); known {
			return []cval{{k: "bool", b: t}}
		}
		return []cval{{k: "opaque", name: "?"}}
	case *ast.CompositeLit:
		t := c.pkg.Info.TypeOf(x)
		if types.Implements(t, errorIface()) {
			return []cval{{k: "err", bad: true}}
		}
		switch t.Underlying().(type) {
		case *types.Map:
			if len(x.Elts) == 0 {
				return []cval{{k: "map"}}
			}
		case *types.Slice:
			if len(x.Elts) == 0 {
				return []cval{{k: "slice", lin: num(0)}}
			}
		}
		if c.loose {
			return []cval{c.composite(st, x)}
		}
		return []cval{{k: "opaque", name: "composite"}}
	case *ast.SliceExpr:
		p := c.path(st, x.X)
		if p != "" && x.Low == nil && x.High != nil && x.Max == nil {
			n := asLin(c.eval1(st, x.High))
			if n != nil {
				if m, ok := st.mem[p]; !n.zero() && !st.asm["cap:"+p+">="+n.String()] && !(ok && m.k == "slice" && m.lin != nil && m.lin.eq(n)) {
					c.bad(x, "%s may have no room for %s parts", p, n)
				}
				return []cval{{k: "slice", lin: n, name: p}}
			}
		}
		return []cval{{k: "opaque", name: "slice"}}
	case *ast.CallExpr:
		if v, ok := st.pre[x]; ok {
			return v
		}
		return c.call(st, x)
	case *ast.TypeAssertExpr:
		if c.loose {
			if v, ok := c.pooled(st, x); ok {
				return v
			}
		}
		return []cval{{k: "opaque", name: "?"}}
	case *ast.FuncLit:
		return []cval{{k: "opaque", name: "function"}}
	}
	c.bad(x, "unsupported expression %T", x)
	return nil
}

func errorIface() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

// next token of a value under way
func (c *codec) head(st *cst, n ast.Node, in []ctok) (ctok, []ctok) {
	for len(in) > 0 && in[0].kind == "val" {
		t := in[0]
		e := c.expand(n, t)
		in = append(append([]ctok(nil), e...), in[1:]...)
	}
	if len(in) == 0 {
		c.bad(n, "reads beyond the end of the encoding")
	}
	return in[0], in[1:]
}

func (c *codec) expand(n ast.Node, t ctok) []ctok {
	vs := c.enc[t.typ.Obj().Name()+".MarshalMsg"]
	if len(vs) != 1 {
		c.bad(n, "the encoding of %s is not known here", t.typ.Obj().Name())
	}
	c.nidx++
	return renameToks(vs[0].toks, rebase(t.name))
}

// read decides what a reading function returns for the next token.
func (c *codec) read(st *cst, n ast.Node, what string, in []ctok) (v cval, rest []ctok) {
	t, rest := c.head(st, n, in)
	mismatch := func() { c.bad(n, "reads %s where %s was written", what, t) }
	switch what {
	case "ReadMapHeader", "ReadArrayHeader":
		k := map[string]string{"ReadMapHeader": "map", "ReadArrayHeader": "arr"}[what]
		if t.kind != k {
			mismatch()
		}
		return cval{k: "num", lin: t.n}, rest
	case "ReadString", "ReadMapKeyPtr", "ReadMapKey", "ReadMapKeyZC", "ReadStringZC":
		if t.kind != "str" {
			mismatch()
		}
		if t.isLit {
			return cval{k: "str", s: t.lit}, rest
		}
		return cval{k: "sym", name: t.name, typ: types.Typ[types.String]}, rest
	case "ReadBytes":
		if t.kind != "bytes" {
			mismatch()
		}
		return cval{k: "sym", name: t.name, typ: types.NewSlice(types.Typ[types.Byte])}, rest
	case "ReadBool":
		if t.kind != "bool" {
			mismatch()
		}
		return cval{k: "sym", name: t.name, typ: types.Typ[types.Bool]}, rest
	case "ReadFloat64":
		if t.kind != "float" || t.bits != 64 {
			mismatch()
		}
		return cval{k: "sym", name: t.name, typ: types.Typ[types.Float64]}, rest
	case "ReadByte":
		if t.kind != "byte" {
			mismatch()
		}
		return cval{k: "num", lin: t.n}, rest
	case "ReadNil":
		if t.kind != "nil" {
			mismatch()
		}
		return cval{k: "nil"}, rest
	}
	if strings.HasPrefix(what, "ReadInt") || strings.HasPrefix(what, "ReadUint") {
		rt := basicNamed(strings.TrimPrefix(what, "Read"))
		if what == "ReadUint8" && t.kind == "byte" && (t.n.isConst() && t.n.c < 128 || !t.n.isConst()) {
			return cval{k: "num", lin: t.n}, rest
		}
		if rt != nil && (t.kind == "int" || t.kind == "uint") {
			if t.isLit && !t.n.isConst() && t.kind == "int" && fits(64, false, rt) {
				return cval{k: "num", lin: t.n}, rest
			}
			if t.isLit && t.n.isConst() && t.n.c >= 0 && t.n.c < 128 { // fits every integer type
				return cval{k: "num", lin: t.n}, rest
			}
			if !t.isLit && fits(t.bits, t.kind == "uint", rt) {
				return cval{k: "sym", name: t.name, typ: rt, s: fmt.Sprint(t.kind, t.bits)}, rest
			}
		}
		mismatch()
	}
	c.bad(n, "unsupported reader %s", what)
	return
}

func basicNamed(s string) types.Type {
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		if strings.EqualFold(types.Typ[k].Name(), s) {
			return types.Typ[k]
		}
	}
	return nil
}

// token for a written value
func (c *codec) written(n ast.Node, what string, v cval) ctok {
	mism := func() { c.bad(n, "%s of %s", what, v) }
	switch what {
	case "MapHeader", "ArrayHeader":
		l := asLin(v)
		if l == nil {
			mism()
		}
		return ctok{kind: map[string]string{"MapHeader": "map", "ArrayHeader": "arr"}[what], n: l, size: 5}
	case "String":
		if v.k == "str" {
			return ctok{kind: "str", lit: v.s, isLit: true, size: int64(len(v.s)) + strHead(len(v.s))}
		}
		if v.k != "sym" || !isString(v.typ) {
			mism()
		}
		return ctok{kind: "str", name: v.name}
	case "Bytes":
		if v.k != "sym" {
			mism()
		}
		return ctok{kind: "bytes", name: v.name}
	case "Bool":
		if v.k != "sym" {
			mism()
		}
		return ctok{kind: "bool", name: v.name}
	case "Float64":
		if v.k != "sym" {
			mism()
		}
		return ctok{kind: "float", bits: 64, name: v.name}
	case "Nil":
		return ctok{kind: "nil"}
	case "Byte":
		if v.k != "num" || !v.lin.isConst() || !c.loose {
			mism()
		}
		return ctok{kind: "byte", n: v.lin, size: 1}
	}
	if t := basicNamed(what); t != nil {
		bits, uns, _ := intRange(t)
		k := "int"
		if uns {
			k = "uint"
		}
		switch v.k {
		case "sym":
			t := ctok{kind: k, bits: bits, name: v.name, size: int64(bits)/8 + 1}
			// the value may be known to be of a narrower type than the one
			// it is written as
			if b, u, ok := intRange(v.typ); ok {
				if v.s != "" {
					fmt.Sscanf(strings.TrimLeft(v.s, "uint"), "%d", &b)
					u = strings.HasPrefix(v.s, "uint")
				}
				t.bits, t.kind = b, map[bool]string{true: "uint", false: "int"}[u]
			}
			return t
		case "num":
			if v.lin.isConst() || c.loose && bits == 64 && !uns {
				return ctok{kind: k, bits: bits, n: v.lin, isLit: true}
			}
		}
	}
	mism()
	return ctok{}
}

func strHead(n int) int64 {
	switch {
	case n < 32:
		return 1
	case n < 256:
		return 2
	case n < 65536:
		return 3
	}
	return 5
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// raw parses constant bytes into tokens.
func (c *codec) raw(n ast.Node, b []byte) []ctok {
	var r []ctok
	for i := 0; i < len(b); {
		x := b[i]
		switch {
		case x>>4 == 8:
			r = append(r, ctok{kind: "map", n: num(int64(x & 15)), size: 1})
		case x>>4 == 9:
			r = append(r, ctok{kind: "arr", n: num(int64(x & 15)), size: 1})
		case x>>5 == 5:
			l := int(x & 31)
			if i+1+l > len(b) {
				c.bad(n, "incomplete string in constant bytes")
			}
			r = append(r, ctok{kind: "str", lit: string(b[i+1 : i+1+l]), isLit: true, size: int64(l + 1)})
			i += l
		case x == 0xc0:
			r = append(r, ctok{kind: "nil", size: 1})
		case x == 0xdc || x == 0xde:
			if i+3 > len(b) {
				c.bad(n, "incomplete header in constant bytes")
			}
			k := "arr"
			if x == 0xde {
				k = "map"
			}
			r = append(r, ctok{kind: k, n: num(int64(b[i+1])<<8 | int64(b[i+2])), size: 3})
			i += 2
		case x == 0xd9:
			if i+2 > len(b) || i+2+int(b[i+1]) > len(b) {
				c.bad(n, "incomplete string in constant bytes")
			}
			l := int(b[i+1])
			r = append(r, ctok{kind: "str", lit: string(b[i+2 : i+2+l]), isLit: true, size: int64(l + 2)})
			i += l + 1
		default:
			c.bad(n, "constant byte %#x is not a known token", x)
		}
		i++
	}
	return r
}

func (c *codec) constBytes(st *cst, args []ast.Expr) []byte {
	var b []byte
	for _, a := range args {
		v := c.eval1(st, a)
		if v.k != "num" || !v.lin.isConst() || v.lin.c < 0 || v.lin.c > 255 {
			c.bad(a, "byte written is not a constant")
		}
		b = append(b, byte(v.lin.c))
	}
	return b
}

// call evaluates calls that do not fork.
func (c *codec) call(st *cst, x *ast.CallExpr) []cval {
	info := c.pkg.Info
	if tv, ok := info.Types[ast.Unparen(x.Fun)]; ok && tv.IsType() {
		v := c.eval1(st, x.Args[0])
		t := tv.Type
		switch v.k {
		case "num":
			if v.lin.isConst() {
				if b, u, ok := intRange(t); ok {
					lo, hi := int64(0), int64(1)<<62
					if b < 64 {
						if u {
							hi = int64(1)<<uint(b) - 1
						} else {
							lo, hi = -(int64(1) << uint(b-1)), int64(1)<<uint(b-1)-1
						}
					} else if !u {
						lo = -hi
					}
					if v.lin.c < lo || v.lin.c > hi {
						c.bad(x, "constant out of range")
					}
				}
			} else if b, _, ok := intRange(t); !ok || b < 32 {
				return []cval{{k: "opaque", name: "narrowed length"}}
			}
			v.typ = t
			return []cval{v}
		case "sym":
			from := v.typ
			if isString(from) && isString(t) {
				v.typ = t
				return []cval{v}
			}
			if b, u, ok := intRange(from); ok {
				if v.s != "" { // read: the range of what was written
					fmt.Sscanf(strings.TrimLeft(v.s, "uint"), "%d", &b)
					u = strings.HasPrefix(v.s, "uint")
				}
				if fits(b, u, t) {
					nv := v
					if v.s == "" && !types.Identical(from.Underlying(), t.Underlying()) {
						nv.s = fmt.Sprintf("int%d", b)
						if u {
							nv.s = fmt.Sprintf("uint%d", b)
						}
					}
					nv.typ = t
					return []cval{nv}
				}
				return []cval{{k: "sym", name: types.TypeString(t, func(*types.Package) string { return "" }) + "(" + v.name + ")", typ: t}}
			}
			if types.Identical(from.Underlying(), t.Underlying()) {
				v.typ = t
				return []cval{v}
			}
			return []cval{{k: "opaque", name: "conversion"}}
		case "slice", "map", "str", "nil", "bytes", "rest":
			return []cval{v}
		}
		return []cval{{k: "opaque", name: "conversion"}}
	}
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
		if _, isB := info.Uses[id].(*types.Builtin); isB {
			return c.builtin(st, x, id.Name)
		}
	}
	if c.loose {
		if v, ok := c.looseCall(st, x); ok {
			return v
		}
	}
	if T, m, recv, fn := c.method(st, x); T != nil {
		p := c.path(st, recv)
		if p == "" {
			c.bad(x, "receiver of %s is not a part of the value", m)
		}
		if se := ast.Unparen(x.Fun).(*ast.SelectorExpr); true {
			if ix := info.Selections[se].Index(); len(ix) > 1 {
				p += c.fieldPath(info.Selections[se].Recv(), ix[:len(ix)-1])
			}
		}
		if c.stored[T.Obj().Name()] == nil {
			c.bad(x, "no codec contract for %s", T.Obj().Name())
		}
		switch m {
		case "Msgsize":
			if c.mode == "encode" {
				return []cval{{k: "opaque", name: "size"}}
			}
			return []cval{{k: "num", lin: c.bound(x, T, p)}}
		case "MarshalMsg":
			b := c.eval1(st, x.Args[0])
			if b.k != "bytes" {
				c.bad(x, "MarshalMsg appends to %s", b)
			}
			b.toks = append(append([]ctok(nil), b.toks...), ctok{kind: "val", typ: T, name: p})
			return []cval{b, {k: "err"}}
		case "UnmarshalMsg":
			b := c.eval1(st, x.Args[0])
			if b.k != "rest" {
				c.bad(x, "UnmarshalMsg of %s", b)
			}
			b.toks = c.readVal(st, x, T, p, b.toks)
			return []cval{b, {k: "err"}}
		case "DecodeMsg":
			st.toks = c.readVal(st, x, T, p, st.toks)
			return []cval{{k: "err"}}
		}
		_ = fn
		c.bad(x, "%s here", m)
	}
	fo := calleeOf(info, x)
	if fo == nil || fo.Pkg() == nil {
		return c.unknownCall(st, x)
	}
	if fo.Pkg().Path() != msgpPath {
		return c.unknownCall(st, x)
	}
	name := fo.Name()
	sig := fo.Type().(*types.Signature)
	if sig.Recv() != nil {
		switch {
		case name == "IsNil":
			t, _ := c.head(st, x, st.toks)
			return []cval{{k: "bool", b: t.kind == "nil"}}
		case strings.HasPrefix(name, "Read"):
			for _, a := range x.Args {
				c.eval1(st, a)
			}
			if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok && c.loose {
				if v := c.eval1(st, se.X); v.k != "stream" {
					c.bad(x, "reads from %s", v)
				}
			}
			v, rest := c.read(st, x, name, st.toks)
			st.toks = rest
			if name == "ReadNil" {
				return []cval{{k: "err"}}
			}
			return []cval{v, {k: "err"}}
		case name == "Skip":
			c.bad(x, "a stored part is skipped")
		}
		c.bad(x, "unsupported stream operation %s", name)
	}
	switch {
	case name == "WrapError":
		return []cval{c.eval1(st, x.Args[0])}
	case name == "UnsafeString":
		return []cval{c.eval1(st, x.Args[0])}
	case name == "Require":
		c.eval1(st, x.Args[1])
		return []cval{c.eval1(st, x.Args[0])}
	case name == "IsNil":
		b := c.eval1(st, x.Args[0])
		t, _ := c.head(st, x, b.toks)
		return []cval{{k: "bool", b: t.kind == "nil"}}
	case name == "Skip":
		c.bad(x, "a stored part is skipped")
	case strings.HasPrefix(name, "Append"):
		b := c.eval1(st, x.Args[0])
		if b.k != "bytes" {
			c.bad(x, "%s to %s", name, b)
		}
		v := cval{k: "nil"}
		if len(x.Args) > 1 {
			v = c.eval1(st, x.Args[1])
		}
		b.toks = append(append([]ctok(nil), b.toks...), c.written(x, strings.TrimPrefix(name, "Append"), v))
		return []cval{b}
	case strings.HasPrefix(name, "Read"):
		b := c.eval1(st, x.Args[0])
		if b.k != "rest" {
			c.bad(x, "%s of %s", name, b)
		}
		for _, a := range x.Args[1:] {
			c.eval1(st, a)
		}
		v, rest := c.read(st, x, strings.TrimSuffix(name, "Bytes")+map[bool]string{true: "", false: ""}[true], b.toks)
		if name == "ReadBytesBytes" {
			_ = v
		}
		b.toks = rest
		if name == "ReadNilBytes" {
			return []cval{b, {k: "err"}}
		}
		return []cval{v, b, {k: "err"}}
	}
	return c.unknownCall(st, x)
}

func (c *codec) unknownCall(st *cst, x *ast.CallExpr) []cval {
	t := c.pkg.Info.TypeOf(x)
	if outs, vals, ok := c.inline(st, x); ok {
		if len(outs) != 1 {
			c.bad(x, "a call with several outcomes inside an expression")
		}
		*st = *outs[0]
		return vals[0]
	}
	if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && c.loose {
		if v, isVar := c.obj(id).(*types.Var); isVar && v != nil {
			if tt, ok := t.(*types.Tuple); ok && tt.Len() > 0 {
				st.skip = true
			}
		}
	}
	// it must not receive the value, the stream or the bytes
	for _, a := range x.Args {
		v := c.eval1(st, a)
		switch v.k {
		case "bytes", "rest", "stream", "ptr":
			if c.loose && v.k == "ptr" && !strings.HasPrefix(v.name, "L") && !strings.HasPrefix(v.name, "W") {
				continue
			}
			c.bad(x, "unsupported call with %s", v)
		}
	}
	if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
		if sel := c.pkg.Info.Selections[se]; sel != nil && c.path(st, se.X) != "" && !c.loose {
			c.bad(x, "unsupported call of a method of the value")
		}
	}
	n := 1
	if tt, ok := t.(*types.Tuple); ok {
		n = tt.Len()
	}
	r := make([]cval, n)
	for i := range r {
		r[i] = cval{k: "opaque", name: "result of a call"}
		if n == 1 && types.Identical(t, types.Universe.Lookup("error").Type()) {
			if f := calleeOf(c.pkg.Info, x); f != nil && f.Pkg() != nil && (f.Pkg().Path() == "errors" && f.Name() == "New" || f.Pkg().Path() == "fmt" && f.Name() == "Errorf") {
				r[i] = cval{k: "err", bad: true}
			}
		}
	}
	return r
}

func (c *codec) builtin(st *cst, x *ast.CallExpr, name string) []cval {
	switch name {
	case "close", "panic", "print", "println":
		if c.loose {
			return nil
		}
	case "len", "cap":
		a := ast.Unparen(x.Args[0])
		v := c.eval1(st, a)
		switch v.k {
		case "sym":
			if name == "len" {
				if n, ok := st.asm[v.name+"==nil"]; ok && n {
					return []cval{{k: "num", lin: num(0)}}
				}
				return []cval{{k: "num", lin: atom("len(" + v.name + ")")}}
			}
			return []cval{{k: "opaque", name: "cap"}}
		case "slice":
			if name == "len" {
				return []cval{{k: "num", lin: v.lin}}
			}
		case "str":
			return []cval{{k: "num", lin: num(int64(len(v.s)))}}
		case "nil":
			return []cval{{k: "num", lin: num(0)}}
		}
		return []cval{{k: "opaque", name: name}}
	case "append":
		b := c.eval1(st, x.Args[0])
		if b.k == "bytes" && !x.Ellipsis.IsValid() {
			b.toks = append(append([]ctok(nil), b.toks...), c.raw(x, c.constBytes(st, x.Args[1:]))...)
			return []cval{b}
		}
		c.bad(x, "append to %s", b)
	case "make":
		t := c.pkg.Info.TypeOf(x)
		switch t.Underlying().(type) {
		case *types.Map:
			return []cval{{k: "map"}}
		case *types.Slice:
			n := asLin(c.eval1(st, x.Args[1]))
			if n != nil {
				return []cval{{k: "slice", lin: n}}
			}
		}
		return []cval{{k: "opaque", name: "make"}}
	case "new":
		return []cval{{k: "new"}}
	}
	c.bad(x, "builtin %s", name)
	return nil
}

// readVal: location p receives the next part, which is one of type T.
func (c *codec) readVal(st *cst, n ast.Node, T *types.Named, p string, in []ctok) []ctok {
	if len(in) == 0 {
		c.bad(n, "reads beyond the end of the encoding")
	}
	t := in[0]
	if t.kind == "val" {
		if t.typ.Obj() == T.Obj() {
			c.store(st, p, cval{k: "sym", name: t.name, typ: T})
			return in[1:]
		}
		// Another type with the same encoding?
		a, b := c.expand(n, t), c.expand(n, ctok{kind: "val", typ: T, name: t.name})
		if tokString(a) == tokString(b) && len(c.stored[T.Obj().Name()]) == 1 && c.stored[T.Obj().Name()][0] == "*" {
			c.store(st, p, cval{k: "sym", name: t.name, typ: T})
			return in[1:]
		}
		c.bad(n, "reads a %s where a %s was written", T.Obj().Name(), t.typ.Obj().Name())
	}
	// The parts were written one by one: match them with the encoding of T.
	want := c.expand(n, ctok{kind: "val", typ: T, name: "v"})
	if len(in) >= len(want) {
		if len(want) == 1 && want[0].kind == t.kind && want[0].bits == t.bits && want[0].name == "v" && !t.isLit {
			c.store(st, p, cval{k: "sym", name: t.name, typ: T})
			return in[1:]
		}
		// all parts of one value
		if T2 := c.stored[T.Obj().Name()]; len(T2) > 0 && T2[0] != "*" {
			base := ""
			for i, w := range want {
				if strings.HasPrefix(w.name, "v.") && strings.HasSuffix(in[i].name, w.name[1:]) {
					base = strings.TrimSuffix(in[i].name, w.name[1:])
					break
				}
			}
			if base != "" && tokString(renameToks(want, rebase(base))) == tokString(in[:len(want)]) {
				c.store(st, p, cval{k: "sym", name: base, typ: T})
				return in[len(want):]
			}
		}
	}
	c.bad(n, "reads a %s where %s was written", T.Obj().Name(), t)
	return nil
}

// ---- conditions

func (c *codec) truth(st *cst, x ast.Expr) (val, known bool) {
	x = ast.Unparen(x)
	switch x := x.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			v, k := c.truth(st, x.X)
			return !v, k
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			a, ka := c.truth(st, x.X)
			if ka && !a {
				return false, true
			}
			b, kb := c.truth(st, x.Y)
			if ka {
				return b, kb
			}
			return false, kb && !b
		case token.LOR:
			a, ka := c.truth(st, x.X)
			if ka && a {
				return true, true
			}
			b, kb := c.truth(st, x.Y)
			if ka {
				return b, kb
			}
			return true, kb && b
		}
		a, b := c.eval1(st, x.X), c.eval1(st, x.Y)
		if a.k == "nil" {
			a, b = b, a
		}
		if b.k == "nil" && (x.Op == token.EQL || x.Op == token.NEQ) {
			switch a.k {
			case "err":
				return a.bad == (x.Op == token.NEQ), true
			case "nil":
				return x.Op == token.EQL, true
			case "new", "map":
				return x.Op == token.NEQ, true
			case "ptr", "sym":
				if v, ok := st.asm[a.name+"==nil"]; ok {
					return v == (x.Op == token.EQL), true
				}
			}
			return false, false
		}
		if a.k == "str" && b.k == "str" {
			switch x.Op {
			case token.EQL:
				return a.s == b.s, true
			case token.NEQ:
				return a.s != b.s, true
			}
		}
		if a.k == "bool" && b.k == "bool" {
			return (a.b == b.b) == (x.Op == token.EQL), true
		}
		la, lb := asLin(a), asLin(b)
		if la != nil && lb != nil {
			return c.decide(la.add(lb, -1), x.Op)
		}
		return false, false
	}
	v := c.eval1(st, x)
	if v.k == "bool" {
		return v.b, true
	}
	return false, false
}

// decide: d op 0
func (c *codec) decide(d *csum, op token.Token) (val, known bool) {
	if d.isConst() {
		switch op {
		case token.EQL:
			return d.c == 0, true
		case token.NEQ:
			return d.c != 0, true
		case token.LSS:
			return d.c < 0, true
		case token.LEQ:
			return d.c <= 0, true
		case token.GTR:
			return d.c > 0, true
		case token.GEQ:
			return d.c >= 0, true
		}
	}
	if k := d.at["#other"]; len(d.at) == 1 && len(d.sums) == 0 && (k == 1 || k == -1) {
		lo, hi := c.otherLo+d.c, c.otherHi+d.c
		if k < 0 {
			lo, hi = d.c-c.otherHi, d.c-c.otherLo
		}
		switch op {
		case token.EQL:
			return false, lo > 0 || hi < 0
		case token.NEQ:
			return true, lo > 0 || hi < 0
		case token.LSS:
			return hi < 0, hi < 0 || lo >= 0
		case token.LEQ:
			return hi <= 0, hi <= 0 || lo > 0
		case token.GTR:
			return lo > 0, lo > 0 || hi <= 0
		case token.GEQ:
			return lo >= 0, lo >= 0 || hi < 0
		}
	}
	return false, false
}

// assume records the outcome of an undecided condition where it matters.
// capOf: the path p of an expression cap(p), or "".
func (c *codec) capOf(st *cst, x ast.Expr) string {
	call, ok := ast.Unparen(x).(*ast.CallExpr)
	for ok && len(call.Args) == 1 {
		if tv := c.pkg.Info.Types[ast.Unparen(call.Fun)]; tv.IsType() { // a conversion
			call, ok = ast.Unparen(call.Args[0]).(*ast.CallExpr)
			continue
		}
		if id, isId := call.Fun.(*ast.Ident); isId && id.Name == "cap" {
			return c.path(st, call.Args[0])
		}
		return ""
	}
	return ""
}

func (c *codec) assume(st *cst, x ast.Expr, val bool) {
	x = ast.Unparen(x)
	switch x := x.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			c.assume(st, x.X, !val)
		}
	case *ast.BinaryExpr:
		if x.Op == token.LAND && val || x.Op == token.LOR && !val {
			c.assume(st, x.X, val)
			c.assume(st, x.Y, val)
			return
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b := c.eval1(st, x.X), c.eval1(st, x.Y)
			if a.k == "nil" {
				a, b = b, a
			}
			if b.k == "nil" && (a.k == "ptr" || a.k == "sym") {
				st.asm[a.name+"==nil"] = val == (x.Op == token.EQL)
			}
		}
		// room for n parts
		if c.mode == "decode" {
			l, r, op := ast.Unparen(x.X), ast.Unparen(x.Y), x.Op
			flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if p := c.capOf(st, r); p != "" {
				l, r, op = r, l, flip[op]
			}
			if p := c.capOf(st, l); p != "" {
				n := asLin(c.eval1(st, r))
				if n != nil && (val && (op == token.GEQ || op == token.GTR || op == token.EQL) || !val && (op == token.LSS || op == token.LEQ || op == token.NEQ)) {
					st.asm["cap:"+p+">="+n.String()] = true
				}
			}
		}
		// an empty map
		if c.mode == "decode" {
			if call, ok := ast.Unparen(x.X).(*ast.CallExpr); ok {
				if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "len" {
					y := c.eval1(st, x.Y)
					empty := y.k == "num" && y.lin.isConst() && (x.Op == token.GTR && y.lin.c == 0 && !val || x.Op == token.EQL && y.lin.c == 0 && val || x.Op == token.NEQ && y.lin.c == 0 && !val || x.Op == token.GEQ && y.lin.c == 1 && !val)
					if p := c.path(st, call.Args[0]); empty && p != "" {
						if _, ok := c.pkg.Info.TypeOf(call.Args[0]).Underlying().(*types.Map); ok && st.asm["old:"+p+"==nil"] == false {
							if _, isNil := st.asm["old:"+p+"==nil"]; isNil {
								c.store(st, p, cval{k: "map"})
							}
						}
					}
				}
			}
		}
	}
}

// ---- statements

func (c *codec) block(sts []*cst, list []ast.Stmt) []cout {
	var done []cout
	cur := sts
	for _, s := range list {
		var next []*cst
		for _, st := range cur {
			for _, o := range c.stmt(st, s) {
				if o.kind == "fall" {
					next = append(next, o.st)
				} else {
					done = append(done, o)
				}
			}
		}
		cur = next
		if len(cur) > 256 {
			c.bad(s, "too many cases")
		}
	}
	for _, st := range cur {
		done = append(done, cout{st: st, kind: "fall"})
	}
	return done
}

func fall(st *cst) []cout { return []cout{{st: st, kind: "fall"}} }

// inline executes a call of a function of the same package that is given
// the bytes, the stream or a part of the value.
func (c *codec) inline(st *cst, x *ast.CallExpr) (outs []*cst, vals [][]cval, ok bool) {
	var sig *types.Signature
	var fbody *ast.BlockStmt
	fname := "the closure"
	if fl, isLit := ast.Unparen(x.Fun).(*ast.FuncLit); isLit && c.loose {
		sig, fbody = c.pkg.Info.TypeOf(fl).(*types.Signature), fl.Body
	} else {
		f := calleeOf(c.pkg.Info, x)
		if f == nil || f.Pkg() != c.pkg.Types || c.loose && c.known(f) {
			return
		}
		fi := c.prog.ByPos[f]
		if fi == nil || fi.Decl == nil || fi.Decl.Body == nil {
			return
		}
		sig, fbody, fname = f.Type().(*types.Signature), fi.Decl.Body, f.Name()
	}
	if sig.Variadic() || x.Ellipsis.IsValid() || sig.Params().Len() != len(x.Args) {
		return
	}
	bind := map[types.Object]cval{}
	relevant := c.loose && sig.Params().Len() == 0 && sig.Recv() == nil
	st = st.clone()
	arg := func(o *types.Var, a ast.Expr) {
		v := c.eval1(st, a)
		switch v.k {
		case "bytes", "rest", "stream", "ptr":
			relevant = true
		default:
			if p := c.path(st, a); p != "" {
				relevant = true
				if _, basic := o.Type().Underlying().(*types.Basic); !basic {
					if c.mode == "decode" && !c.loose {
						c.bad(a, "a copy of a part is passed on while decoding")
					}
					v = cval{k: "loc", name: p, typ: o.Type()}
				}
			}
		}
		bind[o] = v
	}
	if r := sig.Recv(); r != nil {
		se, isSel := ast.Unparen(x.Fun).(*ast.SelectorExpr)
		if !isSel {
			return
		}
		sel := c.pkg.Info.Selections[se]
		if sel == nil || sel.Kind() != types.MethodVal {
			return
		}
		if p := c.path(st, se.X); p != "" {
			relevant = true
			if ix := sel.Index(); len(ix) > 1 {
				p += c.fieldPath(sel.Recv(), ix[:len(ix)-1])
			}
			k := "loc"
			if _, isPtr := r.Type().(*types.Pointer); isPtr {
				k = "ptr"
			} else if c.mode == "decode" && !c.loose {
				c.bad(x, "a copy of a part is used while decoding")
			}
			bind[r] = cval{k: k, name: p, typ: r.Type()}
		} else {
			bind[r] = c.eval1(st, se.X)
		}
	}
	for i, a := range x.Args {
		arg(sig.Params().At(i), a)
	}
	if !relevant {
		return
	}
	if c.depth > 4 {
		c.bad(x, "calls too deep")
	}
	in := st
	for o, v := range bind {
		in.vars[o] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if o := sig.Results().At(i); o.Name() != "" {
			in.vars[o] = c.zero(o)
		}
	}
	c.depth++
	save := c.loopVars
	c.loopVars = nil
	saveDefers := in.defers
	in.defers = nil
	for _, o := range c.deferred(x, c.block([]*cst{in}, fbody.List), sig) {
		o.st.defers = saveDefers
		if o.kind == "fall" && sig.Results().Len() > 0 || o.kind != "fall" && o.kind != "return" {
			c.bad(x, "end of %s", fname)
		}
		if len(o.ret) == 0 {
			for i := 0; i < sig.Results().Len(); i++ {
				o.ret = append(o.ret, o.st.vars[sig.Results().At(i)])
			}
		}
		if len(o.ret) != sig.Results().Len() {
			c.bad(x, "results of %s", fname)
		}
		for i := range o.ret {
			if o.ret[i].k == "nil" && types.Identical(sig.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
				o.ret[i] = cval{k: "err"}
			}
			if o.ret[i].k == "loc" && c.loose {
				o.ret[i] = c.load(o.st, o.ret[i].name, sig.Results().At(i).Type())
			}
		}
		outs = append(outs, o.st)
		vals = append(vals, o.ret)
	}
	c.loopVars = save
	c.depth--
	return outs, vals, true
}

// reads1: the call reads a value from the bytes or the stream and may fail.
func (c *codec) reads1(st *cst, call *ast.CallExpr) bool {
	if T, m, _, _ := c.method(st, call); T != nil {
		return m == "UnmarshalMsg" || m == "DecodeMsg"
	}
	f := calleeOf(c.pkg.Info, call)
	if f == nil || f.Pkg() == nil || f.Pkg().Path() != msgpPath || !strings.HasPrefix(f.Name(), "Read") {
		return false
	}
	r := f.Type().(*types.Signature).Results()
	return r.Len() > 0 && types.Identical(r.At(r.Len()-1).Type(), types.Universe.Lookup("error").Type())
}

// write operations of the stream fork on failure, and so do reads.
func (c *codec) writeCall(st *cst, x ast.Expr) (outs []*cst, vals [][]cval, ok bool) {
	call, isCall := ast.Unparen(x).(*ast.CallExpr)
	if !isCall {
		return
	}
	var toks []ctok
	if c.mode == "decode" && c.reads1(st, call) {
		// the read succeeds or fails
		if st.fail {
			c.bad(x, "goes on reading after an error")
		}
		good, fail := st.clone(), st.clone()
		gv := c.eval(good, call)
		fail.fail = true
		fv := make([]cval, len(gv))
		for i := range fv {
			fv[i] = cval{k: "opaque", name: "result of a failed read"}
		}
		fv[len(fv)-1] = cval{k: "err", bad: true}
		return []*cst{good, fail}, [][]cval{gv, fv}, true
	}
	if T, m, recv, _ := c.method(st, call); T != nil {
		if m != "EncodeMsg" {
			return
		}
		p := c.path(st, recv)
		if p == "" {
			c.bad(x, "receiver of %s is not a part of the value", m)
		}
		se := ast.Unparen(call.Fun).(*ast.SelectorExpr)
		if ix := c.pkg.Info.Selections[se].Index(); len(ix) > 1 {
			p += c.fieldPath(c.pkg.Info.Selections[se].Recv(), ix[:len(ix)-1])
		}
		if c.stored[T.Obj().Name()] == nil {
			c.bad(x, "no codec contract for %s", T.Obj().Name())
		}
		if c.eval1(st, call.Args[0]).k != "stream" {
			c.bad(x, "encodes to something else")
		}
		if v, ok := st.mem[p]; ok && c.loose && v.k == "sym" {
			p = v.name
		}
		toks = []ctok{{kind: "val", typ: T, name: p}}
	} else {
		if c.loose {
			if outs, vals, ok := c.looseFork(st, call); ok {
				return outs, vals, true
			}
		}
		f := calleeOf(c.pkg.Info, call)
		if f != nil && f.Pkg() == c.pkg.Types {
			return c.inline(st, call)
		}
		se, isSel := ast.Unparen(call.Fun).(*ast.SelectorExpr)
		if !isSel {
			return
		}
		if f == nil || f.Pkg() == nil || f.Pkg().Path() != msgpPath || f.Type().(*types.Signature).Recv() == nil || c.mode != "encode" {
			return
		}
		if c.loose && (f.Name() == "Reset" || f.Name() == "Flush") {
			return
		}
		if c.eval1(st, se.X).k != "stream" {
			c.bad(x, "writes to something else")
		}
		if f.Name() == "Append" {
			toks = c.raw(call, c.constBytes(st, call.Args))
		} else if strings.HasPrefix(f.Name(), "Write") {
			v := cval{k: "nil"}
			if len(call.Args) > 0 {
				v = c.eval1(st, call.Args[0])
			}
			toks = []ctok{c.written(call, strings.TrimPrefix(f.Name(), "Write"), v)}
		} else {
			c.bad(x, "unsupported stream operation %s", f.Name())
		}
	}
	if st.fail {
		c.bad(x, "goes on writing after an error")
	}
	good, fail := st.clone(), st.clone()
	good.toks = append(good.toks, toks...)
	fail.fail = true
	return []*cst{good, fail}, [][]cval{{{k: "err"}}, {{k: "err", bad: true}}}, true
}

func (c *codec) assignTo(st *cst, lhs ast.Expr, v cval) {
	lhs = ast.Unparen(lhs)
	if id, ok := lhs.(*ast.Ident); ok {
		if id.Name == "_" {
			return
		}
		o := c.obj(id)
		if c.loose {
			if c.bindLocal(st, o, v) {
				return
			}
		}
		if cur, ok := st.vars[o]; ok && cur.k == "loc" {
			c.storeVal(st, lhs, cur.name, v)
			return
		}
		if v.k == "nil" && types.Identical(o.Type(), types.Universe.Lookup("error").Type()) {
			v = cval{k: "err"}
		}
		if v.k == "ptr" {
			if o.Type() == nil {
				c.bad(lhs, "pointer variable")
			}
		}
		st.vars[o] = v
		return
	}
	if ix, ok := lhs.(*ast.IndexExpr); ok {
		if _, isMap := c.pkg.Info.TypeOf(ix.X).Underlying().(*types.Map); isMap {
			p := c.path(st, ix.X)
			m, ok := st.mem[p]
			if p == "" || !ok || m.k != "map" {
				c.bad(lhs, "writes into a map that may hold other entries or be nil")
			}
			k := c.eval1(st, ix.Index)
			if k.k != "sym" || v.k != "sym" {
				c.bad(lhs, "stores %s under %s", v, k)
			}
			m.toks = append(append([]ctok(nil), m.toks...), ctok{kind: "entry", name: k.name, lit: v.name})
			st.mem[p] = m
			return
		}
	}
	p := c.path(st, lhs)
	if p == "" {
		if c.loose {
			return // not a part of what is saved or loaded
		}
		c.bad(lhs, "unsupported target")
	}
	if c.loose && strings.HasPrefix(p, "L") {
		c.store(st, p, v)
		return
	}
	if c.mode != "decode" {
		c.bad(lhs, "writing changes the value")
	}
	c.storeVal(st, lhs, p, v)
}

func (c *codec) storeVal(st *cst, n ast.Node, p string, v cval) {
	if c.mode != "decode" {
		c.bad(n, "writing changes the value")
	}
	if v.k == "slice" && v.name != "" && v.name != p {
		c.bad(n, "slice of another part")
	}
	c.store(st, p, v)
	if !(v.k == "slice" && v.name == p) {
		for k := range st.asm {
			if strings.HasPrefix(k, "cap:"+p+">=") {
				delete(st.asm, k)
			}
		}
	}
}

func (c *codec) stmt(st *cst, s ast.Stmt) []cout {
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return fall(st)
	case *ast.BlockStmt:
		return c.block([]*cst{st}, s.List)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, id := range vs.Names {
				v := c.zero(c.pkg.Info.Defs[id])
				if c.loose && len(vs.Values) == 0 {
					v = c.local(st, c.pkg.Info.Defs[id], v)
				}
				if len(vs.Values) == len(vs.Names) {
					v = c.eval1(st, vs.Values[i])
				} else if len(vs.Values) > 0 {
					c.bad(s, "declaration")
				}
				if id.Name != "_" {
					st.vars[c.pkg.Info.Defs[id]] = v
				}
			}
		}
		return fall(st)
	case *ast.ExprStmt:
		if outs, _, ok := c.writeCall(st, s.X); ok {
			// an error is dropped
			var r []cout
			for _, o := range outs {
				r = append(r, cout{st: o, kind: "fall"})
			}
			return r
		}
		if call, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "delete" {
				c.bad(s, "delete")
			}
		}
		c.eval(st, s.X)
		return fall(st)
	case *ast.IncDecStmt:
		v := asLin(c.eval1(st, s.X))
		if v == nil {
			c.bad(s, "counter")
		}
		k := int64(1)
		if s.Tok == token.DEC {
			k = -1
		}
		c.assignTo(st, s.X, cval{k: "num", lin: v.add(num(k), 1)})
		return fall(st)
	case *ast.AssignStmt:
		return c.assignStmt(st, s)
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			if outs, vals, ok := c.writeCall(st, s.Results[0]); ok {
				var r []cout
				for i := range outs {
					r = append(r, cout{st: outs[i], kind: "return", ret: vals[i]})
				}
				return r
			}
			if v := c.eval(st, s.Results[0]); true {
				return []cout{{st: st, kind: "return", ret: v}}
			}
		}
		if c.loose {
			for _, x := range s.Results {
				if hs := c.hoist(st, x); hs != nil {
					var r []cout
					for _, h := range hs {
						r = append(r, c.stmt(h, s)...)
					}
					return r
				}
			}
		}
		var ret []cval
		for _, x := range s.Results {
			ret = append(ret, c.eval1(st, x))
		}
		st.pre = nil
		return []cout{{st: st, kind: "return", ret: ret}}
	case *ast.IfStmt:
		sts := []cout{{st: st, kind: "fall"}}
		if s.Init != nil {
			sts = c.stmt(st, s.Init)
		}
		var res []cout
		for _, o := range sts {
			if o.kind != "fall" {
				res = append(res, o)
				continue
			}
			if c.loose {
				if hs := c.hoist(o.st, s.Cond); hs != nil {
					plain := *s
					plain.Init = nil
					for _, h := range hs {
						res = append(res, c.stmt(h, &plain)...)
					}
					continue
				}
			}
			v, known := c.truth(o.st, s.Cond)
			o.st.pre = nil
			yes, no := o.st, o.st
			if !known {
				no = o.st.clone()
				c.assume(yes, s.Cond, true)
				c.assume(no, s.Cond, false)
			}
			if !known || v {
				res = append(res, c.stmt(yes, s.Body)...)
			}
			if !known || !v {
				if s.Else != nil {
					res = append(res, c.stmt(no, s.Else)...)
				} else {
					res = append(res, cout{st: no, kind: "fall"})
				}
			}
		}
		return res
	case *ast.SwitchStmt:
		if s.Init != nil {
			c.bad(s, "switch with initialisation")
		}
		var def *ast.CaseClause
		var res []cout
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			if cl.List == nil {
				def = cl
				continue
			}
			for _, x := range cl.List {
				hit, known := false, false
				if s.Tag == nil {
					hit, known = c.truth(st, x)
				} else {
					a, b := c.eval1(st, s.Tag), c.eval1(st, x)
					if a.k == "str" && b.k == "str" {
						hit, known = a.s == b.s, true
					} else if la, lb := asLin(a), asLin(b); la != nil && lb != nil {
						hit, known = c.decide(la.add(lb, -1), token.EQL)
					}
				}
				if !known && c.loose {
					res = append(res, c.unbreak(c.block([]*cst{st.clone()}, cl.Body))...)
					continue
				}
				if !known {
					c.bad(x, "undecided case")
				}
				if hit {
					return append(res, c.unbreak(c.block([]*cst{st}, cl.Body))...)
				}
			}
		}
		if def != nil {
			return append(res, c.unbreak(c.block([]*cst{st}, def.Body))...)
		}
		return append(res, fall(st)...)
	case *ast.BranchStmt:
		if s.Label != nil || s.Tok != token.BREAK && s.Tok != token.CONTINUE {
			c.bad(s, "jump")
		}
		return []cout{{st: st, kind: s.Tok.String()}}
	case *ast.DeferStmt:
		if c.loose {
			st.defers = append(st.defers, s.Call)
			return fall(st)
		}
	case *ast.ForStmt:
		return c.forStmt(st, s)
	case *ast.RangeStmt:
		return c.rangeStmt(st, s)
	}
	c.bad(s, "unsupported statement %T", s)
	return nil
}

func (c *codec) unbreak(os []cout) []cout {
	for i := range os {
		if os[i].kind == "break" {
			os[i].kind = "fall"
		}
	}
	return os
}

func (c *codec) zero(o types.Object) cval {
	if o == nil {
		return cval{k: "opaque"}
	}
	t := o.Type()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return cval{k: "num", lin: num(0), typ: t}
		case u.Info()&types.IsString != 0:
			return cval{k: "str", typ: t}
		case u.Info()&types.IsBoolean != 0:
			return cval{k: "bool"}
		}
	case *types.Interface:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return cval{k: "err"}
		}
	case *types.Slice:
		return cval{k: "nil", typ: t}
	}
	return cval{k: "opaque", typ: t}
}

func (c *codec) assignStmt(st *cst, s *ast.AssignStmt) []cout {
	switch s.Tok {
	case token.ASSIGN, token.DEFINE:
	case token.ADD_ASSIGN, token.SUB_ASSIGN:
		a, b := asLin(c.eval1(st, s.Lhs[0])), asLin(c.eval1(st, s.Rhs[0]))
		if a == nil || b == nil {
			c.bad(s, "sum of unknown values")
		}
		k := int64(1)
		if s.Tok == token.SUB_ASSIGN {
			k = -1
		}
		c.assignTo(st, s.Lhs[0], cval{k: "num", lin: a.add(b, k)})
		return fall(st)
	default:
		c.bad(s, "assignment %s", s.Tok)
	}
	if len(s.Rhs) == 1 {
		if outs, vals, ok := c.writeCall(st, s.Rhs[0]); ok {
			var r []cout
			for i := range outs {
				if len(vals[i]) != len(s.Lhs) {
					c.bad(s, "number of values")
				}
				for j := range vals[i] {
					c.assignTo(outs[i], s.Lhs[j], vals[i][j])
				}
				r = append(r, cout{st: outs[i], kind: "fall"})
			}
			return r
		}
		vs := c.eval(st, s.Rhs[0])
		if len(vs) != len(s.Lhs) {
			c.bad(s, "number of values")
		}
		for i := range vs {
			c.assignTo(st, s.Lhs[i], vs[i])
		}
		return fall(st)
	}
	var vs []cval
	for _, x := range s.Rhs {
		vs = append(vs, c.eval1(st, x))
	}
	for i := range vs {
		c.assignTo(st, s.Lhs[i], vs[i])
	}
	return fall(st)
}

// ---- loops

func (c *codec) forStmt(st *cst, s *ast.ForStmt) []cout {
	if s.Init != nil {
		o := c.stmt(st, s.Init)
		if len(o) != 1 || o[0].kind != "fall" {
			c.bad(s, "loop initialisation")
		}
		st = o[0].st
	}
	if s.Cond == nil {
		c.bad(s, "loop without condition")
	}
	// counting up over a collection: the same as range
	if s.Init != nil && s.Post != nil {
		if as, ok := s.Init.(*ast.AssignStmt); ok && len(as.Lhs) == 1 {
			if be, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr); ok && be.Op == token.LSS {
				id, isId := as.Lhs[0].(*ast.Ident)
				ci, isC := ast.Unparen(be.X).(*ast.Ident)
				inc, isInc := s.Post.(*ast.IncDecStmt)
				if isId && isC && isInc && inc.Tok == token.INC && c.obj(id) == c.obj(ci) {
					v := c.eval1(st, as.Rhs[0])
					if c.loose && v.k == "num" && v.lin.zero() {
						n := asLin(c.eval1(st, be.Y))
						if in := c.input(st); n != nil && c.mode == "decode" && len(in) > 0 && in[0].kind == "rep" && n.eq(atom("len("+in[0].over+")")) {
							key := c.obj(id)
							c.unchanged(s.Body, key)
							save := c.loopVars
							c.loopVars = []types.Object{key}
							r := c.eachIn(st, s, in, "#", func(x *cst) []cout { return c.stmt(x, s.Body) }, nil)
							c.loopVars = save
							return r
						}
						if n != nil && n.c == 0 && len(n.at) == 1 && len(n.sums) == 0 && c.mode == "encode" {
							for a, k := range n.at {
								if k == 1 && strings.HasPrefix(a, "len(") {
									coll := strings.TrimSuffix(a[4:], ")")
									key := c.obj(id)
									c.unchanged(s.Body, key)
									delete(st.vars, key)
									return c.eachOut(st, s, coll, func(b *cst, ix string) {
										b.vars[key] = cval{k: "sym", name: ix, typ: types.Typ[types.Int]}
									}, s.Body)
								}
							}
						}
					}
					if call, ok := ast.Unparen(be.Y).(*ast.CallExpr); ok && v.k == "num" && v.lin.zero() {
						if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "len" {
							key := c.obj(id)
							c.unchanged(s.Body, key)
							delete(st.vars, key)
							return c.overSlice(st, s, call.Args[0], key, nil, s.Body)
						}
					}
				}
			}
		}
	}
	var done []cout
	cur := []*cst{st}
	for round := 0; len(cur) > 0; round++ {
		if round > 64 {
			c.bad(s, "loop not bounded by a constant of the encoding")
		}
		var next []*cst
		for _, x := range cur {
			v, known := c.truth(x, s.Cond)
			if !known {
				done = append(done, c.countdown(x, s)...)
				continue
			}
			if !v {
				done = append(done, cout{st: x, kind: "fall"})
				continue
			}
			for _, o := range c.stmt(x, s.Body) {
				switch o.kind {
				case "fall", "continue":
					if s.Post != nil {
						p := c.stmt(o.st, s.Post)
						if len(p) != 1 {
							c.bad(s, "loop step")
						}
						o.st = p[0].st
					}
					next = append(next, o.st)
				case "break":
					done = append(done, cout{st: o.st, kind: "fall"})
				default:
					done = append(done, o)
				}
			}
		}
		cur = next
	}
	return done
}

// unchanged: the body does not assign the variable.
func (c *codec) unchanged(body ast.Node, key types.Object) {
	ast.Inspect(body, func(n ast.Node) bool {
		var l []ast.Expr
		switch n := n.(type) {
		case *ast.AssignStmt:
			l = n.Lhs
		case *ast.IncDecStmt:
			l = []ast.Expr{n.X}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				l = []ast.Expr{n.X}
			}
		}
		for _, x := range l {
			if d, ok := ast.Unparen(x).(*ast.Ident); ok && c.obj(d) == key {
				c.bad(d, "the position changes inside the loop")
			}
		}
		return true
	})
}

// the variable of a condition n > 0 / n != 0
func (c *codec) counter(st *cst, s *ast.ForStmt) types.Object {
	be, ok := ast.Unparen(s.Cond).(*ast.BinaryExpr)
	if !ok || be.Op != token.GTR && be.Op != token.NEQ {
		return nil
	}
	id, ok := ast.Unparen(be.X).(*ast.Ident)
	y := c.eval1(st, be.Y)
	if !ok || y.k != "num" || !y.lin.zero() {
		return nil
	}
	return c.obj(id)
}

// stream of the loop: where the tokens come from
func (c *codec) inputVar(st *cst) types.Object {
	var r types.Object
	for o, v := range st.vars {
		if v.k == "rest" {
			if r != nil {
				// several: the one that is a parameter or the most advanced; keep the shortest
				if len(v.toks) >= len(st.vars[r].toks) {
					continue
				}
			}
			r = o
		}
	}
	return r
}

func (c *codec) input(st *cst) []ctok {
	if o := c.inputVar(st); o != nil {
		return st.vars[o].toks
	}
	return st.toks
}

func (c *codec) setInput(st *cst, in []ctok) {
	if o := c.inputVar(st); o != nil {
		v := st.vars[o]
		v.toks = in
		st.vars[o] = v
		return
	}
	st.toks = in
}

// countdown: for n > 0 { n--; ... } over the entries of a collection.
func (c *codec) countdown(st *cst, s *ast.ForStmt) []cout {
	o := c.counter(st, s)
	if o == nil || c.mode != "decode" {
		c.bad(s, "undecided loop condition")
	}
	n := asLin(st.vars[o])
	in := c.input(st)
	if len(in) == 0 || in[0].kind != "rep" || !n.eq(atom("len("+in[0].over+")")) {
		c.bad(s, "reads %s parts where %s follows", n, tokString(in))
	}
	return c.eachIn(st, s, in, "", func(x *cst) []cout {
		r := c.stmt(x, s.Body)
		if s.Post != nil {
			for i := range r {
				if r[i].kind == "fall" || r[i].kind == "continue" {
					p := c.stmt(r[i].st, s.Post)
					r[i].st = p[0].st
				}
			}
		}
		for i := range r {
			if r[i].kind == "fall" || r[i].kind == "continue" {
				m := asLin(r[i].st.vars[o])
				if m == nil || !m.eq(n.add(num(1), -1)) {
					c.bad(s, "the number of parts left is not counted down by one")
				}
			}
		}
		return r
	}, func(x *cst) { x.vars[o] = cval{k: "num", lin: num(0)} })
}

// eachIn runs body for one arbitrary part of the repetition at the head of the input and concludes for all of them.
func (c *codec) eachIn(st *cst, s ast.Stmt, in []ctok, coll string, body func(*cst) []cout, after func(*cst)) []cout {
	rep := in[0]
	nobj := c.nobj
	c.nidx++
	ix := fmt.Sprintf("$%d", c.nidx)
	part := renameToks(rep.toks, func(x string) string { return subRoot(x, rep.idx, ix) })
	b := st.clone()
	c.setInput(b, append(append([]ctok(nil), part...), ctok{kind: "end"}))
	if coll != "" {
		for _, o := range c.loopVars {
			b.vars[o] = cval{k: "sym", name: ix, typ: types.Typ[types.Int]}
		}
	}
	var res []cout
	var fin *cst
	for _, o := range body(b) {
		if o.st.fail || o.st.ext && o.kind == "return" {
			if o.kind != "return" {
				c.bad(s, "goes on after a failed read")
			}
			res = append(res, o)
			continue
		}
		if o.kind == "return" || o.kind == "break" {
			c.bad(s, "leaves the loop on a well-formed part (%s)", o.kind)
		}
		if r := c.input(o.st); len(r) != 1 || r[0].kind != "end" {
			c.bad(s, "one pass reads a different number of values than one part holds: %s left", tokString(r))
		}
		if fin != nil {
			c.bad(s, "several outcomes of one pass")
		}
		fin = o.st
	}
	if fin == nil {
		c.bad(s, "no outcome of one pass")
	}
	// effects: what was stored for the arbitrary part holds for all
	n := st.clone()
	c.setInput(n, in[1:])
	for k, v := range fin.mem {
		old, had := st.mem[k]
		if c.loose && c.newObj(k, nobj) {
			continue
		}
		if had && old.String() == v.String() && len(old.toks) == len(v.toks) {
			continue
		}
		switch {
		case strings.Contains(k, "["+ix+"]"):
			n.mem[strings.ReplaceAll(k, "["+ix+"]", "[$]")] = canon(v, ix)
		case v.k == "map" && had && old.k == "map" && len(old.toks) == 0 && len(v.toks) == 1:
			// all entries of the collection
			if v.toks[0].name != "key("+ix+","+rep.over+")" || v.toks[0].lit != "val("+ix+","+rep.over+")" {
				c.bad(s, "an entry is stored as %s: %s", v.toks[0].name, v.toks[0].lit)
			}
			n.mem[k] = cval{k: "sym", name: rep.over, typ: v.typ}
		default:
			c.bad(s, "%s changes from one part to the next", k)
		}
	}
	for k := range st.mem {
		if _, ok := fin.mem[k]; !ok {
			c.bad(s, "%s is reset in the loop", k)
		}
	}
	if after != nil {
		after(n)
	}
	return append(res, cout{st: n, kind: "fall"})
}

func canon(v cval, ix string) cval {
	v.name = strings.ReplaceAll(v.name, "["+ix+"]", "[$]")
	return v
}

func (c *codec) rangeStmt(st *cst, s *ast.RangeStmt) []cout {
	t := c.pkg.Info.TypeOf(s.X)
	var key, val types.Object
	if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
		key = c.obj(id)
	}
	if s.Value != nil {
		if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
			val = c.obj(id)
		}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return c.overSlice(st, s, s.X, key, val, s.Body)
	case *types.Map:
		p := c.path(st, s.X)
		if p == "" {
			c.bad(s, "range over an unknown map")
		}
		if c.mode == "decode" {
			// clearing the map
			if len(s.Body.List) == 1 {
				if es, ok := s.Body.List[0].(*ast.ExprStmt); ok {
					if call, ok := es.X.(*ast.CallExpr); ok && len(call.Args) == 2 {
						if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "delete" && c.path(st, call.Args[0]) == p {
							if k, ok := ast.Unparen(call.Args[1]).(*ast.Ident); ok && key != nil && c.obj(k) == key {
								if v, ok := st.asm["old:"+p+"==nil"]; ok && !v {
									c.store(st, p, cval{k: "map"})
									return fall(st)
								}
							}
						}
					}
				}
			}
			c.bad(s, "range over the map that is read into")
		}
		v := c.load(st, p, t)
		if v.k != "sym" {
			c.bad(s, "range over %s", v)
		}
		return c.eachOut(st, s, v.name, func(b *cst, ix string) {
			if key != nil {
				b.vars[key] = cval{k: "sym", name: "key(" + ix + "," + v.name + ")", typ: t.Underlying().(*types.Map).Key()}
			}
			if val != nil {
				b.vars[val] = cval{k: "sym", name: "val(" + ix + "," + v.name + ")", typ: t.Underlying().(*types.Map).Elem()}
			}
		}, s.Body)
	}
	c.bad(s, "range over %s", t)
	return nil
}

func (c *codec) overSlice(st *cst, s ast.Stmt, coll ast.Expr, key, val types.Object, body *ast.BlockStmt) []cout {
	p := c.path(st, coll)
	if p == "" {
		c.bad(s, "loop over something that is no part of the value")
	}
	t := c.pkg.Info.TypeOf(coll)
	et := t.Underlying().(*types.Slice).Elem()
	cur := c.load(st, p, t)
	if c.mode == "decode" {
		if cur.k == "sym" && c.loose {
			return c.touchAll(st, s, key, body)
		}
		if cur.k != "slice" {
			c.bad(s, "loop over a collection of unknown length")
		}
		if val != nil {
			c.bad(s, "loop over copies of the parts")
		}
		in := c.input(st)
		if cur.lin.zero() {
			return fall(st)
		}
		if len(in) == 0 || in[0].kind != "rep" || !cur.lin.eq(atom("len("+in[0].over+")")) {
			c.bad(s, "reads %s parts where %s follows", cur.lin, tokString(in))
		}
		save := c.loopVars
		c.loopVars = nil
		if key != nil {
			c.loopVars = []types.Object{key}
		}
		r := c.eachIn(st, s, in, p, func(x *cst) []cout { return c.stmt(x, body) }, nil)
		c.loopVars = save
		return r
	}
	if cur.k != "sym" {
		c.bad(s, "loop over %s", cur)
	}
	return c.eachOut(st, s, cur.name, func(b *cst, ix string) {
		if key != nil {
			b.vars[key] = cval{k: "sym", name: ix, typ: types.Typ[types.Int]}
		}
		if val != nil {
			b.vars[val] = cval{k: "loc", name: p + "[" + ix + "]", typ: et}
		}
	}, body)
}

// eachOut runs the body for one arbitrary part and collects what it writes, or adds to the size.
func (c *codec) eachOut(st *cst, s ast.Stmt, coll string, bind func(*cst, string), body *ast.BlockStmt) []cout {
	c.nidx++
	ix := fmt.Sprintf("$%d", c.nidx)
	b := st.clone()
	bind(b, ix)
	// bytes and stream are empty at the start of the pass
	b.toks = nil
	for o, v := range b.vars {
		if v.k == "bytes" {
			v.toks = nil
			b.vars[o] = v
		}
		if c.mode == "size" && v.k == "num" && st.vars[o].k == "num" {
			b.vars[o] = cval{k: "num", lin: atom("before:" + o.Name())}
		}
	}
	var res []cout
	var fin *cst
	for _, o := range c.stmt(b, body) {
		switch o.kind {
		case "return":
			if !o.st.fail && !o.st.ext {
				c.bad(s, "leaves the loop before the last part")
			}
			o.st.toks = append(append([]ctok(nil), st.toks...), ctok{kind: "partial"})
			res = append(res, o)
			continue
		case "break":
			c.bad(s, "leaves the loop before the last part")
		}
		if o.st.fail {
			c.bad(s, "goes on after an error")
		}
		if fin != nil {
			c.bad(s, "several outcomes for one part")
		}
		fin = o.st
	}
	if fin == nil {
		c.bad(s, "no outcome for a part")
	}
	n := st.clone()
	wrote := 0
	if len(fin.toks) > 0 {
		n.toks = append(n.toks, ctok{kind: "rep", over: coll, idx: ix, toks: fin.toks})
		wrote++
	}
	var outer []types.Object
	for o := range st.vars {
		outer = append(outer, o)
	}
	sort.Slice(outer, func(i, j int) bool { return outer[i].Pos() < outer[j].Pos() })
	for _, o := range outer {
		was, is := st.vars[o], fin.vars[o]
		switch {
		case is.k == "bytes" && was.k == "bytes":
			if len(is.toks) > 0 {
				was.toks = append(append([]ctok(nil), was.toks...), ctok{kind: "rep", over: coll, idx: ix, toks: is.toks})
				n.vars[o] = was
			}
		case c.mode == "size" && was.k == "num" && is.k == "num":
			d := is.lin.add(atom("before:"+o.Name()), -1)
			for a := range d.at {
				if strings.HasPrefix(a, "before:") {
					c.bad(s, "size is not a sum over the parts")
				}
			}
			if !d.zero() {
				d = d.rename(func(x string) string { return strings.ReplaceAll(subRoot(x, ix, "$"), "["+ix+"]", "[$]") })
				n.vars[o] = cval{k: "num", lin: was.lin.add(&csum{sums: map[string]*csum{coll: d}}, 1)}
			}
		case was.k == "err" && is.k == "err" && is.bad == was.bad:
		default:
			if was.String() != is.String() {
				c.bad(s, "%s changes in the loop", o.Name())
			}
		}
	}
	_ = wrote
	return append(res, cout{st: n, kind: "fall"})
}

// ---- sizes

// bound is the largest size of the encoding of the T at path p.
func (c *codec) bound(n ast.Node, T *types.Named, p string) *csum {
	vs := c.enc[T.Obj().Name()+".MarshalMsg"]
	if len(vs) != 1 {
		c.bad(n, "the encoding of %s is not known here", T.Obj().Name())
	}
	return c.boundToks(n, renameToks(vs[0].toks, rebase(p)))
}

func (c *codec) boundToks(n ast.Node, ts []ctok) *csum {
	r := num(0)
	for _, t := range ts {
		if t.size > 0 {
			r = r.add(num(t.size), 1)
			continue
		}
		switch t.kind {
		case "str", "bytes":
			r = r.add(num(5), 1).add(atom("len("+t.name+")"), 1)
		case "int", "uint":
			r = r.add(num(map[int]int64{8: 2, 16: 3, 32: 5, 64: 9}[t.bits]), 1)
		case "float":
			r = r.add(num(9), 1)
		case "bool", "nil":
			r = r.add(num(1), 1)
		case "val":
			r = r.add(c.bound(n, t.typ, t.name), 1)
		case "rep":
			in := c.boundToks(n, t.toks).rename(func(x string) string { return strings.ReplaceAll(subRoot(x, t.idx, "$"), "["+t.idx+"]", "[$]") })
			r = r.add(&csum{sums: map[string]*csum{t.over: in}}, 1)
		default:
			c.bad(n, "size of %s", t)
		}
	}
	return r
}

// ---- functions

func (c *codec) start(fi *FuncInfo, root string) (*cst, *types.Signature) {
	c.pkg = fi.Pkg
	c.root = root
	st := &cst{vars: map[types.Object]cval{}, mem: map[string]cval{}, asm: map[string]bool{}}
	sig := fi.Obj.Type().(*types.Signature)
	r := sig.Recv()
	if r == nil {
	} else if _, ok := r.Type().(*types.Pointer); ok {
		st.vars[r] = cval{k: "ptr", name: root, typ: r.Type()}
	} else {
		st.vars[r] = cval{k: "loc", name: root, typ: r.Type()}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		o := sig.Results().At(i)
		if o.Name() != "" {
			st.vars[o] = c.zero(o)
			if c.loose {
				st.vars[o] = c.local(st, o, st.vars[o])
			}
		}
	}
	return st, sig
}

// run executes a body; every outcome is a return with its values.
func (c *codec) run(fi *FuncInfo, st *cst, sig *types.Signature) []cout {
	var res []cout
	for _, o := range c.deferred(fi.Decl, c.block([]*cst{st}, fi.Decl.Body.List), sig) {
		if o.kind == "fall" {
			c.bad(fi.Decl, "end of the function without return")
		}
		if len(o.ret) == 0 {
			for i := 0; i < sig.Results().Len(); i++ {
				o.ret = append(o.ret, o.st.vars[sig.Results().At(i)])
			}
		}
		if len(o.ret) != sig.Results().Len() {
			c.bad(fi.Decl, "number of results")
		}
		for i := range o.ret {
			if o.ret[i].k == "nil" && types.Identical(sig.Results().At(i).Type(), types.Universe.Lookup("error").Type()) {
				o.ret[i] = cval{k: "err"}
			}
		}
		res = append(res, o)
	}
	return res
}

func asmKey(a map[string]bool) string {
	var p []string
	for _, k := range sortedKeys(a) {
		p = append(p, fmt.Sprintf("%s:%v", k, a[k]))
	}
	return strings.Join(p, " ")
}

// ---- results

// differs compares a stored part with that of the value that was written.
func (c *codec) differs(st *cst, zp, vp string, t types.Type) string {
	if v, ok := st.mem[zp]; ok {
		switch v.k {
		case "sym":
			if v.name != vp {
				return fmt.Sprintf("%s is set to %s", zp, v.name)
			}
			changed := false
			for k := range st.mem {
				changed = changed || strings.HasPrefix(k, zp+".") || strings.HasPrefix(k, zp+"[")
			}
			if !changed {
				return ""
			}
			return c.partsDiffer(st, zp, vp, t)
		case "slice":
			if !v.lin.eq(atom("len(" + vp + ")")) {
				return fmt.Sprintf("%s gets the length %s", zp, v.lin)
			}
			sl, ok := t.Underlying().(*types.Slice)
			if !ok {
				return zp + " is a slice"
			}
			return c.differs(st, zp+"[$]", vp+"[$]", sl.Elem())
		}
		return fmt.Sprintf("%s is set to %s", zp, v)
	}
	return c.partsDiffer(st, zp, vp, t)
}

func (c *codec) partsDiffer(st *cst, zp, vp string, t types.Type) string {
	nt, ok := t.(*types.Named)
	if ok && c.stored[nt.Obj().Name()] != nil && c.stored[nt.Obj().Name()][0] != "*" {
		for _, f := range c.stored[nt.Obj().Name()] {
			fv := fieldNamed(nt, f)
			if fv == nil {
				return "no field " + f
			}
			if d := c.differs(st, zp+"."+f, vp+"."+f, fv.Type()); d != "" {
				return d
			}
		}
		return ""
	}
	// an enclosing value
	if v := c.load(st, zp, t); v.k == "sym" && v.name == vp {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			for k := range st.mem {
				if strings.HasPrefix(k, zp+"[$]") {
					return c.differs(st, zp+"[$]", vp+"[$]", sl.Elem())
				}
			}
		}
		return ""
	}
	return zp + " is not set"
}

type codecRes struct {
	fn    *FuncInfo
	obls  []ledObl2
	err   string
	paths int
}
type ledObl2 struct {
	name, kind, pos, detail string
	ok                      bool
}

func (c *codec) guard(r *codecRes, name string, n ast.Node, f func() string) {
	defer func() {
		if x := recover(); x != nil {
			ce, ok := x.(codecErr)
			if !ok {
				panic(x)
			}
			r.obls = append(r.obls, ledObl2{name: name, kind: name, pos: c.prog.Fset.Position(ce.pos).String(), detail: ce.msg})
		}
	}()
	d := f()
	r.obls = append(r.obls, ledObl2{name: name, kind: name, pos: c.prog.Fset.Position(n.Pos()).String(), ok: d == "", detail: d})
}

func codecMain(prog *Program, spec, out string, verbose bool) bool {
	t0 := time.Now()
	c := &codec{prog: prog, stored: map[string][]string{}, named: map[string]*types.Named{}, enc: map[string][]cvariant{}}
	b, err := os.ReadFile(spec)
	if err != nil {
		fatal(err)
	}
	var prs []*cpair
	for i, ln := range strings.Split(string(b), "\n") {
		if j := strings.Index(ln, "//"); j >= 0 {
			ln = ln[:j]
		}
		f := strings.Fields(ln)
		if len(f) == 0 {
			continue
		}
		if f[0] == "pair" && len(f) == 5 && f[3] == "->" {
			prs = append(prs, &cpair{save: f[1], root: strings.Trim(f[2], "()"), load: f[4]})
			continue
		}
		if f[0] != "stored" || len(f) < 3 {
			fatal(fmt.Errorf("%s:%d: stored T: parts expected", spec, i+1))
		}
		n := strings.TrimSuffix(f[1], ":")
		c.stored[n] = f[2:]
		c.order = append(c.order, n)
	}
	pk := prog.Pkgs[modPath]
	res := outAll{BySolver: map[string]int{}, Ok: true}
	for _, n := range c.order {
		o := pk.Types.Scope().Lookup(n)
		if o == nil {
			res.Missing = append(res.Missing, n)
			continue
		}
		c.named[n] = o.Type().(*types.Named)
	}
	fn := func(T, m string) *FuncInfo {
		nt := c.named[T]
		if nt == nil {
			return nil
		}
		for i := 0; i < nt.NumMethods(); i++ {
			if nt.Method(i).Name() == m {
				return prog.ByPos[nt.Method(i)]
			}
		}
		return nil
	}
	var all []*codecRes
	byKey := map[string]*codecRes{}
	get := func(fi *FuncInfo) *codecRes {
		if r := byKey[fi.Key]; r != nil {
			return r
		}
		r := &codecRes{fn: fi}
		byKey[fi.Key] = r
		all = append(all, r)
		return r
	}
	// 1. encodings
	for _, m := range []string{"MarshalMsg", "EncodeMsg"} {
		for _, T := range c.order {
			fi := fn(T, m)
			if fi == nil {
				res.Missing = append(res.Missing, T+"."+m)
				continue
			}
			r := get(fi)
			c.mode = "encode"
			T := T
			c.guard(r, "writes", fi.Decl, func() string {
				c.enc[T+"."+m] = nil
				st, sig := c.start(fi, "v")
				if m == "MarshalMsg" {
					st.vars[sig.Params().At(0)] = cval{k: "bytes"}
				} else {
					st.vars[sig.Params().At(0)] = cval{k: "stream"}
				}
				// sizes asked for while writing do not matter here
				var vs []cvariant
				for _, o := range c.run(fi, st, sig) {
					r.paths++
					e := o.ret[len(o.ret)-1]
					if e.k != "err" {
						return "returns an unknown error value"
					}
					if o.st.fail {
						if !e.bad {
							return "a failing write is not reported"
						}
						continue
					}
					if e.bad {
						return "returns an error although every write succeeded"
					}
					toks := o.st.toks
					if m == "MarshalMsg" {
						if o.ret[0].k != "bytes" {
							return "does not return the extended bytes"
						}
						toks = o.ret[0].toks
					}
					asm := map[string]bool{}
					for k, v := range o.st.asm {
						asm[k] = v
					}
					vs = append(vs, cvariant{asm, toks})
				}
				if len(vs) == 0 {
					return "never succeeds"
				}
				c.enc[T+"."+m] = vs
				return ""
			})
		}
	}
	// 2. decoders invert both
	for _, m := range []string{"UnmarshalMsg", "DecodeMsg"} {
		for _, T := range c.order {
			fi := fn(T, m)
			if fi == nil {
				res.Missing = append(res.Missing, T+"."+m)
				continue
			}
			r := get(fi)
			for _, em := range []string{"MarshalMsg", "EncodeMsg"} {
				for _, v := range c.enc[T+"."+em] {
					v := v
					lab := "restores what " + em + " wrote"
					if len(v.asm) > 0 {
						lab += " (" + asmKey(v.asm) + ")"
					}
					c.guard(r, lab, fi.Decl, func() string {
						c.mode = "decode"
						st, sig := c.start(fi, "z")
						for k, x := range v.asm {
							st.asm[k] = x
						}
						if m == "UnmarshalMsg" {
							st.vars[sig.Params().At(0)] = cval{k: "rest", toks: v.toks, tail: "rest"}
						} else {
							st.vars[sig.Params().At(0)] = cval{k: "stream"}
							st.toks = v.toks
						}
						good := 0
						for _, o := range c.run(fi, st, sig) {
							r.paths++
							e := o.ret[len(o.ret)-1]
							if o.st.fail {
								if e.k != "err" || !e.bad {
									return "a failing read is not reported"
								}
								continue
							}
							if e.k != "err" || e.bad {
								return "returns an error for a complete encoding"
							}
							if m == "UnmarshalMsg" {
								if o.ret[0].k != "rest" || len(o.ret[0].toks) != 0 {
									return "does not return exactly the bytes that follow: " + o.ret[0].String()
								}
							} else if len(o.st.toks) != 0 {
								return "leaves " + tokString(o.st.toks) + " unread"
							}
							if d := c.differs(o.st, "z", "v", c.named[T]); d != "" {
								return d
							}
							good++
						}
						if good == 0 {
							return "never succeeds"
						}
						return ""
					})
				}
			}
			// an encoding of another number of parts is refused
			if vs := c.enc[T+".MarshalMsg"]; len(vs) == 1 && len(vs[0].toks) > 0 && vs[0].toks[0].kind == "arr" && vs[0].toks[0].n.isConst() {
				k := vs[0].toks[0].n.c
				for _, more := range []bool{false, true} {
					lab := "refuses fewer parts"
					c.otherLo, c.otherHi = 0, k-1
					if more {
						lab = "refuses more parts"
						c.otherLo, c.otherHi = k+1, 1<<32-1
					}
					c.guard(r, lab, fi.Decl, func() string {
						c.mode = "decode"
						st, sig := c.start(fi, "z")
						toks := []ctok{{kind: "arr", n: atom("#other")}, {kind: "foreign value"}}
						if m == "UnmarshalMsg" {
							st.vars[sig.Params().At(0)] = cval{k: "rest", toks: toks, tail: "rest"}
						} else {
							st.vars[sig.Params().At(0)] = cval{k: "stream"}
							st.toks = toks
						}
						for _, o := range c.run(fi, st, sig) {
							r.paths++
							if e := o.ret[len(o.ret)-1]; e.k != "err" || !e.bad {
								return fmt.Sprintf("accepts an encoding with other than %d parts", k)
							}
						}
						return ""
					})
				}
			}
			if len(c.enc[T+".MarshalMsg"]) == 0 && len(c.enc[T+".EncodeMsg"]) == 0 {
				r.obls = append(r.obls, ledObl2{name: "restores", kind: "restores", detail: "the encoding is not known"})
			}
		}
	}
	// what is saved is what is loaded
	c.pairs(prs, get, func(n string) { res.Missing = append(res.Missing, n) })
	// 3. sizes
	for _, T := range c.order {
		fi := fn(T, "Msgsize")
		if fi == nil {
			res.Missing = append(res.Missing, T+".Msgsize")
			continue
		}
		r := get(fi)
		for _, em := range []string{"MarshalMsg", "EncodeMsg"} {
			for _, v := range c.enc[T+"."+em] {
				v := v
				c.guard(r, "bounds what "+em+" writes", fi.Decl, func() string {
					c.mode = "size"
					st, sig := c.start(fi, "v")
					for k, x := range v.asm {
						st.asm[k] = x
					}
					need := c.boundToks(fi.Decl, v.toks).rename(func(x string) string { return x })
					for _, o := range c.run(fi, st, sig) {
						r.paths++
						got := asLin(o.ret[0])
						if got == nil {
							return "the size is not a sum"
						}
						nd := need
						for k, isNil := range o.st.asm {
							if isNil {
								p := strings.TrimSuffix(k, "==nil")
								nd = drop(nd, p)
							}
						}
						if d := got.add(nd, -1); !d.nonneg() {
							return fmt.Sprintf("Msgsize is %s, the encoding may take %s", got, nd)
						}
					}
					return ""
				})
			}
		}
	}
	for _, r := range all {
		of := outFunc{Func: r.fn.Key, Pos: prog.Fset.Position(r.fn.Decl.Pos()).String(), Status: "verified", BySolver: map[string]int{}, Paths: r.paths, Assumptions: []string{
			"the functions of " + msgpPath + " write and read one value each, as their names say; collections have fewer than 2^32 parts",
			"a decoded value's old payload buffers are not shared between its elements",
		}}
		for _, o := range r.obls {
			of.Obligations++
			if o.ok {
				of.Discharged++
				of.BySolver["codec"]++
			} else {
				of.Failed = append(of.Failed, outObl{Name: "codec:" + r.fn.Key + ":" + o.name, Kind: o.kind, Pos: o.pos, Status: "failed", Solver: "codec", Output: o.detail})
			}
		}
		if len(of.Failed) > 0 {
			of.Status = "failed"
			res.Ok = false
		}
		res.Obligations += of.Obligations
		res.Discharged += of.Discharged
		res.BySolver["codec"] += of.Discharged
		res.Functions = append(res.Functions, of)
		if verbose || of.Status != "verified" {
			fmt.Printf("%-10s %s %d/%d\n", of.Status, of.Func, of.Discharged, of.Obligations)
			for _, f := range of.Failed {
				fmt.Printf("    %s at %s: %s\n", f.Name, f.Pos, f.Output)
			}
		}
	}
	if len(res.Missing) > 0 {
		res.Ok = false
		fmt.Println("MISSING:", res.Missing)
	}
	if verbose {
		for _, T := range c.order {
			for _, m := range []string{"MarshalMsg", "EncodeMsg"} {
				for _, v := range c.enc[T+"."+m] {
					fmt.Printf("%s.%s %s: %s\n", T, m, asmKey(v.asm), tokString(v.toks))
				}
			}
		}
	}
	res.WallMs = time.Since(t0).Milliseconds()
	if out != "" {
		j, _ := json.MarshalIndent(res, "", " ")
		_ = os.WriteFile(out, j, 0644)
	}
	fmt.Printf("codec: %d/%d obligations, %d functions, %.2fs\n", res.Discharged, res.Obligations, len(res.Functions), float64(res.WallMs)/1000)
	return res.Ok
}

// drop removes a collection known to be empty.
func drop(a *csum, p string) *csum {
	r := num(0).add(a, 1)
	delete(r.at, "len("+p+")")
	delete(r.sums, p)
	return r
}
