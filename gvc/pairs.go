package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Functions around the codecs: what is saved is what is loaded, under the
// same tag, and a different tag is refused. The codec methods are used by
// their contracts; the functions of msgppool.go are executed in place.

// cpair is a saving and a loading function.
type cpair struct {
	save, load string // names: Recv.Func
	root       string // parameter or receiver whose value is saved
	savedKey   string
	loadedKey  string
	toks       []ctok
}

// objects of the package with assumed contracts
var looseKnown = map[string]string{
	"Segment.StorageKey":      "the storage key depends on the segment only",
	"Segment.cacheID":         "",
	"Elements.Clone":          "",
	"Segments.elementFullIdx": "Segments.elementFullIdx gives segment i and its stored elements",
	"Segments.replaceSegment": "Segments.replaceSegment stores the segment and its elements at its position",
	"List.loadSegments":       "List.loadSegments gives the segments of the list",
	"List.Reindex":            "List.Reindex keeps settings, metadata and elements",
	"newList":                 "",
	"NewSegments":             "",
	"RandString":              "",
	"SegmentsID.Load":         "",
	"Segments.Delete":         "",
}

func funcName(f *types.Func) string {
	n := f.Name()
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	return n
}

func (c *codec) known(f *types.Func) bool {
	_, ok := looseKnown[funcName(f)]
	return ok
}

func (c *codec) object(kind string) string {
	c.nobj++
	return fmt.Sprintf("%s%d", kind, c.nobj)
}

// newObj: the location belongs to an object created after the first n.
func (c *codec) newObj(k string, n int) bool {
	if k == "" || k[0] != 'L' && k[0] != 'W' {
		return false
	}
	var i int
	if _, err := fmt.Sscanf(k[1:], "%d", &i); err != nil {
		return false
	}
	return i > n
}

// local gives a variable of a composite type a location.
func (c *codec) local(st *cst, o types.Object, v cval) cval {
	if o == nil || v.k == "err" {
		return v
	}
	switch o.Type().Underlying().(type) {
	case *types.Struct:
	case *types.Slice:
		if nt, ok := o.Type().(*types.Named); !ok || c.stored[nt.Obj().Name()] == nil {
			return v
		}
	default:
		return v
	}
	return cval{k: "loc", name: c.object("L"), typ: o.Type()}
}

// bindLocal: a composite value is assigned to a variable without a location.
func (c *codec) bindLocal(st *cst, o types.Object, v cval) bool {
	if o == nil {
		return false
	}
	if cur, ok := st.vars[o]; ok && cur.k == "loc" {
		return false
	}
	if v.k == "lit" {
		st.vars[o] = cval{k: "loc", name: v.name, typ: o.Type()}
		return true
	}
	if v.k == "slice" || v.k == "sym" {
		l := c.local(st, o, v)
		if l.k == "loc" {
			st.vars[o] = l
			st.mem[l.name] = v
			return true
		}
	}
	return false
}

func (c *codec) composite(st *cst, x *ast.CompositeLit) cval {
	t := c.pkg.Info.TypeOf(x)
	nt, ok := t.(*types.Named)
	if !ok {
		return cval{k: "opaque", name: "composite"}
	}
	s, ok := nt.Underlying().(*types.Struct)
	if !ok || nt.Obj().Pkg() != c.pkg.Types {
		return cval{k: "opaque", name: "composite"}
	}
	p := c.object("L")
	for i, e := range x.Elts {
		name, val := "", e
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			name, val = kv.Key.(*ast.Ident).Name, kv.Value
		} else {
			name = s.Field(i).Name()
		}
		st.mem[p+"."+name] = c.eval1(st, val)
	}
	return cval{k: "lit", name: p, typ: t}
}

// pooled: pool.Get().(*T) gives an object with unknown content.
func (c *codec) pooled(st *cst, x *ast.TypeAssertExpr) ([]cval, bool) {
	call, ok := ast.Unparen(x.X).(*ast.CallExpr)
	if !ok || x.Type == nil {
		return nil, false
	}
	f := calleeOf(c.pkg.Info, call)
	if f == nil || f.Pkg() == nil || f.Pkg().Path() != "sync" || f.Name() != "Get" {
		return nil, false
	}
	pt, ok := c.pkg.Info.TypeOf(x.Type).(*types.Pointer)
	if !ok {
		return nil, false
	}
	return []cval{{k: "ptr", name: c.msgpObj(st, pt.Elem())}}, true
}

// msgpObj is an object holding msgp readers, writers and buffers.
func (c *codec) msgpObj(st *cst, t types.Type) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return c.object("L")
	}
	p := c.object("W")
	for i := 0; i < s.NumFields(); i++ {
		switch types.TypeString(s.Field(i).Type(), nil) {
		case "*" + msgpPath + ".Writer", "*" + msgpPath + ".Reader":
			st.mem[p+"."+s.Field(i).Name()] = cval{k: "stream", name: p}
		case "*bytes.Buffer":
			st.mem[p+"."+s.Field(i).Name()] = cval{k: "buf", name: p}
		}
	}
	return p
}

// looseCall: calls with one outcome.
func (c *codec) looseCall(st *cst, x *ast.CallExpr) ([]cval, bool) {
	f := calleeOf(c.pkg.Info, x)
	if f == nil || f.Pkg() == nil {
		return nil, false
	}
	sig := f.Type().(*types.Signature)
	var recv cval
	if sig.Recv() != nil {
		if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
			if tv := c.pkg.Info.Types[se.X]; !tv.IsType() {
				recv = c.eval1(st, se.X)
				if recv.k == "loc" || recv.k == "sym" || recv.k == "opaque" {
					if p := c.path(st, se.X); p != "" {
						recv.name = p
					}
				}
			}
		}
	}
	w := recv.name
	switch f.Pkg().Path() {
	case "bytes":
		switch {
		case recv.k == "buf" && f.Name() == "Reset":
			st.mem[w+".#buf"] = cval{k: "nil"}
			st.mem[w+".#reset"] = cval{k: "nil"}
			return nil, true
		case recv.k == "buf" && f.Name() == "Bytes":
			switch out := st.mem[w+".#out"]; {
			case st.mem[w+".#buf"].k != "nil":
				c.bad(x, "the buffer may hold data of an earlier use")
			case out.k != "buf":
				c.bad(x, "the writer does not write to this buffer")
			case st.mem[w+".#flushed"].k != "num" || !st.mem[w+".#flushed"].lin.eq(num(int64(len(st.toks)))):
				c.bad(x, "the writer is not flushed")
			}
			delete(st.mem, w+".#reset")
			return []cval{{k: "bytes", toks: st.toks, name: w}}, true
		case recv.k == "" && (f.Name() == "NewReader" || f.Name() == "NewBuffer"):
			if v := c.eval1(st, x.Args[0]); v.k == "rest" {
				return []cval{{k: "src", toks: v.toks}}, true
			}
		}
	case msgpPath:
		if recv.k != "stream" {
			break
		}
		switch f.Name() {
		case "Reset":
			v := c.eval1(st, x.Args[0])
			if funcName(f) == "Reader.Reset" {
				if v.k == "src" {
					st.toks = v.toks
				}
				return nil, true
			}
			st.mem[w+".#out"] = v
			st.mem[w+".#reset"] = cval{k: "nil"}
			return nil, true
		case "Flush":
			st.mem[w+".#flushed"] = cval{k: "num", lin: num(int64(len(st.toks)))}
			return []cval{{k: "opaque", name: "error of Flush"}}, true
		}
	case "sync":
		if f.Name() == "Put" {
			return nil, true
		}
	}
	if f.Pkg() == c.pkg.Types {
		switch n := funcName(f); n {
		case "newList":
			return []cval{{k: "ptr", name: c.object("L")}}, true
		case "RandString":
			return []cval{{k: "sym", name: "random", typ: types.Typ[types.String]}}, true
		case "Segment.StorageKey":
			return []cval{{k: "opaque", name: n + "(" + w + ")"}}, true
		default:
			if _, ok := looseKnown[n]; ok {
				r := make([]cval, sig.Results().Len())
				for i := range r {
					r[i] = cval{k: "opaque", name: "result of " + n}
				}
				return r, true
			}
		}
	}
	return nil, false
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// looseFork: calls that may fail for reasons outside.
func (c *codec) looseFork(st *cst, x *ast.CallExpr) (outs []*cst, vals [][]cval, ok bool) {
	if fl, isLit := ast.Unparen(x.Fun).(*ast.FuncLit); isLit {
		_ = fl
		return c.inline(st, x)
	}
	f := calleeOf(c.pkg.Info, x)
	if f == nil || f.Pkg() == nil || f.Pkg().Path() == msgpPath || f.Pkg().Path() == "errors" || f.Pkg().Path() == "fmt" {
		return
	}
	sig := f.Type().(*types.Signature)
	n := sig.Results().Len()
	if n == 0 || !isErr(sig.Results().At(n-1).Type()) {
		return
	}
	good := st.clone()
	gv := make([]cval, n)
	for i := range gv {
		gv[i] = cval{k: "opaque", name: "result of " + f.Name()}
	}
	gv[n-1] = cval{k: "err"}
	var recvX ast.Expr
	if se, ok := ast.Unparen(x.Fun).(*ast.SelectorExpr); ok {
		recvX = se.X
	}
	switch {
	case strings.HasSuffix(f.Pkg().Path(), "/blobstore") && f.Name() == "Get":
		good.events = append(good.events, "get "+c.keyOf(good, x.Args[1]))
		gv[0] = cval{k: "rest", toks: c.partner.toks, tail: "rest"}
	case strings.HasSuffix(f.Pkg().Path(), "/blobstore") && f.Name() == "Set":
		b := c.eval1(good, x.Args[2])
		if b.k != "bytes" {
			c.bad(x, "stores %s", b)
		}
		if _, ok := good.mem[b.name+".#reset"]; ok {
			c.bad(x, "the bytes are stored after the buffer was given back")
		}
		good.events = append(good.events, "set "+c.keyOf(good, x.Args[1]))
		good.mem["#saved"] = b
	case f.Pkg() != c.pkg.Types:
		for _, a := range x.Args {
			c.eval1(good, a)
		}
	case funcName(f) == "List.loadSegments":
		p := c.object("L")
		good.mem[p+".scores"] = cval{k: "ptr", name: c.path(st, recvX) + ".scores"}
		gv[0] = cval{k: "ptr", name: p}
	case funcName(f) == "Segments.elementFullIdx":
		i := c.eval1(good, x.Args[2])
		s := c.path(st, recvX)
		if i.k != "sym" || !strings.HasPrefix(i.name, "$") || s == "" {
			c.bad(x, "segment %s of %s", i, s)
		}
		p := c.object("L")
		seg := s + ".Segments[" + i.name + "]"
		good.mem[p+".seg"] = cval{k: "ptr", name: seg}
		good.mem[p+".elements"] = cval{k: "sym", name: "elements(" + seg + ")"}
		gv[0] = cval{k: "ptr", name: p}
	case funcName(f) == "Segments.replaceSegment":
		c.replaced(good, x, c.path(st, recvX), x.Args[2])
	case funcName(f) == "Segments.Delete":
		good.events = append(good.events, "delete "+c.path(st, recvX))
	case c.known(f):
	default:
		// a function of the package: executed when it touches what is saved or loaded
		if o, v, ok := c.inline(st, x); ok {
			return o, v, true
		}
		for _, a := range x.Args {
			c.eval1(good, a)
		}
	}
	bad := st.clone()
	bad.ext = true
	bv := make([]cval, n)
	for i := range bv {
		bv[i] = cval{k: "nil"}
		if _, ok := sig.Results().At(i).Type().Underlying().(*types.Pointer); !ok {
			bv[i] = cval{k: "opaque", name: "result of a failed " + f.Name()}
		}
	}
	bv[n-1] = cval{k: "err", bad: true}
	return []*cst{good, bad}, [][]cval{gv, bv}, true
}

func (c *codec) keyOf(st *cst, x ast.Expr) string {
	v := c.eval1(st, x)
	return v.k + " " + v.name
}

// replaced: segment ls.index of the collection at s becomes ls.seg with ls.elements.
func (c *codec) replaced(st *cst, n *ast.CallExpr, s string, lsX ast.Expr) {
	ls := c.eval1(st, lsX)
	if ls.k != "ptr" || s == "" {
		c.bad(n, "replaceSegment of %s", ls)
	}
	i := c.load(st, ls.name+".index", types.Typ[types.Int])
	if i.k != "sym" || !strings.HasPrefix(i.name, "$") {
		c.bad(n, "position %s", i)
	}
	seg := st.mem[ls.name+".seg"]
	if seg.k != "ptr" {
		c.bad(n, "unknown segment")
	}
	want := "v.scores.Segments[" + i.name + "]"
	T := c.named["Segment"]
	for _, f := range c.stored["Segment"] {
		fv := fieldNamed(T, f)
		if f == "Parent" || fv == nil {
			continue
		}
		if d := c.differs(st, seg.name+"."+f, want+"."+f, fv.Type()); d != "" {
			c.bad(n, "the segment differs from the saved one: %s", d)
		}
	}
	a, b := c.load(st, seg.name+".Parent", nil), c.load(st, s+".ID", nil)
	if a.k != b.k || a.name != b.name {
		c.bad(n, "the segment's parent is %s, the collection is %s", a, b)
	}
	if d := c.differs(st, ls.name+".elements", "elements("+want+")", c.named["Elements"]); d != "" {
		c.bad(n, "the elements differ from the saved ones: %s", d)
	}
	st.mem[s+".Segments["+i.name+"]"] = cval{k: "sym", name: "stored:" + want}
}

// touchAll: a loop over parts that reads nothing.
func (c *codec) touchAll(st *cst, s ast.Stmt, key types.Object, body *ast.BlockStmt) []cout {
	c.nidx++
	ix := fmt.Sprintf("$%d", c.nidx)
	b := st.clone()
	if key != nil {
		b.vars[key] = cval{k: "sym", name: ix, typ: types.Typ[types.Int]}
	}
	os := c.stmt(b, body)
	if len(os) != 1 || os[0].kind != "fall" && os[0].kind != "continue" {
		c.bad(s, "loop with several outcomes")
	}
	if tokString(c.input(os[0].st)) != tokString(c.input(st)) {
		c.bad(s, "reads in a loop over parts already read")
	}
	n := st.clone()
	for k, v := range os[0].st.mem {
		if old, had := st.mem[k]; had && old.String() == v.String() || c.newObj(k, 0) && !strings.Contains(k, "["+ix+"]") && !had {
			continue
		}
		if !strings.Contains(k, "["+ix+"]") {
			c.bad(s, "%s changes in the loop", k)
		}
		n.mem[strings.ReplaceAll(k, "["+ix+"]", "[$]")] = canon(v, ix)
	}
	return fall(n)
}

// hoist executes a call inside x that may fail, before x is evaluated.
func (c *codec) hoist(st *cst, x ast.Expr) []*cst {
	var call *ast.CallExpr
	if be, ok := ast.Unparen(x).(*ast.BinaryExpr); ok && (be.Op.String() == "&&" || be.Op.String() == "||") {
		return c.hoist(st, be.X)
	}
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if _, done := st.pre[n]; done {
				return false
			}
			if tv := c.pkg.Info.Types[ast.Unparen(n.Fun)]; tv.IsType() || tv.IsBuiltin() {
				return true
			}
			if call == nil {
				call = n
			}
			return false
		}
		return true
	})
	if call == nil {
		return nil
	}
	outs, vals, ok := c.writeCall(st, call)
	if !ok {
		return nil
	}
	for i, o := range outs {
		if o.pre == nil {
			o.pre = map[ast.Expr][]cval{}
		}
		o.pre[call] = vals[i]
	}
	return outs
}

// deferred runs the deferred calls of every outcome.
func (c *codec) deferred(n ast.Node, os []cout, sig *types.Signature) []cout {
	if !c.loose {
		return os
	}
	var res []cout
	for _, o := range os {
		if o.kind == "fall" && sig.Results().Len() == 0 {
			o.kind = "return"
		}
		if o.kind != "return" || len(o.st.defers) == 0 {
			res = append(res, o)
			continue
		}
		named := sig.Results().Len() > 0 && sig.Results().At(0).Name() != ""
		if named && len(o.ret) == sig.Results().Len() {
			for i, v := range o.ret {
				r := sig.Results().At(i)
				if cur, ok := o.st.vars[r]; ok && cur.k == "loc" {
					if v.k == "loc" {
						v = c.load(o.st, v.name, r.Type())
					}
					if v.k == "nil" {
						v = cval{k: "slice", lin: num(0)}
					}
					c.store(o.st, cur.name, v)
					continue
				}
				o.st.vars[r] = v
			}
		}
		ds := o.st.defers
		o.st.defers = nil
		cur := []*cst{o.st}
		for i := len(ds) - 1; i >= 0; i-- {
			var next []*cst
			for _, st := range cur {
				if fl, ok := ast.Unparen(ds[i].Fun).(*ast.FuncLit); ok && len(ds[i].Args) == 0 {
					for _, d := range c.stmt(st, fl.Body) {
						next = append(next, d.st)
					}
					continue
				}
				for _, d := range c.stmt(st, &ast.ExprStmt{X: ds[i]}) {
					next = append(next, d.st)
				}
			}
			cur = next
		}
		for _, st := range cur {
			r := o
			r.st = st
			if named {
				r.ret = nil
				for i := 0; i < sig.Results().Len(); i++ {
					r.ret = append(r.ret, st.vars[sig.Results().At(i)])
				}
			}
			res = append(res, r)
		}
	}
	return res
}

// fnNamed finds Recv.Func or Func of the main package.
func (c *codec) fnNamed(n string) *FuncInfo {
	for o, fi := range c.prog.ByPos {
		if o.Pkg() != nil && o.Pkg().Path() == modPath && funcName(o) == n && fi.Decl != nil && fi.Decl.Body != nil {
			return fi
		}
	}
	return nil
}

// pairs checks every saving function and its loading function.
func (c *codec) pairs(ps []*cpair, get func(*FuncInfo) *codecRes, missing func(string)) {
	defer func() { c.loose, c.partner = false, nil }()
	for _, p := range ps {
		c.loose, c.partner = true, p
		sf, lf := c.fnNamed(p.save), c.fnNamed(p.load)
		if sf == nil || lf == nil {
			if sf == nil {
				missing(p.save)
			}
			if lf == nil {
				missing(p.load)
			}
			continue
		}
		p.toks = nil
		sr, lr := get(sf), get(lf)
		var T types.Type
		c.guard(sr, "saves", sf.Decl, func() string {
			c.mode = "encode"
			st, sig := c.start(sf, "w")
			T = c.bindRoot(st, sig, p.root)
			if T == nil {
				return "no parameter " + p.root
			}
			streams := c.bindMsgp(st, sig)
			ok := 0
			for _, o := range c.run(sf, st, sig) {
				sr.paths++
				e := o.ret[len(o.ret)-1]
				if e.k != "err" {
					return "returns an unknown error value"
				}
				if o.st.fail || o.st.ext {
					if !e.bad {
						return "a failure is not reported"
					}
					continue
				}
				if e.bad {
					continue // refused
				}
				toks := o.st.toks
				if !streams {
					b, saved := o.st.mem["#saved"]
					if !saved {
						return "returns without storing anything"
					}
					if len(o.st.events) != 1 {
						return "stores more than once"
					}
					toks = b.toks
					p.savedKey = strings.TrimPrefix(o.st.events[0], "set ")
				}
				if p.toks != nil && tokString(p.toks) != tokString(toks) {
					return "stores in more than one form"
				}
				p.toks = toks
				ok++
			}
			if ok == 0 {
				return "never succeeds"
			}
			return ""
		})
		if p.toks == nil {
			lr.obls = append(lr.obls, ledObl2{name: "loads", kind: "loads", detail: "what " + p.save + " stores is not known"})
			continue
		}
		foreign := false
		run := func(f func(st *cst, ret []cval, e cval) string) string {
			c.mode = "decode"
			st, sig := c.start(lf, "z")
			if c.bindMsgp(st, sig) {
				st.toks = p.toks
			}
			good := 0
			for _, o := range c.run(lf, st, sig) {
				lr.paths++
				if o.st.skip {
					continue
				}
				for i := range o.ret {
					if o.ret[i].k == "nil" && isErr(sig.Results().At(i).Type()) {
						o.ret[i] = cval{k: "err"}
					}
				}
				e := o.ret[len(o.ret)-1]
				if e.k != "err" {
					return "returns an unknown error value " + e.String()
				}
				if d := f(o.st, o.ret, e); d != "" {
					return d
				}
				if !e.bad {
					good++
				}
			}
			if good == 0 && !foreign {
				return "never succeeds"
			}
			return ""
		}
		c.otherLo, c.otherHi = 0, 0
		c.guard(lr, "loads what "+p.save+" saved", lf.Decl, func() string {
			return run(func(st *cst, ret []cval, e cval) string {
				if e.bad {
					if !st.fail && !st.ext {
						return "returns an error for what was saved"
					}
					return ""
				}
				if st.fail {
					return "a failing read is not reported"
				}
				for _, ev := range st.events {
					if strings.HasPrefix(ev, "get ") {
						p.loadedKey = strings.TrimPrefix(ev, "get ")
					}
				}
				r := ret[0]
				zp := r.name
				if r.k == "slice" || r.k == "sym" {
					zp = c.object("L")
					st.mem[zp] = r
				} else if r.k != "ptr" && r.k != "loc" {
					return "returns " + r.String()
				}
				if p.load == "RestoreList" {
					return c.restored(st, zp)
				}
				t := T
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				return c.differs(st, zp, "v", t)
			})
		})
		c.guard(lr, "loads from the key it was saved under", lf.Decl, func() string {
			norm := func(k string) string {
				for _, x := range []string{"w.seg", "old:z.", "v.", "w.", "z"} {
					k = strings.ReplaceAll(k, x, "@")
				}
				return strings.ReplaceAll(k, "@ID", "@")
			}
			if a, b := norm(p.savedKey), norm(strings.ReplaceAll(p.loadedKey, "old:z", "z")); a != b {
				return fmt.Sprintf("saved under %s, loaded from %s", p.savedKey, p.loadedKey)
			}
			return ""
		})
		all := p.toks
		foreign = true
		for i, t := range all {
			if t.kind != "byte" {
				continue
			}
			for _, more := range []bool{false, true} {
				c.otherLo, c.otherHi = 0, t.n.c-1
				if more {
					c.otherLo, c.otherHi = t.n.c+1, 255
				}
				if c.otherHi < c.otherLo {
					continue
				}
				p.toks = append(append([]ctok(nil), all[:i]...), ctok{kind: "byte", n: atom("#other"), size: 1}, ctok{kind: "foreign value"})
				c.guard(lr, fmt.Sprintf("refuses another version (tag %d, %v)", i, map[bool]string{true: "above", false: "below"}[more]), lf.Decl, func() string {
					return run(func(st *cst, ret []cval, e cval) string {
						if !e.bad {
							return "accepts data with another version"
						}
						return ""
					})
				})
			}
		}
		p.toks = all
		c.otherLo, c.otherHi = 0, 0
	}
}

// bindRoot makes the saved value v.
func (c *codec) bindRoot(st *cst, sig *types.Signature, root string) types.Type {
	bind := func(o *types.Var) types.Type {
		if _, ok := o.Type().(*types.Pointer); ok {
			st.vars[o] = cval{k: "ptr", name: "v", typ: o.Type()}
		} else {
			st.vars[o] = cval{k: "loc", name: "v", typ: o.Type()}
		}
		return o.Type()
	}
	if root == "receiver" && sig.Recv() != nil {
		return bind(sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		o := sig.Params().At(i)
		t := o.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok && nt.Obj().Name() == root {
			return bind(o)
		}
	}
	return nil
}

// bindMsgp gives parameters that are msgp readers and writers of the package their streams.
func (c *codec) bindMsgp(st *cst, sig *types.Signature) bool {
	found := false
	for i := 0; i < sig.Params().Len(); i++ {
		o := sig.Params().At(i)
		p, ok := o.Type().(*types.Pointer)
		if !ok {
			continue
		}
		nt, ok := p.Elem().(*types.Named)
		if !ok {
			continue
		}
		switch nt.Obj().Name() {
		case "WriterMsgp", "ReaderMsgp":
			st.vars[o] = cval{k: "ptr", name: c.msgpObj(st, nt)}
			found = true
		case "ListID":
			st.vars[o] = cval{k: "ptr", name: "newID"}
		}
	}
	return found
}

// restored: the list at zp is the saved one.
func (c *codec) restored(st *cst, zp string) string {
	T := c.named["List"]
	renamed := false
	if v, ok := st.asm["newID==nil"]; ok && !v {
		renamed = true
	}
	if renamed {
		for _, e := range st.events {
			if strings.HasPrefix(e, "delete ") {
				return "restoring under a new ID deletes stored segments"
			}
		}
	}
	for _, f := range c.stored["List"] {
		fv := fieldNamed(T, f)
		if fv == nil {
			return "no field " + f
		}
		switch f {
		case "Index":
			continue // rebuilt
		case "ID":
			if renamed {
				if v := c.load(st, zp+".ID", fv.Type()); !strings.HasSuffix(v.name, "newID") {
					return "the list gets the ID " + v.String()
				}
				continue
			}
		case "Scores":
			if renamed {
				continue
			}
		}
		if d := c.differs(st, zp+"."+f, "v."+f, fv.Type()); d != "" {
			return d
		}
	}
	s := st.mem[zp+".scores"]
	if s.k != "ptr" {
		return "the list has no segments"
	}
	if v := c.load(st, zp+".Scores", nil); renamed {
		if id := c.load(st, s.name+".ID", nil); id.k != v.k || id.name != v.name || v.name != "random" {
			return fmt.Sprintf("the list names its segments %s, they are %s", v, id)
		}
	}
	n := st.mem[s.name+".Segments"]
	if n.k != "slice" || !n.lin.eq(atom("len(v.scores.Segments)")) {
		return "the number of segments is " + n.String()
	}
	if x := st.mem[s.name+".Segments[$]"]; x.name != "stored:v.scores.Segments[$]" {
		return "not every segment is stored: " + x.String()
	}
	return ""
}

// errVar: a package variable holding an error made where it is declared, assigned nowhere.
func (c *codec) errVar(o types.Object) bool {
	if c.errVars == nil {
		c.errVars = map[types.Object]bool{}
		isNew := func(x ast.Expr) bool {
			call, ok := ast.Unparen(x).(*ast.CallExpr)
			if !ok {
				return false
			}
			f := calleeOf(c.pkg.Info, call)
			return f != nil && f.Pkg() != nil && (f.Pkg().Path() == "errors" && f.Name() == "New" || f.Pkg().Path() == "fmt" && f.Name() == "Errorf")
		}
		for _, file := range c.pkg.Files {
			for _, d := range file.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, sp := range gd.Specs {
					vs, ok := sp.(*ast.ValueSpec)
					if !ok || len(vs.Values) != len(vs.Names) {
						continue
					}
					for i, id := range vs.Names {
						if isNew(vs.Values[i]) {
							c.errVars[c.pkg.Info.Defs[id]] = true
						}
					}
				}
			}
		}
		for _, file := range c.pkg.Files {
			ast.Inspect(file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						if id, ok := ast.Unparen(l).(*ast.Ident); ok {
							delete(c.errVars, c.pkg.Info.Uses[id])
						}
					}
				case *ast.UnaryExpr:
					if id, ok := ast.Unparen(n.X).(*ast.Ident); ok && n.Op == token.AND {
						delete(c.errVars, c.pkg.Info.Uses[id])
					}
				}
				return true
			})
		}
	}
	return c.errVars[o]
}
