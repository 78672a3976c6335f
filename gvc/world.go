package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// World holds declarations shared by all obligations of a run.
type World struct {
	Prog      *Program
	DB        *SpecDB
	structs   map[string]*StructInfo // by sort name
	order     []string               // struct declaration order
	byType    map[string]string      // type string -> struct sort
	decls     map[string]string      // symbol -> declaration
	declOrd   []string
	lits      map[string]*Term // string literals
	litOrd    []string
	heapTyp   map[string]types.Type // heap key -> elem type
	BV        bool
	axioms    []*Term
	axName    []string
	globals   map[string]*Term
	errGlob   []string
	dynTags   map[string]int
	nfresh    int
	lockModel bool
	mu        sync.Mutex
}

type StructInfo struct {
	Sort   string
	Typ    *types.Struct
	Fields []FieldInfo
}
type FieldInfo struct {
	Name string
	Sel  string
	Sort string
	Typ  types.Type
	Emb  bool
}

func NewWorld(p *Program, db *SpecDB) *World {
	return &World{Prog: p, DB: db, structs: map[string]*StructInfo{}, byType: map[string]string{}, decls: map[string]string{}, lits: map[string]*Term{}, heapTyp: map[string]types.Type{}, globals: map[string]*Term{}}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string { return types.TypeString(t, qual) }

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync")
}

func (w *World) sortOf(t types.Type) string {
	if _, ptr := t.(*types.Pointer); !ptr && isSyncType(t) {
		return "Opaque"
	}
	if a, ok := t.(*types.Alias); ok {
		return w.sortOf(types.Unalias(a))
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "time":
				if n.Obj().Name() == "Time" {
					return "Opaque"
				}
			}
			if _, isS := n.Underlying().(*types.Struct); isS && w.Prog.Pkgs[n.Obj().Pkg().Path()] == nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return "Opaque"
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *ghostTyp:
		s := w.sortOf(u.ret)
		for i := len(u.params) - 1; i >= 0; i-- {
			s = "(Array " + w.sortOf(u.params[i]) + " " + s + ")"
		}
		return s
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			if w.BV {
				return fmt.Sprintf("(_ BitVec %d)", intBits(u))
			}
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			if w.BV {
				return "(_ FloatingPoint 11 53)"
			}
			return "Flt"
		case u.Kind() == types.UntypedNil:
			return "Opaque"
		}
		return "Opaque"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return "(Array Int " + w.sortOf(u.Elem()) + ")"
	case *types.Map:
		return "Int"
	case *types.Pointer:
		return "Ptr"
	case *types.Struct:
		return w.structSort(t, u)
	}
	return "Opaque"
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func isUnsigned(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned == 0 {
		return 0, false
	}
	return intBits(b), true
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (w *World) structSort(t types.Type, st *types.Struct) string {
	k := typeKey(t)
	if s, ok := w.byType[k]; ok {
		return s
	}
	name := "S_" + sanitize(k)
	if _, named := t.(*types.Named); !named {
		name = fmt.Sprintf("S_anon%d", len(w.byType))
	}
	w.byType[k] = name
	si := &StructInfo{Sort: name, Typ: st}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs := w.sortOf(f.Type())
		si.Fields = append(si.Fields, FieldInfo{Name: f.Name(), Sel: fmt.Sprintf("%s.%s", name, sanitize(f.Name())), Sort: fs, Typ: f.Type(), Emb: f.Embedded()})
	}
	w.structs[name] = si
	w.order = append(w.order, name) // nested structs were added first
	return name
}

func (w *World) structOf(sort string) *StructInfo { return w.structs[sort] }

// field selects a struct field with constructor simplification.
func (w *World) field(t *Term, i int) *Term {
	si := w.structs[t.Sort]
	if si == nil {
		panic("field of non-struct sort " + t.Sort + ": " + t.String())
	}
	if t.Op == "mk_"+si.Sort {
		return t.Args[i]
	}
	if t.Op == "ite" && isCtorDeep(t) {
		return ite(t.Args[0], w.field(t.Args[1], i), w.field(t.Args[2], i))
	}
	return app(si.Fields[i].Sel, si.Fields[i].Sort, t)
}

func isCtorDeep(t *Term) bool {
	if isCtor(t) {
		return true
	}
	return t.Op == "ite" && isCtorDeep(t.Args[1]) && isCtorDeep(t.Args[2])
}

func (w *World) setField(t *Term, i int, v *Term) *Term {
	si := w.structs[t.Sort]
	args := make([]*Term, len(si.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = w.field(t, j)
		}
	}
	return app("mk_"+si.Sort, si.Sort, args...)
}

// expand rewrites a struct term into constructor form.
func (w *World) mkStruct(sort string, args []*Term) *Term {
	if len(args) == 0 {
		return sym("mk_"+sort, sort)
	}
	return app("mk_"+sort, sort, args...)
}

// ---- slices and pointers
func mkSlice(arr, off, ln, cp *Term) *Term { return app("mk_Slice", "Slice", arr, off, ln, cp) }
func sSel(t *Term, i int) *Term {
	if t.Sort != "Slice" {
		panic("slice selector on " + t.Sort + ": " + t.String())
	}
	if t.Op == "mk_Slice" {
		return t.Args[i]
	}
	if t.Op == "ite" && isCtorDeep(t) {
		return ite(t.Args[0], sSel(t.Args[1], i), sSel(t.Args[2], i))
	}
	return app([]string{"s.arr", "s.off", "s.len", "s.cap"}[i], "Int", t)
}
func sArr(t *Term) *Term { return sSel(t, 0) }
func sOff(t *Term) *Term { return sSel(t, 1) }
func sLen(t *Term) *Term { return sSel(t, 2) }
func sCap(t *Term) *Term { return sSel(t, 3) }

func mkPtr(a, i *Term) *Term { return app("mk_Ptr", "Ptr", a, i) }
func pSel(t *Term, i int) *Term {
	if t.Sort != "Ptr" {
		panic("ptr selector on " + t.Sort + ": " + t.String())
	}
	if t.Op == "mk_Ptr" {
		return t.Args[i]
	}
	return app([]string{"p.arr", "p.idx"}[i], "Int", t)
}
func pArr(t *Term) *Term { return pSel(t, 0) }
func pIdx(t *Term) *Term { return pSel(t, 1) }

var zero, one = intT(0), intT(1)
var nilSlice = mkSlice(zero, zero, zero, zero)
var nilPtr = mkPtr(zero, zero)
var oNil = sym("onil", "Opaque")

func (w *World) zeroVal(t types.Type) *Term {
	s := w.sortOf(t)
	switch s {
	case "Int":
		return zero
	case "Bool":
		return tFalse
	case "Slice":
		return nilSlice
	case "Ptr":
		return nilPtr
	case "Opaque":
		return oNil
	case "Str":
		return w.strLit("")
	case "Flt":
		return sym("flt0", "Flt")
	}
	if strings.HasPrefix(s, "(_ BitVec") {
		var n int
		fmt.Sscanf(s, "(_ BitVec %d)", &n)
		return sym(fmt.Sprintf("(_ bv0 %d)", n), s)
	}
	if strings.HasPrefix(s, "(_ FloatingPoint") {
		return sym("(_ +zero 11 53)", s)
	}
	if si := w.structs[s]; si != nil {
		var as []*Term
		for _, f := range si.Fields {
			as = append(as, w.zeroVal(f.Typ))
		}
		return w.mkStruct(s, as)
	}
	if strings.HasPrefix(s, "(Array Int") {
		a := t.Underlying().(*types.Array)
		z := w.zeroVal(a.Elem())
		return &Term{Op: "((as const " + s + ") " + z.String() + ")", Sort: s}
	}
	panic("zero value of sort " + s)
}

func (w *World) strLit(s string) *Term {
	if t, ok := w.lits[s]; ok {
		return t
	}
	t := sym(fmt.Sprintf("strlit_%d", len(w.lits)), "Str")
	w.lits[s] = t
	w.litOrd = append(w.litOrd, s)
	return t
}

// declare a symbol with arity-0 or function signature.
func (w *World) declare(name, decl string) {
	if _, ok := w.decls[name]; ok {
		return
	}
	w.decls[name] = decl
	w.declOrd = append(w.declOrd, name)
}

func (w *World) fresh(hint, sort string) *Term {
	w.nfresh++
	n := fmt.Sprintf("%s!%d", sanitize(hint), w.nfresh)
	w.declare(n, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return sym(n, sort)
}

func (w *World) fn(name string, args []string, ret string) {
	w.declare(name, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(args, " "), ret))
}

// ---- heaps

// ghostTyp is the type of mutable specification state: nested arrays over its parameters.
type ghostTyp struct {
	params []types.Type
	ret    types.Type
}

func (g *ghostTyp) Underlying() types.Type { return g }
func (g *ghostTyp) String() string         { return "ghost" }

func (w *World) ghostKey(u *UFDecl) (string, *ghostTyp) {
	k := "GV_ghost_" + u.Name
	if t, ok := w.heapTyp[k].(*ghostTyp); ok {
		return k, t
	}
	g := &ghostTyp{ret: w.resolveType(u.Ret, u.Pkg)}
	for _, q := range u.Params {
		g.params = append(g.params, w.resolveType(q.Type, u.Pkg))
	}
	w.heapTyp[k] = g
	return k, g
}

func (w *World) heapKey(elem types.Type) string {
	k := "H_" + sanitize(typeKey(elem))
	w.heapTyp[k] = elem
	return k
}
func (w *World) heapSort(key string) string {
	if strings.HasPrefix(key, "MD_") {
		m := w.heapTyp[key].Underlying().(*types.Map)
		return "(Array Int (Array " + w.sortOf(m.Key()) + " Bool))"
	}
	if strings.HasPrefix(key, "MV_") {
		m := w.heapTyp[key].Underlying().(*types.Map)
		return "(Array Int (Array " + w.sortOf(m.Key()) + " " + w.sortOf(m.Elem()) + "))"
	}
	if strings.HasPrefix(key, "MC_") {
		return "(Array Int Int)"
	}
	if strings.HasPrefix(key, "GV_") {
		return w.sortOf(w.heapTyp[key])
	}
	return "(Array Int (Array Int " + w.sortOf(w.heapTyp[key]) + "))"
}

func (w *World) mapKeys(t types.Type) (d, v, c string) {
	k := sanitize(typeKey(t.Underlying()))
	d, v, c = "MD_"+k, "MV_"+k, "MC_"+k
	w.heapTyp[d], w.heapTyp[v], w.heapTyp[c] = t, t, t
	return
}

// ---- folds

func (w *World) foldFn(f *Fold) (name string, arrSort string, psorts []string) {
	et := w.resolveType(f.Elem.Type, f.Pkg)
	arrSort = "(Array Int " + w.sortOf(et) + ")"
	args := []string{arrSort, "Int"}
	for _, p := range f.Params {
		s := w.sortOf(w.resolveType(p.Type, f.Pkg))
		psorts = append(psorts, s)
		args = append(args, s)
	}
	name = "F_" + f.Name
	w.fn(name, args, "Int")
	return
}

func (w *World) foldsFor(elem types.Type) []*Fold {
	var out []*Fold
	for _, n := range sortedKeys(w.DB.Folds) {
		f := w.DB.Folds[n]
		if !w.foldKnown(f) {
			continue
		}
		et := w.tryResolve(f.Elem.Type, f.Pkg)
		if et != nil && types.TypeString(et, nil) == types.TypeString(elem, nil) {
			out = append(out, f)
		}
	}
	return out
}

// foldKnown: the package a fold speaks about is loaded.
func (w *World) foldKnown(f *Fold) bool {
	if w.pkgByName(f.Pkg) == nil || w.tryResolve(f.Elem.Type, f.Pkg) == nil {
		return false
	}
	for _, p := range f.Params {
		if w.tryResolve(p.Type, f.Pkg) == nil {
			return false
		}
	}
	return true
}

// ---- type resolution for contracts

func (w *World) tryResolve(x *TypeX, pkg string) (t types.Type) {
	defer func() {
		if recover() != nil {
			t = nil
		}
	}()
	return w.resolveType(x, pkg)
}

func (w *World) pkgByName(n string) *Pkg {
	for _, k := range sortedKeys(w.Prog.Pkgs) {
		if w.Prog.Pkgs[k].Name == n {
			return w.Prog.Pkgs[k]
		}
	}
	return nil
}

func (w *World) resolveType(x *TypeX, pkg string) types.Type {
	switch x.Kind {
	case "slice":
		return types.NewSlice(w.resolveType(x.Elem, pkg))
	case "ptr":
		return types.NewPointer(w.resolveType(x.Elem, pkg))
	case "map":
		return types.NewMap(w.resolveType(x.Key, pkg), w.resolveType(x.Elem, pkg))
	}
	n := x.Name
	if i := strings.Index(n, "."); i > 0 {
		pn, tn := n[:i], n[i+1:]
		if p := w.pkgByName(pn); p != nil {
			if o := p.Types.Scope().Lookup(tn); o != nil {
				return o.Type()
			}
		}
		for _, k := range sortedKeys(w.Prog.Pkgs) {
			for _, im := range w.Prog.Pkgs[k].Types.Imports() {
				if im.Name() == pn {
					if o := im.Scope().Lookup(tn); o != nil {
						return o.Type()
					}
				}
			}
		}
		panic("unknown type " + n)
	}
	if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if p := w.pkgByName(pkg); p != nil {
		if o := p.Types.Scope().Lookup(n); o != nil {
			return o.Type()
		}
	}
	panic("unknown type " + n + " in package " + pkg)
}

func (w *World) prelude(used map[string]bool) string {
	var b strings.Builder
	b.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	return b.String()
}

func (w *World) structDecls() string {
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n(declare-sort Opaque 0)\n(declare-sort Flt 0)\n(declare-const onil Opaque)\n(declare-const flt0 Flt)\n")
	b.WriteString("(declare-datatypes ((Slice 0)) (((mk_Slice (s.arr Int) (s.off Int) (s.len Int) (s.cap Int)))))\n")
	b.WriteString("(declare-datatypes ((Ptr 0)) (((mk_Ptr (p.arr Int) (p.idx Int)))))\n")
	for _, n := range w.order {
		si := w.structs[n]
		b.WriteString(fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s", n, n))
		for _, f := range si.Fields {
			b.WriteString(fmt.Sprintf(" (%s %s)", f.Sel, f.Sort))
		}
		b.WriteString("))))\n")
	}
	for i := range w.litOrd {
		b.WriteString(fmt.Sprintf("(declare-const strlit_%d Str)\n", i))
	}
	if len(w.litOrd) > 1 {
		b.WriteString("(assert (distinct")
		for i := range w.litOrd {
			b.WriteString(fmt.Sprintf(" strlit_%d", i))
		}
		b.WriteString("))\n")
	}
	return b.String()
}

func pow2(n int) *Term { return intB(new(big.Int).Lsh(big.NewInt(1), uint(n))) }

var _ = sort.Strings
