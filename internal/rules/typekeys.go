package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/load"
)

// typeKeys numbers the types of memory objects: what pointers, slices and
// maps refer to. Key 0 stands for an object of unknown type.
type typeKeys struct {
	c      *Ctx
	ids    map[string]int
	layout []layout
	named  []types.Type // concrete module types, for interfaces
	shal   map[string][]int
	next   map[int][]int
	comp   map[[2]int]bool
	impls  map[*types.Interface][]types.Type
	open   map[*types.Interface]bool
	names  map[types.Type]string
	emptyI map[*types.Var][]types.Type
}

// layout describes an object: the types of its variables.
type layout struct {
	elems []types.Type
	isMap bool
	key   string
	typ   types.Type // of the reference
}

func newTypeKeys(c *Ctx) *typeKeys {
	k := &typeKeys{c: c, ids: map[string]int{}, layout: []layout{{}}, shal: map[string][]int{}, next: map[int][]int{}, comp: map[[2]int]bool{}, names: map[types.Type]string{},
		impls: map[*types.Interface][]types.Type{}, open: map[*types.Interface]bool{}}
	seen := map[types.Type]bool{}
	for _, p := range c.P.Pkgs {
		if !strings.HasPrefix(p.PkgPath, load.Mod) || strings.Contains(p.PkgPath+"/", "/cmd/") {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				t := tn.Type()
				if _, isI := t.Underlying().(*types.Interface); isI || seen[t] {
					continue
				}
				if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				seen[t] = true
				k.named = append(k.named, t)
			}
		}
	}
	sort.Slice(k.named, func(i, j int) bool { return k.named[i].String() < k.named[j].String() })
	k.emptyI = k.emptyFields()
	return k
}

// emptyFields finds what module code stores in each struct field of empty
// interface type; nil when that is not known.
func (k *typeKeys) emptyFields() map[*types.Var][]types.Type {
	out := map[*types.Var][]types.Type{}
	bad := map[*types.Var]bool{}
	for _, f := range k.c.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				fv := st.Field(fa.Field)
				it, ok := fv.Type().Underlying().(*types.Interface)
				if !ok || it.NumMethods() > 0 {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							switch v := r.Val.(type) {
							case *ssa.MakeInterface:
								out[fv] = append(out[fv], v.X.Type())
							case *ssa.ChangeInterface:
								if jt, ok := v.X.Type().Underlying().(*types.Interface); ok && jt.NumMethods() > 0 {
									out[fv] = append(out[fv], v.X.Type())
								} else {
									bad[fv] = true
								}
							case *ssa.Const:
							default:
								bad[fv] = true
							}
						} else {
							bad[fv] = true
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						bad[fv] = true
					}
				}
			}
		}
	}
	for fv := range bad {
		delete(out, fv)
	}
	return out
}

func (k *typeKeys) id(l layout) int {
	if i, ok := k.ids[l.key]; ok {
		return i
	}
	i := len(k.layout)
	k.ids[l.key] = i
	k.layout = append(k.layout, l)
	return i
}

func (k *typeKeys) name(t types.Type) string {
	n, ok := k.names[t]
	if !ok {
		n = types.TypeString(t, nil)
		k.names[t] = n
	}
	return n
}

// shallow are the objects a value of the type refers to directly.
func (k *typeKeys) shallow(t types.Type) []int {
	key := k.name(t)
	if r, ok := k.shal[key]; ok {
		return r
	}
	k.shal[key] = nil
	set := map[int]bool{}
	k.collect(t, nil, set, 0)
	r := keysOf(set)
	k.shal[key] = r
	return r
}

func keysOf(set map[int]bool) []int {
	if set[0] {
		return []int{0}
	}
	var r []int
	for i := range set {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

func (k *typeKeys) collect(t types.Type, field *types.Var, set map[int]bool, d int) {
	if d > 8 {
		set[0] = true
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			set[0] = true
		}
	case *types.Pointer:
		set[k.id(layout{[]types.Type{u.Elem()}, false, "*" + types.TypeString(u.Elem(), nil), u})] = true
	case *types.Slice:
		set[k.id(layout{[]types.Type{u.Elem()}, false, "[]" + types.TypeString(u.Elem(), nil), u})] = true
	case *types.Map:
		set[k.id(layout{[]types.Type{u.Key(), u.Elem()}, true, "map" + types.TypeString(u, nil), u})] = true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			k.collect(u.Field(i).Type(), u.Field(i), set, d+1)
		}
	case *types.Array:
		k.collect(u.Elem(), nil, set, d+1)
	case *types.Interface:
		if u.NumMethods() == 0 {
			ts, ok := k.emptyI[field]
			if field == nil || !ok {
				set[0] = true
				return
			}
			for _, t := range ts {
				k.collect(t, nil, set, d+1)
			}
			return
		}
		if isErrorType(t) {
			set[0] = true
			return
		}
		impl, ok := k.impls[u]
		if !ok {
			for _, t := range k.named {
				if types.Implements(t, u) {
					impl = append(impl, t)
				} else if types.Implements(types.NewPointer(t), u) {
					impl = append(impl, types.NewPointer(t))
				}
			}
			k.impls[u] = impl
		}
		if len(impl) == 0 {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), load.Mod) {
				return // implemented by clients only: nothing the library can get at
			}
			set[0] = true
		}
		if k.open[u] {
			return // part of what is being collected
		}
		k.open[u] = true
		for _, t := range impl {
			k.collect(t, nil, set, d+1)
		}
		delete(k.open, u)
	default: // functions, channels, type parameters, tuples
		if tp, ok := t.Underlying().(*types.Tuple); ok {
			for i := 0; i < tp.Len(); i++ {
				k.collect(tp.At(i).Type(), nil, set, d+1)
			}
			return
		}
		set[0] = true
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// reach1 are the objects one pointer away from an object.
func (k *typeKeys) reach1(key int) []int {
	if key == 0 {
		return []int{0}
	}
	if r, ok := k.next[key]; ok {
		return r
	}
	set := map[int]bool{}
	for _, t := range k.layout[key].elems {
		k.collect(t, nil, set, 0)
	}
	r := keysOf(set)
	k.next[key] = r
	return r
}

// compat: a reference to an object of key b may refer to one of key a: the
// same kind of object, or a part of one inside the other.
func (k *typeKeys) compat(a, b int) bool {
	if a == 0 || b == 0 || a == b {
		return true
	}
	ck := [2]int{a, b}
	if r, ok := k.comp[ck]; ok {
		return r
	}
	r := k.inside(a, b) || k.inside(b, a)
	k.comp[ck] = r
	return r
}

// inside: variables of object b lie within object a.
func (k *typeKeys) inside(a, b int) bool {
	la, lb := k.layout[a], k.layout[b]
	if la.isMap || lb.isMap {
		return la.isMap && lb.isMap && types.Identical(la.elems[0], lb.elems[0]) && types.Identical(la.elems[1], lb.elems[1])
	}
	for _, t := range la.elems {
		if holds(t, lb.elems[0], 0) {
			return true
		}
	}
	return false
}

// holds: a variable of type t has a part of type u.
func holds(t, u types.Type, d int) bool {
	if types.Identical(t.Underlying(), u.Underlying()) {
		return true
	}
	if d > 8 {
		return true
	}
	switch s := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < s.NumFields(); i++ {
			if holds(s.Field(i).Type(), u, d+1) {
				return true
			}
		}
	case *types.Array:
		return holds(s.Elem(), u, d+1)
	case *types.TypeParam:
		return true
	}
	switch u.Underlying().(type) {
	case *types.TypeParam:
		return true
	case *types.Array:
		return holds(t, u.Underlying().(*types.Array).Elem(), d+1)
	}
	return false
}

// cellLoad finds the values a load from a local variable, or a field of one,
// may see, when the variable's address is not used for anything else.
func (e *effects) cellLoad(ld *ssa.UnOp) ([]ssa.Value, bool) {
	field := -1
	a, ok := ld.X.(*ssa.Alloc)
	if fa, isF := ld.X.(*ssa.FieldAddr); isF {
		a, ok = fa.X.(*ssa.Alloc)
		field = fa.Field
	}
	if !ok || !e.private(a) {
		return nil, false
	}
	var vals []ssa.Value
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int)
	partial := map[int]bool{} // fields already assigned, when the whole is read
	_ = partial
	back = func(b *ssa.BasicBlock, i int) {
		for ; i >= 0; i-- {
			st, ok := b.Instrs[i].(*ssa.Store)
			if !ok {
				if b.Instrs[i] == ssa.Instruction(a) {
					return
				}
				continue
			}
			if st.Addr == a {
				vals = append(vals, st.Val)
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(a) {
				continue
			}
			if field == -1 {
				vals = append(vals, st.Val) // one part; the rest is older
			} else if fa.Field == field {
				vals = append(vals, st.Val)
				return
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.Instrs)-1)
			}
		}
	}
	i := 0
	for j, in := range ld.Block().Instrs {
		if in == ssa.Instruction(ld) {
			i = j
		}
	}
	back(ld.Block(), i-1)
	return vals, true
}

// private: the variable is only read and assigned, whole or by field.
func (e *effects) private(a *ssa.Alloc) bool {
	if r, ok := e.cells[a]; ok {
		return r
	}
	r := true
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			r = r && u.Addr == a
		case *ssa.UnOp:
			r = r && u.Op == token.MUL
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, w := range *u.Referrers() {
				switch w := w.(type) {
				case *ssa.Store:
					r = r && w.Addr == u
				case *ssa.UnOp:
					r = r && w.Op == token.MUL
				case *ssa.DebugRef:
				default:
					r = false
				}
			}
		default:
			r = false
		}
	}
	e.cells[a] = r
	return r
}
