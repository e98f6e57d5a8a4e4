package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/internal/absint"
)

// astModel builds symbolic syntax trees (ast.Node values) whose shape is
// known and whose texts are not, and models reading their text.
type astModel struct {
	c                          *Ctx
	x                          *Exec
	u                          *absint.Universe
	nodeI, branchT, oneT       types.Type
	manyT, extraT, leafT       types.Type
	scannerT, termI, grammarT  types.Type
	choiceT                    types.Type
	choiceTag, ruleTag, skipTg string
	text                       map[*Val]*Val // text of a node when it is a constant
	n                          int
}

func (c *Ctx) constString(pkg, name string) string {
	sp := c.P.SSA[pkg]
	if sp == nil {
		panic(missing(pkg))
	}
	k, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok {
		panic(missing(pkg + "." + name))
	}
	return constStringVal(k.Value)
}

func (c *Ctx) astModel() *astModel {
	m := &astModel{c: c, x: c.Exec(), text: map[*Val]*Val{},
		nodeI: c.Named("ast", "Node"), branchT: c.Named("ast", "Branch"), oneT: c.Named("ast", "One"),
		manyT: c.Named("ast", "Many"), extraT: c.Named("ast", "Extra"), leafT: c.Named("ast", "Leaf"),
		scannerT: c.Named("parser", "Scanner"), termI: c.Named("parser", "Term"), grammarT: c.Named("parser", "Grammar"),
		choiceT:   c.Named("parser", "Choice"),
		choiceTag: c.constString("ast", "ChoiceTag"), ruleTag: c.constString("ast", "RuleTag"), skipTg: c.constString("ast", "SkipTag"),
	}
	m.u = m.x.U
	return m
}

// kid is one named group of children of a node under construction.
type kid struct {
	name  string
	nodes []*Val
	many  bool
}

func one(name string, n *Val) kid      { return kid{name, []*Val{n}, false} }
func many(name string, ns ...*Val) kid { return kid{name, ns, true} }

// node makes a node with exactly the given children.
func (m *astModel) node(st *State, kids ...kid) *Val {
	u := m.u
	mp := u.AllocTok(absint.OMap, "node", m.branchT)
	var es []*Val
	for _, k := range kids {
		var v *Val
		if k.many {
			v = u.Iface(m.manyT, u.List(k.nodes...))
		} else {
			v = u.Iface(m.oneT, u.Struct(m.oneT, k.nodes[0]))
		}
		es = append(es, u.Tuple(u.Str(k.name), v))
	}
	st.Mem[mp] = u.List(es...)
	return u.Iface(m.branchT, mp)
}

// opaque makes a node of unknown shape.
func (m *astModel) opaque(st *State, name string) *Val {
	v := m.u.Sym(name, m.nodeI)
	m.x.Assume(st, m.x.EqVal(v, m.u.Nil(nil)), false)
	m.x.Assume(st, m.x.EqVal(m.textOf(v), m.u.Str("")), false)
	return v
}

// leaf makes a token with the given text.
func (m *astModel) leaf(text string) *Val {
	m.n++
	n := m.u.Iface(m.leafT, m.u.Sym(fmt.Sprintf("leaf%d", m.n), m.leafT))
	m.text[n] = m.u.Str(text)
	return n
}

// token makes a node holding just the given text.
func (m *astModel) token(st *State, text string) *Val {
	n := m.node(st, one("", m.leaf(text)))
	m.text[n] = m.u.Str(text)
	return n
}

// choice makes the tag that records which alternative matched.
func (m *astModel) choice(i int) kid {
	u := m.u
	return one(m.choiceTag, u.Iface(m.extraT, u.Struct(m.extraT, u.Iface(m.choiceT, u.Int(int64(i))))))
}

// textOf is the text a node covers.
func (m *astModel) textOf(n *Val) *Val {
	if t := m.text[n]; t != nil {
		return t
	}
	return m.u.Call("text", 0, types.Typ[types.String], n)
}

// readText models Node.Scanner and Scanner.String.
func (m *astModel) readText(st *State, ci *absint.CallInfo) ([]absint.Out, bool) {
	u := m.u
	name := ""
	if ci.Method != nil {
		name = ci.Method.Name()
	} else if ci.Fn != nil {
		name = ci.Fn.Name()
	}
	switch name {
	case "Scanner":
		if len(ci.Args) != 1 {
			return nil, false
		}
		n := ci.Recv
		if n == nil {
			n = ci.Args[0]
		}
		if ci.Fn != nil && ci.Method == nil {
			// a direct call on a concrete node type
			if rt := recvType(ci.Fn); rt != nil && types.Implements(rt, iface(m.nodeI)) && !isNodeWrapper(rt) {
				n = u.Iface(rt, ci.Args[0])
			} else {
				return nil, false
			}
		} else if ci.Recv == nil {
			return nil, false
		}
		return []absint.Out{{St: st, Val: u.Call("scanner", 0, m.scannerT, n)}}, true
	case "String":
		if len(ci.Args) == 1 && ci.Args[0].Op == absint.OCall && ci.Args[0].Aux == "scanner" {
			return []absint.Out{{St: st, Val: m.textOf(ci.Args[0].Args[0])}}, true
		}
	}
	return nil, false
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// isNodeWrapper recognises the generated struct{ast.Node} types.
func isNodeWrapper(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 1 && s.Field(0).Embedded() && typeName(s.Field(0).Type()) == "Node"
}

// same compares two values part by part.
func same(x *Exec, st *State, a, b *Val) bool {
	return deepSame(x, st, x.Reify(st, a), x.Reify(st, b), 0)
}

func deepSame(x *Exec, st *State, a, b *Val, d int) bool {
	if a == b {
		return true
	}
	if d > 30 {
		return false
	}
	switch {
	case a.Op == absint.OIface && b.Op == absint.OIface:
		return types.Identical(a.Typ, b.Typ) && deepSame(x, st, a.Args[0], b.Args[0], d+1)
	case a.Op == absint.OStruct && b.Op == absint.OStruct:
		if !types.Identical(a.Typ, b.Typ) || len(a.Args) != len(b.Args) {
			return false
		}
		for i := range a.Args {
			if !deepSame(x, st, a.Args[i], b.Args[i], d+1) {
				return false
			}
		}
		return true
	case isListy(a) && isListy(b):
		if a.Op == absint.OList && b.Op == absint.OList {
			if len(a.Args) != len(b.Args) {
				return false
			}
			for i := range a.Args {
				if !deepSame(x, st, a.Args[i], b.Args[i], d+1) {
					return false
				}
			}
			return true
		}
		if isNilOrEmpty(a) && isNilOrEmpty(b) {
			return true
		}
	}
	return x.SameVal(st, a, b)
}

func isListy(v *Val) bool { return v.Op == absint.OList || v.IsNil() }
func isNilOrEmpty(v *Val) bool {
	return v.IsNil() || v.Op == absint.OList && len(v.Args) == 0
}

// structOf builds a struct value from named fields, the rest zero.
func (m *astModel) structOf(t types.Type, fields map[string]*Val) *Val {
	s := fieldsOf(t)
	if s == nil {
		panic(missing("struct " + typeName(t)))
	}
	var fs []*Val
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := fields[s.Field(i).Name()]; ok {
			fs = append(fs, v)
			n++
		} else {
			fs = append(fs, m.u.Zero(s.Field(i).Type()))
		}
	}
	if n != len(fields) {
		var ks []string
		for k := range fields {
			ks = append(ks, k)
		}
		panic(missing("fields " + strings.Join(ks, ", ") + " of " + typeName(t)))
	}
	return m.u.Struct(t, fs...)
}

// term builds a term value of a struct kind.
func (m *astModel) term(kind string, fields map[string]*Val) *Val {
	t := m.c.Named("parser", kind)
	return m.u.Iface(t, m.structOf(t, fields))
}

// termOf wraps a list or string as a term of the given kind.
func (m *astModel) termOf(kind string, v *Val) *Val {
	return m.u.Iface(m.c.Named("parser", kind), v)
}
