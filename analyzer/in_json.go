package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Summary of encoding/json. An encoded value is a text of which only the
// structure is known; decoding it again follows that structure. Any other text
// decodes to values named by the text and the (case-folded) path of keys, each
// present or not.

type jnode struct {
	kind string // "obj", "arr", "val", "null"
	key  []string
	kid  []*jnode
	v    Val
	t    types.Type
}

var jsonTrees = map[string]*jnode{}

func jsonTag(u *types.Struct, i int) (name, opts string, skip bool) {
	fd := u.Field(i)
	tag := reflect.StructTag(u.Tag(i)).Get("json")
	if tag == "-" || !fd.Exported() && !fd.Embedded() {
		return "", "", true
	}
	name, opts, _ = strings.Cut(tag, ",")
	if name == "" {
		name = fd.Name()
	}
	return name, "," + opts + ",", false
}

func (f *Frame) jsonTree(st *State, v Val, t types.Type) *jnode {
	m := f.m
	if u, ok := v.(*Union); ok {
		as := altsOf(u, st.g)
		if len(as) == 1 {
			v = as[0].v
		} else if _, isNum := t.Underlying().(*types.Basic); !isNum {
			m.fail("JSON encoding of a value with alternatives")
		}
	}
	if o, ok := v.(OpqV); ok {
		v = m.expand(o)
	}
	if m.isMarshaler(t, "MarshalJSON") || m.isMarshaler(t, "MarshalText") {
		m.fail("JSON encoding of %s by its own method", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(*StructV)
		if !ok {
			break
		}
		n := &jnode{kind: "obj"}
		for i := range s.f {
			name, opts, skip := jsonTag(u, i)
			if skip {
				continue
			}
			if u.Field(i).Embedded() {
				m.fail("JSON encoding of embedded field %s", u.Field(i))
			}
			if strings.Contains(opts, ",omitempty,") {
				e := &cborEnc{f: f, m: m}
				switch c := e.emptyCond(st, s.f[i], u.Field(i).Type()); {
				case cx.Implies(st.g, c):
					continue
				case cx.And(st.g, c) != False:
					m.fail("JSON field %s present or not", name)
				}
			}
			k := f.jsonTree(st, s.f[i], u.Field(i).Type())
			if strings.Contains(opts, ",string,") {
				k = &jnode{kind: "quoted", kid: []*jnode{k}}
			}
			n.key = append(n.key, name)
			n.kid = append(n.kid, k)
		}
		return n
	case *types.Pointer:
		if _, ok := v.(NilV); ok {
			return &jnode{kind: "null"}
		}
		if p, ok := v.(PtrV); ok {
			return f.jsonTree(st, m.loadPath(st, p.obj, p.path), u.Elem())
		}
	case *types.Interface:
		if _, ok := v.(NilV); ok {
			return &jnode{kind: "null"}
		}
		if x, ok := v.(IfaceV); ok && !isNative(x.t) {
			return f.jsonTree(st, x.v, x.t)
		}
	case *types.Map:
		if mo, ok := v.(MapV); ok {
			if b, isB := u.Key().Underlying().(*types.Basic); isB && b.Kind() == types.String {
				n := &jnode{kind: "obj"}
				md, ok := m.get(st, mo.obj).(*MapC)
				if !ok {
					break
				}
				for _, e := range md.ents {
					k, isC := constArg(e.k)
					if !isC || !cx.Implies(st.g, e.g) {
						m.fail("JSON encoding of a map with unknown keys")
					}
					n.key = append(n.key, k)
					n.kid = append(n.kid, f.jsonTree(st, e.v, u.Elem()))
				}
				return n
			}
		}
	case *types.Slice:
		if isByteSlice(t) {
			return &jnode{kind: "base64", v: v, t: t}
		}
		if _, ok := v.(NilV); ok {
			return &jnode{kind: "null"}
		}
		n := &jnode{kind: "arr"}
		for _, e := range m.elems(st, v) {
			n.kid = append(n.kid, f.jsonTree(st, e, u.Elem()))
		}
		return n
	case *types.Basic:
		return &jnode{kind: "val", v: v, t: t}
	}
	m.fail("JSON encoding of %s (%T)", t, v)
	return nil
}

func (n *jnode) text(f *Frame, st *State) string {
	var b strings.Builder
	b.WriteString(n.kind)
	if n.v != nil {
		b.WriteString(":" + f.m.key(st, n.v))
	}
	for i, k := range n.kid {
		if i < len(n.key) {
			fmt.Fprintf(&b, " %q", n.key[i])
		}
		b.WriteString("(" + k.text(f, st) + ")")
	}
	return b.String()
}

func (f *Frame) jsonMarshal(st *State, v Val, how string) Val {
	iv, ok := v.(IfaceV)
	var n *jnode
	if !ok {
		if _, isNil := v.(NilV); !isNil {
			f.m.fail("JSON encoding of %T", v)
		}
		n = &jnode{kind: "null"}
	} else {
		n = f.jsonTree(st, iv.v, iv.t)
	}
	key := "json" + how + "(" + n.text(f, st) + ")"
	jsonTrees[key] = n
	r := mkRope(Chunk{op: &OpSeq{key: key, ln: cx.leaf("len("+key+")", big1, pow2m1(40)), kind: "json"}})
	bad := f.failPred("json encoding "+key, st)
	nb := f.m.newBytes(st, r, f.fn.String())
	if bad == False {
		return tup(nb, NilV{})
	}
	return tup(mergeAlts([]Alt{{cx.And(st.g, bad), NilV{}}, {cx.And(st.g, bad.not()), nb}}), f.m.errIf(bad, "json encoding"))
}

func (f *Frame) jsonUnmarshal(st *State, r *Rope, target Val, how string) Val {
	m := f.m
	iv, ok := target.(IfaceV)
	if !ok {
		return m.newError("json: cannot decode into nil")
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		return m.newError("json: cannot decode into a non-pointer")
	}
	p, ok := iv.v.(PtrV)
	if !ok {
		m.fail("JSON decoding into %T", iv.v)
	}
	old := m.loadPath(st, p.obj, p.path)
	if len(r.chunks) == 1 && r.chunks[0].op != nil && r.chunks[0].op.kind == "json" {
		if n := jsonTrees[r.chunks[0].op.key]; n != nil {
			nv, ok := f.jsonFrom(st, n, pt.Elem(), old)
			if !ok {
				return m.newError("json: value of another type")
			}
			f.store(st, p, nv)
			return NilV{}
		}
	}
	bad := f.failPred(fmt.Sprintf("%s of %s as %s", how, r.key(), jsonShape(pt.Elem())), st)
	f.store(st, p, f.jsonAny(st, "json("+r.key()+")", pt.Elem(), old, True))
	return m.errIf(bad, how+" of "+r.key())
}

// jsonShape names what a decoder expects of the text, not how the type is called.
func jsonShape(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var s []string
		for i := 0; i < u.NumFields(); i++ {
			if name, opts, skip := jsonTag(u, i); !skip {
				if strings.Contains(opts, ",string,") {
					name += ",string"
				}
				s = append(s, strings.ToLower(name)+":"+jsonShape(u.Field(i).Type()))
			}
		}
		return "{" + strings.Join(s, " ") + "}"
	case *types.Pointer:
		return jsonShape(u.Elem())
	}
	return t.Underlying().String()
}

// jsonFrom decodes a known structure.
func (f *Frame) jsonFrom(st *State, n *jnode, t types.Type, old Val) (Val, bool) {
	m := f.m
	if n.kind == "null" {
		return old, true
	}
	if m.methodOf(types.NewPointer(t), "UnmarshalJSON") != nil {
		m.fail("JSON decoding of %s by its own method", t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n.kind != "obj" {
			return old, false
		}
		s, ok := m.expand(old).(*StructV)
		if !ok {
			m.fail("JSON decoding into %T", old)
		}
		out := &StructV{append([]Val{}, s.f...)}
		for i := range out.f {
			name, opts, skip := jsonTag(u, i)
			if skip || strings.Contains(opts, ",string,") {
				continue
			}
			for j, k := range n.key {
				if strings.EqualFold(k, name) {
					v, ok := f.jsonFrom(st, n.kid[j], u.Field(i).Type(), out.f[i])
					if !ok {
						return old, false
					}
					out.f[i] = v
				}
			}
		}
		return out, true
	case *types.Basic:
		if n.kind != "val" || (u.Info()&types.IsString != 0) != (n.t.Underlying().(*types.Basic).Info()&types.IsString != 0) {
			return old, false
		}
		return n.v, true
	}
	m.fail("JSON decoding of %s", t)
	return nil, false
}

// jsonAny is what an unknown text may hold at a path.
func (f *Frame) jsonAny(st *State, path string, t types.Type, old Val, always Ref) Val {
	m := f.m
	if m.methodOf(types.NewPointer(t), "UnmarshalJSON") != nil || m.methodOf(types.NewPointer(t), "UnmarshalText") != nil {
		m.fail("JSON decoding of %s by its own method", t)
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s, ok := m.expand(old).(*StructV)
		if !ok {
			m.fail("JSON decoding into %T", old)
		}
		out := &StructV{append([]Val{}, s.f...)}
		for i := range out.f {
			name, opts, skip := jsonTag(u, i)
			if skip {
				continue
			}
			sub := path + "." + strings.ToLower(name)
			if u.Field(i).Embedded() && reflect.StructTag(u.Tag(i)).Get("json") == "" {
				sub = path
			}
			if strings.Contains(opts, ",string,") {
				sub += ",string"
			}
			out.f[i] = f.jsonAny(st, sub, u.Field(i).Type(), out.f[i], False)
		}
		return out
	}
	there := cx.Pred("present " + path)
	if always == True {
		there = cx.Pred("not null " + path)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNil := old.(NilV); !isNil {
			m.fail("JSON decoding through a pointer")
		}
		nv := f.jsonAny(st, path, p.Elem(), zeroVal(p.Elem()), True)
		o := m.alloc(st, p.Elem(), nv, f.fn.String())
		return mergeAlts([]Alt{{there, PtrV{obj: o}}, {there.not(), NilV{}}})
	}
	val := m.opaque(t, path)
	if x, ok := val.(*Poly); ok {
		if y, ok := old.(*Poly); ok {
			return cx.Select(there, x, y)
		}
	}
	return mergeAlts([]Alt{{there, val}, {there.not(), old}})
}

func init() {
	reg(func(f *Frame, st *State, a []Val) Val { return f.jsonMarshal(st, a[0], "") }, "encoding/json.Marshal")
	reg(func(f *Frame, st *State, a []Val) Val { return f.jsonMarshal(st, a[0], "") }, "encoding/json.MarshalIndent")
	reg(func(f *Frame, st *State, a []Val) Val {
		return f.jsonUnmarshal(st, f.rope(st, a[0]), a[1], "json decoding")
	}, "encoding/json.Unmarshal")
	reg(func(f *Frame, st *State, a []Val) Val {
		return BoolV(cx.Pred("fails json syntax of " + f.rope(st, a[0]).key()).not())
	}, "encoding/json.Valid")
}
