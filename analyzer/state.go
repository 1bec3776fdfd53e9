package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjMeta struct {
	t     types.Type
	site  string
	label string // "" or an input / global name
	glob  bool
}

type PanicEv struct {
	g    Ref
	kind string
	pos  token.Pos
	fn   *ssa.Function
	st   *State
	stk  []string
	val  Val
}

type Event struct {
	g    Ref
	name string
	args []Val
	keys []string
	pos  token.Pos
	fn   string
	st   *State
	stk  []string
	x    interface{}
}

type Machine struct {
	shard, shards int
	ld            *Loaded
	prog          *ssa.Program
	objs          []*ObjMeta
	base          map[ObjID]Val
	globals       map[*ssa.Global]ObjID
	inited        map[*ssa.Package]bool
	opq           map[string]ObjID
	panics        []PanicEv
	events        []Event
	finfo         map[*ssa.Function]*fnInfo
	cuts          map[string]func(m *Machine, fr *Frame, st *State, args []Val) Val
	depth         int
	steps         int
	maxStep       int
	stack         []*Frame
	visited       map[*ssa.Function]int
	choices       map[string]int // shape choices by key
	asked         map[string]int // shape choices asked: key -> number of options
	askedOr       []string
	taint         *taintMode
	wrGlob        []string
	fresh         int
	recov         int
	nilOpq        map[string]bool
	mapOrd        int
	usedMapOrder  bool
	mutInputs     []string
	loopMax       int
	fails         []failStep
	asserts       []assertRec
	stubs         map[string]*ssa.Function
	lastWhere     string
}

type State struct {
	g      Ref
	h      map[ObjID]Val
	shared bool
}

func newMachine(ld *Loaded) *Machine {
	return &Machine{ld: ld, prog: ld.prog, base: map[ObjID]Val{}, globals: map[*ssa.Global]ObjID{}, inited: map[*ssa.Package]bool{},
		opq: map[string]ObjID{}, finfo: map[*ssa.Function]*fnInfo{}, cuts: map[string]func(*Machine, *Frame, *State, []Val) Val{},
		visited: map[*ssa.Function]int{}, choices: map[string]int{}, asked: map[string]int{}, maxStep: 30_000_000, nilOpq: map[string]bool{}, loopMax: 5000}
}

func (m *Machine) newState() *State { return &State{g: True, h: map[ObjID]Val{}} }

func (s *State) clone() *State {
	s.shared = true
	return &State{g: s.g, h: s.h, shared: true}
}

func (m *Machine) get(s *State, o ObjID) Val {
	if v, ok := s.h[o]; ok {
		return v
	}
	return m.base[o]
}

func (s *State) set(o ObjID, v Val) {
	if s.shared {
		n := make(map[ObjID]Val, len(s.h)+4)
		for k, x := range s.h {
			n[k] = x
		}
		s.h = n
		s.shared = false
	}
	s.h[o] = v
}

func (m *Machine) alloc(s *State, t types.Type, v Val, site string) ObjID {
	m.objs = append(m.objs, &ObjMeta{t: t, site: site})
	id := ObjID(len(m.objs))
	s.set(id, v)
	return id
}

// mergeStates joins states with disjoint guards.
func (m *Machine) mergeStates(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	r := &State{g: ss[0].g, h: ss[0].h, shared: true}
	ss[0].shared = true
	for _, s := range ss[1:] {
		if s.g == False {
			continue
		}
		if r.g == False {
			r = &State{g: s.g, h: s.h, shared: true}
			s.shared = true
			continue
		}
		// compare maps only if different
		for o, v := range s.h {
			w, ok := r.h[o]
			if !ok {
				b, inBase := m.base[o]
				if !inBase {
					r.set(o, v) // allocated on this path only
					continue
				}
				w = b
			}
			if !sameVal(v, w) {
				r.set(o, mergeVal(r.g, w, s.g, v))
			}
		}
		for o, w := range r.h {
			if _, ok := s.h[o]; !ok {
				if b, inBase := m.base[o]; inBase && !sameVal(w, b) {
					r.set(o, mergeVal(r.g, w, s.g, b))
				}
			}
		}
		r.g = cx.Or(r.g, s.g)
	}
	return r
}

// ---- opaque values ----

// opaque makes an unknown value of type t named key.
func (m *Machine) opaque(t types.Type, key string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sg, ok := intInfo(t); ok {
			lo, hi := typeRange(w, sg)
			return cx.leaf(key, lo, hi)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return BoolV(cx.Pred(key))
		case types.String, types.UntypedString:
			return StrV{ropeOp(key, cx.leaf("len("+key+")", bigZero, pow2m1(40)))}
		}
		return OpqV{key, t}
	case *types.Struct:
		s := &StructV{make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.opaque(u.Field(i).Type(), key+"."+u.Field(i).Name())
		}
		return s
	case *types.Array:
		a := &ArrayV{make([]Val, u.Len())}
		for i := range a.e {
			a.e[i] = m.opaque(u.Elem(), fmt.Sprintf("%s[%d]", key, i))
		}
		return a
	case *types.Slice:
		if isByteSlice(t) {
			return BytesV{ropeOp(key, cx.leaf("len("+key+")", bigZero, pow2m1(40)))}
		}
		return OpqV{key, t}
	case *types.Pointer:
		if m.nilOpq[key] {
			return NilV{}
		}
		if o, ok := m.opq[key]; ok {
			return PtrV{obj: o}
		}
		m.objs = append(m.objs, &ObjMeta{t: u.Elem(), site: "opaque " + key, label: key})
		id := ObjID(len(m.objs))
		m.opq[key] = id
		m.base[id] = OpqV{"*" + key, u.Elem()}
		return PtrV{obj: id}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = m.opaque(u.At(i).Type(), fmt.Sprintf("%s#%d", key, i))
		}
		return tv
	}
	return OpqV{key, t}
}

// expand turns an opaque composite into its opaque parts.
func (m *Machine) expand(v Val) Val {
	o, ok := v.(OpqV)
	if !ok {
		return v
	}
	switch o.t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Basic, *types.Pointer:
		w := m.opaque(o.t, o.key)
		return w
	case *types.Slice:
		if isByteSlice(o.t) {
			return m.opaque(o.t, o.key)
		}
	}
	return v
}

// choose asks for a shape choice among n options.
// skipCase ends a worker that has no share of a unit's cases.
type skipCase struct{}

func (m *Machine) choose(key string, n int) int {
	if _, ok := m.asked[key]; !ok {
		if len(m.askedOr) == 0 && m.shards > 1 {
			if _, set := m.choices[key]; !set {
				if m.shard >= n {
					panic(skipCase{})
				}
				m.choices[key] = m.shard
			}
		}
		m.asked[key] = n
		m.askedOr = append(m.askedOr, key)
	}
	return m.choices[key]
}

// ---- memory ----

func (m *Machine) stepIn(v Val, i int) Val {
	switch x := v.(type) {
	case *StructV:
		return x.f[i]
	case *ArrayV:
		if i < 0 || i >= len(x.e) {
			panic(unsup{msg: "internal: path index out of range"})
		}
		return x.e[i]
	case OpqV:
		return m.stepIn(m.expand(x), i)
	case BytesV:
		return x.r.byteAt(i)
	case *Union:
		var out []Alt
		for _, a := range x.alts {
			out = append(out, Alt{a.g, m.stepIn(a.v, i)})
		}
		return mergeAlts(out)
	}
	panic(unsup{msg: fmt.Sprintf("internal: path into %T", v)})
}

func (m *Machine) loadPath(st *State, o ObjID, path []int) Val {
	v := m.get(st, o)
	if v == nil {
		panic(unsup{msg: "internal: load from missing object " + m.objs[o-1].site})
	}
	for _, i := range path {
		v = m.stepIn(v, i)
	}
	if q, ok := v.(OpqV); ok {
		return m.expand(q)
	}
	return v
}

func (m *Machine) updPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case *StructV:
		r := &StructV{append([]Val{}, x.f...)}
		r.f[i] = m.updPath(x.f[i], path[1:], nv)
		return r
	case *ArrayV:
		r := &ArrayV{append([]Val{}, x.e...)}
		r.e[i] = m.updPath(x.e[i], path[1:], nv)
		return r
	case OpqV:
		e := m.expand(x)
		if _, same := e.(OpqV); same {
			break
		}
		return m.updPath(e, path, nv)
	case *Union:
		var out []Alt
		for _, a := range x.alts {
			out = append(out, Alt{a.g, m.updPath(a.v, path, nv)})
		}
		return mergeAlts(out)
	}
	panic(unsup{msg: fmt.Sprintf("internal: store path into %T", v)})
}

func (m *Machine) storePath(st *State, o ObjID, path []int, nv Val) {
	if meta := m.objs[o-1]; meta.glob && m.recordGlobals() {
		if !strings.Contains(meta.site, "/verifspec/") {
			m.wrGlob = append(m.wrGlob, fmt.Sprintf("%s written in %s", meta.site, m.where()))
		}
	}
	old := m.get(st, o)
	st.set(o, m.updPath(old, path, nv))
}

func (m *Machine) recordGlobals() bool { return len(m.stack) > 0 && !m.stack[0].isInit }

func (m *Machine) where() string {
	if len(m.stack) == 0 {
		return "?"
	}
	f := m.stack[len(m.stack)-1]
	return f.fn.String() + " " + m.posOf(f.cur)
}

func (m *Machine) posOf(i ssa.Instruction) string {
	if i == nil {
		return ""
	}
	p := i.Pos()
	if !p.IsValid() {
		// nearest earlier instruction with a position
		for _, x := range i.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == i {
				break
			}
		}
	}
	return m.pos(p)
}

func (m *Machine) pos(p token.Pos) string {
	q := m.prog.Fset.Position(p)
	s := q.Filename
	if i := strings.Index(s, m.ld.dir+"/"); i >= 0 {
		s = s[i+len(m.ld.dir)+1:]
	}
	return fmt.Sprintf("%s:%d", s, q.Line)
}

func (m *Machine) callStack() []string {
	var out []string
	for i := len(m.stack) - 1; i >= 0; i-- {
		f := m.stack[i]
		out = append(out, f.fn.String()+" ("+m.posOf(f.cur)+")")
	}
	return out
}

func (m *Machine) bytesOf(st *State, v Val) *Rope {
	switch x := v.(type) {
	case NilV:
		return ropeConst("")
	case BytesV:
		return x.r
	case StrV:
		return x.r
	case SliceV:
		if x.len == 0 {
			return ropeConst("")
		}
		arr := m.loadPath(st, x.obj, x.path)
		switch a := arr.(type) {
		case *ArrayV:
			out := make([]*Poly, x.len)
			for i := range out {
				p, ok := a.e[x.off+i].(*Poly)
				if !ok {
					if q, isu := a.e[x.off+i].(*Union); isu {
						if w, isp := mergeAlts(q.alts).(*Poly); isp {
							p, ok = w, true
						}
					}
				}
				if !ok {
					panic(unsup{msg: fmt.Sprintf("byte slice holding %T", a.e[x.off+i])})
				}
				out[i] = p
			}
			return ropeBytes(out)
		case BytesV:
			out := make([]*Poly, x.len)
			for i := range out {
				out[i] = a.r.byteAt(x.off + i)
			}
			return ropeBytes(out)
		}
	case *ArrayV:
		out := make([]*Poly, len(x.e))
		for i := range out {
			p, ok := x.e[i].(*Poly)
			if !ok {
				panic(unsup{msg: "byte array holding a non-number"})
			}
			out[i] = p
		}
		return ropeBytes(out)
	case OpqV:
		if e := m.expand(x); !sameVal(e, v) {
			return m.bytesOf(st, e)
		}
	}
	panic(unsup{msg: fmt.Sprintf("bytes of %T", v)})
}

// newBytes allocates a byte slice with concrete length content.
func (m *Machine) newBytes(st *State, r *Rope, site string) Val {
	b, ok := r.concrete()
	if !ok {
		return BytesV{r}
	}
	a := &ArrayV{make([]Val, len(b))}
	for i := range b {
		a.e[i] = b[i]
	}
	o := m.alloc(st, types.NewArray(types.Typ[types.Uint8], int64(len(b))), a, site)
	return SliceV{obj: o, off: 0, len: len(b), cap: len(b)}
}

// elems returns the elements of a slice of concrete length.
func (m *Machine) elems(st *State, v Val) []Val {
	switch x := v.(type) {
	case NilV:
		return nil
	case SliceV:
		arr := m.loadPath(st, x.obj, x.path)
		out := make([]Val, x.len)
		for i := range out {
			out[i] = m.stepIn(arr, x.off+i)
			if q, ok := out[i].(OpqV); ok {
				out[i] = m.expand(q)
			}
		}
		return out
	case BytesV:
		if b, ok := x.r.concrete(); ok {
			out := make([]Val, len(b))
			for i := range b {
				out[i] = b[i]
			}
			return out
		}
	}
	panic(unsup{msg: fmt.Sprintf("elements of %T", v)})
}

func (m *Machine) newSlice(st *State, elem types.Type, es []Val, site string) Val {
	o := m.alloc(st, types.NewArray(elem, int64(len(es))), &ArrayV{append([]Val{}, es...)}, site)
	return SliceV{obj: o, len: len(es), cap: len(es)}
}

// key names a value by its full content, for uninterpreted terms.
func (m *Machine) key(st *State, v Val) string { return m.key0(st, v, 0) }

func (m *Machine) key0(st *State, v Val, d int) string {
	if d > 12 {
		return "..."
	}
	switch x := v.(type) {
	case *Poly:
		if c, ok := x.isConst(); ok {
			return c.String()
		}
		return x.full()
	case BoolV:
		switch Ref(x) {
		case True:
			return "true"
		case False:
			return "false"
		}
		return fmt.Sprintf("b%d", int(x))
	case NilV:
		return "nil"
	case *StructV:
		var s []string
		for _, f := range x.f {
			s = append(s, m.key0(st, f, d+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	case *ArrayV:
		if len(x.e) > 0 {
			if _, ok := x.e[0].(*Poly); ok {
				all := true
				bs := make([]*Poly, len(x.e))
				for i, e := range x.e {
					p, ok := e.(*Poly)
					if !ok {
						all = false
						break
					}
					bs[i] = p
				}
				if all {
					return "arr:" + ropeBytes(bs).key()
				}
			}
		}
		var s []string
		for _, f := range x.e {
			s = append(s, m.key0(st, f, d+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case PtrV:
		return "&" + m.key0(st, m.loadPath(st, x.obj, x.path), d+1)
	case SliceV:
		es := m.elems(st, x)
		return "s:" + m.key0(st, &ArrayV{es}, d+1)
	case BytesV:
		if b, ok := x.r.concrete(); ok {
			a := &ArrayV{make([]Val, len(b))}
			for i := range b {
				a.e[i] = b[i]
			}
			return "s:" + m.key0(st, a, d+1)
		}
		return "s:" + x.r.key()
	case StrV:
		return x.r.key()
	case IfaceV:
		return x.t.String() + ":" + m.key0(st, x.v, d+1)
	case FuncV:
		if x.fn != nil {
			return "func:" + x.fn.String()
		}
		return "func:" + x.name
	case MapV:
		mc, _ := m.get(st, x.obj).(*MapC)
		s := ""
		if mc != nil {
			for _, e := range mc.ents {
				s += fmt.Sprintf("%d?%s:%s,", e.g, m.key0(st, e.k, d+1), m.key0(st, e.v, d+1))
			}
		}
		return "map{" + s + "}"
	case OpqV:
		return x.key
	case *NativeV:
		if x.key != "" {
			return x.kind + ":" + x.key
		}
		return fmt.Sprintf("%s@%p", x.kind, x)
	case TupleV:
		var s []string
		for _, f := range x {
			s = append(s, m.key0(st, f, d+1))
		}
		return "(" + strings.Join(s, ",") + ")"
	case *Union:
		var s []string
		for _, a := range x.alts {
			s = append(s, fmt.Sprintf("%d?%s", cx.Constrain(a.g, True), m.key0(st, a.v, d+1)))
		}
		return "U(" + strings.Join(s, "|") + ")"
	}
	return fmt.Sprintf("%T", v)
}
