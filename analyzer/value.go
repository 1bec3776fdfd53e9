package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values of the interpreter. Integers are *Poly.
type Val interface{}

type BoolV Ref

type NilV struct{}

type StructV struct{ f []Val }

type ArrayV struct{ e []Val }

type ObjID int

type PtrV struct {
	obj  ObjID
	path []int
}

type SliceV struct {
	obj           ObjID
	path          []int
	off, len, cap int
}

// BytesV is an immutable byte slice whose content is a rope (its length may be symbolic).
type BytesV struct{ r *Rope }

type StrV struct{ r *Rope }

type IfaceV struct {
	t types.Type
	v Val
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	nat  func(m *Machine, fr *Frame, st *State, args []Val) Val
	name string
}

type MapV struct{ obj ObjID }

type mapEnt struct {
	g    Ref
	k, v Val
	del  bool
}

// MapC is the content of a map object: later entries win.
type MapC struct{ ents []mapEnt }

type TupleV []Val

// OpqV is an opaque value of some type; its parts are opaque too.
type OpqV struct {
	key string
	t   types.Type
}

// NativeV is a value modelled by the analyser (hash states, requests, files...).
type NativeV struct {
	kind string
	key  string
	x    interface{}
}

type Alt struct {
	g Ref
	v Val
}

type Union struct{ alts []Alt }

type IterV struct{ obj ObjID }

type iterC struct {
	pos  int
	str  *Rope
	ents []mapEnt
}

// ---- ropes ----

type OpSeq struct {
	key   string
	ln    *Poly
	kind  string // "", "cbor-uint", "token", ...
	num   *Poly
	sub   *Rope
	base  string // when set, this is base[off : off+ln]
	off   int
	leads []string // how it can start (one of these)
	cls   string   // character class knowledge: "token" = nonempty, no white space, no newline
}

type Chunk struct {
	b  []*Poly
	op *OpSeq
}

type Rope struct {
	id     int
	chunks []Chunk
	ln     *Poly
}

func mkRope(chunks ...Chunk) *Rope {
	var out []Chunk
	var sb strings.Builder
	for _, c := range chunks {
		if c.op == nil {
			if len(c.b) == 0 {
				continue
			}
			if n := len(out); n > 0 && out[n-1].op == nil {
				out[n-1].b = append(append([]*Poly{}, out[n-1].b...), c.b...)
				continue
			}
		}
		out = append(out, c)
	}
	ln := cx.zero
	for _, c := range out {
		if c.op != nil {
			fmt.Fprintf(&sb, "<%s>", c.op.key)
			ln = cx.AddP(ln, c.op.ln)
			continue
		}
		ln = cx.AddP(ln, cx.constInt(int64(len(c.b))))
		for _, p := range c.b {
			fmt.Fprintf(&sb, "%d,", p.id)
		}
	}
	k := sb.String()
	if r, ok := cx.ropes[k]; ok {
		return r
	}
	r := &Rope{id: len(cx.ropes), chunks: out, ln: ln}
	cx.ropes[k] = r
	return r
}

func ropeBytes(b []*Poly) *Rope { return mkRope(Chunk{b: b}) }

func ropeConst(s string) *Rope {
	b := make([]*Poly, len(s))
	for i := range b {
		b[i] = cx.constInt(int64(s[i]))
	}
	return ropeBytes(b)
}

func ropeOp(key string, ln *Poly) *Rope {
	return mkRope(Chunk{op: &OpSeq{key: key, ln: ln}})
}

// lead is byte i as far as the possible starts tell.
func (o *OpSeq) lead(i int) *Poly {
	if len(o.leads) == 0 {
		return nil
	}
	for _, l := range o.leads {
		if i >= len(l) {
			return nil
		}
	}
	form := cx.leaf(o.key+" form", bigZero, big.NewInt(int64(len(o.leads)-1)))
	r := cx.constInt(int64(o.leads[0][i]))
	for k, l := range o.leads {
		if k > 0 {
			r = cx.Select(cx.EqP(form, cx.constInt(int64(k))), cx.constInt(int64(l[i])), r)
		}
	}
	return r
}

// at names byte i of an opaque sequence.
func (o *OpSeq) at(i int) *Poly {
	if p := o.lead(i); p != nil {
		return p
	}
	if o.base != "" {
		return cx.leafBits(fmt.Sprintf("%s[%d]", o.base, o.off+i), 8)
	}
	return cx.leafBits(fmt.Sprintf("%s[%d]", o.key, i), 8)
}

// cut splits an opaque sequence known to hold at least n bytes.
func (o *OpSeq) cut(n int) ([]*Poly, *OpSeq) {
	b := make([]*Poly, n)
	for i := range b {
		b[i] = o.at(i)
	}
	base, off := o.base, o.off
	if base == "" {
		base, off = o.key, 0
	}
	off += n
	return b, &OpSeq{key: fmt.Sprintf("%s[%d:]", base, off), ln: cx.SubP(o.ln, cx.constInt(int64(n))), base: base, off: off}
}

func ropeCat(rs ...*Rope) *Rope {
	var cs []Chunk
	for _, r := range rs {
		cs = append(cs, r.chunks...)
	}
	return mkRope(cs...)
}

// concrete returns the bytes if the length is concrete and all bytes are known terms.
func (r *Rope) concrete() ([]*Poly, bool) {
	switch len(r.chunks) {
	case 0:
		return nil, true
	case 1:
		if r.chunks[0].op == nil {
			return r.chunks[0].b, true
		}
	}
	return nil, false
}

// constStr returns the text if every byte is a constant.
func (r *Rope) constStr() (string, bool) {
	b, ok := r.concrete()
	if !ok {
		return "", false
	}
	out := make([]byte, len(b))
	for i, p := range b {
		v, ok := p.int()
		if !ok {
			return "", false
		}
		out[i] = byte(v)
	}
	return string(out), true
}

func (r *Rope) String() string {
	var sb strings.Builder
	for _, c := range r.chunks {
		if c.op != nil {
			fmt.Fprintf(&sb, "<%s>", c.op.key)
			continue
		}
		txt := true
		for _, p := range c.b {
			v, ok := p.int()
			if !ok || v < 32 || v > 126 {
				txt = false
			}
		}
		if txt {
			for _, p := range c.b {
				v, _ := p.int()
				sb.WriteByte(byte(v))
			}
			continue
		}
		sb.WriteByte('[')
		for i, p := range c.b {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i > 70 {
				fmt.Fprintf(&sb, "...%d bytes", len(c.b))
				break
			}
			sb.WriteString(p.show(2))
		}
		sb.WriteByte(']')
	}
	return sb.String()
}

// key names a rope in uninterpreted terms.
func (r *Rope) key() string {
	if s, ok := r.constStr(); ok && len(s) <= 40 {
		return fmt.Sprintf("%q", s)
	}
	if len(r.chunks) == 1 && r.chunks[0].op != nil {
		return r.chunks[0].op.key
	}
	return fmt.Sprintf("rope%d", r.id)
}

// byteAt returns byte i of a rope when it lies in a concrete prefix.
func (r *Rope) byteAt(i int) *Poly {
	pos := 0
	for k, c := range r.chunks {
		if c.op != nil {
			if n, ok := c.op.ln.int(); ok {
				if i < pos+n {
					return c.op.at(i - pos)
				}
				pos += n
				continue
			}
			if lo, _ := cx.Range(c.op.ln); k == len(r.chunks)-1 || lo.Cmp(big.NewInt(int64(i-pos))) > 0 {
				return c.op.at(i - pos)
			}
			return cx.leafBits(fmt.Sprintf("%s[%d]", r.key(), i), 8)
		}
		if i < pos+len(c.b) {
			return c.b[i-pos]
		}
		pos += len(c.b)
	}
	return nil
}

// eqRope is the condition that two ropes hold the same bytes.
func eqRope(a, b *Rope) Ref {
	if a == b {
		return True
	}
	ca, cb := a.chunks, b.chunks
	cond := True
	// strip equal concrete prefixes byte by byte
	ia, ib := 0, 0
	var ra, rb []Chunk
	ra = append(ra, ca...)
	rb = append(rb, cb...)
	for len(ra) > 0 && len(rb) > 0 {
		x, y := ra[0], rb[0]
		if x.op != nil && y.op != nil && x.op.key == y.op.key {
			ra, rb = ra[1:], rb[1:]
			continue
		}
		if x.op != nil || y.op != nil {
			// CBOR heads form a prefix code
			ma, na, ta, oka := canonicalHead(ra)
			mb, nb, tb, okb := canonicalHead(rb)
			if !oka || !okb {
				break
			}
			if ma != mb {
				return False
			}
			if cond = cx.And(cond, cx.EqP(na, nb)); cond == False {
				return False
			}
			ra, rb = ta, tb
			continue
		}
		n := len(x.b)
		if len(y.b) < n {
			n = len(y.b)
		}
		for i := 0; i < n; i++ {
			cond = cx.And(cond, cx.EqP(x.b[i], y.b[i]))
			if cond == False {
				return False
			}
		}
		ra, rb = dropBytes(ra, n), dropBytes(rb, n)
	}
	_, _ = ia, ib
	// suffixes
	for len(ra) > 0 && len(rb) > 0 {
		x, y := ra[len(ra)-1], rb[len(rb)-1]
		if x.op != nil && y.op != nil {
			if x.op.key != y.op.key {
				break
			}
			ra, rb = ra[:len(ra)-1], rb[:len(rb)-1]
			continue
		}
		if x.op != nil || y.op != nil {
			break
		}
		n := len(x.b)
		if len(y.b) < n {
			n = len(y.b)
		}
		for i := 1; i <= n; i++ {
			cond = cx.And(cond, cx.EqP(x.b[len(x.b)-i], y.b[len(y.b)-i]))
			if cond == False {
				return False
			}
		}
		ra, rb = cutBytes(ra, n), cutBytes(rb, n)
	}
	if len(ra) == 0 && len(rb) == 0 {
		return cond
	}
	A, B := mkRope(ra...), mkRope(rb...)
	le := cx.EqP(A.ln, B.ln)
	if le == False {
		return False
	}
	if len(ra) == 0 || len(rb) == 0 {
		return cx.And(cond, le)
	}
	// same numeric encodings
	if len(ra) == 1 && len(rb) == 1 && ra[0].op != nil && rb[0].op != nil && ra[0].op.kind == rb[0].op.kind && ra[0].op.num != nil && rb[0].op.num != nil {
		return cx.And(cond, cx.EqP(ra[0].op.num, rb[0].op.num))
	}
	// a byte string of unknown content against known bytes
	if x, ok := A.concrete(); ok && len(rb) == 1 {
		return cx.And(cond, eqOpBytes(rb[0].op, x))
	}
	if x, ok := B.concrete(); ok && len(ra) == 1 {
		return cx.And(cond, eqOpBytes(ra[0].op, x))
	}
	if os.Getenv("VERIF_ROPE") != "" {
		fmt.Fprintln(os.Stderr, "EQ", A.key(), B.key(), "\n  ", A, "\n  ", B)
	}
	ka, kb := A.key(), B.key()
	if ka > kb {
		ka, kb = kb, ka
	}
	// both concrete but of different provenance never reaches here
	return cx.And(cond, cx.Pred("same("+ka+","+kb+")"))
}

// canonicalHead reads a CBOR head written in its shortest form.
func canonicalHead(c []Chunk) (major int, num *Poly, rest []Chunk, ok bool) {
	var least = map[int]int64{24: 24, 25: 1 << 8, 26: 1 << 16, 27: 1 << 32}
	major, info, num, r, ok := cborHeadOf(mkRope(c...))
	if !ok || major == 7 {
		return 0, nil, nil, false
	}
	if info >= 24 {
		if lo, _ := cx.Range(num); lo.Cmp(big.NewInt(least[info])) < 0 {
			return 0, nil, nil, false
		}
	}
	return major, num, r.chunks, true
}

func eqOpBytes(o *OpSeq, b []*Poly) Ref {
	c := cx.Eq0(cx.SubP(o.ln, cx.constInt(int64(len(b)))))
	for i := range b {
		if c == False {
			break
		}
		c = cx.And(c, cx.EqP(o.at(i), b[i]))
	}
	return c
}

func dropBytes(cs []Chunk, n int) []Chunk {
	if n == len(cs[0].b) {
		return cs[1:]
	}
	out := append([]Chunk{{b: cs[0].b[n:]}}, cs[1:]...)
	return out
}

func cutBytes(cs []Chunk, n int) []Chunk {
	l := cs[len(cs)-1]
	if n == len(l.b) {
		return cs[:len(cs)-1]
	}
	out := append([]Chunk{}, cs[:len(cs)-1]...)
	return append(out, Chunk{b: l.b[:len(l.b)-n]})
}

// ---- types ----

func intInfo(t types.Type) (w uint, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func typeRange(w uint, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(w - 1)), pow2m1(w - 1)
	}
	return new(big.Int), pow2m1(w)
}

var zeroCache = map[types.Type]Val{}

func zeroVal(t types.Type) Val {
	if v, ok := zeroCache[t]; ok {
		return v
	}
	v := zeroVal0(t)
	zeroCache[t] = v
	return v
}

func zeroVal0(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return cx.zero
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return BoolV(False)
		case types.String, types.UntypedString:
			return StrV{ropeConst("")}
		case types.UnsafePointer, types.UntypedNil:
			return NilV{}
		}
		return OpqV{"zero", t}
	case *types.Struct:
		s := &StructV{make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = zeroVal(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{make([]Val, u.Len())}
		z := zeroVal(u.Elem())
		for i := range a.e {
			a.e[i] = z
		}
		return a
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = zeroVal(u.At(i).Type())
		}
		return tv
	}
	return NilV{}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Poly:
		y, ok := b.(*Poly)
		return ok && x == y
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x == y
	case NilV:
		_, ok := b.(NilV)
		return ok
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.f {
			if !sameVal(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.e {
			if !sameVal(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.obj == y.obj && samePath(x.path, y.path)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && samePath(x.path, y.path) && x.off == y.off && x.len == y.len && x.cap == y.cap
	case BytesV:
		y, ok := b.(BytesV)
		return ok && x.r == y.r
	case StrV:
		y, ok := b.(StrV)
		return ok && x.r == y.r
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && types.Identical(x.t, y.t) && sameVal(x.v, y.v)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.name != y.name || len(x.bind) != len(y.bind) || (x.fn == nil && x.name == "") {
			return false
		}
		for i := range x.bind {
			if !sameVal(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case MapV:
		y, ok := b.(MapV)
		return ok && x == y
	case IterV:
		y, ok := b.(IterV)
		return ok && x == y
	case OpqV:
		y, ok := b.(OpqV)
		return ok && x.key == y.key
	case *NativeV:
		y, ok := b.(*NativeV)
		return ok && (x == y || (x.kind == y.kind && x.key != "" && x.key == y.key))
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Union:
		y, ok := b.(*Union)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *MapC:
		y, ok := b.(*MapC)
		if !ok || len(x.ents) != len(y.ents) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.ents {
			p, q := x.ents[i], y.ents[i]
			if p.g != q.g || p.del != q.del || !sameVal(p.k, q.k) || !sameVal(p.v, q.v) {
				return false
			}
		}
		return true
	case *iterC:
		y, ok := b.(*iterC)
		return ok && (x == y || (x.pos == y.pos && x.str == y.str && len(x.ents) == len(y.ents)))
	case nil:
		return b == nil
	}
	return false
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mergeVal is a where ga holds and b where gb holds (ga and gb are disjoint).
func mergeVal(ga Ref, a Val, gb Ref, b Val) Val {
	if sameVal(a, b) {
		return a
	}
	if a == nil || ga == False {
		return b
	}
	if b == nil || gb == False {
		return a
	}
	c := cx.Constrain(ga, cx.Or(ga, gb))
	switch x := a.(type) {
	case *Poly:
		if y, ok := b.(*Poly); ok {
			return cx.Select(c, x, y)
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return BoolV(cx.Ite(c, Ref(x), Ref(y)))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := &StructV{make([]Val, len(x.f))}
			for i := range x.f {
				r.f[i] = mergeVal(ga, x.f[i], gb, y.f[i])
			}
			return r
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok && len(x.e) == len(y.e) {
			r := &ArrayV{make([]Val, len(x.e))}
			for i := range x.e {
				r.e[i] = mergeVal(ga, x.e[i], gb, y.e[i])
			}
			return r
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			r := make(TupleV, len(x))
			for i := range x {
				r[i] = mergeVal(ga, x[i], gb, y[i])
			}
			return r
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.obj == y.obj && samePath(x.path, y.path) && x.off == y.off && x.len == y.len {
			// differing capacity: keep alternatives
			break
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			p, ok1 := x.r.concrete()
			q, ok2 := y.r.concrete()
			if ok1 && ok2 && len(p) == len(q) {
				_, k1 := x.r.constStr()
				_, k2 := y.r.constStr()
				if !(k1 && k2) {
					out := make([]*Poly, len(p))
					for i := range p {
						out[i] = cx.Select(c, p[i], q[i])
					}
					return StrV{ropeBytes(out)}
				}
			}
		}
	case IfaceV:
		if y, ok := b.(IfaceV); ok && types.Identical(x.t, y.t) {
			return IfaceV{x.t, mergeVal(ga, x.v, gb, y.v)}
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			// common prefix, then guarded entries
			n := 0
			for n < len(x.ents) && n < len(y.ents) && x.ents[n].g == y.ents[n].g && x.ents[n].del == y.ents[n].del && sameVal(x.ents[n].k, y.ents[n].k) && sameVal(x.ents[n].v, y.ents[n].v) {
				n++
			}
			r := &MapC{append([]mapEnt{}, x.ents[:n]...)}
			for _, e := range x.ents[n:] {
				e.g = cx.And(e.g, ga)
				r.ents = append(r.ents, e)
			}
			for _, e := range y.ents[n:] {
				e.g = cx.And(e.g, gb)
				r.ents = append(r.ents, e)
			}
			return r
		}
	}
	// union
	u := &Union{}
	add := func(g Ref, v Val) {
		add := func(g Ref, v Val) {
			if g == False {
				return
			}
			for i := range u.alts {
				if sameVal(u.alts[i].v, v) {
					u.alts[i].g = cx.Or(u.alts[i].g, g)
					return
				}
			}
			u.alts = append(u.alts, Alt{g, v})
		}
		if w, ok := v.(*Union); ok {
			for _, alt := range w.alts {
				add(cx.And(g, alt.g), alt.v)
			}
			return
		}
		add(g, v)
	}
	add(ga, a)
	add(gb, b)
	// merge interface alternatives of one dynamic type
	u.alts = foldAlts(u.alts)
	if len(u.alts) == 1 {
		return u.alts[0].v
	}
	if len(u.alts) > 20000 {
		panic(unsup{msg: "too many alternatives for one value"})
	}
	return u
}

func foldAlts(alts []Alt) []Alt {
	var out []Alt
	for _, a := range alts {
		done := false
		if x, ok := a.v.(IfaceV); ok {
			for i := range out {
				if y, ok := out[i].v.(IfaceV); ok && types.Identical(x.t, y.t) {
					m := mergeVal(out[i].g, y, a.g, x)
					out[i] = Alt{cx.Or(out[i].g, a.g), m}
					done = true
					break
				}
			}
		}
		if _, ok := a.v.(*Poly); ok && !done {
			for i := range out {
				if _, ok := out[i].v.(*Poly); ok {
					out[i] = Alt{cx.Or(out[i].g, a.g), mergeVal(out[i].g, out[i].v, a.g, a.v)}
					done = true
					break
				}
			}
		}
		if !done {
			out = append(out, a)
		}
	}
	return out
}

// prune drops alternatives impossible under g.
func prune(v Val, g Ref) Val {
	if p, ok := v.(*Poly); ok {
		return cx.decided(p, g)
	}
	u, ok := v.(*Union)
	if !ok {
		return v
	}
	var out []Alt
	for _, a := range u.alts {
		h := cx.And(g, a.g)
		if h != False {
			out = append(out, Alt{a.g, a.v})
		}
	}
	if len(out) == 1 {
		return out[0].v
	}
	if len(out) == len(u.alts) {
		return u
	}
	if len(out) == 0 {
		return NilV{}
	}
	return &Union{out}
}

// alternatives of v under g with their guards (conjoined with g).
func altsOf(v Val, g Ref) []Alt {
	u, ok := v.(*Union)
	if !ok {
		return []Alt{{g, v}}
	}
	var out []Alt
	for _, a := range u.alts {
		if h := cx.And(g, a.g); h != False {
			out = append(out, Alt{h, a.v})
		}
	}
	return out
}

func mergeAlts(alts []Alt) Val {
	if len(alts) > 2 {
		// equal values first become one alternative, part by part
		if t, ok := alts[0].v.(TupleV); ok {
			same := true
			for _, a := range alts {
				u, ok := a.v.(TupleV)
				same = same && ok && len(u) == len(t)
			}
			if same {
				r := make(TupleV, len(t))
				for i := range t {
					part := make([]Alt, len(alts))
					for j, a := range alts {
						part[j] = Alt{a.g, a.v.(TupleV)[i]}
					}
					r[i] = mergeAlts(part)
				}
				return r
			}
		}
		var groups []Alt
		for _, a := range alts {
			if a.g == False {
				continue
			}
			found := false
			for i := range groups {
				if sameVal(groups[i].v, a.v) {
					groups[i].g = cx.Or(groups[i].g, a.g)
					found = true
					break
				}
			}
			if !found {
				groups = append(groups, a)
			}
		}
		alts = groups
	}
	var r Val
	g := False
	for _, a := range alts {
		if g == False {
			r, g = a.v, a.g
			continue
		}
		r = mergeVal(g, r, a.g, a.v)
		g = cx.Or(g, a.g)
	}
	return r
}

// polyEq under comparisons of composite values lives in eval.go.

type unsup struct {
	msg string
	pos string
}

func (u unsup) Error() string { return u.msg }

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
