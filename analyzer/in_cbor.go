package main

import (
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Summary of github.com/fxamacker/cbor/v2 (2.4.0): the encoder's structure is
// followed by type, its numbers stay symbolic.

const cborPath = "github.com/fxamacker/cbor/v2"

type encW struct {
	st  *State
	r   *Rope
	err Val
}

type cborEnc struct {
	f    *Frame
	m    *Machine
	sort int
	mode string
}

// headLen is the length of the CBOR head of a number.
func headLen(p *Poly) *Poly {
	cls := func(v *big.Int) int64 {
		switch {
		case v.Cmp(big.NewInt(23)) <= 0:
			return 1
		case v.Cmp(big.NewInt(255)) <= 0:
			return 2
		case v.Cmp(big.NewInt(65535)) <= 0:
			return 3
		case v.Cmp(big.NewInt(4294967295)) <= 0:
			return 5
		}
		return 9
	}
	lo, hi := cx.Range(p)
	if lo.Sign() < 0 {
		lo = bigZero
	}
	a, b := cls(lo), cls(hi)
	if a == b {
		return cx.constInt(a)
	}
	return cx.leaf("headlen("+p.full()+")", big.NewInt(a), big.NewInt(b))
}

func cborHead(major int, p *Poly) *Rope {
	if n, ok := p.isConst(); ok && n.Sign() >= 0 {
		var b []*Poly
		put := func(x int64) { b = append(b, cx.constInt(x)) }
		mt := int64(major << 5)
		l, _ := headLen(p).int()
		switch l {
		case 1:
			put(mt | n.Int64())
		default:
			put(mt | map[int]int64{2: 24, 3: 25, 5: 26, 9: 27}[l])
			bs := n.Bytes()
			for i := 0; i < l-1-len(bs); i++ {
				put(0)
			}
			for _, x := range bs {
				put(int64(x))
			}
		}
		return ropeBytes(b)
	}
	return mkRope(Chunk{op: &OpSeq{key: fmt.Sprintf("head%d(%s)", major, p.full()), ln: headLen(p), kind: fmt.Sprintf("cbor-uint%d", major), num: p}})
}

func ropeHex(bs ...int64) *Rope {
	var b []*Poly
	for _, x := range bs {
		b = append(b, cx.constInt(x))
	}
	return ropeBytes(b)
}

func (w *encW) put(r *Rope) { w.r = ropeCat(w.r, r) }

// split divides a world by a condition.
func (w *encW) split(c Ref) (yes, no *encW) {
	if g := cx.And(w.st.g, c); g != False {
		s := w.st.clone()
		s.g = g
		yes = &encW{st: s, r: w.r}
	}
	if g := cx.And(w.st.g, c.not()); g != False {
		s := w.st.clone()
		s.g = g
		no = &encW{st: s, r: w.r}
	}
	return
}

// each value alternative in its own world
func (e *cborEnc) byAlt(w *encW, v Val, fn func(w *encW, v Val) []*encW) []*encW {
	u, ok := v.(*Union)
	if !ok {
		return fn(w, v)
	}
	var out []*encW
	for _, a := range altsOf(u, w.st.g) {
		s := w.st.clone()
		s.g = a.g
		out = append(out, fn(&encW{st: s, r: w.r}, a.v)...)
	}
	return out
}

func one(w *encW) []*encW { return []*encW{w} }

// then continues every world that has not failed.
func then(ws []*encW, fn func(w *encW) []*encW) []*encW {
	var out []*encW
	for _, w := range ws {
		if w.err != nil || w.st.g == False {
			out = append(out, w)
			continue
		}
		out = append(out, fn(w)...)
	}
	return out
}

func namedIs(t types.Type, path, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

// methodOf finds a method in the method set of *T.
func (m *Machine) methodOf(t types.Type, name string) *types.Func {
	if _, isI := t.Underlying().(*types.Interface); isI {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	return f
}

func (m *Machine) isMarshaler(t types.Type, meth string) bool {
	f := m.methodOf(t, meth)
	if f == nil {
		return false
	}
	sig := f.Type().(*types.Signature)
	return sig.Params().Len() == 0 && sig.Results().Len() == 2 && isByteSlice(sig.Results().At(0).Type()) && isErr(sig.Results().At(1).Type())
}

func (e *cborEnc) callMarshaler(w *encW, v Val, t types.Type, meth string, bstr bool) []*encW {
	m := e.m
	o := m.alloc(w.st, t, v, "encoder copy")
	fn := m.prog.LookupMethod(types.NewPointer(t), nil, meth)
	if fn == nil {
		m.fail("no method %s on *%s", meth, t)
	}
	r := e.f.callFunction(fn, nil, []Val{PtrV{obj: o}}, w.st)
	if w.st.g == False || r == nil {
		w.st.g = False
		return one(w)
	}
	tv := r.(TupleV)
	return e.byAlt(w, tv[1], func(w *encW, er Val) []*encW {
		if _, isNil := er.(NilV); !isNil {
			w.err = er
			return one(w)
		}
		return e.byAlt(w, tv[0], func(w *encW, b Val) []*encW {
			rp := m.bytesOf(w.st, b)
			if bstr {
				w.put(cborHead(2, rp.ln))
			}
			w.put(rp)
			return one(w)
		})
	})
}

func (e *cborEnc) enc(w *encW, v Val, t types.Type) []*encW {
	return e.byAlt(w, v, func(w *encW, v Val) []*encW { return e.enc1(w, v, t) })
}

func (e *cborEnc) enc1(w *encW, v Val, t types.Type) []*encW {
	m := e.m
	if w.st.g == False {
		return one(w)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		switch x := v.(type) {
		case NilV:
			w.put(ropeHex(0xf6))
			return one(w)
		case PtrV:
			if c, isN := m.get(w.st, x.obj).(*NativeV); isN {
				m.fail("encoding of a modelled %s", c.kind)
			}
			return e.enc(w, m.loadPath(w.st, x.obj, x.path), p.Elem())
		}
		m.fail("encoding of pointer %T", v)
	}
	if namedIs(t, cborPath, "Tag") {
		s := m.expand(v).(*StructV)
		num, ok := s.f[0].(*Poly)
		if !ok {
			m.fail("tag number")
		}
		return e.byAlt(w, s.f[1], func(w *encW, c Val) []*encW {
			if _, isNil := c.(NilV); isNil {
				z := cx.Eq0(num)
				y, n := w.split(z)
				var out []*encW
				if y != nil {
					y.put(ropeHex(0xf6))
					out = append(out, y)
				}
				if n != nil {
					n.put(cborHead(6, num))
					n.put(ropeHex(0xf6))
					out = append(out, n)
				}
				return out
			}
			w.put(cborHead(6, num))
			return e.encIface(w, c)
		})
	}
	if namedIs(t, "time", "Time") || namedIs(t, "math/big", "Int") {
		m.fail("encoding of %s", t)
	}
	if namedIs(t, cborPath, "RawMessage") {
		r := m.bytesOf(w.st, v)
		if n, ok := r.ln.int(); ok && n == 0 {
			r = ropeHex(0xf6)
		}
		w.put(r)
		return one(w)
	}
	if m.isMarshaler(t, "MarshalCBOR") {
		return e.callMarshaler(w, v, t, "MarshalCBOR", false)
	}
	if m.isMarshaler(t, "MarshalBinary") {
		return e.callMarshaler(w, v, t, "MarshalBinary", true)
	}
	if _, signed, ok := intInfo(t); ok {
		p := cx.decided(e.f.num(v, w.st), w.st.g)
		if !signed {
			w.put(cborHead(0, p))
			return one(w)
		}
		neg, pos := w.split(cx.Less0(p))
		var out []*encW
		if neg != nil {
			neg.put(cborHead(1, cx.SubP(cx.constInt(-1), p)))
			out = append(out, neg)
		}
		if pos != nil {
			pos.put(cborHead(0, p))
			out = append(out, pos)
		}
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			c := e.f.boolOf(v, w.st)
			y, n := w.split(c)
			var out []*encW
			if y != nil {
				y.put(ropeHex(0xf5))
				out = append(out, y)
			}
			if n != nil {
				n.put(ropeHex(0xf4))
				out = append(out, n)
			}
			return out
		case types.String:
			r := m.bytesOf(w.st, v)
			w.put(cborHead(3, r.ln))
			w.put(r)
			return one(w)
		}
	case *types.Slice, *types.Array:
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
		}
		if _, isNil := v.(NilV); isNil {
			w.put(ropeHex(0xf6))
			return one(w)
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r := m.bytesOf(w.st, v)
			if bv, isB := v.(BytesV); isB {
				// an opaque byte string may be a nil slice
				if isn := m.eqVal(w.st, NilV{}, bv); isn != False {
					y, n := w.split(isn)
					var out []*encW
					if y != nil {
						y.put(ropeHex(0xf6))
						out = append(out, y)
					}
					if n != nil {
						n.put(cborHead(2, r.ln))
						n.put(r)
						out = append(out, n)
					}
					return out
				}
			}
			w.put(cborHead(2, r.ln))
			w.put(r)
			return one(w)
		}
		var es []Val
		if a, ok := m.expand(v).(*ArrayV); ok {
			es = a.e
		} else {
			es = m.elems(w.st, v)
		}
		w.put(cborHead(4, cx.constInt(int64(len(es)))))
		ws := one(w)
		for _, x := range es {
			x := x
			ws = then(ws, func(w *encW) []*encW { return e.enc(w, x, et) })
		}
		return ws
	case *types.Struct:
		return e.encStruct(w, v, t, u)
	case *types.Interface:
		return e.encIface(w, v)
	case *types.Map:
		return e.encMap(w, v, u)
	}
	m.fail("encoding of type %s", t)
	return nil
}

func (e *cborEnc) encIface(w *encW, v Val) []*encW {
	return e.byAlt(w, v, func(w *encW, v Val) []*encW {
		switch x := v.(type) {
		case NilV:
			w.put(ropeHex(0xf6))
			return one(w)
		case IfaceV:
			return e.enc(w, x.v, x.t)
		case OpqV:
			return e.encOpq(w, x)
		}
		e.m.fail("encoding of interface holding %T", v)
		return nil
	})
}

// encOpq encodes a value of unknown content: with sorted maps its bytes are a
// function of the content, without they may differ at every call.
func (e *cborEnc) encOpq(w *encW, x OpqV) []*encW {
	m := e.m
	var out []*encW
	nilW, w2 := w.split(m.nilPred(x))
	if nilW != nil {
		nilW.put(ropeHex(0xf6))
		out = append(out, nilW)
	}
	if w2 == nil {
		return out
	}
	bad, ok := w2.split(e.f.failPred("cbor encoding of "+x.key, w2.st))
	if bad != nil {
		bad.err = m.newError("cbor encoding of " + x.key)
		out = append(out, bad)
	}
	if ok != nil {
		key := fmt.Sprintf("cbor[%s](%s)", e.mode, x.key)
		if e.sort == 0 {
			m.fresh++
			key = fmt.Sprintf("%s~%d", key, m.fresh)
		}
		ok.put(mkRope(Chunk{op: &OpSeq{key: key, ln: cx.leaf("len("+key+")", big1, pow2m1(24)), kind: "cbor-item"}}))
		out = append(out, ok)
	}
	return out
}

type cborField struct {
	name   string
	idx    []int
	t      types.Type
	omit   bool
	asInt  bool
	tagged bool
	key    *Rope
}

func (e *cborEnc) appendFields(u *types.Struct, idx []int, out *[]cborField, emb *[]struct {
	t   *types.Struct
	idx []int
}) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		ft := f.Type()
		for {
			p, ok := ft.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			ft = p.Elem()
		}
		st, isStruct := ft.Underlying().(*types.Struct)
		if !f.Exported() && !(f.Anonymous() && isStruct) {
			continue
		}
		tag := reflect.StructTag(u.Tag(i)).Get("cbor")
		if tag == "" {
			tag = reflect.StructTag(u.Tag(i)).Get("json")
		}
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		c := cborField{name: parts[0], t: f.Type(), tagged: tag != "", idx: append(append([]int{}, idx...), i)}
		for _, p := range parts[1:] {
			switch p {
			case "omitempty":
				c.omit = true
			case "keyasint":
				c.asInt = true
			}
		}
		if c.name == "" {
			c.name = f.Name()
		}
		if !f.Anonymous() || !isStruct || parts[0] != "" {
			*out = append(*out, c)
		} else {
			*emb = append(*emb, struct {
				t   *types.Struct
				idx []int
			}{st, c.idx})
		}
	}
}

func (e *cborEnc) fields(u *types.Struct) (fs []cborField, toArray bool) {
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "_" {
			opts := strings.Split(reflect.StructTag(u.Tag(i)).Get("cbor"), ",")
			for _, o := range opts[1:] {
				if o == "toarray" {
					toArray = true
				}
			}
			break
		}
	}
	type em = struct {
		t   *types.Struct
		idx []int
	}
	var next []em
	e.appendFields(u, nil, &fs, &next)
	for len(next) > 0 {
		cur := next
		next = nil
		for _, c := range cur {
			e.appendFields(c.t, c.idx, &fs, &next)
		}
	}
	// visible fields only
	var vis []cborField
	for i, a := range fs {
		hidden := false
		for j, b := range fs {
			if i == j || a.name != b.name {
				continue
			}
			if len(b.idx) < len(a.idx) || (len(b.idx) == len(a.idx) && (b.tagged || !a.tagged)) {
				hidden = true
			}
		}
		if !hidden {
			vis = append(vis, a)
		}
	}
	sort.SliceStable(vis, func(i, j int) bool {
		x, y := vis[i].idx, vis[j].idx
		for k := 0; k < len(x) && k < len(y); k++ {
			if x[k] != y[k] {
				return x[k] < y[k]
			}
		}
		return len(x) < len(y)
	})
	for i := range vis {
		f := &vis[i]
		if f.asInt {
			n, err := strconv.ParseInt(f.name, 10, 64)
			if err != nil {
				e.m.fail("key of field %s", f.name)
			}
			if n < 0 {
				f.key = cborHead(1, cx.constInt(-1-n))
			} else {
				f.key = cborHead(0, cx.constInt(n))
			}
		} else {
			f.key = ropeCat(cborHead(3, cx.constInt(int64(len(f.name)))), ropeConst(f.name))
		}
	}
	return vis, toArray
}

// emptyCond is the condition under which omitempty drops a field.
func (e *cborEnc) emptyCond(st *State, v Val, t types.Type) Ref {
	m := e.m
	if u, ok := v.(*Union); ok {
		r := False
		for _, a := range u.alts {
			r = cx.Or(r, cx.And(a.g, e.emptyCond(st, a.v, t)))
		}
		return r
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		return m.eqVal(st, v, NilV{})
	}
	if namedIs(t, cborPath, "Tag") || namedIs(t, "time", "Time") || m.isMarshaler(t, "MarshalCBOR") {
		return False
	}
	if _, _, ok := intInfo(t); ok {
		return cx.Eq0(e.f.num(v, st))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return e.f.boolOf(v, st).not()
		case types.String:
			return cx.Eq0(m.bytesOf(st, v).ln)
		}
	case *types.Slice, *types.Map:
		return cx.Eq0(e.f.lenOf(st, v).(*Poly))
	case *types.Array:
		return boolRef(u.Len() == 0)
	case *types.Interface:
		return m.eqVal(st, v, NilV{})
	case *types.Struct:
		fs, arr := e.fields(u)
		if arr {
			return boolRef(len(fs) == 0)
		}
		r := True
		for _, f := range fs {
			if !f.omit {
				return False
			}
			fv, _ := e.fieldVal(st, v, u, f.idx)
			r = cx.And(r, e.emptyCond(st, fv, f.t))
		}
		return r
	}
	m.fail("emptiness of %s", t)
	return False
}

func (e *cborEnc) fieldVal(st *State, v Val, u *types.Struct, idx []int) (Val, bool) {
	m := e.m
	for k, i := range idx {
		v = m.stepIn(v, i)
		if q, ok := v.(OpqV); ok {
			v = m.expand(q)
		}
		if k < len(idx)-1 {
			if p, ok := v.(PtrV); ok {
				v = m.loadPath(st, p.obj, p.path)
			}
			if _, ok := v.(NilV); ok {
				return nil, false
			}
			if _, ok := v.(*Union); ok {
				m.fail("embedded pointer alternatives in an encoded struct")
			}
		}
	}
	return v, true
}

func (e *cborEnc) encStruct(w *encW, v Val, t types.Type, u *types.Struct) []*encW {
	fs, arr := e.fields(u)
	if arr {
		w.put(cborHead(4, cx.constInt(int64(len(fs)))))
		ws := one(w)
		for _, f := range fs {
			f := f
			ws = then(ws, func(w *encW) []*encW {
				fv, ok := e.fieldVal(w.st, v, u, f.idx)
				if !ok {
					w.put(ropeHex(0xf6))
					return one(w)
				}
				return e.enc(w, fv, f.t)
			})
		}
		return ws
	}
	if e.sort != 0 {
		sort.SliceStable(fs, func(i, j int) bool {
			a, _ := fs[i].key.constStr()
			b, _ := fs[j].key.constStr()
			if e.sort == 1 && len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		})
	}
	// pairs are collected first, the head counts them
	type part struct {
		w *encW
		n int
	}
	base := w.r
	w.r = ropeConst("")
	parts := []part{{w, 0}}
	for _, f := range fs {
		f := f
		var nx []part
		for _, p := range parts {
			if p.w.err != nil || p.w.st.g == False {
				nx = append(nx, p)
				continue
			}
			fv, ok := e.fieldVal(p.w.st, v, u, f.idx)
			if !ok {
				nx = append(nx, p)
				continue
			}
			cw := p.w
			if f.omit {
				empty, full := cw.split(e.emptyCond(cw.st, fv, f.t))
				if empty != nil {
					nx = append(nx, part{empty, p.n})
				}
				if full == nil {
					continue
				}
				cw = full
			}
			cw.put(f.key)
			for _, w := range e.enc(cw, fv, f.t) {
				nx = append(nx, part{w, p.n + 1})
			}
		}
		parts = nx
	}
	var out []*encW
	for _, p := range parts {
		if p.w.err == nil {
			p.w.r = ropeCat(base, cborHead(5, cx.constInt(int64(p.n))), p.w.r)
		}
		out = append(out, p.w)
	}
	return out
}

func (e *cborEnc) encMap(w *encW, v Val, u *types.Map) []*encW {
	m := e.m
	switch x := v.(type) {
	case NilV:
		w.put(ropeHex(0xf6))
		return one(w)
	case OpqV:
		return e.encOpq(w, x)
	case MapV:
		ents := m.mapLive(w.st, m.get(w.st, x.obj).(*MapC))
		type kv struct {
			k *Rope
			v Val
		}
		var kvs []kv
		for _, en := range ents {
			if g := cx.And(w.st.g, en.g.not()); g != False {
				m.fail("encoding of a map with undecided entries")
			}
			ks := e.enc(&encW{st: w.st, r: ropeConst("")}, en.k, u.Key())
			if len(ks) != 1 || ks[0].err != nil {
				m.fail("encoding of a map key")
			}
			kvs = append(kvs, kv{ks[0].r, en.v})
		}
		if e.sort != 0 {
			sort.SliceStable(kvs, func(i, j int) bool {
				a, ok1 := kvs[i].k.constStr()
				b, ok2 := kvs[j].k.constStr()
				if !ok1 || !ok2 {
					m.fail("order of symbolic map keys")
				}
				if e.sort == 1 && len(a) != len(b) {
					return len(a) < len(b)
				}
				return a < b
			})
		} else if len(kvs) > 1 {
			m.usedMapOrder = true
			m.fresh++
			key := fmt.Sprintf("cbor-unordered-map~%d", m.fresh)
			w.put(mkRope(Chunk{op: &OpSeq{key: key, ln: cx.leaf("len("+key+")", big1, pow2m1(24)), kind: "cbor-item"}}))
			return one(w)
		}
		w.put(cborHead(5, cx.constInt(int64(len(kvs)))))
		ws := one(w)
		for _, p := range kvs {
			p := p
			ws = then(ws, func(w *encW) []*encW {
				w.put(p.k)
				return e.enc(w, p.v, u.Elem())
			})
		}
		return ws
	}
	m.fail("encoding of map %T", v)
	return nil
}

// marshal encodes v and returns ([]byte, error); st is updated in place.
func (f *Frame) cborMarshal(st *State, v Val, sortMode int, mode string) Val {
	m := f.m
	e := &cborEnc{f: f, m: m, sort: sortMode, mode: mode}
	s := st.clone()
	ws := e.encIface(&encW{st: s, r: ropeConst("")}, v)
	return f.joinEnc(st, ws)
}

func (f *Frame) joinEnc(st *State, ws []*encW) Val {
	m := f.m
	var ss []*State
	var ba, ea []Alt
	for _, w := range ws {
		if w.st.g == False {
			continue
		}
		if w.err != nil {
			ba = append(ba, Alt{w.st.g, NilV{}})
			ea = append(ea, Alt{w.st.g, w.err})
		} else {
			ba = append(ba, Alt{w.st.g, m.newBytes(w.st, w.r, "cbor")})
			ea = append(ea, Alt{w.st.g, NilV{}})
		}
		ss = append(ss, w.st)
	}
	if len(ss) == 0 {
		st.g = False
		return nil
	}
	*st = *m.mergeStates(ss)
	return TupleV{mergeAlts(ba), mergeAlts(ea)}
}

type encModeX struct {
	sort int
	mode string
	opts *StructV
}

func (f *Frame) encMode(st *State, opts *StructV, t types.Type) Val {
	m := f.m
	u := t.Underlying().(*types.Struct)
	srt := -1
	var parts []string
	for i := 0; i < u.NumFields(); i++ {
		n, ok := opts.f[i].(*Poly)
		if !ok {
			m.fail("encoding options")
		}
		c, ok := n.int()
		if !ok {
			m.fail("encoding option %s is not constant", u.Field(i).Name())
		}
		if u.Field(i).Name() == "Sort" {
			srt = c
			if c == 2 || c == 3 { // bytewise lexical, core deterministic
				srt = 2
			}
			if c != 0 {
				parts = append(parts, fmt.Sprintf("sort%d", srt))
			}
		} else if c != 0 {
			parts = append(parts, fmt.Sprintf("%s%d", u.Field(i).Name(), c))
		}
	}
	key := strings.Join(parts, " ")
	return TupleV{IfaceV{natOf("encmode"), &NativeV{kind: "encmode", key: "encmode " + key, x: encModeX{srt, key, opts}}}, NilV{}}
}

func init() {
	reg(func(f *Frame, st *State, a []Val) Val { return f.cborMarshal(st, a[0], 0, "") }, cborPath+".Marshal")
	encMode := func(f *Frame, st *State, a []Val) Val {
		t := f.m.ld.byPath[cborPath].Types.Scope().Lookup("EncOptions").Type()
		return f.encMode(st, a[0].(*StructV), t)
	}
	reg(encMode, "("+cborPath+".EncOptions).EncMode")
	nativeMethods["encmode.Marshal"] = func(f *Frame, st *State, a []Val) Val {
		x := a[0].(*NativeV).x.(encModeX)
		return f.cborMarshal(st, a[1], x.sort, x.mode)
	}
	nativeMethods["encmode.EncOptions"] = func(f *Frame, st *State, a []Val) Val { return a[0].(*NativeV).x.(encModeX).opts }
	newEncoder := func(f *Frame, st *State, w Val, x encModeX) Val {
		o := f.m.alloc(st, types.Typ[types.Int], &NativeV{kind: "cborenc", key: "cborenc", x: [2]interface{}{x, w}}, "encoder")
		return PtrV{obj: o}
	}
	nativeMethods["encmode.NewEncoder"] = func(f *Frame, st *State, a []Val) Val {
		return newEncoder(f, st, a[1], a[0].(*NativeV).x.(encModeX))
	}
	reg(func(f *Frame, st *State, a []Val) Val { return newEncoder(f, st, a[0], encModeX{}) }, cborPath+".NewEncoder")
	reg(func(f *Frame, st *State, a []Val) Val {
		n := f.m.get(st, a[0].(PtrV).obj).(*NativeV).x.([2]interface{})
		x := n[0].(encModeX)
		r := f.cborMarshal(st, a[1], x.sort, x.mode)
		if st.g == False {
			return nil
		}
		tv := r.(TupleV)
		return f.each(st, tv[1], func(er Val, st *State) Val {
			if _, isNil := er.(NilV); !isNil {
				return er
			}
			return f.each(st, tv[0], func(b Val, st *State) Val {
				wr := f.ifaceMethod(st, n[1], "Write", []Val{b})
				if st.g == False {
					return nil
				}
				return wr.(TupleV)[1]
			})
		})
	}, "(*"+cborPath+".Encoder).Encode")
	unm := func(f *Frame, st *State, a []Val) Val { return f.cborUnmarshal(st, a[0], a[1]) }
	reg(unm, cborPath+".Unmarshal")
	reg(func(f *Frame, st *State, a []Val) Val {
		r := f.rope(st, a[0])
		return f.m.errIf(f.failPred("well-formed "+r.key(), st), "well-formed")
	}, cborPath+".Valid", cborPath+".Wellformed")
}

// ifaceMethod calls a method by name on an interface value.
func (f *Frame) ifaceMethod(st *State, v Val, name string, args []Val) Val {
	return f.each(st, v, func(v Val, st *State) Val {
		x, ok := v.(IfaceV)
		if !ok {
			f.m.fail("method %s on %T", name, v)
		}
		if isNative(x.t) {
			return f.nativeCall(name, x.v, args, st)
		}
		fn := f.m.prog.LookupMethod(x.t, nil, name)
		if fn == nil {
			f.m.fail("no method %s on %s", name, x.t)
		}
		return f.callFunction(fn, nil, append([]Val{x.v}, args...), st)
	})
}

// cborUnmarshal decodes the first item of data into *target. The item is named
// by data; what follows it is ignored, as by the library.
func (f *Frame) cborUnmarshal(st *State, data, target Val) Val {
	m := f.m
	iv, ok := target.(IfaceV)
	if !ok {
		m.fail("decoding into %T", target)
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		return m.newError("cbor: cannot decode into a non-pointer")
	}
	p, ok := iv.v.(PtrV)
	if !ok {
		m.fail("decoding into %T", iv.v)
	}
	r := f.rope(st, data)
	if f.m.methodOf(pt.Elem(), "UnmarshalCBOR") == nil {
		if it, _, ok := cborParse(r); ok {
			if v, bad, ok := f.decItem(st, it, pt.Elem(), m.loadPath(st, p.obj, p.path)); ok {
				f.store(st, p, v)
				return m.errIf(bad, "cbor decoding of "+r.key())
			}
		}
	}
	key := r.key()
	bad := f.failPred("cbor well-formedness of "+key, st)
	item := key
	// the first item of the data, which need not be all of it
	if len(r.chunks) != 1 || r.chunks[0].op == nil || r.chunks[0].op.kind != "cbor-item" {
		item = "item1(" + key + ")"
	}
	if f.m.methodOf(pt.Elem(), "UnmarshalCBOR") != nil {
		fn := m.prog.LookupMethod(iv.t, nil, "UnmarshalCBOR")
		okS, badS := st.clone(), st.clone()
		okS.g, badS.g = cx.And(st.g, bad.not()), cx.And(st.g, bad)
		rest := mkRope(Chunk{op: &OpSeq{key: item, ln: cx.leaf("len("+item+")", big1, pow2m1(40)), kind: "cbor-item"}})
		var er Val
		if okS.g != False {
			er = f.callFunction(fn, nil, []Val{p, BytesV{rest}}, okS)
		}
		var ss []*State
		var alts []Alt
		if okS.g != False {
			ss = append(ss, okS)
			alts = append(alts, Alt{okS.g, er})
		}
		if badS.g != False {
			ss = append(ss, badS)
			alts = append(alts, Alt{badS.g, m.newError("cbor " + key)})
		}
		if len(ss) == 0 {
			st.g = False
			return nil
		}
		*st = *m.mergeStates(ss)
		return mergeAlts(alts)
	}
	bad = cx.Or(bad, f.failPred(fmt.Sprintf("cbor decoding of %s as %s", item, pt.Elem()), st))
	f.store(st, p, f.cborDecoded(st, pt.Elem(), "cbordec("+item+")", m.loadPath(st, p.obj, p.path)))
	return m.errIf(bad, "cbor decoding of "+item)
}

// cborDecoded is an opaque decoded value; fields keep opaque contents named by
// their position in the data.
func (f *Frame) cborDecoded(st *State, t types.Type, key string, old Val) Val {
	m := f.m
	if namedIs(t, cborPath, "Tag") {
		return m.opaque(t, key)
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := &StructV{make([]Val, u.NumFields())}
		for i := range s.f {
			fd := u.Field(i)
			if fd.Name() == "_" || !fd.Exported() {
				s.f[i] = zeroVal(fd.Type())
				continue
			}
			s.f[i] = f.cborDecoded(st, fd.Type(), key+"."+fd.Name(), nil)
		}
		return s
	}
	return m.opaque(t, key)
}
