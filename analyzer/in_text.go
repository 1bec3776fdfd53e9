package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

func reg(fn intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = fn
	}
}

func (f *Frame) rope(st *State, v Val) *Rope {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	return f.m.bytesOf(st, v)
}

func tup(vs ...Val) Val { return TupleV(vs) }

// lenLeaf is the length of a named opaque byte string.
func lenLeaf(key string, max int64) *Poly {
	return cx.leaf("len("+key+")", bigZero, big.NewInt(max))
}

func opaqueStr(key string) *Rope { return ropeOp(key, cx.leaf("len("+key+")", bigZero, pow2m1(40))) }

// matchAt is the condition that b starts with sub at position i.
func matchAt(b, sub []*Poly, i int) Ref {
	c := True
	for j, p := range sub {
		c = cx.And(c, cx.EqP(b[i+j], p))
		if c == False {
			break
		}
	}
	return c
}

// findFirst selects the first position at which cond holds, else -1.
func findFirst(g Ref, n int, cond func(i int) Ref) *Poly {
	return findIn(g, n, func(i int) int { return i }, cond)
}

func findLast(g Ref, n int, cond func(i int) Ref) *Poly {
	return findIn(g, n, func(i int) int { return n - 1 - i }, cond)
}

// findIn gives the first position, in the given order, at which cond holds,
// bit by bit, so that what is computed from it stays a function of bits.
func findIn(g Ref, n int, at func(i int) int, cond func(i int) Ref) *Poly {
	none := True
	w := 1
	for 1<<uint(w) < n {
		w++
	}
	bits := make([]Ref, w)
	for k := range bits {
		bits[k] = False
	}
	for i := 0; i < n && none != False; i++ {
		p := at(i)
		c := cond(p)
		if c == False {
			continue
		}
		here := cx.And(none, c)
		for k := range bits {
			if p>>uint(k)&1 == 1 {
				bits[k] = cx.Or(bits[k], here)
			}
		}
		none = cx.And(none, c.not())
	}
	if none == True {
		return cx.constInt(-1)
	}
	r := cx.FromBits(bits)
	if cx.And(g, none) == False {
		return r
	}
	return cx.Select(none, cx.constInt(-1), r)
}

func allASCII(b []*Poly) Ref {
	c := True
	for _, p := range b {
		c = cx.And(c, cx.Less0(cx.SubP(p, cx.constInt(128))))
	}
	return c
}

func caseMap(lower bool) func(p *Poly) *Poly {
	lo, hi, d := int64('a'), int64('z'), int64(-32)
	if lower {
		lo, hi, d = 'A', 'Z', 32
	}
	return func(p *Poly) *Poly {
		if v, ok := p.int(); ok {
			if int64(v) >= lo && int64(v) <= hi {
				return cx.constInt(int64(v) + d)
			}
			return p
		}
		in := cx.And(cx.Less0(cx.SubP(p, cx.constInt(lo))).not(), cx.Less0(cx.SubP(p, cx.constInt(hi+1))))
		return normByte(cx.Select(in, cx.AddP(p, cx.constInt(d)), p))
	}
}

// normByte rewrites a byte given by cases to its bit form, when that is small.
func normByte(p *Poly) *Poly {
	lo, hi := cx.Range(p)
	if lo.Sign() < 0 || hi.Cmp(big.NewInt(255)) > 0 {
		return p
	}
	var r *Poly
	if cx.soft(60000, func() {
		if b := cx.Bits(p, 8); b != nil {
			r = cx.FromBits(b)
		}
	}) && r != nil {
		return r
	}
	return p
}

func (f *Frame) mapCase(st *State, r *Rope, lower bool, name string) Val {
	b, ok := r.concrete()
	if !ok {
		if len(r.chunks) > 0 {
			return StrV{opaqueStr(name + "(" + r.key() + ")")}
		}
		return StrV{r}
	}
	asc := allASCII(b)
	fn := caseMap(lower)
	out := make([]*Poly, len(b))
	for i, p := range b {
		out[i] = fn(p)
	}
	res := StrV{ropeBytes(out)}
	if cx.Implies(st.g, asc) {
		return res
	}
	na := cx.And(st.g, asc.not())
	return mergeVal(cx.And(st.g, asc), res, na, StrV{opaqueStr(name + "(" + r.key() + ")")})
}

// splitRopeBy cuts a rope at occurrences of a single constant byte for which
// membership is decided (tokens hold no white space).
func splitRopeBy(r *Rope, sep byte) ([]*Rope, bool) {
	var out []*Rope
	var cur []Chunk
	for _, c := range r.chunks {
		if c.op != nil {
			if c.op.cls != "token" {
				return nil, false
			}
			if sep != '\n' && sep != ' ' && sep != '\t' && sep != '\r' {
				return nil, false
			}
			cur = append(cur, c)
			continue
		}
		for _, p := range c.b {
			e := cx.EqP(p, cx.constInt(int64(sep)))
			switch e {
			case True:
				out = append(out, mkRope(cur...))
				cur = nil
			case False:
				cur = append(cur, Chunk{b: []*Poly{p}})
			default:
				return nil, false
			}
		}
	}
	return append(out, mkRope(cur...)), true
}

func isSpaceConst(p *Poly) (bool, bool) {
	v, ok := p.int()
	if !ok {
		lo, hi := cx.Range(p)
		// decided as non-space by range only
		if lo.Cmp(big.NewInt(33)) >= 0 && hi.Cmp(big.NewInt(127)) < 0 {
			return false, true
		}
		return false, false
	}
	return v == ' ' || v == '\t' || v == '\n' || v == '\r' || v == '\v' || v == '\f', true
}

func fieldsRope(r *Rope) ([]*Rope, bool) {
	var out []*Rope
	var cur []Chunk
	flush := func() {
		if len(cur) > 0 {
			out = append(out, mkRope(cur...))
			cur = nil
		}
	}
	for _, c := range r.chunks {
		if c.op != nil {
			if c.op.cls != "token" {
				return nil, false
			}
			cur = append(cur, c)
			continue
		}
		for _, p := range c.b {
			sp, known := isSpaceConst(p)
			if !known {
				return nil, false
			}
			if sp {
				flush()
			} else {
				cur = append(cur, Chunk{b: []*Poly{p}})
			}
		}
	}
	flush()
	return out, true
}

func trimRope(r *Rope, drop func(p *Poly) (bool, bool), left, right bool) (*Rope, bool) {
	cs := append([]Chunk{}, r.chunks...)
	if left {
		for len(cs) > 0 {
			c := cs[0]
			if c.op != nil {
				if c.op.cls != "token" {
					return nil, false
				}
				break
			}
			d, known := drop(c.b[0])
			if !known {
				return nil, false
			}
			if !d {
				break
			}
			if len(c.b) == 1 {
				cs = cs[1:]
			} else {
				cs[0] = Chunk{b: c.b[1:]}
			}
		}
	}
	if right {
		for len(cs) > 0 {
			c := cs[len(cs)-1]
			if c.op != nil {
				if c.op.cls != "token" {
					return nil, false
				}
				break
			}
			d, known := drop(c.b[len(c.b)-1])
			if !known {
				return nil, false
			}
			if !d {
				break
			}
			if len(c.b) == 1 {
				cs = cs[:len(cs)-1]
			} else {
				cs[len(cs)-1] = Chunk{b: c.b[:len(c.b)-1]}
			}
		}
	}
	return mkRope(cs...), true
}

func (f *Frame) strs(st *State, rs []*Rope) Val {
	es := make([]Val, len(rs))
	for i, r := range rs {
		es[i] = StrV{r}
	}
	return f.m.newSlice(st, types.Typ[types.String], es, f.fn.String())
}

// decRope is the decimal text of a number.
func decRope(p *Poly) *Rope {
	if v, ok := p.isConst(); ok {
		return ropeConst(v.String())
	}
	key := "dec(" + p.full() + ")"
	return mkRope(Chunk{op: &OpSeq{key: key, ln: cx.leaf("len("+key+")", big1, big.NewInt(20)), kind: "dec", num: p, cls: "token"}})
}

func hexRope(r *Rope) *Rope {
	if s, ok := r.constStr(); ok {
		return ropeConst(fmt.Sprintf("%x", s))
	}
	if len(r.chunks) == 0 {
		return r
	}
	key := "hex(" + r.key() + ")"
	return mkRope(Chunk{op: &OpSeq{key: key, ln: cx.scale(r.ln, big.NewInt(2)), kind: "hex", sub: r, cls: "token"}})
}

// base58Leads gives how the Base58 text of r can start, one for each length r can have.
func base58Leads(r *Rope) []string {
	lo, hi := cx.Range(r.ln)
	if !hi.IsInt64() || hi.Int64() > 2000 || hi.Int64()-lo.Int64() > 16 || len(r.chunks) == 0 || r.chunks[0].op != nil {
		return nil
	}
	P, k := new(big.Int), int64(0)
	for _, p := range r.chunks[0].b {
		c, ok := p.isConst()
		if !ok {
			break
		}
		P.Lsh(P, 8).Add(P, c)
		k++
	}
	if k == 0 || P.BitLen() <= 8*int(k-1) {
		return nil
	}
	var out []string
	for n := lo.Int64(); n <= hi.Int64(); n++ {
		if n < k {
			continue
		}
		a := new(big.Int).Lsh(P, uint(8*(n-k)))
		b := new(big.Int).Add(P, big1)
		b.Lsh(b, uint(8*(n-k))).Sub(b, big1)
		x, y := base58Text(a), base58Text(b)
		i := 0
		for len(x) == len(y) && i < len(x) && x[i] == y[i] {
			i++
		}
		if i < 4 {
			return nil
		}
		out = append(out, x[:i])
	}
	return out
}

// base58Decode is btcutil's decoder: the bytes, or none for an ill-formed text.
func base58Decode(t string) []byte {
	const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	n := new(big.Int)
	for i := 0; i < len(t); i++ {
		k := strings.IndexByte(alphabet, t[i])
		if k < 0 {
			return nil
		}
		n.Mul(n, big.NewInt(58)).Add(n, big.NewInt(int64(k)))
	}
	z := 0
	for z < len(t) && t[z] == '1' {
		z++
	}
	return append(make([]byte, z), n.Bytes()...)
}

func base58Text(n *big.Int) string {
	const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	n = new(big.Int).Set(n)
	var out []byte
	for m := new(big.Int); n.Sign() > 0; {
		n.DivMod(n, big.NewInt(58), m)
		out = append([]byte{alphabet[m.Int64()]}, out...)
	}
	return string(out)
}

func ropeOfKind(r *Rope, kind string) (*OpSeq, bool) {
	if len(r.chunks) == 1 && r.chunks[0].op != nil && r.chunks[0].op.kind == kind {
		return r.chunks[0].op, true
	}
	return nil, false
}

// format expands a constant format string.
func (f *Frame) format(st *State, fm string, args []Val) *Rope {
	m := f.m
	var out []*Rope
	lit := ""
	ai := 0
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			lit += string(fm[i])
			continue
		}
		j := i + 1
		for j < len(fm) && strings.ContainsRune("+-# 0123456789.", rune(fm[j])) {
			j++
		}
		if j >= len(fm) {
			break
		}
		verb := fm[j]
		spec := fm[i : j+1]
		i = j
		if verb == '%' {
			lit += "%"
			continue
		}
		if ai >= len(args) {
			lit += "%!" + string(verb) + "(MISSING)"
			continue
		}
		a := args[ai]
		ai++
		out = append(out, ropeConst(lit))
		lit = ""
		out = append(out, f.formatOne(st, spec, a))
	}
	out = append(out, ropeConst(lit))
	_ = m
	return ropeCat(out...)
}

// eachText is the text op gives, for each of the alternatives the arguments have.
func (f *Frame) eachText(st *State, args []Val, op func([]Val) *Rope) Val {
	type combo struct {
		g    Ref
		args []Val
	}
	combos := []combo{{st.g, nil}}
	for _, a := range args {
		var next []combo
		for _, c := range combos {
			for _, o := range altsOf(a, c.g) {
				alts := []Alt{o}
				if i, ok := o.v.(IfaceV); ok {
					alts = nil
					for _, in := range altsOf(i.v, o.g) {
						alts = append(alts, Alt{in.g, IfaceV{t: i.t, v: in.v}})
					}
				}
				for _, x := range alts {
					next = append(next, combo{x.g, append(append([]Val{}, c.args...), x.v)})
				}
			}
		}
		if len(next) > 64 {
			return StrV{op(args)}
		}
		combos = next
	}
	var out []Alt
	for _, c := range combos {
		out = append(out, Alt{c.g, StrV{op(c.args)}})
	}
	return mergeAlts(out)
}

func (f *Frame) formatOne(st *State, spec string, a Val) *Rope {
	m := f.m
	v := a
	if i, ok := a.(IfaceV); ok {
		v = i.v
		verb := spec[len(spec)-1]
		if len(spec) == 2 {
			// Stringer and error values are opaque texts
			if isNative(i.t) {
				return opaqueStr("text(" + m.key(st, v) + ")")
			}
			if verb == 's' || verb == 'v' {
				if m.methodOf(i.t, "String") != nil {
					fn := m.prog.LookupMethod(i.t, nil, "String")
					if r := f.callFunction(fn, nil, []Val{v}, st); r != nil {
						if s, ok := r.(StrV); ok {
							return s.r
						}
					}
				}
			}
		}
	}
	verb := spec[len(spec)-1]
	if len(spec) == 2 {
		switch x := v.(type) {
		case *Poly:
			if verb == 'd' || verb == 'v' {
				return decRope(x)
			}
		case StrV:
			switch verb {
			case 's', 'v':
				return x.r
			case 'x':
				return hexRope(x.r)
			}
		case SliceV, BytesV:
			if verb == 's' || verb == 'x' {
				if r := f.tryBytes(st, x); r != nil {
					if verb == 'x' {
						return hexRope(r)
					}
					return r
				}
			}
		}
	}
	return opaqueStr("fmt(" + spec + "," + m.key(st, a) + ")")
}

func (f *Frame) tryBytes(st *State, v Val) (r *Rope) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsup); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return f.m.bytesOf(st, v)
}

func (f *Frame) variadic(st *State, v Val) []Val {
	switch v.(type) {
	case NilV:
		return nil
	case SliceV:
		return f.m.elems(st, v)
	}
	f.m.fail("variadic arguments given as %T", v)
	return nil
}

func (f *Frame) sprint(st *State, args []Val, ln bool) *Rope {
	var out []*Rope
	for i, a := range args {
		if i > 0 {
			_, s1 := ifaceStr(a)
			_, s0 := ifaceStr(args[i-1])
			if ln || (!s1 && !s0) {
				out = append(out, ropeConst(" "))
			}
		}
		out = append(out, f.formatOne(st, "%v", a))
	}
	if ln {
		out = append(out, ropeConst("\n"))
	}
	return ropeCat(out...)
}

func ifaceStr(v Val) (StrV, bool) {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	s, ok := v.(StrV)
	return s, ok
}

func constArg(v Val) (string, bool) {
	s, ok := v.(StrV)
	if !ok {
		return "", false
	}
	return s.r.constStr()
}

func init() {
	B := func(c Ref) Val { return BoolV(c) }
	// --- prefix, suffix, search ---
	hasPrefix := func(f *Frame, st *State, a []Val) Val {
		s, p := f.rope(st, a[0]), f.rope(st, a[1])
		pb, ok := p.concrete()
		if !ok {
			return B(cx.Pred("hasprefix(" + s.key() + "," + p.key() + ")"))
		}
		if sb, ok := s.concrete(); ok {
			if len(sb) < len(pb) {
				return B(False)
			}
			return B(matchAt(sb, pb, 0))
		}
		if len(s.chunks) > 0 && s.chunks[0].op == nil && len(s.chunks[0].b) >= len(pb) {
			return B(matchAt(s.chunks[0].b, pb, 0))
		}
		if len(pb) == 0 {
			return B(True)
		}
		if len(s.chunks) > 0 && s.chunks[0].op != nil && s.chunks[0].op.leads != nil {
			c := True
			for i, p := range pb {
				if q := s.chunks[0].op.lead(i); q != nil {
					c = cx.And(c, cx.EqP(p, q))
				}
			}
			if c == False {
				return B(False)
			}
		}
		return B(cx.And(cx.Less0(cx.SubP(s.ln, cx.constInt(int64(len(pb))))).not(), cx.Pred("hasprefix("+s.key()+","+p.key()+")")))
	}
	reg(hasPrefix, "strings.HasPrefix", "bytes.HasPrefix")
	hasSuffix := func(f *Frame, st *State, a []Val) Val {
		s, p := f.rope(st, a[0]), f.rope(st, a[1])
		pb, ok := p.concrete()
		sb, ok2 := s.concrete()
		if ok && ok2 {
			if len(sb) < len(pb) {
				return B(False)
			}
			return B(matchAt(sb, pb, len(sb)-len(pb)))
		}
		if ok && len(s.chunks) > 0 {
			l := s.chunks[len(s.chunks)-1]
			if l.op == nil && len(l.b) >= len(pb) {
				return B(matchAt(l.b, pb, len(l.b)-len(pb)))
			}
		}
		return B(cx.Pred("hassuffix(" + s.key() + "," + p.key() + ")"))
	}
	reg(hasSuffix, "strings.HasSuffix", "bytes.HasSuffix")
	find := func(name string, last bool) intrinsic {
		return func(f *Frame, st *State, a []Val) Val {
			s := f.rope(st, a[0])
			var sub []*Poly
			okSub := true
			switch x := a[1].(type) {
			case *Poly:
				if strings.HasSuffix(name, "Rune") {
					_, hi := cx.Range(x)
					if hi.Cmp(big.NewInt(128)) >= 0 {
						// only ASCII texts are searched: other runes are absent unless the text is not ASCII
						sb, ok := s.concrete()
						if ok && cx.Implies(st.g, allASCII(sb)) {
							sub = []*Poly{x}
							break
						}
						f.m.fail("search for a non-ASCII character")
					}
				}
				sub = []*Poly{x}
			default:
				sub, okSub = f.rope(st, x).concrete()
			}
			sb, ok := s.concrete()
			if !ok || !okSub {
				key := fmt.Sprintf("%s(%s,%s)", name, s.key(), f.m.key(st, a[1]))
				return cx.leaf(key, bigm1, pow2m1(40))
			}
			n := len(sb) - len(sub) + 1
			if n < 0 {
				n = 0
			}
			c := func(i int) Ref { return matchAt(sb, sub, i) }
			if last {
				return findLast(st.g, n, c)
			}
			return findFirst(st.g, n, c)
		}
	}
	for _, p := range []string{"strings.", "bytes."} {
		reg(find("Index", false), p+"Index")
		reg(find("IndexByte", false), p+"IndexByte")
		reg(find("IndexRune", false), p+"IndexRune")
		reg(find("LastIndex", true), p+"LastIndex")
		reg(find("LastIndexByte", true), p+"LastIndexByte")
	}
	contains := func(f *Frame, st *State, a []Val) Val {
		r := intrinsics["strings.Index"](f, st, a).(*Poly)
		return B(cx.Less0(r).not())
	}
	reg(contains, "strings.Contains", "bytes.Contains", "strings.ContainsRune", "bytes.ContainsRune")
	reg(func(f *Frame, st *State, a []Val) Val {
		s := f.rope(st, a[0])
		chars := f.rope(st, a[1])
		sb, ok := s.concrete()
		cb, ok2 := chars.concrete()
		if !ok || !ok2 {
			return B(cx.Pred("containsany(" + s.key() + "," + chars.key() + ")"))
		}
		r := False
		for _, p := range sb {
			for _, q := range cb {
				r = cx.Or(r, cx.EqP(p, q))
			}
		}
		return B(r)
	}, "strings.ContainsAny")
	reg(func(f *Frame, st *State, a []Val) Val {
		if _, ok := a[0].(OpqV); ok {
			return B(cx.Pred("same(" + f.m.key(st, a[0]) + "," + f.m.key(st, a[1]) + ")"))
		}
		return B(eqRope(f.rope(st, a[0]), f.rope(st, a[1])))
	}, "bytes.Equal")
	reg(func(f *Frame, st *State, a []Val) Val {
		x, y := f.rope(st, a[0]), f.rope(st, a[1])
		e := eqRope(x, y)
		lt := cx.Pred("less(" + x.key() + "," + y.key() + ")")
		return cx.Select(e, cx.zero, cx.Select(lt, cx.constInt(-1), cx.onep))
	}, "bytes.Compare", "strings.Compare")
	reg(func(f *Frame, st *State, a []Val) Val {
		x, y := f.rope(st, a[0]), f.rope(st, a[1])
		return cx.BitPoly(eqRope(x, y))
	}, "crypto/subtle.ConstantTimeCompare")
	reg(func(f *Frame, st *State, a []Val) Val {
		x, y := f.rope(st, a[0]), f.rope(st, a[1])
		return B(eqRope(x, y))
	}, "crypto/hmac.Equal")
	// --- case ---
	reg(func(f *Frame, st *State, a []Val) Val { return f.mapCase(st, f.rope(st, a[0]), true, "ToLower") }, "strings.ToLower")
	reg(func(f *Frame, st *State, a []Val) Val { return f.mapCase(st, f.rope(st, a[0]), false, "ToUpper") }, "strings.ToUpper")
	byteCase := func(lower bool, name string) intrinsic {
		return func(f *Frame, st *State, a []Val) Val {
			v := f.mapCase(st, f.rope(st, a[0]), lower, name)
			return f.m.mapVal(v, st.g, func(v Val, g Ref) Val { return f.m.newBytes(st, v.(StrV).r, f.fn.String()) })
		}
	}
	reg(byteCase(true, "ToLower"), "bytes.ToLower")
	reg(byteCase(false, "ToUpper"), "bytes.ToUpper")
	reg(func(f *Frame, st *State, a []Val) Val {
		l := intrinsics["strings.ToLower"]
		return B(f.m.eqVal(st, l(f, st, a[:1]), l(f, st, a[1:])))
	}, "strings.EqualFold")
	// --- split, join, trim ---
	reg(func(f *Frame, st *State, a []Val) Val {
		s := f.rope(st, a[0])
		sep, ok := f.rope(st, a[1]).constStr()
		if !ok || len(sep) != 1 {
			f.m.fail("strings.Split with separator %s", f.m.key(st, a[1]))
		}
		rs, ok := splitRopeBy(s, sep[0])
		if !ok {
			f.m.fail("strings.Split of %s: separator positions undecided", s)
		}
		return f.strs(st, rs)
	}, "strings.Split")
	reg(func(f *Frame, st *State, a []Val) Val {
		s := f.rope(st, a[0])
		sep, ok := f.rope(st, a[1]).constStr()
		n, okn := f.num(a[2], st).int()
		if !ok || !okn || len(sep) != 1 || n == 0 {
			f.m.fail("strings.SplitN")
		}
		rs, ok := splitRopeBy(s, sep[0])
		if !ok {
			f.m.fail("strings.SplitN: separator positions undecided")
		}
		if n > 0 && len(rs) > n {
			rest := rs[n-1]
			for _, r := range rs[n:] {
				rest = ropeCat(rest, ropeConst(sep), r)
			}
			rs = append(append([]*Rope{}, rs[:n-1]...), rest)
		}
		return f.strs(st, rs)
	}, "strings.SplitN")
	reg(func(f *Frame, st *State, a []Val) Val {
		rs, ok := fieldsRope(f.rope(st, a[0]))
		if !ok {
			f.m.fail("strings.Fields of %s: white space undecided", f.rope(st, a[0]))
		}
		return f.strs(st, rs)
	}, "strings.Fields")
	reg(func(f *Frame, st *State, a []Val) Val {
		es := f.m.elems(st, a[0])
		sep := f.rope(st, a[1])
		var rs []*Rope
		for i, e := range es {
			if i > 0 {
				rs = append(rs, sep)
			}
			s, ok := e.(StrV)
			if !ok {
				f.m.fail("strings.Join of %T", e)
			}
			rs = append(rs, s.r)
		}
		return StrV{ropeCat(rs...)}
	}, "strings.Join")
	reg(func(f *Frame, st *State, a []Val) Val {
		n, ok := f.num(a[1], st).int()
		if !ok || n > 4096 {
			f.m.fail("strings.Repeat count")
		}
		f.panicIf(st, boolRef(n < 0), "negative repeat count")
		var rs []*Rope
		for i := 0; i < n; i++ {
			rs = append(rs, f.rope(st, a[0]))
		}
		return StrV{ropeCat(rs...)}
	}, "strings.Repeat")
	reg(func(f *Frame, st *State, a []Val) Val {
		n, ok := f.num(a[1], st).int()
		if !ok || n > 4096 {
			f.m.fail("bytes.Repeat count")
		}
		f.panicIf(st, boolRef(n < 0), "negative repeat count")
		var rs []*Rope
		for i := 0; i < n; i++ {
			rs = append(rs, f.rope(st, a[0]))
		}
		return f.m.newBytes(st, ropeCat(rs...), f.fn.String())
	}, "bytes.Repeat")
	trim := func(left, right bool, set bool, name string) intrinsic {
		return func(f *Frame, st *State, a []Val) Val {
			s := f.rope(st, a[0])
			drop := isSpaceConst
			if set {
				cs, ok := f.rope(st, a[1]).constStr()
				if !ok {
					f.m.fail("%s with unknown cutset", name)
				}
				drop = func(p *Poly) (bool, bool) {
					v, ok := p.int()
					return ok && strings.IndexByte(cs, byte(v)) >= 0, ok
				}
				if strings.Trim(cs, " \t\r\n") != "" {
					for _, c := range s.chunks {
						if c.op != nil {
							return StrV{opaqueStr(name + "(" + s.key() + "," + cs + ")")}
						}
					}
				}
			}
			r, ok := trimRope(s, drop, left, right)
			if !ok {
				return StrV{opaqueStr(name + "(" + s.key() + ")")}
			}
			return StrV{r}
		}
	}
	reg(trim(true, true, false, "TrimSpace"), "strings.TrimSpace")
	reg(trim(true, true, true, "Trim"), "strings.Trim")
	reg(trim(true, false, true, "TrimLeft"), "strings.TrimLeft")
	reg(trim(false, true, true, "TrimRight"), "strings.TrimRight")
	reg(func(f *Frame, st *State, a []Val) Val {
		s, ok := trimRope(f.rope(st, a[0]), isSpaceConst, true, true)
		if !ok {
			return BytesV{opaqueStr("TrimSpace(" + f.rope(st, a[0]).key() + ")")}
		}
		return BytesV{s}
	}, "bytes.TrimSpace")
	reg(func(f *Frame, st *State, a []Val) Val {
		c := Ref(hasPrefix(f, st, a).(BoolV))
		s := f.rope(st, a[0])
		n, ok := f.rope(st, a[1]).ln.int()
		if !ok {
			f.m.fail("TrimPrefix")
		}
		switch cx.And(st.g, c) {
		case False:
			return a[0]
		}
		s2 := st.clone()
		s2.g = cx.And(st.g, c)
		cut := f.sliceRope(s2, s, cx.constInt(int64(n)), nil, s2.g)
		return mergeVal(cx.And(st.g, c), StrV{cut.(BytesV).r}, cx.And(st.g, c.not()), a[0])
	}, "strings.TrimPrefix")
	reg(func(f *Frame, st *State, a []Val) Val {
		c := Ref(hasSuffix(f, st, a).(BoolV))
		s := f.rope(st, a[0])
		n, ok := f.rope(st, a[1]).ln.int()
		if !ok {
			f.m.fail("TrimSuffix")
		}
		if cx.And(st.g, c) == False {
			return a[0]
		}
		s2 := st.clone()
		s2.g = cx.And(st.g, c)
		cut := f.sliceRope(s2, s, cx.zero, cx.SubP(s.ln, cx.constInt(int64(n))), s2.g)
		return mergeVal(cx.And(st.g, c), StrV{cut.(BytesV).r}, cx.And(st.g, c.not()), a[0])
	}, "strings.TrimSuffix")
	reg(func(f *Frame, st *State, a []Val) Val {
		s := f.rope(st, a[0])
		fv := a[1]
		b, ok := s.concrete()
		if !ok {
			return StrV{opaqueStr("Map(" + f.m.key(st, fv) + "," + s.key() + ")")}
		}
		if !cx.Implies(st.g, allASCII(b)) {
			f.m.fail("strings.Map over non-ASCII text")
		}
		if n, ok := fv.(IfaceV); ok {
			fv = n.v
		}
		_ = n0
		f.m.fail("strings.Map")
		return nil
	}, "strings.Map#disabled")
	reg(func(f *Frame, st *State, a []Val) Val { return a[0] }, "strings.Clone")
	reg(func(f *Frame, st *State, a []Val) Val {
		if _, ok := a[0].(NilV); ok {
			return NilV{}
		}
		return f.m.newBytes(st, f.rope(st, a[0]), f.fn.String())
	}, "bytes.Clone")
	// --- builders ---
	bufGet := func(f *Frame, st *State, p Val, fn func(r *Rope, s *State) (*Rope, Val)) Val {
		if _, ok := p.(NilV); ok {
			f.panicIf(st, True, "nil buffer")
			return nil
		}
		pt := p.(PtrV)
		cur := f.m.loadPath(st, pt.obj, pt.path)
		return f.each(st, cur, func(v Val, s *State) Val {
			r := ropeConst("")
			if n, ok := v.(*NativeV); ok {
				r = n.x.(*Rope)
			}
			nr, res := fn(r, s)
			if nr != nil && nr != r {
				f.m.storePath(s, pt.obj, pt.path, &NativeV{kind: "buf", key: fmt.Sprintf("r%d", nr.id), x: nr})
			}
			return res
		})
	}
	wr := func(f *Frame, st *State, a []Val) Val {
		return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) {
			x := f.rope(s, a[1])
			return ropeCat(r, x), tup(x.ln, NilV{})
		})
	}
	wrB := func(f *Frame, st *State, a []Val) Val {
		return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) {
			return ropeCat(r, ropeBytes([]*Poly{f.num(a[1], s)})), NilV{}
		})
	}
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		reg(wr, t+"Write", t+"WriteString")
		reg(wrB, t+"WriteByte")
		reg(func(f *Frame, st *State, a []Val) Val {
			return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) {
				x := f.num(a[1], s)
				lo, hi := cx.Range(x)
				if lo.Sign() < 0 || hi.Cmp(big.NewInt(128)) >= 0 {
					if n, ok := x.int(); ok {
						return ropeCat(r, ropeConst(string(rune(n)))), tup(cx.constInt(int64(utf8.RuneLen(rune(n)))), NilV{})
					}
					if !cx.Implies(s.g, cx.And(cx.Less0(x).not(), cx.Less0(cx.SubP(x, cx.constInt(128))))) {
						f.m.fail("WriteRune of a non-ASCII character")
					}
				}
				return ropeCat(r, ropeBytes([]*Poly{x})), tup(cx.onep, NilV{})
			})
		}, t+"WriteRune")
		reg(func(f *Frame, st *State, a []Val) Val {
			return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) { return r, StrV{r} })
		}, t+"String")
		reg(func(f *Frame, st *State, a []Val) Val {
			return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) { return r, r.ln })
		}, t+"Len")
		reg(func(f *Frame, st *State, a []Val) Val {
			return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) { return ropeConst(""), TupleV{} })
		}, t+"Reset")
		reg(func(f *Frame, st *State, a []Val) Val { return TupleV{} }, t+"Grow")
	}
	reg(func(f *Frame, st *State, a []Val) Val {
		return bufGet(f, st, a[0], func(r *Rope, s *State) (*Rope, Val) { return r, f.m.newBytes(s, r, f.fn.String()) })
	}, "(*bytes.Buffer).Bytes")
	reg(func(f *Frame, st *State, a []Val) Val {
		r := f.rope(st, a[0])
		o := f.m.alloc(st, types.Typ[types.Int], &NativeV{kind: "buf", key: fmt.Sprintf("r%d", r.id), x: r}, f.fn.String())
		return PtrV{obj: o}
	}, "bytes.NewBuffer", "bytes.NewBufferString", "bytes.NewReader", "strings.NewReader")
	// --- strconv ---
	reg(func(f *Frame, st *State, a []Val) Val { return StrV{decRope(f.num(a[0], st))} }, "strconv.Itoa")
	reg(func(f *Frame, st *State, a []Val) Val {
		b, ok := f.num(a[1], st).int()
		if ok && b == 10 {
			return StrV{decRope(f.num(a[0], st))}
		}
		return StrV{opaqueStr(fmt.Sprintf("itoa(%s,%s)", f.num(a[0], st).full(), f.num(a[1], st).full()))}
	}, "strconv.FormatUint", "strconv.FormatInt")
	parse := func(signed bool) intrinsic {
		return func(f *Frame, st *State, a []Val) Val {
			s := f.rope(st, a[0])
			base, bits := 10, 64
			if len(a) == 3 {
				b, ok1 := f.num(a[1], st).int()
				w, ok2 := f.num(a[2], st).int()
				if !ok1 || !ok2 {
					f.m.fail("strconv.Parse with unknown base or size")
				}
				base, bits = b, w
				if bits == 0 {
					bits = 64
				}
			}
			return f.parseNum(st, s, base, bits, signed)
		}
	}
	reg(parse(false), "strconv.ParseUint")
	reg(parse(true), "strconv.ParseInt", "strconv.Atoi")
	// --- fmt, errors, log ---
	reg(func(f *Frame, st *State, a []Val) Val {
		fm, ok := constArg(a[0])
		if !ok {
			return StrV{opaqueStr("sprintf(" + f.m.key(st, a[0]) + "," + f.m.key(st, a[1]) + ")")}
		}
		return f.eachText(st, f.variadic(st, a[1]), func(as []Val) *Rope { return f.format(st, fm, as) })
	}, "fmt.Sprintf")
	reg(func(f *Frame, st *State, a []Val) Val { return f.eachText(st, f.variadic(st, a[0]), func(as []Val) *Rope { return f.sprint(st, as, false) }) }, "fmt.Sprint")
	reg(func(f *Frame, st *State, a []Val) Val { return f.eachText(st, f.variadic(st, a[0]), func(as []Val) *Rope { return f.sprint(st, as, true) }) }, "fmt.Sprintln")
	reg(func(f *Frame, st *State, a []Val) Val {
		f.event(st, "errtext", a...)
		f.m.fresh++
		return f.m.newError(fmt.Sprintf("error made at %s", f.m.where()))
	}, "fmt.Errorf", "errors.New", "errors.Join", "github.com/pkg/errors.New", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Errorf")
	reg(func(f *Frame, st *State, a []Val) Val {
		_, n := a[0].(NilV)
		if n {
			if _, n2 := a[1].(NilV); n2 {
				return B(True)
			}
			return B(False)
		}
		if sameVal(a[0], a[1]) {
			return B(True)
		}
		return B(cx.Pred("errors.Is(" + f.m.key(st, a[0]) + "," + f.m.key(st, a[1]) + ")"))
	}, "errors.Is")
	reg(func(f *Frame, st *State, a []Val) Val {
		if _, n := a[0].(NilV); n {
			return NilV{}
		}
		return &Union{[]Alt{{cx.Pred("unwrap " + f.m.key(st, a[0])), f.m.newError("unwrap " + f.m.key(st, a[0]))}, {cx.Pred("unwrap " + f.m.key(st, a[0])).not(), NilV{}}}}
	}, "errors.Unwrap")
	nativeMethods["error.Error"] = func(f *Frame, st *State, a []Val) Val {
		return StrV{opaqueStr("text(" + f.m.key(st, a[0]) + ")")}
	}
	logf := func(f *Frame, st *State, a []Val) Val {
		f.event(st, "log", a...)
		return TupleV{}
	}
	reg(logf, "log.Print", "log.Println", "log.Printf", "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println")
	reg(func(f *Frame, st *State, a []Val) Val {
		f.event(st, "log", a...)
		return tup(cx.leaf("n", bigZero, pow2m1(30)), NilV{})
	}, "fmt.Print", "fmt.Println", "fmt.Printf")
	reg(func(f *Frame, st *State, a []Val) Val {
		f.event(st, "log", a[1:]...)
		return tup(cx.leaf("n", bigZero, pow2m1(30)), NilV{})
	}, "fmt.Fprint#disabled")
	fatal := func(f *Frame, st *State, a []Val) Val {
		f.event(st, "log", a...)
		f.panicIf(st, True, "process exit")
		st.g = False
		return nil
	}
	reg(fatal, "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit")
	reg(func(f *Frame, st *State, a []Val) Val {
		f.event(st, "log", a...)
		f.panicIf(st, True, "explicit panic")
		return nil
	}, "log.Panic", "log.Panicf", "log.Panicln")
	// --- carries ---
	wide := func(w uint, op byte) func(f *Frame, st *State, a []Val) Val {
		return func(f *Frame, st *State, a []Val) Val {
			x, y := f.num(a[0], st), f.num(a[1], st)
			if t := f.m.taint; t != nil && (t.isSecret(x) || t.isSecret(y) || len(a) > 2 && t.isSecret(f.num(a[2], st))) {
				return tup(t.secret(w, false), t.secret(w, false))
			}
			switch op {
			case '+':
				s := cx.AddP(cx.AddP(x, y), cx.LowMask(f.num(a[2], st), 1))
				return tup(cx.LowMask(s, w), cx.Shr(s, w))
			case '-':
				s := cx.SubP(cx.SubP(x, y), cx.LowMask(f.num(a[2], st), 1))
				return tup(cx.LowMask(s, w), cx.scale(cx.Shr(s, w), bigm1))
			}
			s := cx.MulP(x, y)
			return tup(cx.Shr(s, w), cx.LowMask(s, w))
		}
	}
	reg(wide(64, '+'), "math/bits.Add64", "math/bits.Add")
	reg(wide(64, '-'), "math/bits.Sub64", "math/bits.Sub")
	reg(wide(64, '*'), "math/bits.Mul64", "math/bits.Mul")
	reg(wide(32, '+'), "math/bits.Add32")
	reg(wide(32, '-'), "math/bits.Sub32")
	reg(wide(32, '*'), "math/bits.Mul32")
	// --- hex, base58 ---
	reg(func(f *Frame, st *State, a []Val) Val { return StrV{hexRope(f.rope(st, a[0]))} }, "encoding/hex.EncodeToString")
	reg(func(f *Frame, st *State, a []Val) Val {
		s := f.rope(st, a[0])
		if op, ok := ropeOfKind(s, "hex"); ok {
			return tup(f.m.newBytes(st, op.sub, f.fn.String()), NilV{})
		}
		if c, ok := s.constStr(); ok {
			out, good := unhex(c)
			if good {
				return tup(f.m.newBytes(st, ropeConst(out), f.fn.String()), NilV{})
			}
			return tup(f.m.newBytes(st, ropeConst(out), f.fn.String()), f.m.newError("hex"))
		}
		key := "unhex(" + s.key() + ")"
		r := ropeOp(key, cx.Shr(s.ln, 1))
		return tup(BytesV{r}, f.m.errIf(f.failPred(key, st), key))
	}, "encoding/hex.DecodeString")
	const b58 = "github.com/btcsuite/btcutil/base58."
	reg(func(f *Frame, st *State, a []Val) Val {
		r := f.rope(st, a[0])
		key := "base58(" + r.key() + ")"
		return StrV{mkRope(Chunk{op: &OpSeq{key: key, ln: cx.leaf("len("+key+")", bigZero, pow2m1(40)), kind: "base58", sub: r, cls: "token", leads: base58Leads(r)}})}
	}, b58+"Encode")
	reg(func(f *Frame, st *State, a []Val) Val {
		s := f.rope(st, a[0])
		if op, ok := ropeOfKind(s, "base58"); ok {
			return f.m.newBytes(st, op.sub, f.fn.String())
		}
		if t, ok := s.constStr(); ok {
			return f.m.newBytes(st, ropeConst(string(base58Decode(t))), f.fn.String())
		}
		key := "unbase58(" + s.key() + ")"
		return BytesV{opaqueStr(key)}
	}, b58+"Decode")
	// --- reflect (as used for generic reversal) ---
	reg(func(f *Frame, st *State, a []Val) Val {
		return &NativeV{kind: "reflect.Value", key: f.m.key(st, a[0]), x: a[0]}
	}, "reflect.ValueOf")
	reg(func(f *Frame, st *State, a []Val) Val {
		n, ok := a[0].(*NativeV)
		if !ok {
			f.m.fail("reflect.Value")
		}
		v := n.x.(Val)
		if i, ok := v.(IfaceV); ok {
			v = i.v
		}
		return f.m.mapVal(v, st.g, func(v Val, g Ref) Val { return f.lenOf(st, v) })
	}, "(reflect.Value).Len")
	reg(func(f *Frame, st *State, a []Val) Val {
		v := a[0]
		if i, ok := v.(IfaceV); ok {
			v = i.v
		}
		f.m.fresh++
		return FuncV{name: fmt.Sprintf("swapper%d", f.m.fresh), nat: func(m *Machine, fr *Frame, st *State, args []Val) Val {
			return fr.eachArgs(st, []Val{v, args[0], args[1]}, func(a []Val, s *State) Val {
				sl, ok := a[0].(SliceV)
				if !ok {
					if _, isNil := a[0].(NilV); isNil {
						fr.panicIf(s, True, "reflect: slice index out of range")
						return nil
					}
					m.fail("reflect.Swapper on %T", a[0])
				}
				i, ok1 := fr.num(a[1], s).int()
				j, ok2 := fr.num(a[2], s).int()
				if !ok1 || !ok2 {
					m.fail("swap of unknown positions")
				}
				if i < 0 || j < 0 || i >= sl.len || j >= sl.len {
					fr.panicIf(s, True, "reflect: slice index out of range")
					return nil
				}
				x := m.loadPath(s, sl.obj, appendPath(sl.path, sl.off+i))
				y := m.loadPath(s, sl.obj, appendPath(sl.path, sl.off+j))
				m.storePath(s, sl.obj, appendPath(sl.path, sl.off+i), y)
				m.storePath(s, sl.obj, appendPath(sl.path, sl.off+j), x)
				return TupleV{}
			})
		}}
	}, "reflect.Swapper")
	_ = strconv.Itoa
}

var n0 = 0

func boolRef(b bool) Ref {
	if b {
		return True
	}
	return False
}

func unhex(s string) (string, bool) {
	var out []byte
	for i := 0; i+1 < len(s); i += 2 {
		v, err := strconv.ParseUint(s[i:i+2], 16, 8)
		if err != nil || s[i] == '+' || s[i] == '_' {
			return string(out), false
		}
		out = append(out, byte(v))
	}
	return string(out), len(s)%2 == 0
}

// parseNum models strconv.Parse*: the result is an unknown number of the text,
// the same for every call on it; it fails when the text is no number (one
// condition per text) or the number does not fit.
func (f *Frame) parseNum(st *State, s *Rope, base, bits int, signed bool) Val {
	if c, ok := s.constStr(); ok {
		if signed {
			v, err := strconv.ParseInt(c, base, bits)
			if err != nil {
				return tup(cx.constInt(v), f.m.newError("parse "+c))
			}
			return tup(cx.constInt(v), NilV{})
		}
		v, err := strconv.ParseUint(c, base, bits)
		p := cx.constBig(new(big.Int).SetUint64(v))
		if err != nil {
			return tup(p, f.m.newError("parse "+c))
		}
		return tup(p, NilV{})
	}
	var val *Poly
	bad := False
	if op, ok := ropeOfKind(s, "dec"); ok && base == 10 {
		val = op.num
	} else {
		key := fmt.Sprintf("num%d(%s)", base, s.key())
		// the mathematical value of the text, of any magnitude
		val = cx.leaf(key, new(big.Int).Neg(pow2(80)), pow2(80))
		bad = cx.Pred("notnum " + key)
	}
	lo, hi := typeRange(uint(bits), signed)
	out := cx.Or(cx.Less0(cx.SubP(val, cx.constBig(lo))), cx.Less0(cx.SubP(cx.constBig(hi), val)))
	err := cx.Or(bad, out)
	f.m.fails = append(f.m.fails, failStep{g: st.g, p: err, key: "parse " + s.key(), pos: f.m.where()})
	good := cx.And(st.g, err.not())
	var clamped *Poly
	if good == False {
		clamped = cx.zero
	} else {
		c := cx.leaf(fmt.Sprintf("clamp%d%v(%s)", bits, signed, val.full()), lo, hi)
		l2, h2 := cx.Range(val)
		if l2.Cmp(lo) >= 0 && h2.Cmp(hi) <= 0 {
			clamped = val
		} else {
			clamped = cx.Select(err.not(), val, c)
			cx.note(clamped, lo, hi)
		}
	}
	return tup(clamped, f.m.errIf(err, "parse "+s.key()))
}
