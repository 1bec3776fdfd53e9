package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// The numeric domain: integer values are hash-consed polynomials with big
// integer coefficients over atoms. An atom is an input (leaf), the floor shift
// of a polynomial, or a single bit given by a decision diagram. Machine
// wrap-around, masks and shifts are all expressed with floor shifts, so values
// are exact integers, and equal polynomials denote equal values.

type atomKind uint8

const (
	aLeaf atomKind = iota
	aShr
	aBit
)

type Atom struct {
	id     int
	kind   atomKind
	name   string
	p      *Poly // aShr
	k      uint  // aShr
	b      Ref   // aBit
	lo, hi *big.Int
	self   *Poly
	tag    interface{}
}

type Mono struct {
	id    int
	atoms []*Atom
	bit   *Atom // the single aBit atom, if any
}

type Term struct {
	m *Mono
	c *big.Int
}

type Poly struct {
	id     int
	terms  []Term
	lo, hi *big.Int
	ownb   []Ref // bits owned by this polynomial, if it had to be named bit by bit
	bits   []Ref // cached bit decomposition (unsigned), minimal width
	bitsNo bool  // placed decomposition known impossible
	rng    bool
}

type Ctx struct {
	care    Ref  // what every state alive satisfies
	limbs   bool // values of a small range are given names (see limb)
	carries bool // carries of a few values stay as they are
	coarse  bool // wide exclusive-ors are unknown numbers
	spread  bool // uninterpreted functions are applied to each alternative of an argument
	*BDD
	atoms    []*Atom
	leafs    map[string]*Atom
	shrs     map[shrKey]*Atom
	decCache map[[2]int]*Poly
	rngMemo  map[int][2]*big.Int // ranges computed below a depth limit
	rngWork  int
	bitAtoms map[Ref]*Atom
	monos    map[string]*Mono
	monoList []*Mono
	one      *Mono
	polys    map[string]*Poly
	npoly    int
	zero     *Poly
	onep     *Poly
	preds    map[string]Ref
	cuts     map[int][]cut
	cutPolys []*Poly // values with thresholds, oldest first
	mulCache map[[2]int]*Poly
	shrCache map[shrKey]*Poly
	iteCache map[[3]int]*Poly
	ropes    map[string]*Rope
	small    []*Poly
}

type shrKey struct {
	id int
	k  uint
}

var cx *Ctx

func newCtx() *Ctx {
	c := &Ctx{BDD: newBDD(), leafs: map[string]*Atom{}, shrs: map[shrKey]*Atom{}, decCache: map[[2]int]*Poly{}, rngMemo: map[int][2]*big.Int{}, bitAtoms: map[Ref]*Atom{},
		monos: map[string]*Mono{}, polys: map[string]*Poly{}, preds: map[string]Ref{}, cuts: map[int][]cut{},
		mulCache: map[[2]int]*Poly{}, shrCache: map[shrKey]*Poly{}, iteCache: map[[3]int]*Poly{}, ropes: map[string]*Rope{}}
	cx = c
	c.one = c.mono(nil)
	c.zero = c.mk(nil)
	for i := 0; i < 1024; i++ {
		c.small = append(c.small, c.constBig(big.NewInt(int64(i))))
	}
	c.onep = c.small[1]
	return c
}

func (c *Ctx) mono(atoms []*Atom) *Mono {
	buf := make([]byte, 0, 4*len(atoms))
	for _, a := range atoms {
		buf = binary.AppendUvarint(buf, uint64(a.id))
	}
	if m, ok := c.monos[string(buf)]; ok {
		return m
	}
	m := &Mono{id: len(c.monoList), atoms: atoms}
	for _, a := range atoms {
		if a.kind == aBit {
			m.bit = a
		}
	}
	c.monoList = append(c.monoList, m)
	c.monos[string(buf)] = m
	return m
}

// mk interns sorted, nonzero terms.
func (c *Ctx) mk(terms []Term) *Poly {
	buf := make([]byte, 0, 16*len(terms))
	for _, t := range terms {
		buf = binary.AppendUvarint(buf, uint64(t.m.id))
		if t.c.IsInt64() {
			buf = append(buf, 0)
			buf = binary.AppendVarint(buf, t.c.Int64())
		} else {
			bb := t.c.Bytes()
			buf = append(buf, byte(2+t.c.Sign()))
			buf = binary.AppendUvarint(buf, uint64(len(bb)))
			buf = append(buf, bb...)
		}
	}
	if p, ok := c.polys[string(buf)]; ok {
		return p
	}
	p := &Poly{id: c.npoly, terms: terms}
	c.npoly++
	c.polys[string(buf)] = p
	return p
}

func (c *Ctx) constBig(v *big.Int) *Poly {
	if v.Sign() == 0 {
		return c.zero
	}
	if v.IsInt64() {
		if i := v.Int64(); i > 0 && i < int64(len(c.small)) {
			return c.small[i]
		}
	}
	return c.mk([]Term{{c.one, new(big.Int).Set(v)}})
}

func (c *Ctx) constInt(v int64) *Poly {
	if v >= 0 && v < int64(len(c.small)) {
		return c.small[v]
	}
	return c.constBig(big.NewInt(v))
}

func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.terms) == 0 {
		return new(big.Int), true
	}
	if len(p.terms) == 1 && len(p.terms[0].m.atoms) == 0 {
		return p.terms[0].c, true
	}
	return nil, false
}

func (p *Poly) int() (int, bool) {
	v, ok := p.isConst()
	if !ok || !v.IsInt64() {
		return 0, false
	}
	return int(v.Int64()), true
}

func (c *Ctx) atomPoly(a *Atom) *Poly {
	if a.self == nil {
		a.self = c.mk([]Term{{c.mono([]*Atom{a}), big.NewInt(1)}})
	}
	return a.self
}

func (c *Ctx) newAtom(a *Atom) *Atom {
	a.id = len(c.atoms)
	c.atoms = append(c.atoms, a)
	return a
}

// leaf returns the named input with the given inclusive range.
func (c *Ctx) leaf(name string, lo, hi *big.Int) *Poly {
	if a, ok := c.leafs[name]; ok {
		if a.lo.Cmp(lo) != 0 || a.hi.Cmp(hi) != 0 {
			name = fmt.Sprintf("%s<%v..%v>", name, lo, hi)
			if a, ok := c.leafs[name]; ok {
				return c.atomPoly(a)
			}
		} else {
			return c.atomPoly(a)
		}
	}
	if lo.Cmp(hi) == 0 {
		return c.constBig(lo)
	}
	a := c.newAtom(&Atom{kind: aLeaf, name: name, lo: lo, hi: hi})
	c.leafs[name] = a
	return c.atomPoly(a)
}

func (c *Ctx) leafBits(name string, w uint) *Poly {
	return c.leaf(name, new(big.Int), pow2m1(w))
}

func pow2(k uint) *big.Int   { return new(big.Int).Lsh(big.NewInt(1), k) }
func pow2m1(k uint) *big.Int { return new(big.Int).Sub(pow2(k), big.NewInt(1)) }

// fromMap builds a polynomial from accumulated coefficients.
type acc map[*Mono]*big.Int

func (a acc) add(m *Mono, c *big.Int) {
	if v, ok := a[m]; ok {
		v.Add(v, c)
	} else {
		a[m] = new(big.Int).Set(c)
	}
}

func (a acc) addPoly(p *Poly, k *big.Int) {
	t := new(big.Int)
	for _, x := range p.terms {
		t.Mul(x.c, k)
		a.add(x.m, t)
	}
}

func (c *Ctx) fromAcc(a acc) *Poly {
	terms := make([]Term, 0, len(a))
	for m, v := range a {
		if v.Sign() != 0 {
			terms = append(terms, Term{m, v})
		}
	}
	sort.Slice(terms, func(i, j int) bool { return terms[i].m.id < terms[j].m.id })
	return c.mk(terms)
}

func (c *Ctx) AddP(p, q *Poly) *Poly { return c.lin(p, q, big1) }
func (c *Ctx) SubP(p, q *Poly) *Poly { return c.lin(p, q, bigm1) }

var big1 = big.NewInt(1)
var bigm1 = big.NewInt(-1)

// lin returns p + k*q.
func (c *Ctx) lin(p, q *Poly, k *big.Int) *Poly {
	if len(q.terms) == 0 {
		return p
	}
	if len(p.terms) == 0 && k.Cmp(big1) == 0 {
		return q
	}
	out := make([]Term, 0, len(p.terms)+len(q.terms))
	i, j := 0, 0
	for i < len(p.terms) || j < len(q.terms) {
		switch {
		case j == len(q.terms) || (i < len(p.terms) && p.terms[i].m.id < q.terms[j].m.id):
			out = append(out, p.terms[i])
			i++
		case i == len(p.terms) || q.terms[j].m.id < p.terms[i].m.id:
			out = append(out, Term{q.terms[j].m, new(big.Int).Mul(q.terms[j].c, k)})
			j++
		default:
			v := new(big.Int).Mul(q.terms[j].c, k)
			v.Add(v, p.terms[i].c)
			if v.Sign() != 0 {
				out = append(out, Term{p.terms[i].m, v})
			}
			i++
			j++
		}
	}
	return c.mk(out)
}

func (c *Ctx) scale(p *Poly, k *big.Int) *Poly {
	if k.Sign() == 0 {
		return c.zero
	}
	if k.Cmp(big1) == 0 {
		return p
	}
	out := make([]Term, len(p.terms))
	for i, t := range p.terms {
		out[i] = Term{t.m, new(big.Int).Mul(t.c, k)}
	}
	return c.mk(out)
}

func (c *Ctx) shl(p *Poly, k uint) *Poly {
	r := c.scale(p, pow2(k))
	if p.bits != nil && r.bits == nil && len(p.bits) > 0 {
		b := make([]Ref, int(k)+len(p.bits))
		for i := range b {
			b[i] = False
			if i >= int(k) {
				b[i] = p.bits[i-int(k)]
			}
		}
		r.bits = b
		c.note(r, new(big.Int), pow2m1(uint(len(b))))
	}
	return r
}

// narrow holds if p is a linear value of at most 64 bits.
func (c *Ctx) narrow(p *Poly) bool {
	if !p.linear() {
		return false
	}
	lo, hi := c.Range(p)
	return lo.Sign() >= 0 && hi.BitLen() <= 64
}

// vector holds if p is best handled as a vector of known bits: it was built
// from bits and is no plain combination of input words.
func (c *Ctx) vector(p *Poly) bool {
	return p.bits != nil && len(p.bits) > 0 && len(p.bits) <= 64 && len(p.terms) > 1
}

func (c *Ctx) MulP(p, q *Poly) *Poly {
	if v, ok := p.isConst(); ok {
		return c.scale(q, v)
	}
	if v, ok := q.isConst(); ok {
		return c.scale(p, v)
	}
	if p.id > q.id {
		p, q = q, p
	}
	if r, ok := c.mulCache[[2]int{p.id, q.id}]; ok {
		return r
	}
	a := acc{}
	t := new(big.Int)
	for _, x := range p.terms {
		for _, y := range q.terms {
			t.Mul(x.c, y.c)
			if x.m.bit != nil && y.m.bit != nil {
				a.addPoly(c.mulBitMono(x.m, y.m), t)
				continue
			}
			a.add(c.mulMono(x.m, y.m), t)
		}
	}
	r := c.fromAcc(a)
	c.mulCache[[2]int{p.id, q.id}] = r
	return r
}

func (c *Ctx) mulMono(x, y *Mono) *Mono {
	if len(x.atoms) == 0 {
		return y
	}
	if len(y.atoms) == 0 {
		return x
	}
	out := make([]*Atom, 0, len(x.atoms)+len(y.atoms))
	i, j := 0, 0
	for i < len(x.atoms) || j < len(y.atoms) {
		if j == len(y.atoms) || (i < len(x.atoms) && x.atoms[i].id <= y.atoms[j].id) {
			out = append(out, x.atoms[i])
			i++
		} else {
			out = append(out, y.atoms[j])
			j++
		}
	}
	return c.mono(out)
}

func without(m *Mono, a *Atom) []*Atom {
	var out []*Atom
	done := false
	for _, x := range m.atoms {
		if x == a && !done {
			done = true
			continue
		}
		out = append(out, x)
	}
	return out
}

func (c *Ctx) mulBitMono(x, y *Mono) *Poly {
	b := c.BitPoly(c.And(x.bit.b, y.bit.b))
	rest := c.mulMono(c.mono(without(x, x.bit)), c.mono(without(y, y.bit)))
	rp := c.mk([]Term{{rest, big.NewInt(1)}})
	return c.MulP(b, rp)
}

// BitPoly is the 0/1 value of a decision diagram.
func (c *Ctx) BitPoly(b Ref) *Poly {
	if b == True {
		return c.onep
	}
	if b == False {
		return c.zero
	}
	if v, neg, ok := c.literal(b); ok {
		o := c.owners[v]
		if o.p != nil {
			s := c.slice(o.p, uint(o.bit), uint(o.bit)+1)
			if neg {
				return c.SubP(c.onep, s)
			}
			return s
		}
	}
	if b&1 == 1 {
		return c.SubP(c.onep, c.BitPoly(b^1))
	}
	a, ok := c.bitAtoms[b]
	if !ok {
		a = c.newAtom(&Atom{kind: aBit, b: b, lo: new(big.Int), hi: big.NewInt(1)})
		c.bitAtoms[b] = a
	}
	return c.atomPoly(a)
}

// slice is bits i..j-1 of p as a number.
func (c *Ctx) slice(p *Poly, i, j uint) *Poly {
	return c.SubP(c.shrRaw(p, i), c.shl(c.shrRaw(p, j), j-i))
}

// shrRaw is the floor shift of an owner polynomial, simplified only by range.
func (c *Ctx) shrRaw(p *Poly, k uint) *Poly {
	if k == 0 {
		return p
	}
	return c.Shr(p, k)
}

func floorShr(v *big.Int, k uint) *big.Int { return new(big.Int).Rsh(v, k) } // Rsh floors for negatives

// Range returns an interval that contains every value of p.
func (c *Ctx) Range(p *Poly) (lo, hi *big.Int) {
	if p.rng {
		return p.lo, p.hi
	}
	c.rngWork = 0
	lo, hi = c.rangeOf(p, 0)
	if p.lo != nil { // recorded facts
		if p.lo.Cmp(lo) > 0 {
			lo = p.lo
		}
		if p.hi.Cmp(hi) < 0 {
			hi = p.hi
		}
	}
	p.lo, p.hi, p.rng = lo, hi, true
	return
}

func monoRange(m *Mono) (lo, hi *big.Int) {
	lo, hi = big.NewInt(1), big.NewInt(1)
	for i := 0; i < len(m.atoms); {
		a := m.atoms[i]
		n := 1
		for i+n < len(m.atoms) && m.atoms[i+n] == a {
			n++
		}
		al, ah := a.lo, a.hi
		if n > 1 {
			e := big.NewInt(int64(n))
			l, h := new(big.Int).Exp(al, e, nil), new(big.Int).Exp(ah, e, nil)
			if n%2 == 0 {
				if l.Cmp(h) > 0 {
					l, h = h, l
				}
				if al.Sign() < 0 && ah.Sign() > 0 {
					l = new(big.Int)
				}
			}
			al, ah = l, h
		}
		lo, hi = mulRange(lo, hi, al, ah)
		i += n
	}
	return
}

func mulRange(a, b, c, d *big.Int) (lo, hi *big.Int) {
	ps := [4]*big.Int{new(big.Int).Mul(a, c), new(big.Int).Mul(a, d), new(big.Int).Mul(b, c), new(big.Int).Mul(b, d)}
	lo, hi = ps[0], ps[0]
	for _, p := range ps[1:] {
		if p.Cmp(lo) < 0 {
			lo = p
		}
		if p.Cmp(hi) > 0 {
			hi = p
		}
	}
	return
}

func (c *Ctx) naiveRange(terms []Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, t := range terms {
		l, h := monoRange(t.m)
		l, h = mulRange(l, h, t.c, t.c)
		lo.Add(lo, l)
		hi.Add(hi, h)
	}
	return
}

func (c *Ctx) rangeOf(p *Poly, depth int) (lo, hi *big.Int) {
	lo, hi = c.naiveRange(p.terms)
	if len(p.terms) < 2 {
		return
	}
	// exact bit weights over leaves
	weighed := false
	if l, h, ok := c.weightRange(p); ok {
		weighed = true
		if l.Cmp(lo) > 0 {
			lo = l
		}
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	if depth > 6 {
		return
	}
	// a bit that selects among larger terms: both sides
	if depth < 4 && c.rngWork < 200 {
		for _, t := range p.terms {
			if t.m.bit == nil || len(t.m.atoms) < 2 {
				continue
			}
			b := t.m.bit.b
			l1, h1 := c.rangeMemo(c.assume(p, b), depth+1)
			l0, h0 := c.rangeMemo(c.assume(p, b.not()), depth+1)
			if l0.Cmp(l1) < 0 {
				l1 = l0
			}
			if h0.Cmp(h1) > 0 {
				h1 = h0
			}
			if l1.Cmp(lo) > 0 {
				lo = l1
			}
			if h1.Cmp(hi) < 0 {
				hi = h1
			}
			break
		}
	}
	// c*(q - 2^k*Shr(q,k)) lies in c*[0,2^k-1]
	for i := len(p.terms) - 1; i >= 0; i-- {
		t := p.terms[i]
		if len(t.m.atoms) != 1 || t.m.atoms[0].kind != aShr {
			continue
		}
		a := t.m.atoms[0]
		if weighed && c.isOwner(a.p) {
			continue // the bit weights already relate it to its source
		}
		if trailingZeros(t.c) < a.k {
			continue
		}
		k := new(big.Int).Rsh(new(big.Int).Neg(t.c), a.k) // c
		// remainder r = p - c*q + c*2^k*Shr
		r := c.lin(c.lin(p, a.p, new(big.Int).Neg(k)), c.atomPoly(a), new(big.Int).Neg(t.c))
		if len(r.terms) >= len(p.terms) {
			continue
		}
		rl, rh := c.rangeMemo(r, depth+1)
		if k.Sign() > 0 {
			rh = new(big.Int).Add(rh, new(big.Int).Mul(k, pow2m1(a.k)))
		} else {
			rl = new(big.Int).Add(rl, new(big.Int).Mul(k, pow2m1(a.k)))
		}
		if rl.Cmp(lo) > 0 {
			lo = rl
		}
		if rh.Cmp(hi) < 0 {
			hi = rh
		}
	}
	return
}

func (c *Ctx) rangeMemo(p *Poly, depth int) (lo, hi *big.Int) {
	if p.rng {
		return p.lo, p.hi
	}
	if r, ok := c.rngMemo[p.id]; ok {
		return r[0], r[1]
	}
	if c.rngWork > 300 {
		return c.naiveRange(p.terms)
	}
	c.rngWork++
	lo, hi = c.rangeOf(p, depth)
	c.rngMemo[p.id] = [2]*big.Int{lo, hi}
	return lo, hi
}

func trailingZeros(v *big.Int) uint {
	if v.Sign() == 0 {
		return 1 << 20
	}
	return v.TrailingZeroBits()
}

// weightForm writes p as const + sum of weights over distinct bits, if p is
// linear over atoms whose bits are known. The bits are BDD refs.
type wbit struct {
	b Ref
	w *big.Int
}

// ownerBits returns the bits of an unsigned atom-like polynomial, naming them if needed.
func (c *Ctx) ownerBits(p *Poly) []Ref {
	if p.ownb == nil {
		lo, hi := c.Range(p)
		if lo.Sign() < 0 {
			return nil
		}
		n := hi.BitLen()
		p.ownb = make([]Ref, n)
		for i := range p.ownb {
			p.ownb[i] = c.newVar(bitOwner{p: p, bit: i})
		}
	}
	return p.ownb
}

// weights of p over owner bits, keyed by (owner poly, bit); name controls
// whether unnamed owners may be given bit variables.
type bitRef struct {
	p *Poly
	i int
	b Ref // for aBit atoms, p == nil
}

func (c *Ctx) weights(p *Poly) (w map[bitRef]*big.Int, k *big.Int, ok bool) {
	w = map[bitRef]*big.Int{}
	k = new(big.Int)
	for _, t := range p.terms {
		switch len(t.m.atoms) {
		case 0:
			k.Add(k, t.c)
			continue
		case 1:
		default:
			return nil, nil, false
		}
		a := t.m.atoms[0]
		var owner *Poly
		sh := 0
		switch a.kind {
		case aBit:
			addw(w, bitRef{b: a.b}, t.c)
			continue
		case aLeaf:
			owner = c.atomPoly(a)
		case aShr:
			owner = a.p
			sh = int(a.k)
			if !c.isOwner(owner) {
				owner = c.atomPoly(a)
				sh = 0
			}
		}
		lo, hi := c.Range(owner)
		if lo.Sign() < 0 || hi.BitLen() > 4096 {
			return nil, nil, false
		}
		n := hi.BitLen()
		cc := new(big.Int).Set(t.c)
		for i := sh; i < n; i++ {
			addw(w, bitRef{p: owner, i: i}, cc)
			cc = new(big.Int).Lsh(cc, 1)
		}
	}
	for r, v := range w {
		if v.Sign() == 0 {
			delete(w, r)
		}
	}
	return w, k, true
}

// isOwner: leaves own their bits; other polynomials do once they were named.
func (c *Ctx) isOwner(p *Poly) bool {
	if p.ownb != nil {
		return true
	}
	if len(p.terms) == 1 && len(p.terms[0].m.atoms) == 1 && p.terms[0].m.atoms[0].kind == aLeaf && p.terms[0].c.Cmp(big1) == 0 {
		return p.terms[0].m.atoms[0].lo.Sign() >= 0
	}
	return false
}

func addw(w map[bitRef]*big.Int, r bitRef, c *big.Int) {
	if v, ok := w[r]; ok {
		v.Add(v, c)
	} else {
		w[r] = new(big.Int).Set(c)
	}
}

func (c *Ctx) weightRange(p *Poly) (lo, hi *big.Int, ok bool) {
	for _, t := range p.terms {
		if len(t.m.atoms) > 1 {
			return nil, nil, false
		}
	}
	w, k, ok := c.weights(p)
	if !ok {
		return nil, nil, false
	}
	lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
	for _, v := range w {
		if v.Sign() > 0 {
			hi.Add(hi, v)
		} else {
			lo.Add(lo, v)
		}
	}
	return lo, hi, true
}

func (c *Ctx) refOf(r bitRef) Ref {
	if r.p == nil {
		return r.b
	}
	bs := c.ownerBits(r.p)
	return bs[r.i]
}

// placed decomposes p into bits by placement alone (no carries). Returns nil if impossible.
func (c *Ctx) placed(p *Poly) []Ref {
	if p.bits != nil {
		return p.bits
	}
	if p.bitsNo {
		return nil
	}
	r := c.placed0(p)
	if r == nil {
		p.bitsNo = true
	} else {
		p.bits = r
	}
	return r
}

func (c *Ctx) placed0(p *Poly) []Ref {
	w, k, ok := c.weights(p)
	if !ok {
		return nil
	}
	n := 0
	// negative weights of single bits: -w*b = -w + w*(1-b)
	type pl struct {
		r   bitRef
		neg bool
		w   *big.Int
	}
	var ps []pl
	k = new(big.Int).Set(k)
	for r, v := range w {
		neg := false
		if v.Sign() < 0 {
			k.Add(k, v)
			v = new(big.Int).Neg(v)
			neg = true
		}
		if v.BitLen() > n {
			n = v.BitLen()
		}
		if v.BitLen()-1 == int(v.TrailingZeroBits()) {
			ps = append(ps, pl{r, neg, v})
			continue
		}
		for i := int(v.TrailingZeroBits()); i < v.BitLen(); i++ { // one bit in several places
			if v.Bit(i) == 1 {
				ps = append(ps, pl{r, neg, pow2(uint(i))})
			}
		}
	}
	if k.Sign() < 0 {
		return nil
	}
	if k.BitLen() > n {
		n = k.BitLen()
	}
	out := make([]Ref, n)
	used := make([]bool, n)
	for i := range out {
		out[i] = False
		if k.Bit(i) == 1 {
			out[i] = True
			used[i] = true
		}
	}
	for _, x := range ps {
		i := x.w.BitLen() - 1
		if used[i] {
			return nil
		}
		used[i] = true
	}
	for _, x := range ps {
		b := c.refOf(x.r)
		if x.neg {
			b = b.not()
		}
		out[x.w.BitLen()-1] = b
	}
	return out
}

// Bits returns the low w bits of a non-negative value; the value is named bit
// by bit when it cannot be decomposed.
func (c *Ctx) Bits(p *Poly, w uint) []Ref {
	out := make([]Ref, w)
	b := c.bitsMin(p)
	if b == nil {
		return nil
	}
	for i := range out {
		out[i] = False
		if i < len(b) {
			out[i] = b[i]
		}
	}
	return out
}

func (c *Ctx) bitsMin(p *Poly) []Ref {
	if b := c.placed(p); b != nil {
		return b
	}
	if lo, _ := c.Range(p); lo.Sign() < 0 {
		return nil
	}
	if p.ownb != nil {
		return p.ownb
	}
	if b := c.adder(p); b != nil {
		p.bits = b
		return b
	}
	if lo, _ := c.Range(p); lo.Sign() < 0 {
		return nil
	}
	b := c.ownerBits(p)
	if b == nil {
		return nil
	}
	p.bits = b
	if len(b) == 0 {
		p.bits = []Ref{}
	}
	return b
}

// adder sums weighted bits column by column when few variables are involved.
func (c *Ctx) adder(p *Poly) []Ref {
	w, k, ok := c.weights(p)
	if !ok {
		return nil
	}
	vars := map[int32]bool{}
	for r := range w {
		for _, v := range c.Support(c.refOf(r)) {
			vars[v] = true
		}
		if len(vars) > 26 {
			return nil
		}
	}
	_, hi := c.Range(p)
	n := hi.BitLen()
	out := make([]Ref, n)
	for i := range out {
		out[i] = False
		if k.Bit(i) == 1 { // big.Int.Bit works on two's complement for negatives
			out[i] = True
		}
	}
	ok = c.soft(200000, func() {
		keys := make([]bitRef, 0, len(w))
		for r := range w {
			keys = append(keys, r)
		}
		sort.Slice(keys, func(i, j int) bool { return c.refOf(keys[i]) < c.refOf(keys[j]) })
		for _, r := range keys {
			v := w[r]
			b := c.refOf(r)
			carry := False
			for i := 0; i < n; i++ {
				x := False
				if v.Bit(i) == 1 {
					x = b
				}
				s := c.Xor(c.Xor(out[i], x), carry)
				carry = c.Or(c.And(out[i], x), c.And(carry, c.Xor(out[i], x)))
				out[i] = s
			}
		}
	})
	if !ok {
		return nil
	}
	return out
}

// FromBits is the number with the given bits.
func (c *Ctx) FromBits(bits []Ref) *Poly {
	a := acc{}
	for i := 0; i < len(bits); {
		b := bits[i]
		if b == False {
			i++
			continue
		}
		// run of consecutive bits of one owner
		if v, neg, ok := c.literal(b); ok && !neg && c.owners[v].p != nil {
			o := c.owners[v]
			j := 1
			for i+j < len(bits) {
				v2, n2, ok2 := c.literal(bits[i+j])
				if !ok2 || n2 || c.owners[v2].p != o.p || c.owners[v2].bit != o.bit+j {
					break
				}
				j++
			}
			a.addPoly(c.slice(o.p, uint(o.bit), uint(o.bit+j)), pow2(uint(i)))
			i += j
			continue
		}
		a.addPoly(c.BitPoly(b), pow2(uint(i)))
		i++
	}
	r := c.fromAcc(a)
	if r.bits == nil {
		bb := append([]Ref{}, bits...)
		for len(bb) > 0 && bb[len(bb)-1] == False {
			bb = bb[:len(bb)-1]
		}
		if bb == nil {
			bb = []Ref{}
		}
		r.bits = bb
	}
	if !r.rng {
		c.Range(r)
	}
	if m := pow2m1(uint(len(bits))); r.hi.Cmp(m) > 0 {
		r.hi = m
	}
	if r.lo.Sign() < 0 {
		r.lo = new(big.Int)
	}
	return r
}

// Shr is floor(p / 2^k).
func (c *Ctx) Shr(p *Poly, k uint) *Poly {
	if k == 0 {
		return p
	}
	if v, ok := p.isConst(); ok {
		return c.constBig(floorShr(v, k))
	}
	key := shrKey{p.id, k}
	if r, ok := c.shrCache[key]; ok {
		return r
	}
	r := c.shr0(p, k)
	if c.limbs {
		c.note(c.SubP(p, c.shl(r, k)), new(big.Int), pow2m1(k))
		lo, hi := c.Range(p)
		c.note(r, floorShr(lo, k), floorShr(hi, k))
	}
	c.shrCache[key] = r
	return r
}

func (c *Ctx) shr0(p *Poly, k uint) *Poly {
	lo, hi := c.Range(p)
	fl, fh := floorShr(lo, k), floorShr(hi, k)
	if fl.Cmp(fh) == 0 {
		return c.constBig(fl)
	}
	if c.isOwner(p) {
		return c.shrAtom(p, k)
	}
	if c.vector(p) {
		if int(k) >= len(p.bits) {
			return c.zero
		}
		return c.FromBits(p.bits[k:])
	}
	// p = 2^k*A + B
	var A, B []Term
	for _, t := range p.terms {
		if len(t.m.atoms) == 0 {
			q := floorShr(t.c, k)
			r := new(big.Int).Sub(t.c, new(big.Int).Lsh(q, k))
			if q.Sign() != 0 {
				A = append(A, Term{t.m, q})
			}
			if r.Sign() != 0 {
				B = append(B, Term{t.m, r})
			}
			continue
		}
		if trailingZeros(t.c) >= k {
			A = append(A, Term{t.m, floorShr(t.c, k)})
		} else {
			B = append(B, t)
		}
	}
	if len(A) > 0 {
		return c.AddP(c.mk(A), c.Shr(c.mk(B), k))
	}
	// a bit vector shifts by dropping bits
	if b := c.placed(p); b != nil {
		if int(k) >= len(b) {
			return c.zero
		}
		return c.FromBits(b[k:])
	}
	// drop a low part L in [0,2^j) below terms that are multiples of 2^j
	vals := map[uint]bool{}
	for _, t := range p.terms {
		if v := trailingZeros(t.c); v > 0 && v < k {
			vals[v] = true
		}
	}
	var js []uint
	for v := range vals {
		js = append(js, v)
	}
	sort.Slice(js, func(i, j int) bool { return js[i] > js[j] })
	for _, j := range js {
		var L, H []Term
		for _, t := range p.terms {
			if len(t.m.atoms) == 0 {
				q := floorShr(t.c, j)
				r := new(big.Int).Sub(t.c, new(big.Int).Lsh(q, j))
				if q.Sign() != 0 {
					H = append(H, Term{t.m, q})
				}
				if r.Sign() != 0 {
					L = append(L, Term{t.m, r})
				}
				continue
			}
			if trailingZeros(t.c) >= j {
				H = append(H, Term{t.m, floorShr(t.c, j)})
			} else {
				L = append(L, t)
			}
		}
		l, h := c.Range(c.mk(L))
		if l.Sign() >= 0 && h.Cmp(pow2(j)) < 0 {
			return c.Shr(c.mk(H), k-j)
		}
	}
	// Shr(Shr(q,a),k)
	if len(p.terms) == 1 && len(p.terms[0].m.atoms) == 1 && p.terms[0].c.Cmp(big1) == 0 {
		if a := p.terms[0].m.atoms[0]; a.kind == aShr {
			return c.Shr(a.p, a.k+k)
		}
	}
	// borrow: Shr in {-1,0} is minus the truth of p<0
	if fl.Cmp(bigm1) == 0 && fh.Sign() == 0 && !c.carries {
		return c.scale(c.BitPoly(c.Less0(p)), bigm1)
	}
	// a condition without which the result is constant
	if len(p.terms) <= 64 {
		seen := map[Ref]bool{}
		for _, t := range p.terms {
			if t.m.bit == nil || seen[t.m.bit.b] {
				continue
			}
			b := t.m.bit.b
			seen[b] = true
			p1, p0 := c.assume(p, b), c.assume(p, b.not())
			l1, h1 := c.Range(p1)
			l0, h0 := c.Range(p0)
			k1 := floorShr(l1, k).Cmp(floorShr(h1, k)) == 0
			k0 := floorShr(l0, k).Cmp(floorShr(h0, k)) == 0
			if k1 || k0 {
				return c.Select(b, c.Shr(p1, k), c.Shr(p0, k))
			}
		}
	}
	return c.shrAtom(p, k)
}

func (c *Ctx) shrAtom(p *Poly, k uint) *Poly {
	key := shrKey{p.id, k}
	a, ok := c.shrs[key]
	if !ok {
		lo, hi := c.Range(p)
		a = c.newAtom(&Atom{kind: aShr, p: p, k: k, lo: floorShr(lo, k), hi: floorShr(hi, k)})
		c.shrs[key] = a
	}
	return c.atomPoly(a)
}

// LowMask is p mod 2^k, in [0,2^k).
func (c *Ctx) LowMask(p *Poly, k uint) *Poly {
	if c.vector(p) {
		if int(k) >= len(p.bits) {
			return p
		}
		return c.FromBits(p.bits[:k])
	}
	r := c.SubP(p, c.shl(c.Shr(p, k), k))
	c.note(r, new(big.Int), pow2m1(k))
	return r
}

// note records a known range for a value.
func (c *Ctx) note(p *Poly, lo, hi *big.Int) {
	if _, ok := p.isConst(); ok {
		return
	}
	l, h := c.Range(p)
	if lo.Cmp(l) > 0 {
		p.lo = lo
	}
	if hi.Cmp(h) < 0 {
		p.hi = hi
	}
}

// Wrap brings p into the range of a machine type.
func (c *Ctx) Wrap(p *Poly, w uint, signed bool) *Poly {
	lo, hi := c.Range(p)
	if !signed {
		if lo.Sign() >= 0 && hi.BitLen() <= int(w) {
			return p
		}
		if lo.Sign() < 0 && len(p.terms) <= 3 && w <= 64 {
			// -b for a single bit b: all ones or zero
			if b := c.placed(c.scale(p, bigm1)); len(b) == 1 {
				r := c.scale(c.BitPoly(b[0]), pow2m1(w))
				c.note(r, new(big.Int), pow2m1(w))
				return r
			}
		}
		return c.LowMask(p, w)
	}
	min, max := new(big.Int).Neg(pow2(w-1)), pow2m1(w-1)
	if lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0 {
		return p
	}
	h := c.AddP(p, c.constBig(pow2(w-1)))
	r := c.SubP(p, c.shl(c.Shr(h, w), w))
	c.note(r, min, max)
	return r
}

// WrapUnder is Wrap where g holds: a value that g bounds within the type stays
// as it is.
func (c *Ctx) WrapUnder(g Ref, p *Poly, w uint, signed bool) *Poly {
	if g == True || p.hasBit() || !p.linear() {
		return c.Wrap(p, w, signed)
	}
	lo, hi := c.Range(p)
	min, max := typeRange(w, signed)
	if lo.Cmp(min) >= 0 && hi.Cmp(max) <= 0 {
		return p
	}
	var rest []Term
	gcd := new(big.Int)
	for _, t := range p.terms {
		if len(t.m.atoms) > 0 {
			rest = append(rest, t)
			gcd.GCD(nil, nil, gcd, new(big.Int).Abs(t.c))
		}
	}
	if len(rest) == 0 {
		return c.Wrap(p, w, signed)
	}
	if rest[len(rest)-1].c.Sign() < 0 {
		gcd.Neg(gcd)
	}
	div := make([]Term, len(rest))
	for i, x := range rest {
		div[i] = Term{x.m, new(big.Int).Quo(x.c, gcd)}
	}
	if len(c.cuts[c.mk(div).id]) == 0 {
		return c.Wrap(p, w, signed)
	}
	if c.And(g, c.Less0(c.SubP(p, c.constBig(min)))) == False && c.And(g, c.Less0(c.SubP(c.constBig(max), p))) == False {
		return p
	}
	return c.Wrap(p, w, signed)
}

// AndConst is p & m for a non-negative constant m (two's complement for negative p).
func (c *Ctx) AndConst(p *Poly, m *big.Int) *Poly {
	if c.vector(p) {
		out := make([]Ref, len(p.bits))
		for i := range out {
			out[i] = False
			if m.Bit(i) == 1 {
				out[i] = p.bits[i]
			}
		}
		return c.FromBits(out)
	}
	r := c.zero
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		s := c.SubP(c.Shr(p, uint(i)), c.shl(c.Shr(p, uint(j)), uint(j-i)))
		c.note(s, new(big.Int), pow2m1(uint(j-i)))
		r = c.AddP(r, c.shl(s, uint(i)))
		i = j
	}
	c.note(r, new(big.Int), m)
	return r
}

func (c *Ctx) val2(p *Poly) uint {
	m := uint(1 << 20)
	for _, t := range p.terms {
		if v := trailingZeros(t.c); v < m {
			m = v
		}
	}
	return m
}

// Bitwise computes and/or/xor of two values of width w held unsigned.
func (c *Ctx) Bitwise(op byte, p, q *Poly, w uint) *Poly {
	if _, ok := p.isConst(); ok {
		p, q = q, p
	}
	if p == q {
		if op == '^' {
			return c.zero
		}
		return p
	}
	if _, isK := q.isConst(); c.coarse && !isK && w > 8 && op == '^' {
		// units about ranges and reachability only: forget the bits
		return c.leafBits(fmt.Sprintf("%d^%d", p.id, q.id), w)
	}
	if m, ok := q.isConst(); ok && (c.vector(p) || op != '&' && c.narrow(p) && len(c.placed(p)) > 0) && m.Sign() >= 0 && m.BitLen() <= int(w) && len(p.bits) <= int(w) {
		out := make([]Ref, w)
		for i := range out {
			x, y := False, m.Bit(i) == 1
			if i < len(p.bits) {
				x = p.bits[i]
			}
			switch {
			case op == '&' && !y:
				x = False
			case op == '|' && y:
				x = True
			case op == '^' && y:
				x = x.not()
			}
			out[i] = x
		}
		return c.FromBits(out)
	}
	if m, ok := q.isConst(); ok {
		a := c.AndConst(p, m)
		switch op {
		case '&':
			return a
		case '|':
			r := c.SubP(c.AddP(p, q), a)
			c.note(r, new(big.Int), pow2m1(w))
			return r
		case '^':
			r := c.SubP(c.AddP(p, q), c.shl(a, 1))
			c.note(r, new(big.Int), pow2m1(w))
			return r
		}
	}
	// disjoint bits
	_, hp := c.Range(p)
	_, hq := c.Range(q)
	if c.val2(p) >= uint(hq.BitLen()) || c.val2(q) >= uint(hp.BitLen()) {
		if op == '&' {
			return c.zero
		}
		r := c.AddP(p, q)
		if r.bits == nil && c.narrow(p) && c.narrow(q) {
			if x, y := c.placed(p), c.placed(q); x != nil && y != nil {
				n := len(x)
				if len(y) > n {
					n = len(y)
				}
				out := make([]Ref, n)
				for i := range out {
					out[i] = False
					if i < len(x) {
						out[i] = x[i]
					}
					if i < len(y) && y[i] != False {
						out[i] = y[i]
					}
				}
				r.bits = out
				c.note(r, new(big.Int), pow2m1(uint(n)))
			}
		}
		return r
	}
	bp, bq := c.Bits(p, w), c.Bits(q, w)
	if bp == nil || bq == nil {
		return nil
	}
	out := make([]Ref, w)
	for i := range out {
		switch op {
		case '&':
			out[i] = c.And(bp[i], bq[i])
		case '|':
			out[i] = c.Or(bp[i], bq[i])
		case '^':
			out[i] = c.Xor(bp[i], bq[i])
		}
	}
	return c.FromBits(out)
}

// hasBit reports whether p mentions decision-diagram bits, or bits of owners
// used one by one.
func (p *Poly) hasBit() bool {
	for _, t := range p.terms {
		if t.m.bit != nil {
			return true
		}
	}
	return false
}

func (p *Poly) linear() bool {
	for _, t := range p.terms {
		if len(t.m.atoms) > 1 {
			return false
		}
	}
	return true
}

// Select is p where g holds and q elsewhere.
func (c *Ctx) Select(g Ref, p, q *Poly) *Poly {
	if g == True || p == q {
		return p
	}
	if g == False {
		return q
	}
	if g&1 == 1 {
		g, p, q = g^1, q, p
	}
	key := [3]int{int(g), p.id, q.id}
	if r, ok := c.iteCache[key]; ok {
		return r
	}
	r := c.select0(g, p, q)
	c.iteCache[key] = r
	return r
}

func (c *Ctx) select0(g Ref, p, q *Poly) *Poly {
	_, cp := p.isConst()
	_, cq := q.isConst()
	if !(cp && cq) && p.linear() && q.linear() {
		_, hp := c.Range(p)
		_, hq := c.Range(q)
		lp, _ := c.Range(p)
		lq, _ := c.Range(q)
		n := hp.BitLen()
		if hq.BitLen() > n {
			n = hq.BitLen()
		}
		if lp.Sign() >= 0 && lq.Sign() >= 0 && (n <= 32 || p.hasBit() || q.hasBit()) {
			var bp, bq []Ref
			if bp = c.placed(p); bp == nil {
				bp = c.adder(p)
			}
			if bp != nil {
				if bq = c.placed(q); bq == nil {
					bq = c.adder(q)
				}
			}
			if bp != nil && bq != nil {
				var r *Poly
				ok := c.soft(2_000_000, func() {
					m := len(bp)
					if len(bq) > m {
						m = len(bq)
					}
					out := make([]Ref, m)
					for i := range out {
						x, y := False, False
						if i < len(bp) {
							x = bp[i]
						}
						if i < len(bq) {
							y = bq[i]
						}
						out[i] = c.Ite(g, x, y)
					}
					r = c.FromBits(out)
				})
				if ok {
					h := hp
					if hq.Cmp(h) > 0 {
						h = hq
					}
					l := lp
					if lq.Cmp(l) < 0 {
						l = lq
					}
					c.note(r, l, h)
					return r
				}
			}
		}
	}
	r := c.AddP(q, c.MulP(c.BitPoly(g), c.SubP(p, q)))
	lp, hp := c.Range(p)
	lq, hq := c.Range(q)
	if lq.Cmp(lp) < 0 {
		lp = lq
	}
	if hq.Cmp(hp) > 0 {
		hp = hq
	}
	c.note(r, lp, hp)
	return r
}

// Pred is a named opaque truth value.
func (c *Ctx) Pred(name string) Ref {
	if r, ok := c.preds[name]; ok {
		return r
	}
	r := c.newVar(bitOwner{name: name})
	c.preds[name] = r
	return r
}

// Less0 is the condition d < 0.
func (c *Ctx) Less0(d *Poly) Ref { return c.cmp0(d, true) }

// Eq0 is the condition d == 0.
func (c *Ctx) Eq0(d *Poly) Ref { return c.cmp0(d, false) }

// EqP is the truth of p == q. Values known bit by bit are compared bit by
// bit; a conjunction too large to write out is named by its set of bits.
func (c *Ctx) EqP(p, q *Poly) Ref {
	if p == q {
		return True
	}
	if len(p.bits) == 0 {
		p, q = q, p
	}
	_, qc := q.isConst()
	if !c.vector(p) || !qc && !c.vector(q) {
		return c.Eq0(c.SubP(p, q))
	}
	if !p.hasBit() && !q.hasBit() {
		return c.Eq0(c.SubP(p, q))
	}
	qb := q.bits
	if k, ok := q.isConst(); ok {
		if k.Sign() < 0 || k.BitLen() > len(p.bits) {
			return False
		}
		qb = make([]Ref, len(p.bits))
		for i := range qb {
			qb[i] = False
			if k.Bit(i) == 1 {
				qb[i] = True
			}
		}
	}
	n := len(p.bits)
	if len(qb) > n {
		n = len(qb)
	}
	set := map[Ref]bool{}
	for i := 0; i < n; i++ {
		x, y := False, False
		if i < len(p.bits) {
			x = p.bits[i]
		}
		if i < len(qb) {
			y = qb[i]
		}
		e := c.Xor(x, y).not()
		if e == False || set[e.not()] {
			return False
		}
		if e != True {
			set[e] = true
		}
	}
	return c.allOf(set)
}

func (c *Ctx) allOf(set map[Ref]bool) Ref {
	var rs []Ref
	for r := range set {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	key := "#all"
	for _, r := range rs {
		key += fmt.Sprintf(",%d", r)
	}
	if r, ok := c.preds[key]; ok {
		return r
	}
	var r Ref
	if !c.soft(50000, func() {
		r = True
		for _, x := range rs {
			r = c.And(r, x)
		}
	}) {
		r = c.allCare(rs)
	}
	c.preds[key] = r
	return r
}

// allCare names a conjunction that is too large to expand, by what its parts
// are where the unit's assumptions hold.
func (c *Ctx) allCare(rs []Ref) Ref {
	if c.care != True {
		set := map[Ref]bool{}
		for _, r := range rs {
			r = c.And(r, c.care)
			if r == False {
				return False
			}
			if r != c.care {
				set[r] = true
			}
		}
		rs = rs[:0:0]
		for r := range set {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	}
	key := "#all"
	for _, r := range rs {
		key += fmt.Sprintf(",%d", r)
	}
	return c.Pred(key)
}

func (c *Ctx) cmp0(d *Poly, less bool) Ref {
	lo, hi := c.Range(d)
	if less {
		if hi.Sign() < 0 {
			return True
		}
		if lo.Sign() >= 0 {
			return False
		}
	} else {
		if len(d.terms) == 0 {
			return True
		}
		if lo.Sign() > 0 || hi.Sign() < 0 {
			return False
		}
		if !c.gcdOK(d) {
			return False
		}
	}
	ck := fmt.Sprintf("#cmp:%v:%d", less, d.id)
	if r, ok := c.preds[ck]; ok {
		return r
	}
	r := c.cmp1(d, less)
	c.preds[ck] = r
	return r
}

func (c *Ctx) gcdOK(d *Poly) bool {
	g := new(big.Int)
	k := new(big.Int)
	for _, t := range d.terms {
		if len(t.m.atoms) == 0 {
			k = t.c
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Sign() == 0 {
		return true
	}
	return new(big.Int).Mod(k, g).Sign() == 0
}

func (c *Ctx) cmp1(d *Poly, less bool) Ref {
	// Shannon expansion on bits multiplied with other atoms
	for _, t := range d.terms {
		if t.m.bit != nil && len(t.m.atoms) > 1 {
			b := t.m.bit.b
			return c.Ite(b, c.cmp0(c.assume(d, b), less), c.cmp0(c.assume(d, b.not()), less))
		}
	}
	if d.linear() {
		var r Ref
		ok := false
		if c.soft(100000, func() { r, ok = c.threshold(d, less) }) && ok {
			return r
		}
		// a predicate, expanded over explicit bits first
		for _, t := range d.terms {
			if t.m.bit != nil {
				b := t.m.bit.b
				if len(c.Support(b)) <= 12 {
					return c.Ite(b, c.cmp0(c.assume(d, b), less), c.cmp0(c.assume(d, b.not()), less))
				}
			}
		}
	}
	// canonical sign: d<0 is not(-d-1 < 0); eq is symmetric
	if d.terms[len(d.terms)-1].c.Sign() < 0 {
		if less {
			return c.cmp0(c.SubP(c.scale(d, bigm1), c.onep), true).not()
		}
		return c.cmp0(c.scale(d, bigm1), false)
	}
	return c.order(d, less)
}

// cut is one threshold q < t of a value q that is only known by comparisons.
type cut struct {
	t *big.Int
	r Ref
}

// order names the comparison of d with 0 by thresholds of d without its
// constant part. Thresholds of one value imply each other in order.
func (c *Ctx) order(d *Poly, less bool) Ref {
	k, g := new(big.Int), new(big.Int)
	var rest []Term
	for _, t := range d.terms {
		if len(t.m.atoms) == 0 {
			k = t.c
			continue
		}
		rest = append(rest, t)
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	q := c.mk(rest)
	t := new(big.Int).Neg(k) // q < t, q == t
	if g.Cmp(big1) > 0 {
		div := make([]Term, len(rest))
		for i, x := range rest {
			div[i] = Term{x.m, new(big.Int).Quo(x.c, g)}
		}
		q = c.mk(div)
		// ceil(t/g); an equality has passed gcdOK, so there t is a multiple
		t = new(big.Int).Add(t, new(big.Int).Sub(g, big1))
		t.Div(t, g)
	}
	below := c.cut(q, t)
	if less {
		return below
	}
	return c.And(c.cut(q, new(big.Int).Add(t, big1)), below.not())
}

func (c *Ctx) cut(q *Poly, t *big.Int) Ref {
	lo, hi := c.Range(q)
	if t.Cmp(lo) <= 0 {
		return False
	}
	if t.Cmp(hi) > 0 {
		return True
	}
	if len(q.terms) == 1 && len(q.terms[0].m.atoms) == 1 && q.terms[0].c.Cmp(big1) == 0 {
		if a := q.terms[0].m.atoms[0]; a.kind == aShr { // floor(p/2^k) < t exactly when p < t*2^k
			return c.Less0(c.SubP(a.p, c.constBig(new(big.Int).Lsh(t, a.k))))
		}
	}
	l := c.cuts[q.id]
	i := sort.Search(len(l), func(i int) bool { return l[i].t.Cmp(t) >= 0 })
	if i < len(l) && l[i].t.Cmp(t) == 0 {
		return l[i].r
	}
	r := c.newVar(bitOwner{name: fmt.Sprintf("%s < %v", q.full(), t)})
	if i < len(l) {
		r = c.And(l[i].r, r)
	}
	if i > 0 {
		r = c.Or(l[i-1].r, r)
	}
	r = c.relate(q, t, r)
	if len(l) == 0 {
		c.cutPolys = append(c.cutPolys, q)
	}
	l = append(l[:i:i], append([]cut{{t, r}}, l[i:]...)...)
	c.cuts[q.id] = l
	return r
}

// relate bounds a new threshold q < t by the thresholds of other values that
// differ from q (or from -q) by something of known range.
func (c *Ctx) relate(q *Poly, t *big.Int, r Ref) Ref {
	if len(q.terms) < 2 || len(q.terms) > 200 {
		return r
	}
	in := map[*Mono]bool{}
	for _, x := range q.terms {
		in[x.m] = true
	}
	from := 0
	if len(c.cutPolys) > 200 {
		from = len(c.cutPolys) - 200
	}
	for _, p := range c.cutPolys[from:] {
		if p == q || len(p.terms) > 200 {
			continue
		}
		shared := 0
		for _, x := range p.terms {
			if in[x.m] {
				shared++
			}
		}
		if shared == 0 {
			continue
		}
		for _, neg := range []bool{false, true} {
			d := c.SubP(q, p)
			if neg {
				d = c.AddP(q, p)
			}
			if len(d.terms) > len(q.terms)+len(p.terms)-shared-1 {
				continue
			}
			lo, hi := c.Range(d)
			l := c.cuts[p.id]
			if !neg {
				b := new(big.Int).Sub(t, lo) // q < t needs p < b
				if i := sort.Search(len(l), func(i int) bool { return l[i].t.Cmp(b) >= 0 }); i < len(l) {
					r = c.And(r, l[i].r)
				}
				b = new(big.Int).Sub(t, hi) // p < b makes q < t
				if i := sort.Search(len(l), func(i int) bool { return l[i].t.Cmp(b) > 0 }); i > 0 {
					r = c.Or(r, l[i-1].r)
				}
			} else {
				b := new(big.Int).Sub(new(big.Int).Add(lo, big1), t) // q < t needs p >= b
				if i := sort.Search(len(l), func(i int) bool { return l[i].t.Cmp(b) > 0 }); i > 0 {
					r = c.And(r, l[i-1].r.not())
				}
				b = new(big.Int).Sub(new(big.Int).Add(hi, big1), t) // p >= b makes q < t
				if i := sort.Search(len(l), func(i int) bool { return l[i].t.Cmp(b) >= 0 }); i < len(l) {
					r = c.Or(r, l[i].r.not())
				}
			}
		}
	}
	return r
}

// assume replaces bits of d decided by b.
func (c *Ctx) assume(d *Poly, b Ref) *Poly {
	if b == True || !d.hasBit() {
		return d
	}
	r := c.zero
	for _, t := range d.terms {
		one := c.mk([]Term{t})
		if t.m.bit != nil {
			nb := c.Constrain(t.m.bit.b, b)
			if nb != t.m.bit.b {
				rest := c.mk([]Term{{c.mono(without(t.m, t.m.bit)), t.c}})
				one = c.MulP(c.BitPoly(nb), rest)
			}
		}
		r = c.AddP(r, one)
	}
	return r
}

// decided replaces the selecting bits of p that g decides.
func (c *Ctx) decided(p *Poly, g Ref) *Poly {
	if g == True {
		return p
	}
	any := false
	for _, t := range p.terms {
		if t.m.bit != nil && len(t.m.atoms) > 1 {
			any = true
			break
		}
	}
	if !any {
		return p
	}
	key := [2]int{p.id, int(g)}
	if r, ok := c.decCache[key]; ok {
		return r
	}
	var bits []Ref
	seen := map[Ref]bool{}
	for _, t := range p.terms {
		if t.m.bit != nil && len(t.m.atoms) > 1 && !seen[t.m.bit.b] {
			seen[t.m.bit.b] = true
			bits = append(bits, t.m.bit.b)
		}
	}
	r := p
	for _, b := range bits {
		if c.And(g, b) == False {
			r = c.assume(r, b.not())
		} else if c.And(g, b.not()) == False {
			r = c.assume(r, b)
		}
	}
	c.decCache[key] = r
	return r
}

// threshold builds the diagram of a linear comparison over bits.
func (c *Ctx) threshold(d *Poly, less bool) (Ref, bool) {
	w, k, ok := c.weights(d)
	if !ok {
		return 0, false
	}
	type wb struct {
		b Ref
		w *big.Int
	}
	var ws []wb
	for r, v := range w {
		ws = append(ws, wb{c.refOf(r), v})
	}
	if len(ws) > 700 {
		return 0, false
	}
	sort.Slice(ws, func(i, j int) bool {
		if x := ws[i].w.CmpAbs(ws[j].w); x != 0 {
			return x > 0
		}
		return ws[i].b < ws[j].b
	})
	n := len(ws)
	mins, maxs := make([]*big.Int, n+1), make([]*big.Int, n+1)
	mins[n], maxs[n] = new(big.Int), new(big.Int)
	gs := make([]uint, n+1)
	gs[n] = 1 << 20
	for i := n - 1; i >= 0; i-- {
		mins[i], maxs[i] = new(big.Int).Set(mins[i+1]), new(big.Int).Set(maxs[i+1])
		if ws[i].w.Sign() > 0 {
			maxs[i].Add(maxs[i], ws[i].w)
		} else {
			mins[i].Add(mins[i], ws[i].w)
		}
		gs[i] = gs[i+1]
		if z := trailingZeros(ws[i].w); z < gs[i] {
			gs[i] = z
		}
	}
	memo := map[string]Ref{}
	var rec func(i int, s *big.Int) Ref
	rec = func(i int, s *big.Int) Ref {
		lo := new(big.Int).Add(s, mins[i])
		hi := new(big.Int).Add(s, maxs[i])
		if less {
			if hi.Sign() < 0 {
				return True
			}
			if lo.Sign() >= 0 {
				return False
			}
		} else {
			if lo.Sign() > 0 || hi.Sign() < 0 {
				return False
			}
			if i == n {
				return True
			}
			if trailingZeros(s) < gs[i] {
				return False
			}
		}
		key := fmt.Sprintf("%d:%s", i, s.Text(36))
		if r, ok := memo[key]; ok {
			return r
		}
		if len(memo) > 20000 {
			panic(softLimit{})
		}
		r := c.Ite(ws[i].b, rec(i+1, new(big.Int).Add(s, ws[i].w)), rec(i+1, s))
		memo[key] = r
		return r
	}
	return rec(0, k), true
}

// EqUnder reports whether p == q wherever g holds.
func (c *Ctx) EqUnder(g Ref, p, q *Poly) bool {
	if p == q || g == False {
		return true
	}
	d := c.assume(c.SubP(p, q), g)
	if len(d.terms) == 0 {
		return true
	}
	e := c.Eq0(d)
	if c.Implies(g, e) {
		return true
	}
	if f := c.Flatten(d); len(f.terms) == 0 {
		return true
	} else if f != d && c.Implies(g, c.Eq0(f)) {
		return true
	}
	return false
}

// Flatten rewrites nested shifts Shr(q + Shr(r,a), b) to Shr(2^a q + r, a+b).
func (c *Ctx) Flatten(p *Poly) *Poly {
	memo := map[int]*Poly{}
	var fl func(p *Poly) *Poly
	fl = func(p *Poly) *Poly {
		if r, ok := memo[p.id]; ok {
			return r
		}
		a := acc{}
		for _, t := range p.terms {
			m := c.mk([]Term{{c.one, t.c}})
			for _, x := range t.m.atoms {
				ap := c.atomPoly(x)
				if x.kind == aShr {
					q, k := x.p, x.k
					for n := 0; n < 200; n++ {
						// only leading unit shift atoms are merged
						var in *Atom
						for _, u := range q.terms {
							if len(u.m.atoms) == 1 && u.m.atoms[0].kind == aShr && u.c.Cmp(big1) == 0 && !c.isOwner(u.m.atoms[0].p) {
								in = u.m.atoms[0]
								break
							}
						}
						if in == nil {
							break
						}
						rest := c.SubP(q, c.atomPoly(in))
						q = c.AddP(c.shl(rest, in.k), in.p)
						k += in.k
					}
					ap = c.shrFlat(fl(q), k)
				}
				m = c.MulP(m, ap)
			}
			a.addPoly(m, big1)
		}
		r := c.fromAcc(a)
		memo[p.id] = r
		return r
	}
	return fl(p)
}

// shrFlat is Shr(q,k), recognising where it is A or A plus a constant for a
// shift A with few values that occurs in q.
func (c *Ctx) shrFlat(q *Poly, k uint) *Poly {
	r := c.Shr(q, k)
	if !c.limbs || len(r.terms) != 1 || len(r.terms[0].m.atoms) != 1 || r.terms[0].m.atoms[0].kind != aShr {
		return r
	}
	q, k = r.terms[0].m.atoms[0].p, r.terms[0].m.atoms[0].k
	for _, A := range c.fewValued(q) {
		var d *big.Int
		same := true
		c.splitRange(q, A, func(v, lo, hi *big.Int) {
			l, h := floorShr(lo, k), floorShr(hi, k)
			x := new(big.Int).Sub(l, v)
			same = same && l.Cmp(h) == 0 && (d == nil || d.Cmp(x) == 0)
			d = x
		})
		if same && d != nil {
			return c.AddP(c.atomPoly(A), c.constBig(d))
		}
	}
	return r
}

// fewValued lists the shifts with at most four values among the terms of p.
func (c *Ctx) fewValued(p *Poly) []*Atom {
	var out []*Atom
	for _, t := range p.terms {
		if len(t.m.atoms) == 1 {
			if a := t.m.atoms[0]; a.kind == aShr && new(big.Int).Sub(a.hi, a.lo).Cmp(big.NewInt(3)) <= 0 {
				out = append(out, a)
			}
		}
	}
	return out
}

// splitRange gives bounds of p for each value of the shift A.
func (c *Ctx) splitRange(p *Poly, A *Atom, f func(v, lo, hi *big.Int)) {
	k := new(big.Int)
	for _, t := range p.terms {
		if len(t.m.atoms) == 1 && t.m.atoms[0] == A {
			k = t.c
		}
	}
	rest := c.SubP(c.SubP(p, c.scale(c.atomPoly(A), k)), A.p)
	rl, rh := c.Range(rest)
	al, ah := c.Range(A.p)
	for v := new(big.Int).Set(A.lo); v.Cmp(A.hi) <= 0; v = new(big.Int).Add(v, big1) {
		lo := new(big.Int).Lsh(v, A.k)
		hi := new(big.Int).Add(lo, pow2m1(A.k))
		if lo.Cmp(al) < 0 {
			lo = al
		}
		if hi.Cmp(ah) > 0 {
			hi = ah
		}
		o := new(big.Int).Mul(k, v)
		f(v, new(big.Int).Add(new(big.Int).Add(lo, rl), o), new(big.Int).Add(new(big.Int).Add(hi, rh), o))
	}
}

// bounds is the range of p with the names of limbs expanded and shifts with
// few values taken apart, as tight as any of these gives.
func (c *Ctx) bounds(p *Poly) (lo, hi *big.Int) {
	lo, hi = c.Range(p)
	meet := func(l, h *big.Int) {
		if l.Cmp(lo) > 0 {
			lo = l
		}
		if h.Cmp(hi) < 0 {
			hi = h
		}
	}
	for n := 0; n < 400; n++ {
		e := c.Flatten(p)
		meet(c.Range(e))
		for _, A := range c.fewValued(e) {
			var l, h *big.Int
			c.splitRange(e, A, func(_, x, y *big.Int) {
				if l == nil || x.Cmp(l) < 0 {
					l = x
				}
				if h == nil || y.Cmp(h) > 0 {
					h = y
				}
			})
			meet(l, h)
		}
		if p = c.expandLast(p); p == nil {
			break
		}
	}
	return lo, hi
}

func (p *Poly) String() string { return p.show(6) }

// full names p injectively within a context.
func (p *Poly) full() string {
	if v, ok := p.isConst(); ok {
		return v.String()
	}
	if len(p.terms) == 1 && len(p.terms[0].m.atoms) == 1 && p.terms[0].c.Cmp(big1) == 0 && p.terms[0].m.atoms[0].kind == aLeaf {
		return p.terms[0].m.atoms[0].name
	}
	return fmt.Sprintf("%s#%d", p.show(3), p.id)
}

func (p *Poly) show(max int) string {
	if len(p.terms) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.terms {
		if i >= max {
			fmt.Fprintf(&sb, "+...#%d", p.id)
			break
		}
		s := t.c.String()
		if t.c.Sign() > 0 && i > 0 {
			s = "+" + s
		}
		if len(s) > 14 {
			if z := t.c.TrailingZeroBits(); z > 20 {
				s = fmt.Sprintf("%+d*2^%d", new(big.Int).Rsh(t.c, z), z)
			}
		}
		sb.WriteString(s)
		for _, a := range t.m.atoms {
			sb.WriteString("*" + a.String())
		}
	}
	return sb.String()
}

func (a *Atom) String() string {
	switch a.kind {
	case aLeaf:
		return a.name
	case aShr:
		return fmt.Sprintf("(%s>>%d)", a.p.show(3), a.k)
	}
	return fmt.Sprintf("bit#%d", a.b)
}
