package main

import (
	"fmt"
	"math/big"
)

// Reduced ordered binary decision diagrams with complement edges: the abstract
// domain for path conditions and single bits. A Ref is index<<1|complement.
type Ref int32

const (
	True  Ref = 0
	False Ref = 1
)

type bnode struct {
	v      int32
	hi, lo Ref // hi is always regular
}

type bkey struct {
	v      int32
	hi, lo Ref
}

type ikey struct{ f, g, h Ref }

// softLimit is the panic value raised when an optional construction exceeds
// its node allowance; hardLimit when the whole analysis does.
type softLimit struct{}
type hardLimit struct{ what string }

type BDD struct {
	nodes  []bnode
	unique map[bkey]Ref
	cache  map[ikey]Ref
	ccache map[[2]Ref]Ref
	limit  int // soft limit on len(nodes); 0: none
	hard   int
	owners []bitOwner // per variable
	supp   map[Ref][]int32
}

// bitOwner says what a BDD variable stands for: bit i of a polynomial, or a
// named predicate.
type bitOwner struct {
	p    *Poly
	bit  int
	name string
}

func newBDD() *BDD {
	b := &BDD{unique: map[bkey]Ref{}, cache: map[ikey]Ref{}, ccache: map[[2]Ref]Ref{}, hard: 40_000_000, supp: map[Ref][]int32{}}
	b.nodes = append(b.nodes, bnode{v: 1<<31 - 1})
	return b
}

func (r Ref) not() Ref      { return r ^ 1 }
func (r Ref) isConst() bool { return r>>1 == 0 }

func (b *BDD) newVar(o bitOwner) Ref {
	v := int32(len(b.owners))
	b.owners = append(b.owners, o)
	return b.mk(v, True, False)
}

func (b *BDD) mk(v int32, hi, lo Ref) Ref {
	if hi == lo {
		return hi
	}
	c := Ref(0)
	if hi&1 == 1 {
		hi, lo, c = hi^1, lo^1, 1
	}
	k := bkey{v, hi, lo}
	if r, ok := b.unique[k]; ok {
		return r ^ c
	}
	if b.limit > 0 && len(b.nodes) > b.limit {
		panic(softLimit{})
	}
	if len(b.nodes) > b.hard {
		panic(hardLimit{"decision diagram nodes"})
	}
	r := Ref(len(b.nodes) << 1)
	b.nodes = append(b.nodes, bnode{v, hi, lo})
	b.unique[k] = r
	return r ^ c
}

func (b *BDD) top(r Ref) int32 { return b.nodes[r>>1].v }

func (b *BDD) cof(r Ref, v int32) (hi, lo Ref) {
	n := &b.nodes[r>>1]
	if n.v != v {
		return r, r
	}
	return n.hi ^ (r & 1), n.lo ^ (r & 1)
}

func (b *BDD) Ite(f, g, h Ref) Ref {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	}
	if f == g {
		g = True
	} else if f == g^1 {
		g = False
	}
	if f == h {
		h = False
	} else if f == h^1 {
		h = True
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	if g == False && h == True {
		return f ^ 1
	}
	// commutative forms
	if h == False && f > g { // and
		f, g = g, f
	} else if g == True && f > h { // or
		f, h = h, f
	}
	if f&1 == 1 {
		f, g, h = f^1, h, g
	}
	c := Ref(0)
	if g&1 == 1 {
		g, h, c = g^1, h^1, 1
	}
	k := ikey{f, g, h}
	if r, ok := b.cache[k]; ok {
		return r ^ c
	}
	v := b.top(f)
	if t := b.top(g); t < v {
		v = t
	}
	if t := b.top(h); t < v {
		v = t
	}
	f1, f0 := b.cof(f, v)
	g1, g0 := b.cof(g, v)
	h1, h0 := b.cof(h, v)
	r := b.mk(v, b.Ite(f1, g1, h1), b.Ite(f0, g0, h0))
	b.cache[k] = r
	return r ^ c
}

func (b *BDD) And(f, g Ref) Ref { return b.Ite(f, g, False) }
func (b *BDD) Or(f, g Ref) Ref  { return b.Ite(f, True, g) }
func (b *BDD) Xor(f, g Ref) Ref { return b.Ite(f, g^1, g) }
func (b *BDD) Implies(f, g Ref) bool {
	return b.And(f, g^1) == False
}

// Constrain is the generalised cofactor of f by c: equal to f wherever c holds.
func (b *BDD) Constrain(f, c Ref) Ref {
	if c == True || c == False || f.isConst() {
		return f
	}
	if f == c {
		return True
	}
	if f == c^1 {
		return False
	}
	k := [2]Ref{f, c}
	if r, ok := b.ccache[k]; ok {
		return r
	}
	tf, tc := b.top(f), b.top(c)
	var r Ref
	if tc < tf {
		// f does not depend on c's top variable: quantify it away
		c1, c0 := b.cof(c, tc)
		r = b.Constrain(f, b.Or(c1, c0))
	} else {
		v := tf
		f1, f0 := b.cof(f, v)
		c1, c0 := b.cof(c, v)
		switch {
		case c1 == False:
			r = b.Constrain(f0, c0)
		case c0 == False:
			r = b.Constrain(f1, c1)
		default:
			r = b.mk(v, b.Constrain(f1, c1), b.Constrain(f0, c0))
		}
	}
	b.ccache[k] = r
	return r
}

// literal reports whether r is a single variable or its negation.
func (b *BDD) literal(r Ref) (v int32, neg, ok bool) {
	if r.isConst() {
		return 0, false, false
	}
	n := b.nodes[r>>1]
	if n.hi == True && n.lo == False {
		return n.v, r&1 == 1, true
	}
	return 0, false, false
}

// Support lists the variables r depends on.
func (b *BDD) Support(r Ref) []int32 {
	r &^= 1
	if s, ok := b.supp[r]; ok {
		return s
	}
	seen := map[Ref]bool{}
	vars := map[int32]bool{}
	var walk func(Ref)
	walk = func(r Ref) {
		r &^= 1
		if r.isConst() || seen[r] {
			return
		}
		seen[r] = true
		n := b.nodes[r>>1]
		vars[n.v] = true
		walk(n.hi)
		walk(n.lo)
	}
	walk(r)
	var out []int32
	for v := range vars {
		out = append(out, v)
	}
	sortInt32(out)
	b.supp[r] = out
	return out
}

func sortInt32(a []int32) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// soft runs f with an allowance of n new nodes; ok is false if it ran out.
func (b *BDD) soft(n int, f func()) (ok bool) {
	old := b.limit
	lim := len(b.nodes) + n
	if old > 0 && old < lim {
		lim = old
	}
	b.limit = lim
	defer func() {
		b.limit = old
		if r := recover(); r != nil {
			if _, is := r.(softLimit); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

// One satisfying assignment of r, described for a report: conditions first,
// then numbers.
func (b *BDD) witness(r Ref) string {
	var conds, nums []string
	at := map[string]int{}
	vals := map[string]*big.Int{}
	for !r.isConst() {
		v := b.top(r)
		hi, lo := b.cof(r, v)
		val := uint(1)
		next := hi
		if hi == False || (lo != False && b.owners[v].p != nil) {
			next, val = lo, 0
		}
		o := b.owners[v]
		if o.p != nil {
			k := fmt.Sprint(o.p)
			if _, old := at[k]; !old {
				at[k] = len(nums)
				nums = append(nums, k)
				vals[k] = new(big.Int)
			}
			vals[k].SetBit(vals[k], int(o.bit), val)
		} else {
			conds = append(conds, fmt.Sprintf("[%s]=%d", o.name, val))
		}
		r = next
	}
	s := ""
	for i, c := range conds {
		if i == 24 {
			s += fmt.Sprintf(" ... (%d conditions)", len(conds))
			break
		}
		s += " " + c
	}
	for i, k := range nums {
		if i == 24 {
			s += fmt.Sprintf(" ... (%d numbers)", len(nums))
			break
		}
		s += fmt.Sprintf(" bits(%s)=%#x", k, vals[k])
	}
	return s
}
