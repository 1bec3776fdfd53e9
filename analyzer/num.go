package main

import (
	"fmt"
	"math/big"
	"os"
)

// congruent holds if every coefficient of p-q is a multiple of m.
func (c *Ctx) congruent(p, q, m *Poly) Ref {
	mod, ok := m.isConst()
	if !ok {
		return c.Pred("modulus")
	}
	d := c.expand(c.SubP(p, q))
	if c.divides(d, mod) {
		return True
	}
	if f := c.Flatten(d); c.divides(f, mod) {
		return True
	}
	if mod.Sign() == 0 {
		return c.Eq0(d)
	}
	if os.Getenv("VERIF_NUM") != "" {
		r := new(big.Int)
		for _, t := range d.terms {
			if r.Mod(t.c, mod).Sign() != 0 {
				fmt.Fprintf(os.Stderr, "TERM %v * %v\n", t.c, c.mk([]Term{{t.m, big1}}))
			}
		}
	}
	return c.Pred(fmt.Sprintf("%v = 0 mod %v", d, mod))
}

func (c *Ctx) divides(d *Poly, mod *big.Int) bool {
	if mod.Sign() == 0 {
		return len(d.terms) == 0
	}
	r := new(big.Int)
	for _, t := range d.terms {
		if r.Mod(t.c, mod).Sign() != 0 {
			return false
		}
	}
	return true
}

// limb names a value whose range is much smaller than its terms suggest (a sum
// less its carry), so that what is computed from it stays small; expand puts
// the definitions back.
func (c *Ctx) limb(p *Poly) *Poly {
	if !c.limbs || len(p.terms) < 2 {
		return p
	}
	lo, hi := c.Range(p)
	nl, nh := c.naiveRange(p.terms)
	w := new(big.Int).Sub(hi, lo)
	nw := new(big.Int).Sub(nh, nl)
	if w.Lsh(w, 1).Cmp(nw) > 0 || w.BitLen() < 6 {
		return p
	}
	l := c.leaf(fmt.Sprintf("limb%d", p.id), lo, hi)
	l.terms[0].m.atoms[0].p = p
	return l
}

func (c *Ctx) expand(p *Poly) *Poly {
	memo := map[int]*Poly{}
	var ex func(p *Poly) *Poly
	ex = func(p *Poly) *Poly {
		if r, ok := memo[p.id]; ok {
			return r
		}
		named := false
		for _, t := range p.terms {
			for _, x := range t.m.atoms {
				named = named || x.kind == aLeaf && x.p != nil
			}
		}
		r := p
		if named {
			a := acc{}
			for _, t := range p.terms {
				m := c.mk([]Term{{c.one, t.c}})
				for _, x := range t.m.atoms {
					q := c.atomPoly(x)
					if x.kind == aLeaf && x.p != nil {
						q = ex(x.p)
					}
					m = c.MulP(m, q)
				}
				a.addPoly(m, big1)
			}
			r = c.fromAcc(a)
		}
		memo[p.id] = r
		return r
	}
	return ex(p)
}

// expandLast puts back the definition of the limb named last, or gives nil.
func (c *Ctx) expandLast(p *Poly) *Poly {
	var last *Atom
	for _, t := range p.terms {
		for _, x := range t.m.atoms {
			if x.kind == aLeaf && x.p != nil && (last == nil || x.id > last.id) {
				last = x
			}
		}
	}
	if last == nil {
		return nil
	}
	a := acc{}
	for _, t := range p.terms {
		m := c.mk([]Term{{c.one, t.c}})
		for _, x := range t.m.atoms {
			if x == last {
				m = c.MulP(m, x.p)
			} else {
				m = c.MulP(m, c.atomPoly(x))
			}
		}
		a.addPoly(m, big1)
	}
	return c.fromAcc(a)
}
