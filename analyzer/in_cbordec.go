package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// Decoding of byte sequences whose CBOR structure is known (heads, lengths and
// nesting), with arbitrary contents.

type citem struct {
	major int
	num   *Poly
	info  int   // additional information, for major type 7
	body  *Rope // strings
	items []*citem
	raw   *Rope
}

// takeRope splits off the first n bytes, n a polynomial.
func takeRope(r *Rope, n *Poly) (head, rest *Rope, ok bool) {
	acc := cx.zero
	for i := 0; ; i++ {
		d := cx.SubP(n, acc)
		if len(d.terms) == 0 {
			return mkRope(r.chunks[:i]...), mkRope(r.chunks[i:]...), true
		}
		if i == len(r.chunks) {
			return nil, nil, false
		}
		c := r.chunks[i]
		if c.op == nil {
			if k, is := d.int(); is && k >= 0 && k < len(c.b) {
				h := append(append([]Chunk{}, r.chunks[:i]...), Chunk{b: c.b[:k]})
				t := append([]Chunk{{b: c.b[k:]}}, r.chunks[i+1:]...)
				return mkRope(h...), mkRope(t...), true
			}
			acc = cx.AddP(acc, cx.constInt(int64(len(c.b))))
			continue
		}
		acc = cx.AddP(acc, c.op.ln)
	}
}

func cborHeadOf(r *Rope) (major, info int, num *Poly, rest *Rope, ok bool) {
	if len(r.chunks) == 0 {
		return
	}
	c := r.chunks[0]
	if c.op != nil {
		var m int
		if n, err := fmt.Sscanf(c.op.kind, "cbor-uint%d", &m); n == 1 && err == nil {
			return m, -1, c.op.num, mkRope(r.chunks[1:]...), true
		}
		return
	}
	b0, is := c.b[0].int()
	if !is {
		return
	}
	major, info = b0>>5, b0&31
	if info < 24 {
		return major, info, cx.constInt(int64(info)), mkRope(append([]Chunk{{b: c.b[1:]}}, r.chunks[1:]...)...), true
	}
	w := map[int]int{24: 1, 25: 2, 26: 4, 27: 8}[info]
	if w == 0 || len(c.b) < 1+w {
		return
	}
	num = cx.zero
	for i := 1; i <= w; i++ {
		num = cx.AddP(cx.scale(num, big.NewInt(256)), c.b[i])
	}
	return major, info, num, mkRope(append([]Chunk{{b: c.b[1+w:]}}, r.chunks[1:]...)...), true
}

// cborParse reads the first item.
func cborParse(r *Rope) (it *citem, rest *Rope, ok bool) {
	major, info, num, rest, ok := cborHeadOf(r)
	if !ok {
		return nil, nil, false
	}
	it = &citem{major: major, info: info, num: num}
	sub := func(n int) bool {
		for i := 0; i < n; i++ {
			var x *citem
			x, rest, ok = cborParse(rest)
			if !ok {
				return false
			}
			it.items = append(it.items, x)
		}
		return true
	}
	switch major {
	case 2, 3:
		it.body, rest, ok = takeRope(rest, num)
		if !ok {
			return nil, nil, false
		}
	case 4, 5:
		n, is := num.int()
		if !is || n > 1000 {
			return nil, nil, false
		}
		if major == 5 {
			n *= 2
		}
		if !sub(n) {
			return nil, nil, false
		}
	case 6:
		if !sub(1) {
			return nil, nil, false
		}
	}
	it.raw, _, ok = takeRope(r, cx.SubP(r.ln, rest.ln))
	return it, rest, ok
}

// decItem gives the value an item has as type t, and when it has none.
func (f *Frame) decItem(st *State, it *citem, t types.Type, old Val) (v Val, bad Ref, ok bool) {
	m := f.m
	if namedIs(t, cborPath, "RawMessage") {
		return m.newBytes(st, it.raw, "cbor"), False, true
	}
	if namedIs(t, cborPath, "Tag") || namedIs(t, cborPath, "RawTag") {
		if it.major != 6 {
			return old, True, true
		}
		u := t.Underlying().(*types.Struct)
		c, bad, ok := f.decItem(st, it.items[0], u.Field(1).Type(), zeroVal(u.Field(1).Type()))
		if !ok {
			return nil, False, false
		}
		return &StructV{[]Val{it.num, c}}, bad, true
	}
	if it.major == 7 {
		switch it.info {
		case 20, 21:
			if b, is := t.Underlying().(*types.Basic); is && b.Kind() == types.Bool {
				if it.info == 21 {
					return BoolV(True), False, true
				}
				return BoolV(False), False, true
			}
			return old, True, true
		case 22, 23:
			return old, False, true // null leaves the target as it is, or sets it to nil
		}
		return nil, False, false
	}
	if it.major == 6 {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return nil, False, false
		}
		return f.decItem(st, it.items[0], t, old)
	}
	if iface, isI := t.Underlying().(*types.Interface); isI {
		if iface.NumMethods() > 0 {
			return nil, False, false
		}
		switch it.major {
		case 0:
			return IfaceV{types.Typ[types.Uint64], it.num}, False, true
		case 2:
			return IfaceV{types.NewSlice(types.Typ[types.Uint8]), m.newBytes(st, it.body, "cbor")}, False, true
		case 3:
			return IfaceV{types.Typ[types.String], StrV{it.body}}, False, true
		case 4:
			var es []Val
			bad := False
			for _, x := range it.items {
				e, b, ok := f.decItem(st, x, t, NilV{})
				if !ok {
					return nil, False, false
				}
				bad = cx.Or(bad, b)
				es = append(es, e)
			}
			return IfaceV{types.NewSlice(t), m.newSlice(st, t, es, "cbor")}, bad, true
		}
		return nil, False, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sg, isInt := intInfo(t); isInt {
			if it.major != 0 {
				if it.major == 1 {
					return nil, False, false
				}
				return old, True, true
			}
			_, hi := typeRange(w, sg)
			over := cx.Less0(cx.SubP(cx.constBig(hi), it.num))
			return cx.Select(over, numOr0(old), it.num), over, true
		}
		if u.Kind() == types.String {
			if it.major != 3 {
				return old, True, true
			}
			return StrV{it.body}, False, true
		}
		return old, True, true
	case *types.Pointer:
		in, bad, ok := f.decItem(st, it, u.Elem(), zeroVal(u.Elem()))
		if !ok {
			return nil, False, false
		}
		return PtrV{obj: m.alloc(st, u.Elem(), in, "cbor")}, bad, true
	case *types.Slice:
		if isByteSlice(t) && it.major == 2 {
			return m.newBytes(st, it.body, "cbor"), False, true
		}
		if it.major != 4 {
			return old, True, true
		}
		var es []Val
		bad := False
		for _, x := range it.items {
			e, b, ok := f.decItem(st, x, u.Elem(), zeroVal(u.Elem()))
			if !ok {
				return nil, False, false
			}
			bad = cx.Or(bad, b)
			es = append(es, e)
		}
		return m.newSlice(st, u.Elem(), es, "cbor"), bad, true
	case *types.Struct:
		fs, toArray := (&cborEnc{f: f, m: m}).fields(u)
		cur := old
		bad := False
		setField := func(fd cborField, x *citem) bool {
			ft := t
			for _, i := range fd.idx {
				ft = ft.Underlying().(*types.Struct).Field(i).Type()
			}
			nv, b, ok := f.decItem(st, x, ft, pathOf(m, cur, fd.idx))
			if !ok {
				return false
			}
			bad = cx.Or(bad, b)
			cur = m.updPath(cur, fd.idx, nv)
			return true
		}
		switch {
		case it.major == 4 && toArray:
			if len(it.items) != len(fs) {
				return old, True, true
			}
			for i, x := range it.items {
				if !setField(fs[i], x) {
					return nil, False, false
				}
			}
			return cur, bad, true
		case it.major == 5 && !toArray:
			for i := 0; i < len(it.items); i += 2 {
				for _, fd := range fs {
					if fd.key == it.items[i].raw {
						if !setField(fd, it.items[i+1]) {
							return nil, False, false
						}
					}
				}
			}
			return cur, bad, true
		}
		return old, True, true
	}
	return nil, False, false
}

func numOr0(v Val) *Poly {
	if p, ok := v.(*Poly); ok {
		return p
	}
	return cx.zero
}

func pathOf(m *Machine, v Val, idx []int) Val {
	for _, i := range idx {
		v = m.stepIn(v, i)
	}
	return v
}
