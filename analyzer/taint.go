package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// taintMode turns the analysis into a dataflow analysis of secrets: numbers
// computed from secrets are one abstract secret per width, and every use of a
// secret that steers control flow or addresses memory is reported.
type taintMode struct {
	kind    string // control or leak: what is reported
	reports map[string]string
	order   []string
	uses    int
	sites   map[string]bool
}

const secretMark = "§secret"

func newTaint(kind string) *taintMode {
	return &taintMode{kind: kind, reports: map[string]string{}, sites: map[string]bool{}}
}

func (t *taintMode) secret(w uint, sg bool) *Poly {
	lo, hi := typeRange(w, sg)
	s := "u"
	if sg {
		s = "s"
	}
	return cx.leaf(fmt.Sprintf("%s%s%d", secretMark, s, w), lo, hi)
}

func (t *taintMode) isSecret(p *Poly) bool {
	for _, tm := range p.terms {
		for _, a := range tm.m.atoms {
			if t.atomSecret(a) {
				return true
			}
		}
	}
	return false
}

func (t *taintMode) atomSecret(a *Atom) bool {
	switch a.kind {
	case aLeaf:
		return strings.Contains(a.name, secretMark)
	case aShr:
		return t.isSecret(a.p)
	case aBit:
		return t.refSecret(a.b)
	}
	return false
}

func (t *taintMode) refSecret(r Ref) bool {
	if r.isConst() {
		return false
	}
	for _, v := range cx.Support(r) {
		o := cx.owners[v]
		if o.p != nil {
			if t.isSecret(o.p) {
				return true
			}
		} else if strings.Contains(o.name, secretMark) {
			return true
		}
	}
	return false
}

func (t *taintMode) ropeSecret(r *Rope) bool {
	for _, c := range r.chunks {
		if c.op != nil {
			if strings.Contains(c.op.key, secretMark) {
				return true
			}
			continue
		}
		for _, p := range c.b {
			if t.isSecret(p) {
				return true
			}
		}
	}
	return false
}

// public names results that are published by design: encoded points and the
// second half of a signature.
func publicUF(name string) bool { return strings.HasPrefix(name, "public:") }

func (t *taintMode) site(m *Machine, f *Frame) {
	t.sites[f.fn.String()+" "+m.posOf(f.cur)] = true
}

func (t *taintMode) branch(m *Machine, f *Frame, in ssa.Instruction, c Ref) {
	t.site(m, f)
	if t.refSecret(c) {
		t.report(m, f, "conditional branch depends on secret data")
	}
}

func (t *taintMode) report(m *Machine, f *Frame, what string) {
	if t.kind == "leak" {
		return
	}
	t.add(m, f, what)
}

func (t *taintMode) add(m *Machine, f *Frame, what string) {
	pos := m.posOf(f.cur)
	k := f.fn.String() + " " + pos + ": " + what
	if _, ok := t.reports[k]; !ok {
		t.order = append(t.order, k)
		t.reports[k] = strings.Join(m.callStack(), " <- ")
	}
}

func (t *taintMode) arith(m *Machine, f *Frame, op token.Token, p, q *Poly, w uint, sg bool) Val {
	t.uses++
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return BoolV(cx.Pred(secretMark + "?"))
	case token.SHL, token.SHR:
		if t.isSecret(q) {
			t.report(m, f, "shift count depends on secret data")
		}
	case token.QUO, token.REM:
		t.report(m, f, "division of secret data")
	}
	return t.secret(w, sg)
}
