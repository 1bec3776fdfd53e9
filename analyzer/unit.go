package main

import (
	"embed"
	"fmt"
	"go/types"
	"io/fs"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec
var specFS embed.FS

// specFiles returns the specification packages laid over the tree: those asked
// for and those they build on.
func specFiles(only map[string]bool) map[string]string {
	for only != nil {
		more := false
		for _, src := range specTexts(only) {
			for _, ln := range strings.Split(src, "\n") {
				var deps []string
				if rest, ok := strings.CutPrefix(ln, "//verif:stubs "); ok {
					deps = strings.Fields(rest)
				} else if _, rest, ok := strings.Cut(ln, "/internal/verifspec/"); ok {
					deps = []string{strings.Trim(strings.TrimSpace(rest), "\"")}
				}
				for _, d := range deps {
					if !only[d] {
						only[d], more = true, true
					}
				}
			}
		}
		if !more {
			break
		}
	}
	return specTexts(only)
}

func specTexts(only map[string]bool) map[string]string {
	out := map[string]string{}
	fs.WalkDir(specFS, "spec", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".gotxt") {
			return nil
		}
		rel := strings.TrimPrefix(p, "spec/")
		pkg := strings.SplitN(rel, "/", 2)[0]
		if only != nil && !only[pkg] {
			return nil
		}
		b, _ := specFS.ReadFile(p)
		name := strings.TrimSuffix(rel, ".gotxt") + ".go"
		if first, _, _ := strings.Cut(string(b), "\n"); strings.HasPrefix(first, "//verif:inpackage ") {
			// laid into a package of the library
			name = "../../" + strings.TrimPrefix(first, "//verif:inpackage ") + "/verif_" + strings.ReplaceAll(rel, "/", "_") + ".go"
		}
		out[name] = "//go:build go1.21\n\n" + strings.ReplaceAll(string(b), "\"REPO/", "\"github.com/fivebinaries/go-cardano-serialization/")
		return nil
	})
	return out
}

// Obl is one proof obligation of a unit.
type Obl struct {
	Unit   string `json:"unit"`
	Case   string `json:"case,omitempty"`
	Name   string `json:"name"`
	OK     bool   `json:"ok"`
	Detail string `json:"detail,omitempty"`
	Pos    string `json:"pos,omitempty"`
}

type UnitResult struct {
	Unit    string
	Cases   int
	Obls    []Obl
	Funcs   map[string]int
	Steps   int
	Wall    float64
	Samples []string
	Skipped bool
}

// stubsOf collects //stub directives of the given specification packages.
func (l *Loaded) stubsOf(pkgs ...string) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, name := range pkgs {
		p := l.specs[name]
		if p == nil {
			continue
		}
		sp := l.prog.Package(p.Types)
		for _, mem := range sp.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			for _, ln := range strings.Split(docOf(p, fn.Name()), "\n") {
				ln = strings.TrimSpace(ln)
				if rest, ok := strings.CutPrefix(ln, "stub "); ok {
					for _, n := range strings.Fields(rest) {
						out[strings.ReplaceAll(n, "REPO", l.mod)] = fn
					}
				}
			}
		}
	}
	return out
}

type unitOpts struct {
	taint bool
	kinds map[string]bool
	pkgs  []string
	post  func(m *Machine, st *State, add func(name string, ok bool, detail string))
}

func directives(doc string) map[string]string {
	out := map[string]string{}
	for _, ln := range strings.Split(doc, "\n") {
		ln = strings.TrimSpace(ln)
		if rest, ok := strings.CutPrefix(ln, "verif:"); ok {
			k, v, _ := strings.Cut(rest, " ")
			out[k] = strings.TrimSpace(v)
		}
	}
	return out
}

// runUnit analyses one specification function for every combination of its choices.
func runUnit(l *Loaded, pkg, fname string, shard, nshards int) *UnitResult {
	p := l.specs[pkg]
	res := &UnitResult{Unit: pkg + "." + fname, Funcs: map[string]int{}}
	t0 := time.Now()
	defer func() { res.Wall = time.Since(t0).Seconds() }()
	if p == nil {
		res.Obls = append(res.Obls, Obl{Unit: res.Unit, Name: "specification package " + pkg + " missing"})
		return res
	}
	sp := l.prog.Package(p.Types)
	fn := sp.Func(fname)
	if fn == nil {
		res.Obls = append(res.Obls, Obl{Unit: res.Unit, Name: "specification function missing"})
		return res
	}
	dir := directives(docOf(p, fname))
	stubs := l.stubsOf("models", pkg)
	for _, extra := range strings.Fields(dir["stubs"]) {
		for k, v := range l.stubsOf(extra) {
			stubs[k] = v
		}
	}
	choices := map[string]int{}
	var order []string
	n := 0
	for {
		m, obls, skip := runCase(l, fn, res.Unit, dir, stubs, choices, shard, nshards)
		if skip || len(m.askedOr) == 0 && shard > 0 {
			res.Skipped = true
			return res
		}
		if debugCase {
			fmt.Fprintf(os.Stderr, "case %s at %.2fs, %d nodes, %d polys\n", caseName(m.askedOr, choices), time.Since(t0).Seconds(), len(cx.BDD.nodes), cx.npoly)
		}
		res.Cases++
		n++
		for f, k := range m.visited {
			if f.Pkg != nil && l.isLib(f.Pkg.Pkg.Path()) {
				res.Funcs[f.String()] += k
			}
		}
		res.Steps += m.steps
		res.Obls = append(res.Obls, obls...)
		if len(res.Samples) < 3 {
			res.Samples = append(res.Samples, caseName(m.askedOr, choices))
		}
		bad := 0
		for _, o := range res.Obls {
			if !o.OK {
				bad++
			}
		}
		if bad >= 8 {
			break // enough to report
		}
		// next combination: odometer over the order in which choices were asked
		order = m.askedOr
		i := len(order) - 1
		step := func(i int) int {
			if i == 0 && nshards > 1 {
				return nshards
			}
			return 1
		}
		for i >= 0 && choices[order[i]]+step(i) >= m.asked[order[i]] {
			delete(choices, order[i])
			i--
		}
		if i < 0 {
			break
		}
		choices[order[i]] += step(i)
		keep := map[string]int{}
		for _, k := range order[:i+1] {
			keep[k] = choices[k]
		}
		choices = keep
	}
	if len(res.Obls) == 0 {
		res.Obls = append(res.Obls, Obl{Unit: res.Unit, Name: "the unit states no obligation"})
	}
	return res
}

func caseName(order []string, ch map[string]int) string {
	var s []string
	for _, k := range order {
		s = append(s, fmt.Sprintf("%s=%d", k, ch[k]))
	}
	return strings.Join(s, " ")
}

var debugCase = os.Getenv("VERIF_DEBUG") != ""

func runCase(l *Loaded, fn *ssa.Function, unit string, dir map[string]string, stubs map[string]*ssa.Function, choices map[string]int, shard, nshards int) (m *Machine, obls []Obl, skip bool) {
	newCtx()
	zeroCache = map[types.Type]Val{}
	nonNilKeys = map[string]bool{}
	m = newMachine(l)
	profMachine = m
	m.choices = choices
	m.shard, m.shards = shard, nshards
	m.stubs = stubs
	_, cx.coarse = dir["coarse"]
	_, cx.spread = dir["spread"]
	_, cx.limbs = dir["limbs"]
	cx.carries = dir["limbs"] == "atoms"
	if k, ok := dir["taint"]; ok {
		m.taint = newTaint(k)
	}
	if s := dir["loop"]; s != "" {
		m.loopMax, _ = strconv.Atoi(s)
	}
	cx.BDD.limit = 40_000_000
	add := func(name string, ok bool, detail, pos string) {
		obls = append(obls, Obl{Unit: unit, Case: caseName(m.askedOr, choices), Name: name, OK: ok, Detail: detail, Pos: pos})
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				where := ""
				if len(m.stack) > 0 {
					where = strings.Join(m.callStack(), " <- ")
				} else {
					where = m.lastWhere
				}
				switch e := r.(type) {
				case skipCase:
					skip = true
				case unsup:
					add("analysable", false, "not decided: "+e.msg, where)
				case softLimit:
					add("analysable", false, "not decided: decision diagram too large", where)
				default:
					if debugCase {
						panic(r)
					}
					add("analysable", false, fmt.Sprintf("not decided: internal error %v", r), where)
				}
			}
		}()
		st := m.newState()
		_, end := m.callFn(fn, nil, nil, st)
		_ = end
	}()
	for _, o := range m.asserts {
		add(o.name, o.bad == False, o.detail, o.pos)
	}
	if _, ok := dir["panics"]; !ok {
		for _, p := range m.panics {
			if p.g != False {
				add("no panic", false, p.kind+" when"+cx.witness(p.g), strings.Join(p.stk, " <- "))
			}
		}
	}
	if m.taint != nil {
		for _, k := range m.taint.order {
			add("secret use", false, k, m.taint.reports[k])
		}
		for k := range m.taint.sites {
			if m.taint.reports[k] == "" && m.taint.kind == "control" {
				add("not steered by secrets: "+k, true, "", "")
			}
		}
	}
	for _, w := range m.wrGlob {
		add("no package state written", false, w, w)
	}
	return m, obls, skip
}

type assertRec struct {
	name   string
	bad    Ref
	detail string
	pos    string
}

// vCall interprets the functions of the specification vocabulary.
func (f *Frame) vCall(fn *ssa.Function, name string, args []Val, st *State) Val {
	m := f.m
	str := func(v Val) string {
		if s, ok := v.(StrV); ok {
			if c, ok := s.r.constStr(); ok {
				return c
			}
			return s.r.key()
		}
		m.fail("specification name is not constant")
		return ""
	}
	num := func(v Val) int64 {
		if p, ok := v.(*Poly); ok {
			if c, ok := p.isConst(); ok && c.IsInt64() {
				return c.Int64()
			}
		}
		m.fail("specification number is not constant")
		return 0
	}
	rt := func() types.Type { return fn.Signature.Results().At(0).Type() }
	switch name {
	case "Assert":
		c := f.boolOf(args[1], st)
		bad := cx.And(st.g, c.not())
		r := assertRec{name: str(args[0]), bad: bad, pos: strings.Join(m.callStack(), " <- ")}
		if bad != False {
			r.detail = "fails when" + cx.witness(bad)
		}
		m.asserts = append(m.asserts, r)
		st.g = cx.And(st.g, c)
		return TupleV{}
	case "Assume":
		whole := st.g == cx.care
		st.g = cx.And(st.g, f.boolOf(args[0], st))
		if whole { // no other state is alive: this holds from here on
			cx.care = st.g
		}
		return TupleV{}
	case "Choose":
		return cx.constInt(int64(m.choose(str(args[0]), int(num(args[1])))))
	case "Any", "NonNil":
		k := str(args[0])
		if name == "NonNil" {
			nonNilKeys[k] = true
		}
		return m.opaque(rt(), k)
	case "Range":
		return cx.leaf(str(args[0]), big.NewInt(num(args[1])), big.NewInt(num(args[2])))
	case "Bytes", "Str", "Secret":
		k := str(args[0])
		n := int(num(args[1]))
		b := make([]*Poly, n)
		for i := range b {
			if name == "Secret" && m.taint != nil {
				b[i] = m.taint.secret(8, false)
			} else {
				b[i] = cx.leafBits(fmt.Sprintf("%s[%d]", k, i), 8)
			}
		}
		if name == "Str" {
			return StrV{ropeBytes(b)}
		}
		return m.newBytes(st, ropeBytes(b), "input "+k)
	case "AnyBytes":
		return BytesV{opaqueStr(str(args[0]))}
	case "BytesLen":
		k := str(args[0])
		return BytesV{ropeOp(k, cx.leaf("len("+k+")", big.NewInt(num(args[1])), big.NewInt(num(args[2]))))}
	case "AnyStr":
		return StrV{opaqueStr(str(args[0]))}
	case "Token":
		k := str(args[0])
		return StrV{mkRope(Chunk{op: &OpSeq{key: k, ln: cx.leaf("len("+k+")", big1, pow2m1(40)), cls: "token"}})}
	case "UF", "UN", "Unknown", "Key", "Fail", "Event", "Show":
		vi := len(args) - 1
		vs := append([]Val{}, f.variadic(st, args[vi])...)
		for i, a := range vs {
			if x, ok := a.(IfaceV); ok {
				if u, ok := x.v.(*Union); ok && cx.spread {
					vs[i] = u
				}
			}
		}
		return f.eachArgs(st, vs, func(vs []Val, st *State) Val {
			var ks []string
			secret := false
			cube := failLits(st.g)
			for _, a := range vs {
				ks = append(ks, f.contentKey(st, settle(f, st, a, cube)))
				if m.taint != nil && f.tainted(st, a, 0) {
					secret = true
				}
			}
			joined := strings.Join(ks, ",")
			switch name {
			case "UF":
				k := str(args[0]) + "(" + joined + ")"
				n := int(num(args[1]))
				b := make([]*Poly, n)
				for i := range b {
					if secret && !publicUF(str(args[0])) {
						b[i] = m.taint.secret(8, false)
					} else {
						b[i] = cx.leafBits(fmt.Sprintf("%s[%d]", k, i), 8)
					}
				}
				return m.newBytes(st, ropeBytes(b), k)
			case "UN":
				if secret {
					return m.taint.secret(64, true)
				}
				return cx.leaf(str(args[0])+"("+joined+")", big.NewInt(num(args[1])), big.NewInt(num(args[2])))
			case "Unknown":
				lo, ok1 := args[1].(*Poly).isConst()
				hi, ok2 := args[2].(*Poly).isConst()
				if !ok1 || !ok2 {
					m.fail("range is not constant")
				}
				return cx.leaf(str(args[0])+"("+joined+")", lo, hi)
			case "Key":
				return StrV{ropeConst(joined)}
			case "Fail":
				k := str(args[0])
				if joined != "" {
					k += "(" + joined + ")"
				}
				return m.errIf(f.failPred(k, st), k)
			case "Event":
				f.event(st, str(args[0]), vs...)
				return TupleV{}
			case "Show":
				fmt.Fprintln(os.Stderr, "SHOW", st.g, strings.Join(ks, " | "))
				return TupleV{}
			}
			return nil
		})
	case "Public":
		if m.taint == nil {
			return BoolV(True)
		}
		for _, a := range f.variadic(st, args[0]) {
			if f.tainted(st, a, 0) {
				return BoolV(False)
			}
		}
		return BoolV(True)
	case "NoneFailed":
		r := True
		for _, s := range m.fails {
			r = cx.And(r, cx.And(s.g, s.p).not())
		}
		return BoolV(r)
	case "Same":
		return f.eachArgs(st, args, func(a []Val, s *State) Val { return BoolV(f.deepEq(s, a[0], a[1], 0)) })
	case "Apart":
		return f.eachArgs(st, args, func(a []Val, s *State) Val {
			x, y := map[ObjID]bool{}, map[ObjID]bool{}
			f.reach(s, a[0], x, 0)
			f.reach(s, a[1], y, 0)
			for o := range x {
				if y[o] {
					return BoolV(False)
				}
			}
			return BoolV(True)
		})
	case "After":
		return f.eachArgs(st, args, func(a []Val, s *State) Val {
			rest, c := cutPrefix(f.rope(s, a[0]), f.rope(s, a[1]))
			return TupleV{BytesV{rest}, BoolV(c)}
		})
	case "Wrap":
		return f.eachArgs(st, args[1:], func(a []Val, s *State) Val {
			head, data := f.rope(s, a[0]), f.rope(s, a[1])
			k := str(args[0]) + "(" + head.key() + "," + data.key() + ")"
			op := &OpSeq{key: k, ln: cx.leaf("len("+k+")", big1, pow2m1(40)), kind: "wrap-" + str(args[0]), sub: data, cls: "token"}
			return StrV{ropeCat(head, ropeConst("1"), mkRope(Chunk{op: op}))}
		})
	case "Unwrap":
		return f.each(st, args[1], func(v Val, s *State) Val {
			r := f.rope(s, v)
			if n := len(r.chunks); n == 2 && r.chunks[0].op == nil && r.chunks[1].op != nil && r.chunks[1].op.kind == "wrap-"+str(args[0]) {
				b := r.chunks[0].b
				return TupleV{StrV{ropeBytes(b[:len(b)-1])}, m.newBytes(s, r.chunks[1].op.sub, "unwrap"), BoolV(True)}
			}
			return TupleV{StrV{ropeConst("")}, NilV{}, BoolV(False)}
		})
	case "Head":
		return BytesV{cborHead(int(num(args[0])), args[1].(*Poly))}
	case "Content":
		return f.each(st, args[0], func(v Val, s *State) Val {
			kind := ""
			if x, ok := v.(IfaceV); ok {
				v, kind = x.v, x.t.String()
			}
			p, ok := v.(PtrV)
			if !ok {
				m.fail("reading from %T", v)
			}
			return f.each(s, m.loadPath(s, p.obj, p.path), func(v Val, s *State) Val {
				n, ok := v.(*NativeV)
				if ok && n.kind == "buf" {
					return m.newBytes(s, n.x.(*Rope), "read")
				}
				if kind == "*bytes.Buffer" { // a buffer nothing was written to
					return m.newBytes(s, ropeConst(""), "read")
				}
				m.fail("reading from %s", kind)
				return nil
			})
		})
	case "N":
		return args[0]
	case "Big":
		n, ok := new(big.Int).SetString(str(args[0]), 0)
		if !ok {
			m.fail("not a number: %s", str(args[0]))
		}
		return cx.constBig(n)
	case "LE":
		return f.each(st, args[0], func(v Val, s *State) Val {
			b, ok := f.rope(s, v).concrete()
			if !ok {
				m.fail("number of unknown length")
			}
			a := acc{}
			for i, p := range b {
				a.addPoly(p, pow2(uint(8*i)))
			}
			return cx.fromAcc(a)
		})
	case "Raw", "Limb":
		return args[0]
	case "Mod":
		m, _ := args[1].(*Poly).isConst()
		a := acc{}
		for _, t := range args[0].(*Poly).terms {
			a.addPoly(cx.mk([]Term{{t.m, new(big.Int).Mod(t.c, m)}}), big1)
		}
		return cx.fromAcc(a)
	case "Inv":
		a, ok := args[0].(*Poly).isConst()
		if !ok {
			m.fail("reciprocal of an unknown number")
		}
		mod, _ := args[1].(*Poly).isConst()
		r := new(big.Int).ModInverse(a, mod)
		if r == nil {
			m.fail("no reciprocal")
		}
		return cx.constBig(r)
	case "Plus":
		return cx.AddP(args[0].(*Poly), args[1].(*Poly))
	case "Minus":
		return cx.SubP(args[0].(*Poly), args[1].(*Poly))
	case "Times":
		return cx.MulP(args[0].(*Poly), args[1].(*Poly))
	case "Congruent":
		return BoolV(cx.congruent(args[0].(*Poly), args[1].(*Poly), args[2].(*Poly)))
	case "Within":
		lo, hi := cx.bounds(args[0].(*Poly))
		l, ok1 := args[1].(*Poly).isConst()
		h, ok2 := args[2].(*Poly).isConst()
		if !ok1 || !ok2 {
			m.fail("range is not constant")
		}
		if lo.Cmp(l) >= 0 && hi.Cmp(h) <= 0 {
			return BoolV(True)
		}
		return BoolV(cx.Pred(fmt.Sprintf("value in [%v, %v] instead of [%v, %v]", lo, hi, l, h)))
	case "init":
		return TupleV{}
	case "Thorough":
		if thoroughTier {
			return BoolV(True)
		}
		return BoolV(False)
	case "Fresh":
		m.fresh++
		return cx.constInt(int64(m.fresh))
	}
	m.fail("unknown specification function %s", name)
	return nil
}

// failLits is the conjunction of the step outcomes that g decides.
func failLits(g Ref) Ref {
	r := True
	for _, v := range cx.Support(g) {
		if !strings.HasPrefix(cx.BDD.owners[v].name, "fails ") {
			continue
		}
		b := cx.BDD.mk(v, True, False)
		if cx.And(g, b) == False {
			r = cx.And(r, b.not())
		} else if cx.And(g, b.not()) == False {
			r = cx.And(r, b)
		}
	}
	return r
}

// settle drops from bytes the outcomes already decided.
func settle(f *Frame, st *State, v Val, cube Ref) Val {
	if cube == True {
		return v
	}
	switch x := v.(type) {
	case IfaceV:
		return settle(f, st, x.v, cube)
	case SliceV, *ArrayV, StrV, BytesV:
		r := f.tryBytes(st, v)
		if r == nil {
			return v
		}
		var out []Chunk
		for _, c := range r.chunks {
			if c.op == nil {
				nb := make([]*Poly, len(c.b))
				for i, p := range c.b {
					nb[i] = cx.assume(p, cube)
				}
				c = Chunk{b: nb}
			}
			out = append(out, c)
		}
		return StrV{mkRope(out...)}
	case *Poly:
		return cx.assume(x, cube)
	}
	return v
}

// cutPrefix takes p off the front of r: the rest and the condition under which
// r starts with p, as far as the two are built alike.
func cutPrefix(r, p *Rope) (*Rope, Ref) {
	c := True
	rs := append([]Chunk{}, r.chunks...)
	for i, pc := range p.chunks {
		if len(rs) == 0 {
			return ropeConst(""), False
		}
		x := rs[0]
		if pc.op != nil {
			if x.op == nil || x.op.key != pc.op.key {
				return ropeConst(""), False
			}
			rs = rs[1:]
			continue
		}
		if x.op != nil || len(x.b) < len(pc.b) || i < len(p.chunks)-1 && len(x.b) != len(pc.b) {
			return ropeConst(""), False
		}
		for j, b := range pc.b {
			c = cx.And(c, cx.EqP(x.b[j], b))
		}
		if rs[0] = (Chunk{b: x.b[len(pc.b):]}); len(rs[0].b) == 0 {
			rs = rs[1:]
		}
	}
	return mkRope(rs...), c
}

// contentKey names the content of a value, independent of its representation
// (a byte slice, string or byte array of the same content have the same name).
func (f *Frame) contentKey(st *State, v Val) string {
	switch x := v.(type) {
	case IfaceV:
		return f.contentKey(st, x.v)
	case StrV:
		return x.r.key()
	case BytesV:
		return x.r.key()
	case NilV:
		return ropeConst("").key()
	case SliceV:
		if a, ok := f.m.loadPath(st, x.obj, x.path).(*ArrayV); ok && len(a.e) > 0 {
			if _, isP := a.e[0].(*Poly); isP && isByteArr(f.m.objs[x.obj-1].t, x.path) {
				return f.m.bytesOf(st, x).key()
			}
		}
		if x.len == 0 {
			return ropeConst("").key()
		}
	case *ArrayV:
		if len(x.e) > 0 {
			if _, isP := x.e[0].(*Poly); isP {
				return f.m.bytesOf(st, x).key()
			}
		}
	}
	return f.m.key(st, v)
}

func isByteArr(t types.Type, path []int) bool {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return false
		}
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (f *Frame) tainted(st *State, v Val, d int) bool {
	t := f.m.taint
	if t == nil || d > 8 {
		return false
	}
	switch x := v.(type) {
	case *Poly:
		return t.isSecret(x)
	case BoolV:
		return t.refSecret(Ref(x))
	case IfaceV:
		return f.tainted(st, x.v, d+1)
	case StrV:
		return t.ropeSecret(x.r)
	case BytesV:
		return t.ropeSecret(x.r)
	case SliceV:
		for _, e := range f.m.elems(st, x) {
			if f.tainted(st, e, d+1) {
				return true
			}
		}
	case *ArrayV:
		for _, e := range x.e {
			if f.tainted(st, e, d+1) {
				return true
			}
		}
	case *StructV:
		for _, e := range x.f {
			if f.tainted(st, e, d+1) {
				return true
			}
		}
	case TupleV:
		for _, e := range x {
			if f.tainted(st, e, d+1) {
				return true
			}
		}
	case PtrV:
		return f.tainted(st, f.m.loadPath(st, x.obj, x.path), d+1)
	case *Union:
		for _, a := range x.alts {
			if f.tainted(st, a.v, d+1) {
				return true
			}
		}
	case *NativeV:
		return strings.Contains(x.key, secretMark)
	case OpqV:
		return strings.Contains(x.key, secretMark)
	}
	return false
}

// reach collects the memory objects reachable from v.
func (f *Frame) reach(st *State, v Val, out map[ObjID]bool, d int) {
	if d > 20 {
		return
	}
	m := f.m
	switch x := v.(type) {
	case IfaceV:
		f.reach(st, x.v, out, d+1)
	case PtrV:
		if !out[x.obj] {
			out[x.obj] = true
			f.reach(st, m.get(st, x.obj), out, d+1)
		}
	case SliceV:
		if x.cap == 0 {
			return
		}
		if !out[x.obj] {
			out[x.obj] = true
			f.reach(st, m.get(st, x.obj), out, d+1)
		}
	case *ArrayV:
		for _, e := range x.e {
			f.reach(st, e, out, d+1)
		}
	case *StructV:
		for _, e := range x.f {
			f.reach(st, e, out, d+1)
		}
	case *Union:
		for _, a := range x.alts {
			f.reach(st, a.v, out, d+1)
		}
	case MapV:
		if !out[x.obj] {
			out[x.obj] = true
			if mc, ok := m.get(st, x.obj).(*MapC); ok {
				for _, e := range mc.ents {
					f.reach(st, e.k, out, d+1)
					f.reach(st, e.v, out, d+1)
				}
			}
		}
	case FuncV:
		for _, b := range x.bind {
			f.reach(st, b, out, d+1)
		}
	}
}

// deepEq is the condition that two values have equal contents.
func (f *Frame) deepEq(st *State, a, b Val, d int) Ref {
	m := f.m
	if d > 20 {
		m.fail("comparison too deep")
	}
	if u, ok := a.(*Union); ok {
		r := False
		for _, x := range u.alts {
			r = cx.Or(r, cx.And(x.g, f.deepEq(st, x.v, b, d+1)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := False
		for _, x := range u.alts {
			r = cx.Or(r, cx.And(x.g, f.deepEq(st, a, x.v, d+1)))
		}
		return r
	}
	if x, ok := a.(IfaceV); ok {
		if y, ok := b.(IfaceV); ok {
			if isNative(x.t) && isNative(y.t) {
				return boolRef(sameVal(x, y))
			}
			return f.deepEq(st, x.v, y.v, d+1)
		}
	}
	switch x := a.(type) {
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if sameVal(x, y) {
				return True
			}
			return f.deepEq(st, m.loadPath(st, x.obj, x.path), m.loadPath(st, y.obj, y.path), d+1)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := True
			for i := range x.f {
				r = cx.And(r, f.deepEq(st, x.f[i], y.f[i], d+1))
			}
			return r
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			if len(x.e) != len(y.e) {
				return False
			}
			r := True
			for i := range x.e {
				r = cx.And(r, f.deepEq(st, x.e[i], y.e[i], d+1))
			}
			return r
		}
	case SliceV, BytesV, NilV:
		switch b.(type) {
		case SliceV, BytesV, NilV:
			_, na := a.(NilV)
			_, nb := b.(NilV)
			if na && nb {
				return True
			}
			ra, rb := f.tryBytes(st, a), f.tryBytes(st, b)
			if ra != nil && rb != nil {
				return eqRope(ra, rb)
			}
			if na || nb {
				return False
			}
			ea, eb := m.elems(st, a), m.elems(st, b)
			if len(ea) != len(eb) {
				return False
			}
			r := True
			for i := range ea {
				r = cx.And(r, f.deepEq(st, ea[i], eb[i], d+1))
			}
			return r
		}
	}
	return m.eqVal(st, a, b)
}

// ---- summary of results ----

func failed(obls []Obl) []Obl {
	var out []Obl
	for _, o := range obls {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

func funcList(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
