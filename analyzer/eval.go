package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bigZero = new(big.Int)

// ---- control structure ----

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
	kids   []*loopInfo
	order  []*ssa.BasicBlock // blocks of this region in topological order; child loops appear as their headers
	live   []ssa.Value       // values defined inside and used outside
}

type fnInfo struct {
	root  *loopInfo
	inner map[*ssa.BasicBlock]*loopInfo // innermost region of each block
	bad   string
	need  map[needKey]bool
	late  map[*ssa.Return][]*ssa.UnOp
}

// lateLoads gives, for each return statement, the variables it reads as results
// while a later result is a call: the compiler reads them after the call.
func lateLoads(fn *ssa.Function) map[*ssa.Return][]*ssa.UnOp {
	var out map[*ssa.Return][]*ssa.UnOp
	for _, b := range fn.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) < 2 || fn.Syntax() == nil {
			continue
		}
		var stmt *ast.ReturnStmt
		ast.Inspect(fn.Syntax(), func(n ast.Node) bool {
			if s, ok := n.(*ast.ReturnStmt); ok && s.Pos() == r.Pos() {
				stmt = s
			}
			return stmt == nil
		})
		if stmt == nil || len(stmt.Results) != len(r.Results) {
			continue
		}
		calls := false
		for i := len(r.Results) - 1; i >= 0; i-- {
			u, ok := r.Results[i].(*ssa.UnOp)
			if ok && calls && u.Op == token.MUL && u.Block() == b {
				root := u.X
				if fa, ok := root.(*ssa.FieldAddr); ok {
					root = fa.X
				}
				e := stmt.Results[i]
				for {
					if p, ok := e.(*ast.ParenExpr); ok {
						e = p.X
					} else if s, ok := e.(*ast.SelectorExpr); ok {
						e = s.X
					} else {
						break
					}
				}
				id, isID := e.(*ast.Ident)
				a, isVar := root.(*ssa.Alloc)
				if isID && isVar && a.Comment == id.Name {
					if out == nil {
						out = map[*ssa.Return][]*ssa.UnOp{}
					}
					out[r] = append(out[r], u)
				}
			}
			ast.Inspect(stmt.Results[i], func(n ast.Node) bool {
				switch n.(type) {
				case *ast.FuncLit:
					return false
				case *ast.CallExpr:
					calls = true
				}
				return true
			})
		}
	}
	return out
}

type needKey struct {
	b *ssa.BasicBlock
	v ssa.Value
}

// needs reports whether v, defined before b is entered, is used on a path from
// the start of b before it is defined again.
func (fi *fnInfo) needs(b *ssa.BasicBlock, v ssa.Value) bool {
	k := needKey{b, v}
	if r, ok := fi.need[k]; ok {
		return r
	}
	def := v.(ssa.Instruction).Block()
	seen := map[*ssa.BasicBlock]bool{def: true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				for i, e := range r.Edges {
					if e == v && r.Block().Preds[i] == b {
						return true
					}
				}
			default:
				if r.Block() == b {
					return true
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	r := walk(b)
	if !r && b.Parent().Recover != nil { // deferred calls continue there
		r = walk(b.Parent().Recover)
	}
	if fi.need == nil {
		fi.need = map[needKey]bool{}
	}
	fi.need[k] = r
	return r
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.finfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{inner: map[*ssa.BasicBlock]*loopInfo{}}
	m.finfo[fn] = fi
	fi.late = lateLoads(fn)
	root := &loopInfo{blocks: map[*ssa.BasicBlock]bool{}}
	fi.root = root
	for _, b := range fn.Blocks {
		root.blocks[b] = true
	}
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, l := range loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for i, l := range ls {
		l.parent = root
		for _, o := range ls[i+1:] {
			if o.blocks[l.header] && o != l {
				l.parent = o
				break
			}
		}
		l.parent.kids = append(l.parent.kids, l)
	}
	for _, b := range fn.Blocks {
		fi.inner[b] = root
	}
	for i := len(ls) - 1; i >= 0; i-- {
		for b := range ls[i].blocks {
			fi.inner[b] = ls[i]
		}
	}
	for _, r := range append([]*loopInfo{root}, ls...) {
		m.orderRegion(fn, fi, r)
	}
	for _, l := range ls {
		for _, b := range fn.Blocks {
			if !l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.live = append(l.live, v)
						break
					}

				}
			}
		}
	}
	return fi
}

// nodeOf maps a block to its representative in region r: itself, or the header
// of the child loop holding it.
func nodeOf(fi *fnInfo, r *loopInfo, b *ssa.BasicBlock) *ssa.BasicBlock {
	l := fi.inner[b]
	if l == r {
		return b
	}
	for l != nil && l.parent != r {
		l = l.parent
	}
	if l == nil {
		return nil
	}
	return l.header
}

func (m *Machine) orderRegion(fn *ssa.Function, fi *fnInfo, r *loopInfo) {
	succs := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	var nodes []*ssa.BasicBlock
	for _, b := range fn.Blocks {
		if !r.blocks[b] {
			continue
		}
		n := nodeOf(fi, r, b)
		if succs[n] == nil {
			succs[n] = map[*ssa.BasicBlock]bool{}
			nodes = append(nodes, n)
		}
		for _, s := range b.Succs {
			if !r.blocks[s] || s == r.header {
				continue
			}
			t := nodeOf(fi, r, s)
			if t != n {
				succs[n][t] = true
			}
		}
	}
	state := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(n *ssa.BasicBlock)
	dfs = func(n *ssa.BasicBlock) {
		state[n] = 1
		var ss []*ssa.BasicBlock
		for s := range succs[n] {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i].Index > ss[j].Index })
		for _, s := range ss {
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				fi.bad = "irreducible control flow"
			}
		}
		state[n] = 2
		post = append(post, n)
	}
	for _, n := range nodes {
		if state[n] == 0 {
			dfs(n)
		}
	}
	for i := len(post) - 1; i >= 0; i-- {
		r.order = append(r.order, post[i])
	}
}

// ---- frames ----

type retRec struct {
	st *State
	v  Val
}

type deferRec struct {
	g    Ref
	call *ssa.CallCommon
	fv   Val
	args []Val
	pos  ssa.Instruction
}

type Frame struct {
	m        *Machine
	fn       *ssa.Function
	fi       *fnInfo
	regs     map[ssa.Value]Val
	rets     []retRec
	defers   []deferRec
	cur      ssa.Instruction
	isInit   bool
	panicked Ref
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
	phis     []Val
}

func (m *Machine) fail(format string, a ...interface{}) {
	panic(unsup{msg: fmt.Sprintf(format, a...)})
}

// callFn interprets fn on args from st; it returns the merged result and the
// state afterwards (nil if fn never returns).
func (m *Machine) callFn(fn *ssa.Function, args []Val, bind []Val, st *State) (Val, *State) {
	if len(fn.Blocks) == 0 {
		m.fail("no body for %s", fn)
	}
	if len(m.stack) > 150 {
		m.fail("call depth exceeded in %s", fn)
	}
	fi := m.info(fn)
	if fi.bad != "" {
		m.fail("%s in %s", fi.bad, fn)
	}
	m.visited[fn]++
	fr := &Frame{m: m, fn: fn, fi: fi, regs: map[ssa.Value]Val{}}
	if len(args) != len(fn.Params) {
		m.fail("argument count for %s: %d", fn, len(args))
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = bind[i]
	}
	if fn.Synthetic == "package initializer" {
		fr.isInit = true
	}
	if len(m.stack) > 0 && m.stack[len(m.stack)-1].isInit {
		fr.isInit = true
	}
	m.stack = append(m.stack, fr)
	mark := len(m.panics)
	canRecover := fn.Recover != nil && m.defersRecover(fn)
	if canRecover {
		m.recov++
	}
	done := false
	defer func() {
		if !done && m.lastWhere == "" {
			m.lastWhere = strings.Join(m.callStack(), " <- ")
		}
		m.stack = m.stack[:len(m.stack)-1]
	}()
	fr.runRegion(fi.root, []edge{{to: fn.Blocks[0], st: st}})
	if canRecover {
		m.recov--
		fr.recoverPanics(mark)
	}
	done = true
	if len(fr.rets) == 0 {
		return nil, nil
	}
	var ss []*State
	var alts []Alt
	for _, r := range fr.rets {
		ss = append(ss, r.st)
		alts = append(alts, Alt{r.st.g, r.v})
	}
	v := mergeAlts(alts)
	return v, m.mergeStates(ss)
}

func (m *Machine) defersRecover(fn *ssa.Function) bool {
	for _, a := range fn.AnonFuncs {
		for _, b := range a.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

// recoverPanics runs the deferred calls of a frame for the panics raised below
// it and continues in its recover block.
func (f *Frame) recoverPanics(mark int) {
	m := f.m
	if len(m.panics) == mark {
		return
	}
	var ss []*State
	for _, p := range m.panics[mark:] {
		if p.st == nil {
			return
		}
		p.st.g = p.g
		ss = append(ss, p.st)
	}
	m.panics = m.panics[:mark]
	st := m.mergeStates(ss)
	f.panicked = st.g
	st = f.runDefers(st)
	f.panicked = False
	if st == nil || st.g == False {
		return
	}
	var es []edge
	f.execBlock(f.fn.Recover, st, &es)
}

func (f *Frame) runDefers(st *State) *State {
	for i := len(f.defers) - 1; i >= 0; i-- {
		d := f.defers[i]
		g := cx.And(st.g, d.g)
		if g == False {
			continue
		}
		rest := st.clone()
		rest.g = cx.And(st.g, d.g.not())
		s1 := st
		s1.g = g
		_, s2 := f.doCall(d.call, d.fv, d.args, s1, nil)
		switch {
		case s2 == nil && rest.g == False:
			return nil
		case s2 == nil:
			st = rest
		case rest.g == False:
			st = s2
		default:
			st = f.m.mergeStates([]*State{s2, rest})
		}
	}
	return st
}

func (f *Frame) runRegion(r *loopInfo, in []edge) (exits, back []edge) {
	pending := map[*ssa.BasicBlock][]edge{}
	for _, e := range in {
		pending[e.to] = append(pending[e.to], e)
	}
	route := func(es []edge) {
		for _, e := range es {
			switch {
			case e.to == r.header && e.from != nil && r.header != nil:
				back = append(back, e)
			case r.blocks[e.to]:
				n := nodeOf(f.fi, r, e.to)
				pending[n] = append(pending[n], e)
			default:
				exits = append(exits, e)
			}
		}
	}
	first := true
	for _, n := range r.order {
		ins := pending[n]
		if len(ins) == 0 {
			continue
		}
		if l := f.fi.inner[n]; l != r {
			// child loop headed by n (or holding it)
			for l.parent != r {
				l = l.parent
			}
			route(f.runLoop(l, ins))
			continue
		}
		st := f.enter(n, ins)
		first = false
		if st.g == False {
			continue
		}
		var out []edge
		f.execBlock(n, st, &out)
		route(out)
	}
	_ = first
	return
}

func (f *Frame) enter(b *ssa.BasicBlock, ins []edge) *State {
	if len(ins) == 1 {
		i := 0
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			f.regs[p] = ins[0].phis[i]
			i++
		}
		return ins[0].st
	}
	n := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var alts []Alt
		for _, e := range ins {
			alts = append(alts, Alt{e.st.g, e.phis[n]})
		}
		f.regs[p] = mergeAlts(alts)
		n++
	}
	var ss []*State
	for _, e := range ins {
		ss = append(ss, e.st)
	}
	return f.m.mergeStates(ss)
}

func (f *Frame) runLoop(l *loopInfo, ins []edge) []edge {
	var all []edge
	type snap struct {
		g Ref
		v []Val
	}
	var snaps []snap
	cur := ins
	open := 0 // rounds in which leaving the loop was possible but not certain
	for n := 0; ; n++ {
		if open > f.m.loopMax || n > 10000 {
			f.m.fail("loop at %s not bounded by the analysed shapes (guard stays satisfiable after %d rounds)", f.m.posOf(l.header.Instrs[0]), n)
		}
		nret := len(f.rets)
		exits, back := f.runRegion(l, cur)
		if len(exits) > 0 || len(f.rets) > nret {
			open++
		}
		for _, e := range exits {
			s := snap{g: e.st.g, v: make([]Val, len(l.live))}
			for i, v := range l.live {
				if f.fi.needs(e.to, v) {
					s.v[i] = f.regs[v]
				}
			}
			snaps = append(snaps, s)
			all = append(all, e)
		}
		if len(back) == 0 {
			break
		}
		cur = back
	}
	if len(snaps) > 1 {
		for i, v := range l.live {
			var alts []Alt
			for _, s := range snaps {
				if s.v[i] != nil {
					alts = append(alts, Alt{s.g, s.v[i]})
				}
			}
			if len(alts) > 0 {
				f.regs[v] = mergeAlts(alts)
			}
		}
	} else if len(snaps) == 1 {
		for i, v := range l.live {
			if snaps[0].v[i] != nil {
				f.regs[v] = snaps[0].v[i]
			}
		}
	}
	return all
}

func (f *Frame) edgeTo(from, to *ssa.BasicBlock, st *State) edge {
	e := edge{from: from, to: to, st: st}
	var idx = -1
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx < 0 {
			for i, q := range to.Preds {
				if q == from {
					idx = i
				}
			}
		}
		e.phis = append(e.phis, f.val(p.Edges[idx], st))
	}
	return e
}

func (f *Frame) execBlock(b *ssa.BasicBlock, st *State, out *[]edge) {
	m := f.m
	for _, in := range b.Instrs {
		m.steps++
		if m.steps > m.maxStep {
			m.fail("analysis budget exceeded (%d transfer steps)", m.steps)
		}
		f.cur = in
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := f.boolOf(f.val(x.Cond, st), st)
			if m.taint != nil {
				m.taint.branch(m, f, in, c)
			}
			g1, g0 := cx.And(st.g, c), cx.And(st.g, c.not())
			if b.Succs[0] == b.Succs[1] {
				*out = append(*out, f.edgeTo(b, b.Succs[0], st))
				return
			}
			if g1 != False && g0 != False {
				s2 := st.clone()
				s2.g = g0
				st.g = g1
				*out = append(*out, f.edgeTo(b, b.Succs[0], st), f.edgeTo(b, b.Succs[1], s2))
			} else if g1 != False {
				st.g = g1
				*out = append(*out, f.edgeTo(b, b.Succs[0], st))
			} else if g0 != False {
				st.g = g0
				*out = append(*out, f.edgeTo(b, b.Succs[1], st))
			}
			return
		case *ssa.Jump:
			*out = append(*out, f.edgeTo(b, b.Succs[0], st))
			return
		case *ssa.Return:
			for _, u := range f.fi.late[x] {
				if st = f.exec(u, st); st == nil || st.g == False {
					return
				}
			}
			var v Val
			switch len(x.Results) {
			case 0:
				v = TupleV{}
			case 1:
				v = f.val(x.Results[0], st)
			default:
				t := make(TupleV, len(x.Results))
				for i, r := range x.Results {
					t[i] = f.val(r, st)
				}
				v = t
			}
			f.rets = append(f.rets, retRec{st, v})
			return
		case *ssa.Panic:
			f.panicIf(st, True, "explicit panic")
			return
		case *ssa.RunDefers:
			st2 := f.runDefers(st)
			if st2 == nil || st2.g == False {
				return
			}
			st = st2
		default:
			st = f.exec(in, st)
			if st == nil || st.g == False {
				return
			}
		}
	}
}

// panicIf records that the program panics when c holds and continues where it does not.
func (f *Frame) panicIf(st *State, c Ref, kind string) bool {
	g := cx.And(st.g, c)
	if g == False {
		return false
	}
	p := PanicEv{g: g, kind: kind, fn: f.fn, stk: f.m.callStack()}
	if f.cur != nil {
		p.pos = f.cur.Pos()
	}
	if f.m.recov > 0 {
		p.st = st.clone()
	}
	f.m.panics = append(f.m.panics, p)
	st.g = cx.And(st.g, c.not())
	return true
}

func (f *Frame) boolOf(v Val, st *State) Ref {
	switch x := v.(type) {
	case BoolV:
		return Ref(x)
	case *Union:
		r := False
		for _, a := range altsOf(x, st.g) {
			r = cx.Or(r, cx.And(a.g, f.boolOf(a.v, st)))
		}
		return r
	case OpqV:
		return cx.Pred(x.key)
	}
	f.m.fail("condition of kind %T", v)
	return 0
}

func (f *Frame) val(v ssa.Value, st *State) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return f.m.constVal(x)
	case *ssa.Global:
		return PtrV{obj: f.m.globalObj(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{name: "builtin " + x.Name()}
	}
	r, ok := f.regs[v]
	if !ok {
		f.m.fail("internal: undefined register %s in %s", v.Name(), f.fn)
	}
	return prune(r, st.g)
}

func (m *Machine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if _, _, ok := intInfo(t); ok {
		v := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(v); exact {
			return cx.constInt(i)
		}
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		return cx.constBig(b)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return BoolV(True)
		}
		return BoolV(False)
	case constant.String:
		return StrV{ropeConst(constant.StringVal(c.Value))}
	}
	return OpqV{"const " + c.Value.ExactString(), t}
}

// globalObj returns the object of a package variable, running the package's
// initialiser first if its content is needed.
func (m *Machine) globalObj(g *ssa.Global) ObjID {
	if o, ok := m.globals[g]; ok {
		return o
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	m.objs = append(m.objs, &ObjMeta{t: el, site: g.String(), glob: true})
	o := ObjID(len(m.objs))
	m.globals[g] = o
	m.base[o] = zeroVal(el)
	m.initPkg(g.Pkg)
	return o
}

var opaqueGlobals = map[string]bool{
	"os.Stderr": true, "os.Stdout": true, "os.Stdin": true, "os.Args": true, "net/http.DefaultClient": true, "net/http.DefaultTransport": true, "crypto/rand.Reader": true,
}

func (m *Machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	path := p.Pkg.Path()
	if !m.ld.isRepo(path) && !initAllowed(path) {
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				el := g.Type().Underlying().(*types.Pointer).Elem()
				o, have := m.globals[g]
				if !have {
					m.objs = append(m.objs, &ObjMeta{t: el, site: g.String(), glob: true})
					o = ObjID(len(m.objs))
					m.globals[g] = o
				}
				m.base[o] = m.opaqueGlobal(el, g.String())
			}
		}
		return
	}
	p.Build()
	init := p.Func("init")
	if init == nil {
		return
	}
	saved := m.stack
	m.stack = nil
	st := &State{g: True, h: map[ObjID]Val{}}
	_, end := func() (Val, *State) {
		defer func() { m.stack = saved }()
		return m.callFn(init, nil, nil, st)
	}()
	if end == nil {
		m.fail("initialiser of %s does not return", path)
	}
	for o, v := range end.h {
		m.base[o] = v
		m.objs[o-1].glob = true
		if m.objs[o-1].label == "" {
			m.objs[o-1].label = path + " init"
		}
	}
}

func (m *Machine) opaqueGlobal(t types.Type, key string) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			return IfaceV{errT, &NativeV{kind: "error", key: key}}
		}
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return OpqV{key, t}
	}
	return m.opaque(t, key)
}

var verifPkg = types.NewPackage("verif", "verif")

func nativeType(name string) types.Type {
	return types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, verifPkg, name, nil), types.NewStruct(nil, nil), nil))
}

var errT = nativeType("error")

// newError is a fresh non-nil error.
func (m *Machine) newError(key string) Val { return IfaceV{errT, &NativeV{kind: "error", key: key}} }

// errIf is a non-nil error exactly where c holds.
func (m *Machine) errIf(c Ref, key string) Val {
	switch c {
	case True:
		return m.newError(key)
	case False:
		return NilV{}
	}
	return &Union{[]Alt{{c, m.newError(key)}, {c.not(), NilV{}}}}
}

// ---- instructions ----

func (f *Frame) exec(in ssa.Instruction, st *State) *State {
	m := f.m
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		o := m.alloc(st, el, zeroVal(el), f.fn.String())
		f.regs[x] = PtrV{obj: o}
		return st
	case *ssa.Store:
		f.store(st, f.val(x.Addr, st), f.val(x.Val, st))
		return st
	case *ssa.Call:
		fv, args := f.callArgs(&x.Call, st)
		r, st2 := f.doCall(&x.Call, fv, args, st, x)
		if st2 == nil {
			return nil
		}
		f.regs[x] = r
		return st2
	case *ssa.Defer:
		fv, args := f.callArgs(&x.Call, st)
		f.defers = append(f.defers, deferRec{g: st.g, call: &x.Call, fv: fv, args: args, pos: x})
		return st
	case *ssa.Go:
		m.events = append(m.events, Event{g: st.g, name: "go", pos: x.Pos(), fn: f.fn.String(), stk: m.callStack()})
		m.fail("goroutine started at %s", m.posOf(x))
	case *ssa.MapUpdate:
		mv := f.val(x.Map, st)
		k, v := f.val(x.Key, st), f.val(x.Value, st)
		for _, a := range altsOf(mv, st.g) {
			mo, ok := a.v.(MapV)
			if !ok {
				f.panicIf(st, a.g, "assignment to nil map")
				continue
			}
			mc := m.get(st, mo.obj).(*MapC)
			if meta := m.objs[mo.obj-1]; meta.glob && m.recordGlobals() {
				m.wrGlob = append(m.wrGlob, "map "+meta.site+" written in "+m.where())
			}
			g := a.g
			if _, isU := mv.(*Union); !isU {
				g = True
			}
			st.set(mo.obj, m.mapPut(st, mc, g, k, v))
		}
		return st
	case *ssa.Send, *ssa.Select:
		m.fail("channel operation at %s", m.posOf(in))
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		ln, cp := f.num(f.val(x.Len, st), st), f.num(f.val(x.Cap, st), st)
		f.panicIf(st, cx.Less0(ln), "makeslice: len out of range")
		f.panicIf(st, cx.Less0(cx.SubP(cp, ln)), "makeslice: cap out of range")
		var alts []Alt
		for _, lv := range f.enum(ln, st.g, "make length") {
			for _, cv := range f.enum(cp, lv.g, "make capacity") {
				n, c := lv.n, cv.n
				a := &ArrayV{make([]Val, c)}
				z := zeroVal(el)
				for i := range a.e {
					a.e[i] = z
				}
				o := m.alloc(st, types.NewArray(el, int64(c)), a, f.fn.String())
				alts = append(alts, Alt{cv.g, SliceV{obj: o, len: n, cap: c}})
			}
		}
		if len(alts) == 0 {
			return nil
		}
		f.regs[x] = mergeAlts(alts)
		return st
	case *ssa.MakeMap:
		o := m.alloc(st, x.Type(), &MapC{}, f.fn.String())
		f.regs[x] = MapV{o}
		return st
	case *ssa.MakeChan:
		m.fail("channel made at %s", m.posOf(in))
	case *ssa.Range:
		v := f.val(x.X, st)
		f.regs[x] = m.mapVal(v, st.g, func(v Val, g Ref) Val {
			ic := &iterC{}
			switch y := v.(type) {
			case StrV:
				ic.str = y.r
			case MapV:
				ents := m.mapLive(st, m.get(st, y.obj).(*MapC))
				if len(ents) > 1 {
					m.usedMapOrder = true
				}
				if m.mapOrd == 1 {
					for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
						ents[i], ents[j] = ents[j], ents[i]
					}
				}
				ic.ents = ents
			case NilV:
			default:
				m.fail("range over %T", v)
			}
			return IterV{m.alloc(st, types.Typ[types.Int], ic, f.fn.String())}
		})
		return st
	case *ssa.Next:
		v, st2 := f.next(x, st)
		f.regs[x] = v
		return st2
	}
	// pure instructions
	v := f.pure(in.(ssa.Value), st)
	if st.g == False {
		return nil
	}
	f.regs[in.(ssa.Value)] = v
	return st
}

// mapVal applies fn to every alternative of v.
func (m *Machine) mapVal(v Val, g Ref, fn func(v Val, g Ref) Val) Val {
	u, ok := v.(*Union)
	if !ok {
		return fn(v, g)
	}
	var out []Alt
	for _, a := range altsOf(u, g) {
		r := fn(a.v, a.g)
		if r != nil {
			out = append(out, Alt{a.g, r})
		}
	}
	if len(out) == 0 {
		return NilV{}
	}
	return mergeAlts(out)
}

type numAlt struct {
	n int
	g Ref
}

// enum lists the values p can take under g.
func (f *Frame) enum(p *Poly, g Ref, what string) []numAlt {
	if n, ok := p.int(); ok {
		return []numAlt{{n, g}}
	}
	if f.m.taint != nil {
		f.m.taint.site(f.m, f)
	}
	if f.m.taint != nil && f.m.taint.isSecret(p) {
		f.m.taint.report(f.m, f, what+" depends on secret data")
	}
	lo, hi := cx.Range(p)
	// tighten by exact values of bits: the guard may leave few options
	span := new(big.Int).Sub(hi, lo)
	if span.BitLen() > 12 {
		if r := f.bisect(p, g, lo, hi, 0); r != nil {
			return r
		}
		f.m.fail("%s is not bounded by the analysed shapes: %s", what, p)
	}
	var out []numAlt
	for v := lo.Int64(); v <= hi.Int64(); v++ {
		h := cx.And(g, cx.EqP(p, cx.constInt(v)))
		if h != False {
			out = append(out, numAlt{int(v), h})
		}
	}
	return out
}

// bisect narrows a wide range using the guard.
func (f *Frame) bisect(p *Poly, g Ref, lo, hi *big.Int, d int) []numAlt {
	if d > 66 {
		return nil
	}
	if new(big.Int).Sub(hi, lo).BitLen() <= 6 {
		var out []numAlt
		for v := new(big.Int).Set(lo); v.Cmp(hi) <= 0; v = new(big.Int).Add(v, big1) {
			h := cx.And(g, cx.EqP(p, cx.constBig(v)))
			if h != False {
				if !v.IsInt64() {
					return nil
				}
				out = append(out, numAlt{int(v.Int64()), h})
			}
		}
		return out
	}
	mid := new(big.Int).Rsh(new(big.Int).Add(lo, hi), 1)
	c := cx.Less0(cx.SubP(p, cx.constBig(new(big.Int).Add(mid, big1)))) // p <= mid
	lowG, highG := cx.And(g, c), cx.And(g, c.not())
	var out []numAlt
	if lowG != False && highG != False && d > 56 {
		return nil
	}
	if lowG != False {
		r := f.bisect(p, lowG, lo, mid, d+1)
		if r == nil {
			return nil
		}
		out = append(out, r...)
	}
	if highG != False {
		r := f.bisect(p, highG, new(big.Int).Add(mid, big1), hi, d+1)
		if r == nil {
			return nil
		}
		out = append(out, r...)
	}
	if len(out) > 600 {
		return nil
	}
	return out
}

func (f *Frame) num(v Val, st *State) *Poly {
	switch x := v.(type) {
	case *Poly:
		return x
	case *Union:
		if p, ok := mergeAlts(altsOf(x, st.g)).(*Poly); ok {
			return p
		}
	case OpqV:
		if p, ok := f.m.expand(x).(*Poly); ok {
			return p
		}
	}
	f.m.fail("number expected, have %T", v)
	return nil
}

func (f *Frame) store(st *State, addr, v Val) {
	m := f.m
	switch a := addr.(type) {
	case PtrV:
		m.storePath(st, a.obj, a.path, v)
	case NilV:
		f.panicIf(st, True, "nil pointer dereference")
	case *Union:
		for _, alt := range altsOf(a, st.g) {
			switch p := alt.v.(type) {
			case PtrV:
				old := m.loadPath(st, p.obj, p.path)
				m.storePath(st, p.obj, p.path, mergeVal(alt.g, v, cx.And(True, alt.g.not()), old))
			case NilV:
				f.panicIf(st, alt.g, "nil pointer dereference")
			default:
				m.fail("store through %T", alt.v)
			}
		}
	default:
		m.fail("store through %T", addr)
	}
}

func (f *Frame) load(st *State, addr Val, g Ref) Val {
	switch a := addr.(type) {
	case PtrV:
		return f.m.loadPath(st, a.obj, a.path)
	case NilV:
		f.panicIf(st, g, "nil pointer dereference")
		return nil
	case OpqV:
		if e := f.m.expand(a); !sameVal(e, addr) {
			return f.load(st, e, g)
		}
	}
	f.m.fail("load through %T", addr)
	return nil
}

// pure evaluates an instruction without side effects on memory.
func (f *Frame) pure(in ssa.Value, st *State) Val {
	m := f.m
	switch x := in.(type) {
	case *ssa.UnOp:
		v := f.val(x.X, st)
		switch x.Op {
		case token.MUL:
			if m.taint == nil {
				if u, ok := v.(*Union); ok {
					if r := f.muxLoad(u, st); r != nil {
						return r
					}
				}
			}
			return m.mapVal(v, st.g, func(v Val, g Ref) Val { return f.load(st, v, g) })
		case token.NOT:
			return BoolV(f.boolOf(v, st).not())
		case token.SUB:
			w, sg, ok := intInfo(x.Type())
			if !ok {
				return OpqV{"neg(" + m.key(st, v) + ")", x.Type()}
			}
			p := f.num(v, st)
			if m.taint != nil && m.taint.isSecret(p) {
				return m.taint.secret(w, sg)
			}
			return cx.Wrap(cx.scale(p, bigm1), w, sg)
		case token.XOR:
			w, sg, _ := intInfo(x.Type())
			p := f.num(v, st)
			if m.taint != nil && m.taint.isSecret(p) {
				return m.taint.secret(w, sg)
			}
			r := cx.SubP(cx.scale(p, bigm1), cx.onep)
			return cx.Wrap(r, w, sg)
		}
		m.fail("operator %s at %s", x.Op, m.posOf(x))
	case *ssa.BinOp:
		return f.binop(x, st)
	case *ssa.FieldAddr:
		return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val {
			switch p := v.(type) {
			case PtrV:
				return PtrV{p.obj, appendPath(p.path, x.Field)}
			case NilV:
				f.panicIf(st, g, "nil pointer dereference")
				return nil
			}
			m.fail("field address of %T at %s", v, m.posOf(x))
			return nil
		})
	case *ssa.Field:
		v := f.val(x.X, st)
		return m.stepIn(v, x.Field)
	case *ssa.IndexAddr:
		idx := f.num(f.val(x.Index, st), st)
		return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val { return f.indexAddr(st, v, idx, g) })
	case *ssa.Index:
		idx := f.num(f.val(x.Index, st), st)
		return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val { return f.index(st, v, idx, g) })
	case *ssa.Lookup:
		v := f.val(x.X, st)
		k := f.val(x.Index, st)
		if _, isStr := x.X.Type().Underlying().(*types.Basic); isStr {
			return m.mapVal(v, st.g, func(v Val, g Ref) Val { return f.index(st, v, f.num(k, st), g) })
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		return m.mapVal(v, st.g, func(v Val, g Ref) Val {
			r, ok := m.mapGet(st, v, k, et)
			if x.CommaOk {
				return TupleV{r, BoolV(ok)}
			}
			return r
		})
	case *ssa.Slice:
		return f.slice(x, st)
	case *ssa.Extract:
		v := f.val(x.Tuple, st)
		return m.mapVal(v, st.g, func(v Val, g Ref) Val {
			t, ok := v.(TupleV)
			if !ok {
				m.fail("extract from %T at %s", v, m.posOf(x))
			}
			return t[x.Index]
		})
	case *ssa.MakeInterface:
		return IfaceV{x.X.Type(), f.val(x.X, st)}
	case *ssa.ChangeInterface:
		return f.val(x.X, st)
	case *ssa.ChangeType:
		return f.val(x.X, st)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		fv := FuncV{fn: fn}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, f.val(b, st))
		}
		return fv
	case *ssa.Convert:
		return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val { return f.convert(st, v, x.X.Type(), x.Type(), g) })
	case *ssa.MultiConvert:
		return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val { return f.convert(st, v, x.X.Type(), x.Type(), g) })
	case *ssa.SliceToArrayPointer:
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val {
			readOnly := true
			for _, r := range *x.Referrers() {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					readOnly = false
				}
			}
			if b, ok := v.(BytesV); ok && readOnly {
				if bad := cx.Less0(cx.SubP(b.r.ln, cx.constInt(n))); bad != False {
					f.panicIf(st, cx.And(g, bad), "slice to array pointer: length")
					if st.g == False {
						return nil
					}
				}
				arr := &ArrayV{}
				for i := 0; i < int(n); i++ {
					arr.e = append(arr.e, b.r.byteAt(i))
				}
				return PtrV{obj: m.alloc(st, x.Type().Underlying().(*types.Pointer).Elem(), arr, "bytes as array")}
			}
			s, ok := v.(SliceV)
			if !ok || s.len < int(n) {
				f.panicIf(st, g, "slice to array pointer: length")
				return nil
			}
			if arr, ok := m.loadPath(st, s.obj, s.path).(*ArrayV); ok && s.off == 0 && len(arr.e) == int(n) {
				return PtrV{s.obj, s.path}
			}
			if readOnly {
				arr := &ArrayV{append([]Val{}, m.elems(st, s)[:n]...)}
				return PtrV{obj: m.alloc(st, x.Type().Underlying().(*types.Pointer).Elem(), arr, "part as array")}
			}
			m.fail("slice to array pointer of a part of an array at %s", m.posOf(x))
			return nil
		})
	case *ssa.TypeAssert:
		return f.typeAssert(x, st)
	}
	m.fail("instruction %T at %s", in, m.posOf(in.(ssa.Instruction)))
	return nil
}

// muxLoad reads through a union of pointers into one array by halving the
// index bits, which keeps the result small for table lookups.
func (f *Frame) muxLoad(u *Union, st *State) Val { return nil }

func appendPath(p []int, i int) []int {
	r := make([]int, len(p)+1)
	copy(r, p)
	r[len(p)] = i
	return r
}

func (f *Frame) checkIndex(st *State, idx *Poly, n int, g Ref) {
	if f.m.taint != nil {
		f.m.taint.site(f.m, f)
	}
	if f.m.taint != nil && f.m.taint.isSecret(idx) {
		f.m.taint.report(f.m, f, "index depends on secret data")
	}
	bad := cx.Or(cx.Less0(idx), cx.Less0(cx.SubP(cx.constInt(int64(n)), cx.AddP(idx, cx.onep))))
	if bad != False {
		f.panicIf(st, cx.And(g, bad), fmt.Sprintf("index out of range [%s] with length %d", idx, n))
	}
}

func (f *Frame) indexAddr(st *State, v Val, idx *Poly, g Ref) Val {
	m := f.m
	var obj ObjID
	var path []int
	off, n := 0, 0
	switch s := v.(type) {
	case SliceV:
		obj, path, off, n = s.obj, s.path, s.off, s.len
	case PtrV:
		obj, path = s.obj, s.path
		arr := m.loadPath(st, obj, path)
		a, ok := arr.(*ArrayV)
		if !ok {
			m.fail("index of pointer to %T", arr)
		}
		n = len(a.e)
	case NilV:
		f.panicIf(st, g, "index of nil")
		return nil
	case BytesV:
		// reading only: a private object with the opaque content
		lo, hi := cx.Range(s.r.ln)
		_ = hi
		bad := cx.Or(cx.Less0(idx), cx.Less0(cx.SubP(s.r.ln, cx.AddP(idx, cx.onep))))
		if bad != False {
			f.panicIf(st, cx.And(g, bad), "index out of range of a byte string of unknown length")
		}
		_ = lo
		i, ok := idx.int()
		if !ok {
			m.fail("symbolic index into opaque bytes at %s", m.posOf(f.cur))
		}
		o := m.alloc(st, types.Typ[types.Uint8], s.r.byteAt(i), "opaque byte")
		return PtrV{obj: o}
	case OpqV:
		if e := m.expand(s); !sameVal(e, v) {
			return f.indexAddr(st, e, idx, g)
		}
		m.fail("index into opaque %s at %s", s.key, m.posOf(f.cur))
	default:
		m.fail("index address of %T at %s", v, m.posOf(f.cur))
	}
	f.checkIndex(st, idx, n, g)
	if i, ok := idx.int(); ok {
		if i < 0 || i >= n {
			return nil
		}
		return PtrV{obj, appendPath(path, off+i)}
	}
	var alts []Alt
	for _, a := range f.enumIdx(idx, cx.And(st.g, g), n) {
		alts = append(alts, Alt{a.g, PtrV{obj, appendPath(path, off+a.n)}})
	}
	if len(alts) == 0 {
		return nil
	}
	return mergeAlts(alts)
}

func (f *Frame) enumIdx(idx *Poly, g Ref, n int) []numAlt {
	if n > 1<<16 {
		f.m.fail("symbolic index into %d elements", n)
	}
	lo, hi := cx.Range(idx)
	l, h := 0, n-1
	if lo.IsInt64() && lo.Int64() > 0 {
		l = int(lo.Int64())
	}
	if hi.IsInt64() && hi.Int64() < int64(h) {
		h = int(hi.Int64())
	}
	var out []numAlt
	for v := l; v <= h; v++ {
		e := cx.And(g, cx.EqP(idx, cx.constInt(int64(v))))
		if e != False {
			out = append(out, numAlt{v, e})
		}
	}
	return out
}

func (f *Frame) index(st *State, v Val, idx *Poly, g Ref) Val {
	m := f.m
	get := func(n int, at func(i int) Val) Val {
		f.checkIndex(st, idx, n, g)
		if i, ok := idx.int(); ok {
			if i < 0 || i >= n {
				return nil
			}
			return at(i)
		}
		return f.mux(idx, cx.And(st.g, g), n, at)
	}
	switch s := v.(type) {
	case StrV:
		b, ok := s.r.concrete()
		if !ok {
			bad := cx.Or(cx.Less0(idx), cx.Less0(cx.SubP(s.r.ln, cx.AddP(idx, cx.onep))))
			if bad != False {
				f.panicIf(st, cx.And(g, bad), "index out of range of a string of unknown length")
			}
			i, ok := idx.int()
			if !ok {
				m.fail("symbolic index into opaque string")
			}
			return s.r.byteAt(i)
		}
		return get(len(b), func(i int) Val { return b[i] })
	case *ArrayV:
		return get(len(s.e), func(i int) Val { return s.e[i] })
	case OpqV:
		if e := m.expand(s); !sameVal(e, v) {
			return f.index(st, e, idx, g)
		}
	}
	m.fail("index of %T", v)
	return nil
}

// mux selects at(idx) for a symbolic index.
func (f *Frame) mux(idx *Poly, g Ref, n int, at func(i int) Val) Val {
	if idx != nil && f.m.taint != nil && f.m.taint.isSecret(idx) {
		w := uint(8)
		return f.m.taint.secret(w, false)
	}
	var alts []Alt
	for _, a := range f.enumIdx(idx, g, n) {
		alts = append(alts, Alt{a.g, at(a.n)})
	}
	if len(alts) == 0 {
		return nil
	}
	// balanced merging keeps intermediate diagrams small
	for len(alts) > 1 {
		var nx []Alt
		for i := 0; i < len(alts); i += 2 {
			if i+1 == len(alts) {
				nx = append(nx, alts[i])
				continue
			}
			nx = append(nx, Alt{cx.Or(alts[i].g, alts[i+1].g), mergeVal(alts[i].g, alts[i].v, alts[i+1].g, alts[i+1].v)})
		}
		alts = nx
	}
	return alts[0].v
}

func (f *Frame) slice(x *ssa.Slice, st *State) Val {
	m := f.m
	return m.mapVal(f.val(x.X, st), st.g, func(v Val, g Ref) Val {
		var lo, hi, max *Poly
		if x.Low != nil {
			lo = f.num(f.val(x.Low, st), st)
		}
		if x.High != nil {
			hi = f.num(f.val(x.High, st), st)
		}
		if x.Max != nil {
			max = f.num(f.val(x.Max, st), st)
		}
		return f.sliceVal(st, v, lo, hi, max, g)
	})
}

func (f *Frame) sliceVal(st *State, v Val, lo, hi, max *Poly, g Ref) Val {
	m := f.m
	switch s := v.(type) {
	case NilV:
		z := func(p *Poly) Ref {
			if p == nil {
				return False
			}
			return cx.Eq0(p).not()
		}
		bad := cx.Or(z(lo), cx.Or(z(hi), z(max)))
		f.panicIf(st, cx.And(g, bad), "slice bounds out of range of nil")
		return NilV{}
	case OpqV:
		if e := m.expand(s); !sameVal(e, v) {
			return f.sliceVal(st, e, lo, hi, max, g)
		}
		m.fail("slice of opaque %s", s.key)
	case PtrV:
		arr := m.loadPath(st, s.obj, s.path)
		a, ok := arr.(*ArrayV)
		if !ok {
			m.fail("slice of pointer to %T", arr)
		}
		return f.sliceVal(st, SliceV{obj: s.obj, path: s.path, len: len(a.e), cap: len(a.e)}, lo, hi, max, g)
	case SliceV:
		if lo == nil {
			lo = cx.zero
		}
		if hi == nil {
			hi = cx.constInt(int64(s.len))
		}
		capn := cx.constInt(int64(s.cap))
		if max == nil {
			max = capn
		}
		bad := cx.Or(cx.Less0(lo), cx.Or(cx.Less0(cx.SubP(hi, lo)), cx.Or(cx.Less0(cx.SubP(max, hi)), cx.Less0(cx.SubP(capn, max)))))
		if bad != False {
			f.panicIf(st, cx.And(g, bad), fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", lo, hi, s.cap))
			g = cx.And(g, st.g)
			if g == False {
				return nil
			}
		}
		var alts []Alt
		for _, l := range f.enum(lo, cx.And(g, st.g), "slice bound") {
			for _, h := range f.enum(hi, l.g, "slice bound") {
				for _, mx := range f.enum(max, h.g, "slice bound") {
					alts = append(alts, Alt{mx.g, SliceV{obj: s.obj, path: s.path, off: s.off + l.n, len: h.n - l.n, cap: mx.n - l.n}})
				}
			}
		}
		if len(alts) == 0 {
			return nil
		}
		return mergeAlts(alts)
	case StrV:
		r := f.sliceRope(st, s.r, lo, hi, g)
		if r == nil {
			return nil
		}
		return m.mapVal(r, st.g, func(v Val, g Ref) Val { return StrV{v.(BytesV).r} })
	case BytesV:
		return f.sliceRope(st, s.r, lo, hi, g)
	}
	m.fail("slice of %T", v)
	return nil
}

// sliceRope returns BytesV alternatives.
func (f *Frame) sliceRope(st *State, r *Rope, lo, hi *Poly, g Ref) Val {
	if lo == nil {
		lo = cx.zero
	}
	full := hi == nil
	if full {
		hi = r.ln
	}
	bad := cx.Or(cx.Less0(lo), cx.Or(cx.Less0(cx.SubP(hi, lo)), cx.Less0(cx.SubP(r.ln, hi))))
	if bad != False {
		f.panicIf(st, cx.And(g, bad), fmt.Sprintf("slice bounds out of range [%s:%s] of %s", lo, hi, r.ln))
		g = cx.And(g, st.g)
		if g == False {
			return nil
		}
	}
	b, ok := r.concrete()
	if ok {
		var alts []Alt
		for _, l := range f.enum(lo, cx.And(g, st.g), "slice bound") {
			for _, h := range f.enum(hi, l.g, "slice bound") {
				alts = append(alts, Alt{h.g, BytesV{ropeBytes(b[l.n:h.n])}})
			}
		}
		if len(alts) == 0 {
			return nil
		}
		return mergeAlts(alts)
	}
	if z, ok := lo.int(); ok {
		if z == 0 && (full || hi == r.ln) {
			return BytesV{r}
		}
		// cut at a concrete position inside the concrete prefix
		pre, rest, ok := splitRope(r, z)
		_ = pre
		if ok && (full || hi == r.ln) {
			return BytesV{rest}
		}
		if h, ok2 := hi.int(); ok && ok2 {
			mid, _, ok3 := splitRope(rest, h-z)
			if ok3 {
				return BytesV{mid}
			}
		}
	}
	// suffix cut of a concrete tail, e.g. s[:len(s)-n]
	if z, ok := lo.int(); ok && z == 0 {
		if d, ok := cx.SubP(r.ln, hi).int(); ok && d >= 0 {
			last := r.chunks[len(r.chunks)-1]
			if last.op == nil && len(last.b) >= d {
				cs := append([]Chunk{}, r.chunks[:len(r.chunks)-1]...)
				cs = append(cs, Chunk{b: last.b[:len(last.b)-d]})
				return BytesV{mkRope(cs...)}
			}
		}
	}
	return BytesV{ropeOp(fmt.Sprintf("sub(%s,%s,%s)", r.key(), lo.full(), hi.full()), cx.SubP(hi, lo))}
}

func splitRope(r *Rope, n int) (a, b *Rope, ok bool) {
	pos := 0
	for i, c := range r.chunks {
		if pos == n {
			return mkRope(r.chunks[:i]...), mkRope(r.chunks[i:]...), true
		}
		l := len(c.b)
		if c.op != nil {
			v, isC := c.op.ln.int()
			inside := isC && pos+v > n
			if !isC {
				lo, _ := cx.Range(c.op.ln)
				inside = i == len(r.chunks)-1 || lo.Cmp(big.NewInt(int64(n-pos))) >= 0
				if !inside {
					return nil, nil, false
				}
			}
			if inside {
				// the caller has established that the cut is within bounds
				b, rest := c.op.cut(n - pos)
				x := append(append([]Chunk{}, r.chunks[:i]...), Chunk{b: b})
				y := []Chunk{}
				if v, ok := rest.ln.int(); !ok || v > 0 {
					y = append(y, Chunk{op: rest})
				}
				y = append(y, r.chunks[i+1:]...)
				return mkRope(x...), mkRope(y...), true
			}
			l = v
		} else if pos+l > n {
			x := append(append([]Chunk{}, r.chunks[:i]...), Chunk{b: c.b[:n-pos]})
			y := append([]Chunk{{b: c.b[n-pos:]}}, r.chunks[i+1:]...)
			return mkRope(x...), mkRope(y...), true
		}
		pos += l
	}
	if pos == n {
		return r, ropeConst(""), true
	}
	return nil, nil, false
}

func (f *Frame) next(x *ssa.Next, st *State) (Val, *State) {
	m := f.m
	tt := x.Type().(*types.Tuple)
	it := f.val(x.Iter, st)
	alts := altsOf(it, st.g)
	var states []*State
	var res []Alt
	for _, a := range alts {
		s := st
		if len(alts) > 1 {
			s = st.clone()
			s.g = a.g
		}
		io, ok := a.v.(IterV)
		if !ok {
			m.fail("next on %T", a.v)
		}
		// the iterator itself may be a union after loop merges
		var ics []Alt
		cur := m.get(s, io.obj)
		ics = altsOf(cur, s.g)
		for _, ia := range ics {
			s2 := s
			if len(ics) > 1 {
				s2 = s.clone()
				s2.g = ia.g
			}
			ic := ia.v.(*iterC)
			if x.IsString {
				f.nextStr(s2, io.obj, ic, &states, &res)
				continue
			}
			if ic.pos >= len(ic.ents) {
				res = append(res, Alt{s2.g, TupleV{BoolV(False), zeroVal2(tt.At(1).Type()), zeroVal2(tt.At(2).Type())}})
				states = append(states, s2)
				continue
			}
			e := ic.ents[ic.pos]
			s2.set(io.obj, &iterC{pos: ic.pos + 1, ents: ic.ents})
			if cx.Implies(s2.g, e.g) {
				res = append(res, Alt{s2.g, TupleV{BoolV(True), e.k, e.v}})
				states = append(states, s2)
			} else {
				m.fail("range over a map with conditional entries")
			}
		}
	}
	return mergeAlts(res), m.mergeStates(states)
}

func zeroVal2(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return cx.zero
	}
	return zeroVal(t)
}

func (f *Frame) nextStr(st *State, obj ObjID, ic *iterC, states *[]*State, res *[]Alt) {
	b, ok := ic.str.concrete()
	if !ok {
		f.m.fail("range over a string of unknown length")
	}
	if ic.pos >= len(b) {
		*res = append(*res, Alt{st.g, TupleV{BoolV(False), cx.zero, cx.zero}})
		*states = append(*states, st)
		return
	}
	p := b[ic.pos]
	ascii := cx.Less0(cx.SubP(p, cx.constInt(128)))
	ga, gn := cx.And(st.g, ascii), cx.And(st.g, ascii.not())
	if ga != False {
		s := st.clone()
		s.g = ga
		s.set(obj, &iterC{pos: ic.pos + 1, str: ic.str})
		*res = append(*res, Alt{ga, TupleV{BoolV(True), cx.constInt(int64(ic.pos)), p}})
		*states = append(*states, s)
	}
	if gn != False {
		// a rune of 0x80 or more, of unknown width
		key := fmt.Sprintf("rune(%s,%d)", ic.str.key(), ic.pos)
		r := cx.AddP(cx.constInt(128), cx.leaf(key, bigZero, pow2m1(21)))
		w := cx.leaf("width"+key, bigZero, big.NewInt(3)) // width-1
		for k := 0; k < 4 && ic.pos+k+1 <= len(b); k++ {
			g := cx.And(gn, cx.EqP(w, cx.constInt(int64(k))))
			if ic.pos+4 > len(b) && k == len(b)-ic.pos-1 {
				g = cx.And(gn, cx.Less0(cx.SubP(w, cx.constInt(int64(k)))).not())
			}
			if g == False {
				continue
			}
			s := st.clone()
			s.g = g
			s.set(obj, &iterC{pos: ic.pos + k + 1, str: ic.str})
			*res = append(*res, Alt{g, TupleV{BoolV(True), cx.constInt(int64(ic.pos)), r}})
			*states = append(*states, s)
		}
	}
}

// ---- maps ----

func (m *Machine) mapPut(st *State, mc *MapC, g Ref, k, v Val) *MapC {
	r := &MapC{append([]mapEnt{}, mc.ents...)}
	if g == True {
		for i := range r.ents {
			if r.ents[i].g == True && m.eqVal(st, r.ents[i].k, k) == True && !r.ents[i].del {
				last := true
				for _, e := range r.ents[i+1:] {
					if m.eqVal(st, e.k, k) != False {
						last = false
					}
				}
				if last {
					r.ents[i].v = v
					return r
				}
			}
		}
	}
	r.ents = append(r.ents, mapEnt{g: g, k: k, v: v})
	return r
}

func (m *Machine) mapGet(st *State, v Val, k Val, et types.Type) (Val, Ref) {
	switch x := v.(type) {
	case NilV:
		return zeroVal(et), False
	case MapV:
		mc := m.get(st, x.obj).(*MapC)
		res := zeroVal(et)
		ok := False
		for _, e := range mc.ents {
			c := cx.And(e.g, m.eqVal(st, e.k, k))
			if c == False {
				continue
			}
			nv := e.v
			if e.del {
				nv = zeroVal(et)
				ok = cx.And(ok, c.not())
			} else {
				ok = cx.Or(ok, c)
			}
			res = mergeVal(c, nv, c.not(), res)
		}
		return res, ok
	case OpqV:
		key := fmt.Sprintf("%s[%s]", x.key, m.key(st, k))
		return m.opaque(et, key), cx.Pred("has " + key)
	}
	m.fail("lookup in %T", v)
	return nil, False
}

func (m *Machine) mapLive(st *State, mc *MapC) []mapEnt {
	var out []mapEnt
	for _, e := range mc.ents {
		if e.del {
			for i := range out {
				if m.eqVal(st, out[i].k, e.k) == True {
					out = append(out[:i:i], out[i+1:]...)
					break
				}
			}
			continue
		}
		dup := false
		for i := range out {
			c := m.eqVal(st, out[i].k, e.k)
			if c == True {
				out[i].v = mergeVal(e.g, e.v, e.g.not(), out[i].v)
				out[i].g = cx.Or(out[i].g, e.g)
				dup = true
				break
			}
			if c != False {
				m.fail("range over a map with symbolic keys")
			}
		}
		if !dup {
			out = append(out, e)
		}
	}
	return out
}

// ---- comparison ----

// eqVal is the condition that two values compare equal.
func (m *Machine) eqVal(st *State, a, b Val) Ref {
	if u, ok := a.(*Union); ok {
		r := False
		for _, x := range u.alts {
			r = cx.Or(r, cx.And(x.g, m.eqVal(st, x.v, b)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := False
		for _, x := range u.alts {
			r = cx.Or(r, cx.And(x.g, m.eqVal(st, a, x.v)))
		}
		return r
	}
	switch x := a.(type) {
	case *Poly:
		y, ok := b.(*Poly)
		if !ok {
			if o, isO := b.(OpqV); isO {
				y, ok = m.expand(o).(*Poly)
			}
		}
		if ok {
			return cx.EqP(x, y)
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return cx.Xor(Ref(x), Ref(y)).not()
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			return eqRope(x.r, y.r)
		}
	case NilV:
		switch y := b.(type) {
		case NilV:
			return True
		case OpqV:
			return m.nilPred(y)
		case BytesV:
			if n, ok := y.r.ln.int(); ok && n == 0 {
				return False
			}
			return cx.And(cx.Eq0(y.r.ln), cx.Pred("isnil("+y.r.key()+")"))
		}
		return False
	case *StructV:
		if y, ok := b.(*StructV); ok {
			r := True
			for i := range x.f {
				r = cx.And(r, m.eqVal(st, x.f[i], y.f[i]))
			}
			return r
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			r := True
			for i := range x.e {
				r = cx.And(r, m.eqVal(st, x.e[i], y.e[i]))
			}
			return r
		}
	case PtrV:
		switch y := b.(type) {
		case PtrV:
			if sameVal(x, y) {
				return True
			}
			return False
		case NilV:
			return False
		}
	case IfaceV:
		switch y := b.(type) {
		case NilV:
			return False
		case IfaceV:
			if !types.Identical(x.t, y.t) {
				return False
			}
			if types.Identical(x.t, errT) && sameVal(x, y) {
				return True
			}
			return m.eqVal(st, x.v, y.v)
		case OpqV:
			return m.eqVal(st, b, a)
		}
		// comparison of interface with concrete value
		return m.eqVal(st, x.v, b)
	case SliceV, MapV, FuncV:
		if _, ok := b.(NilV); ok {
			return False
		}
	case BytesV:
		if _, ok := b.(NilV); ok {
			return m.eqVal(st, b, a)
		}
	case *NativeV:
		if sameVal(a, b) {
			return True
		}
		if _, ok := b.(NilV); ok {
			return False
		}
		if y, ok := b.(*NativeV); ok && x.key != y.key {
			return cx.Pred("same(" + x.key + "," + y.key + ")")
		}
		return False
	case OpqV:
		switch y := b.(type) {
		case NilV:
			return m.nilPred(x)
		case OpqV:
			if x.key == y.key {
				return True
			}
			p, q := x.key, y.key
			if p > q {
				p, q = q, p
			}
			return cx.Pred("same(" + p + "," + q + ")")
		case IfaceV:
			return cx.Pred("same(" + x.key + "," + m.key(st, b) + ")")
		case *Poly:
			return m.eqVal(st, b, a)
		}
	}
	m.fail("comparison of %T with %T", a, b)
	return False
}

func (m *Machine) nilPred(o OpqV) Ref {
	if o.key == "nil" || m.nilOpq[o.key] {
		return True
	}
	if m.nonNil(o.key) {
		return False
	}
	return cx.Pred("isnil(" + o.key + ")")
}

var nonNilKeys = map[string]bool{}

func (m *Machine) nonNil(k string) bool { return nonNilKeys[k] }

func (f *Frame) binop(x *ssa.BinOp, st *State) Val {
	m := f.m
	a, b := f.val(x.X, st), f.val(x.Y, st)
	w, sg, isInt := intInfo(x.X.Type())
	if isInt {
		_, aok := a.(*Poly)
		_, bok := b.(*Poly)
		if !aok || !bok {
			a, b = f.num(a, st), f.num(b, st)
		}
		return f.arith(x.Op, a.(*Poly), b.(*Poly), w, sg, x.Y.Type(), st)
	}
	switch x.Op {
	case token.EQL:
		return BoolV(m.eqVal(st, a, b))
	case token.NEQ:
		return BoolV(m.eqVal(st, a, b).not())
	case token.ADD: // strings
		return m.mapVal(a, st.g, func(a Val, g Ref) Val {
			return m.mapVal(b, g, func(b Val, g Ref) Val {
				p, ok1 := a.(StrV)
				q, ok2 := b.(StrV)
				if !ok1 || !ok2 {
					return OpqV{"add(" + m.key(st, a) + "," + m.key(st, b) + ")", x.Type()}
				}
				return StrV{ropeCat(p.r, q.r)}
			})
		})
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if s, ok := a.(StrV); ok {
			if t, ok := b.(StrV); ok {
				c1, k1 := s.r.constStr()
				c2, k2 := t.r.constStr()
				if k1 && k2 {
					r := false
					switch x.Op {
					case token.LSS:
						r = c1 < c2
					case token.LEQ:
						r = c1 <= c2
					case token.GTR:
						r = c1 > c2
					case token.GEQ:
						r = c1 >= c2
					}
					if r {
						return BoolV(True)
					}
					return BoolV(False)
				}
			}
		}
		return BoolV(cx.Pred(fmt.Sprintf("%s %s %s", m.key(st, a), x.Op, m.key(st, b))))
	}
	if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		p, q := f.boolOf(a, st), f.boolOf(b, st)
		switch x.Op {
		case token.AND, token.LAND:
			return BoolV(cx.And(p, q))
		case token.OR, token.LOR:
			return BoolV(cx.Or(p, q))
		}
	}
	return OpqV{fmt.Sprintf("(%s %s %s)", m.key(st, a), x.Op, m.key(st, b)), x.Type()}
}

func (f *Frame) arith(op token.Token, p, q *Poly, w uint, sg bool, yt types.Type, st *State) Val {
	m := f.m
	if m.taint != nil && (m.taint.isSecret(p) || m.taint.isSecret(q)) {
		return m.taint.arith(m, f, op, p, q, w, sg)
	}
	switch op {
	case token.ADD:
		return cx.limb(cx.WrapUnder(st.g, cx.AddP(p, q), w, sg))
	case token.SUB:
		return cx.limb(cx.WrapUnder(st.g, cx.SubP(p, q), w, sg))
	case token.MUL:
		return cx.limb(cx.WrapUnder(st.g, cx.MulP(p, q), w, sg))
	case token.EQL:
		return BoolV(cx.EqP(p, q))
	case token.NEQ:
		return BoolV(cx.EqP(p, q).not())
	case token.LSS:
		return BoolV(cx.Less0(cx.SubP(p, q)))
	case token.GEQ:
		return BoolV(cx.Less0(cx.SubP(p, q)).not())
	case token.GTR:
		return BoolV(cx.Less0(cx.SubP(q, p)))
	case token.LEQ:
		return BoolV(cx.Less0(cx.SubP(q, p)).not())
	case token.SHL, token.SHR:
		_, ysg, _ := intInfo(yt)
		if ysg {
			f.panicIf(st, cx.Less0(q), "negative shift amount")
		}
		sh := func(k int) *Poly {
			if op == token.SHL {
				if k >= int(w) {
					return cx.zero
				}
				return cx.Wrap(cx.shl(p, uint(k)), w, sg)
			}
			if k > 64 {
				k = 64
			}
			return cx.Shr(p, uint(k))
		}
		if v, ok := q.isConst(); ok {
			if !v.IsInt64() || v.Int64() > 1<<20 {
				return sh(1 << 20)
			}
			return sh(int(v.Int64()))
		}
		lo, hi := cx.Range(q)
		if lo.Sign() < 0 {
			lo = bigZero
		}
		var alts []Alt
		top := int64(w)
		if hi.IsInt64() && hi.Int64() < top {
			top = hi.Int64()
		}
		for k := lo.Int64(); k <= top; k++ {
			c := cx.EqP(q, cx.constInt(k))
			if k == int64(w) {
				c = cx.Less0(cx.SubP(q, cx.constInt(k))).not()
			}
			if g := cx.And(st.g, c); g != False {
				alts = append(alts, Alt{g, sh(int(k))})
			}
		}
		if len(alts) == 0 {
			return cx.zero
		}
		return mergeAlts(alts)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return f.bitop(op, p, q, w, sg)
	case token.QUO, token.REM:
		f.panicIf(st, cx.Eq0(q), "division by zero")
		lo, _ := cx.Range(p)
		if d, ok := q.isConst(); ok && d.Sign() > 0 {
			if pc, ok := p.isConst(); ok {
				if op == token.QUO {
					return cx.constBig(new(big.Int).Quo(pc, d))
				}
				return cx.constBig(new(big.Int).Rem(pc, d))
			}
			if lo.Sign() >= 0 {
				if z := d.TrailingZeroBits(); d.BitLen()-1 == int(z) {
					if op == token.QUO {
						return cx.Shr(p, z)
					}
					return cx.LowMask(p, z)
				}
				_, hi := cx.Range(p)
				qt := cx.leaf(fmt.Sprintf("div(%s,%s)", p.full(), d), new(big.Int).Quo(lo, d), new(big.Int).Quo(hi, d))
				if op == token.QUO {
					return qt
				}
				r := cx.SubP(p, cx.scale(qt, d))
				cx.note(r, bigZero, new(big.Int).Sub(d, big1))
				return r
			}
		}
		l, h := typeRange(w, sg)
		return cx.leaf(fmt.Sprintf("(%s %s %s)w%d", p.full(), op, q.full(), w), l, h)
	}
	m.fail("integer operator %s", op)
	return nil
}

// bitop handles bitwise operators on two's complement values.
func (f *Frame) bitop(op token.Token, p, q *Poly, w uint, sg bool) Val {
	toU := func(p *Poly) *Poly {
		if !sg {
			return p
		}
		return cx.LowMask(p, w)
	}
	fromU := func(p *Poly) *Poly { return cx.Wrap(p, w, sg) }
	// masks by a non-negative constant need no bit view
	if op == token.AND && !sg {
		for i := 0; i < 2; i++ {
			if b, ok := onesBit(q, w); ok {
				r := cx.MulP(p, b)
				_, hi := cx.Range(p)
				cx.note(r, new(big.Int), hi)
				return r
			}
			p, q = q, p
		}
	}
	if op == token.AND {
		if v, ok := q.isConst(); ok && v.Sign() >= 0 {
			return cx.limb(fromU(cx.AndConst(p, v)))
		}
		if v, ok := p.isConst(); ok && v.Sign() >= 0 {
			return cx.limb(fromU(cx.AndConst(q, v)))
		}
	}
	if op == token.AND_NOT {
		if v, ok := q.isConst(); ok {
			m := new(big.Int).AndNot(pow2m1(w), v)
			return fromU(cx.AndConst(toU(p), m))
		}
	}
	// x & -bit and similar: multiplication by a single bit
	if op == token.AND {
		for i := 0; i < 2; i++ {
			if b, ok := negBit(q); ok {
				return fromU(cx.MulP(toU(p), b))
			}
			p, q = q, p
		}
	}
	// sign extension patterns: x ^ y with small shared structure
	u, v := toU(p), toU(q)
	var r *Poly
	switch op {
	case token.AND:
		r = cx.Bitwise('&', u, v, w)
	case token.OR:
		r = cx.Bitwise('|', u, v, w)
	case token.XOR:
		r = cx.Bitwise('^', u, v, w)
	case token.AND_NOT:
		nv := cx.SubP(cx.constBig(pow2m1(w)), v)
		r = cx.Bitwise('&', u, nv, w)
	}
	if r == nil {
		f.m.fail("bitwise %s on %s and %s", op, p, q)
	}
	return fromU(r)
}

// onesBit recognises b times all ones, for a single bit b.
func onesBit(q *Poly, w uint) (*Poly, bool) {
	if len(q.terms) == 0 || len(q.terms) > 3 || w < 2 {
		return nil, false
	}
	last := q.terms[len(q.terms)-1]
	if len(last.m.atoms) == 0 || new(big.Int).Mod(last.c, pow2m1(w)).Sign() != 0 {
		return nil, false
	}
	bs := cx.placed(q)
	if len(bs) != int(w) {
		return nil, false
	}
	for _, b := range bs {
		if b != bs[0] {
			return nil, false
		}
	}
	return cx.BitPoly(bs[0]), true
}

// negBit recognises -b for a single bit b (0 or all ones).
func negBit(q *Poly) (*Poly, bool) {
	lo, hi := cx.Range(q)
	if lo.Cmp(bigm1) == 0 && hi.Sign() == 0 {
		return cx.scale(q, bigm1), true
	}
	return nil, false
}

// ---- conversions ----

func (f *Frame) convert(st *State, v Val, from, to types.Type, g Ref) Val {
	m := f.m
	if o, ok := v.(OpqV); ok {
		v = m.expand(o)
	}
	w, sg, toInt := intInfo(to)
	switch x := v.(type) {
	case *Poly:
		if toInt {
			if m.taint != nil && m.taint.isSecret(x) {
				return m.taint.secret(w, sg)
			}
			return cx.WrapUnder(g, x, w, sg)
		}
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			_, hi := cx.Range(x)
			lo, _ := cx.Range(x)
			if lo.Sign() >= 0 && hi.Cmp(big.NewInt(128)) < 0 {
				return StrV{ropeBytes([]*Poly{x})}
			}
			if n, ok := x.int(); ok {
				return StrV{ropeConst(string(rune(n)))}
			}
			ascii := cx.And(cx.Less0(x).not(), cx.Less0(cx.SubP(x, cx.constInt(128))))
			key := "utf8(" + x.full() + ")"
			return mergeVal(cx.And(g, ascii), StrV{ropeBytes([]*Poly{x})}, cx.And(g, ascii.not()), StrV{ropeOp(key, cx.leaf("len("+key+")", big.NewInt(2), big.NewInt(4)))})
		}
		return OpqV{"conv(" + x.full() + ")", to}
	case StrV:
		if isByteSlice(to) {
			return m.newBytes(st, x.r, f.fn.String())
		}
		if s, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := x.r.concrete(); ok {
				// runes; only for ASCII content
				asc := True
				var es []Val
				for _, p := range b {
					asc = cx.And(asc, cx.Less0(cx.SubP(p, cx.constInt(128))))
					es = append(es, p)
				}
				if cx.Implies(cx.And(st.g, g), asc) {
					return m.newSlice(st, s.Elem(), es, f.fn.String())
				}
			}
			m.fail("conversion of a non-ASCII string to runes")
		}
		return x
	case SliceV, BytesV, NilV:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if isByteSlice(from) {
				return StrV{m.bytesOf(st, x)}
			}
			es := m.elems(st, x)
			var bs []*Poly
			for _, e := range es {
				p := f.num(e, st)
				_, hi := cx.Range(p)
				lo, _ := cx.Range(p)
				if lo.Sign() < 0 || hi.Cmp(big.NewInt(128)) >= 0 {
					m.fail("conversion of runes to a string")
				}
				bs = append(bs, p)
			}
			return StrV{ropeBytes(bs)}
		}
		return x
	case PtrV:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x
		}
		return x
	}
	if toInt {
		lo, hi := typeRange(w, sg)
		return cx.leaf("conv("+m.key(st, v)+")", lo, hi)
	}
	return OpqV{"conv(" + m.key(st, v) + ")", to}
}

func (f *Frame) typeAssert(x *ssa.TypeAssert, st *State) Val {
	m := f.m
	v := f.val(x.X, st)
	iface, toIface := x.AssertedType.Underlying().(*types.Interface)
	okAll := False
	var out []Alt
	for _, a := range altsOf(v, st.g) {
		var ok Ref
		var res Val
		switch y := a.v.(type) {
		case NilV:
			ok, res = False, nil
		case IfaceV:
			if toIface {
				if types.Implements(y.t, iface) || isNative(y.t) && nativeImplements(y, x.AssertedType) {
					ok, res = True, y
				} else {
					ok = False
				}
			} else if types.Identical(y.t, x.AssertedType) {
				ok, res = True, y.v
			} else {
				ok = False
			}
		case OpqV:
			key := fmt.Sprintf("%s.(%s)", y.key, x.AssertedType)
			ok = cx.Pred("is " + key)
			if toIface {
				res = OpqV{y.key, x.AssertedType}
				if types.Implements(y.t, iface) || types.Identical(y.t.Underlying(), iface) {
					ok = m.nilPred(y).not()
				}
			} else {
				res = m.opaque(x.AssertedType, key)
			}
		default:
			m.fail("type assertion on %T", a.v)
		}
		okAll = cx.Or(okAll, cx.And(a.g, ok))
		if g := cx.And(a.g, ok); g != False {
			out = append(out, Alt{g, res})
		}
		if g := cx.And(a.g, ok.not()); g != False && x.CommaOk {
			out = append(out, Alt{g, zeroVal(x.AssertedType)})
		}
	}
	if !x.CommaOk {
		f.panicIf(st, okAll.not(), "type assertion to "+x.AssertedType.String()+" fails")
		if len(out) == 0 {
			return nil
		}
		return mergeAlts(out)
	}
	return TupleV{mergeAlts(out), BoolV(okAll)}
}

func isNative(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() == verifPkg
}

func nativeImplements(v IfaceV, t types.Type) bool {
	if n, ok := v.v.(*NativeV); ok && n.kind == "error" {
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return false
}
