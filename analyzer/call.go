package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(f *Frame, st *State, args []Val) Val

var intrinsics = map[string]intrinsic{}

// nativeMethods: "kind.Method" on analyser-modelled receivers (pointers to NativeV).
var nativeMethods = map[string]intrinsic{}

func (f *Frame) callArgs(c *ssa.CallCommon, st *State) (Val, []Val) {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = f.val(a, st)
	}
	return f.val(c.Value, st), args
}

// each runs fn for every alternative of v, splitting and rejoining the state.
func (f *Frame) each(st *State, v Val, fn func(v Val, s *State) Val) Val {
	u, ok := v.(*Union)
	if !ok {
		return fn(v, st)
	}
	alts := altsOf(u, st.g)
	if len(alts) == 1 {
		return fn(alts[0].v, st)
	}
	var ss []*State
	var out []Alt
	for _, a := range alts {
		s := st.clone()
		s.g = a.g
		r := fn(a.v, s)
		if s.g == False {
			continue
		}
		ss = append(ss, s)
		if r != nil {
			out = append(out, Alt{s.g, r})
		}
	}
	if len(ss) == 0 {
		st.g = False
		return nil
	}
	*st = *f.m.mergeStates(ss)
	if len(out) == 0 {
		return nil
	}
	return mergeAlts(out)
}

// eachArgs splits on every union among args.
func (f *Frame) eachArgs(st *State, args []Val, fn func(args []Val, s *State) Val) Val {
	for i, a := range args {
		if _, ok := a.(*Union); ok {
			return f.each(st, a, func(v Val, s *State) Val {
				n := append([]Val{}, args...)
				n[i] = v
				return f.eachArgs(s, n, fn)
			})
		}
	}
	return fn(args, st)
}

func (f *Frame) doCall(call *ssa.CallCommon, fv Val, args []Val, st *State, instr ssa.Instruction) (Val, *State) {
	var r Val
	if call.IsInvoke() {
		r = f.each(st, fv, func(v Val, s *State) Val { return f.invoke(call.Method, v, args, s) })
	} else {
		if b, ok := call.Value.(*ssa.Builtin); ok {
			r = f.builtin(b, call, args, st)
		} else {
			r = f.each(st, fv, func(v Val, s *State) Val { return f.callVal(v, args, s) })
		}
	}
	if st.g == False {
		return nil, nil
	}
	if r == nil {
		r = TupleV{}
	}
	return r, st
}

// callVal calls a function value; st is updated in place.
func (f *Frame) callVal(v Val, args []Val, st *State) Val {
	m := f.m
	switch x := v.(type) {
	case FuncV:
		if x.nat != nil {
			return x.nat(m, f, st, args)
		}
		if x.fn != nil {
			return f.callFunction(x.fn, x.bind, args, st)
		}
		m.fail("call of %s", x.name)
	case NilV:
		f.panicIf(st, True, "call of nil function")
		return nil
	case *Union:
		return f.each(st, x, func(v Val, s *State) Val { return f.callVal(v, args, s) })
	case OpqV:
		sig, ok := x.t.Underlying().(*types.Signature)
		if ok {
			return f.opaqueCall(x.key, sig, args, st)
		}
	}
	m.fail("call of %T at %s", v, m.posOf(f.cur))
	return nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (f *Frame) callFunction(fn *ssa.Function, bind, args []Val, st *State) Val {
	m := f.m
	name := fnName(fn)
	if c, ok := m.cuts[name]; ok {
		return c(m, f, st, args)
	}
	if i := strings.LastIndex(name, "/verifspec/v."); i >= 0 {
		return f.vCall(fn, name[i+len("/verifspec/v."):], args, st)
	}
	if s, ok := m.stubs[name]; ok {
		v, s2 := m.callFn(s, args, nil, st)
		if s2 == nil {
			st.g = False
			return nil
		}
		if s2 != st {
			*st = *s2
		}
		return v
	}
	if in, ok := intrinsics[name]; ok {
		r := f.eachArgs(st, args, func(args []Val, s *State) Val {
			for i, a := range args {
				if o, ok := a.(OpqV); ok {
					args[i] = m.expand(o)
				}
			}
			return in(f, s, args)
		})
		return r
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	m.ld.ensureBuilt(fn)
	inline := path == "" || m.ld.isRepo(path) || inlineAllowed(path, name)
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Synthetic != "package initializer" {
		inline = true
	}
	if fn.Synthetic == "package initializer" && !m.ld.isRepo(path) && !initAllowed(path) {
		return TupleV{}
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil {
		if len(m.stack) > 0 && m.stack[0].fn != fn {
			m.initPkg(fn.Pkg)
			return TupleV{}
		}
	}
	if !inline || len(fn.Blocks) == 0 {
		if o := opaqueOK(name); o {
			return f.opaqueCall(name, fn.Signature, args, st)
		}
		m.fail("call of %s at %s, which the analysis has no summary for", name, m.posOf(f.cur))
	}
	v, s2 := m.callFn(fn, args, bind, st)
	if s2 == nil {
		st.g = False
		return nil
	}
	if s2 != st {
		*st = *s2
	}
	return v
}

// opaqueCall is an unknown deterministic function of its arguments.
func (f *Frame) opaqueCall(name string, sig *types.Signature, args []Val, st *State) Val {
	m := f.m
	var ks []string
	for _, a := range args {
		ks = append(ks, m.key(st, a))
	}
	key := name + "(" + strings.Join(ks, ",") + ")"
	return f.opaqueResults(key, sig, st)
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// failPred notes a step that may fail and returns the condition.
func (f *Frame) failPred(key string, st *State) Ref {
	p := cx.Pred("fails " + key)
	f.m.fails = append(f.m.fails, failStep{g: st.g, p: p, key: key, pos: f.m.where()})
	return p
}

type failStep struct {
	g, p Ref
	key  string
	pos  string
}

func (f *Frame) opaqueResults(key string, sig *types.Signature, st *State) Val {
	m := f.m
	rs := sig.Results()
	one := func(i int) Val {
		t := rs.At(i).Type()
		k := key
		if rs.Len() > 1 {
			k = fmt.Sprintf("%s#%d", key, i)
		}
		if isErr(t) {
			return m.errIf(f.failPred(key, st), key)
		}
		return m.opaque(t, k)
	}
	switch rs.Len() {
	case 0:
		return TupleV{}
	case 1:
		return one(0)
	}
	tv := make(TupleV, rs.Len())
	for i := range tv {
		tv[i] = one(i)
	}
	return tv
}

func (f *Frame) invoke(meth *types.Func, recv Val, args []Val, st *State) Val {
	m := f.m
	switch x := recv.(type) {
	case NilV:
		f.panicIf(st, True, "method call on nil interface ("+meth.Name()+")")
		return nil
	case IfaceV:
		if isNative(x.t) {
			return f.nativeCall(meth.Name(), x.v, args, st)
		}
		fn := m.prog.LookupMethod(x.t, meth.Pkg(), meth.Name())
		if fn == nil {
			m.fail("no method %s on %s", meth.Name(), x.t)
		}
		return f.callFunction(fn, nil, append([]Val{x.v}, args...), st)
	case OpqV:
		key := x.key + "." + meth.Name()
		if c, ok := m.cuts["invoke "+meth.FullName()]; ok {
			return c(m, f, st, append([]Val{recv}, args...))
		}
		if c, ok := m.cuts["invoke "+meth.Name()]; ok {
			return c(m, f, st, append([]Val{recv}, args...))
		}
		if np := m.nilPred(x); np != False {
			f.panicIf(st, np, "method call on nil interface "+x.key)
			if st.g == False {
				return nil
			}
		}
		sig := meth.Type().(*types.Signature)
		return f.opaqueCall(key, sig, args, st)
	}
	m.fail("method %s on %T at %s", meth.Name(), recv, m.posOf(f.cur))
	return nil
}

func natOf(name string) types.Type {
	if t, ok := natTypes[name]; ok {
		return t
	}
	t := nativeType(name)
	natTypes[name] = t
	return t
}

var natTypes = map[string]types.Type{"error": errT}

func (f *Frame) nativeCall(meth string, recv Val, args []Val, st *State) Val {
	return f.each(st, recv, func(v Val, st *State) Val {
		kind := ""
		switch x := v.(type) {
		case *NativeV:
			kind = x.kind
		case PtrV:
			c := f.m.get(st, x.obj)
			if u, ok := c.(*Union); ok {
				c = u.alts[0].v
			}
			if n, ok := c.(*NativeV); ok {
				kind = n.kind
			}
		}
		in, ok := nativeMethods[kind+"."+meth]
		if !ok {
			f.m.fail("method %s of modelled %s", meth, kind)
		}
		return f.eachArgs(st, append([]Val{v}, args...), func(a []Val, s *State) Val { return in(f, s, a) })
	})
}

// ---- builtins ----

func (f *Frame) builtin(b *ssa.Builtin, call *ssa.CallCommon, args []Val, st *State) Val {
	m := f.m
	switch b.Name() {
	case "len":
		return m.mapVal(args[0], st.g, func(v Val, g Ref) Val { return f.lenOf(st, v) })
	case "cap":
		return m.mapVal(args[0], st.g, func(v Val, g Ref) Val {
			if s, ok := v.(SliceV); ok {
				return cx.constInt(int64(s.cap))
			}
			return f.lenOf(st, v)
		})
	case "append":
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		return f.eachArgs(st, args, func(a []Val, s *State) Val { return f.appendVal(s, a[0], a[1], et) })
	case "copy":
		return f.eachArgs(st, args, func(a []Val, s *State) Val { return f.copyVal(s, a[0], a[1]) })
	case "delete":
		f.each(st, args[0], func(v Val, s *State) Val {
			mv, ok := v.(MapV)
			if !ok {
				return nil
			}
			mc := m.get(s, mv.obj).(*MapC)
			n := &MapC{append(append([]mapEnt{}, mc.ents...), mapEnt{g: True, k: args[1], del: true})}
			s.set(mv.obj, n)
			return nil
		})
		return TupleV{}
	case "clear":
		f.each(st, args[0], func(v Val, s *State) Val {
			switch x := v.(type) {
			case MapV:
				s.set(x.obj, &MapC{})
			case SliceV:
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := 0; i < x.len; i++ {
					m.storePath(s, x.obj, appendPath(x.path, x.off+i), zeroVal(et))
				}
			case NilV:
			default:
				m.fail("clear of %T", v)
			}
			return nil
		})
		return TupleV{}
	case "min", "max":
		r := f.num(args[0], st)
		for _, a := range args[1:] {
			q := f.num(a, st)
			c := cx.Less0(cx.SubP(r, q))
			if b.Name() == "max" {
				c = cx.Less0(cx.SubP(q, r))
			}
			r = cx.Select(c, r, q)
		}
		return r
	case "recover":
		// the frame that deferred the function calling recover
		if len(m.stack) >= 2 {
			p := m.stack[len(m.stack)-2]
			if p.panicked != False && cx.Implies(st.g, p.panicked) {
				return IfaceV{natOf("panic"), &NativeV{kind: "panic", key: "panic"}}
			}
		}
		return NilV{}
	case "ssa:wrapnilchk":
		return f.each(st, args[0], func(v Val, s *State) Val {
			if _, ok := v.(NilV); ok {
				f.panicIf(s, True, "nil pointer in method value wrapper")
				return nil
			}
			return v
		})
	case "print", "println":
		f.event(st, "print", args...)
		return TupleV{}
	case "panic":
		f.panicIf(st, True, "explicit panic")
		return nil
	case "close":
		m.fail("channel close")
	case "Slice", "SliceData", "String", "StringData", "Add":
		m.fail("unsafe.%s", b.Name())
	}
	m.fail("builtin %s at %s", b.Name(), m.posOf(f.cur))
	return nil
}

func (f *Frame) lenOf(st *State, v Val) Val {
	m := f.m
	switch x := v.(type) {
	case NilV:
		return cx.zero
	case SliceV:
		return cx.constInt(int64(x.len))
	case BytesV:
		return x.r.ln
	case StrV:
		return x.r.ln
	case *ArrayV:
		return cx.constInt(int64(len(x.e)))
	case PtrV:
		if a, ok := m.loadPath(st, x.obj, x.path).(*ArrayV); ok {
			return cx.constInt(int64(len(a.e)))
		}
	case MapV:
		ents := m.mapLive(st, m.get(st, x.obj).(*MapC))
		r := cx.zero
		for _, e := range ents {
			r = cx.AddP(r, cx.BitPoly(e.g))
		}
		return r
	case OpqV:
		if e := m.expand(x); !sameVal(e, v) {
			return f.lenOf(st, e)
		}
		return cx.leaf("len("+x.key+")", bigZero, pow2m1(40))
	}
	m.fail("length of %T", v)
	return nil
}

func growCap(n, oldcap int, bytes bool) int {
	c := n
	if 2*oldcap > n {
		c = 2 * oldcap
	}
	if bytes && c%8 != 0 {
		c += 8 - c%8
	}
	return c
}

func (f *Frame) appendVal(st *State, a, b Val, et types.Type) Val {
	m := f.m
	if o, ok := a.(OpqV); ok {
		a = m.expand(o)
	}
	if o, ok := b.(OpqV); ok {
		b = m.expand(o)
	}
	_, aRope := a.(BytesV)
	isByte := false
	if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
		isByte = true
	}
	bRope := false
	switch y := b.(type) {
	case BytesV:
		if _, ok := y.r.concrete(); !ok {
			bRope = true
		}
	case StrV:
		if _, ok := y.r.concrete(); !ok {
			bRope = true
		} else {
			b = BytesV{y.r}
		}
	case OpqV:
		if _, isNil := a.(NilV); isNil {
			return OpqV{"copy(" + y.key + ")", y.t}
		}
		if s, isS := a.(SliceV); isS && s.len == 0 && s.cap == 0 {
			return OpqV{"copy(" + y.key + ")", y.t}
		}
	}
	if aRope || bRope {
		if !isByte {
			m.fail("append to opaque slice")
		}
		return BytesV{ropeCat(m.bytesOf(st, a), m.bytesOf(st, b))}
	}
	es := m.elems(st, b)
	switch x := a.(type) {
	case NilV:
		if len(es) == 0 {
			return NilV{}
		}
		return f.freshSlice(st, et, es, growCap(len(es), 0, isByte))
	case SliceV:
		n := x.len + len(es)
		if len(es) == 0 {
			return x
		}
		if n <= x.cap {
			for i, e := range es {
				m.storePath(st, x.obj, appendPath(x.path, x.off+x.len+i), e)
			}
			return SliceV{x.obj, x.path, x.off, n, x.cap}
		}
		all := append(append([]Val{}, m.elems(st, x)...), es...)
		return f.freshSlice(st, et, all, growCap(n, x.cap, isByte))
	}
	m.fail("append to %T at %s", a, m.posOf(f.cur))
	return nil
}

func (f *Frame) freshSlice(st *State, et types.Type, es []Val, c int) Val {
	m := f.m
	arr := &ArrayV{make([]Val, c)}
	copy(arr.e, es)
	if len(es) < c {
		z := zeroVal(et)
		for i := len(es); i < c; i++ {
			arr.e[i] = z
		}
	}
	o := m.alloc(st, types.NewArray(et, int64(c)), arr, f.fn.String())
	return SliceV{obj: o, len: len(es), cap: c}
}

func (f *Frame) copyVal(st *State, d, s Val) Val {
	m := f.m
	if o, ok := s.(OpqV); ok {
		s = m.expand(o)
	}
	if o, ok := d.(OpqV); ok {
		d = m.expand(o)
	}
	if _, ok := d.(NilV); ok {
		return cx.zero
	}
	dst, ok := d.(SliceV)
	if !ok {
		if b, isB := d.(BytesV); isB {
			if n, isC := b.r.ln.int(); isC && n == 0 {
				return cx.zero
			}
		}
		m.fail("copy into %T at %s", d, m.posOf(f.cur))
	}
	var get func(i int) Val
	n := 0
	switch x := s.(type) {
	case NilV:
		return cx.zero
	case StrV, BytesV:
		r := m.bytesOf(st, x)
		l, isC := r.ln.int()
		if !isC {
			lo, hi := cx.Range(r.ln)
			if lo.IsInt64() && lo.Int64() >= int64(dst.len) {
				l = dst.len
			} else {
				_ = hi
				arr, isArr := m.loadPath(st, dst.obj, dst.path).(*ArrayV)
				if !isArr {
					m.fail("copy of a byte string of unknown length at %s", m.posOf(f.cur))
				}
				na := &ArrayV{append([]Val{}, arr.e...)}
				for i := 0; i < dst.len; i++ {
					in := cx.Less0(cx.SubP(cx.constInt(int64(i)), r.ln))
					if g := cx.And(st.g, in); g == False {
						break
					}
					na.e[dst.off+i] = cx.Select(in, r.byteAt(i), f.num(arr.e[dst.off+i], st))
				}
				m.storePath(st, dst.obj, dst.path, na)
				return cx.Select(cx.Less0(cx.SubP(r.ln, cx.constInt(int64(dst.len)))), r.ln, cx.constInt(int64(dst.len)))
			}
		}
		n = l
		get = func(i int) Val { return r.byteAt(i) }
	case SliceV:
		es := m.elems(st, x)
		n = len(es)
		get = func(i int) Val { return es[i] }
	default:
		m.fail("copy from %T", s)
	}
	if dst.len < n {
		n = dst.len
	}
	if n == 0 {
		return cx.zero
	}
	// one update of the destination array
	arr, isArr := m.loadPath(st, dst.obj, dst.path).(*ArrayV)
	if isArr {
		na := &ArrayV{append([]Val{}, arr.e...)}
		for i := 0; i < n; i++ {
			na.e[dst.off+i] = get(i)
		}
		m.storePath(st, dst.obj, dst.path, na)
	} else {
		for i := 0; i < n; i++ {
			m.storePath(st, dst.obj, appendPath(dst.path, dst.off+i), get(i))
		}
	}
	return cx.constInt(int64(n))
}

// ---- events ----

func (f *Frame) event(st *State, name string, args ...Val) *Event {
	m := f.m
	e := Event{g: st.g, name: name, args: args, fn: f.fn.String(), st: st.clone(), stk: m.callStack()}
	if f.cur != nil {
		e.pos = f.cur.Pos()
	}
	if t := m.taint; t != nil && t.kind == "leak" {
		t.site(m, f)
		for _, a := range args {
			if f.tainted(st, a, 0) {
				t.add(m, f, "secret data reaches "+name)
			}
		}
	}
	for _, a := range args {
		e.keys = append(e.keys, m.key(st, a))
	}
	m.events = append(m.events, e)
	return &m.events[len(m.events)-1]
}

// inlineAllowed lists packages outside the repository whose source is analysed
// like the repository's own.
func inlineAllowed(path, name string) bool {
	switch path {
	case cborPath:
		return name == cborPath+".CanonicalEncOptions" || name == cborPath+".CTAP2EncOptions" || name == cborPath+".CoreDetEncOptions" || name == cborPath+".PreferredUnsortedEncOptions"
	case "encoding/binary", "internal/byteorder", "unicode/utf8", "math/bits", "slices", "cmp", "sort", "maps", "unicode", "math", "strings", "bytes", "iter", "container/list", "errors", "crypto/subtle", "hash", "io", "encoding/hex", "strconv", "internal/stringslite", "internal/bytealg", "crypto/internal/fips140/subtle", "crypto/internal/fips140deps/byteorder":
		return true
	}
	return false
}

func initAllowed(path string) bool {
	switch path {
	case "encoding/binary", "unicode/utf8", "math/bits", "slices", "cmp", "sort", "math", "encoding/hex":
		return true
	}
	return false
}

func opaqueOK(name string) bool { return false }
