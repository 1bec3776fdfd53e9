package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program-wide rules: flow-insensitive dataflow over the SSA form of every
// library function that can run after package initialisation.

func runRule(l *Loaded, name string) *RuleResult {
	r := &RuleResult{Rule: name}
	g := newGlobals(l)
	for _, f := range g.funcs {
		r.Funcs = append(r.Funcs, f.String())
	}
	switch name {
	case "no-shared-writes":
		g.solve()
		g.checkWrites(r)
	case "no-ambient-inputs":
		g.checkAmbient(r)
	default:
		r.Obls = append(r.Obls, Obl{Unit: name, Name: "rule exists"})
	}
	return r
}

// globals tracks which values may refer to memory that package-level
// variables hold.
type globals struct {
	l      *Loaded
	funcs  []*ssa.Function // library functions reachable from the exported API
	inSet  map[*ssa.Function]bool
	mark   map[ssa.Value]string // value -> the variable whose memory it may reach
	field  map[string]string    // struct field or element type -> likewise
	cell   map[ssa.Value]string // contents of a local variable
	result map[string]string    // function#index
	impls  []*ssa.Function      // library methods, for dynamic calls
	change bool
}

func newGlobals(l *Loaded) *globals {
	g := &globals{l: l, inSet: map[*ssa.Function]bool{}, mark: map[ssa.Value]string{}, field: map[string]string{}, cell: map[ssa.Value]string{}, result: map[string]string{}}
	all := ssautil.AllFunctions(l.prog)
	lib := map[*ssa.Function]bool{}
	var roots []*ssa.Function
	for f := range all {
		p := pkgOf(f)
		if p == nil || !l.isLib(p.Path()) || f.Blocks == nil {
			continue
		}
		lib[f] = true
		if f.Signature.Recv() != nil && f.Synthetic == "" {
			g.impls = append(g.impls, f)
		}
		if f.Object() != nil && (f.Object().Exported() || f.Signature.Recv() != nil) && f.Synthetic == "" {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	sort.Slice(g.impls, func(i, j int) bool { return g.impls[i].String() < g.impls[j].String() })
	for len(roots) > 0 {
		f := roots[0]
		roots = roots[1:]
		if g.inSet[f] || !lib[f] {
			continue
		}
		g.inSet[f] = true
		g.funcs = append(g.funcs, f)
		for _, a := range f.AnonFuncs {
			roots = append(roots, a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok {
						roots = append(roots, h)
						if h.Origin() != nil {
							roots = append(roots, h.Origin())
						}
					}
				}
			}
		}
	}
	return g
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	if f.Origin() != nil {
		return pkgOf(f.Origin())
	}
	return nil
}

// refs reports whether a value of the type can refer to memory that may be written.
func refs(t types.Type) bool { return refs0(t, 0) }

func refs0(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs0(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs0(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refs0(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// immutableIface: values of these interfaces offer no way to modify what they hold.
func immutableIface(t types.Type) bool {
	n := t.String()
	switch n {
	case "error", "reflect.Type", "encoding/binary.ByteOrder", "encoding/binary.AppendByteOrder",
		cborPath + ".EncMode", cborPath + ".DecMode", cborPath + ".TagSet":
		return true
	}
	return false
}

const foreign = "foreign:"

func (g *globals) of(v ssa.Value) string {
	if x, ok := v.(*ssa.Global); ok {
		if x.Pkg != nil && g.l.isLib(x.Pkg.Pkg.Path()) {
			return x.Pkg.Pkg.Path() + "." + x.Name()
		}
		return foreign + x.String()
	}
	return g.mark[v]
}

func (g *globals) set(v ssa.Value, why string) {
	if why == "" || g.mark[v] != "" && !strings.HasPrefix(g.mark[v], foreign) || g.mark[v] == why {
		return
	}
	if g.mark[v] != "" && strings.HasPrefix(why, foreign) {
		return
	}
	if !refs(v.Type()) || immutableIface(v.Type()) {
		return
	}
	g.mark[v] = why
	g.change = true
}

func put[K comparable](g *globals, m map[K]string, k K, why string) {
	if why == "" || m[k] != "" {
		return
	}
	m[k] = why
	g.change = true
}

func fieldKey(x *ssa.FieldAddr) string {
	t := x.X.Type().Underlying().(*types.Pointer).Elem()
	return fmt.Sprintf("%s.%d", t.String(), x.Field)
}

func elemKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return elemKey(u.Elem())
	case *types.Slice:
		return "elements " + u.Elem().String()
	case *types.Array:
		return "elements " + u.Elem().String()
	}
	return "elements " + t.String()
}

func (g *globals) solve() {
	for round := 0; round < 50; round++ {
		g.change = false
		for _, f := range g.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					g.flow(f, in)
				}
			}
		}
		if !g.change {
			return
		}
	}
}

func (g *globals) flow(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		g.set(x, g.of(x.X))
		g.set(x, g.cell[x.X])
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			g.set(x, g.field[fieldKey(a)])
		case *ssa.IndexAddr:
			g.set(x, g.field[elemKey(a.X.Type())])
		}
	case *ssa.FieldAddr:
		g.set(x, g.of(x.X))
	case *ssa.IndexAddr:
		g.set(x, g.of(x.X))
	case *ssa.Field:
		g.set(x, g.of(x.X))
	case *ssa.Index:
		g.set(x, g.of(x.X))
	case *ssa.Lookup:
		g.set(x, g.of(x.X))
	case *ssa.Slice:
		g.set(x, g.of(x.X))
	case *ssa.ChangeType:
		g.set(x, g.of(x.X))
	case *ssa.ChangeInterface:
		g.set(x, g.of(x.X))
	case *ssa.MakeInterface:
		g.set(x, g.of(x.X))
	case *ssa.TypeAssert:
		g.set(x, g.of(x.X))
	case *ssa.Extract:
		g.set(x, g.of(x.Tuple))
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, h := range g.callees(&c.Call) {
				g.set(x, g.result[fmt.Sprintf("%s#%d", h, x.Index)])
			}
		}
	case *ssa.SliceToArrayPointer:
		g.set(x, g.of(x.X))
	case *ssa.Convert:
		if _, str := x.X.Type().Underlying().(*types.Basic); !str {
			if _, str := x.Type().Underlying().(*types.Basic); !str || x.Type().Underlying().(*types.Basic).Kind() == types.UnsafePointer {
				g.set(x, g.of(x.X))
			}
		}
	case *ssa.MultiConvert:
		g.set(x, g.of(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			g.set(x, g.of(e))
		}
	case *ssa.Range:
		g.set(x, g.of(x.X))
	case *ssa.Next:
		g.set(x, g.of(x.Iter))
	case *ssa.MakeClosure:
		h := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			g.set(h.FreeVars[i], g.of(b))
			if c := g.cell[b]; c != "" {
				put(g, g.cell, ssa.Value(h.FreeVars[i]), c)
			}
			if c := g.cell[h.FreeVars[i]]; c != "" {
				put(g, g.cell, b, c)
			}
		}
	case *ssa.Store:
		why := g.of(x.Val)
		if why == "" || !refs(x.Val.Type()) {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			put(g, g.field, fieldKey(a), why)
		case *ssa.IndexAddr:
			put(g, g.field, elemKey(a.X.Type()), why)
		default:
			put(g, g.cell, x.Addr, why)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if !immutableIface(r.Type()) {
				put(g, g.result, fmt.Sprintf("%s#%d", f, i), g.of(r))
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if v, ok := x.(*ssa.Call); ok && b.Name() == "append" {
				// appended references
				for _, a := range c.Args[1:] {
					if sl, ok := a.Type().Underlying().(*types.Slice); ok && refs(sl.Elem()) {
						g.set(v, g.of(a))
					}
				}
				if refs(v.Type().Underlying().(*types.Slice).Elem()) || !fullSlice(c.Args[0]) {
					g.set(v, g.of(c.Args[0]))
				}
			}
			return
		}
		for _, h := range g.callees(c) {
			args := c.Args
			ps := h.Params
			if c.IsInvoke() {
				if len(ps) > 0 {
					g.set(ps[0], g.of(c.Value))
					ps = ps[1:]
				}
			}
			for i, a := range args {
				if i < len(ps) {
					g.set(ps[i], g.of(a))
				}
			}
			if v, ok := x.(*ssa.Call); ok && h.Signature.Results().Len() == 1 {
				g.set(v, g.result[fmt.Sprintf("%s#0", h)])
			}
		}
	}
}

// fullSlice: a whole package-level slice, whose appending copies it (its
// length is its capacity), or an empty or capacity-limited one.
func fullSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok
	case *ssa.ChangeType:
		return fullSlice(x.X)
	case *ssa.Slice:
		return x.Max != nil || x.High == nil && fullSlice(x.X)
	case *ssa.Const:
		return true
	}
	return false
}

func (g *globals) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if g.inSet[f] {
			return []*ssa.Function{f}
		}
		if f.Origin() != nil && g.inSet[f.Origin()] {
			return []*ssa.Function{f.Origin()}
		}
		return nil
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range g.impls {
			if f.Name() == c.Method.Name() && g.inSet[f] && it != nil {
				rt := f.Signature.Recv().Type()
				if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
					out = append(out, f)
				}
			}
		}
		return out
	}
	for _, f := range g.funcs {
		if f.Signature.Recv() == nil && types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

func libMark(s string) bool { return s != "" && !strings.HasPrefix(s, foreign) }

func (g *globals) checkWrites(r *RuleResult) {
	r.What = "library functions reachable from the exported API"
	r.Analysed = len(g.funcs)
	ob := func(f *ssa.Function, in ssa.Instruction, ok bool, what string) {
		o := Obl{Unit: r.Rule, Name: what, OK: ok}
		o.Pos = f.String()
		if in != nil {
			o.Pos += " at " + g.pos(f, in)
		}
		r.Obls = append(r.Obls, o)
	}
	for _, f := range g.funcs {
		clean := true
		bad := func(in ssa.Instruction, format string, a ...interface{}) {
			clean = false
			ob(f, in, false, fmt.Sprintf(format, a...)+" in "+f.String())
		}
		exported := f.Object() != nil && f.Object().Exported() && f.Parent() == nil
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if why := g.of(x.Addr); why != "" {
						bad(in, "package-level state %s is written", strings.TrimPrefix(why, foreign))
					}
				case *ssa.MapUpdate:
					if why := g.of(x.Map); why != "" {
						bad(in, "package-level map %s is written", strings.TrimPrefix(why, foreign))
					}
				case *ssa.Send:
					if why := g.of(x.Chan); why != "" {
						bad(in, "package-level channel %s is used", strings.TrimPrefix(why, foreign))
					}
				case *ssa.UnOp:
					if why := g.of(x.X); x.Op == token.ARROW && why != "" {
						bad(in, "package-level channel %s is used", strings.TrimPrefix(why, foreign))
					}
				case *ssa.Return:
					if !exported {
						continue
					}
					for _, v := range x.Results {
						if why := g.of(v); libMark(why) && refs(v.Type()) && !immutableIface(v.Type()) {
							bad(in, "memory of package-level %s is handed to callers", why)
						}
					}
				case ssa.CallInstruction:
					g.checkCall(f, x, bad)
				}
			}
		}
		if clean {
			ob(f, nil, true, "writes no package-level state and hands none out: "+f.String())
		}
	}
}

func (g *globals) pos(f *ssa.Function, in ssa.Instruction) string {
	p := g.l.prog.Fset.Position(in.Pos())
	if !p.IsValid() {
		p = g.l.prog.Fset.Position(f.Pos())
	}
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, g.l.dir+"/"), p.Line)
}

func (g *globals) checkCall(f *ssa.Function, x ssa.CallInstruction, bad func(ssa.Instruction, string, ...interface{})) {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear", "close":
			if why := g.of(c.Args[0]); why != "" {
				bad(x, "package-level state %s is written", strings.TrimPrefix(why, foreign))
			}
		case "append":
			if why := g.of(c.Args[0]); libMark(why) && !fullSlice(c.Args[0]) {
				bad(x, "package-level state %s is appended to", why)
			}
		}
		return
	}
	if c.IsInvoke() {
		why := g.of(c.Value)
		if libMark(why) && len(g.callees(c)) == 0 && !immutableIface(c.Value.Type()) {
			bad(x, "package-level %s is used through %s.%s", why, c.Value.Type(), c.Method.Name())
		}
		return
	}
	h := c.StaticCallee()
	if h == nil || len(g.callees(c)) > 0 {
		return
	}
	p := pkgOf(h)
	if p != nil && g.l.isLib(p.Path()) {
		return
	}
	for i, a := range c.Args {
		why := g.of(a)
		if !libMark(why) || !refs(a.Type()) || immutableIface(a.Type()) {
			continue
		}
		if !readsOnly(h, i) {
			bad(x, "package-level state %s is handed to %s", why, h)
		}
	}
}

// readsOnly reports whether an outside function is known not to modify what its argument i refers to.
func readsOnly(h *ssa.Function, i int) bool {
	p := pkgOf(h)
	if p == nil {
		return false
	}
	n := h.Name()
	recv := ""
	if r := h.Signature.Recv(); r != nil {
		recv = r.Type().String()
	}
	switch p.Path() {
	case "bytes", "strings":
		if recv == "*strings.Replacer" {
			return true
		}
		return recv == "" || i > 0
	case "errors", "fmt", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "regexp", "crypto/sha256", "crypto/sha512", "crypto/hmac",
		"golang.org/x/crypto/blake2b", "golang.org/x/crypto/pbkdf2", "hash/crc32", "crypto/subtle", "encoding/json", "slices", "maps", "log":
		switch n {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Unmarshal", "Decode", "Copy", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc",
			"ConstantTimeCopy", "XORBytes", "Sscan", "Sscanf", "Sscanln", "SetOutput", "SetFlags", "SetPrefix":
			return false
		}
		return true
	case "encoding/binary":
		return !strings.HasPrefix(n, "Put") && n != "Read" && !strings.HasPrefix(n, "Append")
	case "encoding/hex", "encoding/base64":
		return n == "EncodeToString" || n == "DecodeString" || n == "Dump"
	case "math/big":
		switch n {
		case "Cmp", "CmpAbs", "Sign", "Bytes", "String", "Text", "Uint64", "Int64", "IsInt64", "IsUint64", "BitLen", "Bit":
			return true
		}
		return i > 0
	case cborPath:
		return strings.HasPrefix(n, "Marshal")
	case "github.com/btcsuite/btcutil/base58", "github.com/btcsuite/btcd/btcutil/base58":
		return true
	}
	return false
}

// ---- ambient inputs ----

var ambient = map[string]string{
	"time": "Now Since Until After AfterFunc Tick NewTimer NewTicker Sleep",
	"os":   "Getenv LookupEnv Environ ExpandEnv Hostname Getpid Getppid Getwd Executable UserHomeDir",
}

func isAmbient(h *ssa.Function) bool {
	p := pkgOf(h)
	if p == nil {
		return false
	}
	switch p.Path() {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return true
	case "runtime":
		return h.Name() != "KeepAlive"
	}
	for _, n := range strings.Fields(ambient[p.Path()]) {
		if h.Name() == n {
			return true
		}
	}
	return false
}

// checkAmbient: address, key, hashing, fee and transaction code (all library
// code but the backends) starts no goroutine, reads no clock, randomness or
// environment, and does not depend on the order in which maps are visited.
func (g *globals) checkAmbient(r *RuleResult) {
	r.What = "library functions outside the backends"
	for _, f := range g.funcs {
		p := pkgOf(f)
		if p == nil || strings.HasPrefix(p.Path(), g.l.mod+"/node") {
			continue
		}
		r.Analysed++
		clean := true
		bad := func(in ssa.Instruction, format string, a ...interface{}) {
			clean = false
			r.Obls = append(r.Obls, Obl{Unit: r.Rule, Name: fmt.Sprintf(format, a...) + " in " + f.String(), Pos: f.String() + " at " + g.pos(f, in)})
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					bad(in, "a goroutine is started")
				case *ssa.Select:
					if len(x.States) > 1 {
						bad(in, "an arbitrary channel is chosen")
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !orderFree(f, x) {
						bad(in, "the result depends on the order in which a map is visited")
					}
				case *ssa.Convert:
					if k, ok := x.Type().Underlying().(*types.Basic); ok && k.Kind() == types.Uintptr {
						if k, ok := x.X.Type().Underlying().(*types.Basic); ok && k.Kind() == types.UnsafePointer {
							bad(in, "a memory address is used as a number")
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && isAmbient(h) {
						bad(in, "%s is used", h)
					}
					if gl, ok := (*op).(*ssa.Global); ok && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "crypto/rand" {
						bad(in, "%s is used", gl)
					}
				}
			}
		}
		if clean {
			r.Obls = append(r.Obls, Obl{Unit: r.Rule, Name: "depends only on its arguments: " + f.String(), OK: true, Pos: f.String()})
		}
	}
}

// orderFree: what the loop over the map does is the same in every order, or
// the function sorts what it gathered.
func orderFree(f *ssa.Function, rng *ssa.Range) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if h := c.Call.StaticCallee(); h != nil {
					if p := pkgOf(h); p != nil && (p.Path() == "sort" || p.Path() == "slices" && strings.HasPrefix(h.Name(), "Sort")) {
						return true
					}
				}
			}
		}
	}
	// the loop: blocks between the Next and back
	var head *ssa.BasicBlock
	for _, u := range *rng.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			head = n.Block()
		}
	}
	if head == nil {
		return true
	}
	body := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		// does b lead back to head?
		if b == head {
			return true
		}
		if v, ok := body[b]; ok {
			return v
		}
		body[b] = false
		r := false
		for _, s := range b.Succs {
			if walk(s) {
				r = true
			}
		}
		body[b] = r
		return r
	}
	for _, s := range head.Succs {
		walk(s)
	}
	body[head] = true
	for b, in := range body {
		if !in {
			continue
		}
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Store, *ssa.Return, *ssa.Send, *ssa.Defer, *ssa.Go, *ssa.Panic:
				return false
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "delete" || bi.Name() == "cap") {
					continue
				}
				return false
			case *ssa.Phi:
				if b == head && !commutes(x) {
					return false
				}
			}
		}
		if b != head {
			for _, s := range b.Succs {
				if s != head && !body[s] { // leaves the loop early: only a constant answer is order free
					if !constantExit(s) {
						return false
					}
				}
			}
		}
	}
	return true
}

// commutes: an accumulator updated by an addition or bit operation only.
func commutes(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		switch x := e.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.OR, token.XOR, token.AND, token.MUL:
				if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 && (x.X == ssa.Value(p) || x.Y == ssa.Value(p)) {
					continue
				}
			}
			return false
		case *ssa.Const:
			continue
		case *ssa.Phi:
			if x == p {
				continue
			}
			return false
		default:
			if e == ssa.Value(p) {
				continue
			}
			if in, ok := e.(ssa.Instruction); ok && !in.Block().Dominates(p.Block()) {
				return false
			}
		}
	}
	return true
}

func constantExit(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Return:
			for _, v := range x.Results {
				c, ok := v.(*ssa.Const)
				if !ok || c.Value != nil && c.Value.Kind() == constant.Unknown {
					return false
				}
			}
		case *ssa.Phi, *ssa.Call, *ssa.Store:
			return false
		}
	}
	return true
}
