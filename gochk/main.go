// Command gochk decides the forwarding and ownership rules of the Go binding from its cgo-translated,
// type-checked SSA form. Usage: gochk FILE.cgo1.go _cgo_gotypes.go ; prints JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type stub struct{ m map[string]*types.Package }

func (s stub) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := s.m[path]; ok {
		return p, nil
	}
	if path != "syscall" && path != "runtime/cgo" {
		return nil, fmt.Errorf("import of %s is not modelled", path)
	}
	n := path[strings.LastIndex(path, "/")+1:]
	p := types.NewPackage(path, n)
	name, u := "Errno", types.Type(types.Typ[types.Uintptr])
	if n == "cgo" {
		name, u = "Incomplete", types.NewStruct(nil, nil)
	}
	tn := types.NewTypeName(token.NoPos, p, name, nil)
	types.NewNamed(tn, u, nil)
	p.Scope().Insert(tn)
	p.MarkComplete()
	s.m[path] = p
	return p, nil
}

func out(m map[string]any) {
	b, _ := json.Marshal(m)
	fmt.Println(string(b))
}

// ---------------------------------------------------------------- abstract values

type kind int

const (
	kConst   kind = iota // a constant (c)
	kNil                 // nil
	kParam               // a parameter (n: index)
	kField               // field f of *x
	kCstr                // the C copy of string x; id
	kRet                 // the result of core call id
	kDeref               // *x where x is a C result
	kGoStr               // the Go copy of C string x
	kPtr                 // pointer to local object id, field path f
	kClo                 // closure
	kLen                 // len(x)
	kCmp                 // x == y (neg: !=)
	kNot                 // !x
	kVoid                // nothing
	kTuple
	kOpaque
	kBin // x op y
)

type val struct {
	k    kind
	c    constant.Value
	n    int
	f    string
	x, y *val
	neg  bool
	fn   *ssa.Function
	env  []*val
}

func (v *val) key() string {
	if v == nil {
		return "?"
	}
	s := fmt.Sprintf("%d:%d:%s:%v", v.k, v.n, v.f, v.neg)
	if v.c != nil {
		s += "=" + v.c.ExactString()
	}
	if v.x != nil {
		s += "(" + v.x.key() + ")"
	}
	if v.y != nil {
		s += "(" + v.y.key() + ")"
	}
	return s
}

type deferred struct {
	fn   *ssa.Function
	name string
	args []*val
	env  []*val
}

type event struct {
	name string
	args []*val
	pos  token.Pos
}

type state struct {
	mem   map[string]*val // object/field -> value
	know  map[string]bool // decided conditions: key -> nil/true?
	freed map[int]int
	cstrs []*val
	calls []event
	objs  int
	steps *int
	mul   bool
}

func (s *state) clone() *state {
	n := *s
	n.mem = map[string]*val{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.know = map[string]bool{}
	for k, v := range s.know {
		n.know[k] = v
	}
	n.freed = map[int]int{}
	for k, v := range s.freed {
		n.freed[k] = v
	}
	n.cstrs = append([]*val{}, s.cstrs...)
	n.calls = append([]event{}, s.calls...)
	return &n
}

type undecided struct{ msg string }

func giveup(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

type violation struct {
	pos token.Pos
	msg string
}

func bad(pos token.Pos, f string, a ...any) { panic(violation{pos, fmt.Sprintf(f, a...)}) }

type checker struct {
	fset  *token.FileSet
	pkg   *ssa.Package
	paths int
	insts int
}

// fork asks for both outcomes of an undecided atomic condition
type fork struct{ key string }

func isNilConst(v *val) bool { return v.k == kNil }

// truth decides a boolean value, raising fork on an undecided atom
func (s *state) truth(v *val) bool {
	switch v.k {
	case kConst:
		return constant.BoolVal(v.c)
	case kNot:
		return !s.truth(v.x)
	case kCmp:
		r := s.equal(v.x, v.y)
		return r != v.neg
	}
	return s.atom(v.key())
}

func (s *state) atom(k string) bool {
	if r, ok := s.know[k]; ok {
		return r
	}
	panic(fork{k})
}

func isBoolish(v *val) bool {
	return v.k == kConst && v.c.Kind() == constant.Bool || v.k == kNot || v.k == kCmp
}

func (s *state) equal(a, b *val) bool {
	if a.key() == b.key() {
		return true
	}
	if b.k == kNil {
		a, b = b, a
	}
	if a.k == kNil {
		switch b.k {
		case kPtr, kCstr, kClo:
			return false
		}
		return s.atom("nil?" + b.key())
	}
	if isBoolish(a) || isBoolish(b) {
		return s.truth(a) == s.truth(b)
	}
	if a.k == kConst && b.k == kConst {
		return constant.Compare(a.c, token.EQL, b.c)
	}
	ks := []string{a.key(), b.key()}
	sort.Strings(ks)
	return s.atom("eq?" + ks[0] + "~" + ks[1])
}

func (c *checker) call(s *state, name string, args []*val, pos token.Pos) *val {
	switch {
	case name == "_cgoCheckPointer" || name == "_cgoCheckResult":
		return &val{k: kVoid}
	case name == "_Cfunc_CString":
		v := &val{k: kCstr, n: len(s.cstrs), x: args[0]}
		s.cstrs = append(s.cstrs, v)
		return v
	case name == "_Cfunc_GoString":
		if args[0].k == kCstr && s.freed[args[0].n] > 0 {
			bad(pos, "reads a temporary C string after it was freed")
		}
		return &val{k: kGoStr, x: args[0]}
	case name == "_Cfunc_free":
		a := args[0]
		if a.k == kNil {
			return &val{k: kVoid}
		}
		if a.k != kCstr {
			bad(pos, "frees memory that is not one of its temporary C strings")
		}
		if s.freed[a.n] > 0 {
			bad(pos, "frees a temporary C string twice")
		}
		s.freed[a.n]++
		return &val{k: kVoid}
	case strings.HasPrefix(name, "_Cfunc_"):
		for _, a := range args {
			if a.k == kCstr && s.freed[a.n] > 0 {
				bad(pos, "passes a temporary C string that is already freed to %s", name[7:])
			}
		}
		s.calls = append(s.calls, event{name[7:], args, pos})
		return &val{k: kRet, n: len(s.calls) - 1}
	}
	giveup("call of %s", name)
	return nil
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*val
	defers []deferred
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: map[ssa.Value]*val{}, defers: append([]deferred{}, f.defers...)}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

func (c *checker) get(f *frame, v ssa.Value) *val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			switch v.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return &val{k: kOpaque, f: "zero"}
			}
			return &val{k: kNil}
		}
		return &val{k: kConst, c: v.Value}
	case *ssa.Function:
		return &val{k: kClo, fn: v}
	case *ssa.Global:
		giveup("uses the global %s", v.Name())
	case *ssa.Builtin:
		return &val{k: kOpaque, f: v.Name()}
	}
	r, ok := f.env[v]
	if !ok {
		giveup("value %s of %s", v.Name(), f.fn)
	}
	return r
}

type result struct {
	s *state
	v *val
}

// exec runs fn on every path; each result has its own state
func (c *checker) exec(s *state, fn *ssa.Function, args, free []*val, depth int) []result {
	if depth > 12 {
		giveup("deep recursion through %s", fn)
	}
	f := &frame{fn: fn, env: map[ssa.Value]*val{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = free[i]
	}
	return c.block(s, f, fn.Blocks[0], nil, depth)
}

// withForks runs g on copies of s until no undecided condition is left
func (c *checker) withForks(s *state, f *frame, g func(*state, *frame) []result) []result {
	var res []result
	work := []*state{s}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		try := st.clone()
		fr := f.clone()
		var fk *fork
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(fork); ok {
						fk = &x
						return
					}
					panic(r)
				}
			}()
			res = append(res, g(try, fr)...)
		}()
		if fk != nil {
			for _, b := range []bool{true, false} {
				n := st.clone()
				n.know[fk.key] = b
				work = append(work, n)
			}
		}
	}
	return res
}

func (c *checker) block(s *state, f *frame, b, prev *ssa.BasicBlock, depth int) []result {
	*s.steps++
	if *s.steps > 20000 {
		giveup("too many steps in %s (a loop?)", f.fn)
	}
	// phis first, in parallel
	var pv []*val
	i := 0
	for ; i < len(b.Instrs); i++ {
		p, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		for j, q := range b.Preds {
			if q == prev {
				pv = append(pv, c.get(f, p.Edges[j]))
				break
			}
		}
	}
	for j := 0; j < i; j++ {
		f.env[b.Instrs[j].(*ssa.Phi)] = pv[j]
	}
	return c.from(s, f, b, i, depth)
}

func (c *checker) from(s *state, f *frame, b *ssa.BasicBlock, i int, depth int) []result {
	for ; i < len(b.Instrs); i++ {
		c.insts++
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return c.block(s, f, b.Succs[0], b, depth)
		case *ssa.If:
			cv := c.get(f, in.Cond)
			return c.withForks(s, f, func(s *state, f *frame) []result {
				k := 1
				if s.truth(cv) {
					k = 0
				}
				return c.block(s, f, b.Succs[k], b, depth)
			})
		case *ssa.Return:
			v := &val{k: kVoid}
			if len(in.Results) == 1 {
				v = c.get(f, in.Results[0])
			} else if len(in.Results) > 1 {
				giveup("several results in %s", f.fn)
			}
			return []result{{s, v}}
		case *ssa.Panic:
			return nil
		case *ssa.RunDefers:
			ds := f.defers
			f.defers = nil
			states := []*state{s}
			for j := len(ds) - 1; j >= 0; j-- {
				var nx []*state
				for _, t := range states {
					d := ds[j]
					if d.fn == nil {
						c.call(t, d.name, d.args, in.Pos())
						nx = append(nx, t)
						continue
					}
					for _, r := range c.exec(t, d.fn, d.args, d.env, depth+1) {
						nx = append(nx, r.s)
					}
				}
				states = nx
			}
			if len(states) == 1 {
				s = states[0]
				continue
			}
			var res []result
			for _, t := range states {
				res = append(res, c.from(t, f.clone(), b, i+1, depth)...)
			}
			return res
		case *ssa.Defer:
			fn, name, args, env := c.callee(s, f, in.Common())
			f.defers = append(f.defers, deferred{fn, name, args, env})
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() == "len" {
					f.env[in] = &val{k: kLen, x: c.get(f, in.Call.Args[0])}
					continue
				}
				giveup("builtin %s", bi.Name())
			}
			fn, name, args, env := c.callee(s, f, in.Common())
			if fn == nil {
				f.env[in] = c.call(s, name, args, in.Pos())
				continue
			}
			rs := c.exec(s, fn, args, env, depth+1)
			if len(rs) == 1 {
				s = rs[0].s
				f.env[in] = rs[0].v
				continue
			}
			var res []result
			for _, r := range rs {
				g := f.clone()
				g.env[in] = r.v
				res = append(res, c.from(r.s, g, b, i+1, depth)...)
			}
			return res
		case *ssa.Alloc:
			s.objs++
			id := s.objs
			f.env[in] = &val{k: kPtr, n: id}
		case *ssa.FieldAddr:
			x := c.get(f, in.X)
			fld := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field).Name()
			switch x.k {
			case kPtr:
				f.env[in] = &val{k: kPtr, n: x.n, f: x.f + "." + fld}
			case kParam:
				f.env[in] = &val{k: kPtr, n: -1 - x.n, f: x.f + "." + fld}
			default:
				giveup("field of %s", x.key())
			}
		case *ssa.Field:
			x := c.get(f, in.X)
			fld := in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()
			f.env[in] = c.field(s, x, fld)
		case *ssa.UnOp:
			x := c.get(f, in.X)
			switch in.Op {
			case token.MUL:
				f.env[in] = c.load(s, x, in.Type())
			case token.NOT:
				f.env[in] = &val{k: kNot, x: x}
			default:
				giveup("operator %s", in.Op)
			}
		case *ssa.Store:
			c.store(s, c.get(f, in.Addr), c.get(f, in.Val), in.Pos())
		case *ssa.BinOp:
			x, y := c.get(f, in.X), c.get(f, in.Y)
			if in.Op == token.EQL || in.Op == token.NEQ {
				f.env[in] = &val{k: kCmp, x: x, y: y, neg: in.Op == token.NEQ}
			} else {
				zero := func(v *val) bool { return v.k == kConst && v.c.Kind() == constant.Int && constant.Sign(v.c) == 0 }
				switch {
				case in.Op == token.ADD && zero(y), in.Op == token.SUB && zero(y), in.Op == token.OR && zero(y):
					f.env[in] = x
				case in.Op == token.ADD && zero(x), in.Op == token.OR && zero(x):
					f.env[in] = y
				default:
					f.env[in] = &val{k: kBin, f: in.Op.String(), x: x, y: y}
				}
			}
		case *ssa.ChangeType:
			f.env[in] = c.get(f, in.X)
		case *ssa.Convert:
			x := c.get(f, in.X)
			if narrower(in.X.Type(), in.Type()) && x.k != kLen {
				x = &val{k: kOpaque, f: "narrowed " + in.Type().String(), x: x}
			}
			f.env[in] = x
		case *ssa.MakeInterface:
			f.env[in] = &val{k: kOpaque, f: "iface", x: c.get(f, in.X)}
		case *ssa.MakeClosure:
			v := &val{k: kClo, fn: in.Fn.(*ssa.Function)}
			for _, x := range in.Bindings {
				v.env = append(v.env, c.get(f, x))
			}
			f.env[in] = v
		default:
			giveup("%T in %s", in, f.fn)
		}
	}
	giveup("block without end")
	return nil
}

// narrower reports whether a conversion between numbers can lose information
func narrower(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 || x.Info()&types.IsInteger == 0 || y.Info()&types.IsInteger == 0 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(y) < sz.Sizeof(x)
}

func (c *checker) callee(s *state, f *frame, cc *ssa.CallCommon) (*ssa.Function, string, []*val, []*val) {
	if cc.IsInvoke() {
		giveup("interface call")
	}
	var args []*val
	for _, a := range cc.Args {
		args = append(args, c.get(f, a))
	}
	v := c.get(f, cc.Value)
	if v.k != kClo {
		giveup("dynamic call")
	}
	n := v.fn.Name()
	if strings.HasPrefix(n, "_C") || strings.HasPrefix(n, "_cgo") {
		return nil, n, args, nil
	}
	if v.fn.Pkg != c.pkg || len(v.fn.Blocks) == 0 {
		giveup("call of %s", v.fn)
	}
	return v.fn, n, args, v.env
}

func (c *checker) load(s *state, p *val, t types.Type) *val {
	switch p.k {
	case kPtr:
		k := fmt.Sprintf("%d%s", p.n, p.f)
		if v, ok := s.mem[k]; ok {
			return v
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			// a struct value: remember where its fields are
			_ = st
			w := &val{k: kOpaque, f: "struct", n: s.objs + 1000}
			for i := 0; i < st.NumFields(); i++ {
				fn := st.Field(i).Name()
				s.mem[fmt.Sprintf("s%d.%s", w.n, fn)] = c.load(s, &val{k: kPtr, n: p.n, f: p.f + "." + fn}, st.Field(i).Type())
			}
			s.objs++
			return w
		}
		if p.n < 0 {
			return &val{k: kField, n: -1 - p.n, f: p.f}
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return &val{k: kConst, c: constant.MakeBool(false)}
		}
		return &val{k: kNil}
	case kRet:
		if s.know["nil?"+p.key()] {
			bad(token.NoPos, "reads through a result that is absent")
		}
		return &val{k: kDeref, x: p}
	case kParam:
		return c.load(s, &val{k: kPtr, n: -1 - p.n, f: p.f}, t)
	case kNil:
		bad(token.NoPos, "reads through nil")
	}
	giveup("read through %s", p.key())
	return nil
}

func (c *checker) field(s *state, x *val, fld string) *val {
	if x.k == kOpaque && x.f == "struct" {
		return s.mem[fmt.Sprintf("s%d.%s", x.n, fld)]
	}
	if x.k == kOpaque && x.f == "zero" {
		return &val{k: kNil}
	}
	giveup("field of %s", x.key())
	return nil
}

func (c *checker) store(s *state, p, v *val, pos token.Pos) {
	if p.k == kParam {
		p = &val{k: kPtr, n: -1 - p.n, f: p.f}
	}
	if p.k != kPtr {
		giveup("write through %s", p.key())
	}
	if p.n < 0 {
		bad(pos, "changes a value handed to it")
	}
	if v.k == kOpaque && v.f == "struct" {
		pre := fmt.Sprintf("s%d.", v.n)
		for k, w := range s.mem {
			if strings.HasPrefix(k, pre) {
				s.mem[fmt.Sprintf("%d%s.%s", p.n, p.f, k[len(pre):])] = w
			}
		}
		return
	}
	if v.k == kOpaque && v.f == "zero" {
		return
	}
	s.mem[fmt.Sprintf("%d%s", p.n, p.f)] = v
}

// ---------------------------------------------------------------- the rules

// the Go function -> its core operation (without the prefix), when the names differ
var core = map[string]string{"GetNum": "GetNumStr", "Size": "SizeOf"}

var known = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`NewAllocator ReleaseAllocator NewValue Parse Stringify GetKey GetUnEscapeKey GetStr GetUnEscapeStr GetNum GetBool
		IsNull Type ObjGet ArrayGet Size Begin Next Copy Move SetNull SetBool SetNumStr SetStr SetStrEscape SetKey SetKeyEscape SetArray SetObj Set SetFast
		ObjAdd ObjAddFast ArrayAdd ArrayAddFast ObjDel ArrayDel`) {
		known[n] = true
	}
}

func readonly(n string) bool {
	n = strings.TrimPrefix(n, "zj_")
	return strings.HasPrefix(n, "Get") || n == "Type" || n == "IsNull" || n == "SizeOf"
}

func ptrElem(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func basic(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func (c *checker) check(fn *ssa.Function, want string) (paths int) {
	sig := fn.Signature
	steps := 0
	s := &state{mem: map[string]*val{}, know: map[string]bool{}, freed: map[int]int{}, steps: &steps}
	var args []*val
	for i := range fn.Params {
		args = append(args, &val{k: kParam, n: i})
		// handles are not nil
		s.know["nil?"+args[i].key()] = false
		if e := ptrElem(fn.Params[i].Type()); e != nil {
			if st, ok := e.Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					s.know["nil?"+(&val{k: kField, n: i, f: "." + st.Field(j).Name()}).key()] = false
				}
			}
		}
	}
	cf := c.pkg.Func("_Cfunc_" + want)
	alt := c.pkg.Func("_Cfunc_" + want + "Len")
	if cf == nil && alt == nil {
		if !known[fn.Name()] {
			giveup("no core operation of this name")
		}
		bad(fn.Pos(), "does not call %s", want)
	}
	isNew := strings.HasPrefix(fn.Name(), "New")
	res := c.exec(s, fn, args, nil, 0)
	for _, r := range res {
		// resolve what remains of the returned value under every outcome
		sub := c.withForks(r.s, &frame{fn: fn, env: map[ssa.Value]*val{}}, func(s *state, f *frame) []result {
			c.atReturn(s, fn, sig, r.v, want, isNew)
			return []result{{s, r.v}}
		})
		paths += len(sub)
	}
	if paths == 0 {
		giveup("no path returns")
	}
	return paths
}

func (c *checker) atReturn(s *state, fn *ssa.Function, sig *types.Signature, v *val, want string, isNew bool) {
	pos := fn.Pos()
	if len(s.calls) == 0 {
		bad(pos, "has a path that does not call %s", want)
	}
	if len(s.calls) > 1 {
		ro := 0
		for _, e := range s.calls {
			if readonly(e.name) {
				ro++
			}
		}
		if ro >= len(s.calls)-1 {
			giveup("several core calls on one path")
		}
		bad(s.calls[1].pos, "calls %s after %s on one path", s.calls[1].name, s.calls[0].name)
	}
	ev := s.calls[0]
	if ev.name != want && ev.name != want+"Len" {
		bad(ev.pos, "calls %s instead of %s", ev.name, want)
	}
	for _, cs := range s.cstrs {
		if s.freed[cs.n] == 0 {
			bad(pos, "has a path on which a temporary C string is not freed")
		}
	}
	// arguments
	var exp []*val
	strs := 0
	for i, p := range fn.Params {
		t := p.Type()
		if e := ptrElem(t); e != nil {
			if st, ok := e.Underlying().(*types.Struct); ok && st.NumFields() == 1 {
				exp = append(exp, &val{k: kField, n: i, f: "." + st.Field(0).Name()})
				continue
			}
			giveup("parameter %s of %s", p.Name(), fn)
		}
		if basic(t)&types.IsString != 0 {
			exp = append(exp, &val{k: kCstr, x: &val{k: kParam, n: i}, f: "any"})
			strs = i
			continue
		}
		exp = append(exp, &val{k: kParam, n: i})
	}
	if ev.name == want+"Len" {
		exp = append(exp, &val{k: kLen, x: &val{k: kParam, n: strs}})
	}
	if len(exp) != len(ev.args) {
		bad(ev.pos, "passes %d arguments made from %d parameters to %s", len(ev.args), len(exp), ev.name)
	}
	for i, e := range exp {
		a := ev.args[i]
		ok := false
		switch {
		case e.k == kCstr:
			ok = a.k == kCstr && a.x.key() == e.x.key()
		case e.k == kParam && basic(fn.Params[e.n].Type())&types.IsBoolean != 0:
			ok = s.truth(a) == s.truth(e)
		default:
			ok = a.key() == e.key()
		}
		if !ok {
			bad(ev.pos, "does not hand parameter %s on to %s", fn.Params[e.min()].Name(), ev.name)
		}
	}
	// result
	if sig.Results().Len() == 0 {
		return
	}
	ret := &val{k: kRet, n: 0}
	rt := sig.Results().At(0).Type()
	e := ptrElem(rt)
	if e == nil {
		if basic(rt)&types.IsBoolean != 0 {
			if s.truth(v) != s.truth(ret) {
				bad(pos, "does not return the result of %s", want)
			}
			return
		}
		if v.key() != ret.key() {
			bad(pos, "does not return the result of %s", want)
		}
		return
	}
	absent := false
	if !isNew {
		absent = s.equal(ret, &val{k: kNil})
	}
	if absent {
		if v.k == kPtr {
			bad(pos, "reports a value when %s has none", want)
		}
		if v.k != kNil && !(v.k == kRet) {
			bad(pos, "reports a value when %s has none", want)
		}
		return
	}
	if v.k == kNil {
		bad(pos, "reports nothing although %s has a result", want)
	}
	if v.k != kPtr || v.n < 0 {
		bad(pos, "does not return a fresh copy of the result of %s", want)
	}
	if st, ok := e.Underlying().(*types.Struct); ok {
		x := s.mem[fmt.Sprintf("%d%s.%s", v.n, v.f, st.Field(0).Name())]
		if x == nil || x.key() != ret.key() {
			bad(pos, "does not wrap the result of %s", want)
		}
		return
	}
	x := s.mem[fmt.Sprintf("%d%s", v.n, v.f)]
	switch {
	case basic(e)&types.IsString != 0:
		if x == nil || x.k != kGoStr || x.x.key() != ret.key() {
			bad(pos, "does not return the text of %s", want)
		}
	case basic(e)&types.IsBoolean != 0:
		w := false
		if x != nil {
			w = s.truth(x)
		}
		if w != s.truth(&val{k: kDeref, x: ret}) {
			bad(pos, "does not return the truth value of %s", want)
		}
	default:
		if x == nil || x.key() != (&val{k: kDeref, x: ret}).key() {
			bad(pos, "does not return the result of %s", want)
		}
	}
}

func (v *val) min() int {
	if v.k == kCstr || v.k == kLen {
		return v.x.n
	}
	return v.n
}

func main() {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, n := range os.Args[1:] {
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			out(map[string]any{"undecided": err.Error()})
			return
		}
		files = append(files, f)
	}
	var errs []string
	conf := &types.Config{Importer: stub{map[string]*types.Package{}}, Error: func(e error) { errs = append(errs, e.Error()) }, Sizes: types.SizesFor("gc", "amd64")}
	tp := types.NewPackage("zzzjson", "")
	sp, _, err := ssautil.BuildPackage(conf, fset, tp, files, ssa.SanityCheckFunctions)
	if err != nil || len(errs) > 0 {
		if len(errs) == 0 {
			errs = []string{err.Error()}
		}
		for _, e := range errs {
			out(map[string]any{"typeerror": e})
		}
		return
	}
	c := &checker{fset: fset, pkg: sp}
	var fns []*ssa.Function
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if ast.IsExported(m.Name()) {
				fns = append(fns, m)
			}
		case *ssa.Type:
			if !ast.IsExported(m.Name()) {
				continue
			}
			ms := sp.Prog.MethodSets.MethodSet(types.NewPointer(m.Type()))
			for i := 0; i < ms.Len(); i++ {
				if o := ms.At(i).Obj(); ast.IsExported(o.Name()) {
					fns = append(fns, sp.Prog.MethodValue(ms.At(i)))
				}
			}
		case *ssa.NamedConst:
			if ast.IsExported(m.Name()) {
				out(map[string]any{"const": m.Name(), "value": m.Value.Value.ExactString()})
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		want := fn.Name()
		if m, ok := core[want]; ok {
			want = m
		}
		p0 := c.insts
		o := map[string]any{"func": fn.Name(), "line": fset.Position(fn.Pos()).Line, "core": "zj_" + want}
		func() {
			defer func() {
				switch r := recover().(type) {
				case nil:
				case undecided:
					o["undecided"] = r.msg
				case violation:
					if r.pos != token.NoPos {
						o["line"] = fset.Position(r.pos).Line
					}
					o["violation"] = r.msg
				default:
					o["undecided"] = fmt.Sprint("internal: ", r)
				}
			}()
			o["paths"] = c.check(fn, "zj_"+want)
		}()
		o["insts"] = c.insts - p0
		out(o)
	}
}
