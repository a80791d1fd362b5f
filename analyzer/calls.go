package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the function and arguments of a call.
func (e *Engine) callee(s *State, in ssa.Instruction, c *ssa.CallCommon) (Val, []Val) {
	args := make([]Val, 0, len(c.Args)+1)
	if c.IsInvoke() {
		r := e.val(s, c.Value)
		switch r := r.(type) {
		case *Iface:
			m := e.P.Prog.LookupMethod(r.t, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				e.find(s, "undecided", in.Pos(), nil, "method %s not found", c.Method.Name())
				return nil, nil
			}
			args = append(args, r.v)
			for _, a := range c.Args {
				args = append(args, e.val(s, a))
			}
			return FuncV{m}, args
		case NilV:
			e.panicFind(s, in, "method call on a nil interface")
			return nil, nil
		default:
			for _, a := range c.Args {
				args = append(args, e.val(s, a))
			}
			return &BoundM{name: "unknown." + c.Method.Name(), recv: r}, args
		}
	}
	f := e.val(s, c.Value)
	for i, a := range c.Args {
		v := e.val(s, a)
		if fn, ok := f.(FuncV); ok && i < len(fn.fn.Params) {
			v = e.typed(s, e.typingNode(fn.fn.Params[i]), v)
		}
		args = append(args, v)
	}
	if _, ok := f.(NilV); ok {
		e.panicFind(s, in, "call of a nil function")
		return nil, nil
	}
	return f, args
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

var interpretPkgs = map[string]bool{"slices": true, "maps": true, "cmp": true, "errors": true, "sort": true, "iter": true}

// invoke calls f; the result goes to register ret (or nowhere if negative).
func (e *Engine) invoke(s *State, in ssa.Instruction, f Val, args []Val, ret int) ([]*State, bool) {
	done := func(v Val) ([]*State, bool) {
		switch x := v.(type) {
		case NeedFetch:
			return e.fetch(s, in), false
		case *Expr:
			v = e.guardPanics(s, in, x)
			if v == nil {
				return nil, false
			}
		}
		if ret >= 0 {
			if i, ok := v.(Int); ok {
				if val, ok := in.(ssa.Value); ok {
					v = e.typed(s, e.typingNode(val), i)
				}
			}
			s.regs[ret] = v
		}
		s.idx++
		return nil, true
	}
	switch f := f.(type) {
	case *BoundM:
		if strings.HasPrefix(f.name, "builtin.") {
			return e.builtin(s, in, f.name[8:], args, ret)
		}
		e.havoc(s, in, "call of an unknown method "+f.name)
		return done(e.unknownRet(in))
	case *Closure:
		if nat, ok := e.nativeBound(s, in, f, args); ok {
			return done(nat)
		}
		return e.callFn(s, in, f.fn, args, f.binds, ret)
	case FuncV:
		fn := f.fn
		if e.intercept != nil {
			if outs, rets, ok := e.intercept(e, s, fn, args); ok {
				var more []*State
				for i, o := range outs {
					if ret >= 0 {
						if len(rets[i]) == 1 {
							o.regs[ret] = rets[i][0]
						} else {
							o.regs[ret] = &Tuple{rets[i]}
						}
					}
					o.idx++
					more = append(more, o)
				}
				return more, false
			}
		}
		if !inRepo(fn) {
			if v, ok := e.native(s, in, fn, args); ok {
				if fk, isF := v.(forks); isF {
					var more []*State
					for _, x := range fk {
						x.idx++
						more = append(more, x)
					}
					return more, false
				}
				if v == nil {
					return nil, false
				}
				return done(v)
			}
			pk := ""
			if fn.Pkg != nil {
				pk = fn.Pkg.Pkg.Path()
			} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
				pk = fn.Origin().Pkg.Pkg.Path()
			} else if fn.Synthetic != "" {
				pk = "errors"
			}
			if !interpretPkgs[pk] {
				e.havoc(s, in, "call of "+fn.String()+" not modelled")
				return done(e.unknownRet(in))
			}
		}
		return e.callFn(s, in, fn, args, nil, ret)
	}
	e.havoc(s, in, "call of an unknown function value")
	return done(e.unknownRet(in))
}

func (e *Engine) unknownRet(in ssa.Instruction) Val {
	if c, ok := in.(*ssa.Call); ok {
		if t, ok := c.Type().(*types.Tuple); ok {
			v := make([]Val, t.Len())
			for i := range v {
				v[i] = Unknown{}
			}
			return &Tuple{v}
		}
	}
	return Unknown{}
}

func (e *Engine) callFn(s *State, in ssa.Instruction, fn *ssa.Function, args, binds []Val, ret int) ([]*State, bool) {
	if !inRepo(fn) {
		e.P.ensureBuilt(fn)
	}
	if len(fn.Blocks) == 0 {
		e.havoc(s, in, "call of "+fn.String()+" without source")
		if ret >= 0 {
			s.regs[ret] = e.unknownRet(in)
		}
		s.idx++
		return nil, true
	}
	for i := range args {
		if i < len(fn.Params) {
			args[i] = e.typed(s, e.typingNode(fn.Params[i]), args[i])
		}
	}
	e.call(s, fn, append(append([]Val(nil), args...), binds...), ret)
	return nil, false
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(s *State, in ssa.Instruction, name string, args []Val, ret int) ([]*State, bool) {
	done := func(v Val) ([]*State, bool) {
		if x, ok := v.(*Expr); ok {
			v = e.guardPanics(s, in, x)
			if v == nil {
				return nil, false
			}
		}
		if ret >= 0 {
			s.regs[ret] = v
		}
		s.idx++
		return nil, true
	}
	switch name {
	case "len":
		if o, ok := args[0].(*Opaque); ok && o.name == "runesOf" {
			return done(e.mkExpr(s, "runelen", o.args[0]))
		}
		if o, ok := args[0].(*Opaque); ok && o.name == "bytesOf" {
			return done(e.mkExpr(s, "len", o.args[0]))
		}
		return done(e.lenOf(s, args[0]))
	case "cap":
		return done(Unknown{})
	case "append":
		return e.appendOp(s, in, args, ret)
	case "copy":
		src, ok1 := args[1].(Slice)
		dst, ok2 := args[0].(Slice)
		if ok1 && ok2 && dst.obj > 0 {
			sv, a := e.obj(s, src.obj).v.(*ArrV)
			dv, b := e.obj(s, dst.obj).v.(*ArrV)
			if a && b && sv.prefix == 0 && dv.prefix == 0 && !sv.run && !dv.run {
				n := src.hi - src.lo
				if dst.hi-dst.lo < n {
					n = dst.hi - dst.lo
				}
				c := *dv
				c.elems = append([]Val(nil), dv.elems...)
				for i := 0; i < n; i++ {
					c.elems[dst.lo+i] = sv.elems[src.lo+i]
				}
				s.heap[dst.obj] = &Obj{&c, ""}
				return done(Int(n))
			}
		}
		if _, ok := args[1].(NilV); ok {
			return done(Int(0))
		}
		if ok2 && dst.obj > 0 {
			if dv, b := e.obj(s, dst.obj).v.(*ArrV); b {
				c := *dv
				c.elems = make([]Val, len(dv.elems))
				for i := range c.elems {
					c.elems[i] = Unknown{}
				}
				s.heap[dst.obj] = &Obj{&c, ""}
			}
		}
		e.havoc(s, in, "copy not modelled")
		return done(Unknown{})
	case "panic":
		e.panicFind(s, in, "explicit panic")
		return nil, false
	case "print", "println":
		return done(NilV{})
	case "delete":
		if m, ok := args[0].(MapRef); ok && m.obj > 0 {
			if mv, ok := e.obj(s, m.obj).v.(*MapV); ok {
				k := args[1]
				if ex, isE := k.(*Expr); isE {
					if c, ok := e.exprConst(s, ex); ok {
						k = fromAny(c)
					}
				}
				nm := &MapV{}
				for i, x := range mv.keys {
					if !sameRef(x, k) {
						nm.keys = append(nm.keys, x)
						nm.vals = append(nm.vals, mv.vals[i])
					}
				}
				s.heap[m.obj] = &Obj{nm, ""}
			}
		}
		return done(NilV{})
	case "clear":
		if m, ok := args[0].(MapRef); ok && m.obj > 0 {
			s.heap[m.obj] = &Obj{&MapV{}, ""}
		}
		return done(NilV{})
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			c := e.binop(s, in, op, a, r, types.Typ[types.Int])
			switch c := c.(type) {
			case Bool:
				if c {
					r = a
				}
			case NeedFetch:
				return e.fetch(s, in), false
			default:
				r = Unknown{}
			}
		}
		return done(r)
	case "recover":
		return done(NilV{})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(NilV); ok {
			e.panicFind(s, in, "nil receiver")
			return nil, false
		}
		return done(args[0])
	}
	e.havoc(s, in, "builtin "+name)
	return done(e.unknownRet(in))
}

func (e *Engine) appendOp(s *State, in ssa.Instruction, args []Val, ret int) ([]*State, bool) {
	done := func(v Val) ([]*State, bool) {
		s.regs[ret] = v
		s.idx++
		return nil, true
	}
	var add []Val
	addRun := false
	switch y := args[1].(type) {
	case NilV:
	case Slice:
		av, ok := e.obj(s, y.obj).v.(*ArrV)
		if !ok {
			return done(Unknown{})
		}
		if av.prefix != 0 {
			if _, isNil := args[0].(NilV); isNil && y.lo == 0 {
				// copy of an absorbed list: share the link
				c := *av
				c.elems = append([]Val(nil), av.elems[:y.hi]...)
				return done(Slice{obj: s.alloc(&c, ""), lo: 0, hi: y.hi})
			}
			if x, isS := args[0].(Slice); isS && x.hi == 0 && y.lo == 0 {
				if xv, ok := e.obj(s, x.obj).v.(*ArrV); ok && xv.prefix == 0 {
					c := *av
					c.elems = append([]Val(nil), av.elems[:y.hi]...)
					return done(Slice{obj: s.alloc(&c, ""), lo: 0, hi: y.hi})
				}
			}
			if x, isS := args[0].(Slice); isS && x.hi > 0 {
				// something before what already agreed with the expected list
				return done(Slice{obj: s.alloc(&ArrV{prefix: av.prefix, bad: true, wrong: true}, ""), lo: 0, hi: 0})
			}
			e.havoc(s, in, "append of an absorbed list")
			return done(Unknown{})
		}
		add = av.elems[y.lo:y.hi]
		addRun = av.run
	case Stream:
		lo, ok := y.lo.(Pos)
		if !ok {
			if p, ok2 := e.toPos(s, Int(0), y.lo); ok2 {
				lo, ok = Pos{p}, true
			}
		}
		hp, ok2 := y.hi.(Pos)
		if !ok2 && s.ss != nil && s.ss.eof {
			if l, isL := y.hi.(Len); isL {
				hp, ok2 = Pos{s.ss.end + l.k}, true
			}
		}
		if !ok || !ok2 {
			e.havoc(s, in, "append of a stream slice")
			return done(Unknown{})
		}
		if hp.p > lo.p {
			if hp.p == lo.p+1 {
				add = []Val{&Expr{e.shapes.mk("sym"), lo.p}}
			} else {
				add = []Val{SegRun{lo.p, hp.p}}
				addRun = true
			}
		}
	case Str: // append([]byte, string...)
		for i := 0; i < len(y); i++ {
			add = append(add, Int(y[i]))
		}
	case *Opaque:
		if (y.name == "runesOf" || y.name == "bytesOf") && args[0] == Val(NilV{}) {
			return done(y)
		}
		return done(Unknown{})
	default:
		e.havoc(s, in, "append of an unknown list")
		return done(Unknown{})
	}
	switch x := args[0].(type) {
	case NilV:
		if len(add) == 0 {
			return done(NilV{})
		}
		id := s.alloc(&ArrV{elems: append([]Val(nil), add...), run: addRun}, "")
		return done(Slice{obj: id, hi: len(add)})
	case Slice:
		av, ok := e.obj(s, x.obj).v.(*ArrV)
		if !ok {
			return done(Unknown{})
		}
		if len(add) == 0 {
			return done(x)
		}
		if x.obj < 0 || (x.shared && x.hi >= len(av.elems)) {
			if x.obj < 0 && x.hi < len(av.elems) {
				e.find(s, "globalwrite", in.Pos(), nil, "appends to a part of a slice of a package-level variable")
				s.taint = true
			}
			c := &ArrV{elems: append(append([]Val(nil), av.elems[x.lo:x.hi]...), add...), prefix: av.prefix, run: av.run || addRun}
			id := s.alloc(c, "")
			return done(Slice{obj: id, lo: 0, hi: len(c.elems)})
		}
		if x.hi < len(av.elems) {
			// the tail is in use by another header: both outcomes of the
			// capacity check are possible
			c := &ArrV{elems: append(append([]Val(nil), av.elems[x.lo:x.hi]...), add...), prefix: av.prefix, run: av.run || addRun, bad: av.bad}
			if av.prefix != 0 && x.lo != 0 {
				return done(Unknown{})
			}
			fits := x.hi+len(add) <= len(av.elems)
			n := s.clone()
			id := n.alloc(c, "")
			n.regs[ret] = Slice{obj: id, lo: 0, hi: len(c.elems)}
			n.idx++
			d := *av
			d.elems = append([]Val(nil), av.elems...)
			for i, v := range add {
				if x.hi+i < len(d.elems) {
					d.elems[x.hi+i] = v
				} else {
					d.elems = append(d.elems, v)
				}
			}
			s.heap[x.obj] = &Obj{&d, ""}
			s.regs[ret] = Slice{obj: x.obj, lo: x.lo, hi: x.hi + len(add), shared: x.shared}
			s.idx++
			if fits {
				return nil, true
			}
			return []*State{n}, true
		}
		c := *av
		c.elems = append(append([]Val(nil), av.elems...), add...)
		c.run = av.run || addRun
		s.heap[x.obj] = &Obj{&c, ""}
		return done(Slice{obj: x.obj, lo: x.lo, hi: x.hi + len(add), shared: x.shared})
	case Stream:
		e.havoc(s, in, "append to the caller's input slice")
		return done(Unknown{})
	}
	e.havoc(s, in, "append to an unknown list")
	return done(Unknown{})
}

// ---------------------------------------------------------------- library functions

func hasExpr(args []Val) bool {
	for _, a := range args {
		if _, ok := a.(*Expr); ok {
			return true
		}
	}
	return false
}

func (e *Engine) nativeBound(s *State, in ssa.Instruction, c *Closure, args []Val) (Val, bool) {
	// bound method of a library type: (*regexp.Regexp).MatchString$bound etc.
	if inRepo(c.fn) || !strings.HasSuffix(c.fn.Name(), "$bound") {
		return nil, false
	}
	if o, ok := c.fn.Object().(*types.Func); ok {
		name := o.FullName()
		if pureNatives[name] {
			return e.mkExpr(s, "call:"+name, append(append([]Val(nil), c.binds...), args...)...), true
		}
	}
	return nil, false
}

func (e *Engine) native(s *State, in ssa.Instruction, fn *ssa.Function, args []Val) (Val, bool) {
	name := fnName(fn)
	if pureNatives[name] {
		// EqualFold and friends on a concatenation: unknown
		r := e.mkExpr(s, "call:"+name, args...)
		if _, ok := r.(Unknown); ok {
			e.havoc(s, in, name+" of an untracked value")
			return e.unknownRet(in), true
		}
		return r, true
	}
	switch name {
	case "regexp.MustCompile", "regexp.Compile", "regexp.MustCompilePOSIX":
		if p, ok := args[0].(Str); ok {
			if compileRe(string(p)) == nil {
				e.panicFind(s, in, "regexp does not compile")
				return nil, true
			}
			o := &Opaque{name: "regexp", args: []Val{p}}
			if name == "regexp.Compile" {
				return &Tuple{[]Val{o, NilV{}}}, true
			}
			return o, true
		}
		return e.unknownRet(in), true
	case "strings.Join":
		l, ok := args[0].(Slice)
		sep, ok2 := args[1].(Str)
		if _, isNil := args[0].(NilV); isNil {
			return Str(""), true
		}
		if ok && ok2 {
			if av, ok := e.obj(s, l.obj).v.(*ArrV); ok && av.prefix == 0 {
				var r Val = Str("")
				for i := l.lo; i < l.hi; i++ {
					if i > l.lo {
						r = e.concat(s, r, sep)
					}
					if sr, ok := av.elems[i].(SegRun); ok {
						if sep != "" {
							return Unknown{}, true
						}
						r = e.concat(s, r, &Cat{[]Part{{a: sr.a, b: sr.b}}})
						continue
					}
					r = e.concat(s, r, av.elems[i])
				}
				return r, true
			}
		}
		if st, ok := args[0].(Stream); ok && ok2 && sep == "" && !e.an.runes {
			return e.segOf(s, st), true
		}
		return Unknown{}, true
	case "errors.New":
		return &Opaque{name: "error:new"}, true
	case "fmt.Errorf":
		return &Opaque{name: "error:fmt"}, true
	case "fmt.Sprintf", "fmt.Sprint":
		return e.sprintf(s, name, args), true
	case "errors.Is", "errors.As":
		return Unknown{}, true
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		b, _ := e.load(s, args[0])
		bu, ok := b.(*Builder)
		if !ok {
			return e.unknownRet(in), true
		}
		v := args[1]
		if !strings.HasSuffix(name, "String") {
			switch x := v.(type) {
			case Int:
				if strings.HasSuffix(name, "WriteByte") {
					v = Str(string([]byte{byte(x)}))
				} else {
					v = Str(string(rune(x)))
				}
			case *Expr:
				if x.sh.op == "sym" && e.an.runes {
					v = &Expr{e.shapes.mk("symstr"), x.pos}
				} else {
					v = e.mkExpr(s, "rune2str", x)
				}
			default:
				v = Unknown{}
			}
		}
		e.store(s, args[0], &Builder{e.concat(s, bu.v, v)}, in)
		if strings.HasSuffix(name, "WriteByte") {
			return NilV{}, true
		}
		return &Tuple{[]Val{Unknown{}, NilV{}}}, true
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		b, _ := e.load(s, args[0])
		if bu, ok := b.(*Builder); ok {
			return bu.v, true
		}
		return Unknown{}, true
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		b, _ := e.load(s, args[0])
		if bu, ok := b.(*Builder); ok {
			return e.lenOf(s, bu.v), true
		}
		return Unknown{}, true
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		e.store(s, args[0], &Builder{Str("")}, in)
		return NilV{}, true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return NilV{}, true
	case "unicode/utf8.DecodeRuneInString":
		if x, ok := args[0].(Str); ok {
			for _, r := range string(x) {
				return &Tuple{[]Val{Int(r), Int(len(string(r)))}}, true
			}
			return &Tuple{[]Val{Int(0xFFFD), Int(0)}}, true
		}
		return e.unknownRet(in), true
	case "slices.Contains", "slices.Index":
		// constant list, element key: one condition on the element
		if x, ok := args[1].(*Expr); ok {
			if l, ok := e.toAnyDeep(s, args[0]); ok {
				if _, ok := l.([]any); ok && name == "slices.Contains" {
					return e.mkExpr(s, "oneof", x, args[0]), true
				}
			}
		}
		return nil, false
	}
	return nil, false
}

func (e *Engine) sprintf(s *State, name string, args []Val) Val {
	if name != "fmt.Sprintf" {
		return Unknown{}
	}
	f, ok := args[0].(Str)
	if !ok {
		return Unknown{}
	}
	var vs []Val
	switch l := args[1].(type) {
	case NilV:
	case Slice:
		av, ok := e.obj(s, l.obj).v.(*ArrV)
		if !ok || av.prefix != 0 || av.run {
			return Unknown{}
		}
		vs = av.elems[l.lo:l.hi]
	default:
		return Unknown{}
	}
	var r Val = Str("")
	k := 0
	txt := string(f)
	for i := 0; i < len(txt); i++ {
		if txt[i] != '%' {
			r = e.concat(s, r, Str(txt[i:i+1]))
			continue
		}
		i++
		if i >= len(txt) {
			return Unknown{}
		}
		switch txt[i] {
		case '%':
			r = e.concat(s, r, Str("%"))
		case 's', 'v', 'd', 'c':
			if k >= len(vs) {
				return Unknown{}
			}
			v := vs[k]
			k++
			if x, ok := v.(*Iface); ok {
				v = x.v
			}
			switch x := v.(type) {
			case Str, *Cat:
				r = e.concat(s, r, v)
			case *Expr:
				if txt[i] == 'c' && x.sh.op == "sym" && e.an.runes {
					v = &Expr{e.shapes.mk("symstr"), x.pos}
				}
				r = e.concat(s, r, v)
			case Int:
				if txt[i] == 'c' {
					r = e.concat(s, r, Str(string(rune(x))))
				} else {
					r = e.concat(s, r, Str(fmt.Sprint(int64(x))))
				}
			default:
				return Unknown{}
			}
		default:
			return Unknown{}
		}
	}
	return r
}
