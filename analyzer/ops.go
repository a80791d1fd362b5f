package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exprConst folds an expression that is constant on the known classes.
func (e *Engine) exprConst(s *State, x *Expr) (any, bool) {
	el := s.elemAt(x.pos)
	if el == nil {
		return nil, false
	}
	return constOn(x.sh, el.cls)
}

// mkExpr applies op to args (one of which is an Expr). Constants are folded;
// expressions over two different elements become unknown.
func (e *Engine) mkExpr(s *State, op string, args ...Val) Val {
	pos := -1
	as := make([]any, len(args))
	for i, a := range args {
		if x, ok := a.(*Expr); ok {
			if c, ok := e.exprConst(s, x); ok {
				if _, isP := c.(panicV); !isP {
					as[i] = c
					continue
				}
			}
			if pos >= 0 && pos != x.pos {
				return Unknown{}
			}
			pos = x.pos
			as[i] = x.sh
			continue
		}
		c, ok := e.toAnyDeep(s, a)
		if !ok {
			return Unknown{}
		}
		as[i] = c
	}
	if pos < 0 {
		r := applyOp(op, as)
		if p, ok := r.(panicV); ok {
			// keep it as an expression so that the caller reports it
			_ = p
			for _, a := range args {
				if x, ok := a.(*Expr); ok {
					for i, b := range args {
						if y, ok := b.(*Expr); ok && y.pos == x.pos {
							as[i] = y.sh
						}
					}
					return &Expr{e.shapes.mk(op, as...), x.pos}
				}
			}
			return Unknown{}
		}
		if v := e.fromAnyDeep(r); v != nil {
			return v
		}
		return Unknown{}
	}
	return &Expr{e.shapes.mk(op, as...), pos}
}

func (e *Engine) toAnyDeep(s *State, v Val) (any, bool) {
	if c, ok := toAny(v); ok {
		return c, true
	}
	switch v := v.(type) {
	case Slice:
		o := e.obj(s, v.obj)
		if o == nil {
			return nil, false
		}
		av, ok := o.v.(*ArrV)
		if !ok || av.prefix != 0 || av.run {
			return nil, false
		}
		out := []any{}
		for i := v.lo; i < v.hi; i++ {
			c, ok := e.toAnyDeep(s, av.elems[i])
			if !ok {
				return nil, false
			}
			out = append(out, c)
		}
		return out, true
	case *Iface:
		return e.toAnyDeep(s, v.v)
	case *Opaque:
		if v.name == "regexp" {
			return reT{string(v.args[0].(Str))}, true
		}
		if strings.HasPrefix(v.name, "error:") {
			return errT{v.name[6:]}, true
		}
	case *Expr:
		if c, ok := e.exprConst(s, v); ok {
			return c, true
		}
	}
	return nil, false
}

type reT struct{ p string }

func (e *Engine) fromAnyDeep(a any) Val {
	switch a := a.(type) {
	case []any:
		t := make([]Val, len(a))
		for i, x := range a {
			t[i] = e.fromAnyDeep(x)
			if t[i] == nil {
				t[i] = Unknown{}
			}
		}
		return &Tuple{t}
	case reT:
		return &Opaque{name: "regexp", args: []Val{Str(a.p)}}
	}
	return fromAny(a)
}

// ---------------------------------------------------------------- comparison of positions with the length

// lt decides q < L for position q; L is the stream length.
func (e *Engine) posLT(s *State, q int) Val {
	if q < s.ss.end {
		return Bool(true)
	}
	if s.ss.eof {
		return Bool(false)
	}
	return NeedFetch{}
}

func negate(v Val) Val {
	if b, ok := v.(Bool); ok {
		return !b
	}
	return v
}

// cmpLen decides (position q) op (stream length).
func (e *Engine) cmpLen(s *State, op token.Token, q int) Val {
	switch op {
	case token.LSS:
		return e.posLT(s, q)
	case token.GEQ:
		return negate(e.posLT(s, q))
	case token.LEQ:
		return e.posLT(s, q-1)
	case token.GTR:
		return negate(e.posLT(s, q-1))
	case token.EQL, token.NEQ:
		var r Val
		if q < s.ss.end {
			r = Bool(false)
		} else if s.ss.eof {
			r = Bool(q == s.ss.end)
		} else {
			return NeedFetch{}
		}
		if op == token.NEQ {
			return negate(r)
		}
		return r
	}
	return Unknown{}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func cmpInt(op token.Token, a, b int64) Val {
	switch op {
	case token.LSS:
		return Bool(a < b)
	case token.LEQ:
		return Bool(a <= b)
	case token.GTR:
		return Bool(a > b)
	case token.GEQ:
		return Bool(a >= b)
	case token.EQL:
		return Bool(a == b)
	case token.NEQ:
		return Bool(a != b)
	}
	return Unknown{}
}

// cmpAtLeast decides x op b where x >= a.
func cmpAtLeast(op token.Token, a, b int64) Val {
	switch op {
	case token.LSS:
		if a >= b {
			return Bool(false)
		}
	case token.LEQ:
		if a > b {
			return Bool(false)
		}
	case token.GTR:
		if a > b {
			return Bool(true)
		}
	case token.GEQ:
		if a >= b {
			return Bool(true)
		}
	case token.EQL:
		if a > b {
			return Bool(false)
		}
	case token.NEQ:
		if a > b {
			return Bool(true)
		}
	}
	return Unknown{}
}

func isCmp(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}

func (e *Engine) binop(s *State, in ssa.Instruction, op token.Token, x, y Val, t types.Type) Val {
	// expressions over an element
	xe, xok := x.(*Expr)
	ye, yok := y.(*Expr)
	if xok && (xe.sh.op == "sym" || xe.sh.op == "symstr") && op == token.ADD && isString(t) {
		return e.concat(s, x, y)
	}
	if isString(t) && op == token.ADD {
		return e.concat(s, x, y)
	}
	if isCmp(op) {
		if _, ok := x.(NilV); ok {
			return e.cmpNil(s, in, op, y)
		}
		if _, ok := y.(NilV); ok {
			return e.cmpNil(s, in, op, x)
		}
	}
	if xok || yok {
		if isString(t) {
			// a concatenation against an element
			if c, ok := x.(*Cat); ok {
				return e.cmpCat(s, op, c, y)
			}
			if c, ok := y.(*Cat); ok {
				return e.cmpCat(s, flip(op), c, x)
			}
		}
		if xok && yok && xe.pos == ye.pos || xok != yok {
			return e.mkExpr(s, "bin:"+op.String(), x, y)
		}
		return e.mkExpr(s, "bin:"+op.String(), x, y)
	}
	switch a := x.(type) {
	case Bool:
		if b, ok := y.(Bool); ok {
			switch op {
			case token.EQL:
				return Bool(a == b)
			case token.NEQ:
				return Bool(a != b)
			case token.AND:
				return a && b
			case token.OR:
				return a || b
			}
		}
	case Str:
		switch b := y.(type) {
		case Str:
			if r, ok := applyOp("bin:"+op.String(), []any{string(a), string(b)}).(bool); ok {
				return Bool(r)
			}
		case *Cat:
			return e.cmpCat(s, flip(op), b, x)
		}
	case *Cat:
		return e.cmpCat(s, op, a, y)
	case Flt:
		if b, ok := y.(Flt); ok {
			return e.fromAnyDeep(applyOp("bin:"+op.String(), []any{float64(a), float64(b)}))
		}
	case Int:
		switch b := y.(type) {
		case Int:
			if isCmp(op) {
				return cmpInt(op, int64(a), int64(b))
			}
			r := applyOp("bin:"+op.String(), []any{int64(a), int64(b)})
			if v := fromAny(r); v != nil {
				return v
			}
			return Unknown{}
		case Pos, Len, AtLeast, Diff, LenOf, Line, CatLen:
			if isCmp(op) {
				return e.binop(s, in, flip(op), y, x, t)
			}
			if op == token.ADD {
				return e.binop(s, in, op, y, x, t)
			}
			if op == token.SUB {
				return Unknown{}
			}
		}
	case Pos:
		if s.ss == nil {
			return Unknown{}
		}
		switch b := y.(type) {
		case Int:
			if op == token.ADD {
				return e.clampPos(s, a.p+int(b))
			}
			if op == token.SUB {
				return e.clampPos(s, a.p-int(b))
			}
			if isCmp(op) {
				n, ex := s.abs(a.p)
				if ex {
					return cmpInt(op, int64(n), int64(b))
				}
				return cmpAtLeast(op, int64(n), int64(b))
			}
		case Pos:
			if isCmp(op) {
				return cmpInt(op, int64(a.p), int64(b.p))
			}
			if op == token.SUB {
				if a.p >= s.ss.base && b.p >= s.ss.base || a.p == b.p || a.p-b.p == 1 {
					return Int(a.p - b.p)
				}
				if a.p > b.p {
					return AtLeast{2}
				}
			}
		case Len:
			if isCmp(op) {
				return e.cmpLen(s, op, a.p-b.k)
			}
		}
	case Len:
		switch b := y.(type) {
		case Int:
			if op == token.ADD {
				return Len{a.k + int(b)}
			}
			if op == token.SUB {
				return Len{a.k - int(b)}
			}
			if isCmp(op) && s.ss != nil {
				// L + k op b  <=>  (b - k) flip(op) L
				if s.ss.before < satBefore {
					q := s.ss.base - s.ss.before + int(b) - a.k
					return e.cmpLen(s, flip(op), q)
				}
				return cmpAtLeast(op, int64(satBefore+s.ss.end-s.ss.base+a.k), int64(b))
			}
		case Pos:
			if isCmp(op) && s.ss != nil {
				return e.cmpLen(s, flip(op), b.p-a.k)
			}
			if op == token.SUB && s.ss != nil {
				if s.ss.eof && b.p >= s.ss.base {
					return Int(s.ss.end + a.k - b.p)
				}
				return Diff{b.p, a.k}
			}
		case Len:
			if isCmp(op) {
				return cmpInt(op, int64(a.k), int64(b.k))
			}
			if op == token.SUB {
				return Int(a.k - b.k)
			}
		}
	case Diff:
		if b, ok := y.(Int); ok && s.ss != nil {
			switch {
			case op == token.ADD:
				return Diff{a.p, a.k + int(b)}
			case op == token.SUB:
				return Diff{a.p, a.k - int(b)}
			case isCmp(op):
				// L + k - p op b <=> p + b - k flip(op) L
				return e.cmpLen(s, flip(op), a.p+int(b)-a.k)
			}
		}
	case LenOf:
		if b, ok := y.(Int); ok {
			switch {
			case op == token.ADD:
				return LenOf{a.obj, a.hi, a.k + int(b)}
			case op == token.SUB:
				return LenOf{a.obj, a.hi, a.k - int(b)}
			case isCmp(op):
				return cmpAtLeast(op, int64(a.hi+1+a.k), int64(b))
			}
		}
	case CatLen:
		if b, ok := y.(Int); ok {
			switch {
			case op == token.ADD:
				return CatLen{a.c, a.k + int(b), a.n}
			case op == token.SUB:
				return CatLen{a.c, a.k - int(b), a.n}
			case isCmp(op):
				return cmpAtLeast(op, int64(a.n+a.k), int64(b))
			}
		}
	case AtLeast:
		switch b := y.(type) {
		case Int:
			switch {
			case op == token.ADD:
				if int(b) >= 0 {
					return a
				}
				return AtLeast{a.n + int(b)}
			case op == token.SUB:
				return AtLeast{a.n - int(b)}
			case isCmp(op):
				return cmpAtLeast(op, int64(a.n), int64(b))
			}
		}
	case Line:
		switch b := y.(type) {
		case Int:
			if op == token.ADD {
				if a.v+int(b) > e.maxWin+5 {
					return Unknown{}
				}
				return Line{a.v + int(b)}
			}
			if op == token.SUB {
				return Line{a.v - int(b)}
			}
		case Line:
			if isCmp(op) {
				return cmpInt(op, int64(a.v), int64(b.v))
			}
		}
	case *Iface:
		if b, ok := y.(*Iface); ok && (op == token.EQL || op == token.NEQ) {
			if !types.Identical(a.t, b.t) {
				return Bool(op == token.NEQ)
			}
			return e.binop(s, in, op, a.v, b.v, a.t)
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			return cmpInt(op, 0, int64(map[bool]int{true: 0, false: 1}[a == b]))
		}
	case FuncV, *Closure:
	}
	return Unknown{}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) clampPos(s *State, p int) Val {
	if s.ss.eof && p > s.ss.end+2 {
		p = s.ss.end + 2
	}
	return Pos{p}
}

func (e *Engine) cmpNil(s *State, in ssa.Instruction, op token.Token, v Val) Val {
	var isNil bool
	switch v := v.(type) {
	case NilV:
		isNil = true
	case Unknown:
		return Unknown{}
	case *Expr:
		return e.mkExpr(s, "bin:"+op.String(), v, NilV{})
	case Slice, Ptr, GlobalPtr, MapRef, FuncV, *Closure, *Iface, *Opaque, *BoundM, Stream:
		isNil = false
	default:
		return Unknown{}
	}
	if op == token.NEQ {
		isNil = !isNil
	}
	return Bool(isNil)
}

// ---------------------------------------------------------------- strings

func (e *Engine) parts(s *State, v Val) ([]Part, bool) {
	switch v := v.(type) {
	case Str:
		if v == "" {
			return nil, true
		}
		return []Part{{s: string(v)}}, true
	case *Expr:
		if c, ok := e.exprConst(s, v); ok && v.sh.op != "sym" && v.sh.op != "symstr" {
			if str, ok := c.(string); ok {
				if str == "" {
					return nil, true
				}
				return []Part{{s: str}}, true
			}
		}
		if v.sh.op == "sym" || v.sh.op == "symstr" {
			return []Part{{a: v.pos, b: v.pos + 1}}, true
		}
		return []Part{{e: v}}, true
	case *Cat:
		return v.parts, true
	}
	return nil, false
}

func (e *Engine) concat(s *State, x, y Val) Val {
	a, ok1 := e.parts(s, x)
	b, ok2 := e.parts(s, y)
	if !ok1 || !ok2 {
		return Unknown{}
	}
	out := append([]Part(nil), a...)
	for _, p := range b {
		if len(out) == 0 {
			out = append(out, p)
			continue
		}
		q := &out[len(out)-1]
		qs, ps := q.e == nil && q.b > q.a, p.e == nil && p.b > p.a
		qc, pc := q.e == nil && q.b <= q.a, p.e == nil && p.b <= p.a
		switch {
		case qs && ps && q.b == p.a:
			q.b = p.b
		case qc && pc:
			q.s += p.s
		case qs && pc:
			// constant text equal to the following known elements
			rest := p.s
			for rest != "" {
				el := s.elemAt(q.b)
				if el == nil || el.cls.count() != 1 {
					break
				}
				r := e.an.reps[el.cls.first()]
				if !strings.HasPrefix(rest, r) {
					break
				}
				q.b++
				rest = rest[len(r):]
			}
			if rest != "" {
				out = append(out, Part{s: rest})
			}
		case qc && ps:
			// constant text equal to the preceding known elements
			for q.s != "" {
				el := s.elemAt(p.a - 1)
				if el == nil || el.cls.count() != 1 {
					break
				}
				r := e.an.reps[el.cls.first()]
				if !strings.HasSuffix(q.s, r) {
					break
				}
				p.a--
				q.s = q.s[:len(q.s)-len(r)]
			}
			if q.s == "" {
				*q = p
			} else {
				out = append(out, p)
			}
		default:
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		p := out[0]
		switch {
		case p.e != nil:
			return p.e
		case p.b > p.a:
			if p.b == p.a+1 {
				return &Expr{e.shapes.mk(e.symStrOp()), p.a}
			}
		default:
			return Str(p.s)
		}
	}
	if len(out) > 12 {
		return Unknown{}
	}
	return &Cat{out}
}

func (e *Engine) symStrOp() string {
	if e.an.runes {
		return "symstr"
	}
	return "sym"
}

func (e *Engine) cmpCat(s *State, op token.Token, c *Cat, y Val) Val {
	if op != token.EQL && op != token.NEQ {
		return Unknown{}
	}
	r := func(eq bool) Val {
		if op == token.NEQ {
			return Bool(!eq)
		}
		return Bool(eq)
	}
	min := 0
	for _, p := range c.parts {
		switch {
		case p.e != nil:
		case p.b > p.a:
			min += p.b - p.a
			if p.b-p.a > 1 {
				min = min - (p.b - p.a) + 2
			}
		default:
			min += len(p.s)
		}
	}
	if str, ok := y.(Str); ok {
		if len(str) < min {
			return r(false)
		}
		if p := c.parts[0]; p.e == nil && p.b <= p.a && !strings.HasPrefix(string(str), p.s) && !strings.HasPrefix(p.s, string(str)) {
			return r(false)
		}
		if p := c.parts[0]; p.e == nil && p.b <= p.a && len(p.s) <= len(str) && string(str)[:len(p.s)] != p.s {
			return r(false)
		}
		// every element known exactly
		if p := c.parts[0]; len(c.parts) == 1 && p.b > p.a {
			txt := ""
			for q := p.a; q < p.b; q++ {
				el := s.elemAt(q)
				if el == nil || el.cls.count() != 1 {
					txt = "\x00"
					break
				}
				txt += e.an.reps[el.cls.first()]
			}
			if txt != "\x00" && p.b-p.a < 6 {
				return r(txt == string(str))
			}
		}
		return Unknown{}
	}
	if d, ok := y.(*Cat); ok && len(d.parts) == len(c.parts) {
		same := true
		for i := range c.parts {
			if c.parts[i] != d.parts[i] {
				same = false
			}
		}
		if same {
			return r(true)
		}
	}
	return Unknown{}
}

func (e *Engine) sliceCat(s *State, in ssa.Instruction, c *Cat, lo, hi Val) Val {
	l, ok := lo.(Int)
	if !ok {
		return Unknown{}
	}
	parts := append([]Part(nil), c.parts...)
	// strip l bytes of leading constant text
	if l > 0 {
		p := parts[0]
		if p.e != nil || p.b > p.a || len(p.s) < int(l) {
			return Unknown{}
		}
		parts[0].s = p.s[l:]
		if parts[0].s == "" {
			parts = parts[1:]
		}
	}
	switch h := hi.(type) {
	case NilV:
	case CatLen:
		if h.c != c || h.k > 0 {
			return Unknown{}
		}
		if h.k < 0 {
			if len(parts) == 0 {
				return Unknown{}
			}
			p := &parts[len(parts)-1]
			if p.e != nil || p.b > p.a || len(p.s) < -h.k {
				return Unknown{}
			}
			p.s = p.s[:len(p.s)+h.k]
			if p.s == "" {
				parts = parts[:len(parts)-1]
			}
		}
	default:
		return Unknown{}
	}
	if len(parts) == 0 {
		return Str("")
	}
	return e.concat(s, &Cat{parts}, Str(""))
}

func (e *Engine) lenOf(s *State, v Val) Val {
	switch v := v.(type) {
	case Str:
		return Int(len(v))
	case *Expr:
		return e.mkExpr(s, "len", v)
	case NilV:
		return Int(0)
	case Slice:
		if o := e.obj(s, v.obj); o != nil {
			if av, ok := o.v.(*ArrV); ok {
				if av.prefix != 0 {
					return LenOf{v.obj, v.hi, 0}
				}
				if av.run {
					return AtLeast{v.hi - v.lo}
				}
			}
		}
		return Int(v.hi - v.lo)
	case Stream:
		if v.lo == Val(Int(0)) {
			switch h := v.hi.(type) {
			case Len:
				return h
			case Pos:
				return h
			}
		}
		if l, ok := v.lo.(Pos); ok {
			switch h := v.hi.(type) {
			case Pos:
				return e.binop(s, nil, token.SUB, h, l, types.Typ[types.Int])
			case Len:
				return e.binop(s, nil, token.SUB, h, l, types.Typ[types.Int])
			}
		}
	case *ArrV:
		return Int(len(v.elems))
	case MapRef:
		if m, ok := e.obj(s, v.obj).v.(*MapV); ok {
			return Int(len(m.keys))
		}
	case *Cat:
		n := 0
		seg := false
		for _, p := range v.parts {
			if p.e != nil {
				seg = true
			} else if p.b > p.a {
				n++
				seg = true
			} else {
				n += len(p.s)
			}
		}
		_ = seg
		return CatLen{v, 0, n}
	case *Builder:
		return e.lenOf(s, v.v)
	case *Opaque:
	}
	return Unknown{}
}

func (e *Engine) convert(s *State, in ssa.Instruction, v Val, from, to types.Type) (Val, string) {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	if tIsB && tb.Info()&types.IsString != 0 {
		if fIsB && fb.Info()&types.IsString != 0 {
			return v, ""
		}
		if fIsB && fb.Info()&types.IsInteger != 0 {
			switch v := v.(type) {
			case Int:
				return Str(string(rune(v))), ""
			case *Expr:
				if v.sh.op == "sym" && e.an.runes {
					return &Expr{e.shapes.mk("symstr"), v.pos}, ""
				}
				return e.mkExpr(s, "rune2str", v), ""
			}
			return Unknown{}, ""
		}
		// []rune / []byte -> string
		switch x := v.(type) {
		case NilV:
			return Str(""), ""
		case Stream:
			if !e.an.runes {
				return Unknown{}, ""
			}
			return e.segOf(s, x), ""
		case Slice:
			av, ok := e.obj(s, x.obj).v.(*ArrV)
			if !ok || av.prefix != 0 {
				return Unknown{}, ""
			}
			var r Val = Str("")
			for i := x.lo; i < x.hi; i++ {
				switch el := av.elems[i].(type) {
				case Int:
					r = e.concat(s, r, Str(string(rune(el))))
				case *Expr:
					if el.sh.op == "sym" && e.an.runes {
						r = e.concat(s, r, &Expr{e.shapes.mk("symstr"), el.pos})
					} else {
						r = e.concat(s, r, e.mkExpr(s, "rune2str", el))
					}
				case SegRun:
					r = e.concat(s, r, &Cat{[]Part{{a: el.a, b: el.b}}})
				default:
					return Unknown{}, ""
				}
			}
			return r, ""
		case *Opaque:
			if x.name == "runesOf" || x.name == "bytesOf" {
				return x.args[0], ""
			}
		}
		return Unknown{}, ""
	}
	if sl, ok := tu.(*types.Slice); ok && fIsB && fb.Info()&types.IsString != 0 {
		eb, _ := sl.Elem().Underlying().(*types.Basic)
		switch x := v.(type) {
		case StreamStr:
			if eb != nil && eb.Kind() == types.Int32 {
				return Stream{x.lo, x.hi}, ""
			}
			return Unknown{}, ""
		case Str:
			av := &ArrV{}
			if eb != nil && eb.Kind() == types.Int32 {
				for _, r := range string(x) {
					av.elems = append(av.elems, Int(r))
				}
			} else {
				for i := 0; i < len(x); i++ {
					av.elems = append(av.elems, Int(x[i]))
				}
			}
			return Slice{obj: s.alloc(av, ""), hi: len(av.elems)}, ""
		case *Expr:
			if eb != nil && eb.Kind() == types.Int32 {
				return &Opaque{name: "runesOf", args: []Val{x}}, ""
			}
			return &Opaque{name: "bytesOf", args: []Val{x}}, ""
		}
		return Unknown{}, ""
	}
	if tIsB && fIsB {
		switch x := v.(type) {
		case Int:
			if tb.Info()&types.IsFloat != 0 {
				return Flt(float64(x)), ""
			}
			return e.wrapInt(x, tb), ""
		case Flt:
			if tb.Info()&types.IsInteger != 0 {
				return Int(int64(x)), ""
			}
			return x, ""
		case *Expr:
			return e.mkExpr(s, "conv:"+tb.Name(), x), ""
		}
		return v, ""
	}
	return v, ""
}

func (e *Engine) wrapInt(x Int, b *types.Basic) Val {
	switch b.Kind() {
	case types.Uint8:
		return Int(uint8(x))
	case types.Int8:
		return Int(int8(x))
	case types.Uint16:
		return Int(uint16(x))
	case types.Int16:
		return Int(int16(x))
	case types.Int32:
		return Int(int32(x))
	case types.Uint32:
		return Int(uint32(x))
	}
	return x
}

// segOf is the text of a stretch of the stream.
func (e *Engine) segOf(s *State, x Stream) Val {
	lo, ok := e.toPos(s, Int(0), x.lo)
	if p, isP := x.lo.(Pos); isP {
		lo, ok = p.p, true
	}
	hp, ok2 := x.hi.(Pos)
	if !ok2 {
		if l, isL := x.hi.(Len); isL && s.ss != nil && s.ss.eof {
			hp, ok2 = Pos{s.ss.end + l.k}, true
		}
	}
	if !ok || !ok2 {
		return Unknown{}
	}
	if hp.p <= lo {
		return Str("")
	}
	var r Val = Str("")
	if hp.p > lo {
		r = e.concat(s, r, &Cat{[]Part{{a: lo, b: hp.p}}})
	}
	return r
}

// CatLen is the length of a concatenation (at least n) + k.
type CatLen struct {
	c *Cat
	k int
	n int
}

func fmtAny(a any) string { return fmt.Sprintf("%v", a) }

var _ = math.Inf
