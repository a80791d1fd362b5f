package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

func (e *Engine) zero(t types.Type) Val {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "strings.Builder", "bytes.Buffer":
			return &Builder{Str("")}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Flt(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return Unknown{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &Struct{t, f}
	case *types.Array:
		n := int(u.Len())
		if n > 5000 {
			return Unknown{}
		}
		f := make([]Val, n)
		for i := range f {
			f[i] = e.zero(u.Elem())
		}
		return &ArrV{elems: f}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return &Tuple{f}
	}
	return NilV{}
}

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return Flt(f)
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return Int(n)
		}
		if n, ok := constant.Uint64Val(c.Value); ok {
			return Int(int64(n))
		}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return Flt(f)
	}
	return Unknown{}
}

func (e *Engine) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return GlobalPtr{v, ""}
	case *ssa.Function:
		return FuncV{v}
	case *ssa.Builtin:
		return &BoundM{name: "builtin." + v.Name()}
	}
	i, ok := st.act.fi.idx[v]
	if !ok || st.regs[i] == nil {
		return Unknown{}
	}
	return st.regs[i]
}

// typed converts a plain integer stored into a position or line variable.
func (e *Engine) typed(st *State, n any, v Val) Val {
	i, ok := v.(Int)
	if !ok || st.ss == nil || e.typing == nil || n == nil {
		return v
	}
	if e.typing.isPos(n) {
		if st.ss.before < satBefore {
			return Pos{st.ss.base - st.ss.before + int(i)}
		}
		return v
	}
	if e.typing.isLine(n) && st.ss.before == 0 {
		return Line{int(i)}
	}
	return v
}

func (e *Engine) set(st *State, v ssa.Value, x Val) {
	if _, ok := x.(Int); ok {
		x = e.typed(st, e.typingNode(v), x)
	}
	st.regs[st.act.fi.idx[v]] = x
}

func (e *Engine) typingNode(v ssa.Value) any {
	if e.typing == nil {
		return nil
	}
	return e.typing.node(v)
}

// ---------------------------------------------------------------- memory

func (e *Engine) load(st *State, p Val) (Val, string) {
	switch p := p.(type) {
	case Ptr:
		o := e.obj(st, p.obj)
		if o == nil {
			return Unknown{}, ""
		}
		return e.walk(o.v, pathSplit(p.path)), ""
	case GlobalPtr:
		g, ok := e.P.globals[p.g]
		if !ok {
			return Unknown{}, ""
		}
		return e.walk(g, pathSplit(p.path)), ""
	case NilV:
		return nil, "nil dereference"
	case *Opaque:
		if p.name == "elemptr" {
			return p.args[0], ""
		}
	}
	return Unknown{}, ""
}

func (e *Engine) walk(v Val, path []int) Val {
	for _, i := range path {
		switch x := v.(type) {
		case *Struct:
			if i < 0 || i >= len(x.f) {
				return Unknown{}
			}
			v = x.f[i]
		case *ArrV:
			if i < 0 || i >= len(x.elems) {
				return Unknown{}
			}
			v = x.elems[i]
		default:
			return Unknown{}
		}
	}
	return v
}

func update(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		return n
	}
	switch x := v.(type) {
	case *Struct:
		f := append([]Val(nil), x.f...)
		if path[0] < len(f) {
			f[path[0]] = update(f[path[0]], path[1:], n)
		}
		return &Struct{x.t, f}
	case *ArrV:
		c := *x
		c.elems = append([]Val(nil), x.elems...)
		if path[0] >= 0 && path[0] < len(c.elems) {
			c.elems[path[0]] = update(c.elems[path[0]], path[1:], n)
		} else {
			c.bad = true
		}
		return &c
	}
	return Unknown{}
}

func (e *Engine) store(st *State, p Val, v Val, in ssa.Instruction) string {
	switch p := p.(type) {
	case Ptr:
		if p.obj < 0 {
			if e.initMode {
				e.P.globalObjs[-p.obj] = &Obj{update(e.P.globalObjs[-p.obj].v, pathSplit(p.path), v), ""}
				return ""
			}
			e.find(st, "globalwrite", in.Pos(), nil, "writes memory that belongs to a package-level variable")
			st.taint = true
			return ""
		}
		o := st.heap[p.obj]
		if o == nil {
			return ""
		}
		st.heap[p.obj] = &Obj{update(o.v, pathSplit(p.path), v), o.site}
	case GlobalPtr:
		if e.initMode {
			e.P.globals[p.g] = update(e.P.globals[p.g], pathSplit(p.path), e.freeze(st, v, map[int]int{}))
			return ""
		}
		e.find(st, "globalwrite", in.Pos(), nil, "writes package-level variable %s", p.g.Name())
		st.taint = true
	case NilV:
		return "nil dereference"
	default:
		e.havoc(st, in, "store through an unknown pointer")
	}
	return ""
}

// havoc records that precision was lost at in.
func (e *Engine) havoc(st *State, in ssa.Instruction, why string) {
	if e.notes == nil {
		e.notes = map[string]int{}
	}
	p := ""
	if in != nil {
		p = e.P.posOf(in.Pos())
	}
	e.notes[p+": "+why]++
	if st != nil {
		st.taint = true
	}
}

// freeze moves a value out of the state into the global memory.
func (e *Engine) freeze(st *State, v Val, seen map[int]int) Val {
	r := &renamer{pos: func(p int) int { return p }, line: func(l Line) Val { return l }}
	r.obj = func(o int) int {
		if o <= 0 {
			return o
		}
		if n, ok := seen[o]; ok {
			return n
		}
		e.P.globalObjs = append(e.P.globalObjs, nil)
		id := -(len(e.P.globalObjs) - 1)
		seen[o] = id
		if st.heap[o] != nil {
			e.P.globalObjs[-id] = &Obj{r.val(st.heap[o].v), "global"}
		}
		return id
	}
	r.pref = r.obj
	return r.val(v)
}

// ---------------------------------------------------------------- running

func (e *Engine) run(st *State) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			if s.taint && e.dropTaint {
				// nothing certain can follow
				if e.dropped++; e.dropped <= 20 {
					e.find(s, "undecided", s.blk.Instrs[s.idx].Pos(), nil, "not followed further, precision was lost")
				}
				break
			}
			more, cont := e.step(s)
			work = append(work, more...)
			if !cont {
				s = nil
			}
		}
	}
}

// jump moves s along the edge to blk; false if the state was queued.
func (e *Engine) jump(s *State, to *ssa.BasicBlock) bool {
	pi := -1
	for k, p := range to.Preds {
		if p == s.blk {
			pi = k
		}
	}
	fi := s.act.fi
	n := fi.first[to.Index]
	if n > 0 {
		vals := make([]Val, n)
		for k := 0; k < n; k++ {
			ph := to.Instrs[k].(*ssa.Phi)
			// a block may be a predecessor twice; edges are then equal
			vals[k] = e.val(s, ph.Edges[pi])
		}
		for k := 0; k < n; k++ {
			e.set(s, to.Instrs[k].(*ssa.Phi), vals[k])
		}
	}
	s.blk = to
	s.idx = n
	if fi.join[to.Index] {
		e.push(s)
		return false
	}
	return true
}

func (e *Engine) panicFind(s *State, in ssa.Instruction, msg string) {
	e.find(s, "panic", in.Pos(), nil, "run-time panic: %s", msg)
}

// condSplit splits s by the truth of v.
func (e *Engine) condSplit(s *State, in ssa.Instruction, v Val) (t, f *State) {
	switch v := v.(type) {
	case Bool:
		if v {
			return s, nil
		}
		return nil, s
	case *Expr:
		el := s.elemAt(v.pos)
		if el == nil {
			e.havoc(s, in, "branch on a forgotten element")
			break
		}
		tw, fw := newBits(len(e.an.reps)), newBits(len(e.an.reps))
		nt, nf := 0, 0
		el.cls.each(func(c int) {
			switch r := v.sh.eval(c).(type) {
			case bool:
				if r {
					tw[c>>6] |= 1 << (c & 63)
					nt++
				} else {
					fw[c>>6] |= 1 << (c & 63)
					nf++
				}
			case panicV:
				e.panicFind(s, in, fmt.Sprintf("%s on %q", r.msg, e.an.reps[c]))
			default:
				tw[c>>6] |= 1 << (c & 63)
				fw[c>>6] |= 1 << (c & 63)
				nt++
				nf++
			}
		})
		if nt > 0 && nf > 0 {
			t, f = s, s.clone()
			t.elemAt(v.pos).cls = mkBits(tw)
			f.elemAt(v.pos).cls = mkBits(fw)
			return
		}
		if nt > 0 {
			el.cls = mkBits(tw)
			return s, nil
		}
		if nf > 0 {
			el.cls = mkBits(fw)
			return nil, s
		}
		return nil, nil
	}
	e.havoc(s, in, "branch on an unknown value")
	return s, s.clone()
}

// step executes one instruction of s. It returns further states to run and
// whether s itself goes on.
func (e *Engine) step(s *State) (more []*State, cont bool) {
	in := s.blk.Instrs[s.idx]
	e.steps++
	defer func() {
		if r := recover(); r != nil {
			if e.debug {
				panic(r)
			}
			e.find(s, "undecided", in.Pos(), nil, "analysis cannot interpret %s: %v", in, r)
			more, cont = nil, false
		}
	}()
	next := func() ([]*State, bool) { s.idx++; return nil, true }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Jump:
		return nil, e.jump(s, s.blk.Succs[0])
	case *ssa.If:
		c := e.val(s, in.Cond)
		e.branches[in]++
		t, f := e.condSplit(s, in, c)
		if t != nil && f != nil {
			if e.jump(f, f.blk.Succs[1]) {
				more = append(more, f)
			}
			if e.jump(t, t.blk.Succs[0]) {
				return more, true
			}
			return more, false
		}
		if t != nil {
			return nil, e.jump(t, t.blk.Succs[0])
		}
		if f != nil {
			return nil, e.jump(f, f.blk.Succs[1])
		}
		return nil, false
	case *ssa.Return:
		rets := make([]Val, len(in.Results))
		for i, r := range in.Results {
			rets[i] = e.val(s, r)
			if i, ok := rets[i].(Int); ok {
				_ = i
			}
		}
		e.exit(s, rets)
		return nil, false
	case *ssa.Panic:
		e.panicFind(s, in, "explicit panic")
		return nil, false
	case *ssa.RunDefers:
		if len(s.defers) == 0 {
			return next()
		}
		d := s.defers[len(s.defers)-1]
		s.defers = s.defers[:len(s.defers)-1]
		// run it and come back to this instruction
		s.idx--
		r, c := e.invoke(s, in, d.fn, d.args, -1)
		return r, c
	case *ssa.Defer:
		fn, args := e.callee(s, in, &in.Call)
		if fn == nil {
			return nil, false
		}
		s.defers = append(s.defers, deferred{fn: fn, args: args})
		return next()
	case *ssa.Go:
		e.find(s, "goroutine", in.Pos(), nil, "starts a goroutine")
		return next()
	case *ssa.Send, *ssa.Select:
		e.find(s, "undecided", in.Pos(), nil, "channel operation")
		return nil, false
	case *ssa.Store:
		v := e.typed(s, e.typingNode(in.Addr), e.val(s, in.Val))
		if msg := e.store(s, e.val(s, in.Addr), v, in); msg != "" {
			e.panicFind(s, in, msg)
			return nil, false
		}
		return next()
	case *ssa.MapUpdate:
		return e.mapUpdate(s, in)
	case *ssa.Call:
		e.callSites[in] = true
		fn, args := e.callee(s, in, &in.Call)
		if fn == nil {
			return nil, false
		}
		return e.invoke(s, in, fn, args, s.act.fi.idx[in])
	}
	v, ok := in.(ssa.Value)
	if !ok {
		e.find(s, "undecided", in.Pos(), nil, "unsupported instruction %s", in)
		return nil, false
	}
	res, msg := e.eval(s, in, v)
	if msg != "" {
		e.panicFind(s, in, msg)
		return nil, false
	}
	switch r := res.(type) {
	case NeedFetch:
		return e.fetch(s, in), false
	case forks:
		for _, x := range r {
			x.idx++
			more = append(more, x)
		}
		return more, false
	case nil:
		return nil, false
	}
	res = e.guardPanics(s, in, res)
	if res == nil {
		return nil, false
	}
	e.set(s, v, res)
	return next()
}

type forks []*State

// guardPanics removes the classes on which the expression panics.
func (e *Engine) guardPanics(s *State, in ssa.Instruction, v Val) Val {
	x, ok := v.(*Expr)
	if !ok {
		return v
	}
	el := s.elemAt(x.pos)
	if el == nil {
		return v
	}
	bad := 0
	w := newBits(len(e.an.reps))
	n := 0
	el.cls.each(func(c int) {
		if p, ok := x.sh.eval(c).(panicV); ok {
			if bad == 0 {
				e.panicFind(s, in, fmt.Sprintf("%s on input %q", p.msg, e.an.reps[c]))
			}
			bad++
		} else {
			w[c>>6] |= 1 << (c & 63)
			n++
		}
	})
	if bad == 0 {
		return v
	}
	if n == 0 {
		return nil
	}
	el.cls = mkBits(w)
	return v
}

func (e *Engine) fetch(s *State, in ssa.Instruction) []*State {
	if s.ss == nil || s.ss.eof {
		panic("fetch after the end")
	}
	e.fetches++
	ch := e.spec.choices(e, s)
	var out []*State
	for i, c := range ch {
		n := s
		if i < len(ch)-1 {
			n = s.clone()
		}
		n.fetched = true
		n.hist = &Hist{prev: n.hist, txt: c.label}
		if c.eof {
			n.ss.eof = true
			if c.apply != nil {
				c.apply(e, n, n.ss.end)
			}
		} else {
			p := n.ss.end
			n.elems = append(n.elems, Elem{pos: p, cls: c.cls})
			n.ss.end++
			if c.label == "" {
				n.hist.txt = e.an.show(c.cls)
			}
			if c.apply != nil {
				c.apply(e, n, p)
			}
		}
		out = append(out, n)
	}
	return out
}

// ---------------------------------------------------------------- evaluation

func (e *Engine) eval(s *State, in ssa.Instruction, v ssa.Value) (Val, string) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(e.zero(t), "")
		return Ptr{id, ""}, ""
	case *ssa.BinOp:
		x, y := e.val(s, in.X), e.val(s, in.Y)
		if in.Op == token.ADD || in.Op == token.SUB {
			x, y = e.typed(s, e.typingNode(in.X), x), e.typed(s, e.typingNode(in.Y), y)
		}
		if fs := e.cmpTwo(s, in, x, y); fs != nil {
			return fs, ""
		}
		r := e.binop(s, in, in.Op, x, y, in.X.Type())
		if i, ok := r.(Int); ok && (in.Op == token.ADD || in.Op == token.SUB) && e.typing != nil && s.act != nil && inRepo(s.act.fn) {
			if _, cy := in.Y.(*ssa.Const); cy && !e.initMode {
				n := e.typingNode(in)
				if n != nil && !e.typing.isIdx(n) && !e.typing.isPos(n) && isPlainInt(in.Type()) {
					m := Int(e.typing.max(n) + 6)
					if in.Op == token.ADD && i > m && i < 1000 {
						return AtLeast{int(i)}, ""
					}
					if i < -6 && i > -1000 {
						return Unknown{}, ""
					}
				}
			}
		}
		if (in.Op == token.QUO || in.Op == token.REM) && isInt(in.X.Type()) {
			if z, ok := y.(Int); ok && z == 0 {
				return nil, "integer divide by zero"
			}
		}
		return r, ""
	case *ssa.UnOp:
		x := e.val(s, in.X)
		switch in.Op {
		case token.MUL:
			return e.load(s, x)
		case token.NOT:
			switch x := x.(type) {
			case Bool:
				return !x, ""
			case *Expr:
				return e.mkExpr(s, "un:!", x), ""
			}
			return Unknown{}, ""
		case token.SUB:
			switch x := x.(type) {
			case Int:
				return -x, ""
			case Flt:
				return -x, ""
			case *Expr:
				return e.mkExpr(s, "un:-", x), ""
			}
			return Unknown{}, ""
		}
		return Unknown{}, ""
	case *ssa.ChangeInterface:
		return e.val(s, in.X), ""
	case *ssa.ChangeType:
		return e.val(s, in.X), ""
	case *ssa.Convert:
		return e.convert(s, in, e.val(s, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return e.convert(s, in, e.val(s, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		switch t := e.val(s, in.Tuple).(type) {
		case *Tuple:
			if in.Index < len(t.v) {
				return t.v[in.Index], ""
			}
		case *Expr:
			return e.mkExpr(s, "extract", t, Int(in.Index)), ""
		}
		return Unknown{}, ""
	case *ssa.Field:
		return e.walk(e.val(s, in.X), []int{in.Field}), ""
	case *ssa.FieldAddr:
		switch p := e.val(s, in.X).(type) {
		case Ptr:
			return Ptr{p.obj, pathAppend(p.path, in.Field)}, ""
		case GlobalPtr:
			return GlobalPtr{p.g, pathAppend(p.path, in.Field)}, ""
		case NilV:
			return nil, "nil dereference"
		}
		return Unknown{}, ""
	case *ssa.IndexAddr:
		return e.indexAddr(s, in, e.val(s, in.X), e.typed(s, e.idxNode(in.Index, in.X), e.val(s, in.Index)))
	case *ssa.Index:
		x, i := e.val(s, in.X), e.val(s, in.Index)
		if a, ok := x.(*ArrV); ok {
			if n, ok := i.(Int); ok {
				if n < 0 || int(n) >= len(a.elems) {
					return nil, "index out of range"
				}
				return a.elems[n], ""
			}
			return Unknown{}, ""
		}
		return e.strIndex(s, in, x, i)
	case *ssa.Lookup:
		x := e.val(s, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(s, in, x, e.val(s, in.Index))
		}
		return e.strIndex(s, in, x, e.val(s, in.Index))
	case *ssa.Slice:
		return e.slice(s, in)
	case *ssa.MakeInterface:
		return &Iface{in.X.Type(), e.val(s, in.X)}, ""
	case *ssa.MakeClosure:
		b := make([]Val, len(in.Bindings))
		for i, x := range in.Bindings {
			b[i] = e.val(s, x)
		}
		return &Closure{in.Fn.(*ssa.Function), b}, ""
	case *ssa.MakeMap:
		return MapRef{s.alloc(&MapV{}, "")}, ""
	case *ssa.MakeSlice:
		n, ok := e.val(s, in.Len).(Int)
		if !ok || n > 5000 {
			if a, isA := e.val(s, in.Len).(Int); isA && a < 0 {
				return nil, "makeslice: len out of range"
			}
			return Unknown{}, ""
		}
		if n < 0 {
			return nil, "makeslice: len out of range"
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		av := &ArrV{}
		for i := 0; i < int(n); i++ {
			av.elems = append(av.elems, e.zero(el))
		}
		return Slice{obj: s.alloc(av, ""), lo: 0, hi: int(n)}, ""
	case *ssa.MakeChan:
		return Unknown{}, ""
	case *ssa.Range:
		return &RangeIt{e.val(s, in.X), Int(0)}, ""
	case *ssa.Next:
		return e.nextIter(s, in)
	case *ssa.TypeAssert:
		return e.typeAssert(s, in)
	case *ssa.Phi:
		return Unknown{}, ""
	case *ssa.SliceToArrayPointer:
		return Unknown{}, ""
	}
	panic(fmt.Sprintf("unsupported %T", in))
}

// cmpTwo compares functions of two different elements: the state is split by
// the value of the second one. Where it has too many values, only some pairs
// of classes are followed (each stands for real inputs; the rest is noted).
func (e *Engine) cmpTwo(s *State, in *ssa.BinOp, x, y Val) forks {
	if !isCmp(in.Op) {
		return nil
	}
	xe, ok := x.(*Expr)
	ye, ok2 := y.(*Expr)
	if !ok || !ok2 || xe.pos == ye.pos {
		return nil
	}
	ex, ey := s.elemAt(xe.pos), s.elemAt(ye.pos)
	if ex == nil || ey == nil {
		return nil
	}
	if _, c := e.exprConst(s, xe); c {
		return nil
	}
	if _, c := e.exprConst(s, ye); c {
		return nil
	}
	group := func(x *Expr, cls *Bits) (m map[string][]uint64, vals map[string]any, keys []string, ok bool) {
		m, vals, ok = map[string][]uint64{}, map[string]any{}, true
		cls.each(func(c int) {
			v := x.sh.eval(c)
			switch v.(type) {
			case string, int64, bool, float64:
			default:
				ok = false
				return
			}
			k := anyKey(v)
			if m[k] == nil {
				m[k] = newBits(len(e.an.reps))
				vals[k] = v
				keys = append(keys, k)
			}
			m[k][c>>6] |= 1 << (c & 63)
		})
		return
	}
	my, vy, ky, oky := group(ye, ey.cls)
	mx, vx, kx, okx := group(xe, ex.cls)
	if !oky || !okx {
		return nil
	}
	var out forks
	add := func(cx, cy []uint64, r Val) {
		t := s.clone()
		if cx != nil {
			t.elemAt(xe.pos).cls = mkBits(cx)
		}
		t.elemAt(ye.pos).cls = mkBits(cy)
		e.set(t, in, r)
		out = append(out, t)
	}
	if len(ky) <= 24 {
		for _, k := range ky {
			c := e.fromAnyDeep(vy[k])
			if c == nil {
				return nil
			}
			add(nil, my[k], e.mkExpr(s, "bin:"+in.Op.String(), x, c))
		}
		return out
	}
	if in.Op != token.EQL && in.Op != token.NEQ {
		// everything above the middle against everything up to it
		less := func(a, b any) bool { r, _ := applyOp("bin:<", []any{a, b}).(bool); return r }
		all := append([]string{}, ky...)
		sort.Slice(all, func(i, j int) bool { return less(vy[all[i]], vy[all[j]]) })
		mid := vy[all[len(all)/2]]
		cut := func(m map[string][]uint64, v map[string]any, above bool) (w []uint64, one any) {
			w = newBits(len(e.an.reps))
			for k, b := range m {
				if less(mid, v[k]) == above {
					one = v[k]
					for j, x := range b {
						w[j] |= x
					}
				}
			}
			return
		}
		e.havoc(nil, in, "comparison of two elements: only some pairs are followed")
		for _, above := range []bool{true, false} {
			cx, ox := cut(mx, vx, above)
			cy, oy := cut(my, vy, !above)
			if ox != nil && oy != nil {
				r, _ := applyOp("bin:"+in.Op.String(), []any{ox, oy}).(bool)
				add(cx, cy, Bool(r))
			}
		}
		if k := anyKey(mid); mx[k] != nil {
			add(mx[k], my[k], Bool(in.Op == token.LEQ || in.Op == token.GEQ))
		}
		return out
	}
	e.havoc(nil, in, "comparison of two elements: only some pairs are followed")
	var common []string
	for _, k := range kx {
		if my[k] != nil {
			common = append(common, k)
		}
	}
	eq := func(b bool) Val { return Bool(b == (in.Op == token.EQL)) }
	for i, k := range common {
		if i == 0 || i == len(common)/2 || i == len(common)-1 {
			add(mx[k], my[k], eq(true))
		}
	}
	for side := 0; side < 2; side++ {
		cx, cy := newBits(len(e.an.reps)), newBits(len(e.an.reps))
		nx, ny := 0, 0
		half := map[string]bool{}
		for i, k := range kx {
			half[k] = i%2 == side
			if half[k] {
				nx++
				for j, w := range mx[k] {
					cx[j] |= w
				}
			}
		}
		for i, k := range ky {
			in, known := half[k]
			if known && !in || !known && i%2 != side {
				ny++
				for j, w := range my[k] {
					cy[j] |= w
				}
			}
		}
		if nx > 0 && ny > 0 {
			add(cx, cy, eq(false))
		}
	}
	return out
}

func isPlainInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (e *Engine) idxNode(v ssa.Value, x ssa.Value) any { return e.typingNode(v) }

// absolute index of a stream position; exact=false means "at least".
func (s *State) abs(p int) (n int, exact bool) {
	if s.ss.before < satBefore {
		return s.ss.before + p - s.ss.base, true
	}
	if p >= s.ss.base {
		return satBefore + p - s.ss.base, false
	}
	return 0, false
}

// streamAt yields the element at position p as a value, or asks for a fetch.
func (e *Engine) streamAt(s *State, in ssa.Instruction, p int, lo Val, hi Val) (Val, string) {
	ss := s.ss
	if ss == nil {
		return Unknown{}, ""
	}
	if n, ex := s.abs(p); ex && n < 0 {
		return nil, "index out of range [-1]"
	}
	if h, ok := hi.(Pos); ok && p >= h.p {
		return nil, "index out of range"
	}
	if p >= ss.end {
		if ss.eof {
			return nil, "index out of range past the end of the input"
		}
		return NeedFetch{}, ""
	}
	el := s.elemAt(p)
	if el == nil {
		e.lost = true
		e.havoc(s, in, "reads an element outside the window")
		return Unknown{}, ""
	}
	return &Expr{e.shapes.mk("sym"), p}, ""
}

func (e *Engine) toPos(s *State, lo Val, i Val) (int, bool) {
	base := 0
	relAbs := true
	switch l := lo.(type) {
	case Pos:
		base = l.p
		relAbs = false
	case Int:
		if l != 0 {
			return 0, false
		}
	}
	switch i := i.(type) {
	case Pos:
		if relAbs {
			return i.p, true
		}
		// index relative to a sub-slice: unsupported
		return 0, false
	case Int:
		if !relAbs {
			return base + int(i), true
		}
		if s.ss != nil && s.ss.before < satBefore {
			return s.ss.base - s.ss.before + int(i), true
		}
	case Len:
		if s.ss != nil && s.ss.eof && relAbs {
			return s.ss.end + i.k, true
		}
	}
	return 0, false
}

func (e *Engine) indexAddr(s *State, in *ssa.IndexAddr, x, i Val) (Val, string) {
	switch x := x.(type) {
	case Stream:
		if l, ok := i.(Len); ok && s.ss != nil && !s.ss.eof {
			_ = l
			return Unknown{}, ""
		}
		p, ok := e.toPos(s, x.lo, i)
		if !ok {
			e.havoc(s, in, "stream index not tracked")
			return Unknown{}, ""
		}
		v, msg := e.streamAt(s, in, p, x.lo, x.hi)
		if msg != "" {
			return nil, msg
		}
		if _, nf := v.(NeedFetch); nf {
			return v, ""
		}
		return &Opaque{name: "elemptr", args: []Val{v}}, ""
	case Slice:
		o := e.obj(s, x.obj)
		av, ok := o.v.(*ArrV)
		if !ok {
			return Unknown{}, ""
		}
		n, ok := i.(Int)
		if !ok {
			if p, isP := i.(Pos); isP && s.ss != nil {
				if a, ex := s.abs(p.p); ex {
					n, ok = Int(a), true
				}
			}
		}
		if ex, isE := i.(*Expr); isE {
			if c, isC := e.exprConst(s, ex); isC {
				if m, isI := c.(int64); isI {
					n, ok = Int(m), true
				}
			}
		}
		if l, isL := i.(LenOf); isL && l.obj == x.obj && l.hi == x.hi && x.hi+l.k >= 0 && l.k < 0 {
			return Ptr{x.obj, pathAppend("", x.hi+l.k)}, ""
		}
		if !ok {
			e.havoc(s, in, "list index unknown")
			return Unknown{}, ""
		}
		if av.prefix != 0 || av.run {
			// part of the list was absorbed: only indices from the end are known
			if n < 0 {
				return nil, "index out of range"
			}
			e.havoc(s, in, "index into an absorbed list")
			return Unknown{}, ""
		}
		if n < 0 || int(n) >= x.hi-x.lo {
			return nil, fmt.Sprintf("index out of range [%d] with length %d", n, x.hi-x.lo)
		}
		return Ptr{x.obj, pathAppend("", x.lo+int(n))}, ""
	case Ptr: // pointer to array
		v, _ := e.load(s, x)
		av, ok := v.(*ArrV)
		n, ok2 := i.(Int)
		if !ok || !ok2 {
			return Unknown{}, ""
		}
		if n < 0 || int(n) >= len(av.elems) {
			return nil, "index out of range"
		}
		return Ptr{x.obj, pathAppend(x.path, int(n))}, ""
	case GlobalPtr:
		v, _ := e.load(s, x)
		av, ok := v.(*ArrV)
		n, ok2 := i.(Int)
		if !ok || !ok2 {
			return Unknown{}, ""
		}
		if n < 0 || int(n) >= len(av.elems) {
			return nil, "index out of range"
		}
		return GlobalPtr{x.g, pathAppend(x.path, int(n))}, ""
	case NilV:
		return nil, "index out of range of a nil slice"
	}
	return Unknown{}, ""
}

func (e *Engine) strIndex(s *State, in ssa.Instruction, x, i Val) (Val, string) {
	switch x := x.(type) {
	case Str:
		if n, ok := i.(Int); ok {
			if n < 0 || int(n) >= len(x) {
				return nil, "string index out of range"
			}
			return Int(x[n]), ""
		}
	case *Expr:
		return e.mkExpr(s, "index", x, i), ""
	case *Cat:
		if n, ok := i.(Int); ok && n >= 0 && len(x.parts) > 0 && x.parts[0].b <= x.parts[0].a && x.parts[0].e == nil && int(n) < len(x.parts[0].s) {
			return Int(x.parts[0].s[n]), ""
		}
	}
	return Unknown{}, ""
}

func (e *Engine) slice(s *State, in *ssa.Slice) (Val, string) {
	x := e.val(s, in.X)
	var lo, hi Val
	if in.Low != nil {
		lo = e.val(s, in.Low)
	}
	if in.High != nil {
		hi = e.val(s, in.High)
	}
	if in.Max != nil {
		e.havoc(s, in, "three-index slice")
	}
	if al, ok := in.X.(*ssa.Alloc); ok && al.Comment == "makeslice" {
		// make with a constant capacity: the spare room is not modelled
		if p, ok := x.(Ptr); ok && p.path == "" {
			n := 0
			if k, ok := hi.(Int); ok {
				n = int(k)
			}
			if av, ok := e.obj(s, p.obj).v.(*ArrV); ok && n >= 0 && n <= len(av.elems) && (hi != nil) {
				c := *av
				c.elems = append([]Val(nil), av.elems[:n]...)
				s.heap[p.obj] = &Obj{&c, ""}
				return Slice{obj: p.obj, lo: 0, hi: n}, ""
			}
		}
	}
	switch x := x.(type) {
	case Str:
		l, h := 0, len(x)
		ok := true
		if lo != nil {
			if n, is := lo.(Int); is {
				l = int(n)
			} else {
				ok = false
			}
		}
		if hi != nil {
			if n, is := hi.(Int); is {
				h = int(n)
			} else {
				ok = false
			}
		}
		if !ok {
			return Unknown{}, ""
		}
		if l < 0 || h > len(x) || l > h {
			return nil, fmt.Sprintf("slice bounds out of range [%d:%d] of %q", l, h, string(x))
		}
		return x[l:h], ""
	case *Expr:
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			return e.mkExpr(s, "slicefrom", x, lo), ""
		}
		return e.mkExpr(s, "slice", x, lo, hi), ""
	case *Cat:
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = NilV{}
		}
		return e.sliceCat(s, in, x, lo, hi), ""
	case NilV:
		if (lo == nil || lo == Val(Int(0))) && (hi == nil || hi == Val(Int(0))) {
			return x, ""
		}
		if _, ok := hi.(Int); ok {
			return nil, "slice bounds out of range"
		}
		return Unknown{}, ""
	case Stream:
		l, h := x.lo, x.hi
		if lo != nil {
			lo = e.typed(s, e.typingNode(in.Low), lo)
			p, ok := e.toPos(s, x.lo, lo)
			if !ok {
				return Unknown{}, ""
			}
			l = Pos{p}
		}
		if hi != nil {
			hi = e.typed(s, e.typingNode(in.High), hi)
			if _, isLen := hi.(Len); isLen && hi == Val(Len{0}) {
				h = Len{0}
			} else {
				p, ok := e.toPos(s, x.lo, hi)
				if !ok {
					return Unknown{}, ""
				}
				h = Pos{p}
			}
		}
		// bounds
		if hp, ok := h.(Pos); ok {
			if s.ss != nil && hp.p > s.ss.end {
				if s.ss.eof {
					// within capacity is not known: a slice beyond the length panics or exposes junk
					return nil, "slice bounds out of range past the end of the input"
				}
				return NeedFetch{}, ""
			}
			if lp, ok := l.(Pos); ok && lp.p > hp.p {
				return nil, "slice bounds out of range"
			}
		} else if lp, ok := l.(Pos); ok && s.ss != nil && lp.p > s.ss.end {
			if s.ss.eof {
				return nil, "slice bounds out of range past the end of the input"
			}
			return NeedFetch{}, ""
		}
		return Stream{l, h}, ""
	case Slice:
		av, _ := e.obj(s, x.obj).v.(*ArrV)
		l, h := x.lo, x.hi
		if hi != nil {
			switch n := hi.(type) {
			case Int:
				if av != nil && (av.prefix != 0 || av.run) {
					e.havoc(s, in, "slice of an absorbed list")
					return Unknown{}, ""
				}
				h = x.lo + int(n)
			case LenOf:
				h = x.hi + n.k
				if n.obj != x.obj || n.hi != x.hi {
					return Unknown{}, ""
				}
				if h < 0 {
					// removes absorbed elements
					c := *av
					c.bad = true
					s.heap[x.obj] = &Obj{&c, ""}
					h = 0
				}
			default:
				return Unknown{}, ""
			}
		}
		if lo != nil {
			n, ok := lo.(Int)
			if !ok || (av != nil && (av.prefix != 0 || av.run) && n != 0) {
				return Unknown{}, ""
			}
			l = x.lo + int(n)
		}
		if l > h || l < 0 || (av != nil && h > len(av.elems)) {
			return nil, fmt.Sprintf("slice bounds out of range [%d:%d]", l, h)
		}
		sh := x.shared || h < x.hi
		return Slice{obj: x.obj, lo: l, hi: h, shared: sh}, ""
	case Ptr:
		v, _ := e.load(s, x)
		av, ok := v.(*ArrV)
		if !ok {
			return Unknown{}, ""
		}
		l, h := 0, len(av.elems)
		if lo != nil {
			n, ok := lo.(Int)
			if !ok {
				return Unknown{}, ""
			}
			l = int(n)
		}
		if hi != nil {
			n, ok := hi.(Int)
			if !ok {
				return Unknown{}, ""
			}
			h = int(n)
		}
		if l < 0 || h > len(av.elems) || l > h {
			return nil, "slice bounds out of range"
		}
		if x.path == "" {
			return Slice{obj: x.obj, lo: l, hi: h, shared: h < len(av.elems)}, ""
		}
		e.havoc(s, in, "slice of a nested array")
		return Unknown{}, ""
	case StreamStr:
		return Unknown{}, ""
	}
	return Unknown{}, ""
}

func (e *Engine) typeAssert(s *State, in *ssa.TypeAssert) (Val, string) {
	x := e.val(s, in.X)
	_, isI := in.AssertedType.Underlying().(*types.Interface)
	mk := func(v Val, ok bool) (Val, string) {
		if in.CommaOk {
			if !ok {
				v = e.zero(in.AssertedType)
			}
			return &Tuple{[]Val{v, Bool(ok)}}, ""
		}
		if !ok {
			return nil, "interface conversion failed"
		}
		return v, ""
	}
	switch x := x.(type) {
	case NilV:
		return mk(nil, false)
	case *Iface:
		if isI {
			if types.Implements(x.t, in.AssertedType.Underlying().(*types.Interface)) {
				return mk(x, true)
			}
			return mk(nil, false)
		}
		if types.Identical(x.t, in.AssertedType) {
			return mk(x.v, true)
		}
		return mk(nil, false)
	}
	if in.CommaOk {
		return &Tuple{[]Val{Unknown{}, Unknown{}}}, ""
	}
	return Unknown{}, ""
}

func (e *Engine) nextIter(s *State, in *ssa.Next) (Val, string) {
	idx, ok := s.act.fi.idx[in.Iter]
	if !ok {
		return Unknown{}, ""
	}
	it, ok := s.regs[idx].(*RangeIt)
	if !ok {
		return &Tuple{[]Val{Unknown{}, Unknown{}, Unknown{}}}, ""
	}
	i, _ := it.i.(Int)
	switch o := it.over.(type) {
	case Str:
		if int(i) >= len(o) {
			return &Tuple{[]Val{Bool(false), Int(0), Int(0)}}, ""
		}
		for k, r := range string(o[i:]) {
			_ = k
			n := len(string(r))
			if r == 0xFFFD {
				n = 1
			}
			s.regs[idx] = &RangeIt{o, i + Int(n)}
			return &Tuple{[]Val{Bool(true), i, Int(r)}}, ""
		}
	case NilV:
		return &Tuple{[]Val{Bool(false), Unknown{}, Unknown{}}}, ""
	case MapRef:
		m, ok := e.obj(s, o.obj).v.(*MapV)
		if !ok {
			break
		}
		if int(i) >= len(m.keys) {
			return &Tuple{[]Val{Bool(false), Unknown{}, Unknown{}}}, ""
		}
		s.regs[idx] = &RangeIt{o, i + 1}
		return &Tuple{[]Val{Bool(true), m.keys[i], m.vals[i]}}, ""
	case StreamStr:
		// one rune per step
		var p int
		if q, ok := it.i.(Pos); ok {
			p = q.p
		} else {
			q, ok := e.toPos(s, o.lo, Int(0))
			if !ok {
				return &Tuple{[]Val{Unknown{}, Unknown{}, Unknown{}}}, ""
			}
			p = q
		}
		if p >= s.ss.end {
			if !s.ss.eof {
				return NeedFetch{}, ""
			}
			return &Tuple{[]Val{Bool(false), Int(0), Int(0)}}, ""
		}
		v, msg := e.streamAt(s, in, p, o.lo, o.hi)
		if msg != "" {
			return nil, msg
		}
		s.regs[idx] = &RangeIt{o, Pos{p + 1}}
		return &Tuple{[]Val{Bool(true), Unknown{}, v}}, ""
	case *Expr:
		return &Tuple{[]Val{Unknown{}, Unknown{}, Unknown{}}}, ""
	}
	e.havoc(s, in, "range over an unknown value")
	return &Tuple{[]Val{Unknown{}, Unknown{}, Unknown{}}}, ""
}

// ---------------------------------------------------------------- maps

func (e *Engine) mapUpdate(s *State, in *ssa.MapUpdate) ([]*State, bool) {
	m := e.val(s, in.Map)
	k, v := e.val(s, in.Key), e.val(s, in.Value)
	switch m := m.(type) {
	case NilV:
		e.panicFind(s, in, "assignment to entry in nil map")
		return nil, false
	case MapRef:
		o := e.obj(s, m.obj)
		mv, ok := o.v.(*MapV)
		if !ok {
			break
		}
		if m.obj < 0 && !e.initMode {
			e.find(s, "globalwrite", in.Pos(), nil, "writes a package-level map")
			s.taint = true
			break
		}
		if ex, ok := k.(*Expr); ok {
			if c, ok := e.exprConst(s, ex); ok {
				k = fromAny(c)
			} else if el := s.elemAt(ex.pos); el != nil {
				// fork by value
				groups := map[string]*groupCls{}
				var order []string
				el.cls.each(func(c int) {
					r := ex.sh.eval(c)
					kk := anyKey(r)
					g := groups[kk]
					if g == nil {
						g = &groupCls{v: r, w: newBits(len(e.an.reps))}
						groups[kk] = g
						order = append(order, kk)
					}
					g.w[c>>6] |= 1 << (c & 63)
				})
				if len(order) <= 40 {
					var more []*State
					for _, kk := range order {
						n := s.clone()
						n.elemAt(ex.pos).cls = mkBits(groups[kk].w)
						more = append(more, n)
					}
					return more, false // re-executes with a constant key
				}
			}
		}
		nm := &MapV{append([]Val(nil), mv.keys...), append([]Val(nil), mv.vals...)}
		done := false
		for i, x := range nm.keys {
			if sameRef(x, k) {
				nm.vals[i] = v
				done = true
			}
		}
		if !done {
			nm.keys = append(nm.keys, k)
			nm.vals = append(nm.vals, v)
		}
		if m.obj < 0 {
			e.P.globalObjs[-m.obj] = &Obj{nm, ""}
		} else {
			s.heap[m.obj] = &Obj{nm, ""}
		}
	}
	s.idx++
	return nil, true
}

type groupCls struct {
	v any
	w []uint64
}

func (e *Engine) mapLookup(s *State, in *ssa.Lookup, m, k Val) (Val, string) {
	et := in.X.Type().Underlying().(*types.Map).Elem()
	mk := func(v Val, ok bool) Val {
		if !ok {
			v = e.zero(et)
		}
		if in.CommaOk {
			return &Tuple{[]Val{v, Bool(ok)}}
		}
		return v
	}
	switch m := m.(type) {
	case NilV:
		return mk(nil, false), ""
	case MapRef:
		mv, ok := e.obj(s, m.obj).v.(*MapV)
		if !ok {
			break
		}
		if ex, ok := k.(*Expr); ok {
			if c, ok := e.exprConst(s, ex); ok {
				k = fromAny(c)
			} else {
				el := s.elemAt(ex.pos)
				if el == nil {
					break
				}
				// split into the matching classes per key and the rest
				var out forks
				rest := el.cls
				for i, x := range mv.keys {
					xa, ok := toAny(x)
					if !ok {
						return Unknown{}, ""
					}
					w := newBits(len(e.an.reps))
					n := 0
					rest.each(func(c int) {
						if anyKey(ex.sh.eval(c)) == anyKey(xa) {
							w[c>>6] |= 1 << (c & 63)
							n++
						}
					})
					if n == 0 {
						continue
					}
					b := mkBits(w)
					rest = rest.minus(b)
					st := s.clone()
					st.elemAt(ex.pos).cls = b
					e.set(st, in, mk(mv.vals[i], true))
					out = append(out, st)
				}
				if !rest.empty() {
					s.elemAt(ex.pos).cls = rest
					e.set(s, in, mk(nil, false))
					out = append(out, s)
				}
				return out, ""
			}
		}
		ka, ok := toAny(k)
		if !ok {
			break
		}
		for i, x := range mv.keys {
			if xa, ok := toAny(x); !ok {
				return Unknown{}, ""
			} else if anyKey(xa) == anyKey(ka) {
				return mk(mv.vals[i], true), ""
			}
		}
		return mk(nil, false), ""
	}
	if in.CommaOk {
		return &Tuple{[]Val{Unknown{}, Unknown{}}}, ""
	}
	return Unknown{}, ""
}
