package main

import (
	"fmt"
	"strconv"
	"strings"
)

// absorb removes from the expected lists and from the program's lists the
// leading elements on which they provably agree, so that both stay short.
func (e *Engine) absorb(s *State, ci *canonInfo, rets []Val) bool {
	var ghosts, lists []int
	for _, o := range ci.objs {
		ob := s.heap[o]
		if ob == nil {
			continue
		}
		if av, ok := ob.v.(*ArrV); ok && len(av.elems) > 0 {
			if av.ghost {
				ghosts = append(ghosts, o)
			} else {
				lists = append(lists, o)
			}
		}
	}
	if len(lists) == 0 {
		return false
	}
	var lim map[int]int
	deadGhost := 0
	if s.ss.dead != 0 {
		if g, ok := s.ss.slots[0].(Slice); ok {
			deadGhost = g.obj
		}
	}
	limits := func() {
		lim = map[int]int{}
		low := func(o, n int) {
			if c, ok := lim[o]; !ok || n < c {
				lim[o] = n
			}
		}
		w := &visitor{pos: func(int, bool) {}, elem: func(int) {}, stream: func() {}, obj: func(int) {}, pref: func(int) {}}
		w.slc = func(x Slice) {
			if x.lo != 0 {
				low(x.obj, 0)
			} else {
				low(x.obj, x.hi)
			}
		}
		w.ptr = func(p Ptr) {
			if p.path != "" {
				if ob := e.obj(s, p.obj); ob != nil {
					if _, ok := ob.v.(*ArrV); ok {
						low(p.obj, pathSplit(p.path)[0])
					}
				}
			} else if ob := e.obj(s, p.obj); ob != nil {
				if _, ok := ob.v.(*ArrV); ok {
					low(p.obj, 0)
				}
			}
		}
		for _, v := range s.regs {
			if v != nil {
				w.val(v)
			}
		}
		for _, v := range rets {
			if v != nil {
				w.val(v)
			}
		}
		for _, o := range s.heap {
			if o != nil {
				w.val(o.v)
			}
		}
		for _, d := range s.defers {
			w.val(d.fn)
			for _, a := range d.args {
				w.val(a)
			}
		}
	}
	changed := false
	if deadGhost != 0 {
		// after the error the output is of no interest
		for _, o := range lists {
			ov := s.heap[o].v.(*ArrV)
			if ov.prefix == 0 {
				n := 0
				for _, v := range ov.elems {
					switch v.(type) {
					case *Expr, *Cat, SegRun:
						n++
					}
				}
				if n < 8 {
					continue
				}
			}
			limits()
			if lim[o] != len(ov.elems) {
				continue
			}
			o2 := *ov
			o2.elems, o2.prefix, o2.bad, o2.run = nil, deadGhost, true, false
			s.heap[o] = &Obj{&o2, s.heap[o].site}
			e.shiftList(s, rets, o, len(ov.elems))
			changed = true
		}
		return changed
	}
	for again := true; again; {
		again = false
		for _, g := range ghosts {
			for _, o := range lists {
				gv := s.heap[g].v.(*ArrV)
				ov := s.heap[o].v.(*ArrV)
				if len(gv.elems) == 0 || len(ov.elems) == 0 || ov.bad || ov.prefix == 0 && len(ov.elems) <= e.keep && (e.keepRec || !isRecord(ov.elems[0])) {
					continue
				}
				if !(ov.prefix == g || (ov.prefix == 0 && !gv.abs)) {
					continue
				}
				if lim == nil {
					limits()
				}
				l, ok := lim[o]
				if !ok || l <= 0 {
					continue
				}
				n := 0
				for n < len(gv.elems) && n < len(ov.elems) && n < l {
					if _, isRun := ov.elems[n].(SegRun); isRun || !e.mustEq(s, ov.elems[n], gv.elems[n]) {
						break
					}
					n++
				}
				if n == 0 {
					continue
				}
				g2, o2 := *gv, *ov
				g2.elems = append([]Val(nil), gv.elems[n:]...)
				g2.abs = true
				o2.elems = append([]Val(nil), ov.elems[n:]...)
				o2.prefix = g
				s.heap[g] = &Obj{&g2, s.heap[g].site}
				s.heap[o] = &Obj{&o2, s.heap[o].site}
				e.shiftList(s, rets, o, n)
				e.shiftList(s, rets, g, n)
				lim = nil
				changed = true
				again = true
			}
		}
	}
	// compress runs of consecutive raw elements
	for _, o := range lists {
		ov := s.heap[o].v.(*ArrV)
		if ov.prefix != 0 || len(ov.elems) < 3 {
			continue
		}
		if lim == nil {
			limits()
		}
		if lim[o] != len(ov.elems) {
			continue
		}
		var out []Val
		for _, v := range ov.elems {
			a, b := -1, -1
			switch x := v.(type) {
			case *Expr:
				if x.sh.op == "sym" {
					a, b = x.pos, x.pos+1
				}
			case SegRun:
				a, b = x.a, x.b
			}
			if a >= 0 && len(out) > 0 {
				switch q := out[len(out)-1].(type) {
				case SegRun:
					if q.b == a {
						out[len(out)-1] = SegRun{q.a, b}
						continue
					}
				case *Expr:
					if q.sh.op == "sym" && q.pos+1 == a {
						out[len(out)-1] = SegRun{q.pos, b}
						continue
					}
				}
			}
			out = append(out, v)
		}
		if d := len(ov.elems) - len(out); d > 0 {
			o2 := *ov
			o2.elems = out
			o2.run = true
			s.heap[o] = &Obj{&o2, s.heap[o].site}
			e.shiftList(s, rets, o, d)
			lim = nil
			changed = true
		}
	}
	return changed
}

func isRecord(v Val) bool {
	_, ok := v.(*Struct)
	return ok
}

// shiftList renumbers the references into list o after n leading slots went.
func (e *Engine) shiftList(s *State, rets []Val, o, n int) {
	id := func(p int) int { return p }
	r := &renamer{pos: id, obj: id, pref: id, line: func(l Line) Val { return l }}
	r.slc = func(x Slice) Slice {
		if x.obj == o {
			x.hi -= n
		}
		return x
	}
	r.ptr = func(p Ptr) Ptr {
		if p.obj == o && p.path != "" {
			ps := pathSplit(p.path)
			q := ""
			for i, k := range ps {
				if i == 0 {
					k -= n
				}
				q += strconv.Itoa(k) + ","
			}
			p.path = q
		}
		return p
	}
	e.rewrite(s, r, rets)
}

// mustEq decides whether a (program) and b (expected) are equal on every
// input the state stands for.
func (e *Engine) mustEq(s *State, a, b Val) bool {
	if o, ok := b.(*Opaque); ok && o.name == "kw" {
		ua := e.mkExpr(s, "spec:kw", a)
		ub := e.mkExpr(s, "spec:kw", o.args[0])
		return e.mustEq(s, ua, ub)
	}
	switch y := b.(type) {
	case *Expr:
		switch x := a.(type) {
		case *Expr:
			if x.pos == y.pos {
				if x.sh == y.sh {
					return true
				}
				el := s.elemAt(x.pos)
				if el == nil {
					return false
				}
				return el.cls.subsetOf(e.agree(x.sh, y.sh))
			}
		}
		ca, ok1 := e.toAnyDeep(s, a)
		cb, ok2 := e.exprConst(s, y)
		if _, u := ca.(unkT); u {
			return false
		}
		return ok1 && ok2 && anyKey(ca) == anyKey(cb)
	case *Cat:
		pa, ok := e.parts(s, a)
		if !ok {
			return false
		}
		pb := y.parts
		if len(pa) != len(pb) {
			return false
		}
		for i := range pa {
			if pa[i].e != nil && pb[i].e != nil {
				if !e.mustEq(s, pa[i].e, pb[i].e) {
					return false
				}
				continue
			}
			if pa[i] != pb[i] {
				return false
			}
		}
		return true
	case *Struct:
		x, ok := a.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !e.mustEq(s, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *Iface:
		x, ok := a.(*Iface)
		return ok && typeKey(x.t) == typeKey(y.t) && e.mustEq(s, x.v, y.v)
	case NilV:
		switch x := a.(type) {
		case NilV:
			return true
		case Slice:
			av, ok := e.obj(s, x.obj).v.(*ArrV)
			return ok && av.prefix == 0 && x.hi == x.lo && !av.bad
		}
		return false
	case Slice:
		gv, ok := e.obj(s, y.obj).v.(*ArrV)
		if !ok {
			return false
		}
		switch x := a.(type) {
		case NilV:
			return !gv.abs && len(gv.elems) == 0
		case Slice:
			av, ok := e.obj(s, x.obj).v.(*ArrV)
			if !ok || av.bad || x.lo != 0 {
				return false
			}
			if gv.abs != (av.prefix != 0) || (gv.abs && av.prefix != y.obj) {
				return false
			}
			if x.hi != len(gv.elems) {
				return false
			}
			for i := 0; i < x.hi; i++ {
				if !e.mustEq(s, av.elems[i], gv.elems[i]) {
					return false
				}
			}
			return true
		}
		return false
	case Line, Pos:
		return a == b
	case Str, Int, Flt, Bool:
		if x, ok := a.(*Expr); ok {
			c, ok := e.exprConst(s, x)
			cb, _ := toAny(b)
			return ok && anyKey(c) == anyKey(cb)
		}
		return a == b
	}
	return false
}

// agree is the set of classes on which two expressions have the same value.
func (e *Engine) agree(a, b *Shape) *Bits {
	k := [2]*Shape{a, b}
	if r := e.agreed[k]; r != nil {
		return r
	}
	r := e.an.setIdx(func(c int) bool {
		p, q := a.eval(c), b.eval(c)
		_, u := p.(unkT)
		return !u && anyEq(p, q)
	})
	if e.agreed == nil {
		e.agreed = map[[2]*Shape]*Bits{}
	}
	e.agreed[k] = r
	return r
}

func anyEq(p, q any) bool {
	if s, ok := p.(string); ok {
		t, ok := q.(string)
		return ok && s == t
	}
	return anyKey(p) == anyKey(q)
}

// mustNE decides whether a (program) and b (expected) certainly differ.
func (e *Engine) mustNE(s *State, a, b Val) bool {
	if o, ok := b.(*Opaque); ok && o.name == "kw" {
		b = o.args[0]
		if x, ok := a.(Str); ok {
			if y, ok := b.(Str); ok {
				return !strings.EqualFold(string(x), string(y))
			}
			return false
		}
		if _, ok := b.(*Expr); !ok {
			return false
		}
		a = e.mkExpr(s, "spec:kw", a)
		b = e.mkExpr(s, "spec:kw", b)
	}
	switch y := b.(type) {
	case Held:
		return false
	case *Struct:
		x, ok := a.(*Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if e.mustNE(s, x.f[i], y.f[i]) {
				return true
			}
		}
		return false
	case *Iface:
		switch x := a.(type) {
		case NilV:
			return true
		case *Iface:
			return typeKey(x.t) != typeKey(y.t) || e.mustNE(s, x.v, y.v)
		}
		return false
	case NilV:
		switch x := a.(type) {
		case *Iface:
			return true
		case Slice:
			av, ok := e.obj(s, x.obj).v.(*ArrV)
			return ok && (av.prefix != 0 || x.hi > x.lo)
		}
		return false
	case Slice:
		gv, ok := e.obj(s, y.obj).v.(*ArrV)
		if !ok {
			return false
		}
		switch x := a.(type) {
		case NilV:
			return gv.abs || len(gv.elems) > 0
		case Slice:
			av, ok := e.obj(s, x.obj).v.(*ArrV)
			if ok && av.wrong {
				return true
			}
			if !ok || av.bad || x.lo != 0 || av.run {
				return false
			}
			if gv.abs && av.prefix == 0 && x.hi < 1+len(gv.elems) {
				return true
			}
			if gv.abs != (av.prefix != 0) {
				// one of them holds something that agreed with nothing
				return !gv.abs && len(gv.elems) == 0 || av.prefix == 0 && x.hi == 0
			}
			if gv.abs && av.prefix != y.obj {
				return false
			}
			if x.hi != len(gv.elems) {
				return true
			}
			for i := 0; i < x.hi; i++ {
				if e.mustNE(s, av.elems[i], gv.elems[i]) {
					return true
				}
			}
		}
		return false
	case Int, Flt, Bool:
		switch a.(type) {
		case Int, Flt, Bool:
			return a != b
		}
	}
	if y, ok := b.(*Cat); ok && len(y.parts) == 1 && y.parts[0].e == nil && y.parts[0].b > y.parts[0].a {
		if pa, ok := e.parts(s, a); ok {
			return e.textNE(s, pa, y.parts[0].a, y.parts[0].b)
		}
	}
	start := func(v Val) (int, int, bool) {
		switch v := v.(type) {
		case *Expr:
			if v.sh.op == "sym" || v.sh.op == "symstr" {
				return v.pos, v.pos + 1, true
			}
		case *Cat:
			if len(v.parts) == 1 && v.parts[0].e == nil && v.parts[0].b > v.parts[0].a {
				return v.parts[0].a, v.parts[0].b, true
			}
		}
		return 0, 0, false
	}
	if x, ok := a.(Str); ok {
		if y, ok := b.(Str); ok {
			return x != y
		}
	}
	a1, a2, ok1 := start(a)
	b1, b2, ok2 := start(b)
	if ok1 && ok2 {
		return a1 != b1 || a2 != b2
	}
	known := func(v Val) (map[string]bool, bool) {
		m := map[string]bool{}
		switch v := v.(type) {
		case Str, Int, Bool, Flt:
			if c, ok := toAny(v); ok {
				m[anyKey(c)] = true
				return m, true
			}
			return nil, false
		case *Expr:
			el := s.elemAt(v.pos)
			if el == nil {
				return nil, false
			}
			ok := true
			el.cls.each(func(c int) {
				t := v.sh.eval(c)
				switch t.(type) {
				case string, int64, bool, float64:
				default:
					ok = false
				}
				m[anyKey(t)] = true
			})
			return m, ok
		}
		return nil, false
	}
	if x, ok := a.(*Expr); ok {
		if y, ok := b.(*Expr); ok && x.pos == y.pos {
			// they differ on some input the state stands for
			el := s.elemAt(x.pos)
			if el == nil {
				return false
			}
			ne := false
			el.cls.each(func(c int) {
				if !ne {
					p, q := x.sh.eval(c), y.sh.eval(c)
					_, u1 := p.(unkT)
					_, u2 := q.(unkT)
					ne = !u1 && !u2 && !anyEq(p, q)
				}
			})
			return ne
		}
	}
	ka, oka := known(a)
	kb, okb := known(b)
	if oka && okb {
		if len(ka) > 1 || len(kb) > 1 {
			return true
		}
		for k := range ka {
			if kb[k] {
				return false
			}
		}
		return true
	}
	return false
}

// textNE reports whether the concatenation differs from the input text
// [at, end) on some input the state stands for.
func (e *Engine) textNE(s *State, parts []Part, at, end int) bool {
	for _, p := range parts {
		switch {
		case p.e != nil:
			if p.e.pos != at {
				return true
			}
			el := s.elemAt(at)
			if el == nil {
				return false
			}
			ne := false
			el.cls.each(func(c int) {
				if !ne {
					v := p.e.sh.eval(c)
					_, u := v.(unkT)
					ne = !u && !anyEq(v, e.an.reps[c])
				}
			})
			if ne {
				return true
			}
			at++
		case p.b > p.a:
			if p.a != at {
				return true
			}
			at = p.b
		default:
			t := p.s
			for t != "" {
				el := s.elemAt(at)
				if at >= end {
					return true
				}
				if el == nil {
					return false
				}
				if el.cls.count() != 1 {
					return true
				}
				r := ""
				el.cls.each(func(c int) { r = e.an.reps[c] })
				if !strings.HasPrefix(t, r) {
					return true
				}
				t = t[len(r):]
				at++
			}
		}
	}
	return at != end
}

func (e *Engine) outTags(s *State) []string {
	if s.ss == nil {
		return nil
	}
	return e.spec.tags(s.ss.cfg)
}

func (e *Engine) showVal(s *State, v Val) string {
	switch v := v.(type) {
	case *Expr:
		el := s.elemAt(v.pos)
		if el != nil {
			if c, ok := constOn(v.sh, el.cls); ok {
				return fmt.Sprintf("%v", c)
			}
			return v.sh.key + " of " + e.an.show(el.cls)
		}
		return v.sh.key
	case Str:
		return strconv.Quote(string(v))
	case *Opaque:
		if v.name == "kw" {
			return e.showVal(s, v.args[0])
		}
		return v.name
	case *Cat:
		var p []string
		for _, x := range v.parts {
			if x.e != nil {
				p = append(p, e.showVal(s, x.e))
			} else if x.b > x.a {
				p = append(p, "<input text>")
			} else {
				p = append(p, strconv.Quote(x.s))
			}
		}
		return strings.Join(p, "+")
	case *Struct:
		var p []string
		for _, x := range v.f {
			p = append(p, e.showVal(s, x))
		}
		return "{" + strings.Join(p, " ") + "}"
	case *Iface:
		return typeKey(v.t) + "(" + e.showVal(s, v.v) + ")"
	case Slice:
		if av, ok := e.obj(s, v.obj).v.(*ArrV); ok {
			var p []string
			for i, x := range av.elems {
				if i < 6 {
					p = append(p, e.showVal(s, x))
				}
			}
			pre := ""
			if av.abs || av.prefix != 0 {
				pre = "... "
			}
			return "[" + pre + strings.Join(p, ", ") + "]"
		}
	case NilV:
		return "nil"
	case Unknown:
		return "<not determined>"
	}
	return fmt.Sprintf("%v", v)
}
