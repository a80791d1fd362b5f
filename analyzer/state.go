package main

import (
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const noPos = math.MaxInt32

// Obj is a heap cell (variable, struct, backing array, map).
type Obj struct {
	v    Val
	site string
}

// Elem is what is known about one stream element.
type Elem struct {
	pos   int
	cls   *Bits
	ret   bool // a caller refers to it
	delim bool // the specification calls it a delimiter of a quoted text
}

// Cfg is the configuration of the specification automaton.
type Cfg [6]int

// SS is the stream part of a state: window, specification, expected output.
type SS struct {
	base, end int
	eof       bool
	before    int // elements before base, saturating
	cfg       Cfg
	dead      int // 0: input legal so far; 1: dead at deadPos; 2: dead at the end of input
	deadPos   int
	altPos    int // second admissible error position (0: none)
	slots     []Val
	floor     int // smallest position a caller may go back to
	needNL    bool
	nlAdv     int // line breaks the base moved over since entry (if needNL)
}

const satBefore = 3

type deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
}

// Hist is the trace of a state (not part of its identity).
type Hist struct {
	prev *Hist
	sub  *Hist
	txt  string
}

func (h *Hist) flat(limit int) []string {
	var out []string
	var rec func(h *Hist)
	rec = func(h *Hist) {
		for h != nil && len(out) < limit {
			if h.sub != nil {
				rec(h.sub)
			} else {
				out = append(out, h.txt)
			}
			h = h.prev
		}
	}
	rec(h)
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type State struct {
	act     *Act
	blk     *ssa.BasicBlock
	idx     int
	regs    []Val
	heap    []*Obj
	elems   []Elem
	ss      *SS
	defers  []deferred
	hist    *Hist
	node    int
	fetched bool
	rets    []Val // on exit
	taint   bool  // precision was lost on the way here
}

func (s *State) clone() *State {
	n := *s
	n.regs = append([]Val(nil), s.regs...)
	n.heap = append([]*Obj(nil), s.heap...)
	n.elems = append([]Elem(nil), s.elems...)
	if s.ss != nil {
		c := *s.ss
		c.slots = append([]Val(nil), s.ss.slots...)
		n.ss = &c
	}
	n.defers = append([]deferred(nil), s.defers...)
	return &n
}

func (s *State) elemAt(p int) *Elem {
	for i := range s.elems {
		if s.elems[i].pos == p {
			return &s.elems[i]
		}
	}
	return nil
}

func (s *State) alloc(v Val, site string) int {
	if len(s.heap) == 0 {
		s.heap = append(s.heap, nil)
	}
	s.heap = append(s.heap, &Obj{v: v, site: site})
	return len(s.heap) - 1
}

func (e *Engine) obj(s *State, id int) *Obj {
	if id < 0 {
		return e.P.globalObjs[-id]
	}
	return s.heap[id]
}

// ---------------------------------------------------------------- liveness

type bitset []uint64

func (b bitset) has(i int) bool { return b[i>>6]&(1<<(i&63)) != 0 }
func (b bitset) add(i int)      { b[i>>6] |= 1 << (i & 63) }
func (b bitset) del(i int)      { b[i>>6] &^= 1 << (i & 63) }

type liveKey struct{ blk, idx int }

type fnInfo struct {
	fn       *ssa.Function
	idx      map[ssa.Value]int
	n        int
	rpo      []int
	join     []bool
	liveOut  []bitset
	cache    map[liveKey]bitset
	first    []int // index of the first non-phi instruction
	hasDefer bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi := e.infos[fn]; fi != nil {
		return fi
	}
	e.P.ensureBuilt(fn)
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, cache: map[liveKey]bitset{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	nb := len(fn.Blocks)
	fi.rpo = make([]int, nb)
	fi.join = make([]bool, nb)
	fi.first = make([]int, nb)
	seen := make([]bool, nb)
	var order []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		order = append(order, b.Index)
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		dfs(fn.Recover)
	}
	for i, b := range order {
		fi.rpo[b] = len(order) - 1 - i
	}
	for _, b := range fn.Blocks {
		fi.join[b.Index] = len(b.Preds) > 1
		for k, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				fi.first[b.Index] = k
				break
			}
		}
	}
	words := (fi.n + 63) / 64
	fi.liveOut = make([]bitset, nb)
	for i := range fi.liveOut {
		fi.liveOut[i] = make(bitset, words)
	}
	// iterate
	changed := true
	for changed {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lo := make(bitset, words)
			for _, s := range b.Succs {
				li := fi.liveBefore(s, fi.first[s.Index], fi.liveOut[s.Index])
				for w := range lo {
					lo[w] |= li[w]
				}
				// phis
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					lo.del(fi.idx[ph])
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if x, ok := fi.idx[ph.Edges[k]]; ok {
								lo.add(x)
							}
						}
					}
					_ = pi
				}
			}
			for w := range lo {
				if lo[w] != fi.liveOut[i][w] {
					fi.liveOut[i] = lo
					changed = true
					break
				}
			}
		}
	}
	e.infos[fn] = fi
	return fi
}

func (fi *fnInfo) liveBefore(b *ssa.BasicBlock, idx int, out bitset) bitset {
	l := append(bitset(nil), out...)
	var ops []*ssa.Value
	for k := len(b.Instrs) - 1; k >= idx; k-- {
		in := b.Instrs[k]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			l.del(fi.idx[v])
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o == nil {
				continue
			}
			if x, ok := fi.idx[*o]; ok {
				l.add(x)
			}
		}
	}
	return l
}

func (fi *fnInfo) live(b *ssa.BasicBlock, idx int) bitset {
	k := liveKey{b.Index, idx}
	if l, ok := fi.cache[k]; ok {
		return l
	}
	l := fi.liveBefore(b, idx, fi.liveOut[b.Index])
	fi.cache[k] = l
	return l
}

// ---------------------------------------------------------------- paths

func pathAppend(p string, i int) string { return p + strconv.Itoa(i) + "," }
func pathSplit(p string) []int {
	if p == "" {
		return nil
	}
	var out []int
	for _, s := range strings.Split(p[:len(p)-1], ",") {
		n, _ := strconv.Atoi(s)
		out = append(out, n)
	}
	return out
}

// ---------------------------------------------------------------- canonical form

type canonInfo struct {
	objs   []int // reachable new objects in traversal order
	onum   map[int]int
	poss   []int // sorted referenced positions
	elems  map[int]bool
	minCur int
}

// trace visits the heap from the roots of st. extra values are roots too.
func (e *Engine) trace(s *State, roots []Val) *canonInfo {
	ci := &canonInfo{onum: map[int]int{}, elems: map[int]bool{}, minCur: noPos}
	pm := map[int]bool{}
	var queue []int
	w := &visitor{}
	w.pos = func(p int, cur bool) {
		pm[p] = true
		if cur && p < ci.minCur {
			ci.minCur = p
		}
	}
	w.elem = func(p int) { ci.elems[p] = true }
	w.seg = func(p int) {
		if el := s.elemAt(p); el != nil && el.delim {
			ci.elems[p] = true
		}
	}
	w.stream = func() {}
	w.obj = func(o int) {
		if o <= 0 {
			return
		}
		if _, ok := ci.onum[o]; !ok {
			ci.onum[o] = len(ci.onum) + 1
			queue = append(queue, o)
		}
	}
	w.pref = w.obj
	for i := 1; i <= s.act.nobj; i++ {
		w.obj(i)
	}
	for _, v := range roots {
		if v != nil {
			w.val(v)
		}
	}
	for _, d := range s.defers {
		w.val(d.fn)
		for _, a := range d.args {
			w.val(a)
		}
	}
	if s.ss != nil {
		for _, v := range s.ss.slots {
			if v != nil {
				w.val(v)
			}
		}
	}
	for i := 0; i < len(queue); i++ {
		if ob := s.heap[queue[i]]; ob != nil {
			w.val(ob.v)
		}
	}
	ci.objs = queue
	for _, el := range s.elems {
		if el.ret {
			pm[el.pos] = true
		}
	}
	if s.ss != nil {
		if s.ss.dead == 1 {
			pm[s.ss.deadPos] = true
		}
		if s.ss.altPos != 0 {
			pm[s.ss.altPos] = true
		}
	}
	ci.poss = sortedInts(pm)
	return ci
}

// settle garbage-collects, moves the window and folds constants. roots are
// the live values (registers or results), rewritten in place by the caller.
func (e *Engine) settle(s *State, live bitset, rets []Val) *canonInfo {
	roots := func() []Val {
		if live == nil {
			return rets
		}
		var r []Val
		for i, v := range s.regs {
			if v == nil {
				continue
			}
			if !live.has(i) {
				s.regs[i] = nil
				continue
			}
			r = append(r, v)
		}
		return r
	}
	e.fold(s, rets)
	ci := e.trace(s, roots())
	if s.ss != nil && len(s.ss.slots) > 0 {
		if e.absorb(s, ci, rets) {
			ci = e.trace(s, roots())
		}
	}
	for i := 1; i < len(s.heap); i++ {
		if s.heap[i] != nil && ci.onum[i] == 0 {
			s.heap[i] = nil
		}
	}
	for len(s.heap) > 1 && s.heap[len(s.heap)-1] == nil && len(s.heap)-1 > s.act.nobj {
		s.heap = s.heap[:len(s.heap)-1]
	}
	if ss := s.ss; ss != nil {
		b := ci.minCur
		if ss.floor < b {
			b = ss.floor
		}
		if b < noPos {
			b -= e.lookback
		}
		if ss.end-b > e.maxWin {
			b = ss.end - e.maxWin
		}
		if b > ss.end {
			b = ss.end
		}
		if b > ss.base {
			k := 0
			for p := ss.base; p < b; p++ {
				if el := s.elemAt(p); el != nil && e.spec.newline() != nil && el.cls.subsetOf(e.spec.newline()) {
					k++
				}
			}
			ss.before += b - ss.base
			if ss.before > satBefore {
				ss.before = satBefore
			}
			ss.base = b
			if k > 0 {
				e.shiftLines(s, k, rets)
				if ss.needNL {
					ss.nlAdv += k
					if ss.nlAdv > 9 {
						ss.nlAdv = 9
					}
				}
			}
		}
	}
	// drop element facts nobody needs
	out := s.elems[:0]
	for _, el := range s.elems {
		if el.ret || ci.elems[el.pos] || (s.ss != nil && el.pos >= s.ss.base) {
			out = append(out, el)
		}
	}
	s.elems = out
	return ci
}

func (e *Engine) shiftLines(s *State, k int, rets []Val) {
	r := &renamer{pos: func(p int) int { return p }, obj: func(o int) int { return o }, pref: func(o int) int { return o }}
	r.line = func(l Line) Val {
		if l.v-k < -6 {
			return Unknown{}
		}
		return Line{l.v - k}
	}
	e.rewrite(s, r, rets)
}

// rewrite applies r to every value of the state.
func (e *Engine) rewrite(s *State, r *renamer, rets []Val) {
	for i, v := range s.regs {
		if v != nil {
			s.regs[i] = r.val(v)
		}
	}
	for i := range rets {
		if rets[i] != nil {
			rets[i] = r.val(rets[i])
		}
	}
	for i, o := range s.heap {
		if o != nil {
			n := r.val(o.v)
			if !sameRef(n, o.v) {
				s.heap[i] = &Obj{n, o.site}
			}
		}
	}
	for i := range s.defers {
		d := s.defers[i]
		d.fn = r.val(d.fn)
		d.args, _ = r.vals(d.args)
		s.defers[i] = d
	}
	if s.ss != nil {
		for i, v := range s.ss.slots {
			if v != nil {
				s.ss.slots[i] = r.val(v)
			}
		}
	}
}

// fold replaces expressions that are constant on the known classes.
func (e *Engine) fold(s *State, rets []Val) {
	var rec func(v Val) Val
	rec = func(v Val) Val {
		switch v := v.(type) {
		case *Expr:
			if v.sh.op == "sym" || v.sh.op == "symstr" {
				return v
			}
			if el := s.elemAt(v.pos); el != nil {
				if c, ok := constOn(v.sh, el.cls); ok {
					if nv := fromAny(c); nv != nil {
						return nv
					}
				}
			}
			return v
		case *Struct:
			for i, x := range v.f {
				n := rec(x)
				if !sameRef(n, x) {
					nf := append([]Val(nil), v.f...)
					nf[i] = n
					for j := i + 1; j < len(nf); j++ {
						nf[j] = rec(nf[j])
					}
					return &Struct{v.t, nf}
				}
			}
			return v
		case *ArrV:
			for i, x := range v.elems {
				n := rec(x)
				if !sameRef(n, x) {
					c := *v
					c.elems = append([]Val(nil), v.elems...)
					c.elems[i] = n
					for j := i + 1; j < len(c.elems); j++ {
						c.elems[j] = rec(c.elems[j])
					}
					return &c
				}
			}
			return v
		case *Iface:
			n := rec(v.v)
			if !sameRef(n, v.v) {
				return &Iface{v.t, n}
			}
			return v
		case *Cat:
			for _, p := range v.parts {
				if p.e != nil {
					n := rec(p.e)
					if _, ok := n.(*Expr); !ok {
						// rebuild
						var r Val = Str("")
						for _, q := range v.parts {
							var x Val
							if q.e != nil {
								x = rec(q.e)
							} else {
								x = &Cat{[]Part{q}}
								if q.b <= q.a {
									x = Str(q.s)
								}
							}
							r = e.concat(s, r, x)
						}
						return r
					}
				}
			}
			return v
		}
		return v
	}
	for i, v := range s.regs {
		if v != nil {
			s.regs[i] = rec(v)
		}
	}
	for i := range rets {
		if rets[i] != nil {
			rets[i] = rec(rets[i])
		}
	}
	for i, o := range s.heap {
		if o != nil {
			n := rec(o.v)
			if !sameRef(n, o.v) {
				s.heap[i] = &Obj{n, o.site}
			}
		}
	}
	if s.ss != nil {
		for i, v := range s.ss.slots {
			if v != nil {
				s.ss.slots[i] = rec(v)
			}
		}
	}
}

func constOn(sh *Shape, cls *Bits) (any, bool) {
	var first any
	var fkey string
	n := 0
	for wi, w := range cls.w {
		for w != 0 {
			c := wi<<6 + bits.TrailingZeros64(w)
			w &= w - 1
			v := sh.eval(c)
			if n == 0 {
				first = v
			} else {
				switch x := first.(type) {
				case string:
					if y, ok := v.(string); !ok || x != y {
						return nil, false
					}
				case bool:
					if y, ok := v.(bool); !ok || x != y {
						return nil, false
					}
				default:
					if fkey == "" {
						fkey = anyKey(first)
					}
					if fkey != anyKey(v) {
						return nil, false
					}
				}
			}
			n++
		}
	}
	if n == 0 {
		return nil, false
	}
	if _, ok := first.([]any); ok {
		return nil, false
	}
	return first, true
}

// posCoder maps referenced positions to codes that keep identity of entry
// positions, order and adjacency.
func posCoder(poss []int, entryEnd int, ss *SS) func(int) int {
	m := map[int]int{}
	all := poss
	if ss != nil {
		pm := map[int]bool{}
		for _, p := range poss {
			pm[p] = true
		}
		for p := ss.base; p <= ss.end; p++ {
			pm[p] = true
		}
		all = sortedInts(pm)
	}
	prev, code := entryEnd, entryEnd
	for _, p := range all {
		if p <= entryEnd {
			m[p] = p
			continue
		}
		if p-prev == 1 {
			code++
		} else {
			code += 10
		}
		prev = p
		m[p] = code
	}
	return func(p int) int {
		if c, ok := m[p]; ok {
			return c
		}
		if p <= entryEnd {
			return p
		}
		return -99999
	}
}

// key writes the canonical form of s (settled, ci from settle) and returns it
// with the class vector.
func (e *Engine) key(s *State, ci *canonInfo, rets []Val) (string, []*Bits) {
	pc := posCoder(ci.poss, s.act.entryEnd, s.ss)
	k := &keyer{b: e.kbuf[:0], pos: pc, line: func(l int) int { return l }}
	k.obj = func(o int) int {
		if o <= 0 {
			return o
		}
		return ci.onum[o]
	}
	k.pref = k.obj
	if rets != nil {
		k.s("R")
		for _, v := range rets {
			k.val(v)
			k.s(";")
		}
	} else {
		k.i(s.blk.Index)
		k.s(".")
		k.i(s.idx)
		k.s(":")
		for i, v := range s.regs {
			if v != nil {
				k.i(i)
				k.s("=")
				k.val(v)
				k.s(";")
			}
		}
	}
	for _, d := range s.defers {
		k.s("D")
		k.val(d.fn)
		for _, a := range d.args {
			k.val(a)
			k.s(",")
		}
	}
	k.s("|H")
	for _, o := range ci.objs {
		if ob := s.heap[o]; ob != nil {
			k.val(ob.v)
		}
		k.s(";")
	}
	vec := make([]*Bits, 0, len(s.elems))
	k.s("|E")
	for _, el := range s.elems {
		k.i(pc(el.pos))
		if el.ret {
			k.s("r")
		}
		if el.delim {
			k.s("d")
		}
		k.s(",")
		vec = append(vec, el.cls)
	}
	if ss := s.ss; ss != nil {
		k.s("|S")
		k.ss(ss, pc)
	}
	if s.taint {
		k.s("|T")
	}
	e.kbuf = k.b
	return string(k.b), vec
}

func (k *keyer) ss(ss *SS, pc func(int) int) {
	k.i(pc(ss.base))
	k.s(",")
	k.i(ss.end - ss.base)
	k.s(",")
	if ss.eof {
		k.s("E")
	}
	k.i(ss.before)
	k.s(",")
	for _, c := range ss.cfg {
		k.i(c)
		k.s(".")
	}
	if ss.dead != 0 {
		k.s("X")
		k.i(ss.dead)
		if ss.dead == 1 {
			k.s("@")
			k.i(pc(ss.deadPos))
		}
	}
	if ss.altPos != 0 {
		k.s("A")
		k.i(pc(ss.altPos))
	}
	if ss.floor != noPos {
		k.s("f")
		k.i(pc(ss.floor))
	}
	if ss.needNL {
		k.s("n")
		k.i(ss.nlAdv)
	}
	k.s("G")
	for _, v := range ss.slots {
		k.val(v)
		k.s(";")
	}
}

func vecKey(vec []*Bits) string {
	var b strings.Builder
	for _, v := range vec {
		b.WriteString(v.k)
	}
	return b.String()
}

func sortElems(el []Elem) {
	sort.Slice(el, func(i, j int) bool { return el[i].pos < el[j].pos })
}
