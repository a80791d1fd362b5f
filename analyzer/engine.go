package main

import (
	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Act is one analysed activation: a function with a canonical entry state.
type Act struct {
	id       int
	fn       *ssa.Function
	fi       *fnInfo
	entry    *State
	nobj     int // entry objects are 1..nobj
	entryEnd int // last entry position
	pure     bool
	pend     map[string][]*pending // by class-less key
	queue    pendHeap
	seen     map[string][][]*Bits // class-less key -> processed class vectors
	exits    map[string][]*exitRec
	exitList []*exitRec
	deps     []*dependent
	inReady  bool
	node     int
	dirty    bool // undelivered exits
}

type pending struct {
	st   *State
	vec  []*Bits
	key  string
	done bool
	ord  int
	rpo  int
}

type exitRec struct {
	st        *State
	vec       []*Bits
	key       string
	delivered bool
	dead      bool // subsumed by a merged record
}

type dependent struct {
	st      *State // suspended caller (at the call instruction)
	objBack []int  // canonical id -> caller id
	posBack map[int]int
	shift   int // caller position = canonical + shift for positions beyond entryEnd
	passed  map[int]bool
	retReg  int
	isDefer bool
	tail    bool
	held    []Val // parts of the expected value the callee does not see
}

type Finding struct {
	Kind  string // panic, nonterm, reject, accept, errpos, errtype, output, undecided
	Pos   string // source construct
	Msg   string
	Tags  []string
	Path  []string
	Maybe bool // reached only through a loss of precision
}

type readyHeap []*Act

func (h readyHeap) Len() int            { return len(h) }
func (h readyHeap) Less(i, j int) bool  { return h[i].id > h[j].id }
func (h readyHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *readyHeap) Push(x interface{}) { *h = append(*h, x.(*Act)) }
func (h *readyHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type Engine struct {
	maxMB     int
	bounded   bool // the specification only generates short inputs
	agreed    map[[2]*Shape]*Bits
	P         *Program
	name      string
	an        *Alphabet
	shapes    *shapeTable
	spec      Spec
	typing    *typing
	infos     map[*ssa.Function]*fnInfo
	acts      map[string]*Act
	actList   []*Act
	ready     readyHeap
	kbuf      []byte
	keepRec   bool // and so are lists of records
	dropTaint bool // states in which precision was lost are not followed
	dropped   int
	lookback  int
	keep      int // lists up to this length are kept in full
	maxWin    int
	maxTail   int
	maxInt    int64
	lost      bool // a lost stream element was read

	findings           []*Finding
	fseen              map[string]bool
	nkind              map[string]int
	nodes              int
	edges              map[[2]int]bool // non-progress edges
	nodePos            []string
	nodeTaint          map[int]bool
	nok, nbad          int
	firstBad, afterBad int
	steps              int
	merges             int
	fetches            int
	states             int
	exits              int
	branches           map[ssa.Instruction]int
	callSites          map[ssa.Instruction]bool
	funcs              map[*ssa.Function]bool
	deadline           time.Time
	stop               bool
	intercept          func(e *Engine, st *State, fn *ssa.Function, args []Val) (out []*State, rets [][]Val, ok bool)
	onExit             func(e *Engine, st *State)
	onGlobalWrite      func(pos string)
	ord                int
	maxStates          int
	nodeMap            map[string]int
	initMode           bool
	debug              bool
	notes              map[string]int
}

// Spec is the specification transducer of one stage.
type Spec interface {
	init(e *Engine, st *State)
	choices(e *Engine, st *State) []Choice
	newline() *Bits
	tags(c Cfg) []string
	describe(c Cfg) string
}

type Choice struct {
	cls   *Bits
	eof   bool
	label string
	apply func(e *Engine, st *State, pos int)
}

var memMB = 14000

func newEngine(P *Program, name string, an *Alphabet, spec Spec) *Engine {
	return &Engine{P: P, name: name, an: an, shapes: &shapeTable{m: map[string]*Shape{}, an: an}, spec: spec,
		infos: map[*ssa.Function]*fnInfo{}, acts: map[string]*Act{}, maxWin: 6, maxTail: 5, maxInt: 70,
		fseen: map[string]bool{}, nodeTaint: map[int]bool{}, edges: map[[2]int]bool{}, nodePos: []string{""}, nodes: 1,
		branches: map[ssa.Instruction]int{}, callSites: map[ssa.Instruction]bool{}, funcs: map[*ssa.Function]bool{}, maxStates: 3000000, maxMB: memMB, afterBad: 60000}
}

func (e *Engine) find(st *State, kind string, pos token.Pos, tags []string, f string, args ...any) {
	msg := fmt.Sprintf(f, args...)
	fnName := ""
	if st != nil && st.act != nil && st.act.fn != nil {
		fnName = st.act.fn.String()
		if !pos.IsValid() {
			pos = st.act.fn.Pos()
		}
	}
	p := e.P.posOf(pos)
	maybe := st != nil && st.taint
	k := kind + "|" + p + "|" + msg + fmt.Sprint(maybe)
	if e.fseen[k] {
		return
	}
	e.fseen[k] = true
	if e.nkind == nil {
		e.nkind = map[string]int{}
	}
	if kind == "accept" || kind == "reject" || kind == "output" || kind == "errpos" || kind == "passed" {
		tags = append(append([]string(nil), tags...), e.caseTags(st)...)
	}
	fd := &Finding{Kind: kind, Pos: p + " (" + fnName + ")", Msg: e.name + ": " + msg, Tags: tags, Maybe: maybe}
	rel := e.relevant(fd)
	k = kind + fmt.Sprint(rel)
	if e.nkind[k]++; e.nkind[k] > 60 {
		return
	}
	if st != nil {
		fd.Path = e.fullHist(st)
	}
	e.findings = append(e.findings, fd)
	if maybe || kind == "undecided" || kind == "globalwrite" {
		return
	}
	if wantProp != "" {
		if rel {
			if e.firstBad == 0 || e.firstBad > e.states {
				e.firstBad = e.states + 1
				e.afterBad = min(e.afterBad, 3000)
			}
		} else if e.firstBad == 0 {
			// another property's: look on for longer
			e.firstBad = e.states + 8*e.afterBad
		}
		return
	}
	if kind == "errpos" || kind == "passed" {
		// look on for an accepted continuation
		if e.firstBad == 0 {
			e.firstBad = e.states + 3*e.afterBad
		}
	} else if e.firstBad == 0 || e.firstBad > e.states {
		e.firstBad = e.states + 1
	}
}

// wantProp is the property being checked; "" for all of them.
var wantProp string

// relevant: the finding breaks the property being checked.
func (e *Engine) relevant(f *Finding) bool {
	stage, rdbms, _ := strings.Cut(e.name, "/")
	return relevant(stage, rdbms, f)
}

func relevant(stage, rdbms string, f *Finding) bool {
	if wantProp == "" {
		return true
	}
	for _, p := range concerns(stage, rdbms, f) {
		if p == wantProp {
			return true
		}
	}
	return false
}

// caseTags: the finding shows only for one letter case of a keyword.
func (e *Engine) caseTags(st *State) []string {
	if st == nil || st.ss == nil || e.an == nil || e.an.runes {
		return nil
	}
	var tags []string
	for i := range st.elems {
		el := &st.elems[i]
		if el.pos < st.ss.end-3 && el.pos != st.ss.deadPos {
			continue
		}
		if nl := e.spec.newline(); nl != nil && !nl.empty() && el.cls.subsetOf(nl) {
			tags = append(tags, "C08")
			continue
		}
		one, n := true, 0
		el.cls.each(func(c int) {
			r := e.an.reps[c]
			if !e.an.cased[r] {
				one = false
			}
			n++
		})
		if one && n > 0 {
			tags = append(tags, "C23")
		}
	}
	return uniq(tags)
}

// fullHist is the trace of st prefixed by a trace to its activation.
func (e *Engine) fullHist(st *State) []string {
	out := st.hist.flat(60)
	seen := map[*Act]bool{}
	a := st.act
	for a != nil && !seen[a] && len(a.deps) > 0 && len(out) < 60 {
		seen[a] = true
		d := a.deps[0]
		out = append(d.st.hist.flat(60), out...)
		a = d.st.act
	}
	return out
}

func (e *Engine) newNode(pos string) int {
	e.nodes++
	e.nodePos = append(e.nodePos, pos)
	return e.nodes - 1
}

// ---------------------------------------------------------------- scheduling

func (e *Engine) makeReady(a *Act) {
	if !a.inReady {
		a.inReady = true
		heap.Push(&e.ready, a)
	}
}

func subsumed(v []*Bits, list [][]*Bits) bool {
next:
	for _, w := range list {
		for i := range v {
			if !v[i].subsetOf(w[i]) {
				continue next
			}
		}
		return true
	}
	return false
}

// unionDiff returns the merged vector if a and b differ in at most one place.
func unionDiff(a, b []*Bits) ([]*Bits, bool) {
	d := -1
	for i := range a {
		if a[i].k != b[i].k {
			if d >= 0 {
				return nil, false
			}
			d = i
		}
	}
	if d < 0 {
		return a, true
	}
	n := append([]*Bits(nil), a...)
	n[d] = a[d].or(b[d])
	return n, true
}

// push queues st (at blk/idx) after canonicalisation.
func (e *Engine) push(st *State) {
	a := st.act
	ci := e.settle(st, a.fi.live(st.blk, st.idx), nil)
	if e.overflow(st) {
		return
	}
	key, vec := e.key(st, ci, nil)
	if subsumed(vec, a.seen[key]) {
		e.linkNode(st, key)
		return
	}
	// merge with a pending one
	for {
		merged := false
		for i, p := range a.pend[key] {
			if nv, ok := unionDiff(p.vec, vec); ok {
				e.merges++
				p.done = true
				a.pend[key] = append(a.pend[key][:i:i], a.pend[key][i+1:]...)
				vec = nv
				for j := range st.elems {
					st.elems[j].cls = nv[j]
				}
				merged = true
				break
			}
		}
		if !merged {
			break
		}
	}
	e.linkNode(st, key)
	e.ord++
	p := &pending{st: st, vec: vec, key: key, ord: e.ord, rpo: a.fi.rpo[st.blk.Index]}
	a.pend[key] = append(a.pend[key], p)
	heap.Push(&a.queue, p)
	e.makeReady(a)
}

// linkNode records the progress edge into the node of this key.
func (e *Engine) linkNode(st *State, key string) {
	a := st.act
	id, ok := a.nodeOf(e, key, st)
	_ = ok
	if !st.fetched && st.node != 0 {
		e.edges[[2]int{st.node, id}] = true
	}
	st.node = id
	st.fetched = false
}

func (a *Act) nodeOf(e *Engine, key string, st *State) (int, bool) {
	k := fmt.Sprintf("%d#%s", a.id, key)
	if id, ok := e.nodeIDs()[k]; ok {
		return id, true
	}
	p := st.blk.Instrs[0].Pos()
	for _, in := range st.blk.Instrs {
		if in.Pos().IsValid() {
			p = in.Pos()
			break
		}
	}
	id := e.newNode(e.P.posOf(p) + " " + a.fn.String())
	e.nodeIDs()[k] = id
	if st.taint {
		e.nodeTaint[id] = true
	}
	return id, false
}

func (e *Engine) nodeIDs() map[string]int {
	if e.nodeMap == nil {
		e.nodeMap = map[string]int{}
	}
	return e.nodeMap
}

func (e *Engine) pop(a *Act) *pending {
	for len(a.queue) > 0 {
		p := heap.Pop(&a.queue).(*pending)
		if !p.done {
			return p
		}
	}
	a.queue = nil
	return nil
}

// pendHeap is ordered by the position in the function, then by age.
type pendHeap []*pending

func (h pendHeap) Len() int { return len(h) }
func (h pendHeap) Less(i, j int) bool {
	p, q := h[i], h[j]
	if p.rpo != q.rpo {
		return p.rpo < q.rpo
	}
	if p.st.idx != q.st.idx {
		return p.st.idx < q.st.idx
	}
	return p.ord < q.ord
}
func (h pendHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *pendHeap) Push(x interface{}) { *h = append(*h, x.(*pending)) }
func (h *pendHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	return x
}

func (e *Engine) runAll() {
	n := 0
	for len(e.ready) > 0 && !e.stop {
		a := e.ready[0]
		p := e.pop(a)
		if p == nil {
			if a.dirty {
				e.deliver(a)
				continue
			}
			// remove from the heap
			for i, x := range e.ready {
				if x == a {
					heap.Remove(&e.ready, i)
					break
				}
			}
			a.inReady = false
			continue
		}
		lst := a.pend[p.key]
		for i, q := range lst {
			if q == p {
				a.pend[p.key] = append(lst[:i:i], lst[i+1:]...)
				break
			}
		}
		if len(a.pend[p.key]) == 0 {
			delete(a.pend, p.key)
		}
		if subsumed(p.vec, a.seen[p.key]) {
			continue
		}
		a.seen[p.key] = append(a.seen[p.key], p.vec)
		e.states++
		n++
		if dumpAt > 0 && n == dumpAt {
			e.dump()
		}
		if e.firstBad > 0 && e.states > e.firstBad+e.afterBad {
			e.stop = true
			return
		}
		if e.states > e.maxStates || (n%256 == 0 && time.Now().After(e.deadline)) || (n%4096 == 0 && heapMB() > e.maxMB) {
			e.find(p.st, "undecided", a.fn.Pos(), nil, "analysis did not reach a fixed point within its budget (%d states)", e.states)
			e.stop = true
			return
		}
		e.run(p.st)
	}
}

var dumpAt int

func heapMB() int {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc >> 20)
}

// dump prints where the states are (debugging aid).
func (e *Engine) dump() {
	acts, keys := map[string]int{}, map[string]int{}
	for _, a := range e.actList {
		acts[a.fn.String()]++
		keys[a.fn.String()] += len(a.seen)
	}
	for f, n := range acts {
		fmt.Println(f, "activations", n, "keys", keys[f])
	}
	n := 0
	byKey := map[string][]string{}
	for k, a := range e.acts {
		byKey[a.fn.Name()] = append(byKey[a.fn.Name()], k)
	}
	for f, l := range byKey {
		if len(l) < 50 {
			continue
		}
		sort.Strings(l)
		for n = 0; n < 16; n++ {
			a := e.acts[l[n*len(l)/16]]
			k := &keyer{pos: func(p int) int { return p }, obj: func(o int) int { return o }, pref: func(o int) int { return o }, line: func(l int) int { return l }}
			for i := 1; i < len(a.entry.heap); i++ {
				if a.entry.heap[i] != nil {
					k.val(a.entry.heap[i].v)
				}
				k.s(";")
			}
			for _, el := range a.entry.elems {
				k.s(fmt.Sprint(" E", el.pos, el.ret, e.an.show(el.cls)))
			}
			if a.entry.ss != nil {
				k.ss(a.entry.ss, k.pos)
			}
			fmt.Println("  ", f, string(k.b))
		}
	}
}

// overflow reports output that diverges without bound.
func (e *Engine) overflow(st *State) bool {
	h, isHolder := e.spec.(holder)
	if isHolder && h.past(st) && e.diverged(st) {
		return true
	}
	for i, o := range st.heap {
		if o == nil {
			continue
		}
		ov, ok := o.v.(*ArrV)
		if !ok || ov.ghost || ov.prefix == 0 || len(ov.elems) == 0 || ov.prefix >= len(st.heap) || st.heap[ov.prefix] == nil {
			continue
		}
		_ = i
		gv, ok := st.heap[ov.prefix].v.(*ArrV)
		if !ok || len(gv.elems) == 0 {
			continue
		}
		if e.mustNE(st, ov.elems[0], gv.elems[0]) {
			e.find(st, "output", st.blk.Instrs[st.idx].Pos(), e.diffTags(st, ov.elems[0], gv.elems[0]), "output %s, expected %s", e.showVal(st, ov.elems[0]), e.showVal(st, gv.elems[0]))
			return true
		}
	}
	for _, o := range st.heap {
		if o == nil {
			continue
		}
		if av, ok := o.v.(*ArrV); ok && isHolder && av.ghost && len(av.elems) > 3+e.keep {
			e.find(st, "undecided", st.blk.Instrs[st.idx].Pos(), e.outTags(st), "expected value %s is not produced in time", e.showVal(st, av.elems[0]))
			return true
		}
		if av, ok := o.v.(*ArrV); ok && av.ghost && len(av.elems) > e.maxTail+e.maxWin {
			e.find(st, "output", st.blk.Instrs[st.idx].Pos(), e.diffTags(st, nil, av.elems[0]), "expected output %s is never produced", e.showVal(st, av.elems[0]))
			return true
		}
		if av, ok := o.v.(*ArrV); ok && !av.ghost && av.prefix != 0 && len(av.elems) > e.maxTail {
			e.find(st, "output", st.blk.Instrs[st.idx].Pos(), e.diffTags(st, av.elems[0], nil), "output %s differs from the expected one", e.showVal(st, av.elems[0]))
			return true
		}
		if av, ok := o.v.(*ArrV); ok && !av.ghost && e.bounded && len(av.elems) > 40 && st.act.fn != nil {
			e.find(st, "nonterm", st.blk.Instrs[st.idx].Pos(), nil, "a list grows without bound on a short input")
			return true
		}
		if av, ok := o.v.(*ArrV); ok && !av.ghost && len(av.elems) > 400 {
			e.find(st, "undecided", st.blk.Instrs[st.idx].Pos(), e.outTags(st), "a list grows without bound")
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- calls

// call starts (or joins) the activation of fn with args for st at its call
// instruction; the continuation resumes after it.
func (e *Engine) call(st *State, fn *ssa.Function, args []Val, retReg int) {
	e.funcs[fn] = true
	fi := e.info(fn)
	ca := st.act
	// values the caller keeps
	live := ca.fi.live(st.blk, st.idx+1)
	e.fold(st, args)
	if _, ok := e.spec.(holder); ok && st.ss != nil {
		roots := append([]Val(nil), args...)
		for i, v := range st.regs {
			if v == nil {
				continue
			}
			if live.has(i) && i != retReg {
				roots = append(roots, v)
			} else {
				st.regs[i] = nil
			}
		}
		e.absorb(st, e.trace(st, roots), args)
	}
	// reachability from the arguments
	d := &dependent{st: st, posBack: map[int]int{}, passed: map[int]bool{}, retReg: retReg}
	full := false
	onum := map[int]int{}
	objBack := []int{0}
	pm := map[int]bool{}
	argElems := map[int]bool{}
	var queue []int
	w := &visitor{}
	w.pos = func(p int, cur bool) {
		pm[p] = true
		if cur {
			full = true
		}
	}
	w.elem = func(p int) { argElems[p] = true }
	w.seg = func(p int) {
		if el := st.elemAt(p); el != nil && el.delim {
			argElems[p] = true
		}
	}
	w.stream = func() { full = true }
	w.obj = func(o int) {
		if o <= 0 {
			return
		}
		if onum[o] == 0 {
			onum[o] = len(objBack)
			objBack = append(objBack, o)
			queue = append(queue, o)
		}
	}
	w.pref = func(o int) { full = true; w.obj(o) }
	scan := func(from int) {
		for i := from; i < len(queue); i++ {
			if ob := st.heap[queue[i]]; ob != nil {
				w.val(ob.v)
			}
		}
	}
	for _, v := range args {
		w.val(v)
	}
	scan(0)
	if full && st.ss == nil {
		full = false
	}
	var slotVals []Val
	if full {
		slotVals = st.ss.slots
		if h, ok := e.spec.(holder); ok {
			slotVals = e.hold(st, h, d, args, queue, pm)
		}
		n := len(queue)
		for _, v := range slotVals {
			if v != nil {
				w.val(v)
			}
		}
		scan(n)
	}
	// private part of the caller
	privElems := map[int]bool{}
	floor := noPos
	needNL := false
	{
		pw := &visitor{}
		seen := map[int]bool{}
		var pq []int
		pw.pos = func(p int, cur bool) {
			if cur && st.ss != nil && p >= st.ss.base && p < floor {
				floor = p
			}
		}
		pw.elem = func(p int) { privElems[p] = true }
		pw.seg = func(p int) {
			if el := st.elemAt(p); el != nil && el.delim {
				privElems[p] = true
			}
		}
		pw.stream = func() {}
		pw.obj = func(o int) {
			if o <= 0 || onum[o] != 0 || seen[o] {
				return
			}
			seen[o] = true
			pq = append(pq, o)
		}
		pw.pref = pw.obj
		hasLine := func(v Val) {
			if needNL {
				return
			}
			rr := &renamer{pos: func(p int) int { return p }, obj: func(o int) int { return o }, pref: func(o int) int { return o }, line: func(l Line) Val { needNL = true; return l }}
			rr.val(v)
		}
		for i, v := range st.regs {
			if v != nil && live.has(i) && i != retReg {
				pw.val(v)
				hasLine(v)
			}
		}
		for _, df := range st.defers {
			pw.val(df.fn)
			for _, a := range df.args {
				pw.val(a)
				hasLine(a)
			}
		}
		for i := 1; i <= ca.nobj; i++ {
			pw.obj(i)
		}
		if !full && st.ss != nil {
			for _, v := range st.ss.slots {
				if v != nil {
					pw.val(v)
				}
			}
		}
		for i := 0; i < len(pq); i++ {
			if ob := st.heap[pq[i]]; ob != nil {
				pw.val(ob.v)
				hasLine(ob.v)
			}
		}
		// objects unreachable from both sides are garbage
		for i := 1; i < len(st.heap); i++ {
			if st.heap[i] != nil && onum[i] == 0 && !seen[i] && i > ca.nobj {
				st.heap[i] = nil
			}
		}
	}
	// build the entry state
	ent := &State{regs: make([]Val, fi.n)}
	var bs *SS
	if full {
		c := *st.ss
		bs = &c
		if ca != nil && c.floor < floor {
			floor = c.floor
		}
		needNL = needNL || c.needNL
		// window of the entry: what args, floor need
		for p := c.base; p <= c.end; p++ {
			pm[p] = true
		}
		if c.dead == 1 {
			pm[c.deadPos] = true
		}
		if c.altPos != 0 {
			pm[c.altPos] = true
		}
	}
	poss := sortedInts(pm)
	m := map[int]int{}
	var entryEnd int
	if full {
		// base -> 1000, window keeps distances, older anchors below
		bi := sort.SearchInts(poss, bs.base)
		code := 1000
		prev := bs.base
		m[bs.base] = 1000
		for i := bi - 1; i >= 0; i-- {
			if prev-poss[i] == 1 {
				code--
			} else {
				code -= 10
			}
			prev = poss[i]
			m[poss[i]] = code
		}
		for i := bi; i < len(poss); i++ {
			m[poss[i]] = 1000 + poss[i] - bs.base
		}
		entryEnd = 1000 + bs.end - bs.base - 1
		d.shift = (bs.end - 1) - entryEnd
	} else {
		code, prev := 1000, 0
		for i, p := range poss {
			if i > 0 {
				if p-prev == 1 {
					code++
				} else {
					code += 10
				}
			}
			m[p] = code
			prev = p
		}
		entryEnd = code + 1000
	}
	for p, c := range m {
		d.posBack[c] = p
	}
	rn := &renamer{pos: func(p int) int {
		if c, ok := m[p]; ok {
			return c
		}
		if full && p >= bs.base {
			return p - bs.base + 1000
		}
		panic(fmt.Sprintf("entry position %d unmapped", p))
	}, obj: func(o int) int {
		if o <= 0 {
			return o
		}
		return onum[o]
	}, line: func(l Line) Val { return l }}
	rn.pref = rn.obj
	reheld := map[int]int{}
	rn.held = func(k int) Val {
		if k < 0 {
			return Held{-k - 1}
		}
		j, ok := reheld[k]
		if !ok {
			j = len(d.held)
			reheld[k] = j
			d.held = append(d.held, Held{k})
		}
		return Held{j}
	}
	for i, v := range args {
		ent.regs[i] = rn.val(v)
	}
	ent.heap = make([]*Obj, len(objBack))
	for i := 1; i < len(objBack); i++ {
		if o := st.heap[objBack[i]]; o != nil {
			ent.heap[i] = &Obj{rn.val(o.v), o.site}
		}
	}
	for _, el := range st.elems {
		inWin := full && el.pos >= bs.base
		if inWin || argElems[el.pos] || (full && el.ret && m[el.pos] != 0) {
			if c, ok := m[el.pos]; ok {
				ent.elems = append(ent.elems, Elem{c, el.cls, el.ret || privElems[el.pos] || !full, el.delim})
				d.passed[el.pos] = true
			}
		}
	}
	if full {
		bs.base = 1000
		bs.end = entryEnd + 1
		if bs.dead == 1 {
			bs.deadPos = m[bs.deadPos]
		}
		if bs.altPos != 0 {
			bs.altPos = m[bs.altPos]
		}
		slots := make([]Val, len(slotVals))
		for i, v := range slotVals {
			if v != nil {
				slots[i] = rn.val(v)
			}
		}
		bs.slots = slots
		if floor != noPos {
			floor = rn.pos(floor)
		}
		bs.floor = floor
		bs.needNL = needNL
		bs.nlAdv = 0
		ent.ss = bs
	}
	d.objBack = objBack
	// key
	k := &keyer{b: e.kbuf[:0], pos: func(p int) int { return p }, obj: func(o int) int { return o }, pref: func(o int) int { return o }, line: func(l int) int { return l }}
	k.s(fn.String())
	if fn.Parent() != nil || fn.Synthetic != "" {
		k.s(fmt.Sprintf("%p", fn))
	}
	k.s("(")
	for i := range args {
		k.val(ent.regs[i])
		k.s(",")
	}
	k.s(")H")
	for i := 1; i < len(ent.heap); i++ {
		if ent.heap[i] != nil {
			k.val(ent.heap[i].v)
		}
		k.s(";")
	}
	k.s("E")
	for _, el := range ent.elems {
		k.i(el.pos)
		if el.ret {
			k.s("r")
		}
		if el.delim {
			k.s("d")
		}
		k.s("=")
		k.s(el.cls.k)
	}
	if ent.ss != nil {
		k.s("S")
		k.ss(ent.ss, k.pos)
	}
	e.kbuf = k.b
	key := string(k.b)
	a := e.acts[key]
	if a == nil {
		a = &Act{id: len(e.actList), fn: fn, fi: fi, entry: ent, nobj: len(objBack) - 1, entryEnd: entryEnd, pure: !full,
			pend: map[string][]*pending{}, seen: map[string][][]*Bits{}, exits: map[string][]*exitRec{}}
		a.node = e.newNode(e.P.posOf(fn.Pos()) + " " + fn.String())
		e.acts[key] = a
		e.actList = append(e.actList, a)
		s0 := ent.clone()
		s0.act = a
		s0.node = a.node
		if len(fn.Blocks) == 0 {
			e.find(st, "undecided", st.blk.Instrs[st.idx].Pos(), nil, "call of %s, whose source is not available", fn)
			return
		}
		s0.blk = fn.Blocks[0]
		s0.idx = 0
		a.deps = append(a.deps, d)
		if !st.fetched && st.node != 0 {
			e.edges[[2]int{st.node, a.node}] = true
		}
		e.push(s0)
		return
	}
	if !st.fetched && st.node != 0 {
		e.edges[[2]int{st.node, a.node}] = true
	}
	a.deps = append(a.deps, d)
	for _, x := range append([]*exitRec(nil), a.exitList...) {
		if x.delivered && !x.dead {
			e.resume(a, d, x)
		}
	}
}

// diverged reports a finished record that certainly differs from the expected
// one.
func (e *Engine) diverged(st *State) bool {
	for g, o := range st.heap {
		if o == nil {
			continue
		}
		gv, ok := o.v.(*ArrV)
		if !ok || !gv.ghost || len(gv.elems) == 0 {
			continue
		}
		want, ok := gv.elems[0].(*Struct)
		if !ok {
			continue
		}
		for _, p := range st.heap {
			if p == nil {
				continue
			}
			ov, ok := p.v.(*ArrV)
			if !ok || ov.ghost || ov.bad || ov.run || len(ov.elems) == 0 || !(ov.prefix == g || ov.prefix == 0 && !gv.abs) {
				continue
			}
			got, ok := ov.elems[0].(*Struct)
			if !ok || got.t != want.t || !e.mustNE(st, got, want) {
				continue
			}
			e.find(st, "output", st.blk.Instrs[st.idx].Pos(), e.diffTags(st, got, want), "%s, expected %s", e.showVal(st, got), e.showVal(st, want))
			return true
		}
	}
	return false
}

// holder is a specification whose expected value is a record built field by
// field: slots that a callee may not need to see.
type holder interface {
	holds(slot int) bool
	past(st *State) bool // the last finished record is behind the program
}

// hold replaces the parts of the expected value that the callee cannot get
// hold of by placeholders, so that its summary does not depend on them.
func (e *Engine) hold(st *State, h holder, d *dependent, args []Val, queue []int, pm map[int]bool) []Val {
	low := noPos
	seenPos := map[int]bool{}
	reach := map[types.Type]bool{}
	w := &visitor{obj: func(int) {}, pref: func(int) {}, stream: func() {}}
	w.pos = func(p int, cur bool) {
		if cur {
			if p < low {
				low = p
			}
		} else {
			seenPos[p] = true
		}
	}
	w.elem = func(p int) { seenPos[p] = true }
	w.strct = func(t types.Type) { reach[t] = true }
	for _, v := range args {
		w.val(v)
	}
	for _, o := range queue {
		if ob := st.heap[o]; ob != nil {
			w.val(ob.v)
		}
	}
	if low != noPos {
		low -= e.lookback
	}
	var rec func(v Val, known bool) Val
	rec = func(v Val, known bool) Val {
		ok := false
		switch x := v.(type) {
		case *Struct:
			f := make([]Val, len(x.f))
			known = reach[x.t]
			for i := range x.f {
				f[i] = rec(x.f[i], known)
			}
			return &Struct{x.t, f}
		case *Iface:
			if known {
				return &Iface{x.t, rec(x.v, known)}
			}
			n := len(d.held)
			if _, ok := rec(x.v, known).(Held); ok {
				d.held = d.held[:n]
				d.held = append(d.held, v)
				return Held{-len(d.held)}
			}
			d.held = d.held[:n]
			return v
		case Held:
			ok = true
		case *Opaque:
			ok = strings.HasPrefix(x.name, "spec:")
		case *Expr:
			ok = x.pos < low && !seenPos[x.pos]
		case *Cat:
			ok = true
			for _, p := range x.parts {
				if p.e != nil && (p.e.pos >= low || seenPos[p.e.pos]) {
					ok = false
				}
				if p.e == nil && p.b > p.a && (p.b > low || seenPos[p.a] || seenPos[p.b]) {
					ok = false
				}
			}
		case Str, Int, Bool, Flt:
			ok = !known
		}
		if !ok {
			return v
		}
		d.held = append(d.held, v)
		return Held{-len(d.held)}
	}
	out := make([]Val, len(st.ss.slots))
	for i, v := range st.ss.slots {
		if v != nil && h.holds(i) {
			v = rec(v, false)
		}
		out[i] = v
	}
	return out
}

// specVal applies a specification function, later if its argument is held.
func (e *Engine) specVal(st *State, op string, v Val) Val {
	switch v.(type) {
	case Held, *Opaque:
		return &Opaque{op, []Val{v}}
	}
	return e.mkExpr(st, op, v)
}

// exit records a return of st.
func (e *Engine) exit(st *State, rets []Val) {
	a := st.act
	e.exits++
	for i := range st.regs {
		st.regs[i] = nil
	}
	ci := e.settle(st, nil, rets)
	if rets == nil {
		rets = []Val{}
	}
	key, vec := e.key(st, ci, rets)
	st.rets = rets
	for _, x := range a.exits[key] {
		if !x.dead && subsumed(vec, [][]*Bits{x.vec}) {
			return
		}
	}
	// merge with an undelivered exit (or widen a delivered one)
	for {
		merged := false
		for _, x := range a.exits[key] {
			if x.dead {
				continue
			}
			if nv, ok := unionDiff(x.vec, vec); ok {
				x.dead = true
				vec = nv
				for j := range st.elems {
					st.elems[j].cls = nv[j]
				}
				merged = true
				break
			}
		}
		if !merged {
			break
		}
	}
	x := &exitRec{st: st, vec: vec, key: key}
	a.exits[key] = append(a.exits[key], x)
	a.exitList = append(a.exitList, x)
	a.dirty = true
	e.makeReady(a)
}

func (e *Engine) deliver(a *Act) {
	a.dirty = false
	var lst []*exitRec
	keep := a.exitList[:0]
	for _, x := range a.exitList {
		if x.dead {
			continue
		}
		keep = append(keep, x)
		if !x.delivered {
			x.delivered = true
			lst = append(lst, x)
		}
	}
	a.exitList = keep
	deps := append([]*dependent(nil), a.deps...)
	for _, x := range lst {
		for _, d := range deps {
			e.resume(a, d, x)
		}
	}
}

// resume continues the caller d with exit x of a.
func (e *Engine) resume(a *Act, d *dependent, x *exitRec) {
	if d.st.act == nil || d.st.act.fn == nil {
		// root
		if e.onExit != nil {
			e.onExit(e, x.st)
		}
		return
	}
	s := d.st.clone()
	xs := x.st
	xr := make([]int, len(xs.heap))
	if len(s.heap) == 0 {
		s.heap = []*Obj{nil}
	}
	for i := 1; i < len(xs.heap); i++ {
		if i <= a.nobj {
			xr[i] = d.objBack[i]
		} else if xs.heap[i] != nil {
			s.heap = append(s.heap, nil)
			xr[i] = len(s.heap) - 1
		}
	}
	rn := &renamer{pos: func(p int) int {
		if p <= a.entryEnd {
			if b, ok := d.posBack[p]; ok {
				return b
			}
			if xs.ss != nil {
				return p + d.shift
			}
			panic(fmt.Sprintf("exit position %d unmapped in %s", p, a.fn))
		}
		return p + d.shift
	}, obj: func(o int) int {
		if o <= 0 {
			return o
		}
		return xr[o]
	}, line: func(l Line) Val { return l }}
	rn.pref = rn.obj
	if len(d.held) > 0 {
		rn.held = func(k int) Val { return d.held[k] }
		rn.spec = func(op string, a []Val) Val { return e.specVal(d.st, op, a[0]) }
	}
	for i := 1; i < len(xs.heap); i++ {
		if xs.heap[i] == nil {
			if i <= a.nobj {
				s.heap[xr[i]] = nil
			}
			continue
		}
		s.heap[xr[i]] = &Obj{rn.val(xs.heap[i].v), xs.heap[i].site}
	}
	// private lines
	if xs.ss != nil && xs.ss.nlAdv > 0 {
		k := xs.ss.nlAdv
		back := map[int]bool{}
		for i := 1; i < len(xr); i++ {
			back[xr[i]] = true
		}
		lr := &renamer{pos: func(p int) int { return p }, obj: func(o int) int { return o }, pref: func(o int) int { return o }, line: func(l Line) Val {
			if k >= 9 || l.v-k < -6 {
				return Unknown{}
			}
			return Line{l.v - k}
		}}
		for i, v := range s.regs {
			if v != nil {
				s.regs[i] = lr.val(v)
			}
		}
		for i, o := range s.heap {
			if o != nil && !back[i] {
				s.heap[i] = &Obj{lr.val(o.v), o.site}
			}
		}
	}
	// elements
	var els []Elem
	for _, el := range s.elems {
		if !d.passed[el.pos] {
			els = append(els, el)
		}
	}
	for _, el := range xs.elems {
		p := rn.pos(el.pos)
		ret := false
		if o := s.elemAt(p); o != nil {
			ret = o.ret
		}
		els = append(els, Elem{p, el.cls, ret, el.delim})
	}
	s.elems = els
	sortElems(s.elems)
	if xs.ss != nil {
		old := s.ss
		n := *xs.ss
		n.base = rn.pos(n.base)
		n.end = rn.pos(n.end)
		if n.dead == 1 {
			n.deadPos = rn.pos(n.deadPos)
		}
		if n.altPos != 0 {
			n.altPos = rn.pos(n.altPos)
		}
		slots := make([]Val, len(n.slots))
		for i, v := range n.slots {
			if v != nil {
				slots[i] = rn.val(v)
			}
		}
		n.slots = slots
		n.floor = old.floor
		n.needNL = old.needNL
		n.nlAdv = old.nlAdv + xs.ss.nlAdv
		if !n.needNL {
			n.nlAdv = 0
		} else if n.nlAdv > 9 {
			n.nlAdv = 9
		}
		s.ss = &n
	}
	s.taint = s.taint || xs.taint
	if xs.hist != nil {
		s.hist = &Hist{prev: s.hist, sub: xs.hist}
	}
	if xs.fetchedSinceEntry() {
		s.fetched = true
	}
	if d.retReg >= 0 {
		var rv Val
		switch len(xs.rets) {
		case 0:
			rv = NilV{}
		case 1:
			rv = rn.val(xs.rets[0])
		default:
			t := make([]Val, len(xs.rets))
			for i, v := range xs.rets {
				t[i] = rn.val(v)
			}
			rv = &Tuple{t}
		}
		s.regs[d.retReg] = rv
	}
	s.idx++
	e.push(s)
}

func (s *State) fetchedSinceEntry() bool {
	return s.ss != nil && s.ss.end-1 > s.act.entryEnd
}
