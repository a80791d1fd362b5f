package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// start begins the analysis of fn with the given arguments and heap.
func (e *Engine) start(fn *ssa.Function, args []Val, heap []*Obj, stream bool) {
	e.funcs[fn] = true
	fi := e.info(fn)
	if len(heap) == 0 {
		heap = []*Obj{nil}
	}
	ent := &State{regs: make([]Val, fi.n), heap: heap}
	for i, a := range args {
		ent.regs[i] = a
	}
	a := &Act{id: len(e.actList), fn: fn, fi: fi, entry: ent, entryEnd: 999, pure: !stream,
		pend: map[string][]*pending{}, seen: map[string][][]*Bits{}, exits: map[string][]*exitRec{}}
	a.node = e.newNode(e.P.posOf(fn.Pos()) + " " + fn.String())
	e.actList = append(e.actList, a)
	ent.act = a
	ent.node = a.node
	if stream {
		ent.ss = &SS{base: 1000, end: 1000, floor: noPos}
		e.spec.init(e, ent)
	}
	a.nobj = len(ent.heap) - 1
	a.deps = []*dependent{{st: &State{}, retReg: -1}}
	ent.blk = fn.Blocks[0]
	e.push(ent)
}

// runFn interprets fn to its end and returns the exit states.
func (e *Engine) runFn(fn *ssa.Function, args []Val, heap []*Obj) []*State {
	var out []*State
	old := e.onExit
	e.onExit = func(_ *Engine, st *State) { out = append(out, st) }
	e.start(fn, args, heap, false)
	e.runAll()
	e.onExit = old
	return out
}

// initGlobals interprets the package initialisers of the repository.
func initGlobals(P *Program) *Engine {
	an := newAlphabet([]string{"x"}, false)
	e := newEngine(P, "init", an, nil)
	e.deadline = time.Now().Add(60 * time.Second)
	e.initMode = true
	done := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if done[path] || P.Pkgs[path] == nil {
			return
		}
		done[path] = true
		var imps []string
		for i := range P.TPkgs[path].Imports {
			imps = append(imps, i)
		}
		sort.Strings(imps)
		for _, i := range imps {
			visit(i)
		}
		sp := P.Pkgs[path]
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				P.globals[g] = e.zero(g.Type().Underlying().(*types.Pointer).Elem())
			}
		}
		if f := sp.Func("init"); f != nil && len(f.Blocks) > 0 {
			e.intercept = func(_ *Engine, st *State, fn *ssa.Function, args []Val) ([]*State, [][]Val, bool) {
				if fn.Synthetic == "package initializer" {
					return []*State{st}, [][]Val{{}}, true
				}
				return nil, nil, false
			}
			e.runFn(f, nil, nil)
		}
	}
	var all []string
	for p := range P.Pkgs {
		all = append(all, p)
	}
	sort.Strings(all)
	for _, p := range all {
		visit(p)
	}
	return e
}

// cycles reports loops of the analysed state graph that consume no input.
func (e *Engine) cycles() []string {
	adj := map[int][]int{}
	for k := range e.edges {
		adj[k[0]] = append(adj[k[0]], k[1])
	}
	for _, l := range adj {
		sort.Ints(l)
	}
	// Tarjan, iterative
	idx := make([]int, e.nodes)
	low := make([]int, e.nodes)
	on := make([]bool, e.nodes)
	var stack []int
	n := 0
	var out []string
	type fr struct{ v, i int }
	for root := 1; root < e.nodes; root++ {
		if idx[root] != 0 {
			continue
		}
		fs := []fr{{root, 0}}
		n++
		idx[root], low[root] = n, n
		stack = append(stack, root)
		on[root] = true
		for len(fs) > 0 {
			f := &fs[len(fs)-1]
			if f.i < len(adj[f.v]) {
				w := adj[f.v][f.i]
				f.i++
				if idx[w] == 0 {
					n++
					idx[w], low[w] = n, n
					stack = append(stack, w)
					on[w] = true
					fs = append(fs, fr{w, 0})
				} else if on[w] && idx[w] < low[f.v] {
					low[f.v] = idx[w]
				}
				continue
			}
			v := f.v
			fs = fs[:len(fs)-1]
			if len(fs) > 0 && low[v] < low[fs[len(fs)-1].v] {
				low[fs[len(fs)-1].v] = low[v]
			}
			if low[v] == idx[v] {
				var comp []int
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp = append(comp, w)
					if w == v {
						break
					}
				}
				self := e.edges[[2]int{v, v}]
				if len(comp) > 1 || self {
					m := map[string]bool{}
					taint := false
					for _, w := range comp {
						m[e.nodePos[w]] = true
						if e.nodeTaint[w] {
							taint = true
						}
					}
					var ps []string
					for p := range m {
						ps = append(ps, p)
					}
					sort.Strings(ps)
					if len(ps) > 5 {
						ps = ps[:5]
					}
					t := strings.Join(ps, " -> ")
					if taint {
						t = "?" + t
					}
					out = append(out, t)
				}
			}
		}
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- constants

type progConsts struct {
	strs map[string]bool
	ints map[int64]bool
}

func collectConsts(P *Program) *progConsts {
	pc := &progConsts{strs: map[string]bool{}, ints: map[int64]bool{}}
	add := func(v constant.Value) {
		switch v.Kind() {
		case constant.String:
			pc.strs[constant.StringVal(v)] = true
		case constant.Int:
			if n, ok := constant.Int64Val(v); ok {
				pc.ints[n] = true
			}
		}
	}
	var ops []*ssa.Value
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ops = in.Operands(ops[:0])
				for _, o := range ops {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil {
						add(c.Value)
					}
				}
			}
		}
	}
	for _, p := range P.Pkgs {
		for _, m := range p.Members {
			if c, ok := m.(*ssa.NamedConst); ok && c.Value.Value != nil {
				add(c.Value.Value)
			}
		}
	}
	return pc
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- ghost helpers

// ghostList adds an expected list to the state and returns its slot value.
func (e *Engine) ghostList(st *State) Val {
	id := st.alloc(&ArrV{ghost: true}, "ghost")
	return Slice{id, 0, 0, false}
}

// emit appends v to the expected list in slot i.
func (e *Engine) emit(st *State, i int, v Val) {
	sl := st.ss.slots[i].(Slice)
	o := st.heap[sl.obj]
	av := *o.v.(*ArrV)
	av.elems = append(append([]Val(nil), av.elems...), v)
	st.heap[sl.obj] = &Obj{&av, o.site}
	sl.hi++
	st.ss.slots[i] = sl
}

// deadList replaces the expected list after an error.
func (e *Engine) deadList(st *State, i int) {
	id := st.alloc(&ArrV{ghost: true, abs: true}, "ghost")
	st.ss.slots[i] = Slice{id, 0, 0, false}
}

// lineAt is the expected line number at position p (p within the window).
func (e *Engine) lineAt(st *State, p int) Val {
	n := 1
	for q := st.ss.base; q < p; q++ {
		if el := st.elemAt(q); el != nil && el.cls.subsetOf(e.spec.newline()) {
			n++
		}
	}
	return Line{n}
}

// die marks the input as illegal at p.
func (e *Engine) die(st *State, p int, slotLine int) {
	st.ss.dead = 1
	st.ss.deadPos = p
	st.ss.slots[slotLine] = e.lineAt(st, p)
	st.ss.slots[slotLine+1] = &Expr{e.shapes.mk(e.symStrOp()), p}
}

func (e *Engine) dieEOF(st *State, slotLine int) {
	st.ss.dead = 2
	st.ss.slots[slotLine] = e.lineAt(st, st.ss.end)
	st.ss.slots[slotLine+1] = Str("<EOF>")
}

func hasUnknown(e *Engine, s *State, v Val, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case Unknown, AtLeast, LenOf, Diff, CatLen:
		return true
	case *Struct:
		for _, x := range v.f {
			if hasUnknown(e, s, x, depth+1) {
				return true
			}
		}
	case *Iface:
		return hasUnknown(e, s, v.v, depth+1)
	case *Opaque:
		return v.name != "kw"
	case *Expr:
		el := s.elemAt(v.pos)
		if el == nil {
			return v.sh.op != "sym" && v.sh.op != "symstr"
		}
		u := false
		el.cls.each(func(c int) {
			if _, ok := v.sh.eval(c).(unkT); ok {
				u = true
			}
		})
		return u
	case Slice:
		if o := e.obj(s, v.obj); o != nil {
			if av, ok := o.v.(*ArrV); ok {
				if av.bad || av.run {
					return true
				}
				for _, x := range av.elems {
					if hasUnknown(e, s, x, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// findV is find, but uncertain when the offending value is not known.
func (e *Engine) findV(st *State, v Val, kind string, pos token.Pos, tags []string, f string, args ...any) {
	if hasUnknown(e, st, v, 0) {
		c := *st
		c.taint = true
		e.find(&c, kind, pos, tags, f, args...)
		return
	}
	e.find(st, kind, pos, tags, f, args...)
}

func methodOf(P *Program, t types.Type, name string) *ssa.Function {
	ms := P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// exitError splits the result tuple (value, error) of a stage.
func isErr(v Val) (*Iface, bool, bool) {
	switch x := v.(type) {
	case NilV:
		return nil, false, true
	case *Iface:
		return x, true, true
	}
	return nil, false, false
}

var _ = fmt.Sprint
