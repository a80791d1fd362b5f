package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The effect analysis: an interprocedural flow of addresses of package-level
// memory over the functions reachable from the exported API, and a set of
// rules about what these functions may do (C19) and about which memory may
// get into a result (C22).

type effects struct {
	P      *Program
	r      *Result
	reach  map[*ssa.Function]bool
	order  []*ssa.Function
	rooted map[ssa.Value]*ssa.Global // values that refer to memory of a package-level variable
	fields map[string]*ssa.Global    // struct fields (of repository types) that may hold such values
	rets   map[*ssa.Function]map[int]*ssa.Global
	calls  map[*ssa.Function][]ssa.CallInstruction // repo callee -> call sites
	once   map[*ssa.Function]bool                  // bodies run under a sync.Once
	empty  map[*ssa.Global]bool                    // initialised with an empty literal and never assigned
	sites  int
}

func (x *effects) find(kind string, pos token.Pos, fn *ssa.Function, tags []string, f string, a ...any) {
	name := ""
	if fn != nil {
		name = fn.String()
		if !pos.IsValid() {
			pos = fn.Pos()
		}
	}
	fd := &Finding{Kind: kind, Pos: x.P.posOf(pos) + " (" + name + ")", Msg: "effects: " + fmt.Sprintf(f, a...), Tags: tags}
	for _, g := range x.r.Findings {
		if g.Pos == fd.Pos && g.Msg == fd.Msg {
			return
		}
	}
	x.r.Findings = append(x.r.Findings, fd)
}

// hasRef reports whether values of t can refer to memory that can be changed.
func hasRef(t types.Type) bool { return hasRefD(t, 0) }
func hasRefD(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
		return true
	case *types.Array:
		return u.Len() > 0 && hasRefD(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefD(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Tuple:
		return true
	}
	return false
}

func effField(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeKey(t) + "#" + fmt.Sprint(i)
}

func (x *effects) targets(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if !cc.IsInvoke() {
		if f := cc.StaticCallee(); f != nil {
			return []*ssa.Function{f}
		}
		// function value: every repository function of that signature whose
		// address is taken
		var out []*ssa.Function
		for f := range x.reach {
			if types.Identical(f.Signature, cc.Value.Type().Underlying()) && f.Signature.Recv() == nil {
				out = append(out, f)
			}
		}
		return out
	}
	var out []*ssa.Function
	it, _ := cc.Value.Type().Underlying().(*types.Interface)
	for _, f := range x.P.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Name() != cc.Method.Name() {
			continue
		}
		if it == nil || types.Implements(r.Type(), it) || types.Implements(types.NewPointer(r.Type()), it) || embeds(x.P, r.Type(), it) {
			out = append(out, f)
		}
	}
	return out
}

// embeds reports whether some repository struct that implements it embeds t.
func embeds(P *Program, t types.Type, it *types.Interface) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, p := range P.TPkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok || !(types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it)) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				if pt, ok := ft.(*types.Pointer); ok {
					ft = pt.Elem()
				}
				if st.Field(i).Embedded() && types.Identical(ft, t) {
					return true
				}
			}
		}
	}
	return false
}

func (x *effects) reachable() {
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f == nil || x.reach[f] || !inRepo(f) {
			return
		}
		x.reach[f] = true
		x.order = append(x.order, f)
		work = append(work, f)
	}
	root := x.P.Pkgs[modPath]
	for _, n := range sortedMembers(root) {
		if f, ok := root.Members[n].(*ssa.Function); ok && token.IsExported(n) {
			add(f)
		}
	}
	for _, f := range x.P.Funcs {
		if f.Name() == "Error" && f.Signature.Recv() != nil {
			add(f)
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
						if g.Synthetic != "" {
							// wrapper: its target
							for _, wb := range g.Blocks {
								for _, wi := range wb.Instrs {
									if c, ok := wi.(ssa.CallInstruction); ok {
										add(c.Common().StaticCallee())
									}
								}
							}
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						add(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range x.targets(c) {
						add(g)
					}
				}
			}
		}
	}
}

func sortedMembers(p *ssa.Package) []string {
	var n []string
	for m := range p.Members {
		n = append(n, m)
	}
	sort.Strings(n)
	return n
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
		if f.Origin() != nil {
			if o, ok := f.Origin().Object().(*types.Func); ok {
				return o.FullName()
			}
		}
		return f.String()
	}
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	return ""
}

// flow computes which values refer to memory of package-level variables.
func (x *effects) flow() {
	x.rooted = map[ssa.Value]*ssa.Global{}
	x.fields = map[string]*ssa.Global{}
	x.rets = map[*ssa.Function]map[int]*ssa.Global{}
	changed := true
	set := func(v ssa.Value, g *ssa.Global) {
		if g == nil || x.rooted[v] != nil {
			return
		}
		x.rooted[v] = g
		changed = true
	}
	get := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok {
			if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && g.Name() != "init$guard" {
				return g
			}
			return nil
		}
		return x.rooted[v]
	}
	for changed {
		changed = false
		for _, f := range x.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.FieldAddr:
						set(in, get(in.X))
					case *ssa.IndexAddr:
						set(in, get(in.X))
					case *ssa.Slice:
						set(in, get(in.X))
					case *ssa.UnOp:
						if in.Op == token.MUL && hasRef(in.Type()) {
							set(in, get(in.X))
							if fa, ok := in.X.(*ssa.FieldAddr); ok {
								set(in, x.fields[effField(fa.X.Type(), fa.Field)])
							}
						}
					case *ssa.Field:
						if hasRef(in.Type()) {
							set(in, get(in.X))
							set(in, x.fields[effField(in.X.Type(), in.Field)])
						}
					case *ssa.Index:
						if hasRef(in.Type()) {
							set(in, get(in.X))
						}
					case *ssa.Lookup:
						if hasRef(in.Type()) && !isStrType(in.X.Type()) {
							set(in, get(in.X))
						}
					case *ssa.Extract:
						if hasRef(in.Type()) {
							if c, ok := in.Tuple.(*ssa.Call); ok {
								for _, t := range x.targets(c) {
									if m := x.rets[t]; m != nil {
										set(in, m[in.Index])
									}
								}
								if !inRepoCall(c) {
									set(in, get(in.Tuple))
								}
							} else {
								set(in, get(in.Tuple))
							}
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							set(in, get(e))
						}
					case *ssa.ChangeType:
						set(in, get(in.X))
					case *ssa.ChangeInterface:
						set(in, get(in.X))
					case *ssa.MakeInterface:
						if hasRef(in.X.Type()) {
							set(in, get(in.X))
						}
					case *ssa.TypeAssert:
						if hasRef(in.Type()) {
							set(in, get(in.X))
						}
					case *ssa.Range:
						set(in, get(in.X))
					case *ssa.Next:
						set(in, get(in.Iter))
					case *ssa.MakeClosure:
						if fn, ok := in.Fn.(*ssa.Function); ok {
							for i, bd := range in.Bindings {
								if i < len(fn.FreeVars) {
									set(fn.FreeVars[i], get(bd))
								}
							}
						}
					case *ssa.Store:
						if g := get(in.Val); g != nil && hasRef(in.Val.Type()) {
							switch a := in.Addr.(type) {
							case *ssa.FieldAddr:
								k := effField(a.X.Type(), a.Field)
								if x.fields[k] == nil {
									x.fields[k] = g
									changed = true
								}
							case *ssa.Alloc:
								// loads of the variable see it
								for _, ref := range *a.Referrers() {
									if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
										set(u, g)
									}
								}
							}
						}
					case *ssa.Return:
						for i, r := range in.Results {
							if g := get(r); g != nil && hasRef(r.Type()) {
								if x.rets[f] == nil {
									x.rets[f] = map[int]*ssa.Global{}
								}
								if x.rets[f][i] == nil {
									x.rets[f][i] = g
									changed = true
								}
							}
						}
					case *ssa.Call, *ssa.Defer, *ssa.Go:
						c := in.(ssa.CallInstruction)
						cc := c.Common()
						args := cc.Args
						if cc.IsInvoke() {
							args = append([]ssa.Value{cc.Value}, args...)
						}
						for _, t := range x.targets(c) {
							if inRepo(t) {
								for i, p := range t.Params {
									if i < len(args) && hasRef(p.Type()) {
										set(p, get(args[i]))
									}
								}
								if v, ok := in.(*ssa.Call); ok && hasRef(v.Type()) {
									if _, tup := v.Type().(*types.Tuple); !tup && x.rets[t] != nil {
										set(v, x.rets[t][0])
									}
								}
							}
						}
						if v, ok := in.(*ssa.Call); ok {
							if b, ok := cc.Value.(*ssa.Builtin); ok {
								// append to a package-level slice literal copies it (its
								// capacity is its length): only a part of it is shared
								if b.Name() == "append" && get(args[0]) != nil && isTruncated(args[0]) {
									set(v, get(args[0]))
								}
							} else {
								switch n := calleeName(cc); n {
								case "(*sync.Map).Load", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync/atomic.Value).Load", "(*sync/atomic.Pointer[T]).Load",
									"slices.Clip", "slices.Grow":
									if len(args) > 0 {
										set(v, get(args[0]))
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func inRepoCall(c *ssa.Call) bool {
	f := c.Common().StaticCallee()
	return c.Common().IsInvoke() || f == nil || inRepo(f)
}

func isStrType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isTruncated: v is s[:k] of something (spare room that belongs to s).
func isTruncated(v ssa.Value) bool {
	for i := 0; i < 10; i++ {
		switch y := v.(type) {
		case *ssa.Slice:
			return y.High != nil && y.Max == nil
		case *ssa.ChangeType:
			v = y.X
		default:
			return false
		}
	}
	return false
}

// ambient are library functions whose outcome is not a function of their
// arguments or that act on the outside.
func ambient(name string) string {
	pk := name
	pk = strings.TrimPrefix(pk, "(")
	pk = strings.TrimPrefix(pk, "*")
	if i := strings.LastIndex(pk, "/"); i >= 0 {
		if j := strings.Index(pk[i:], "."); j >= 0 {
			pk = pk[:i+j]
		}
	} else if j := strings.Index(pk, "."); j >= 0 {
		pk = pk[:j]
	}
	switch pk {
	case "os", "net", "syscall", "log", "log/slog", "io/ioutil", "math/rand", "math/rand/v2", "crypto/rand", "os/exec", "os/user", "os/signal", "net/http", "plugin", "embed", "expvar", "testing", "runtime/debug", "runtime/metrics", "runtime/trace", "hash/maphash":
		return "package " + pk
	case "time":
		switch name {
		case "time.Now", "time.Since", "time.Until", "time.Sleep", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc", "time.LoadLocation":
			return "the clock"
		}
	case "runtime":
		switch name {
		case "runtime.KeepAlive", "runtime.Caller", "runtime.Callers", "runtime.FuncForPC":
			return ""
		}
		return "the state of the runtime"
	case "fmt":
		switch name {
		case "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Scan", "fmt.Scanln", "fmt.Scanf":
			return "standard input or output"
		}
	}
	return ""
}

var mutators = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "maps.Copy": true, "maps.DeleteFunc": true,
	"slices.Delete": true, "slices.DeleteFunc": true, "slices.Insert": true, "slices.Replace": true, "slices.Compact": true, "slices.CompactFunc": true,
	"(*sync.Map).Store": true, "(*sync.Map).LoadOrStore": true, "(*sync.Map).Swap": true, "(*sync.Map).CompareAndSwap": true, "(*sync.Map).Delete": true, "(*sync.Map).LoadAndDelete": true, "(*sync.Map).Clear": true,
	"(*regexp.Regexp).Longest": true}

func libMutates(name string) bool {
	if mutators[name] {
		return true
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		return !strings.Contains(name, "Load")
	}
	for _, p := range []string{"(*strings.Builder).Write", "(*strings.Builder).Reset", "(*strings.Builder).Grow", "(*bytes.Buffer).Write", "(*bytes.Buffer).Read", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate", "(*bytes.Buffer).Next",
		"(*container/list.List).Push", "(*container/list.List).Remove", "(*container/list.List).Init", "(*container/list.List).Insert", "(*container/list.List).Move", "(*strings.Reader).Read", "(*strings.Reader).Reset", "(*text/scanner.Scanner).", "(*bufio.Scanner).", "(*bufio.Reader).Re"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *effects) c19() {
	tags := []string{"C19"}
	root := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok {
			return g
		}
		return x.rooted[v]
	}
	for _, f := range x.order {
		if f.Name() == "init" && f.Signature.Recv() == nil || x.once[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					x.find("effect", in.Pos(), f, tags, "starts a goroutine")
				case *ssa.Select:
					x.find("effect", in.Pos(), f, tags, "waits on channels (the outcome depends on the schedule)")
				case *ssa.Store:
					if g := root(in.Addr); g != nil {
						x.find("effect", in.Pos(), f, tags, "writes memory of package-level variable %s", g.String())
					}
				case *ssa.MapUpdate:
					if g := root(in.Map); g != nil {
						x.find("effect", in.Pos(), f, tags, "writes the map of package-level variable %s", g.String())
					}
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						x.mapOrder(f, in)
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				x.sites++
				cc := c.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if g := root(cc.Args[0]); g != nil && isTruncated(cc.Args[0]) {
							x.find("effect", in.Pos(), f, tags, "appends into the memory of package-level variable %s", g.String())
						}
					case "copy", "delete", "clear":
						if g := root(cc.Args[0]); g != nil {
							x.find("effect", in.Pos(), f, tags, "%s changes the memory of package-level variable %s", bi.Name(), g.String())
						}
					case "print", "println":
						x.find("effect", in.Pos(), f, tags, "writes to standard error")
					}
					continue
				}
				name := calleeName(cc)
				if fn := cc.StaticCallee(); fn != nil && inRepo(fn) || name == "" {
					continue
				}
				if w := ambient(name); w != "" {
					x.find("effect", in.Pos(), f, tags, "calls %s (%s)", name, w)
				}
				if libMutates(name) && len(cc.Args) > 0 {
					if g := root(cc.Args[0]); g != nil {
						x.find("effect", in.Pos(), f, tags, "%s changes package-level variable %s", name, g.String())
					}
				}
				// package-level state of the library used as a source
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
						x.find("effect", in.Pos(), f, tags, "uses %s", g.String())
					}
				}
			}
		}
	}
}

// mapOrder: the iteration order of a map must not reach a result.
func (x *effects) mapOrder(f *ssa.Function, rg *ssa.Range) {
	tags := []string{"C19"}
	// the values of the iteration
	flow := map[ssa.Value]bool{}
	var nexts []*ssa.Next
	for _, r := range *rg.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			nexts = append(nexts, n)
			for _, e := range *n.Referrers() {
				if ex, ok := e.(*ssa.Extract); ok && ex.Index > 0 {
					flow[ex] = true
				}
			}
		}
	}
	if len(nexts) == 0 || len(flow) == 0 {
		return
	}
	head := nexts[0].Block()
	loop := naturalLoop(head)
	for changed := true; changed; {
		changed = false
		for b := range loop {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || flow[v] {
					continue
				}
				switch in.(type) {
				case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Field, *ssa.Call, *ssa.Phi, *ssa.Extract, *ssa.UnOp, *ssa.Slice:
				default:
					continue
				}
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						continue
					}
				}
				if bo, ok := in.(*ssa.BinOp); ok {
					switch bo.Op {
					case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
						continue
					}
				}
				if ph, ok := in.(*ssa.Phi); ok && ph.Block() == head {
					continue
				}
				for _, op := range in.Operands(nil) {
					if flow[*op] {
						flow[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	stored := func(v ssa.Value) bool { // stored into a varargs array?
		return flow[v]
	}
	for b := range loop {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				bi, ok := in.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				dep := false
				if sl, ok := in.Call.Args[1].(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok {
						for _, r := range *al.Referrers() {
							if ia, ok := r.(*ssa.IndexAddr); ok {
								for _, r2 := range *ia.Referrers() {
									if st, ok := r2.(*ssa.Store); ok && stored(st.Val) {
										dep = true
									}
								}
							}
						}
					}
				}
				if flow[in.Call.Args[1]] {
					dep = true
				}
				if dep && !sortedLater(f, in) {
					x.find("effect", in.Pos(), f, tags, "builds a list in the iteration order of a map")
				}
			case *ssa.BinOp:
				if in.Op == token.ADD && isStrType(in.Type()) && (flow[in.X] || flow[in.Y]) {
					for _, r := range *in.Referrers() {
						if ph, ok := r.(*ssa.Phi); ok && ph.Block() == head {
							x.find("effect", in.Pos(), f, tags, "builds a text in the iteration order of a map")
						}
					}
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if flow[r] && !guardedByEq(in.Block(), flow, loop) {
						x.find("effect", in.Pos(), f, tags, "returns the first match in the iteration order of a map")
					}
				}
			}
		}
		// leaving the loop by return from a block outside the natural loop
		for _, s := range b.Succs {
			if loop[s] || s == nil {
				continue
			}
			for _, in := range s.Instrs {
				if rt, ok := in.(*ssa.Return); ok && len(s.Preds) == 1 {
					for _, r := range rt.Results {
						if flow[r] && !guardedByEq(s, flow, loop) {
							x.find("effect", in.Pos(), f, tags, "returns the first match in the iteration order of a map")
						}
					}
				}
			}
		}
	}
}

// guardedByEq: the block is entered only if a value of the iteration equals
// something (the match is unique because keys are).
func guardedByEq(b *ssa.BasicBlock, flow map[ssa.Value]bool, loop map[*ssa.BasicBlock]bool) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			p := d.Preds[0]
			if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d) && (flow[bo.X] || flow[bo.Y]) {
					return true
				}
			}
		}
	}
	return false
}

func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) && !loop[p] {
			loop[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !loop[p] {
				loop[p] = true
				work = append(work, p)
			}
		}
	}
	return loop
}

func sortedLater(f *ssa.Function, ap *ssa.Call) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				n := calleeName(c.Common())
				if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- results

func isResultType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/internal/types" {
		return false
	}
	_, ok = n.Underlying().(*types.Struct)
	return ok
}

func containsResult(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.Slice:
		return containsResult(u.Elem())
	case *types.Pointer:
		return containsResult(u.Elem())
	case *types.Array:
		return containsResult(u.Elem())
	}
	return isResultType(t)
}

// resultAddr: address of a part of a value of the table model.
func resultAddr(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return isResultType(a.X.Type()) || resultAddr(a.X)
	case *ssa.IndexAddr:
		return containsResult(a.X.Type())
	}
	return false
}

func (x *effects) c22() {
	tags := []string{"C22"}
	root := func(v ssa.Value) *ssa.Global {
		if g := x.rooted[v]; g != nil && !x.empty[g] {
			return g
		}
		return nil
	}
	x.emptyGlobals()
	for _, f := range x.order {
		if f.Name() == "init" && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !resultAddr(in.Addr) || !hasRef(in.Val.Type()) {
						continue
					}
					if _, isIf := in.Val.Type().Underlying().(*types.Interface); isIf {
						if mi, ok := in.Val.(*ssa.MakeInterface); !ok || !hasRef(mi.X.Type()) {
							continue
						}
					}
					if g := root(in.Val); g != nil {
						x.find("share", in.Pos(), f, tags, "puts memory of package-level variable %s into a result", g.String())
					}
					if why := x.reused(in.Val, 0, map[ssa.Value]bool{}); why != "" {
						x.find("share", in.Pos(), f, tags, "puts a reused buffer into a result (%s)", why)
					}
				case *ssa.Return:
					if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath {
						continue
					}
					for _, r := range in.Results {
						if containsResult(r.Type()) {
							if g := root(r); g != nil {
								x.find("share", in.Pos(), f, tags, "returns memory of package-level variable %s", g.String())
							}
						}
					}
				}
			}
		}
		x.twice(f)
	}
}

// emptyGlobals: variables that only ever hold an empty list (no memory).
func (x *effects) emptyGlobals() {
	x.empty = map[*ssa.Global]bool{}
	for _, sp := range x.P.Pkgs {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			if av, ok := x.P.globals[g].(Slice); ok && av.hi == av.lo && !av.shared {
				if o := x.P.globalObjs[-min(av.obj, 0)]; o != nil {
					if l, ok := o.v.(*ArrV); ok && len(l.elems) == 0 && !x.madeWithCap(g) {
						x.empty[g] = true
					}
				}
			}
			if _, ok := x.P.globals[g].(NilV); ok {
				x.empty[g] = true
			}
		}
	}
	for _, f := range x.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && f.Name() != "init" {
					if g, ok := st.Addr.(*ssa.Global); ok {
						delete(x.empty, g)
					}
				}
			}
		}
	}
}

func (x *effects) madeWithCap(g *ssa.Global) bool {
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					switch v := st.Val.(type) {
					case *ssa.MakeSlice:
						return true
					case *ssa.Slice:
						if al, ok := v.X.(*ssa.Alloc); ok {
							if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
								return false
							}
						}
						return true
					}
				}
			}
		}
	}
	return false
}

// reused: v was built by appending into the truncated buffer of a longer-lived
// place (a struct field outside the model, a captured variable, or a list of
// an earlier round of a loop).
func (x *effects) reused(v ssa.Value, d int, seen map[ssa.Value]bool) string {
	if d > 30 || seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.ChangeType:
		return x.reused(v.X, d+1, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if w := x.reused(e, d+1, seen); w != "" {
				return w
			}
		}
	case *ssa.Slice:
		if v.Max != nil {
			return ""
		}
		if k, ok := v.High.(*ssa.Const); ok && v.Low == nil && !isPtrToArray(v.X.Type()) && k.Value != nil && k.Int64() == 0 {
			if where := longLived(v.X, v.Block()); where != "" {
				return x.P.posOf(v.Pos()) + ": " + where + " truncated and filled again"
			}
		}
		if _, isSl := v.X.Type().Underlying().(*types.Slice); isSl && v.Low != nil {
			if _, ok := v.Low.(*ssa.Const); !ok {
				if where := longLived(v.X, v.Block()); where != "" {
					return x.P.posOf(v.Pos()) + ": part of " + where + ", with the room behind it"
				}
			}
		}
		if !isPtrToArray(v.X.Type()) {
			return x.reused(v.X, d+1, seen)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				return x.reused(v.Call.Args[0], d+1, seen)
			}
			return ""
		}
		for _, t := range x.targets(v) {
			if !inRepo(t) {
				continue
			}
			for _, b := range t.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if w := x.reused(r.Results[0], d+1, seen); w != "" {
						return w
					}
				}
			}
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			for _, t := range x.targets(c) {
				if !inRepo(t) {
					continue
				}
				for _, b := range t.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && v.Index < len(r.Results) {
						if w := x.reused(r.Results[v.Index], d+1, seen); w != "" {
							return w
						}
					}
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return ""
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			// what is stored in that field
			if isResultType(a.X.Type()) {
				return ""
			}
			k := effField(a.X.Type(), a.Field)
			for _, f := range x.order {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok {
							if fa, ok := st.Addr.(*ssa.FieldAddr); ok && effField(fa.X.Type(), fa.Field) == k {
								if w := x.reused(st.Val, d+1, seen); w != "" {
									return w
								}
							}
						}
					}
				}
			}
		case *ssa.Alloc, *ssa.FreeVar:
			if a.Referrers() == nil {
				return ""
			}
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a.(ssa.Value) {
					if w := x.reused(st.Val, d+1, seen); w != "" {
						return w
					}
				}
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		i := -1
		for j, p := range f.Params {
			if p == v {
				i = j
			}
		}
		for _, c := range x.calls[f] {
			args := c.Common().Args
			if c.Common().IsInvoke() {
				args = append([]ssa.Value{c.Common().Value}, args...)
			}
			if i >= 0 && i < len(args) {
				if w := x.reused(args[i], d+1, seen); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func isPtrToArray(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// longLived: v is read from a place that outlives this use.
func longLived(v ssa.Value, at *ssa.BasicBlock) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				if !isResultType(a.X.Type()) {
					return "a struct field"
				}
			case *ssa.FreeVar:
				return "a captured variable"
			case *ssa.Global:
				return "a package-level variable"
			}
		}
	case *ssa.Phi:
		// a list carried round a loop
		for i, e := range v.Edges {
			_ = e
			if v.Block().Dominates(v.Block().Preds[i]) && naturalLoop(v.Block())[at] {
				return "a list of an earlier round of the loop"
			}
		}
	}
	return ""
}

// twice: one list is put into two places of results.
func (x *effects) twice(f *ssa.Function) {
	tags := []string{"C22"}
	type put struct {
		st   *ssa.Store
		root ssa.Value
	}
	var puts []put
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !resultAddr(st.Addr) {
				continue
			}
			v := st.Val
			for {
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
					continue
				}
				break
			}
			if _, ok := v.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			switch y := v.(type) {
			case *ssa.Const:
				continue
			case *ssa.Slice:
				if al, ok := y.X.(*ssa.Alloc); ok {
					if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && at.Len() == 0 {
						continue
					}
				}
			case *ssa.UnOp:
				// a read of another place: a move between records, unless
				// both records are part of the results
				if x.keptTwice(f, y, st) {
					x.find("share", st.Pos(), f, tags, "the list of one place of the results is put into another")
				}
				continue
			}
			puts = append(puts, put{st, v})
		}
	}
	for i := range puts {
		for j := range puts {
			a, b := puts[i], puts[j]
			if a.root != b.root {
				continue
			}
			def, _ := a.root.(ssa.Instruction)
			if i == j {
				// a store in a loop that does not contain the definition
				if !reaches(a.st, a.st, def) || !freshTarget(a.st.Addr, a.st, def) {
					continue
				}
			} else {
				if sameAddr(a.st.Addr, b.st.Addr) || !reaches(a.st, b.st, def) {
					continue
				}
			}
			if !escapes(a.st.Addr) || !escapes(b.st.Addr) {
				continue
			}
			x.find("share", b.st.Pos(), f, tags, "the same list is put into two places of the results (also at %s)", x.P.posOf(a.st.Pos()))
		}
	}
}

// keptTwice: the list read by u from a place of the results is stored by st
// into another place, and the first one keeps it.
func (x *effects) keptTwice(f *ssa.Function, u *ssa.UnOp, st *ssa.Store) bool {
	if u.Op != token.MUL || !resultAddr(u.X) || sameAddr(u.X, st.Addr) {
		return false
	}
	base := func(a ssa.Value) ssa.Value {
		for {
			fa, ok := a.(*ssa.FieldAddr)
			if !ok {
				return a
			}
			a = fa.X
		}
	}
	from, to := base(u.X), base(st.Addr)
	if _, ok := from.(*ssa.Alloc); !ok && from != to {
		return false
	}
	if !escapes(u.X) || !escapes(st.Addr) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s2, ok := in.(*ssa.Store); ok && s2 != st && reaches(u, s2, nil) {
				for a := u.X; ; {
					if sameAddr(a, s2.Addr) {
						return false
					}
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					a = fa.X
				}
			}
		}
	}
	return true
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && fa.Field == fb.Field && sameAddr(fa.X, fb.X)
}

// freshTarget: each round of the loop stores into another record.
func freshTarget(addr ssa.Value, st ssa.Instruction, def ssa.Instruction) bool {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
		case *ssa.Alloc:
			// allocated again, or copied out, between two rounds
			return a.Heap && reachesInstr(st, a, def) || copiedOut(a)
		case *ssa.IndexAddr:
			return true
		default:
			return false
		}
	}
}

func copiedOut(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			for _, q := range *u.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Val == u {
					return true
				}
			}
		}
	}
	return false
}

// escapes: the record holding addr leaves the function or enters another.
func escapes(addr ssa.Value) bool {
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			addr = a.X
			continue
		case *ssa.Alloc:
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.UnOp:
					if r.Op == token.MUL {
						for _, q := range *r.Referrers() {
							switch q := q.(type) {
							case *ssa.Store:
								if resultAddr(q.Addr) || isVarargs(q.Addr) {
									return true
								}
							case *ssa.Return:
								return true
							}
						}
					}
				case *ssa.Return:
					return true
				}
			}
			return false
		}
		return true
	}
}

func isVarargs(a ssa.Value) bool {
	_, ok := a.(*ssa.IndexAddr)
	return ok
}

// reaches: control can get from just after a to b without passing def.
func reaches(a, b ssa.Instruction, def ssa.Instruction) bool { return reachesInstr(a, b, def) }

func reachesInstr(a, b ssa.Instruction, def ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(bl *ssa.BasicBlock, from int) bool
	walk = func(bl *ssa.BasicBlock, from int) bool {
		for i := from; i < len(bl.Instrs); i++ {
			if bl.Instrs[i] == def {
				return false
			}
			if bl.Instrs[i] == b {
				return true
			}
		}
		for _, s := range bl.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return walk(a.Block(), i+1)
		}
	}
	return false
}

func runEffects(P *Program) *Result {
	t0 := time.Now()
	x := &effects{P: P, r: &Result{Name: "effects", Stage: "effects"}, reach: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, once: map[*ssa.Function]bool{}}
	x.reachable()
	for _, f := range x.order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range x.targets(c) {
					x.calls[t] = append(x.calls[t], c)
				}
				if n := calleeName(c.Common()); n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.Once") {
					for _, a := range c.Common().Args {
						switch a := a.(type) {
						case *ssa.Function:
							x.once[a] = true
						case *ssa.MakeClosure:
							x.once[a.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	x.flow()
	x.c19()
	x.c22()
	for _, f := range x.order {
		x.r.Funcs = append(x.r.Funcs, f.String())
	}
	x.r.Sites = x.sites
	x.r.States = len(x.rooted)
	x.r.Elapsed = time.Since(t0)
	return x.r
}
