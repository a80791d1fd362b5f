package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// typing classifies integer variables of the repository: positions in the
// input stream, line counters, indices of other lists, plain counters.
// Flow-insensitive unification over registers, fields and cells.
type typing struct {
	par  map[any]any
	pos  map[any]bool
	line map[any]bool
	idx  map[any]bool
	maxc map[any]int64
	strm map[any]bool
}

type fieldKey struct {
	t string
	i int
}
type resKey struct {
	f *ssa.Function
	i int
}

func (t *typing) find(x any) any {
	for {
		p, ok := t.par[x]
		if !ok || p == x {
			return x
		}
		if pp, ok := t.par[p]; ok {
			t.par[x] = pp
		}
		x = p
	}
}

func (t *typing) union(a, b any) {
	if a == nil || b == nil {
		return
	}
	ra, rb := t.find(a), t.find(b)
	if ra != rb {
		t.par[ra] = rb
	}
}

func (t *typing) node(v ssa.Value) any {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		return fieldKey{types.TypeString(st, nil), v.Field}
	case *ssa.Field:
		return fieldKey{types.TypeString(v.X.Type(), nil), v.Field}
	}
	return v
}

func buildTyping(P *Program, streamParams []*ssa.Parameter) *typing {
	t := &typing{par: map[any]any{}, pos: map[any]bool{}, line: map[any]bool{}, idx: map[any]bool{}, maxc: map[any]int64{}, strm: map[any]bool{}}
	type seed struct {
		kind string
		n    any
		sl   any
		c    int64
	}
	var seeds []seed
	for _, f := range P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Phi:
					for _, x := range in.Edges {
						t.union(in, t.node(x))
					}
				case *ssa.UnOp:
					if in.Op == token.MUL {
						t.union(in, t.node(in.X))
					}
				case *ssa.Store:
					t.union(t.node(in.Addr), t.node(in.Val))
				case *ssa.Field:
					t.union(in, t.node(in))
				case *ssa.ChangeType:
					t.union(in, t.node(in.X))
				case *ssa.Convert:
					t.union(in, t.node(in.X))
				case *ssa.BinOp:
					switch in.Op {
					case token.ADD, token.SUB:
						_, cx := in.X.(*ssa.Const)
						_, cy := in.Y.(*ssa.Const)
						if cy && isInt(in.X.Type()) {
							t.union(in, t.node(in.X))
						}
						if cx && isInt(in.X.Type()) {
							t.union(in, t.node(in.Y))
						}
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
						if c, ok := in.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							if n, ok := constant.Int64Val(c.Value); ok {
								seeds = append(seeds, seed{"cmp", t.node(in.X), nil, n})
							}
						}
						if c, ok := in.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
							if n, ok := constant.Int64Val(c.Value); ok {
								seeds = append(seeds, seed{"cmp", t.node(in.Y), nil, n})
							}
						}
					}
				case *ssa.IndexAddr:
					seeds = append(seeds, seed{"index", t.node(in.Index), t.node(in.X), 0})
				case *ssa.Index:
					seeds = append(seeds, seed{"index", t.node(in.Index), t.node(in.X), 0})
				case *ssa.Lookup:
					seeds = append(seeds, seed{"index", t.node(in.Index), t.node(in.X), 0})
				case *ssa.Slice:
					t.union(in, t.node(in.X))
					for _, x := range []ssa.Value{in.Low, in.High} {
						if x != nil {
							seeds = append(seeds, seed{"index", t.node(x), t.node(in.X), 0})
						}
					}
				case *ssa.MakeClosure:
					fn := in.Fn.(*ssa.Function)
					for i, b := range in.Bindings {
						t.union(fn.FreeVars[i], t.node(b))
					}
				case *ssa.Return:
					for i, r := range in.Results {
						t.union(resKey{f, i}, t.node(r))
					}
				case *ssa.Extract:
					if c, ok := in.Tuple.(*ssa.Call); ok {
						if g := c.Call.StaticCallee(); g != nil {
							t.union(in, resKey{g, in.Index})
						}
					}
					if nx, ok := in.Tuple.(*ssa.Next); ok && in.Index == 1 {
						if r, ok := nx.Iter.(*ssa.Range); ok {
							seeds = append(seeds, seed{"index", in, t.node(r.X), 0})
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if g := cc.StaticCallee(); g != nil {
						for i, a := range cc.Args {
							if i < len(g.Params) {
								t.union(g.Params[i], t.node(a))
							}
						}
						if v, ok := in.(*ssa.Call); ok && g.Signature.Results().Len() == 1 {
							t.union(v, resKey{g, 0})
						}
					}
				}
			}
		}
	}
	for _, p := range streamParams {
		t.strm[t.find(p)] = true
	}
	ve := P.Pkgs[modPath+"/internal/common"].Type("ValidateError")
	if ve != nil {
		st, _ := ve.Type().Underlying().(*types.Struct)
		if st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Line" {
					t.line[t.find(fieldKey{types.TypeString(ve.Type(), nil), i})] = true
				}
			}
		}
	}
	for _, s := range seeds {
		if s.n == nil {
			continue
		}
		r := t.find(s.n)
		switch s.kind {
		case "cmp":
			if s.c > t.maxc[r] && s.c <= 200 {
				t.maxc[r] = s.c
			}
		case "index":
			t.idx[r] = true
			if s.sl != nil && t.strm[t.find(s.sl)] {
				t.pos[r] = true
			}
		}
	}
	return t
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (t *typing) isPos(n any) bool  { return n != nil && t.pos[t.find(n)] }
func (t *typing) isLine(n any) bool { return n != nil && t.line[t.find(n)] }
func (t *typing) isIdx(n any) bool  { return n != nil && t.idx[t.find(n)] }
func (t *typing) max(n any) int64   { return t.maxc[t.find(n)] }
