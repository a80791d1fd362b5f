package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dialectArg is the value of the exported constant that names the dialect.
func (P *Program) dialectArg(d string) Val {
	if c, ok := P.TPkgs[modPath].Types.Scope().Lookup(d).(*types.Const); ok {
		switch c.Val().Kind() {
		case constant.String:
			return Str(constant.StringVal(c.Val()))
		case constant.Int:
			n, _ := constant.Int64Val(c.Val())
			return Int(n)
		}
	}
	return Str(d)
}

// The glue analysis interprets the exported functions with the three stages
// replaced by their contracts: each stage of each dialect succeeds, fails, or
// (for the empty text) yields nothing. All combinations are enumerated.

type glue struct {
	P    *Program
	r    *Result
	refs map[string]map[string]string // stage -> dialect -> key of the constructed value
	meth map[*ssa.Function]string     // entry methods of the stages
	runs int
}

var gluStages = []struct{ pkg, ctor, method string }{
	{"lexer", "NewLexer", "Lex"}, {"validator", "NewValidator", "Validate"}, {"converter", "NewConverter", "Convert"},
}

func deepKey(e *Engine, st *State, v Val, d int) string {
	if d > 12 {
		return "..."
	}
	switch v := v.(type) {
	case Ptr:
		o := e.obj(st, v.obj)
		if o == nil {
			return "?"
		}
		return "&" + v.path + deepKey(e, st, o.v, d+1)
	case *Struct:
		s := "{"
		if v.t != nil {
			s = typeKey(v.t) + s
		}
		for _, f := range v.f {
			s += deepKey(e, st, f, d+1) + ";"
		}
		return s + "}"
	case *Iface:
		return typeKey(v.t) + ":" + deepKey(e, st, v.v, d+1)
	case Slice:
		o := e.obj(st, v.obj)
		if o == nil {
			return "?"
		}
		if av, ok := o.v.(*ArrV); ok {
			s := "["
			for _, x := range av.elems[v.lo:v.hi] {
				s += deepKey(e, st, x, d+1) + ","
			}
			return s + "]"
		}
		return "?"
	case *Opaque:
		return "opaque " + v.name
	case FuncV:
		return "func " + v.fn.String()
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (g *glue) find(kind string, pos token.Pos, fn *ssa.Function, maybe bool, tags []string, f string, a ...any) {
	name := ""
	if fn != nil {
		name = fn.String()
		if !pos.IsValid() {
			pos = fn.Pos()
		}
	}
	fd := &Finding{Kind: kind, Pos: g.P.posOf(pos) + " (" + name + ")", Msg: "glue: " + fmt.Sprintf(f, a...), Tags: tags, Maybe: maybe}
	for _, h := range g.r.Findings {
		if h.Pos == fd.Pos && h.Msg == fd.Msg {
			return
		}
	}
	g.r.Findings = append(g.r.Findings, fd)
}

func (g *glue) engine() *Engine {
	e := newEngine(g.P, "glue", newAlphabet([]string{"x"}, false), nil)
	e.deadline = time.Now().Add(20 * time.Second)
	e.maxStates = 20000
	return e
}

func (g *glue) constructors() {
	g.refs = map[string]map[string]string{}
	g.meth = map[*ssa.Function]string{}
	for _, s := range gluStages {
		pkg := g.P.Pkgs[modPath+"/internal/"+s.pkg]
		f := pkg.Func(s.ctor)
		if f == nil {
			g.find("undecided", 0, nil, true, nil, "%s.%s not found", s.pkg, s.ctor)
			continue
		}
		g.refs[s.pkg] = map[string]string{}
		for _, d := range dialects {
			e := g.engine()
			outs := e.runFn(f, []Val{g.P.dialectArg(d)}, nil)
			g.runs++
			if len(outs) != 1 || len(outs[0].rets) != 1 {
				g.find("undecided", f.Pos(), f, true, nil, "%s has no single outcome", s.ctor)
				continue
			}
			v := outs[0].rets[0]
			t := f.Signature.Results().At(0).Type()
			if ifc, ok := v.(*Iface); ok {
				v, t = ifc.v, ifc.t
			}
			g.refs[s.pkg][d] = deepKey(e, outs[0], v, 0)
			if m := methodOf(g.P, t, s.method); m != nil {
				g.meth[m] = s.pkg
			}
		}
	}
}

// outcome of a dialect: 0 the text is rejected by the lexer, 1 by the
// validator, 2 accepted, 3 accepted and empty at every stage.
var outcomeName = []string{"tokenising fails", "validation fails", "accepted", "accepted (nothing in it)"}

type gluRun struct {
	g      *glue
	e      *Engine
	entry  *ssa.Function
	out    map[string]int
	called []string
}

func (r *gluRun) say() string {
	var p []string
	for _, d := range dialects {
		if o, ok := r.out[d]; ok {
			p = append(p, d+": "+outcomeName[o])
		}
	}
	return strings.Join(p, ", ")
}

func (r *gluRun) intercept(e *Engine, st *State, fn *ssa.Function, args []Val) ([]*State, [][]Val, bool) {
	stage, ok := r.g.meth[fn]
	if !ok || len(args) != 2 {
		return nil, nil, false
	}
	g := r.g
	k := deepKey(e, st, args[0], 0)
	var ds []string
	for _, d := range dialects {
		if _, in := r.out[d]; in && g.refs[stage][d] == k {
			ds = append(ds, d)
		}
	}
	var pos token.Pos
	var call ssa.CallInstruction
	if st.blk != nil && st.idx < len(st.blk.Instrs) {
		pos = st.blk.Instrs[st.idx].Pos()
		call, _ = st.blk.Instrs[st.idx].(ssa.CallInstruction)
	}
	want := map[string]string{"lexer": "ddl", "validator": "tokens:", "converter": "validated:"}[stage]
	arg, isO := args[1].(*Opaque)
	empty := isEmptyList(e, st, args[1])
	// the dialect the input belongs to
	from := ""
	if isO {
		if i := strings.Index(arg.name, ":"); i >= 0 {
			from = arg.name[i+1:]
		}
	}
	if len(ds) == 0 {
		for _, d := range dialects {
			if g.refs[stage][d] == k {
				g.find("glue", pos, st.act.fn, st.taint, []string{"C21"}, "%s uses the %s of dialect %s (%s)", r.entry.Name(), stage, d, r.say())
				return nil, nil, true
			}
		}
		e.havoc(st, nil, "the "+stage+" in use is none of the constructed ones")
		ds = []string{dialects[0]}
		for _, d := range dialects {
			if _, in := r.out[d]; in {
				ds = []string{d}
				break
			}
		}
	}
	d := ds[0]
	for _, x := range ds {
		if x == from {
			d = x
		}
	}
	r.called = append(r.called, stage+"/"+d)
	bad := ""
	switch {
	case isO && strings.HasPrefix(arg.name, want):
		if from != "" && from != d {
			bad = fmt.Sprintf("the %s of %s works on what was made for %s", stage, d, from)
		}
	case empty && r.out[d] == 3 && stage != "lexer":
	case isO && strings.HasPrefix(arg.name, "junk:"):
		bad = "the " + stage + " works on what a failed step left"
	case isO && (strings.HasPrefix(arg.name, "tokens:") || strings.HasPrefix(arg.name, "validated:") || arg.name == "ddl"):
		bad = fmt.Sprintf("the %s does not work on the output of the step before it (a step is skipped)", stage)
	default:
		if why := derived(call); why != "" {
			bad = fmt.Sprintf("the %s does not get its input as it is: %s", stage, why)
			tags := []string{"C21"}
			if strings.Contains(why, "Trim") {
				tags = append(tags, "C04")
			} else if stage == "lexer" {
				tags = append(tags, "C09", "C10")
			}
			g.find("glue", pos, st.act.fn, false, tags, "%s: %s", r.entry.Name(), bad)
			return nil, nil, true
		}
		if _, lit := args[1].(Str); lit {
			bad = "the " + stage + " works on a constant"
		} else {
			e.havoc(st, nil, "input of the "+stage)
		}
	}
	if bad != "" {
		g.find("glue", pos, st.act.fn, st.taint, []string{"C21"}, "%s: %s (%s)", r.entry.Name(), bad, r.say())
		return nil, nil, true
	}
	errT := g.P.TPkgs[modPath+"/internal/common"].Types.Scope().Lookup("ValidateError").Type()
	fail := func(what string) ([]*State, [][]Val, bool) {
		return []*State{st}, [][]Val{{&Opaque{name: "junk:" + d}, &Iface{t: errT, v: &Opaque{name: "err:" + d + ":" + what}}}}, true
	}
	emptyList := func() Val { return Slice{obj: st.alloc(&ArrV{}, "")} }
	switch stage {
	case "lexer":
		switch r.out[d] {
		case 0:
			return fail("lexer")
		case 3:
			return []*State{st}, [][]Val{{emptyList(), NilV{}}}, true
		}
		return []*State{st}, [][]Val{{&Opaque{name: "tokens:" + d}, NilV{}}}, true
	case "validator":
		switch r.out[d] {
		case 1:
			return fail("validator")
		case 3:
			return []*State{st}, [][]Val{{emptyList(), NilV{}}}, true
		}
		return []*State{st}, [][]Val{{&Opaque{name: "validated:" + d}, NilV{}}}, true
	}
	if r.out[d] == 3 {
		return []*State{st}, [][]Val{{emptyList()}}, true
	}
	return []*State{st}, [][]Val{{&Opaque{name: "tables:" + d}}}, true
}

func isEmptyList(e *Engine, st *State, v Val) bool {
	switch v := v.(type) {
	case NilV:
		return true
	case Slice:
		o := e.obj(st, v.obj)
		if o == nil {
			return false
		}
		av, ok := o.v.(*ArrV)
		return ok && v.lo == v.hi && av.prefix == 0 && !av.run
	}
	return false
}

// derived explains an argument that is certainly a changed text or list.
func derived(call ssa.CallInstruction) string {
	if call == nil {
		return ""
	}
	args := call.Common().Args
	if len(args) == 0 {
		return ""
	}
	switch v := args[len(args)-1].(type) {
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return "something is added to it"
		}
	case *ssa.Slice:
		if v.Low != nil || v.High != nil {
			return "only a part of it is passed on"
		}
	case *ssa.Call:
		n := calleeName(v.Common())
		if strings.HasPrefix(n, "strings.") {
			return n + " is applied to it"
		}
	}
	return ""
}

func (g *glue) run(fn *ssa.Function, args []Val, out map[string]int, check func(r *gluRun, st *State, tables Val, err *Iface)) {
	e := g.engine()
	r := &gluRun{g: g, e: e, entry: fn, out: out}
	e.intercept = r.intercept
	nf := len(g.r.Findings)
	outs := e.runFn(fn, args, nil)
	g.runs++
	for _, f := range e.findings {
		if f.Kind == "undecided" {
			f.Maybe = true
		}
		g.r.Findings = append(g.r.Findings, f)
	}
	for f := range e.funcs {
		g.addFunc(f.String())
	}
	g.r.Sites += len(e.callSites)
	g.r.States += e.states
	for n, c := range e.notes {
		if g.r.Notes == nil {
			g.r.Notes = map[string]int{}
		}
		g.r.Notes[n] += c
	}
	if len(outs) == 0 && len(g.r.Findings) == nf {
		g.find("undecided", fn.Pos(), fn, true, nil, "%s: no outcome (%s)", fn.Name(), r.say())
	}
	for _, st := range outs {
		g.r.Exits++
		if len(st.rets) != 2 {
			g.find("undecided", fn.Pos(), fn, true, nil, "unexpected number of results")
			continue
		}
		ifc, _, known := isErr(st.rets[1])
		if !known {
			g.find("undecided", fn.Pos(), fn, true, nil, "error result not determined")
			continue
		}
		check(r, st, st.rets[0], ifc)
	}
}

func (g *glue) addFunc(s string) {
	for _, f := range g.r.Funcs {
		if f == s {
			return
		}
	}
	g.r.Funcs = append(g.r.Funcs, s)
	sort.Strings(g.r.Funcs)
}

func opName(v Val) string {
	if o, ok := v.(*Opaque); ok {
		return o.name
	}
	return ""
}

func runGlue(P *Program) *Result {
	t0 := time.Now()
	g := &glue{P: P, r: &Result{Name: "glue", Stage: "glue"}}
	g.constructors()
	root := P.Pkgs[modPath]
	ddl := &Opaque{name: "ddl"}
	parse := func(fn *ssa.Function, args []Val, d string) {
		for o := range outcomeName {
			out := map[string]int{d: o}
			g.run(fn, args, out, func(r *gluRun, st *State, tables Val, err *Iface) {
				unk := st.taint || hasUnknownTop(tables)
				if o < 2 {
					if err == nil {
						g.find("glue", fn.Pos(), fn, st.taint, []string{"C03", "C21"}, "%s returns no error although %s", fn.Name(), outcomeName[o])
						return
					}
					want := "err:" + d + ":" + []string{"lexer", "validator"}[o]
					if opName(err.v) != want {
						kind := "glue"
						g.find(kind, fn.Pos(), fn, st.taint || opName(err.v) == "" && typeKey(err.t) == modPath+"/internal/common.ValidateError", []string{"C03", "C04"}, "%s replaces the error when %s", fn.Name(), outcomeName[o])
					}
					if !isEmptyList(r.e, st, tables) {
						g.find("glue", fn.Pos(), fn, unk, []string{"C03"}, "%s returns tables along with an error when %s", fn.Name(), outcomeName[o])
					}
					return
				}
				if err != nil {
					g.find("glue", fn.Pos(), fn, st.taint, []string{"C03", "C21"}, "%s returns an error although the text is %s", fn.Name(), outcomeName[o])
					return
				}
				if o == 2 && opName(tables) != "tables:"+d || o == 3 && !isEmptyList(r.e, st, tables) {
					g.find("glue", fn.Pos(), fn, unk, []string{"C21", "C11", "C03"}, "%s does not return the converted tables when the text is %s", fn.Name(), outcomeName[o])
				}
			})
		}
	}
	if f := root.Func("Parse"); f != nil && len(f.Params) == 2 {
		for _, d := range dialects {
			parse(f, []Val{ddl, P.dialectArg(d)}, d)
		}
	} else {
		g.find("undecided", 0, nil, true, nil, "Parse not found")
	}
	for _, d := range dialects {
		if f := root.Func("Parse" + d); f != nil && len(f.Params) == 1 {
			parse(f, []Val{ddl}, d)
		} else {
			g.find("undecided", 0, nil, true, nil, "Parse%s not found", d)
		}
	}
	if f := root.Func("ParseForce"); f != nil && len(f.Params) == 1 {
		n := len(outcomeName)
		for c := 0; c < n*n*n; c++ {
			out := map[string]int{dialects[0]: c % n, dialects[1]: c / n % n, dialects[2]: c / n / n}
			g.run(f, []Val{ddl}, out, func(r *gluRun, st *State, tables Val, err *Iface) {
				first := ""
				for _, d := range dialects {
					if out[d] >= 2 {
						first = d
						break
					}
				}
				unk := st.taint || hasUnknownTop(tables)
				tags := []string{"C20"}
				if first == "" {
					if err == nil {
						g.find("glue", f.Pos(), f, st.taint, []string{"C20", "C03"}, "ParseForce returns no error when no dialect accepts (%s)", r.say())
						return
					}
					if !strings.HasPrefix(opName(err.v), "err:") {
						g.find("glue", f.Pos(), f, st.taint || typeKey(err.t) == modPath+"/internal/common.ValidateError", tags, "ParseForce returns an error that no dialect gave (%s)", r.say())
					}
					if !isEmptyList(r.e, st, tables) {
						g.find("glue", f.Pos(), f, unk, []string{"C20", "C03"}, "ParseForce returns tables along with an error (%s)", r.say())
					}
					return
				}
				if err != nil {
					g.find("glue", f.Pos(), f, st.taint, []string{"C20", "C03"}, "ParseForce returns an error although %s accepts (%s)", first, r.say())
					return
				}
				if out[first] == 2 && opName(tables) != "tables:"+first || out[first] == 3 && !isEmptyList(r.e, st, tables) {
					g.find("glue", f.Pos(), f, unk, tags, "ParseForce does not return the tables of the first accepting dialect %s (%s)", first, r.say())
				}
			})
		}
	} else {
		g.find("undecided", 0, nil, true, nil, "ParseForce not found")
	}
	g.r.Acts = g.runs
	g.r.Elapsed = time.Since(t0)
	return g.r
}

func hasUnknownTop(v Val) bool {
	switch v := v.(type) {
	case Unknown, NeedFetch:
		return true
	case *Opaque:
		return !strings.Contains(v.name, ":")
	}
	return false
}
