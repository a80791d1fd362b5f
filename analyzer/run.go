package main

import (
	"fmt"
	"go/types"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

var dialects = []string{"SQLite", "PostgreSQL", "MySQL"}

type Result struct {
	Name     string
	Stage    string
	Rdbms    string
	Findings []*Finding
	Funcs    []string
	Sites    int
	States   int
	Short    int // states of the pass over short inputs
	Steps    int
	Fetches  int
	Exits    int
	Branches int
	Alphabet int
	Acts     int
	Notes    map[string]int
	Accepted int
	Rejected int
	Elapsed  time.Duration
	decided  bool
}

func (e *Engine) result(stage, rdbms string, t0 time.Time) *Result {
	r := &Result{Name: e.name, Stage: stage, Rdbms: rdbms, Findings: e.findings, Sites: len(e.callSites), States: e.states, Steps: e.steps,
		Fetches: e.fetches, Exits: e.exits, Branches: len(e.branches), Alphabet: len(e.an.reps), Acts: len(e.actList), Notes: e.notes, Elapsed: time.Since(t0)}
	for f := range e.funcs {
		r.Funcs = append(r.Funcs, f.String())
	}
	sort.Strings(r.Funcs)
	return r
}

type opts struct {
	debug    bool
	deadline time.Time
	thorough bool
	kinds    int    // constraint kinds per column
	tkinds   int    // kinds of table constraints per table
	depth    int    // bracket nesting
	as       string // dialect given to the constructor (default: that of the specification)
}

func (o opts) ctor(rdbms string) string {
	if o.as != "" {
		return o.as
	}
	return rdbms
}

// checkErr compares an error result with the expected one.
func (e *Engine) checkErr(st *State, ifc *Iface, slot int, alt int) {
	fn := st.act.fn
	if typeKey(ifc.t) != modPath+"/internal/common.ValidateError" {
		e.find(st, "errtype", fn.Pos(), nil, "the error of an illegal input is a %s, not a ValidateError", typeKey(ifc.t))
		return
	}
	sv, ok := ifc.v.(*Struct)
	if !ok {
		e.findV(st, ifc.v, "errpos", fn.Pos(), nil, "the error value is not determined")
		return
	}
	named := ifc.t.(*types.Named).Underlying().(*types.Struct)
	var line, near Val = Unknown{}, Unknown{}
	for i := 0; i < named.NumFields(); i++ {
		switch named.Field(i).Name() {
		case "Line":
			line = sv.f[i]
		case "Near":
			near = sv.f[i]
		}
	}
	match := func(k int) bool {
		return e.mustEq(st, line, st.ss.slots[k]) && e.mustEq(st, near, st.ss.slots[k+1])
	}
	if match(slot) {
		return
	}
	if alt >= 0 && st.ss.slots[alt] != nil {
		if _, isNil := st.ss.slots[alt].(NilV); !isNil && match(alt) {
			return
		}
	}
	where := ""
	if k := st.ss.cfg[5]; k > 0 {
		where = " " + e.spec.describe(Cfg{k - 1})
	}
	if st.ss.dead == 1 && st.ss.end > st.ss.deadPos+1 && !e.mustEq(st, near, st.ss.slots[slot+1]) {
		e.findV(st, near, "passed", fn.Pos(), e.deadTags(st), "the illegal token %s is passed over%s", e.showVal(st, st.ss.slots[slot+1]), where)
		return
	}
	if !e.mustEq(st, near, st.ss.slots[slot+1]) {
		e.findV(st, near, "errpos", fn.Pos(), nil, "error names %s, expected %s", e.showVal(st, near), e.showVal(st, st.ss.slots[slot+1]))
		return
	}
	e.findV(st, line, "errpos", fn.Pos(), nil, "error at %s has the wrong line (%v, expected %v, relative)", e.showVal(st, near), line, st.ss.slots[slot])
}

func (e *Engine) stageExit(okOut func(st *State, out Val)) func(*Engine, *State) {
	return func(_ *Engine, st *State) {
		fn := st.act.fn
		if len(st.rets) != 2 {
			e.find(st, "undecided", fn.Pos(), nil, "unexpected number of results")
			return
		}
		ifc, bad, known := isErr(st.rets[1])
		if !known {
			c := *st
			c.taint = true
			e.find(&c, "undecided", fn.Pos(), nil, "error result is not determined")
			return
		}
		if st.ss == nil {
			e.find(st, "accept", fn.Pos(), nil, "returns without looking at the input")
			return
		}
		if bad {
			e.nbad++
			if st.ss.dead == 0 {
				e.find(st, "reject", fn.Pos(), e.outTags(st), "rejects a legal input (%s)", e.spec.describe(st.ss.cfg))
				return
			}
			e.checkErr(st, ifc, lsErr, lsErr+2)
			return
		}
		if st.ss.dead != 0 {
			e.find(st, "accept", fn.Pos(), e.deadTags(st), "accepts an input that is illegal at %s", e.showVal(st, st.ss.slots[lsErr+1]))
			return
		}
		if !st.ss.eof {
			e.find(st, "accept", fn.Pos(), e.outTags(st), "succeeds before the end of the input (%s)", e.spec.describe(st.ss.cfg))
			return
		}
		e.nok++
		okOut(st, st.rets[0])
	}
}

func (e *Engine) deadTags(st *State) []string {
	return e.spec.tags(st.ss.cfg)
}

func runLexer(P *Program, rdbms string, o opts) *Result {
	t0 := time.Now()
	pc := collectConsts(P)
	an := lexAlphabet(pc)
	pkg := P.Pkgs[modPath+"/internal/lexer"]
	var e *Engine
	for lb := 1; lb <= 3; lb++ {
		spec := newLexSpec(rdbms, an)
		e = newEngine(P, "lexer/"+rdbms, an, spec)
		e.debug = o.debug
		e.deadline = o.deadline
		e.lookback = lb
		e.dropTaint = true
		e.maxWin = 2 + lb
		ctor := pkg.Func("NewLexer")
		if ctor == nil {
			e.find(nil, "undecided", 0, nil, "lexer.NewLexer not found")
			break
		}
		outs := e.runFn(ctor, []Val{P.dialectArg(o.ctor(rdbms))}, nil)
		e.onExit = e.stageExit(func(st *State, out Val) {
			if !e.mustEq(st, out, st.ss.slots[lsOut]) {
				e.findV(st, out, "output", st.act.fn.Pos(), e.diffTags(st, out, st.ss.slots[lsOut]), "tokens %s, expected %s", e.showVal(st, out), e.showVal(st, st.ss.slots[lsOut]))
			}
		})
		e.startMethod(outs, "Lex", func(p *ssa.Parameter) Val { return StreamStr{Int(0), Len{0}} })
		e.runAll()
		if !e.lost {
			break
		}
	}
	e.finish()
	r := e.result("lexer", rdbms, t0)
	r.Accepted, r.Rejected = e.nok, e.nbad
	return r
}

func runValidator(P *Program, rdbms string, o opts) *Result {
	t0 := time.Now()
	pc := collectConsts(P)
	an := tokenAlphabet(rdbms, pc, specWords(rdbms), false)
	pkg := P.Pkgs[modPath+"/internal/validator"]
	var e *Engine
	for lb := 0; lb <= 2; lb++ {
		spec := newValSpec(rdbms, an, o.kinds, o.depth)
		e = newEngine(P, "validator/"+rdbms, an, spec)
		e.debug = o.debug
		e.deadline = o.deadline
		e.lookback = lb
		e.dropTaint = true
		e.maxWin = 6 + lb
		ctor := pkg.Func("NewValidator")
		if ctor == nil {
			e.find(nil, "undecided", 0, nil, "validator.NewValidator not found")
			break
		}
		outs := e.runFn(ctor, []Val{P.dialectArg(o.ctor(rdbms))}, nil)
		e.onExit = e.stageExit(func(st *State, out Val) {
			if !e.mustEq(st, out, st.ss.slots[vsOut]) {
				e.findV(st, out, "output", st.act.fn.Pos(), e.diffTags(st, out, st.ss.slots[vsOut]), "passes on %s, expected %s", e.showVal(st, out), e.showVal(st, st.ss.slots[vsOut]))
			}
		})
		e.startMethod(outs, "Validate", func(p *ssa.Parameter) Val { return Stream{Int(0), Len{0}} })
		e.runAll()
		if !e.lost {
			break
		}
	}
	e.finish()
	r := e.result("validator", rdbms, t0)
	r.Accepted, r.Rejected = e.nok, e.nbad
	return r
}

func (e *Engine) startMethod(outs []*State, name string, arg func(*ssa.Parameter) Val) {
	for _, st := range outs {
		if len(st.rets) != 1 {
			e.find(st, "undecided", st.act.fn.Pos(), nil, "constructor has an unexpected result")
			continue
		}
		ifc, ok := st.rets[0].(*Iface)
		var recv Val
		var t types.Type
		if ok {
			recv, t = ifc.v, ifc.t
		} else {
			recv, t = st.rets[0], st.act.fn.Signature.Results().At(0).Type()
		}
		m := methodOf(e.P, t, name)
		if m == nil {
			e.find(st, "undecided", st.act.fn.Pos(), nil, "method %s of the constructed value not found", name)
			continue
		}
		e.typing = buildTyping(e.P, []*ssa.Parameter{m.Params[1]})
		e.start(m, []Val{recv, arg(m.Params[1])}, append([]*Obj(nil), st.heap...), true)
	}
}

func (e *Engine) finish() {
	if e.stop {
		return
	}
	for _, c := range e.cycles() {
		f := &Finding{Kind: "nonterm", Pos: c, Msg: e.name + ": the analysis found a loop that consumes no input: " + c}
		if c[0] == '?' {
			f.Maybe = true
		}
		e.findings = append(e.findings, f)
	}
}

func (r *Result) print() {
	fmt.Printf("== %s: states=%d steps=%d acts=%d fetches=%d exits=%d ok=%d bad=%d funcs=%d alphabet=%d %v\n", r.Name, r.States, r.Steps, r.Acts, r.Fetches, r.Exits, r.Accepted, r.Rejected, len(r.Funcs), r.Alphabet, r.Elapsed.Round(time.Millisecond))
	for n, c := range r.Notes {
		fmt.Printf("   note %s x%d\n", n, c)
	}
	for i, f := range r.Findings {
		if i >= 60 {
			fmt.Printf("   ... %d more\n", len(r.Findings)-i)
			break
		}
		fmt.Printf("   %s maybe=%v %s tags=%v\n      %s\n      path %v\n", f.Kind, f.Maybe, f.Pos, f.Tags, f.Msg, f.Path)
	}
}
