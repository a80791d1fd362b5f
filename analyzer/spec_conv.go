package main

import (
	"go/types"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// specOp is the meaning of the specification's own functions.
func specOp(op string, a []any) any {
	s, ok := a[0].(string)
	if !ok {
		return unkT{}
	}
	switch op {
	case "spec:kw":
		if s == strings.ToLower(s) {
			return strings.ToUpper(s)
		}
		return s
	case "spec:upper":
		return strings.ToUpper(s)
	case "spec:strip":
		if len(s) < 2 {
			return unkT{}
		}
		return s[1 : len(s)-1]
	case "spec:unquote":
		if len(s) < 2 {
			return s
		}
		if strings.Contains(a[1].(string), s[:1]) {
			return s[1 : len(s)-1]
		}
		return s
	case "spec:vary":
		switch strings.ToUpper(s) {
		case "BIT":
			return "VARBIT"
		case "CHARACTER":
			return "VARCHAR"
		}
		return strings.ToUpper(s) + " VARYING"
	case "spec:int":
		n, _ := strconv.Atoi(s)
		return int64(n)
	case "spec:float":
		f, _ := strconv.ParseFloat(s, 64)
		return f
	}
	return unkT{}
}

// convSpec is the specification of the converter: what the tables are for
// every token sequence that the grammar lets through.
type convSpec struct {
	rdbms                                        string
	an                                           *Alphabet
	g                                            *Grammar
	cap                                          int // constraint kinds per column
	tcap                                         int // kinds of table constraints per table
	depth                                        int
	bounded                                      bool      // short inputs only (first pass)
	mini                                         bool      // and none of the optional parts of names, types and constraints
	tight                                        bool      // one table of two definitions only
	items                                        [][]*Bits // tokens of each leaf
	next                                         [][]cnext
	fin                                          []bool
	open, shut                                   *Bits
	inner                                        *Bits
	nums, strs                                   *Bits
	words                                        map[string]*Bits
	rest                                         *Bits
	tbl, col, dt, con, ref, tcon, pk, uq, ck, fk types.Type
}

type cnext struct {
	t   *Leaf
	cls *Bits
}

const (
	csTables = iota
	csTable
	csCols
	csPk
	csUq
	csCk
	csFk
	csCol
	csTc
	csName
	csNames
	csRef
	csRefCols
	csText
	csN
)

func (s *convSpec) newline() *Bits { return nil }

func newConvSpec(P *Program, rdbms string, an *Alphabet, cap, tcap, depth int) *convSpec {
	s := &convSpec{rdbms: rdbms, an: an, cap: cap, tcap: tcap, depth: depth, g: &Grammar{}}
	v := newVocab(rdbms, an)
	s.g.compile(an, specGrammar(rdbms, v))
	word := func(w string) *Bits {
		return an.set(func(r string) bool { return r == w || r == strings.ToLower(w) })
	}
	s.open, s.shut = word("("), word(")")
	s.inner = an.all.minus(s.open).minus(s.shut)
	s.nums = an.set(specNumber)
	s.strs = v.str
	s.words = map[string]*Bits{}
	for _, w := range []string{"NULL", "TRUE", "FALSE"} {
		s.words[w] = word(w)
	}
	for _, l := range s.g.pos {
		var it []*Bits
		if l.null {
			it = append(it, word("NOT"))
		}
		for _, w := range l.pre {
			it = append(it, word(w))
		}
		if l.emit != emNone {
			it = append(it, l.set)
		}
		s.items = append(s.items, it)
	}
	s.next = make([][]cnext, len(s.g.pos))
	s.fin = make([]bool, len(s.g.pos))
	for i := range s.g.pos {
		seen := map[int]bool{}
		at := map[int]int{}
		var rec func(p int)
		rec = func(p int) {
			if seen[p] {
				return
			}
			seen[p] = true
			if s.g.pos[p].accept {
				s.fin[i] = true
			}
			rest := an.all
			for _, q := range s.g.pos[p].follow {
				t := s.g.pos[q]
				x := rest.and(t.set)
				if x.empty() {
					continue
				}
				rest = rest.minus(x)
				if len(s.items[q]) == 0 {
					rec(q)
					continue
				}
				if k, ok := at[q]; ok {
					s.next[i][k].cls = s.next[i][k].cls.or(x)
					continue
				}
				at[q] = len(s.next[i])
				s.next[i] = append(s.next[i], cnext{t, x})
			}
		}
		rec(i)
	}
	tp := P.TPkgs[modPath+"/internal/types"]
	look := func(n string) types.Type {
		if tp == nil || tp.Types == nil {
			return nil
		}
		if o := tp.Types.Scope().Lookup(n); o != nil {
			return o.Type()
		}
		return nil
	}
	s.tbl, s.col, s.dt, s.con, s.ref, s.tcon = look("Table"), look("Column"), look("DataType"), look("Constraint"), look("Reference"), look("TableConstraint")
	s.pk, s.uq, s.ck, s.fk = look("PrimaryKey"), look("Unique"), look("Check"), look("ForeignKey")
	return s
}

func (s *convSpec) ok() bool {
	for _, t := range []types.Type{s.tbl, s.col, s.dt, s.con, s.ref, s.tcon, s.pk, s.uq, s.ck, s.fk} {
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return false
		}
	}
	return true
}

func (s *convSpec) describe(c Cfg) string { return "after " + s.g.pos[c[0]].what }

func (s *convSpec) tags(c Cfg) []string {
	// the difference may show some tokens later: everything of this
	// definition is a candidate
	l := s.g.pos[c[0]]
	t := append([]string(nil), l.tags...)
	for _, q := range l.preds {
		t = append(t, s.g.pos[q].tags...)
	}
	return uniq(t)
}

func (s *convSpec) holds(slot int) bool {
	switch slot {
	case csTable, csCol, csTc, csName, csRef:
		return true
	}
	return false
}

func (s *convSpec) past(st *State) bool {
	if st.ss == nil {
		return false
	}
	if st.ss.eof {
		return true
	}
	for _, i := range []int{csCol, csTc, csName} {
		if _, none := st.ss.slots[i].(NilV); !none {
			return true
		}
	}
	return false
}

func (s *convSpec) init(e *Engine, st *State) {
	st.ss.slots = make([]Val, csN)
	for i := range st.ss.slots {
		st.ss.slots[i] = NilV{}
	}
	st.ss.slots[csTables] = e.ghostList(st)
}

var tcBits = map[string]int{"tc:pk": 1, "tc:uq": 2, "tc:ck": 4, "tc:fk": 8}

// few keeps some members of a large class: a bare and a quoted one, or one.
func (s *convSpec) few(e *Engine, b *Bits) *Bits {
	if b.count() <= 6 {
		return b
	}
	w := newBits(len(e.an.reps))
	bare, quoted := false, false
	b.each(func(i int) {
		r := e.an.reps[i]
		q := r != "" && strings.Contains("\"'`", r[:1])
		if q && (quoted || len(r) < 4 || r[1] <= ' ') || !q && bare {
			return
		}
		if q {
			quoted = true
		} else {
			bare = true
		}
		w[i>>6] |= 1 << (i & 63)
	})
	return mkBits(w)
}

func (s *convSpec) choices(e *Engine, st *State) []Choice {
	c := st.ss.cfg
	l := s.g.pos[c[0]]
	var out []Choice
	if c[1] > 0 {
		raw := func(d int) func(e *Engine, st *State, p int) {
			return func(e *Engine, st *State, p int) {
				st.ss.cfg[1] += d
				if s.bounded {
					st.ss.cfg[5]++
				}
				st.ss.slots[csText] = e.concat(st, st.ss.slots[csText], &Expr{e.shapes.mk("sym"), p})
				if st.ss.cfg[1] == 0 {
					s.text(e, st, l)
				}
			}
		}
		if s.bounded && (c[5]%10 >= 3 || s.tight && c[5]%10 >= 1) {
			return []Choice{{cls: s.shut, apply: raw(-1)}}
		}
		if c[1] < s.depth {
			out = append(out, Choice{cls: s.open, apply: raw(1)})
		}
		return append(out, Choice{cls: s.shut, apply: raw(-1)}, Choice{cls: s.inner, apply: raw(0)})
	}
	if c[3] > 0 {
		// inside a leaf of several tokens
		return []Choice{{cls: s.items[l.id][c[3]], apply: func(e *Engine, st *State, p int) { s.item(e, st, p, l, c[3]) }}}
	}
	for _, n := range s.next[c[0]] {
		t := n.t
		kcap := s.cap
		if c[4] != 0 {
			kcap-- // columns after a table constraint: fewer kinds
		}
		if t.kbit != 0 && (c[2]&t.kbit != 0 || popcount(c[2]) >= kcap) {
			continue
		}
		if b := tcBits[t.act]; b != 0 && c[4]&b == 0 && popcount(c[4]) >= s.tcap {
			continue
		}
		if s.bounded {
			tabs, defs, n := c[5]/100, c[5]/10%10, c[5]%10
			if s.tight && (t.act == "tbl:begin" && tabs >= 1 || t.act == "def:sep" && defs >= 1) {
				continue
			}
			if s.mini {
				switch t.act {
				case "tbl:n2", "tbl:ifne", "ref:t2", "type:vary", "type:n", "cc:name", "cc:defx":
					continue
				}
			}
			switch t.act {
			case "tbl:begin":
				if tabs >= 2 {
					continue
				}
			case "def:sep":
				if defs >= 2 || tabs >= 2 {
					continue
				}
			case "tc:col", "ref:col":
				if n >= 2 {
					continue
				}
			}
			if t.kbit != 0 && tabs >= 2 {
				continue
			}
		}
		cls := s.items[t.id][0]
		if len(s.items[t.id]) == 1 {
			cls = n.cls
		}
		add := func(x *Bits) {
			if s.tight {
				x = s.few(e, x)
			}
			if !x.empty() {
				out = append(out, Choice{cls: x, apply: func(e *Engine, st *State, p int) {
					st.ss.cfg[0] = t.id
					if t.reset || strings.HasPrefix(t.act, "def:") {
						st.ss.cfg[2] = 0
					}
					st.ss.cfg[2] |= t.kbit
					st.ss.cfg[4] |= tcBits[t.act]
					if s.bounded {
						x := &st.ss.cfg[5]
						switch t.act {
						case "tbl:begin":
							*x = (*x/100 + 1) * 100
						case "def:sep":
							*x = (*x/10 + 1) * 10
						case "tc:col", "ref:col":
							*x++
						default:
							if t.bal || strings.HasPrefix(t.act, "tc:") || t.act == "ref:begin" {
								*x = *x / 10 * 10
							}
						}
					}
					s.item(e, st, p, t, 0)
				}})
			}
		}
		if t.act == "cc:def" {
			for _, w := range []string{"NULL", "TRUE", "FALSE"} {
				add(cls.and(s.words[w]))
				cls = cls.minus(s.words[w])
			}
			add(cls.and(s.nums))
			add(cls.and(s.strs))
			cls = cls.minus(s.nums).minus(s.strs)
		}
		add(cls)
	}
	if s.fin[c[0]] {
		out = append(out, Choice{eof: true, label: "<end>"})
	}
	return out
}

func (s *convSpec) item(e *Engine, st *State, p int, t *Leaf, k int) {
	if k+1 < len(s.items[t.id]) {
		st.ss.cfg[3] = k + 1
		return
	}
	st.ss.cfg[3] = 0
	if t.bal {
		st.ss.cfg[1] = 1
		st.ss.slots[csText] = &Expr{e.shapes.mk("sym"), p}
		return
	}
	s.act(e, st, p, t.act)
}

// field returns the struct with the named field (path) replaced.
func field(v Val, x Val, path ...string) Val {
	sv, ok := v.(*Struct)
	if !ok {
		return v
	}
	u := sv.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == path[0] {
			f := append([]Val(nil), sv.f...)
			if len(path) > 1 {
				f[i] = field(f[i], x, path[1:]...)
			} else {
				f[i] = x
			}
			return &Struct{sv.t, f}
		}
	}
	return v
}

func getField(v Val, path ...string) Val {
	sv, ok := v.(*Struct)
	if !ok {
		return Unknown{}
	}
	u := sv.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == path[0] {
			if len(path) > 1 {
				return getField(sv.f[i], path[1:]...)
			}
			return sv.f[i]
		}
	}
	return Unknown{}
}

func (s *convSpec) push(e *Engine, st *State, slot int, v Val) {
	if _, ok := st.ss.slots[slot].(Slice); !ok {
		st.ss.slots[slot] = e.ghostList(st)
	}
	e.emit(st, slot, v)
}

func (s *convSpec) text(e *Engine, st *State, l *Leaf) {
	sl := st.ss.slots
	x := sl[csText]
	sl[csText] = NilV{}
	switch l.act {
	case "cc:chk":
		sl[csCol] = field(sl[csCol], x, "Constraint", "Check")
	case "cc:defx":
		sl[csCol] = field(sl[csCol], &Iface{types.Typ[types.String], x}, "Constraint", "Default")
	case "tc:expr":
		sl[csTc] = field(sl[csTc], x, "Expr")
	}
}

func (s *convSpec) act(e *Engine, st *State, p int, act string) {
	sl := st.ss.slots
	sym := &Expr{e.shapes.mk("sym"), p}
	f := func(op string) Val { return e.mkExpr(st, op, sym) }
	name := func() Val { return e.mkExpr(st, "spec:unquote", sym, Str(specQuote(s.rdbms))) }
	cc := func(v Val, n string) { sl[csCol] = field(sl[csCol], v, "Constraint", n) }
	switch act {
	case "tbl:begin":
		sl[csTable] = e.zero(s.tbl)
		st.ss.cfg[4] = 0
	case "tbl:ifne":
		sl[csTable] = field(sl[csTable], Bool(true), "IfNotExists")
	case "tbl:n1":
		sl[csTable] = field(sl[csTable], name(), "Name")
	case "tbl:n2":
		sl[csTable] = field(field(sl[csTable], getField(sl[csTable], "Name"), "Schema"), name(), "Name")
	case "col:name":
		sl[csCol] = field(e.zero(s.col), name(), "Name")
	case "type":
		sl[csCol] = field(sl[csCol], f("spec:upper"), "DataType", "Name")
	case "type:vary":
		var t Val = getField(sl[csCol], "DataType", "Name")
		sl[csCol] = field(sl[csCol], e.specVal(st, "spec:vary", t), "DataType", "Name")
	case "type:n":
		sl[csCol] = field(sl[csCol], f("spec:int"), "DataType", "DigitN")
	case "type:m":
		sl[csCol] = field(sl[csCol], f("spec:int"), "DataType", "DigitM")
	case "cc:name":
		cc(name(), "Name")
	case "cc:pk":
		cc(Bool(true), "IsPrimaryKey")
	case "cc:ai":
		cc(Bool(true), "IsAutoincrement")
	case "cc:nn":
		cc(Bool(true), "IsNotNull")
	case "cc:uq":
		cc(Bool(true), "IsUnique")
	case "cc:coll":
		cc(name(), "Collate")
	case "cc:def":
		cls := st.elemAt(p).cls
		switch {
		case cls.subsetOf(s.nums):
			cc(&Iface{types.Typ[types.Float64], f("spec:float")}, "Default")
		case cls.subsetOf(s.strs):
			cc(&Iface{types.Typ[types.String], f("spec:strip")}, "Default")
		case cls.subsetOf(s.words["NULL"]):
		case cls.subsetOf(s.words["TRUE"]):
			cc(&Iface{types.Typ[types.Bool], Bool(true)}, "Default")
		case cls.subsetOf(s.words["FALSE"]):
			cc(&Iface{types.Typ[types.Bool], Bool(false)}, "Default")
		default:
			cc(&Iface{types.Typ[types.String], sym}, "Default")
		}
	case "ref:begin":
		sl[csRef] = e.zero(s.ref)
	case "ref:t1", "ref:t2":
		sl[csRef] = field(sl[csRef], name(), "TableName")
	case "ref:col":
		s.push(e, st, csRefCols, sym)
	case "tc:name":
		sl[csName] = name()
	case "tc:pk", "tc:uq", "tc:ck", "tc:fk":
		t := map[string]types.Type{"tc:pk": s.pk, "tc:uq": s.uq, "tc:ck": s.ck, "tc:fk": s.fk}[act]
		sl[csTc] = e.zero(t)
		if _, none := sl[csName].(NilV); !none {
			sl[csTc] = field(sl[csTc], sl[csName], "Name")
		}
		sl[csName] = NilV{}
	case "tc:col":
		s.push(e, st, csNames, sym)
	case "def:sep":
		s.flush(e, st)
	case "def:end":
		s.flush(e, st)
		t := sl[csTable]
		t = field(t, sl[csCols], "Columns")
		t = field(t, sl[csPk], "Constraints", "PrimaryKey")
		t = field(t, sl[csUq], "Constraints", "Unique")
		t = field(t, sl[csCk], "Constraints", "Check")
		t = field(t, sl[csFk], "Constraints", "ForeignKey")
		e.emit(st, csTables, t)
		for i := csTable; i < csN; i++ {
			sl[i] = NilV{}
		}
		st.ss.cfg[4] = 0
	}
}

// flush ends the current definition.
func (s *convSpec) flush(e *Engine, st *State) {
	sl := st.ss.slots
	ref := sl[csRef]
	if _, none := ref.(NilV); !none {
		ref = field(ref, sl[csRefCols], "ColumnNames")
	}
	if c, ok := sl[csCol].(*Struct); ok {
		var v Val = c
		if _, none := ref.(NilV); !none {
			v = field(v, ref, "Constraint", "References")
		}
		s.push(e, st, csCols, v)
	}
	if c, ok := sl[csTc].(*Struct); ok {
		var v Val = c
		slot := csPk
		switch c.t {
		case s.uq:
			slot = csUq
		case s.ck:
			slot = csCk
		case s.fk:
			slot = csFk
			if _, none := ref.(NilV); !none {
				v = field(v, ref, "References")
			}
		}
		if slot != csCk {
			v = field(v, sl[csNames], "ColumnNames")
		}
		s.push(e, st, slot, v)
	}
	for i := csCol; i < csN; i++ {
		sl[i] = NilV{}
	}
}

func runConverter(P *Program, rdbms string, o opts) *Result {
	t0 := time.Now()
	pc := collectConsts(P)
	an := tokenAlphabet(rdbms, pc, specWords(rdbms), true)
	pkg := P.Pkgs[modPath+"/internal/converter"]
	ob := o
	ob.deadline = time.Now().Add(time.Until(o.deadline) / 2)
	e := convPass(P, rdbms, ob, an, pkg, true, 0)
	e.finish()
	short := e.states
	if e.decided() && len(e.notes) > 0 {
		// something was lost with the lists that were absorbed: once more,
		// keeping short lists in full
		for keep := 1; keep <= 2 && e.decided(); keep++ {
			ob.deadline = time.Now().Add(time.Until(o.deadline) / 2)
			e2 := convPass(P, rdbms, ob, an, pkg, true, keep)
			e2.finish()
			if !e2.decided() {
				e = e2
			}
			debug.FreeOSMemory()
		}
	}
	if e.decided() {
		e = convPass(P, rdbms, o, an, pkg, false, 0)
		e.finish()
	}
	r := e.result("converter", rdbms, t0)
	r.Short = short
	r.Accepted, r.Rejected = e.nok, e.nbad
	return r
}

// decided reports whether nothing certain was found.
func (e *Engine) decided() bool {
	for _, f := range e.findings {
		if f.Kind != "undecided" && f.Kind != "globalwrite" && !f.Maybe && e.relevant(f) {
			return false
		}
	}
	return true
}

func convPass(P *Program, rdbms string, o opts, an *Alphabet, pkg *ssa.Package, bounded bool, keep int) *Engine {
	var e *Engine
	for lb := 0; lb <= 2; lb++ {
		spec := newConvSpec(P, rdbms, an, o.kinds, o.tkinds, o.depth)
		spec.bounded = bounded
		if keep > 0 {
			spec.tight, spec.mini = true, keep == 2
			spec.cap, spec.tcap = 1, 1
		}
		e = newEngine(P, "converter/"+rdbms, an, spec)
		e.bounded = bounded
		if keep > 0 {
			e.keep, e.keepRec = 4, keep == 2
		}
		e.debug = o.debug
		e.deadline = o.deadline
		e.lookback = lb
		e.dropTaint = true
		e.maxWin = 6 + lb
		ctor := pkg.Func("NewConverter")
		if ctor == nil || !spec.ok() {
			e.find(nil, "undecided", 0, nil, "converter.NewConverter or the table types not found")
			break
		}
		outs := e.runFn(ctor, []Val{P.dialectArg(o.ctor(rdbms))}, nil)
		e.onExit = func(_ *Engine, st *State) {
			fn := st.act.fn
			if len(st.rets) != 1 {
				e.find(st, "undecided", fn.Pos(), nil, "unexpected number of results")
				return
			}
			if st.ss == nil || !st.ss.eof {
				e.find(st, "output", fn.Pos(), nil, "returns before the end of its input")
				return
			}
			e.nok++
			if !e.mustEq(st, st.rets[0], st.ss.slots[csTables]) {
				e.findV(st, st.rets[0], "output", fn.Pos(), e.diffTags(st, st.rets[0], st.ss.slots[csTables]), "tables %s, expected %s", e.showVal(st, st.rets[0]), e.showVal(st, st.ss.slots[csTables]))
			}
		}
		e.startMethod(outs, "Convert", func(p *ssa.Parameter) Val { return Stream{Int(0), Len{0}} })
		e.runAll()
		if e.debug {
			println("PASS", e.name, e.states, e.lost, e.stop, len(e.findings), e.keep, heapMB(), len(e.notes))
		}
		if !e.lost {
			break
		}
	}
	return e
}
