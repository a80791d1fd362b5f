package main

import (
	"strings"
)

// valSpec is the specification of a validator: the grammar of the dialect
// read as a transducer from tokens to the tokens that are passed on.
type valSpec struct {
	rdbms                   string
	an                      *Alphabet
	v                       *vocab
	g                       *Grammar
	cap                     int // different constraint kinds per column
	depth                   int // nesting of brackets
	free                    int // arbitrary tokens after the illegal one
	open, shut, inner, word *Bits
	lower, mix              *Bits
}

const (
	vsOut  = 0
	vsHold = 1
	vsErr  = 2
	vsAlt  = 4
)

const cfgFree = -1

func specGrammar(rdbms string, v *vocab) any {
	switch rdbms {
	case "SQLite":
		return grammarSQLite(v)
	case "PostgreSQL":
		return grammarPostgreSQL(v)
	}
	return grammarMySQL(v)
}

// specWords lists the keywords of the dialect's grammar.
func specWords(rdbms string) []string {
	an := newAlphabet([]string{"x"}, false)
	m := map[string]bool{}
	leaves(specGrammar(rdbms, newVocab(rdbms, an)), func(l *Leaf) {
		for _, w := range l.words {
			m[w] = true
		}
	})
	return sortedKeys(m)
}

func newValSpec(rdbms string, an *Alphabet, cap, depth int) *valSpec {
	s := &valSpec{rdbms: rdbms, an: an, cap: cap, depth: depth, free: min(cap-1, 2), g: &Grammar{}}
	s.v = newVocab(rdbms, an)
	s.g.compile(an, specGrammar(rdbms, s.v))
	s.open = an.set(func(r string) bool { return r == "(" })
	s.shut = an.set(func(r string) bool { return r == ")" })
	s.word = an.set(func(r string) bool { return r != "\n" })
	s.inner = s.word.minus(s.open).minus(s.shut)
	s.lower = an.set(func(r string) bool { return r != strings.ToUpper(r) && r == strings.ToLower(r) })
	s.mix = an.set(func(r string) bool { return r != strings.ToUpper(r) && r != strings.ToLower(r) })
	return s
}

func (s *valSpec) newline() *Bits { return s.v.nl }

func (s *valSpec) describe(c Cfg) string {
	if c[0] <= cfgFree {
		return "after the error"
	}
	return "after " + s.g.pos[c[0]].what
}

func uniq(a []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	return sortedKeys(m)
}

func (s *valSpec) tags(c Cfg) []string {
	if c[5] != 0 {
		return s.posTags(c[5]-1, true)
	}
	return s.posTags(c[0], false)
}

func (s *valSpec) posTags(p int, next bool) []string {
	l := s.g.pos[p]
	t := append([]string(nil), l.tags...)
	for _, q := range l.preds {
		t = append(t, s.g.pos[q].tags...)
	}
	if next {
		for _, q := range l.follow {
			t = append(t, s.g.pos[q].tags...)
		}
	}
	return uniq(t)
}

func (s *valSpec) init(e *Engine, st *State) {
	st.ss.slots = []Val{e.ghostList(st), NilV{}, NilV{}, NilV{}, NilV{}, NilV{}}
}

func popcount(x int) int {
	n := 0
	for ; x != 0; x &= x - 1 {
		n++
	}
	return n
}

func (s *valSpec) choices(e *Engine, st *State) []Choice {
	c := st.ss.cfg
	if c[0] <= cfgFree {
		return s.freeChoices(e, st)
	}
	dead := st.ss.dead != 0
	var out []Choice
	if !dead && st.ss.end-st.ss.base < e.maxWin-2 && !s.v.nl.empty() {
		out = append(out, Choice{cls: s.v.nl, label: "<newline>"})
	}
	l := s.g.pos[c[0]]
	if c[1] > 0 {
		raw := func(d int) func(e *Engine, st *State, p int) {
			return func(e *Engine, st *State, p int) {
				if l.emit != emNone && !dead {
					e.emit(st, vsOut, &Expr{e.shapes.mk("sym"), p})
				}
				st.ss.cfg[1] += d
			}
		}
		if dead {
			return append(out, Choice{cls: s.shut, apply: raw(-1)}, s.eof(true))
		}
		if c[1] < s.depth {
			out = append(out, Choice{cls: s.open, apply: raw(1)})
		}
		out = append(out, Choice{cls: s.shut, apply: raw(-1)}, Choice{cls: s.inner, apply: raw(0)})
		out = append(out, s.eof(true))
		return out
	}
	rest := s.word
	var bad *Bits
	for _, q := range l.follow {
		t := s.g.pos[q]
		x := rest.and(t.set)
		if x.empty() {
			continue
		}
		if dead {
			// the shortest way to the end of the statement
			if t.dist < l.dist {
				out = append(out, Choice{cls: x, apply: func(e *Engine, st *State, p int) { s.step(e, st, p, t) }})
			}
			continue
		}
		rest = rest.minus(x)
		if t.kbit != 0 {
			if c[2]&t.kbit != 0 {
				if bad == nil {
					bad = x
				} else {
					bad = bad.or(x)
				}
				continue
			}
			if popcount(c[2]) >= s.cap {
				continue
			}
		}
		out = append(out, Choice{cls: x, apply: func(e *Engine, st *State, p int) { s.step(e, st, p, t) }})
	}
	if bad != nil {
		rest = rest.or(bad)
	}
	if !rest.empty() && !dead {
		out = append(out, Choice{cls: rest, apply: func(e *Engine, st *State, p int) { s.dead(e, st, p) }})
	}
	return append(out, s.eof(!l.accept))
}

func (s *valSpec) eof(bad bool) Choice {
	return Choice{eof: true, label: "<end>", apply: func(e *Engine, st *State, p int) {
		if bad && st.ss.dead == 0 {
			s.deadEOF(e, st)
		}
	}}
}

// freeChoices is the input after an error: up to free arbitrary tokens, then
// the grammar again from somewhere near.
func (s *valSpec) freeChoices(e *Engine, st *State) []Choice {
	c := st.ss.cfg
	var out []Choice
	if c[0] > cfgFree-s.free {
		out = append(out, Choice{cls: s.word, apply: func(e *Engine, st *State, p int) { st.ss.cfg[0]-- }})
	}
	seen := map[int]bool{}
	lvl := []int{c[5] - 1}
	for d := 0; d < 3; d++ {
		var nx []int
		for _, p := range lvl {
			for _, q := range s.g.pos[p].follow {
				if !seen[q] {
					seen[q] = true
					nx = append(nx, q)
				}
			}
		}
		lvl = nx
	}
	for q := range s.g.pos {
		if t := s.g.pos[q]; seen[q] && !t.null && !t.set.empty() {
			out = append(out, Choice{cls: t.set, apply: func(e *Engine, st *State, p int) {
				st.ss.cfg[2] = 0
				s.step(e, st, p, t)
			}})
		}
	}
	return append(out, Choice{eof: true, label: "<end>"})
}

func kwVal(v Val) Val { return &Opaque{name: "kw", args: []Val{v}} }

func (s *valSpec) step(e *Engine, st *State, p int, t *Leaf) {
	ss := st.ss
	ss.cfg[0] = t.id
	if t.reset || strings.HasPrefix(t.act, "def:") {
		ss.cfg[2] = 0
	}
	ss.cfg[2] |= t.kbit
	if t.bal {
		ss.cfg[1] = 1
	}
	if ss.dead != 0 {
		return
	}
	self := &Expr{e.shapes.mk("sym"), p}
	if t.hold {
		ss.slots[vsHold] = self
		ss.slots[vsAlt] = e.lineAt(st, p)
		ss.slots[vsAlt+1] = self
		return
	}
	if t.null {
		e.emit(st, vsOut, kwVal(ss.slots[vsHold]))
	}
	if t.null || t.unh {
		ss.slots[vsHold], ss.slots[vsAlt], ss.slots[vsAlt+1] = NilV{}, NilV{}, NilV{}
	}
	for _, w := range t.pre {
		e.emit(st, vsOut, kwVal(Str(w)))
	}
	switch t.emit {
	case emKw:
		e.emit(st, vsOut, kwVal(self))
	case emRaw:
		e.emit(st, vsOut, self)
	}
}

func (s *valSpec) dead(e *Engine, st *State, p int) {
	e.die(st, p, vsErr)
	s.clear(e, st)
}

func (s *valSpec) deadEOF(e *Engine, st *State) {
	e.dieEOF(st, vsErr)
	s.clear(e, st)
}

func (s *valSpec) clear(e *Engine, st *State) {
	e.deadList(st, vsOut)
	st.ss.slots[vsHold] = NilV{}
	st.ss.cfg = Cfg{cfgFree, 0, 0, 0, 0, st.ss.cfg[0] + 1}
}
