package main

import "strings"

// A specification grammar is written as a tree of leaves (token classes) and
// compiled to its positions with ordered follow lists: the first position in
// the list whose class has the token is taken.

const (
	emNone = iota // the token is checked and dropped
	emKw          // the token is passed on; the case of a keyword is free
	emRaw         // the token is passed on as written
)

type Leaf struct {
	words []string
	cls   *Bits
	emit  int
	pre   []string // passed on before the token itself
	act   string   // meaning for the result
	tags  []string
	kind  string // column constraint kind, allowed once per column
	reset bool   // a new column begins
	bal   bool   // "(" of a balanced text
	name  bool
	hold  bool // NOT, meaning known with the next token only
	unh   bool // the held NOT is dropped
	null  bool // the held NOT is passed on with this token
	eofok bool // may be missing at the end of the input
	what  string

	id     int
	set    *Bits
	follow []int
	accept bool
	kbit   int
	preds  []int
	dist   int // tokens to the end of a legal input
}

type gSeq []any
type gAlt []any
type gOpt struct{ x any }
type gStar struct{ x any }
type gPlus struct{ x, sep any } // x sep x sep x ...

func seq(x ...any) any  { return gSeq(x) }
func alt(x ...any) any  { return gAlt(x) }
func opt(x ...any) any  { return gOpt{gSeq(x)} }
func star(x ...any) any { return gStar{gSeq(x)} }

func leaves(x any, f func(*Leaf)) {
	switch x := x.(type) {
	case *Leaf:
		f(x)
	case gSeq:
		for _, y := range x {
			leaves(y, f)
		}
	case gAlt:
		for _, y := range x {
			leaves(y, f)
		}
	case gOpt:
		leaves(x.x, f)
	case gStar:
		leaves(x.x, f)
	case gPlus:
		leaves(x.x, f)
		leaves(x.sep, f)
	}
}

// tag gives the leaves of x the property tags.
func tag(t string, x any) any {
	leaves(x, func(l *Leaf) { l.tags = append(l.tags, strings.Fields(t)...) })
	return x
}

func kw(w ...string) *Leaf          { return &Leaf{words: w, emit: emKw, what: strings.Join(w, "|")} }
func dk(w ...string) *Leaf          { return &Leaf{words: w, what: strings.Join(w, "|")} }
func (l *Leaf) a(act string) *Leaf  { l.act = act; return l }
func (l *Leaf) k(kind string) *Leaf { l.kind = kind; return l }

// Grammar is a compiled specification.
type Grammar struct {
	pos   []*Leaf // pos[0] is the start
	kinds []string
}

type gpart struct {
	null        bool
	first, last []int
}

func (g *Grammar) compile(an *Alphabet, x any) {
	g.pos = []*Leaf{{what: "start"}}
	kid := map[string]int{}
	var rec func(x any) gpart
	link := func(from, to []int) {
		for _, p := range from {
		next:
			for _, q := range to {
				for _, r := range g.pos[p].follow {
					if r == q {
						continue next
					}
				}
				g.pos[p].follow = append(g.pos[p].follow, q)
			}
		}
	}
	rec = func(x any) gpart {
		switch x := x.(type) {
		case *Leaf:
			l := x
			if l.id != 0 {
				panic("leaf used twice: " + l.what)
			}
			l.id = len(g.pos)
			g.pos = append(g.pos, l)
			l.set = l.cls
			if l.set == nil {
				m := map[string]bool{}
				for _, w := range l.words {
					m[strings.ToUpper(w)] = true
					m[strings.ToLower(w)] = true
				}
				l.set = an.set(func(r string) bool { return m[r] })
			}
			if l.kind != "" {
				if _, ok := kid[l.kind]; !ok {
					kid[l.kind] = len(g.kinds)
					g.kinds = append(g.kinds, l.kind)
				}
				l.kbit = 1 << kid[l.kind]
			}
			return gpart{false, []int{l.id}, []int{l.id}}
		case gSeq:
			r := gpart{null: true}
			for _, y := range x {
				q := rec(y)
				link(r.last, q.first)
				if r.null {
					r.first = append(r.first, q.first...)
				}
				if q.null {
					r.last = append(append([]int(nil), q.last...), r.last...)
				} else {
					r.last = q.last
				}
				r.null = r.null && q.null
			}
			return r
		case gAlt:
			r := gpart{}
			for _, y := range x {
				q := rec(y)
				r.null = r.null || q.null
				r.first = append(r.first, q.first...)
				r.last = append(r.last, q.last...)
			}
			return r
		case gOpt:
			q := rec(x.x)
			q.null = true
			return q
		case gStar:
			q := rec(x.x)
			link(q.last, q.first)
			q.null = true
			return q
		case gPlus:
			q := rec(x.x)
			d := rec(x.sep)
			link(q.last, d.first)
			link(d.last, q.first)
			return q
		}
		panic("bad grammar")
	}
	q := rec(x)
	link([]int{0}, q.first)
	g.pos[0].accept = q.null
	for _, p := range q.last {
		g.pos[p].accept = true
	}
	// the token after a NOT that may belong to NOT NULL
	var null *Leaf
	for _, l := range g.pos {
		if l.act == "cc:nn" && !l.null {
			null = l
		}
	}
	for _, l := range g.pos {
		if l.null && null != nil {
			l.follow = null.follow
		}
	}
	for i, l := range g.pos {
		for _, q := range l.follow {
			if g.pos[q].eofok {
				l.accept = true
			}
			g.pos[q].preds = append(g.pos[q].preds, i)
		}
	}
	var queue []int
	for i, l := range g.pos {
		l.dist = 1 << 20
		if l.accept {
			l.dist = 0
			queue = append(queue, i)
		}
	}
	for k := 0; k < len(queue); k++ {
		for _, p := range g.pos[queue[k]].preds {
			if d := g.pos[queue[k]].dist + 1; g.pos[p].dist > d {
				g.pos[p].dist = d
				queue = append(queue, p)
			}
		}
	}
}

// gset is the vocabulary a dialect's grammar is written with.
type vocab struct {
	rdbms                  string
	an                     *Alphabet
	names, ints, lits, str *Bits
	paren, nonParen, nl    *Bits
}

func newVocab(rdbms string, an *Alphabet) *vocab {
	v := &vocab{rdbms: rdbms, an: an}
	res := map[string]bool{}
	for _, w := range map[string][]string{"SQLite": reservedSQLite, "PostgreSQL": reservedPostgreSQL, "MySQL": reservedMySQL}[rdbms] {
		res[w] = true
	}
	v.names = an.set(func(r string) bool { return specName(rdbms, r, res) })
	v.ints = an.set(specPosInt)
	v.str = an.set(func(r string) bool { return specString(rdbms, r) })
	v.lits = an.set(func(r string) bool { return specString(rdbms, r) || specNumber(r) })
	v.nl = an.set(func(r string) bool { return r == "\n" })
	return v
}

func (v *vocab) nm(act string) *Leaf {
	return &Leaf{cls: v.names, emit: emRaw, act: act, name: true, what: "a name", tags: []string{"C18"}}
}
func (v *vocab) nmD() *Leaf {
	return &Leaf{cls: v.names, name: true, what: "a name", tags: []string{"C18"}}
}
func (v *vocab) in(act string) *Leaf {
	return &Leaf{cls: v.ints, emit: emRaw, act: act, what: "a positive integer"}
}
func (v *vocab) inD() *Leaf { return &Leaf{cls: v.ints, what: "a positive integer"} }
func (v *vocab) st() *Leaf  { return &Leaf{cls: v.str, what: "a string"} }
func (v *vocab) bal(act string) *Leaf {
	return &Leaf{words: []string{"("}, emit: emRaw, act: act, bal: true, what: "( ... )"}
}
func (v *vocab) balD() *Leaf { return &Leaf{words: []string{"("}, bal: true, what: "( ... )"} }

var litWords = []string{"NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"}

func (v *vocab) lit(act string) any {
	if act == "" {
		return alt(&Leaf{cls: v.lits, what: "a literal"}, dk(litWords...))
	}
	return alt(&Leaf{cls: v.lits, emit: emRaw, act: act, what: "a literal"}, &Leaf{words: litWords, emit: emRaw, act: act, what: "a literal"})
}

func specWord(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return s != ""
}

func specQuote(rdbms string) string {
	return map[string]string{"SQLite": "\"`", "PostgreSQL": "\"", "MySQL": "`"}[rdbms]
}

func specName(rdbms, s string, res map[string]bool) bool {
	if s == "" {
		return false
	}
	if strings.Contains(specQuote(rdbms), s[:1]) {
		return true
	}
	return specWord(s) && !res[strings.ToUpper(s)]
}

func specString(rdbms, s string) bool {
	return s != "" && (s[0] == '\'' || rdbms == "MySQL" && s[0] == '"')
}
