package main

import (
	"strings"
	"unicode/utf8"
)

// The lexical specification: which texts are legal and which tokens they
// stand for. Modes of the transducer.
const (
	mNorm  = iota
	mDigit // after a digit
	mDot   // after "digit ."
	mHyph  // after -
	mSlash // after /
	mStar  // after *
	mLine  // line comment
	mBlock
	mBlockStar
	mDq
	mSq
	mBq
	mFree
)

var lexModeName = []string{"between tokens", "after a digit", "after digit and .", "after -", "after /", "after *", "in a line comment", "in a block comment", "in a block comment after *", "in \"...\"", "in '...'", "in `...`", "after the error"}

type lexSpec struct {
	rdbms string
	an    *Alphabet
	g     map[string]*Bits
	order []string
}

const (
	lsOut = 0 // expected tokens
	lsTok = 1 // token under construction
	lsErr = 2 // expected Line, Near
)

func newLexSpec(rdbms string, an *Alphabet) *lexSpec {
	l := &lexSpec{rdbms: rdbms, an: an, g: map[string]*Bits{}}
	add := func(n string, f func(r string) bool) {
		l.g[n] = an.set(f)
		l.order = append(l.order, n)
	}
	one := func(n, s string) { add(n, func(r string) bool { return r == s }) }
	one("hyph", "-")
	one("slash", "/")
	one("star", "*")
	one("dq", "\"")
	one("sq", "'")
	one("bq", "`")
	one("hash", "#")
	one("nl", "\n")
	one("dot", ".")
	one("wide", "\u3000")
	add("ws", func(r string) bool { return r == " " || r == "\t" || r == "\r" })
	add("sym", func(r string) bool { return strings.Contains("(),;=", r) })
	add("digit", func(r string) bool { return r >= "0" && r <= "9" && len(r) == 1 })
	add("other", func(r string) bool { return !strings.Contains("-/*\"'`#\n.\u3000 \t\r(),;=0123456789", r) })
	return l
}

func lexAlphabet(pc *progConsts) *Alphabet {
	var reps []string
	for c := 0; c < 128; c++ {
		reps = append(reps, string(rune(c)))
	}
	for _, r := range []rune{0x85, 0xa0, 'é', 'ı', 'ſ', 'ß', 0x200b, 0x2028, 0x3000, 'あ', '０', '（', 0xfeff, 0xfffd, 'ﬀ', 0x1f600, 0x10ffff} {
		reps = append(reps, string(r))
	}
	for _, s := range sortedKeys(pc.strs) {
		for _, r := range s {
			reps = append(reps, string(r))
		}
	}
	for n := range pc.ints {
		if n > 127 && n < 0x110000 && utf8.ValidRune(rune(n)) {
			reps = append(reps, string(rune(n)))
		}
	}
	sortStrings(reps[128:])
	return newAlphabet(reps, true)
}

func (l *lexSpec) newline() *Bits        { return l.g["nl"] }
func (l *lexSpec) describe(c Cfg) string { return lexModeName[c[0]] }
func (l *lexSpec) tags(c Cfg) []string {
	switch c[0] {
	case mDq, mSq, mBq:
		return []string{"C09"}
	case mLine, mBlock, mBlockStar:
		return []string{"C08"}
	case mNorm:
		return []string{"C08", "C09", "C10"}
	case mHyph, mSlash, mStar:
		return []string{"C08", "C10"}
	}
	return []string{"C10"}
}

func (l *lexSpec) init(e *Engine, st *State) {
	st.ss.slots = []Val{e.ghostList(st), Str(""), NilV{}, NilV{}, NilV{}, NilV{}}
}

func (l *lexSpec) choices(e *Engine, st *State) []Choice {
	if st.ss.cfg[0] == mFree {
		return []Choice{{cls: l.an.all}, {eof: true, label: "<end>"}}
	}
	var out []Choice
	for _, n := range l.order {
		n := n
		if l.g[n].empty() {
			continue
		}
		out = append(out, Choice{cls: l.g[n], apply: func(e *Engine, st *State, p int) { l.step(e, st, p, n) }})
	}
	out = append(out, Choice{eof: true, label: "<end>", apply: func(e *Engine, st *State, p int) { l.end(e, st) }})
	return out
}

func (l *lexSpec) flush(e *Engine, st *State) {
	if st.ss.slots[lsTok] != Val(Str("")) {
		e.emit(st, lsOut, st.ss.slots[lsTok])
		st.ss.slots[lsTok] = Str("")
	}
}

func (l *lexSpec) add(e *Engine, st *State, p int) {
	st.ss.slots[lsTok] = e.concat(st, st.ss.slots[lsTok], &Expr{e.shapes.mk("symstr"), p})
}

func (l *lexSpec) step(e *Engine, st *State, p int, g string) {
	c := &st.ss.cfg
	switch c[0] {
	case mHyph:
		if g == "hyph" {
			l.flush(e, st)
			c[0] = mLine
			return
		}
		l.add(e, st, p-1)
		c[0] = mNorm
	case mSlash:
		if g == "star" {
			l.flush(e, st)
			c[0] = mBlock
			return
		}
		l.add(e, st, p-1)
		c[0] = mNorm
	case mStar:
		if g == "slash" {
			l.dead(e, st, p-1)
			return
		}
		l.add(e, st, p-1)
		c[0] = mNorm
	case mDot:
		if g == "digit" {
			l.add(e, st, p-1)
			l.add(e, st, p)
			c[0] = mDigit
			return
		}
		l.flush(e, st)
		e.emit(st, lsOut, Str("."))
		c[0] = mNorm
	case mLine:
		if g == "nl" {
			e.emit(st, lsOut, Str("\n"))
			c[0] = mNorm
		}
		return
	case mBlock, mBlockStar:
		switch {
		case g == "slash" && c[0] == mBlockStar:
			c[0] = mNorm
		case g == "star":
			c[0] = mBlockStar
		default:
			if g == "nl" {
				e.emit(st, lsOut, Str("\n"))
			}
			c[0] = mBlock
		}
		return
	case mDq, mSq, mBq:
		q := map[int]string{mDq: "dq", mSq: "sq", mBq: "bq"}[c[0]]
		if g == "nl" {
			e.emit(st, lsOut, Str("\n"))
		}
		if g == q {
			l.add(e, st, p)
			l.flush(e, st)
			c[0] = mNorm
			return
		}
		l.add(e, st, p)
		return
	}
	// between tokens
	dig := c[0] == mDigit
	c[0] = mNorm
	switch g {
	case "hyph":
		c[0] = mHyph
	case "slash":
		c[0] = mSlash
	case "star":
		c[0] = mStar
	case "dq", "sq", "bq":
		if g == "bq" && l.rdbms == "PostgreSQL" {
			l.dead(e, st, p)
			return
		}
		l.flush(e, st)
		st.elemAt(p).delim = true
		l.add(e, st, p)
		c[0] = map[string]int{"dq": mDq, "sq": mSq, "bq": mBq}[g]
	case "hash":
		if l.rdbms == "MySQL" {
			l.flush(e, st)
			c[0] = mLine
		} else {
			l.add(e, st, p)
		}
	case "nl":
		l.flush(e, st)
		e.emit(st, lsOut, Str("\n"))
	case "dot":
		if dig {
			c[0] = mDot
			return
		}
		l.flush(e, st)
		e.emit(st, lsOut, Str("."))
	case "wide":
		l.dead(e, st, p)
	case "ws":
		l.flush(e, st)
	case "sym":
		l.flush(e, st)
		e.emit(st, lsOut, &Expr{e.shapes.mk("symstr"), p})
	case "digit":
		l.add(e, st, p)
		c[0] = mDigit
	default:
		l.add(e, st, p)
	}
}

func (l *lexSpec) dead(e *Engine, st *State, p int) {
	e.die(st, p, lsErr)
	l.clear(e, st)
	st.ss.cfg[0] = mFree
}

func (l *lexSpec) clear(e *Engine, st *State) {
	e.deadList(st, lsOut)
	st.ss.slots[lsTok] = NilV{}
}

func (l *lexSpec) end(e *Engine, st *State) {
	c := &st.ss.cfg
	switch c[0] {
	case mHyph, mSlash, mStar:
		l.add(e, st, st.ss.end-1)
	case mDot:
		l.flush(e, st)
		e.emit(st, lsOut, Str("."))
	case mBlock, mBlockStar, mDq, mSq, mBq:
		e.dieEOF(st, lsErr)
		l.clear(e, st)
		c[0] = mFree
		return
	}
	l.flush(e, st)
	c[0] = mNorm
}
