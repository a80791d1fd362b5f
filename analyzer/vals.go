package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- class sets

// Bits is an immutable set of alphabet classes.
type Bits struct {
	w []uint64
	k string
}

func newBits(n int) []uint64 { return make([]uint64, (n+63)/64) }
func mkBits(w []uint64) *Bits {
	b := make([]byte, 0, len(w)*8)
	for _, x := range w {
		for i := 0; i < 8; i++ {
			b = append(b, byte(x>>(8*i)))
		}
	}
	return &Bits{w: w, k: string(b)}
}
func (b *Bits) has(i int) bool { return b.w[i>>6]&(1<<(i&63)) != 0 }
func (b *Bits) empty() bool {
	for _, x := range b.w {
		if x != 0 {
			return false
		}
	}
	return true
}
func (b *Bits) count() int {
	n := 0
	for _, x := range b.w {
		n += bits.OnesCount64(x)
	}
	return n
}
func (b *Bits) and(c *Bits) *Bits {
	w := make([]uint64, len(b.w))
	for i := range w {
		w[i] = b.w[i] & c.w[i]
	}
	return mkBits(w)
}
func (b *Bits) or(c *Bits) *Bits {
	w := make([]uint64, len(b.w))
	for i := range w {
		w[i] = b.w[i] | c.w[i]
	}
	return mkBits(w)
}
func (b *Bits) minus(c *Bits) *Bits {
	w := make([]uint64, len(b.w))
	for i := range w {
		w[i] = b.w[i] &^ c.w[i]
	}
	return mkBits(w)
}
func (b *Bits) subsetOf(c *Bits) bool {
	for i := range b.w {
		if b.w[i]&^c.w[i] != 0 {
			return false
		}
	}
	return true
}
func (b *Bits) each(f func(i int)) {
	for wi, x := range b.w {
		for x != 0 {
			j := bits.TrailingZeros64(x)
			f(wi*64 + j)
			x &^= 1 << j
		}
	}
}
func (b *Bits) first() int {
	for wi, x := range b.w {
		if x != 0 {
			return wi*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

// Alphabet is the finite partition of stream elements; each class is written
// by one member.
type Alphabet struct {
	reps  []string
	index map[string]int
	runes bool            // elements are runes
	cased map[string]bool // keywords not written in upper case
	all   *Bits
}

func newAlphabet(reps []string, runes bool) *Alphabet {
	a := &Alphabet{runes: runes, index: map[string]int{}}
	for _, r := range reps {
		if _, ok := a.index[r]; !ok {
			a.index[r] = len(a.reps)
			a.reps = append(a.reps, r)
		}
	}
	w := newBits(len(a.reps))
	for i := range a.reps {
		w[i>>6] |= 1 << (i & 63)
	}
	a.all = mkBits(w)
	return a
}
func (a *Alphabet) set(f func(r string) bool) *Bits {
	w := newBits(len(a.reps))
	for i, r := range a.reps {
		if f(r) {
			w[i>>6] |= 1 << (i & 63)
		}
	}
	return mkBits(w)
}
func (a *Alphabet) setIdx(f func(i int) bool) *Bits {
	w := newBits(len(a.reps))
	for i := range a.reps {
		if f(i) {
			w[i>>6] |= 1 << (i & 63)
		}
	}
	return mkBits(w)
}
func (a *Alphabet) show(b *Bits) string {
	n := b.count()
	var s []string
	b.each(func(i int) {
		if len(s) < 4 {
			s = append(s, a.reps[i])
		}
	})
	r := strconv.Quote(strings.Join(s, " "))
	if n > 4 {
		r += fmt.Sprintf("(+%d)", n-4)
	}
	return r
}

// ---------------------------------------------------------------- values

type Val interface{}

type (
	Int       int64
	Flt       float64
	Str       string
	Bool      bool
	NilV      struct{}
	Pos       struct{ p int }          // stream position
	Len       struct{ k int }          // stream length + k
	Line      struct{ v int }          // line counter (relative to ghost newline count)
	AtLeast   struct{ n int }          // some integer >= n
	Diff      struct{ p, k int }       // stream length + k - position p
	LenOf     struct{ obj, hi, k int } // length of a partly absorbed list + k
	NeedFetch struct{}                 // result needs another stream element
	Unknown   struct{}
	Ptr       struct {
		obj  int
		path string // "f1.e3." encoded
	}
	Slice struct {
		obj    int
		lo, hi int
		shared bool // produced by re-slicing: capacity extends beyond hi
	}
	Stream    struct{ lo, hi Val } // sub-slice of the input stream (hi is Pos or Len)
	StreamStr struct{ lo, hi Val } // substring of the input text
	MapRef    struct{ obj int }
	FuncV     struct{ fn *ssa.Function }
	GlobalPtr struct {
		g    *ssa.Global
		path string
	}
)

// Expr is a pure function (Shape) of the stream element at pos.
type Expr struct {
	sh  *Shape
	pos int
}

type Struct struct {
	t types.Type
	f []Val
}
type ArrV struct { // contents of an array / slice backing store
	elems  []Val
	prefix int // ghost object whose absorbed elements precede elems (0 = none)
	ghost  bool
	abs    bool // ghost: some elements were absorbed
	bad    bool // absorbed part was overwritten
	run    bool // contains runs: element count unknown
	wrong  bool // certainly differs from every expected list
}
type SegRun struct{ a, b int } // several consecutive stream elements inside an ArrV
type Tuple struct{ v []Val }
type Iface struct {
	t types.Type
	v Val
}
type Closure struct {
	fn    *ssa.Function
	binds []Val
}
type BoundM struct { // bound builtin-like native method value
	name string
	recv Val
}
type MapV struct {
	keys []Val
	vals []Val
}
type RangeIt struct {
	over Val
	i    Val
}
type Opaque struct {
	name string
	args []Val
}
type Part struct {
	s    string
	a, b int // seg when b>a
	e    *Expr
}
type Cat struct{ parts []Part }
type Builder struct{ v Val } // accumulated string of a strings.Builder / bytes.Buffer

// ---------------------------------------------------------------- shapes

type panicV struct{ msg string }
type errT struct{ msg string }
type nilT struct{}

type Shape struct {
	op    string
	args  []any // *Shape or constant any
	key   string
	cache []any // by class
	done  []bool
	an    *Alphabet
}

type shapeTable struct {
	m  map[string]*Shape
	an *Alphabet
}

func anyKey(a any) string {
	switch a := a.(type) {
	case *Shape:
		return a.key
	case string:
		return strconv.Quote(a)
	case int64:
		return strconv.FormatInt(a, 10)
	case bool:
		return strconv.FormatBool(a)
	case float64:
		return strconv.FormatFloat(a, 'g', -1, 64) + "f"
	case nilT:
		return "nil"
	case errT:
		return "err:" + a.msg
	case []any:
		s := "["
		for _, x := range a {
			s += anyKey(x) + ","
		}
		return s + "]"
	case panicV:
		return "panic:" + a.msg
	}
	return fmt.Sprintf("%T%v", a, a)
}

func (t *shapeTable) mk(op string, args ...any) *Shape {
	k := op + "("
	for i, a := range args {
		if i > 0 {
			k += ","
		}
		k += anyKey(a)
	}
	k += ")"
	if s, ok := t.m[k]; ok {
		return s
	}
	s := &Shape{op: op, args: args, key: k, an: t.an, cache: make([]any, len(t.an.reps)), done: make([]bool, len(t.an.reps))}
	t.m[k] = s
	return s
}

func (s *Shape) eval(c int) any {
	if s.done[c] {
		return s.cache[c]
	}
	var r any
	switch s.op {
	case "sym":
		if s.an.runes {
			r = int64([]rune(s.an.reps[c])[0])
		} else {
			r = s.an.reps[c]
		}
	case "symstr":
		r = s.an.reps[c]
	default:
		args := make([]any, len(s.args))
		for i, a := range s.args {
			if sh, ok := a.(*Shape); ok {
				v := sh.eval(c)
				if p, isP := v.(panicV); isP {
					r = p
				}
				args[i] = v
			} else {
				args[i] = a
			}
		}
		if r == nil {
			r = applyOp(s.op, args)
		}
	}
	s.cache[c] = r
	s.done[c] = true
	return r
}

// toAny converts a constant value; ok=false if it is not a plain constant.
func toAny(v Val) (any, bool) {
	switch v := v.(type) {
	case Int:
		return int64(v), true
	case Flt:
		return float64(v), true
	case Str:
		return string(v), true
	case Bool:
		return bool(v), true
	case NilV:
		return nilT{}, true
	}
	return nil, false
}
func fromAny(a any) Val {
	switch a := a.(type) {
	case int64:
		return Int(a)
	case float64:
		return Flt(a)
	case string:
		return Str(a)
	case bool:
		return Bool(a)
	case nilT:
		return NilV{}
	case errT:
		return &Opaque{name: "error:" + a.msg}
	}
	return nil
}

// ---------------------------------------------------------------- key writer

type keyer struct {
	b    []byte
	pos  func(int) int
	obj  func(int) int
	pref func(int) int
	line func(int) int
}

func (k *keyer) s(x string) { k.b = append(k.b, x...) }
func (k *keyer) i(x int)    { k.b = strconv.AppendInt(k.b, int64(x), 10) }
func (k *keyer) val(v Val) {
	switch v := v.(type) {
	case nil:
		k.s("_")
	case Int:
		k.s("i")
		k.i(int(v))
	case Flt:
		k.s("f")
		k.b = strconv.AppendFloat(k.b, float64(v), 'g', -1, 64)
	case Str:
		k.s("\"")
		k.i(len(v))
		k.s(":")
		k.s(string(v))
	case Bool:
		if v {
			k.s("T")
		} else {
			k.s("F")
		}
	case NilV:
		k.s("N")
	case Pos:
		k.s("p")
		k.i(k.pos(v.p))
	case Len:
		k.s("n")
		k.i(v.k)
	case Line:
		k.s("l")
		k.i(k.line(v.v))
	case Held:
		k.s("h")
		k.i(v.k)
	case AtLeast:
		k.s("a")
		k.i(v.n)
	case CatLen:
		k.s("K")
		k.i(v.k)
		k.s("/")
		k.val(v.c)
	case LenOf:
		k.s("L")
		k.i(k.obj(v.obj))
		k.s(":")
		k.i(v.hi)
		k.s("+")
		k.i(v.k)
	case Diff:
		k.s("x")
		k.i(k.pos(v.p))
		k.s("+")
		k.i(v.k)
	case Unknown:
		k.s("?")
	case Ptr:
		k.s("&")
		k.i(k.obj(v.obj))
		k.s(v.path)
	case Slice:
		k.s("s")
		k.i(k.obj(v.obj))
		k.s("[")
		k.i(v.lo)
		k.s(":")
		k.i(v.hi)
		if v.shared {
			k.s("+")
		}
	case Stream:
		k.s("S[")
		k.val(v.lo)
		k.s(":")
		k.val(v.hi)
		k.s("]")
	case StreamStr:
		k.s("Z[")
		k.val(v.lo)
		k.s(":")
		k.val(v.hi)
		k.s("]")
	case MapRef:
		k.s("m")
		k.i(k.obj(v.obj))
	case FuncV:
		k.s("F:")
		k.s(v.fn.String())
	case GlobalPtr:
		k.s("G:")
		k.s(v.g.String())
		k.s(v.path)
	case *Expr:
		k.s("e")
		k.i(k.pos(v.pos))
		k.s("{")
		k.s(v.sh.key)
		k.s("}")
	case *Struct:
		k.s("{")
		for _, f := range v.f {
			k.val(f)
			k.s(",")
		}
		k.s("}")
	case *ArrV:
		k.s("A")
		if v.ghost {
			k.s("g")
		}
		if v.abs {
			k.s("b")
		}
		if v.bad {
			k.s("!")
		}
		if v.run {
			k.s("~")
		}
		if v.wrong {
			k.s("w")
		}
		if v.prefix != 0 {
			k.s("^")
			k.i(k.pref(v.prefix))
		}
		k.s("[")
		for _, f := range v.elems {
			k.val(f)
			k.s(",")
		}
		k.s("]")
	case SegRun:
		k.s("R")
		k.i(k.pos(v.a))
		k.s("-")
		k.i(k.pos(v.b))
	case *Tuple:
		k.s("(")
		for _, f := range v.v {
			k.val(f)
			k.s(",")
		}
		k.s(")")
	case *Iface:
		k.s("I<")
		k.s(typeKey(v.t))
		k.s(">")
		k.val(v.v)
	case *Closure:
		k.s("C:")
		k.s(v.fn.String())
		k.s("(")
		for _, f := range v.binds {
			k.val(f)
			k.s(",")
		}
		k.s(")")
	case *BoundM:
		k.s("B:" + v.name + "(")
		k.val(v.recv)
		k.s(")")
	case *MapV:
		k.s("M{")
		for i := range v.keys {
			k.val(v.keys[i])
			k.s("=")
			k.val(v.vals[i])
			k.s(",")
		}
		k.s("}")
	case *RangeIt:
		k.s("it(")
		k.val(v.over)
		k.s(",")
		k.val(v.i)
		k.s(")")
	case *Opaque:
		k.s("O:" + v.name + "(")
		for _, f := range v.args {
			k.val(f)
			k.s(",")
		}
		k.s(")")
	case *Cat:
		k.s("c(")
		for _, p := range v.parts {
			if p.e != nil {
				k.val(p.e)
			} else if p.b > p.a {
				k.i(k.pos(p.a))
				k.s("~")
				k.i(k.pos(p.b))
			} else {
				k.s(strconv.Quote(p.s))
			}
			k.s("|")
		}
		k.s(")")
	case *Builder:
		k.s("SB(")
		k.val(v.v)
		k.s(")")
	default:
		panic(fmt.Sprintf("key: %T", v))
	}
}

func typeKey(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, nil)
}

// walk visits every position and object mentioned in v (not through the heap).
type visitor struct {
	seg    func(int)
	pos    func(p int, cursor bool)
	elem   func(p int) // element whose class matters
	obj    func(o int)
	pref   func(o int)
	stream func()
	strct  func(types.Type) // optional
	slc    func(Slice)
	ptr    func(Ptr)
}

func (w *visitor) val(v Val) {
	switch v := v.(type) {
	case Pos:
		w.pos(v.p, true)
	case Len:
		w.stream()
	case CatLen:
		w.val(v.c)
	case LenOf:
		if w.slc != nil {
			w.slc(Slice{obj: v.obj, hi: v.hi})
		}
		w.obj(v.obj)
	case Diff:
		w.stream()
		w.pos(v.p, true)
	case Ptr:
		if w.ptr != nil {
			w.ptr(v)
		}
		w.obj(v.obj)
	case Slice:
		if w.slc != nil {
			w.slc(v)
		}
		w.obj(v.obj)
	case Stream:
		w.stream()
		w.val(v.lo)
		if p, ok := v.hi.(Pos); ok {
			w.pos(p.p, false)
		}
	case StreamStr:
		w.stream()
		w.val(v.lo)
		if p, ok := v.hi.(Pos); ok {
			w.pos(p.p, false)
		}
	case MapRef:
		w.obj(v.obj)
	case *Expr:
		w.pos(v.pos, false)
		w.elem(v.pos)
	case *Struct:
		if w.strct != nil {
			w.strct(v.t)
		}
		for _, f := range v.f {
			w.val(f)
		}
	case *ArrV:
		if v.prefix != 0 {
			w.pref(v.prefix)
		}
		for _, f := range v.elems {
			w.val(f)
		}
	case SegRun:
		w.pos(v.a, false)
		w.pos(v.b, false)
	case *Tuple:
		for _, f := range v.v {
			w.val(f)
		}
	case *Iface:
		w.val(v.v)
	case *Closure:
		for _, f := range v.binds {
			w.val(f)
		}
	case *BoundM:
		w.val(v.recv)
	case *MapV:
		for i := range v.keys {
			w.val(v.keys[i])
			w.val(v.vals[i])
		}
	case *RangeIt:
		w.val(v.over)
		w.val(v.i)
	case *Opaque:
		for _, f := range v.args {
			w.val(f)
		}
	case *Cat:
		for _, p := range v.parts {
			if p.e != nil {
				w.val(p.e)
			} else if p.b > p.a {
				w.pos(p.a, false)
				w.pos(p.b, false)
				if w.seg != nil {
					w.seg(p.a)
				}
			}
		}
	case *Builder:
		w.val(v.v)
	}
}

// renamer rebuilds values under a renaming of positions, objects, lines, depths.
// Held stands for a part of the expected value that a callee only hands on.
type Held struct{ k int }

type renamer struct {
	held func(int) Val           // optional
	spec func(string, []Val) Val // optional: re-evaluates delayed specification functions
	pos  func(int) int
	obj  func(int) int
	pref func(int) int
	line func(Line) Val
	slc  func(Slice) Slice // optional
	ptr  func(Ptr) Ptr     // optional
}

func (r *renamer) vals(vs []Val) ([]Val, bool) {
	ch := false
	var out []Val
	for i, v := range vs {
		n := r.val(v)
		if !ch && !sameRef(n, v) {
			ch = true
			out = make([]Val, len(vs))
			copy(out, vs[:i])
		}
		if ch {
			out[i] = n
		}
	}
	if !ch {
		return vs, false
	}
	return out, true
}

func sameRef(a, b Val) bool {
	switch x := a.(type) {
	case *Expr:
		y, ok := b.(*Expr)
		return ok && (x == y || *x == *y)
	case *Struct:
		y, ok := b.(*Struct)
		return ok && x == y
	case *ArrV:
		y, ok := b.(*ArrV)
		return ok && x == y
	case *Tuple:
		y, ok := b.(*Tuple)
		return ok && x == y
	case *Iface:
		y, ok := b.(*Iface)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *BoundM:
		y, ok := b.(*BoundM)
		return ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	case *RangeIt:
		y, ok := b.(*RangeIt)
		return ok && x == y
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case *Cat:
		y, ok := b.(*Cat)
		return ok && x == y
	case *Builder:
		y, ok := b.(*Builder)
		return ok && x == y
	}
	return a == b
}

func (r *renamer) val(v Val) Val {
	switch v := v.(type) {
	case Pos:
		return Pos{r.pos(v.p)}
	case Line:
		return r.line(v)
	case Held:
		if r.held != nil {
			return r.held(v.k)
		}
		return v
	case Diff:
		return Diff{r.pos(v.p), v.k}
	case CatLen:
		return CatLen{r.val(v.c).(*Cat), v.k, v.n}
	case LenOf:
		if r.slc != nil {
			v.hi = r.slc(Slice{obj: v.obj, hi: v.hi}).hi
		}
		v.obj = r.obj(v.obj)
		return v
	case Ptr:
		if r.ptr != nil {
			v = r.ptr(v)
		}
		v.obj = r.obj(v.obj)
		return v
	case Slice:
		if r.slc != nil {
			v = r.slc(v)
		}
		v.obj = r.obj(v.obj)
		return v
	case Stream:
		return Stream{r.val(v.lo), r.val(v.hi)}
	case StreamStr:
		return StreamStr{r.val(v.lo), r.val(v.hi)}
	case MapRef:
		v.obj = r.obj(v.obj)
		return v
	case *Expr:
		p := r.pos(v.pos)
		if p == v.pos {
			return v
		}
		return &Expr{v.sh, p}
	case *Struct:
		if f, ch := r.vals(v.f); ch {
			return &Struct{v.t, f}
		}
		return v
	case *ArrV:
		f, ch := r.vals(v.elems)
		p := v.prefix
		if p != 0 {
			p = r.pref(p)
		}
		if ch || p != v.prefix {
			n := *v
			n.elems = f
			n.prefix = p
			return &n
		}
		return v
	case SegRun:
		return SegRun{r.pos(v.a), r.pos(v.b)}
	case *Tuple:
		if f, ch := r.vals(v.v); ch {
			return &Tuple{f}
		}
		return v
	case *Iface:
		n := r.val(v.v)
		if sameRef(n, v.v) {
			return v
		}
		return &Iface{v.t, n}
	case *Closure:
		if f, ch := r.vals(v.binds); ch {
			return &Closure{v.fn, f}
		}
		return v
	case *BoundM:
		n := r.val(v.recv)
		if sameRef(n, v.recv) {
			return v
		}
		return &BoundM{v.name, n}
	case *MapV:
		ks, c1 := r.vals(v.keys)
		vs, c2 := r.vals(v.vals)
		if c1 || c2 {
			return &MapV{ks, vs}
		}
		return v
	case *RangeIt:
		return &RangeIt{r.val(v.over), r.val(v.i)}
	case *Opaque:
		if f, ch := r.vals(v.args); ch {
			if r.spec != nil && strings.HasPrefix(v.name, "spec:") {
				return r.spec(v.name, f)
			}
			return &Opaque{v.name, f}
		}
		return v
	case *Cat:
		ch := false
		parts := v.parts
		for i, p := range v.parts {
			q := p
			if p.e != nil {
				q.e = r.val(p.e).(*Expr)
			} else if p.b > p.a {
				q.a, q.b = r.pos(p.a), r.pos(p.b)
			}
			if q != p {
				if !ch {
					parts = append([]Part(nil), v.parts...)
					ch = true
				}
				parts[i] = q
			}
		}
		if ch {
			return &Cat{parts}
		}
		return v
	case *Builder:
		n := r.val(v.v)
		if sameRef(n, v.v) {
			return v
		}
		return &Builder{n}
	}
	return v
}

func sortedInts(m map[int]bool) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}
