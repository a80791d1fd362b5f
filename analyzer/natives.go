package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

var reCache sync.Map

func compileRe(p string) *regexp.Regexp {
	if r, ok := reCache.Load(p); ok {
		return r.(*regexp.Regexp)
	}
	r, err := regexp.Compile(p)
	if err != nil {
		return nil
	}
	reCache.Store(p, r)
	return r
}

func errOf(err error) any {
	if err == nil {
		return nilT{}
	}
	return errT{"strconv"}
}

// applyOp is the meaning of an operation on constants.
func applyOp(op string, a []any) (res any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(notApplicable); ok {
				res = unkT{}
				return
			}
			res = panicV{fmt.Sprint(r)}
		}
	}()
	for _, x := range a {
		if _, ok := x.(unkT); ok {
			return unkT{}
		}
	}
	if strings.HasPrefix(op, "spec:") {
		return specOp(op, a)
	}
	switch op {
	case "un:!":
		return !a[0].(bool)
	case "un:-":
		switch x := a[0].(type) {
		case int64:
			return -x
		case float64:
			return -x
		}
	case "extract":
		t, ok := a[0].([]any)
		if !ok {
			return unkT{}
		}
		return t[a[1].(int64)]
	case "len":
		switch x := a[0].(type) {
		case string:
			return int64(len(x))
		case []any:
			return int64(len(x))
		}
	case "index":
		s, ok := a[0].(string)
		if !ok {
			return unkT{}
		}
		return int64(s[a[1].(int64)])
	case "slice":
		return a[0].(string)[a[1].(int64):a[2].(int64)]
	case "slicefrom":
		return a[0].(string)[a[1].(int64):]
	case "rune2str":
		return string(rune(a[0].(int64)))
	case "runeAt":
		return int64([]rune(a[0].(string))[a[1].(int64)])
	case "runelen":
		return int64(utf8.RuneCountInString(a[0].(string)))
	case "runeslice":
		r := []rune(a[0].(string))
		lo, hi := int64(0), int64(len(r))
		if len(a) > 1 {
			lo = a[1].(int64)
		}
		if len(a) > 2 {
			hi = a[2].(int64)
		}
		return string(r[lo:hi])
	case "concat":
		return a[0].(string) + a[1].(string)
	case "oneof":
		for _, x := range a[1].([]any) {
			if anyKey(x) == anyKey(a[0]) {
				return true
			}
		}
		return false
	case "ite":
		if a[0].(bool) {
			return a[1]
		}
		return a[2]
	}
	if strings.HasPrefix(op, "conv:") {
		switch x := a[0].(type) {
		case int64:
			switch op[5:] {
			case "float64", "float32":
				return float64(x)
			case "uint8", "byte":
				return int64(uint8(x))
			case "int8":
				return int64(int8(x))
			case "int16":
				return int64(int16(x))
			case "uint16":
				return int64(uint16(x))
			case "int32", "rune":
				return int64(int32(x))
			case "uint32":
				return int64(uint32(x))
			case "string":
				return string(rune(x))
			}
			return x
		case float64:
			switch op[5:] {
			case "float64":
				return x
			case "float32":
				return float64(float32(x))
			case "int", "int64":
				return int64(x)
			}
		case string:
			return x
		}
		return unkT{}
	}
	if strings.HasPrefix(op, "bin:") {
		return binConst(op[4:], a[0], a[1])
	}
	if strings.HasPrefix(op, "call:") {
		return nativeCall(op[5:], a)
	}
	return unkT{}
}

type unkT struct{}
type notApplicable struct{}

func binConst(op string, x, y any) any {
	switch op {
	case "==":
		return anyKey(x) == anyKey(y)
	case "!=":
		return anyKey(x) != anyKey(y)
	}
	switch a := x.(type) {
	case int64:
		b, ok := y.(int64)
		if !ok {
			return unkT{}
		}
		switch op {
		case "+":
			return a + b
		case "-":
			return a - b
		case "*":
			return a * b
		case "/":
			return a / b
		case "%":
			return a % b
		case "<":
			return a < b
		case "<=":
			return a <= b
		case ">":
			return a > b
		case ">=":
			return a >= b
		case "&":
			return a & b
		case "|":
			return a | b
		case "^":
			return a ^ b
		case "&^":
			return a &^ b
		case "<<":
			return a << uint(b)
		case ">>":
			return a >> uint(b)
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			return unkT{}
		}
		switch op {
		case "+":
			return a + b
		case "-":
			return a - b
		case "*":
			return a * b
		case "/":
			return a / b
		case "<":
			return a < b
		case "<=":
			return a <= b
		case ">":
			return a > b
		case ">=":
			return a >= b
		}
	case string:
		b, ok := y.(string)
		if !ok {
			return unkT{}
		}
		switch op {
		case "+":
			return a + b
		case "<":
			return a < b
		case "<=":
			return a <= b
		case ">":
			return a > b
		case ">=":
			return a >= b
		}
	case bool:
		b, ok := y.(bool)
		if !ok {
			return unkT{}
		}
		switch op {
		case "&":
			return a && b
		case "|":
			return a || b
		}
	}
	return unkT{}
}

func str(a any) string {
	s, ok := a.(string)
	if !ok {
		panic(notApplicable{})
	}
	return s
}
func num(a any) int64 {
	s, ok := a.(int64)
	if !ok {
		panic(notApplicable{})
	}
	return s
}
func strs(a any) []string {
	if _, ok := a.(nilT); ok {
		return nil
	}
	l, ok := a.([]any)
	if !ok {
		panic(notApplicable{})
	}
	out := []string{}
	for _, x := range l {
		out = append(out, str(x))
	}
	return out
}

// pureNatives are library functions of constants, evaluated per class.
var pureNatives = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`strings.ToUpper strings.ToLower strings.TrimSpace strings.HasPrefix strings.HasSuffix
strings.Contains strings.ContainsAny strings.ContainsRune strings.EqualFold strings.Index strings.IndexByte strings.IndexRune strings.IndexAny
strings.LastIndex strings.LastIndexByte strings.Trim strings.TrimLeft strings.TrimRight strings.TrimPrefix strings.TrimSuffix strings.Replace strings.ReplaceAll
strings.Repeat strings.Title strings.ToTitle strings.Count strings.Compare strings.Split strings.Fields strings.Cut strings.CutPrefix strings.CutSuffix
strconv.Atoi strconv.ParseFloat strconv.ParseInt strconv.ParseUint strconv.Itoa strconv.Quote strconv.ParseBool strconv.FormatInt strconv.Unquote
unicode.IsDigit unicode.IsLetter unicode.IsSpace unicode.IsUpper unicode.IsLower unicode.IsNumber unicode.ToUpper unicode.ToLower unicode.IsPunct unicode.IsControl unicode.IsPrint
unicode/utf8.RuneCountInString unicode/utf8.RuneLen unicode/utf8.ValidString
math.IsInf math.IsNaN math.Inf math.NaN math.Abs math.Trunc math.Floor
regexp.MatchString (*regexp.Regexp).MatchString (*regexp.Regexp).String`) {
		pureNatives[n] = true
	}
}

func nativeCall(n string, a []any) any {
	b := func(x bool) any { return x }
	i := func(x int) any { return int64(x) }
	switch n {
	case "strings.ToUpper":
		return strings.ToUpper(str(a[0]))
	case "strings.ToLower":
		return strings.ToLower(str(a[0]))
	case "strings.Title":
		return strings.Title(str(a[0]))
	case "strings.ToTitle":
		return strings.ToTitle(str(a[0]))
	case "strings.TrimSpace":
		return strings.TrimSpace(str(a[0]))
	case "strings.HasPrefix":
		return b(strings.HasPrefix(str(a[0]), str(a[1])))
	case "strings.HasSuffix":
		return b(strings.HasSuffix(str(a[0]), str(a[1])))
	case "strings.Contains":
		return b(strings.Contains(str(a[0]), str(a[1])))
	case "strings.ContainsAny":
		return b(strings.ContainsAny(str(a[0]), str(a[1])))
	case "strings.ContainsRune":
		return b(strings.ContainsRune(str(a[0]), rune(num(a[1]))))
	case "strings.EqualFold":
		return b(strings.EqualFold(str(a[0]), str(a[1])))
	case "strings.Index":
		return i(strings.Index(str(a[0]), str(a[1])))
	case "strings.LastIndex":
		return i(strings.LastIndex(str(a[0]), str(a[1])))
	case "strings.IndexAny":
		return i(strings.IndexAny(str(a[0]), str(a[1])))
	case "strings.IndexByte":
		return i(strings.IndexByte(str(a[0]), byte(num(a[1]))))
	case "strings.LastIndexByte":
		return i(strings.LastIndexByte(str(a[0]), byte(num(a[1]))))
	case "strings.IndexRune":
		return i(strings.IndexRune(str(a[0]), rune(num(a[1]))))
	case "strings.Count":
		return i(strings.Count(str(a[0]), str(a[1])))
	case "strings.Compare":
		return i(strings.Compare(str(a[0]), str(a[1])))
	case "strings.Trim":
		return strings.Trim(str(a[0]), str(a[1]))
	case "strings.TrimLeft":
		return strings.TrimLeft(str(a[0]), str(a[1]))
	case "strings.TrimRight":
		return strings.TrimRight(str(a[0]), str(a[1]))
	case "strings.TrimPrefix":
		return strings.TrimPrefix(str(a[0]), str(a[1]))
	case "strings.TrimSuffix":
		return strings.TrimSuffix(str(a[0]), str(a[1]))
	case "strings.Replace":
		return strings.Replace(str(a[0]), str(a[1]), str(a[2]), int(num(a[3])))
	case "strings.ReplaceAll":
		return strings.ReplaceAll(str(a[0]), str(a[1]), str(a[2]))
	case "strings.Repeat":
		return strings.Repeat(str(a[0]), int(num(a[1])))
	case "strings.Cut":
		x, y, ok := strings.Cut(str(a[0]), str(a[1]))
		return []any{x, y, ok}
	case "strings.CutPrefix":
		x, ok := strings.CutPrefix(str(a[0]), str(a[1]))
		return []any{x, ok}
	case "strings.CutSuffix":
		x, ok := strings.CutSuffix(str(a[0]), str(a[1]))
		return []any{x, ok}
	case "strconv.Atoi":
		v, err := strconv.Atoi(str(a[0]))
		return []any{int64(v), errOf(err)}
	case "strconv.ParseInt":
		v, err := strconv.ParseInt(str(a[0]), int(num(a[1])), int(num(a[2])))
		return []any{v, errOf(err)}
	case "strconv.ParseUint":
		v, err := strconv.ParseUint(str(a[0]), int(num(a[1])), int(num(a[2])))
		return []any{int64(v), errOf(err)}
	case "strconv.ParseFloat":
		v, err := strconv.ParseFloat(str(a[0]), int(num(a[1])))
		return []any{v, errOf(err)}
	case "strconv.ParseBool":
		v, err := strconv.ParseBool(str(a[0]))
		return []any{v, errOf(err)}
	case "strconv.Unquote":
		v, err := strconv.Unquote(str(a[0]))
		return []any{v, errOf(err)}
	case "strconv.Itoa":
		return strconv.Itoa(int(num(a[0])))
	case "strconv.FormatInt":
		return strconv.FormatInt(num(a[0]), int(num(a[1])))
	case "strconv.Quote":
		return strconv.Quote(str(a[0]))
	case "unicode.IsDigit":
		return b(unicode.IsDigit(rune(num(a[0]))))
	case "unicode.IsNumber":
		return b(unicode.IsNumber(rune(num(a[0]))))
	case "unicode.IsLetter":
		return b(unicode.IsLetter(rune(num(a[0]))))
	case "unicode.IsSpace":
		return b(unicode.IsSpace(rune(num(a[0]))))
	case "unicode.IsUpper":
		return b(unicode.IsUpper(rune(num(a[0]))))
	case "unicode.IsLower":
		return b(unicode.IsLower(rune(num(a[0]))))
	case "unicode.IsPunct":
		return b(unicode.IsPunct(rune(num(a[0]))))
	case "unicode.IsControl":
		return b(unicode.IsControl(rune(num(a[0]))))
	case "unicode.IsPrint":
		return b(unicode.IsPrint(rune(num(a[0]))))
	case "unicode.ToUpper":
		return int64(unicode.ToUpper(rune(num(a[0]))))
	case "unicode.ToLower":
		return int64(unicode.ToLower(rune(num(a[0]))))
	case "unicode/utf8.RuneCountInString":
		return i(utf8.RuneCountInString(str(a[0])))
	case "unicode/utf8.RuneLen":
		return i(utf8.RuneLen(rune(num(a[0]))))
	case "unicode/utf8.ValidString":
		return b(utf8.ValidString(str(a[0])))
	case "math.IsInf":
		return b(math.IsInf(a[0].(float64), int(num(a[1]))))
	case "math.IsNaN":
		return b(math.IsNaN(a[0].(float64)))
	case "math.Inf":
		return math.Inf(int(num(a[0])))
	case "math.NaN":
		return math.NaN()
	case "math.Abs":
		return math.Abs(a[0].(float64))
	case "math.Trunc":
		return math.Trunc(a[0].(float64))
	case "math.Floor":
		return math.Floor(a[0].(float64))
	case "regexp.MatchString":
		r := compileRe(str(a[0]))
		if r == nil {
			return []any{false, errT{"regexp"}}
		}
		return []any{r.MatchString(str(a[1])), nilT{}}
	case "(*regexp.Regexp).MatchString":
		r, ok := a[0].(reT)
		if !ok {
			return unkT{}
		}
		return compileRe(r.p).MatchString(str(a[1]))
	case "(*regexp.Regexp).String":
		return a[0].(reT).p
	}
	return unkT{}
}
