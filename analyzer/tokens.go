package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

func specPosInt(s string) bool {
	n, err := strconv.Atoi(s)
	return err == nil && n > 0
}

func specNumber(s string) bool {
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && !math.IsInf(f, 0) && !math.IsNaN(f)
}

// validToken reports whether the lexer of the dialect can produce s.
func validToken(rdbms, s string) bool {
	if s == "" || !utf8.ValidString(s) {
		return false
	}
	if s == "\n" || (len(s) == 1 && strings.Contains(".(),;=", s)) {
		return true
	}
	if q := s[0]; q == '"' || q == '\'' || q == '`' {
		if q == '`' && rdbms == "PostgreSQL" {
			return false
		}
		return len(s) >= 2 && s[len(s)-1] == q && strings.IndexByte(s[1:len(s)-1], q) < 0
	}
	if strings.ContainsAny(s, " \t\r\n(),;=\"'`\u3000") || strings.Contains(s, "--") || strings.Contains(s, "/*") || strings.Contains(s, "*/") {
		return false
	}
	if rdbms == "MySQL" && strings.Contains(s, "#") {
		return false
	}
	dig := func(i int) bool { return i >= 0 && i < len(s) && s[i] >= '0' && s[i] <= '9' }
	for i := 0; i < len(s); i++ {
		if s[i] == '.' && !(dig(i-1) && dig(i+1)) {
			return false
		}
	}
	return true
}

func title(s string) string {
	s = strings.ToLower(s)
	return strings.ToUpper(s[:1]) + s[1:]
}

// mixed is a spelling with one odd letter at the end.
func mixed(s string) string {
	s = strings.ToLower(s)
	return s[:len(s)-1] + strings.ToUpper(s[len(s)-1:])
}

// tokenAlphabet is the finite set of tokens the validator and converter are
// analysed on: every word either side compares with, neighbours of them, and
// members of each lexical category.
func tokenAlphabet(rdbms string, pc *progConsts, spec []string, out bool) *Alphabet {
	m := map[string]bool{}
	add := func(ss ...string) {
		for _, s := range ss {
			if validToken(rdbms, s) && s != "\n" {
				m[s] = true
			}
		}
	}
	kws := map[string]bool{}
	for _, w := range spec {
		kws[w] = true
		add(strings.ToUpper(w), strings.ToLower(w))
		if specWord(w) {
			add(title(w), mixed(w), w+"x1", strings.ToLower(w)+"_", "x"+w, strings.ToLower(w[:len(w)-1]))
		}
	}
	for _, l := range [][]string{reservedSQLite, reservedPostgreSQL, reservedMySQL, typesPostgreSQL, typesMySQL} {
		for _, w := range l {
			add(w, strings.ToLower(w))
		}
	}
	for _, l := range map[string][]string{"SQLite": reservedSQLite, "PostgreSQL": reservedPostgreSQL, "MySQL": reservedMySQL}[rdbms] {
		add(title(l))
	}
	for s := range pc.strs {
		add(s, strings.ToUpper(s), strings.ToLower(s))
		if specWord(s) {
			add(title(s), s+"x1")
		}
		if len(s) < 20 {
			for _, q := range []string{"\"", "'", "`"} {
				if !kws[s] && !specWord(s) {
					add(q + s + q)
				}
			}
		}
	}
	add(".", "(", ")", ",", ";", "=")
	add("a", "b", "x", "z", "A", "Z", "_", "_a", "a_", "a1", "A_b9", "camelCase", "T1", "__", "_0", "id", "users", "n", "name_")
	lens := map[int]bool{1: true, 2: true, 3: true, 8: true, 16: true, 30: true, 31: true, 63: true, 64: true, 65: true, 128: true, 129: true, 255: true, 256: true, 1000: true}
	for n := range pc.ints {
		if n > 0 && n < 2000 {
			lens[int(n)], lens[int(n)+1] = true, true
			if n > 1 {
				lens[int(n)-1] = true
			}
		}
		add(fmt.Sprint(n))
		if n < math.MaxInt64 {
			add(fmt.Sprint(n + 1))
		}
		if n > math.MinInt64 {
			add(fmt.Sprint(n - 1))
		}
	}
	for n := range lens {
		add(strings.Repeat("q", n))
		if n >= 2 {
			for _, q := range []string{"\"", "'", "`"} {
				add(q + strings.Repeat("q", n-2) + q)
			}
		}
		if n <= 20 {
			add(strings.Repeat("7", n))
		}
	}
	add("0", "1", "2", "5", "9", "10", "18", "007", "00", "255", "65535", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999", "-1", "+5", "-0", "+0", "1.5", "0.5", "-1.5", "10.25", "0.0", "1e5", "1E5", "1e-5", "1e+5", "-1e5", "2.5e3", "1e999", "-1e999", "1e400", "4.9e-324", "0x10", "0X1F", "0x1p-2", "1_000", "0b1", "0o7", "1a", "1abc", "9x", "0_", "inf", "Inf", "INF", "-inf", "+Inf", "infinity", "Infinity", "nan", "NaN", "NAN", "e5", "1e", "5-", "--"[:1], "-", "+", "*", "/", "%", "<", ">", "<>", "!", "<EOF>", "<eof>", "EOF", "|", "||", "&", "^", "~", "@", "@a", "$1", "$a", "a$", "a-b", "-a", "a+b", "a*b", "a/b", "?", ":", "::", ":a", "[", "]", "[a]", "{", "}", "\\", "a\\b", "#", "#a", "a#", "1-1", "x'")
	add("é", "été", "aé", "ä", "ı", "İ", "ſ", "ß", "ﬀ", "K", "あ", "日本", "ａ", "１", "a\u00a0b", "\u00a0", "\u200b", "\ufeff", "\ufffd", "😀", "ſelect", "ınt", "tıme", "priſary", "nuLl", "µ")
	for _, q := range []string{"\"", "'", "`"} {
		for _, c := range []string{"", "a", "A", "a b", " ", "1", "1.5", "NULL", "null", "TRUE", "CREATE", "table", "select", "(", ")", ",", ";", ".", "a.b", "=", "--", "--a", "/*", "*/", "/* a */", "#", "\\", "\\\\", "\n", "a\nb", "\t", "\r", "\u3000", "é", "あ", "😀", "ı", "<EOF>", "PRIMARY", "CONSTRAINT", "%s", "x'y", "x\"y", "x`y", "''", "\"\"", "``", "'a'", "\"a\"", "`a`", "'", "\"", "`", "AUTOINCREMENT", "inf", "  a  "} {
			add(q + c + q)
		}
	}
	reps := make([]string, 0, len(m))
	for s := range m {
		reps = append(reps, s)
	}
	sort.Strings(reps)
	if !out {
		reps = append([]string{"\n"}, reps...)
	}
	an := newAlphabet(reps, false)
	an.cased = map[string]bool{}
	for _, w := range spec {
		if specWord(w) {
			an.cased[strings.ToLower(w)], an.cased[title(w)], an.cased[mixed(w)] = true, true, true
			delete(an.cased, strings.ToUpper(w))
		}
	}
	return an
}
