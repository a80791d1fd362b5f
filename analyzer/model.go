package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The documented table model: field, type, JSON key.
var documented = map[string][][3]string{
	"Table":           {{"Schema", "string", "schema"}, {"Name", "string", "name"}, {"IfNotExists", "bool", "if_not_exists"}, {"Columns", "[]Column", "columns"}, {"Constraints", "TableConstraint", "constraints"}},
	"Column":          {{"Name", "string", "name"}, {"DataType", "DataType", "data_type"}, {"Constraint", "Constraint", "constraint"}},
	"DataType":        {{"Name", "string", "name"}, {"DigitN", "int", "digit_n"}, {"DigitM", "int", "digit_m"}},
	"Constraint":      {{"Name", "string", "name"}, {"IsPrimaryKey", "bool", "is_primary_key"}, {"IsUnique", "bool", "is_unique"}, {"IsNotNull", "bool", "is_not_null"}, {"IsAutoincrement", "bool", "is_autoincrement"}, {"Default", "interface{}", "default"}, {"Check", "string", "check"}, {"Collate", "string", "collate"}, {"References", "Reference", "references"}},
	"Reference":       {{"TableName", "string", "table_name"}, {"ColumnNames", "[]string", "column_names"}},
	"TableConstraint": {{"PrimaryKey", "[]PrimaryKey", "primary_key"}, {"Unique", "[]Unique", "unique"}, {"Check", "[]Check", "check"}, {"ForeignKey", "[]ForeignKey", "foreign_key"}},
	"PrimaryKey":      {{"Name", "string", "name"}, {"ColumnNames", "[]string", "column_names"}},
	"Unique":          {{"Name", "string", "name"}, {"ColumnNames", "[]string", "column_names"}},
	"Check":           {{"Name", "string", "name"}, {"Expr", "string", "expr"}},
	"ForeignKey":      {{"Name", "string", "name"}, {"ColumnNames", "[]string", "column_names"}, {"References", "Reference", "references"}},
}

type model struct {
	P     *Program
	r     *Result
	tname map[types.Type]string // named types of the model by documented name
}

func (m *model) find(pos token.Pos, where, f string, a ...any) {
	m.r.Findings = append(m.r.Findings, &Finding{Kind: "model", Pos: m.P.posOf(pos) + " (" + where + ")", Msg: "model: " + fmt.Sprintf(f, a...), Tags: []string{"C24"}})
}

func (m *model) show(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := m.tname[t]; ok {
		return n
	}
	switch t := t.(type) {
	case *types.Slice:
		return "[]" + m.show(t.Elem())
	case *types.Pointer:
		return "*" + m.show(t.Elem())
	case *types.Interface:
		if t.Empty() {
			return "interface{}"
		}
	}
	return t.String()
}

func runModel(P *Program) *Result {
	t0 := time.Now()
	m := &model{P: P, r: &Result{Name: "model", Stage: "model"}, tname: map[types.Type]string{}}
	sc := P.TPkgs[modPath].Types.Scope()
	// the types as the user names them
	named := map[string]types.Type{}
	for n := range documented {
		o, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			m.find(0, "package ddlparse", "exported type %s is missing", n)
			continue
		}
		named[n] = types.Unalias(o.Type())
		m.tname[named[n]] = n
	}
	for _, n := range docNames(documented) {
		t, ok := named[n]
		if !ok {
			continue
		}
		pos := sc.Lookup(n).Pos()
		if nt, ok := t.(*types.Named); ok {
			pos = nt.Obj().Pos()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			m.find(pos, n, "type %s is not a struct", n)
			continue
		}
		m.r.States++
		want := map[string][3]string{}
		for _, f := range documented[n] {
			want[f[0]] = f
		}
		keys := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			m.r.Sites++
			w, ok := want[f.Name()]
			if !ok {
				if f.Exported() {
					m.find(f.Pos(), n, "field %s.%s is not documented", n, f.Name())
				}
				continue
			}
			delete(want, f.Name())
			if got := m.show(f.Type()); got != w[1] && !(w[1] == "interface{}" && got == "any") {
				m.find(f.Pos(), n, "field %s.%s has type %s, documented is %s", n, f.Name(), got, w[1])
			}
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			key, opt, _ := strings.Cut(tag, ",")
			if tag == "-" {
				m.find(f.Pos(), n, "field %s.%s is left out of JSON", n, f.Name())
				continue
			}
			if key == "" {
				key = f.Name()
			}
			if key != w[2] {
				m.find(f.Pos(), n, "field %s.%s has the JSON key %q, documented is %q", n, f.Name(), key, w[2])
			}
			for _, o := range strings.Split(opt, ",") {
				if o == "omitempty" || o == "omitzero" || o == "string" {
					m.find(f.Pos(), n, "field %s.%s has the JSON option %s", n, f.Name(), o)
				}
			}
			if o, dup := keys[key]; dup {
				m.find(f.Pos(), n, "fields %s and %s of %s have the same JSON key", o, f.Name(), n)
			}
			keys[key] = f.Name()
		}
		for _, f := range documented[n] {
			if _, missing := want[f[0]]; missing {
				m.find(pos, n, "field %s.%s is missing", n, f[0])
			}
		}
	}
	// functions, error type, constants
	errIface := types.Universe.Lookup("error").Type()
	tables := func(t types.Type) bool { return m.show(t) == "[]Table" }
	rd, _ := sc.Lookup("Rdbms").(*types.TypeName)
	if rd == nil {
		m.find(0, "package ddlparse", "exported type Rdbms is missing")
	}
	for _, n := range []string{"Parse", "ParseSQLite", "ParsePostgreSQL", "ParseMySQL", "ParseForce"} {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok {
			m.find(0, "package ddlparse", "function %s is missing", n)
			continue
		}
		m.r.Sites++
		sg := f.Type().(*types.Signature)
		ok = sg.Results().Len() == 2 && tables(sg.Results().At(0).Type()) && types.Identical(sg.Results().At(1).Type(), errIface)
		np := 1
		if n == "Parse" {
			np = 2
		}
		ok = ok && sg.Params().Len() == np && m.show(sg.Params().At(0).Type()) == "string"
		if ok && np == 2 && rd != nil {
			ok = types.Identical(sg.Params().At(1).Type(), rd.Type())
		}
		if !ok {
			m.find(f.Pos(), n, "function %s has the signature %s", n, sg)
		}
	}
	vals := map[string]string{}
	for _, d := range dialects {
		c, ok := sc.Lookup(d).(*types.Const)
		if !ok {
			m.find(0, "package ddlparse", "constant %s is missing", d)
			continue
		}
		m.r.Sites++
		if rd != nil && !types.Identical(c.Type(), rd.Type()) {
			m.find(c.Pos(), d, "constant %s has type %s", d, c.Type())
		}
		if o, dup := vals[c.Val().ExactString()]; dup {
			m.find(c.Pos(), d, "constants %s and %s are the same value", d, o)
			m.r.Findings[len(m.r.Findings)-1].Tags = []string{"C24", "C21"}
		}
		vals[c.Val().ExactString()] = d
	}
	if o, ok := sc.Lookup("ValidateError").(*types.TypeName); ok {
		st, ok := types.Unalias(o.Type()).Underlying().(*types.Struct)
		got := map[string]string{}
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				got[st.Field(i).Name()] = m.show(st.Field(i).Type())
			}
		}
		if got["Line"] != "int" || got["Near"] != "string" {
			m.find(o.Pos(), "ValidateError", "ValidateError does not have Line int and Near string")
		} else {
			m.errorText(types.Unalias(o.Type()))
		}
	} else {
		m.find(0, "package ddlparse", "exported type ValidateError is missing")
	}
	m.r.Elapsed = time.Since(t0)
	return m.r
}

func docNames(d map[string][][3]string) []string {
	var k []string
	for n := range d {
		k = append(k, n)
	}
	sortStrings(k)
	return k
}

// errorText decides whether every text that Error can return contains the
// near token and the line. A part is a field ("Near", "Line"), a literal, or
// something else.
func (m *model) errorText(t types.Type) {
	f := methodOf(m.P, t, "Error")
	if f == nil {
		m.find(0, "ValidateError", "ValidateError has no Error method")
		return
	}
	m.r.Funcs = append(m.r.Funcs, f.String())
	st := t.Underlying().(*types.Struct)
	var field func(v ssa.Value, fn *ssa.Function) string
	field = func(v ssa.Value, fn *ssa.Function) string {
		switch v := v.(type) {
		case *ssa.Field:
			if types.Identical(v.X.Type(), t) {
				return st.Field(v.Field).Name()
			}
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
				if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
					return st.Field(fa.Field).Name()
				}
			}
		case *ssa.MakeInterface:
			return field(v.X, fn)
		case *ssa.ChangeType:
			return field(v.X, fn)
		}
		return ""
	}
	// the ways a text is put together: each is a list of parts, "?" for one
	// that is not understood
	cross := func(a, b [][]string) [][]string {
		var out [][]string
		for _, x := range a {
			for _, y := range b {
				if len(out) >= 256 {
					return [][]string{{"?"}}
				}
				out = append(out, append(append([]string{}, x...), y...))
			}
		}
		return out
	}
	unknown := [][]string{{"?"}}
	type frame map[*ssa.Parameter]ssa.Value
	var parts func(v ssa.Value, fr []frame, d int) [][]string
	// each replaces the parts of a field: f gives the new name
	each := func(ps [][]string, g func(string) string) [][]string {
		for _, p := range ps {
			for i := range p {
				p[i] = g(p[i])
			}
		}
		return ps
	}
	changed := func(x string) string {
		if x == "Near" || x == "Line" {
			return "changed " + x
		}
		return x
	}
	parts = func(v ssa.Value, fr []frame, d int) [][]string {
		if d > 30 {
			return unknown
		}
		if n := field(v, f); n != "" {
			return [][]string{{n}}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return [][]string{{"lit"}}
		case *ssa.Parameter:
			if len(fr) > 0 {
				if a, ok := fr[len(fr)-1][v]; ok {
					return parts(a, fr[:len(fr)-1], d+1)
				}
			}
		case *ssa.MakeInterface:
			return parts(v.X, fr, d+1)
		case *ssa.ChangeType:
			return parts(v.X, fr, d+1)
		case *ssa.Phi:
			var out [][]string
			for _, e := range v.Edges {
				out = append(out, parts(e, fr, d+4)...)
			}
			if len(out) > 64 {
				return unknown
			}
			return out
		case *ssa.Slice:
			if isStrType(v.X.Type()) && (v.High != nil || v.Low != nil) {
				return each(parts(v.X, fr, d+1), changed)
			}
		case *ssa.BinOp:
			if v.Op == token.ADD && isStrType(v.Type()) {
				return cross(parts(v.X, fr, d+1), parts(v.Y, fr, d+1))
			}
			if !isStrType(v.Type()) {
				// a changed number
				return each(cross(parts(v.X, fr, d+1), parts(v.Y, fr, d+1)), changed)
			}
		case *ssa.Convert:
			return parts(v.X, fr, d+1)
		case *ssa.Call:
			switch calleeName(v.Common()) {
			case "strconv.Itoa":
				return parts(v.Call.Args[0], fr, d+1)
			case "strconv.Quote":
				return parts(v.Call.Args[0], fr, d+1)
			case "strconv.FormatInt":
				if k, ok := v.Call.Args[1].(*ssa.Const); ok && k.Int64() == 10 {
					return parts(v.Call.Args[0], fr, d+1)
				}
				return each(parts(v.Call.Args[0], fr, d+1), changed)
			case "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Title":
				return each(parts(v.Call.Args[0], fr, d+1), changed)
			case "fmt.Sprint", "fmt.Sprintln":
				out := [][]string{{}}
				for _, a := range varargs(v.Call.Args[0]) {
					out = cross(out, parts(a, fr, d+1))
				}
				return out
			case "fmt.Sprintf":
				c, ok := v.Call.Args[0].(*ssa.Const)
				if !ok || c.Value == nil {
					return unknown
				}
				args := varargs(v.Call.Args[1])
				out := [][]string{{}}
				fm := constant.StringVal(c.Value)
				n := 0
				for i := 0; i < len(fm); i++ {
					if fm[i] != '%' {
						continue
					}
					i++
					if i < len(fm) && fm[i] == '%' {
						continue
					}
					cut := false
					for i < len(fm) && strings.IndexByte("+-# 0123456789.", fm[i]) >= 0 {
						if fm[i] == '.' {
							cut = true
						}
						i++
					}
					if i >= len(fm) || fm[i] == '[' || fm[i] == '*' {
						return unknown
					}
					if n >= len(args) {
						return cross(out, [][]string{{"missing"}})
					}
					p := parts(args[n], fr, d+1)
					n++
					p = each(p, func(x string) string {
						if x == "Line" && strings.IndexByte("dv", fm[i]) < 0 || x == "Near" && (cut || strings.IndexByte("svq", fm[i]) < 0) {
							return "changed " + x
						}
						return x
					})
					out = cross(out, p)
				}
				return out
			}
			if g := v.Common().StaticCallee(); g != nil && inRepo(g) && len(fr) < 4 {
				nf := frame{}
				for i, p := range g.Params {
					if i < len(v.Call.Args) {
						nf[p] = v.Call.Args[i]
					}
				}
				var out [][]string
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						out = append(out, parts(r.Results[0], append(append([]frame{}, fr...), nf), d+1)...)
					}
				}
				if len(out) > 0 && len(out) <= 64 {
					return out
				}
			}
		}
		return unknown
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) != 1 {
			continue
		}
		m.r.Exits++
		for _, p := range parts(r.Results[0], nil, 0) {
			has := map[string]bool{}
			for _, x := range p {
				has[x] = true
			}
			switch {
			case has["?"]:
				m.r.Findings = append(m.r.Findings, &Finding{Kind: "undecided", Maybe: true, Pos: m.P.posOf(r.Pos()), Msg: "model: the error text is not understood"})
			case has["missing"] || !has["Line"] || !has["Near"]:
				m.find(r.Pos(), f.String(), "an error text does not contain the near token and the line of the error (it is made of %s)", strings.Join(p, ", "))
			}
		}
	}
}

// varargs are the elements of a variadic argument list.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	out := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				out[k.Int64()] = st.Val
			}
		}
	}
	var l []ssa.Value
	for i := int64(0); i < int64(len(out)); i++ {
		if out[i] == nil {
			return nil
		}
		l = append(l, out[i])
	}
	return l
}
