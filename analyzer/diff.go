package main

import (
	"go/types"
	"strings"
)

// fieldProp names the property that a field of the table model belongs to.
func fieldProp(typ, field string) []string {
	switch typ {
	case "Table":
		if field == "Columns" {
			return []string{"C12"}
		}
		if field == "Constraints" {
			return []string{"C16"}
		}
		return []string{"C11"}
	case "Column":
		if field == "Constraint" {
			return nil
		}
		return []string{"C12"}
	case "DataType":
		return []string{"C12"}
	case "Constraint":
		switch field {
		case "Default":
			return []string{"C14"}
		case "Check":
			return []string{"C15"}
		case "References":
			return nil
		}
		return []string{"C13"}
	case "TableConstraint", "PrimaryKey", "Unique", "ForeignKey":
		return []string{"C16"}
	case "Check":
		if field == "Expr" {
			return []string{"C15", "C16"}
		}
		return []string{"C16"}
	}
	return nil
}

// diffTags are the properties concerned when the program's value got differs
// from the expected value want (nil: nothing).
func (e *Engine) diffTags(st *State, got, want Val) []string {
	m := map[string]bool{}
	for _, t := range e.outTags(st) {
		m[t] = true
	}
	if e.an.runes {
		if e.isBreak(st, got) || e.isBreak(st, want) {
			// tokens are the same, line counts are not
			return []string{"C04"}
		}
		if g, ok := e.first(st, got, want); ok && (e.isBreak(st, g[0]) || e.isBreak(st, g[1])) {
			return []string{"C04"}
		}
		return sortedKeys(m)
	}
	n := 0
	d := map[string]bool{}
	e.diff(st, got, want, "", d, &n)
	if modelTag(d) {
		// the fields that differ say which properties are concerned
		m = map[string]bool{}
	}
	for t := range d {
		m[t] = true
	}
	return sortedKeys(m)
}

// modelTag: some part of the table model is named.
func modelTag(m map[string]bool) bool {
	for t := range m {
		if t >= "C11" && t <= "C16" {
			return true
		}
	}
	return false
}

func (e *Engine) isBreak(st *State, v Val) bool {
	switch v := v.(type) {
	case Str:
		return v == "\n"
	case *Expr:
		c, ok := e.exprConst(st, v)
		return ok && c == any("\n")
	}
	return false
}

// first gives the first elements on which two lists differ.
func (e *Engine) first(st *State, got, want Val) ([2]Val, bool) {
	el := func(v Val) ([]Val, bool) {
		s, ok := v.(Slice)
		if !ok {
			return nil, false
		}
		o := e.obj(st, s.obj)
		if o == nil {
			return nil, false
		}
		av, ok := o.v.(*ArrV)
		if !ok || s.lo != 0 || s.hi > len(av.elems) {
			return nil, false
		}
		return av.elems[:s.hi], true
	}
	a, ok1 := el(got)
	b, ok2 := el(want)
	if !ok1 || !ok2 {
		return [2]Val{}, false
	}
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y Val
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x == nil || y == nil || !e.mustEq(st, x, y) {
			return [2]Val{x, y}, true
		}
	}
	return [2]Val{}, false
}

// lenS is the length of a list, -1 for anything else.
func lenS(v Val) int {
	if x, ok := v.(Slice); ok {
		return x.hi - x.lo
	}
	return -1
}

func (e *Engine) diff(st *State, got, want Val, typ string, m map[string]bool, n *int) {
	if *n++; *n > 400 || want == nil || got == nil || e.mustEq(st, got, want) {
		return
	}
	switch w := want.(type) {
	case *Struct:
		g, ok := got.(*Struct)
		if !ok || len(g.f) != len(w.f) {
			return
		}
		name := ""
		if nt, ok := w.t.(*types.Named); ok {
			name = nt.Obj().Name()
		}
		u, ok := w.t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := range w.f {
			if e.mustEq(st, g.f[i], w.f[i]) {
				continue
			}
			f := u.Field(i).Name()
			sub := map[string]bool{}
			if x, ok := g.f[i].(Slice); !ok || x.hi-x.lo == lenS(w.f[i]) {
				e.diff(st, g.f[i], w.f[i], name, sub, n)
			}
			if f == "Name" && name != "DataType" || f == "Schema" || f == "TableName" || f == "ColumnNames" {
				delete(sub, "C23") // names are not keywords
			}
			if _, list := w.f[i].(Slice); !list || !modelTag(sub) {
				for _, p := range fieldProp(name, f) {
					m[p] = true
				}
			}
			for t := range sub {
				m[t] = true
			}
			switch f {
			case "Name", "Schema", "TableName", "ColumnNames":
				if name != "DataType" {
					m["C18"] = true
				}
			}
			if name == "Constraint" && f == "Default" {
				if x, ok := w.f[i].(*Iface); ok {
					if _, text := x.v.(*Cat); text {
						m["C15"] = true
					}
				}
			}
			if name == "Reference" {
				m["C13"], m["C16"] = true, true
			}
		}
	case *Iface:
		if g, ok := got.(*Iface); ok {
			e.diff(st, g.v, w.v, typ, m, n)
		}
	case Slice:
		if p, ok := e.first(st, got, want); ok && p[0] != nil && p[1] != nil {
			e.diff(st, p[0], p[1], typ, m, n)
		}
	case *Opaque:
		if w.name == "kw" && len(w.args) == 1 {
			e.diff(st, got, w.args[0], typ, m, n)
		}
	case *Expr:
		el := st.elemAt(w.pos)
		if el == nil {
			return
		}
		quoted, cased := false, false
		g, same := got.(*Expr)
		el.cls.each(func(c int) {
			r := e.an.reps[c]
			q, _ := w.sh.eval(c).(string)
			var p string
			known := false
			if same && g.pos == w.pos {
				p, known = g.sh.eval(c).(string)
			}
			if !known || p == q {
				return
			}
			if r != "" && strings.Contains("\"'`", r[:1]) {
				quoted = true
			}
			if strings.EqualFold(p, q) {
				cased = true
			}
		})
		if quoted {
			m["C09"] = true
		}
		if cased {
			m["C23"] = true
		}
	}
}
