package main

// The accepted language of each dialect, what of it is passed on, and what
// each part means.

func (v *vocab) create(table any, others []string) any {
	notBeginSemi := v.an.set(func(r string) bool { return r != "BEGIN" && r != "begin" && r != ";" && r != "\n" })
	notEnd := v.an.set(func(r string) bool { return r != "END" && r != "end" && r != "\n" })
	other := tag("C17", seq(dk(others...),
		star(alt(seq(dk("BEGIN"), star(&Leaf{cls: notEnd, what: "any token"}), dk("END")),
			&Leaf{cls: notBeginSemi, what: "any token"})),
		dk(";")))
	return star(seq(tag("C11", dk("CREATE")), alt(table, other)))
}

func (v *vocab) tableHead() any {
	t := kw("TABLE").a("tbl:begin")
	t.pre = []string{"CREATE"}
	return tag("C11", seq(t,
		opt(kw("IF"), kw("NOT"), kw("EXISTS").a("tbl:ifne")),
		v.nm("tbl:n1"), opt(kw("."), v.nm("tbl:n2"))))
}

// cols is ( name, name, ... ) passed on.
func (v *vocab) cols(act string) any {
	return seq(kw("("), v.nm(act), star(kw(","), v.nm(act)), kw(")"))
}
func (v *vocab) colsD() any {
	return seq(dk("("), v.nmD(), star(dk(","), v.nmD()), dk(")"))
}

func (v *vocab) refTable() any {
	return seq(kw("REFERENCES").a("ref:begin"), v.nm("ref:t1"), opt(kw("."), v.nm("ref:t2")))
}

func (v *vocab) refActions() []any {
	return []any{
		seq(dk("ON"), dk("DELETE", "UPDATE"), alt(seq(dk("SET"), dk("NULL", "DEFAULT")), dk("CASCADE", "RESTRICT"), seq(dk("NO"), dk("ACTION")))),
	}
}

func held(n *Leaf) *Leaf { n.hold = true; return n }

// ---------------------------------------------------------------- SQLite

func grammarSQLite(v *vocab) any {
	conflict := func() any {
		return tag("C17", opt(dk("ON"), dk("CONFLICT"), dk("ROLLBACK", "ABORT", "FAIL", "IGNORE", "REPLACE")))
	}
	refOpts := func(column bool) any {
		a := v.refActions()
		a = append(a, seq(dk("MATCH"), alt(dk("SIMPLE", "PARTIAL", "FULL"), v.nmD())))
		initially := func() any { return opt(dk("INITIALLY"), dk("DEFERRED", "IMMEDIATE")) }
		a = append(a, seq(dk("DEFERRABLE"), initially()))
		d := dk("DEFERRABLE")
		d.unh = true
		x := seq(d, initially())
		if column {
			n := kw("NULL").a("cc:nn")
			n.null = true
			n.kind = "NOT"
			n.tags = []string{"C13"}
			x = alt(x, n)
		}
		a = append(a, seq(held(dk("NOT")), x))
		return tag("C17", star(gAlt(a)))
	}
	cc := alt(
		tag("C13", seq(kw("PRIMARY").k("PRIMARY"), kw("KEY").a("cc:pk"), tag("C17", opt(dk("ASC", "DESC"))), conflict(), opt(kw("AUTOINCREMENT").a("cc:ai")))),
		tag("C13", seq(kw("NOT").k("NOT"), kw("NULL").a("cc:nn"), conflict())),
		tag("C13", seq(kw("UNIQUE").k("UNIQUE").a("cc:uq"), conflict())),
		tag("C15", seq(kw("CHECK").k("CHECK"), v.bal("cc:chk"))),
		seq(tag("C13 C14 C15", kw("DEFAULT").k("DEFAULT")), alt(tag("C15", v.bal("cc:defx")), tag("C14", v.lit("cc:def")))),
		tag("C13", seq(kw("COLLATE").k("COLLATE"), kw("BINARY", "NOCASE", "RTRIM").a("cc:coll"))),
		tag("C13", seq(kw("REFERENCES").k("REFERENCES").a("ref:begin"), v.nm("ref:t1"), opt(kw("."), v.nm("ref:t2")), opt(kw("("), v.nm("ref:col"), kw(")")), refOpts(true))),
		tag("C17", seq(dk("GENERATED").k("GENERATED"), dk("ALWAYS"), dk("AS"), v.balD(), opt(dk("STORED", "VIRTUAL")))),
		tag("C17", seq(dk("AS").k("AS"), v.balD(), opt(dk("STORED", "VIRTUAL")))),
	)
	cn := v.nm("col:name")
	cn.reset = true
	column := seq(tag("C12", cn), tag("C12", kw("TEXT", "NUMERIC", "INTEGER", "REAL", "NONE").a("type")),
		tag("C13", opt(kw("CONSTRAINT"), v.nm("cc:name"))), star(cc))
	constraint := seq(tag("C16", opt(kw("CONSTRAINT"), v.nm("tc:name"))), alt(
		tag("C16", seq(kw("PRIMARY"), kw("KEY").a("tc:pk"), v.cols("tc:col"), conflict())),
		tag("C16", seq(kw("UNIQUE").a("tc:uq"), v.cols("tc:col"), conflict())),
		tag("C15 C16", seq(kw("CHECK").a("tc:ck"), v.bal("tc:expr"))),
		tag("C16", seq(kw("FOREIGN"), kw("KEY").a("tc:fk"), v.cols("tc:col"), v.refTable(), opt(v.cols("ref:col")), refOpts(false))),
	))
	end := kw(";")
	end.eofok = true
	table := seq(v.tableHead(), v.body(column, constraint),
		tag("C17", opt(alt(
			seq(dk("WITHOUT"), dk("ROWID"), opt(dk(","), dk("STRICT"))),
			seq(dk("STRICT"), opt(dk(","), dk("WITHOUT"), dk("ROWID")))))),
		tag("C11", end))
	tmp := opt(tag("C11 C17", dk("TEMP", "TEMPORARY")))
	return v.createS(tmp, table, []string{"VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE"})
}

// body is ( def, def, ... ).
func (v *vocab) body(column, constraint any) any {
	return seq(tag("C11 C12 C16", kw("(")),
		gPlus{alt(constraint, column), tag("C12 C16", kw(",").a("def:sep"))},
		tag("C11 C12 C16", kw(")").a("def:end")))
}

func (v *vocab) createS(tmp, table any, others []string) any {
	g := v.create(table, others).(gStar)
	s := g.x.(gSeq)[0].(gSeq)
	return gStar{gSeq{gSeq{s[0], tmp, s[1]}}}
}

// ---------------------------------------------------------------- PostgreSQL

func grammarPostgreSQL(v *vocab) any {
	n := func() any { return opt(kw("("), v.in("type:n"), kw(")")) }
	ps := func() any { return opt(kw("("), v.in("type:n"), opt(kw(","), v.in("type:m")), kw(")")) }
	typ := tag("C12", alt(
		seq(kw("BIT", "CHARACTER").a("type"), opt(kw("VARYING").a("type:vary")), n()),
		seq(kw("VARBIT", "VARCHAR", "CHAR").a("type"), n()),
		seq(kw("NUMERIC", "DECIMAL").a("type"), ps()),
		seq(kw("DOUBLE").a("type"), dk("PRECISION")),
		seq(kw("TIME", "TIMESTAMP").a("type"), n(), opt(dk("WITH", "WITHOUT"), dk("TIME"), dk("ZONE"))),
		kw(typesPostgreSQL...).a("type"),
	))
	idx := func() any {
		return tag("C17", seq(opt(dk("INCLUDE"), v.colsD()), opt(dk("WITH"), v.balD()), opt(dk("USING"), dk("INDEX"), dk("TABLESPACE"), v.nmD())))
	}
	refOpts := func() any {
		a := append(v.refActions(), seq(dk("MATCH"), dk("SIMPLE", "PARTIAL", "FULL")))
		return tag("C17", star(gAlt(a)))
	}
	ident := func() any { return seq(dk("IDENTITY"), opt(v.balD())) }
	noInherit := func() any { return tag("C17", opt(dk("NO"), dk("INHERIT"))) }
	cc := alt(
		tag("C13", seq(kw("PRIMARY").k("PRIMARY"), kw("KEY").a("cc:pk"), idx())),
		tag("C13", seq(kw("NOT").k("NULL"), kw("NULL").a("cc:nn"))),
		tag("C17", dk("NULL").k("NULL")),
		tag("C13", seq(kw("UNIQUE").k("UNIQUE").a("cc:uq"), idx())),
		tag("C15", seq(kw("CHECK").k("CHECK"), v.bal("cc:chk"), noInherit())),
		seq(tag("C13 C14 C15", kw("DEFAULT").k("DEFAULT")), alt(tag("C15", v.bal("cc:defx")), tag("C14", v.lit("cc:def")))),
		tag("C13", seq(kw("REFERENCES").k("REFERENCES").a("ref:begin"), v.nm("ref:t1"), opt(kw("."), v.nm("ref:t2")), opt(kw("("), v.nm("ref:col"), kw(")")), refOpts())),
		tag("C17", seq(dk("AS").k("AS"), v.balD(), opt(dk("STORED", "VIRTUAL")))),
		tag("C17", seq(dk("GENERATED").k("GENERATED"), alt(
			seq(dk("ALWAYS"), dk("AS"), alt(ident(), seq(v.balD(), dk("STORED")))),
			seq(dk("BY"), dk("DEFAULT"), dk("AS"), ident()),
			seq(dk("AS"), ident())))),
	)
	cn := v.nm("col:name")
	cn.reset = true
	column := seq(tag("C12", cn), typ, tag("C13", opt(kw("CONSTRAINT"), v.nm("cc:name"))), star(cc))
	constraint := seq(tag("C16", opt(kw("CONSTRAINT"), v.nm("tc:name"))), alt(
		tag("C16", seq(kw("PRIMARY"), kw("KEY").a("tc:pk"), v.cols("tc:col"), idx())),
		tag("C16", seq(kw("UNIQUE").a("tc:uq"), v.cols("tc:col"), idx())),
		tag("C15 C16", seq(kw("CHECK").a("tc:ck"), v.bal("tc:expr"), noInherit())),
		tag("C16", seq(kw("FOREIGN"), kw("KEY").a("tc:fk"), v.cols("tc:col"), v.refTable(), opt(v.cols("ref:col")), refOpts())),
		tag("C17", seq(dk("EXCLUDE"), opt(dk("USING"), v.nmD()), v.balD(), idx(), opt(dk("WHERE"), v.balD()))),
	))
	options := tag("C17", star(opt(dk(",")), alt(
		seq(dk("WITH"), v.balD()),
		seq(dk("WITHOUT"), dk("OIDS")),
		seq(dk("TABLESPACE"), v.nmD()),
		seq(dk("INHERITS"), v.balD()),
		seq(dk("PARTITION"), dk("BY"), dk("RANGE", "LIST", "HASH"), v.balD()),
		seq(dk("USING"), v.nmD()))))
	table := seq(v.tableHead(), v.body(column, constraint), options, tag("C11", kw(";")))
	return v.create(table, []string{"VIEW", "TRIGGER", "INDEX", "MATERIALIZED", "SEQUENCE", "FUNCTION", "TYPE",
		"PROCEDURE", "AGGREGATE", "SCHEMA", "ROLE", "USER", "GROUP", "TABLESPACE", "EXTENSION", "DATABASE", "LANGUAGE",
		"FOREIGN", "DOMAIN", "SERVER", "CONVERSION", "RULE", "COLLATION", "POLICY", "OPERATOR"})
}

// ---------------------------------------------------------------- MySQL

func grammarMySQL(v *vocab) any {
	n := func() any { return opt(kw("("), v.in("type:n"), kw(")")) }
	ps := func() any { return opt(kw("("), v.in("type:n"), opt(kw(","), v.in("type:m")), kw(")")) }
	eq := func() any { return opt(dk("=")) }
	typ := tag("C12", alt(
		seq(kw("VARCHAR", "CHAR", "BINARY", "VARBINARY", "BLOB", "TEXT").a("type"), n()),
		seq(kw("NUMERIC", "DECIMAL", "FLOAT", "REAL", "DOUBLE").a("type"), ps()),
		seq(kw("BIT", "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT").a("type"), n()),
		seq(kw("TIME", "DATETIME", "TIMESTAMP", "YEAR").a("type"), n(), opt(dk("WITH", "WITHOUT"), dk("TIME"), dk("ZONE"))),
		kw(typesMySQL...).a("type"),
	))
	refOpts := func() any {
		a := append(v.refActions(), seq(dk("MATCH"), dk("SIMPLE", "PARTIAL", "FULL")))
		return tag("C17", star(gAlt(a)))
	}
	enforced := func(column bool) any {
		d := dk("ENFORCED")
		d.unh = true
		var x any = d
		if column {
			nl := kw("NULL").a("cc:nn")
			nl.null = true
			nl.kind = "NULL"
			nl.tags = []string{"C13"}
			x = alt(d, nl)
		}
		return tag("C17", opt(alt(dk("ENFORCED"), seq(held(dk("NOT")), x))))
	}
	now := []string{"CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"}
	key := kw("KEY").k("PRIMARY").a("cc:pk")
	key.pre = []string{"PRIMARY"}
	cc := alt(
		tag("C13", seq(kw("PRIMARY").k("PRIMARY"), kw("KEY").a("cc:pk"))),
		tag("C13", key),
		tag("C13", seq(kw("NOT").k("NULL"), kw("NULL").a("cc:nn"))),
		tag("C17", dk("NULL").k("NULL")),
		tag("C13", seq(kw("UNIQUE").k("UNIQUE").a("cc:uq"), tag("C17", opt(dk("KEY"))))),
		tag("C15", seq(kw("CHECK").k("CHECK"), v.bal("cc:chk"), enforced(true))),
		seq(tag("C13 C14 C15", kw("DEFAULT").k("DEFAULT")), alt(tag("C15", v.bal("cc:defx")),
			seq(tag("C14", v.lit("cc:def")), tag("C17", opt(dk("ON"), dk("UPDATE"), dk(now...)))))),
		tag("C13", seq(kw("COLLATE").k("COLLATE"), v.nm("cc:coll"))),
		tag("C13", seq(kw("REFERENCES").k("REFERENCES").a("ref:begin"), v.nm("ref:t1"), opt(kw("."), v.nm("ref:t2")), opt(kw("("), v.nm("ref:col"), kw(")")), refOpts())),
		tag("C17", seq(dk("GENERATED").k("GENERATED"), dk("ALWAYS"), dk("AS"), v.balD())),
		tag("C17", seq(dk("AS").k("GENERATED"), v.balD())),
		tag("C17", seq(dk("COMMENT").k("COMMENT"), v.st())),
		tag("C17", seq(dk("COLUMN_FORMAT").k("COLUMN_FORMAT"), dk("FIXED", "DYNAMIC", "DEFAULT"))),
		tag("C17", seq(dk("ENGINE_ATTRIBUTE").k("ENGINE_ATTRIBUTE"), eq(), v.st())),
		tag("C17", seq(dk("SECONDARY_ENGINE_ATTRIBUTE").k("SECONDARY_ENGINE_ATTRIBUTE"), eq(), v.st())),
		tag("C17", seq(dk("STORAGE").k("STORAGE"), dk("DISK", "MEMORY"))),
		tag("C13", kw("AUTO_INCREMENT").k("AUTO_INCREMENT").a("cc:ai")),
		tag("C17", dk("VISIBLE").k("VISIBLE")),
		tag("C17", dk("INVISIBLE").k("INVISIBLE")),
		tag("C17", dk("VIRTUAL").k("VIRTUAL")),
		tag("C17", dk("STORED").k("STORED")),
	)
	cn := v.nm("col:name")
	cn.reset = true
	// after CONSTRAINT the word CHECK begins the constraint
	column := seq(tag("C12", cn), typ,
		opt(tag("C13", kw("CONSTRAINT")), alt(
			tag("C15", seq(kw("CHECK").k("CHECK"), v.bal("cc:chk"), enforced(true))),
			tag("C13", v.nm("cc:name")))),
		star(cc))
	using := func() any { return tag("C17", seq(dk("USING"), dk("BTREE", "HASH"))) }
	keypart := func(act string) any {
		if act == "" {
			return tag("C17", seq(alt(v.balD(), seq(v.nmD(), opt(dk("("), v.inD(), dk(")")))), opt(dk("ASC", "DESC"))))
		}
		return seq(alt(tag("C17", v.balD()), seq(v.nm(act), tag("C17", opt(dk("("), v.inD(), dk(")"))))), tag("C17", opt(dk("ASC", "DESC"))))
	}
	keys := func(act string) any {
		if act == "" {
			return tag("C17", seq(dk("("), keypart(act), star(dk(","), keypart(act)), dk(")")))
		}
		return seq(kw("("), keypart(act), star(kw(","), keypart(act)), kw(")"))
	}
	idxOpts := func() any {
		return tag("C17", star(alt(
			seq(dk("KEY_BLOCK_SIZE"), eq(), v.lit("")),
			using(),
			seq(dk("WITH"), dk("PARSER"), v.nmD()),
			seq(dk("COMMENT"), v.st()),
			dk("VISIBLE", "INVISIBLE"),
			seq(dk("ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE"), eq(), v.st()))))
	}
	tcs := func(all bool) any {
		a := gAlt{
			tag("C16", seq(kw("PRIMARY"), kw("KEY").a("tc:pk"), opt(using()), keys("tc:col"), idxOpts())),
			tag("C16", seq(kw("UNIQUE").a("tc:uq"), tag("C17", opt(dk("INDEX", "KEY"))), alt(using(), seq(tag("C17", v.nmD()), opt(using())), seq()), keys("tc:col"), idxOpts())),
			tag("C16", seq(kw("FOREIGN"), kw("KEY").a("tc:fk"), tag("C17", opt(v.nmD())), v.cols("tc:col"), v.refTable(), keys("ref:col"), refOpts())),
			tag("C15 C16", seq(kw("CHECK").a("tc:ck"), v.bal("tc:expr"), enforced(false))),
		}
		if all {
			a = append(a,
				tag("C17", seq(dk("INDEX", "KEY"), alt(using(), seq(v.nmD(), opt(using())), seq()), keys(""), idxOpts())),
				tag("C17", seq(dk("FULLTEXT", "SPATIAL"), opt(dk("INDEX", "KEY")), opt(v.nmD()), keys(""), idxOpts())))
		}
		return a
	}
	constraint := alt(
		seq(tag("C16", kw("CONSTRAINT")), alt(tcs(false), seq(tag("C16", v.nm("tc:name")), tcs(true)))),
		tcs(true))
	option := func(k any, val any) any { return seq(k, eq(), val) }
	options := tag("C17", star(opt(dk(",")), alt(
		option(dk("AUTOEXTEND_SIZE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES"), v.lit("")),
		option(dk("COMMENT", "ENGINE_ATTRIBUTE", "PASSWORD", "SECONDARY_ENGINE_ATTRIBUTE", "CONNECTION", "COMPRESSION", "ENCRYPTION"), v.st()),
		option(alt(dk("COLLATE", "ENGINE"), seq(dk("CHARACTER"), dk("SET"))), v.nmD()),
		option(dk("CHECKSUM", "DELAY_KEY_WRITE"), dk("0", "1")),
		option(dk("PACK_KEYS", "STATS_AUTO_RECALC", "STATS_PERSISTENT"), dk("0", "1", "DEFAULT")),
		option(seq(dk("DATA", "INDEX"), dk("DIRECTORY")), v.lit("")),
		seq(dk("TABLESPACE"), v.nmD(), opt(dk("STORAGE"), dk("DISK", "MEMORY"))),
		option(seq(dk("DEFAULT"), alt(seq(dk("CHARACTER"), dk("SET")), dk("COLLATE"))), v.nmD()),
		option(dk("UNION"), seq(dk("("), v.nmD(), opt(dk("."), v.nmD()), star(dk(","), v.nmD(), opt(dk("."), v.nmD())), dk(")"))),
		option(dk("INSERT_METHOD"), dk("NO", "FIRST", "LAST")),
		option(dk("ROW_FORMAT"), dk("DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT")),
	)))
	table := seq(v.tableHead(), v.body(column, constraint), options, tag("C11", kw(";")))
	return v.create(table, []string{"VIEW", "TRIGGER", "INDEX", "DATABASE", "UNIQUE", "PROCEDURE", "SERVER",
		"FUNCTION", "USER", "EVENT", "SEQUENCE", "TABLESPACE", "ROLE", "LOGIN"})
}
