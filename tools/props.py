import json
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
LX='internal/lexer/lexer.go';V='internal/validator/validator.go';VM='internal/validator/validator_mysql.go';VP='internal/validator/validator_postgresql.go';VS='internal/validator/validator_sqlite.go';C='internal/converter/converter.go';U='internal/common/utils.go';R='ddlparse.go';E='internal/common/errors.go'
ALLV=[V,VS,VP,VM]; ALL=[R,LX]+ALLV+[C,U]
INP="every DDL string, for each of SQLite, PostgreSQL and MySQL"
P=[]
P.append(p('C01','Parsing never panics',
 "For every input string and each of the three dialects, parsing returns to its caller: no index or slice out of range, nil dereference, failed type assertion or other run-time panic. This covers truncated statements, empty quotes, stray punctuation and input ending inside any construct.",
 ['inputs'],INP,"The tests feed a few dozen hand-written statements; an out-of-range access sits on the truncated or malformed input nobody wrote down.",
 ALL,[('bounds check before every element access','isOutOfRange in each stage'),('tokens are never empty','lexer appendToken')],['ddlparse.Parse*']))
P.append(p('C02','Parsing always terminates',
 "For every input string and each dialect, parsing finishes after finitely many steps: no loop and no recursion can go round without consuming input. In particular input that ends inside brackets, a string, a comment or a statement body ends with an error rather than running on.",
 ['inputs'],INP,"A test can only show that the inputs it names finish; a cycle that makes no progress needs one specific truncated or malformed input.",
 ALL,[('every loop and recursive call advances the cursor or stops at the end of input','next/isOutOfRange in lexer, validator and converter')],['ddlparse.Parse*']))
P.append(p('C03','Results are all-or-nothing',
 "Parsing either succeeds with a nil error, or fails with an error of type ValidateError and an empty list of tables. A DDL that is not accepted in full never yields tables, an accepted one never yields an error, and no error of an inner step is dropped.",
 ['inputs'],INP,"Tests check a few failing inputs for an error and ignore the tables returned with it; the rule is about every failure path of every production.",
 ALL+[E],[('each production returns its first error','if err := ...; err != nil { return err }'),('the error is a ValidateError value','common.NewValidateError')],['ddlparse.Parse*']))
P.append(p('C04','Errors point at the offending token and its line',
 "When a DDL is rejected by the grammar, Near is the first token that cannot continue a valid DDL (or <EOF> when the input ends too early) and Line is one plus the number of line breaks before that token in the text. Line breaks count wherever they stand: at the start, between tokens, in runs, inside comments and inside quoted text.",
 ['inputs'],INP,"Tests fix line and token for a few dozen mistakes with line breaks in ordinary places; the rule is over every token of every production and every placement of line breaks.",
 [LX]+ALLV+[E],[('line counter advanced once per line break','lexer lexEOL, skip*, validator init/next'),('error built from the current line and token','syntaxError, lexError')],['ValidateError.Line','ValidateError.Near'],
 [('line','current line','lexer.line, validator.line')]))
lang="A SQLite DDL is accepted exactly when it is a sequence of CREATE statements that follow the grammar documented in the README"
why="The tests sample a few dozen sentences; the grammar has unboundedly many, and a production that became too lax or too strict in one optional clause goes unnoticed."
P.append(p('C05','SQLite: exactly the documented DDL is accepted',
 "With the SQLite dialect a DDL is accepted exactly when it is a sequence of CREATE statements following the documented SQLite grammar: every documented clause, option and order is accepted, and anything else is rejected. A column constraint may occur at most once per column, types are TEXT, NUMERIC, INTEGER, REAL and NONE, and the last semicolon may be missing only after a CREATE TABLE at the end of the input.",
 ['inputs'],"every DDL string",why,[V,VS],[('one method per production','internal/validator/validator_sqlite.go')],['ddlparse.ParseSQLite']))
P.append(p('C06','PostgreSQL: exactly the documented DDL is accepted',
 "With the PostgreSQL dialect a DDL is accepted exactly when it is a sequence of CREATE statements, each ended by a semicolon, following the documented PostgreSQL grammar: every documented clause, option and order is accepted, and anything else is rejected. A column constraint may occur at most once per column (NULL and NOT NULL exclude each other) and the column type is one of the supported type names.",
 ['inputs'],"every DDL string",why,[V,VP],[('one method per production','internal/validator/validator_postgresql.go')],['ddlparse.ParsePostgreSQL']))
P.append(p('C07','MySQL: exactly the documented DDL is accepted',
 "With the MySQL dialect a DDL is accepted exactly when it is a sequence of CREATE statements, each ended by a semicolon, following the documented MySQL grammar, including index, key-part and table options: every documented clause, option and order is accepted, and anything else is rejected. A column constraint may occur at most once per column (NULL and NOT NULL exclude each other) and the column type is one of the supported type names.",
 ['inputs'],"every DDL string",why,[V,VM],[('one method per production','internal/validator/validator_mysql.go')],['ddlparse.ParseMySQL']))
P.append(p('C08','Comments and white space never change the result',
 "Between tokens, spaces, tabs, carriage returns, line breaks and comments are interchangeable: they separate tokens and have no other effect on the tables. Line comments (-- everywhere, # in MySQL only) end at the line break, block comments at the first */, adjacent comments are each recognised, and an unclosed block comment or a stray */ is an error.",
 ['inputs'],INP,"The tests put comments in two or three ordinary places; the rule covers every position and every character sequence inside a comment.",
 [LX,V],[('comment skipping','lexer skipComment, skipMultiLineComment'),('line-break tokens skipped','validator next')],['ddlparse.Parse*']))
P.append(p('C09','Quoted text is opaque and kept verbatim',
 "Text between a quote and the next quote of the same kind ('...', \"...\", and `...` outside PostgreSQL) is one unit: whatever it contains (other quotes, comment markers, brackets, commas, keywords, line breaks) is not interpreted and reaches the result unchanged. A quote that is never closed is an error at <EOF>, and a back quote is an error in PostgreSQL.",
 ['inputs'],INP,"The tests quote a few plain names; the rule is over every text that can stand between quotes.",
 [LX,C],[('string scanning','lexer lexString*'),('quotes removed once at each end','converter convertName, convertLiteralValue')],['Column.Name','Table.Name','Constraint.Default','Check.Expr']))
P.append(p('C10','The text is split into tokens at fixed boundaries only',
 "Outside comments and quotes, words end at white space, at quotes and at ( ) , . ; and =, which are tokens of their own, and nowhere else; a point between two digits belongs to its number. No character outside comments is lost, duplicated, reordered or altered by tokenising, and a full-width space is an error.",
 ['inputs'],INP,"Tests only count tokens of two inputs; the rule is over every character sequence.",
 [LX],[('one dispatch per character','lexer lex'),('tokens appended in order','lexer appendToken')],['lexer.Lex','ddlparse.Parse*']))
P.append(p('C11','One table per CREATE TABLE, in order, correctly named',
 "An accepted DDL yields exactly one table per CREATE TABLE statement, in the order written, whose name, schema and if-not-exists flag are those of that statement (the schema is empty when not given). Other CREATE statements (views, triggers, indexes and the like, including bodies between BEGIN and END) are skipped up to their terminating semicolon and contribute nothing.",
 ['inputs'],INP,"The tests use at most a few tables and mostly one statement; the rule is over every sequence of statements.",
 ALLV+[C],[('statement loop','validate, validateCreateOther, convert, convertTable, convertTableName')],['[]Table']))
P.append(p('C12','Columns keep order, name and data type',
 "Every table has exactly one column per column definition, in the order written. Each carries its name without quotes, its type name in upper case (BIT VARYING and CHARACTER VARYING as VARBIT and VARCHAR) and the length, precision and scale as written (zero when absent).",
 ['inputs'],INP,"The tests cover some types with some lengths; the rule is over every type, every number and every list of columns.",
 ALLV+[C],[('column conversion','convertTableDefinition, convertColumnDefinition, convertDateType, convertTypeDigit')],['Table.Columns','Column.Name','Column.DataType']))
P.append(p('C13','Column constraints are reported exactly as written',
 "For every column, primary key, unique, not null, auto-increment, collation, referenced table and columns, and the constraint name are set exactly when that column's own definition declares them, in whatever order and combination the constraints are written, and no other column or table is affected. A NULL constraint sets nothing.",
 ['inputs'],INP,"The tests list a few combinations per dialect; the rule is over all orders and combinations and all columns of all tables.",
 ALLV+[C],[('constraint conversion','convertConstraint, convertConstraintAux, convertReference'),('tokens passed on by the validator','validateConstraint* with set=true')],['Column.Constraint']))
P.append(p('C14','DEFAULT literals keep their value and type',
 "A DEFAULT literal is reported as the number it denotes (float64), the text between its quotes (string), true, false, nil for NULL, or the keyword itself for CURRENT_TIME, CURRENT_DATE and CURRENT_TIMESTAMP. The value is always one that JSON can carry, and is nil when no default is given.",
 ['inputs'],INP,"Tests try a handful of literals; the rule is over every number and every text.",
 [U,C]+ALLV,[('literal conversion','convertDefaultValue, convertLiteralValue, IsNumericToken')],['Constraint.Default']))
P.append(p('C15','CHECK and DEFAULT expressions are carried over in full',
 "The expression of a CHECK (column or table) and of a bracketed DEFAULT is reported as the complete text between and including its outer brackets, with all tokens in their order and at any nesting depth, white space and comments removed. Nothing following the closing bracket is included and nothing inside is lost or altered.",
 ['inputs'],INP,"Tests have two or three expressions of depth two; the rule is over every balanced token sequence.",
 [V,C],[('bracket matching','validateBrackets, validateBracketsAux, convertExpr, convertExprAux')],['Constraint.Check','Constraint.Default','Check.Expr']))
P.append(p('C16','Table constraints are reported exactly as written',
 "Each PRIMARY KEY, UNIQUE, CHECK and FOREIGN KEY table constraint yields exactly one entry of that kind, in the order written, with its own constraint name (empty when not given), its column list in order, its expression, and for foreign keys the referenced table and columns. Constraints of one table never appear in another, and no entry appears for anything else.",
 ['inputs'],INP,"Tests have one or two constraints per table; the rule is over all lists and positions among the columns.",
 ALLV+[C],[('table constraint conversion','convertTableConstraint, convertCommaSeparatedColumnNames, convertReference')],['Table.Constraints']))
P.append(p('C17','Clauses outside the model leave no trace',
 "Accepted clauses that the table model has no place for (conflict clauses, ON DELETE/UPDATE, MATCH, deferrability, generated columns, index options, INDEX/KEY/FULLTEXT/SPATIAL/EXCLUDE definitions, comments and attributes, time zones, table options) change nothing in the result: it equals the result of the same DDL without them, wherever they stand.",
 ['inputs'],INP,"Tests show a few such clauses in one position each; the rule is over every clause, argument and position.",
 ALLV+[C],[('tokens dropped by the validator','set=false'),('separators of dropped definitions skipped','convertTableDefinition')],['[]Table']))
P.append(p('C18','Names: quoted always, bare only if well-formed and unreserved',
 "Where a name is expected, a quoted identifier of the dialect (\" or ` in SQLite, \" in PostgreSQL, ` in MySQL) is always accepted; a bare word is accepted exactly when it starts with a letter or underscore, continues with letters, digits and underscores, and is not a reserved word of that dialect in any letter case. Anything else is rejected there.",
 ['inputs'],INP,"Tests try three or four names; the rule is over every word, each reserved word, and each place where a name may stand.",
 ALLV,[('name test','isValidName, isIdentifier, ReservedWords_*')],['ddlparse.Parse*']))
P.append(p('C19','Parsing is pure and safe for concurrent use',
 "The outcome is a function of the DDL and the dialect alone: parsing the same text again gives the same outcome whatever was parsed before or is being parsed concurrently. Parsing writes no state shared between calls, starts no goroutines, reads no clock, environment, random source or file, does no I/O and depends on no map iteration order.",
 ['inputs','schedules','histories'],"every history and every interleaving of calls","Tests call the functions one after the other, once per input; leaks between calls or races need particular histories.",
 ALL,[('a fresh lexer, validator and converter per call','Parse'),('package-level tables are only read','ReservedWords_*, DataType_*')],['ddlparse.Parse*']))
P.append(p('C20','ParseForce: first accepting dialect wins, else an error',
 "ParseForce gives exactly the result of the first dialect that accepts the DDL, tried in the order SQLite, PostgreSQL, MySQL, with a nil error. When none accepts it, it returns an empty list and a non-nil error from parsing with one of the dialects.",
 ['inputs'],"every DDL string and every combination of accepting dialects","There is no test of ParseForce at all.",
 [R],[('loop over the dialects','ParseForce')],['ddlparse.ParseForce']))
P.append(p('C21','Each entry point runs all stages with its own dialect',
 "Parse(ddl, X) and the function named after dialect X tokenise, validate and convert the given text with dialect X in every step, each step working on the previous step's output. The three named functions are equivalent to Parse with their dialect, and the exported dialect constants select the dialect they name.",
 ['inputs','configurations'],"every DDL string, every entry point","Tests parse text that mostly does not distinguish the dialects in each stage.",
 [R,LX,V,C,'internal/common/constants.go'],[('stage construction','Parse, NewLexer, NewValidator, NewConverter')],['ddlparse.Parse*']))
P.append(p('C22','Results share no memory with anything else',
 "The tables returned are owned by the caller: no slice or pointer in them is shared with another column, constraint, table or result, with package-level data, or with state used by a later call. Changing one part of a result never changes another part or a later result.",
 ['histories','inputs'],"every pair of calls and every mutation of a returned result","Tests only compare values right after the call; sharing shows only when something is modified later.",
 [R,C],[('fresh slices per list','convertCommaSeparatedColumnNames, convertTableDefinition')],['[]Table']))
P.append(p('C23','Keyword letter case does not matter',
 "Writing any keyword or type name of a DDL in lower case instead of upper case changes neither acceptance nor the resulting tables, apart from text that is carried over as written (error texts, expressions, collation names and CURRENT_* defaults). Names and quoted text keep the letter case they are written in.",
 ['inputs'],INP,"Tests have a few lower-case statements; the rule is over every keyword in every position and stage.",
 ALLV+[C],[('keyword comparison','matchToken in validator and converter')],['ddlparse.Parse*']))
P.append(p('C24','The table model serialises under the documented field names',
 "Every exported type of the table model has exactly the documented fields with the documented types and JSON keys, so that any result marshals to JSON with those keys and loses nothing. The error text names the near token and line of the error.",
 ['programs','inputs'],"every result value and every program using the documented API","No test marshals a result or reads the error text.",
 ['internal/types/types.go',R,E],[('struct declarations and tags','internal/types/types.go')],['types','ValidateError.Error']))
P.append(p('C25','Stack and memory stay proportional to the input',
 "Parsing uses stack and heap at most proportional to the size of the DDL with a small constant, so that any DDL of ordinary size (megabytes) parses within the default limits of the runtime.",
 ['inputs'],INP,"Tests parse inputs of a few hundred bytes.",
 ALL,[('recursion per token in validator and converter','validateBracketsAux, convertExprAux')],['ddlparse.Parse*']))
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
