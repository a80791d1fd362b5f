package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// level is one depth of the analysis of a stage.
type level struct{ kinds, tkinds, depth int }

func levels(stage string, thorough bool) []level {
	switch stage {
	case "val":
		if thorough {
			return []level{{1, 1, 2}, {2, 1, 2}, {3, 1, 3}}
		}
		return []level{{1, 1, 2}, {2, 1, 2}}
	case "con":
		if thorough {
			return []level{{1, 1, 2}, {2, 1, 2}, {2, 2, 3}}
		}
		return []level{{1, 1, 2}, {2, 1, 2}}
	}
	return []level{{1, 1, 2}}
}

// StageOut is what the analysis of one stage reports to the check.
type StageOut struct {
	Result  *Result
	Levels  []string // depths that were completed
	Partial []string // depths that were started and not completed
}

func certain(r *Result) bool {
	for _, f := range r.Findings {
		if f.Kind != "undecided" && f.Kind != "globalwrite" && !f.Maybe && relevant(r.Stage, r.Rdbms, f) {
			return true
		}
	}
	return false
}

func undecided(r *Result) bool {
	for _, f := range r.Findings {
		if f.Kind == "undecided" || f.Maybe {
			return true
		}
	}
	return false
}

// runStage analyses one stage at increasing depth.
func runStage(P *Program, name string, thorough bool, limit time.Duration) *StageOut {
	out := &StageOut{}
	stage, d, _ := strings.Cut(name, "/")
	switch stage {
	case "effects":
		out.Result = runEffects(P)
		return out
	case "glue":
		out.Result = runGlue(P)
		return out
	case "model":
		out.Result = runModel(P)
		return out
	}
	end := time.Now().Add(limit)
	run := func(rdbms, as string, l level, dl time.Time) *Result {
		o := opts{deadline: dl, kinds: l.kinds, tkinds: l.tkinds, depth: l.depth, as: as}
		switch stage {
		case "lex":
			return runLexer(P, rdbms, o)
		case "val":
			return runValidator(P, rdbms, o)
		}
		return runConverter(P, rdbms, o)
	}
	for i, l := range levels(stage, thorough) {
		left := time.Until(end)
		if i > 0 && left < 5*time.Second {
			break
		}
		dl := end
		if i == 0 {
			dl = time.Now().Add(left * 2 / 3)
		}
		r := run(d, d, l, dl)
		say := fmt.Sprintf("constraint kinds per column %d, kinds of table constraints per table %d, bracket depth %d: %d states", l.kinds, l.tkinds, l.depth, r.States)
		if certain(r) {
			out.Result = r
			out.Levels = append(out.Levels, say)
			break
		}
		if undecided(r) {
			out.Partial = append(out.Partial, say)
		} else {
			out.Levels = append(out.Levels, say)
		}
		if out.Result == nil {
			out.Result = r
		} else {
			r.Findings = append(r.Findings, out.Result.Findings...)
			r.Elapsed += out.Result.Elapsed
			out.Result = r
		}
	}
	if wantProp == "" && certain(out.Result) {
		// does the constructor give the stage of another dialect?
		for _, o := range dialects {
			if o == d || time.Until(end) < 0 {
				continue
			}
			r := run(o, d, level{1, 1, 2}, time.Now().Add(40*time.Second))
			if !certain(r) && !undecided(r) {
				out.Result.Findings = append(out.Result.Findings, &Finding{Kind: "glue", Pos: "constructor of the " + out.Result.Stage, Tags: []string{"C21"},
					Msg: fmt.Sprintf("%s: the %s made for %s is the one of %s", name, out.Result.Stage, d, o)})
				break
			}
		}
	}
	return out
}

var dialectProp = map[string]string{"SQLite": "C05", "PostgreSQL": "C06", "MySQL": "C07"}

// concerns maps a finding to the properties it breaks.
func concerns(stage, rdbms string, f *Finding) []string {
	var out []string
	add := func(p ...string) { out = append(out, p...) }
	switch f.Kind {
	case "panic":
		add("C01")
	case "nonterm":
		add("C02")
	case "globalwrite", "goroutine":
		add("C19")
	case "effect", "share", "glue", "model":
		add(f.Tags...)
	case "errtype":
		add("C03")
	case "errpos":
		add("C04")
	case "passed":
		// an illegal token is taken in and the error comes later, if at all
		add("C04", "C03", dialectProp[rdbms])
		add(f.Tags...)
	case "accept", "reject", "output":
		add(f.Tags...)
		if f.Kind == "accept" {
			add("C03")
		}
		switch stage {
		case "lexer":
			if len(f.Tags) == 0 {
				add("C08", "C09", "C10")
			}
			add(dialectProp[rdbms])
		case "validator":
			if f.Kind != "output" {
				add(dialectProp[rdbms])
			}
			if len(f.Tags) == 0 {
				add("C11", "C12", "C13", "C14", "C15", "C16", "C17")
			}
		case "converter":
			if len(f.Tags) == 0 {
				add("C11", "C12", "C13", "C14", "C15", "C16", "C17")
			}
		}
	}
	return uniq(out)
}

func stagesOf(prop string) []string {
	var out []string
	add := func(stage string, ds ...string) {
		if len(ds) == 0 {
			ds = dialects
		}
		for _, d := range ds {
			out = append(out, stage+"/"+d)
		}
	}
	switch prop {
	case "C01", "C02":
		add("lex")
		add("val")
		add("con")
		out = append(out, "glue")
	case "C03":
		add("lex")
		add("val")
		out = append(out, "glue")
	case "C04":
		add("lex")
		add("val")
		out = append(out, "glue")
	case "C05":
		add("lex", "SQLite")
		add("val", "SQLite")
	case "C06":
		add("lex", "PostgreSQL")
		add("val", "PostgreSQL")
	case "C07":
		add("lex", "MySQL")
		add("val", "MySQL")
	case "C08":
		add("lex")
		add("val")
		out = append(out, "glue")
	case "C09":
		add("lex")
		add("val")
		add("con")
		out = append(out, "glue")
	case "C10":
		add("lex")
		out = append(out, "glue")
	case "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C23":
		add("val")
		add("con")
		if prop == "C11" {
			out = append(out, "glue")
		}
	case "C18":
		add("val")
	case "C19":
		out = append(out, "effects")
		add("lex")
		add("val")
		add("con")
	case "C20":
		out = append(out, "glue")
	case "C21":
		out = append(out, "glue", "model")
		add("lex")
		add("val")
		add("con")
	case "C22":
		out = append(out, "effects")
		add("con")
	case "C24":
		out = append(out, "model")
	}
	return out
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func verifDir() string {
	if d := os.Getenv("DDLV_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// check decides one property; it returns the exit status.
func check(prop, tier string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	stages := stagesOf(prop)
	if len(stages) == 0 {
		fmt.Println("unknown property", prop)
		return 2
	}
	limit := 240 * time.Second
	if thorough {
		limit = 600 * time.Second
	}
	if s := os.Getenv("DDLV_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	outs := make([]*StageOut, len(stages))
	errs := make([]string, len(stages))
	var wg sync.WaitGroup
	self, _ := os.Executable()
	for i, s := range stages {
		wg.Add(1)
		go func(i int, s string) {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), limit+90*time.Second)
			defer cancel()
			mb := map[string]int{"con": 5500, "val": 2800, "lex": 1500}[s[:3]]
			if mb == 0 {
				mb = 1000
			} else if len(stages) < 6 {
				mb *= 2
			}
			c := exec.CommandContext(ctx, self, "stage", s, tier, strconv.Itoa(int(limit/time.Second)), strconv.Itoa(mb), prop)
			var o, e bytes.Buffer
			c.Stdout, c.Stderr = &o, &e
			err := c.Run()
			so := &StageOut{}
			if jerr := json.Unmarshal(o.Bytes(), so); jerr == nil && so.Result != nil {
				outs[i] = so
				return
			}
			errs[i] = strings.TrimSpace(lastLines(e.String()+o.String(), 6))
			if errs[i] == "" && err != nil {
				errs[i] = err.Error()
			}
			if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 3 {
				errs[i] = "LOAD " + errs[i]
			}
		}(i, s)
	}
	wg.Wait()
	for _, e := range errs {
		if strings.HasPrefix(e, "LOAD ") {
			fmt.Println("the repository cannot be analysed:", e[5:])
			return 2
		}
	}
	known := knownFindings()
	type vio struct {
		stage string
		f     *Finding
	}
	var bad []vio
	nund := 0
	var und []string
	shown := map[string]bool{}
	for i, o := range outs {
		if o == nil {
			und = append(und, stages[i]+": no answer: "+errs[i])
			nund++
			continue
		}
		for _, f := range o.Result.Findings {
			if f.Kind == "undecided" || f.Maybe {
				nund++
				if len(und) < 20 {
					und = append(und, stages[i]+": "+f.Pos+": "+f.Kind+": "+f.Msg)
				}
				continue
			}
			mine := false
			for _, p := range concerns(o.Result.Stage, o.Result.Rdbms, f) {
				if p == prop {
					mine = true
				}
			}
			if !mine {
				continue
			}
			if k := known.match(prop, f); k != "" {
				if !shown[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				}
				shown[k] = true
				continue
			}
			bad = append(bad, vio{stages[i], f})
		}
	}
	ev := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(ev, 0o755)
	seed, _ := strconv.Atoi(env("VERIF_SEED", "0"))
	cov := map[string]any{}
	cov["explanation"] = explanation(prop)
	cov["exhaustive"] = false
	var per []map[string]any
	funcs := map[string]bool{}
	states, sites, exits, obligations := 0, 0, 0, 0
	for i, o := range outs {
		if o == nil {
			per = append(per, map[string]any{"stage": stages[i], "answer": "none", "why": errs[i]})
			continue
		}
		r := o.Result
		m := map[string]any{"stage": stages[i], "functions": len(r.Funcs), "call_sites": r.Sites, "abstract_states": r.States, "exits_checked": r.Exits, "seconds": r.Elapsed.Seconds()}
		if r.Alphabet > 0 {
			m["input_classes"] = r.Alphabet
			m["activations"] = r.Acts
			m["branches"] = r.Branches
			m["input_steps"] = r.Fetches
			m["accepting_exits"] = r.Accepted
			m["rejecting_exits"] = r.Rejected
			m["depths_completed"] = o.Levels
			if len(o.Partial) > 0 {
				m["depths_not_completed"] = o.Partial
			}
			if r.Short > 0 {
				m["states_of_short_inputs"] = r.Short
			}
		}
		if len(r.Notes) > 0 {
			m["precision_lost_at"] = r.Notes
		}
		per = append(per, m)
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		states += r.States
		sites += r.Sites
		exits += r.Exits
		obligations += r.Branches + r.Sites + r.Exits
	}
	cov["stages"] = per
	cov["functions_analysed"] = len(funcs)
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath, "ddlparse"))
	}
	sort.Strings(fl)
	cov["functions"] = fl
	cov["abstract_states_total"] = states
	cov["call_sites_total"] = sites
	cov["exits_total"] = exits
	cov["rule"] = rule(prop)
	cov["undecided_points"] = nund
	cov["fully_decided"] = nund == 0
	if len(und) > 0 {
		cov["undecided"] = und
	}
	doc := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions(prop), "wall_s": time.Since(t0).Seconds(), "violations": len(bad)}
	b, _ := json.MarshalIndent(doc, "", " ")
	if err := os.WriteFile(filepath.Join(ev, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	rp := filepath.Join(ev, prop+".violation.txt")
	os.Remove(rp)
	if len(bad) == 0 {
		fmt.Printf("%s: held on everything analysed: %d functions, %d abstract states, %d call sites, %d exits, %d undecided points, %.1fs\n", prop, len(funcs), states, sites, exits, nund, time.Since(t0).Seconds())
		return 0
	}
	var w strings.Builder
	fmt.Fprintf(&w, "property %s is broken\n", prop)
	for i, v := range bad {
		if i >= 20 {
			fmt.Fprintf(&w, "... and %d more\n", len(bad)-i)
			break
		}
		fmt.Fprintf(&w, "\nstage %s, rule %s\n  at %s\n  %s\n", v.stage, v.f.Kind, v.f.Pos, v.f.Msg)
		if len(v.f.Path) > 0 {
			fmt.Fprintf(&w, "  on inputs of the form: %s\n", strings.Join(v.f.Path, " "))
		}
	}
	fmt.Fprintf(&w, "\nto see it again: VERIF_TIER=%s %s check %s\n", tier, self, prop)
	os.WriteFile(rp, []byte(w.String()), 0o644)
	fmt.Print(w.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// ---------------------------------------------------------------- known findings

// A line of the known-findings file is
//
//	known: property=<id> kind=<kind> at=<file> msg=<part of the message>
//
// "fixed:" lines and comments suppress nothing.
type knownList []map[string]string

func knownFindings() knownList {
	var out knownList
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		m := map[string]string{}
		before, msg, _ := strings.Cut(rest, " msg=")
		m["msg"] = msg
		for _, w := range strings.Fields(before) {
			k, v, _ := strings.Cut(w, "=")
			m[k] = v
		}
		out = append(out, m)
	}
	return out
}

func (k knownList) match(prop string, f *Finding) string {
	for _, m := range k {
		if m["property"] == prop && m["kind"] == f.Kind && m["msg"] != "" && strings.HasPrefix(f.Pos, m["at"]) && strings.Contains(f.Msg, m["msg"]) {
			return m["at"] + ": " + m["msg"]
		}
	}
	return ""
}

// ---------------------------------------------------------------- texts

func rule(p string) string {
	switch p {
	case "C01":
		return "no abstract state reaches an index, slice, conversion, map write, type assertion, dereference or call with an operand that can make it panic"
	case "C02":
		return "the graph of abstract states has no cycle that consumes no input"
	case "C03":
		return "every exit of a stage with a nil error lies on a path whose input the specification accepts, every exit with an error returns a ValidateError on an input it rejects; the exported functions pass errors on for every outcome of the stages"
	case "C04":
		return "at every exit with an error, Line and Near equal the line and text of the token at which the specification automaton died"
	case "C05", "C06", "C07":
		return "product of the code with the grammar automaton of the dialect: no accepting exit with a dead automaton or before the end of the input, no rejecting exit with a live one"
	case "C08", "C09", "C10":
		return "product of the lexer with the specification transducer: at every exit the token list equals the transducer's output and acceptance agrees"
	case "C11", "C12", "C13", "C14", "C15", "C16", "C17":
		return "product of validator and converter with the specification transducer: at every exit, and whenever a record is finished, the output equals the transducer's; findings are attributed to this property by grammar position"
	case "C18":
		return "at every grammar position for a name, the token classes the validator lets through equal those of the specification"
	case "C19":
		return "no reachable instruction starts a goroutine, writes memory that an interprocedural flow roots in a package-level variable, calls a function with ambient input or output, or lets map order reach a value"
	case "C20":
		return "ParseForce returns the expected pair for each of the 64 combinations of stage outcomes of the three dialects"
	case "C21":
		return "for each entry point and outcome of the stages, the value each stage is called on is the one its constructor makes for that dialect and its argument is the previous stage's result"
	case "C22":
		return "no list stored into a record of the model is rooted in a package-level variable, in a truncated longer-lived buffer, or stored in a second place"
	case "C23":
		return "lower-case and upper-case forms of every keyword are separate input classes of the product construction; findings whose classes are of one case only belong here"
	case "C24":
		return "declared fields, types, JSON tags and signatures equal the documented ones; every text returned by Error is built from the fields Near and Line"
	}
	return ""
}

func explanation(p string) string {
	switch p {
	case "C19", "C22":
		return "static analysis of the SSA form of /repo: interprocedural flow of package-level memory and allocation rules over all functions reachable from the exported API, together with the abstract interpretation of the stages"
	case "C20":
		return "static analysis: abstract interpretation of the SSA form of the exported functions, the stages replaced by their contracts"
	case "C24":
		return "static analysis of the type-checked declarations and of the SSA form of Error"
	}
	return "static analysis: abstract interpretation of the SSA form of /repo in product with a specification automaton over a finite partition of the input symbols; function summaries and a fixed point over abstract states, so that inputs of every length are covered within the stated depths; no input is run"
}

func assumptions(p string) []string {
	a := []string{"the SSA form of golang.org/x/tools has the semantics of the Go compiler", "the models of the library functions used (strings, strconv, regexp, unicode, fmt, slices, sort) agree with the library"}
	switch p {
	case "C20", "C24":
	case "C19", "C22":
		a = append(a, "no use of unsafe or reflection")
	default:
		a = append(a, "tokens are partitioned by every constant and predicate the code or the specification compares them with; tokens of one class are treated alike",
			"bounds: kinds of constraints per column, kinds of table constraints per table and bracket depth as listed per stage; everything else is unbounded",
			"stages are composed through the token lists the specification gives them")
	}
	return a
}
