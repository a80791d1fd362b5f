package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "check" {
		tier := env("VERIF_TIER", "quick")
		if len(os.Args) >= 4 {
			tier = os.Args[3]
		}
		os.Exit(check(os.Args[2], tier))
	}
	if len(os.Args) == 7 && os.Args[1] == "stage" {
		if wantProp = os.Args[6]; wantProp == "C21" {
			wantProp = "" // which dialect a stage was made for shows in anything
		}
		os.Exit(stageMain(os.Args[2], os.Args[3], os.Args[4], os.Args[5]))
	}
	dev()
}

func stageMain(name, tier, limit, mb string) int {
	sec, _ := strconv.Atoi(limit)
	memMB, _ = strconv.Atoi(mb)
	debug.SetMemoryLimit(int64(memMB) * 9 / 10 << 20)
	debug.SetGCPercent(200)
	P, err := load()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	initGlobals(P)
	out := runStage(P, name, tier == "thorough", time.Duration(sec)*time.Second)
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	return 0
}

// dev runs single stages and prints everything they find.
func dev() {
	P, err := load()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	tmax := 600
	if t, err := strconv.Atoi(os.Getenv("TMAX")); err == nil {
		tmax = t
	}
	ie := initGlobals(P)
	o := opts{debug: os.Getenv("DDLV_DEBUG") != "", deadline: time.Now().Add(time.Duration(tmax) * time.Second)}
	if o.debug {
		fmt.Println("globals", len(P.globals), "notes", ie.notes, "findings", len(ie.findings))
		for _, f := range ie.findings {
			fmt.Println(*f)
		}
	}
	o.kinds, o.depth, o.tkinds = 1, 2, 1
	wantProp = os.Getenv("WANT")
	if k := os.Getenv("KINDS"); k != "" {
		o.kinds = int(k[0] - '0')
	}
	if k := os.Getenv("TKINDS"); k != "" {
		o.tkinds = int(k[0] - '0')
	}
	if k := os.Getenv("DEPTH"); k != "" {
		o.depth = int(k[0] - '0')
	}
	if f := os.Getenv("DDLV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	dumpAt, _ = strconv.Atoi(os.Getenv("DDLV_DUMP"))
	for _, a := range os.Args[1:] {
		switch a {
		case "effects":
			runEffects(P).print()
		case "glue":
			runGlue(P).print()
		case "model":
			runModel(P).print()
		}
		for _, d := range dialects {
			switch a {
			case "lex", "lex/" + d:
				runLexer(P, d, o).print()
			case "val", "val/" + d:
				runValidator(P, d, o).print()
			case "con", "con/" + d:
				runConverter(P, d, o).print()
			}
		}
	}
}
