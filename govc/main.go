// Command govc is a deductive verifier for the Go code of cleansheets: it
// generates verification conditions from the SSA form of the repository's
// current source against contracts written in this package.
package main

import (
	"regexp"
	"strings"

	"encoding/json"
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc check PROPERTY TIER | unit NAME PROPERTY LIMIT | units | spec | run NAME...")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2], os.Args[3]))
	case "unit":
		lim, _ := time.ParseDuration(os.Args[4])
		r := runUnit(os.Args[2], os.Args[3], lim)
		json.NewEncoder(os.Stdout).Encode(r)
	case "units":
		for _, u := range units() {
			fmt.Println(u.name, u.props)
		}
	case "spec":
		json.NewEncoder(os.Stdout).Encode(dumpSpec())
	case "run":
		p, err := loadProgram()
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		for _, k := range os.Args[2:] {
			rx, _ := regexp.Compile(strings.TrimPrefix(k, "re:"))
			for _, u := range units() {
				if u.name == k || strings.HasPrefix(k, "re:") && rx != nil && rx.MatchString(u.name) {
					e := u.mk(p)
					e.run()
					report(e)
				}
			}
		}
	}
}

func report(e *Exec) {
	fmt.Printf("%s: %d steps %d paths %d headers %d cuts %d joins\n", e.name, e.steps, e.paths, e.hdrs, e.cuts, e.joins)
	for _, f := range e.fails {
		fmt.Printf("  %s %v %s: %s at %s\n", f.Kind, f.Props, f.Name, f.Detail, f.Pos)
		for _, t := range f.Trace {
			fmt.Println("      ", t)
		}
	}
	fmt.Println(e.Oblig, e.OKs)
}

// units lists everything that is verified.
func units() []unit {
	var us []unit
	for _, k := range []string{"(*ecmascript/lexer.Lexer).Lex", "(*ecmascript/lexer.Lexer).ReLex"} {
		k := k
		ps := []string{"C01", "C02", "C08", "C09", "C11", "C14", "C15", "C17"}
		if k == "(*ecmascript/lexer.Lexer).Lex" {
			ps = append(ps, "C07")
		}
		us = append(us, unit{k, ps, func(p *Program) *Exec { return newLexExec(p, k) }})
	}
	us = append(us, unit{"ecmascript/lexer.Scanner", []string{"C01", "C09", "C15"}, newScannerExec})
	us = append(us, unit{"ecmascript/parser.Scanner", []string{"C01", "C02", "C03", "C11", "C15"}, newQueueExec})
	for _, k := range errKinds {
		k := k
		us = append(us, unit{errKey(k), []string{"C15"}, func(p *Program) *Exec { return newErrExec(p, k) }})
	}
	us = append(us, unit{"ecmascript/lexer.EncodeUTF16", []string{"C13"}, newUTFExec})
	for _, k := range []string{"Source", "StringConstant", "NumberConstant"} {
		k := "(ecmascript/lexer.Token)." + k
		us = append(us, unit{k, []string{"C14"}, func(p *Program) *Exec { return newLitExec(p, k) }})
	}
	for _, u := range parserUnits() {
		u := u
		us = append(us, unit{u.name(), []string{"C01", "C02", "C03", "C04", "C05", "C10", "C12"}, func(p *Program) *Exec { return newParserExec(p, u) }})
	}
	us = append(us, unit{kKeyword, []string{"C01", "C02", "C10", "C12"}, newKeywordExec})
	pu := parseUnit()
	us = append(us, unit{pu.name(), []string{"C01", "C02", "C03", "C15"}, func(p *Program) *Exec { return newParserExec(p, pu) }})
	us = append(us, unit{kConv, []string{"C01", "C02", "C03"}, newConvExec})
	for _, k := range ctTypes() {
		k := k
		us = append(us, unit{ctKey(k), []string{"C05"}, func(p *Program) *Exec { return newCtExec(p, k) }})
	}
	for _, k := range estTypes() {
		k := k
		us = append(us, unit{estKey(k), []string{"C05", "C06"}, func(p *Program) *Exec { return newEstExec(p, k) }})
	}
	for _, k := range []string{astPath + ".clearSpans", astPath + ".ClearSpans"} {
		k := k
		us = append(us, unit{k, []string{"C20"}, func(p *Program) *Exec { return newSpanExec(p, k) }})
	}
	us = append(us, unit{kTool, []string{"C18"}, newToolExec}, unit{kWeb, []string{"C18"}, newWebExec})
	us = append(us, unit{"frame conditions", []string{"C16"}, newEffectExec})
	return us
}
