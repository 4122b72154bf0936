package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: driver MODE ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "rand":
		runRand()
	case "alg":
		runAlg()
	case "print":
		runPrint()
	case "parse":
		runParse()
	case "streams":
		runStreams()
	case "tc":
		runTC()
	case "gfx":
		runGfx()
	case "conc":
		runConc()
	case "defs":
		runDefs()
	case "ctx":
		runCtx()
	case "sess":
		runSess()
	case "rules":
		es := expreduce.NewEvalState()
		for _, k := range es.GetDefinedMap().Keys() {
			d := es.GetDefinedMap().GetDef(k)
			for _, dv := range d.Downvalues {
				fmt.Printf("%s\t%s\n", k, dv.Rule.StringForm(expreduce.ActualStringFormArgsFull("InputForm", es)))
			}
		}
	case "prelude":
		es := expreduce.NewEvalState()
		w := json.NewEncoder(os.Stdout)
		for _, k := range es.GetDefinedMap().Keys() {
			d := es.GetDefinedMap().GetDef(k)
			rules := []interface{}{}
			for _, dv := range d.Downvalues {
				lhs := dv.Rule.GetParts()[1]
				if hp, ok := atoms.HeadAssertion(lhs, "System`HoldPattern"); ok {
					lhs = hp.GetParts()[1]
				}
				rules = append(rules, T{Enc(lhs), Enc(dv.Rule.GetParts()[2])})
			}
			w.Encode(T{strings.TrimPrefix(k, "System`"), rules})
		}
	case "attrs":
		es := expreduce.NewEvalState()
		for _, k := range es.GetDefinedMap().Keys() {
			d := es.GetDefinedMap().GetDef(k)
			fmt.Printf("%s\t%v\n", k, atoms.AttrsToStrings(&d.Attributes))
		}
	case "repl":
		es := expreduce.NewEvalState()
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			if sc.Text() == "" {
				continue
			}
			in := parser.Interp(sc.Text(), es)
			out := es.Eval(in)
			out = es.ProcessTopLevelResult(in, out)
			fmt.Printf("%s\n   => %s\n", sc.Text(), out.StringForm(expreduce.ActualStringFormArgsFull("InputForm", es)))
		}
	}
}
