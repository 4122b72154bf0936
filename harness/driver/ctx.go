package main

// Mode "ctx": inputs that change the current context and use symbols.

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

type ctxStep struct {
	K     string   `json:"k"`
	Src   string   `json:"src"`
	Toks  []string `json:"toks"`
	Arg   string   `json:"arg"`
	Path  []string `json:"p"`
	Names []string `json:"names"`
	Ctx   string   `json:"ctx"`
	CPath []string `json:"cpath"`
	Out   []string `json:"out"`
}

func flat(e expreduceapi.Ex) []string {
	switch x := e.(type) {
	case *atoms.Symbol:
		return []string{x.Name}
	case *atoms.String:
		return []string{x.Val}
	case *atoms.Integer:
		return []string{x.Val.String()}
	case *atoms.Expression:
		r := []string{}
		for _, p := range x.GetParts()[1:] {
			r = append(r, flat(p)...)
		}
		return r
	}
	return []string{"?"}
}

func runCtx() {
	realOut := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	w := bufio.NewWriter(realOut)
	defer w.Flush()
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	es := expreduce.NewEvalState()
	for sc.Scan() {
		var s struct {
			ID    int       `json:"id"`
			Steps []ctxStep `json:"steps"`
		}
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			panic(err)
		}
		expreduce.EvalInterp("System`$Context=\"Global`\"", es)
		expreduce.EvalInterp("System`$ContextPath={\"System`\",\"Global`\"}", es)
		for i := range s.Steps {
			st := &s.Steps[i]
			func() {
				defer func() {
					if p := recover(); p != nil {
						st.Out = []string{"panic"}
					}
				}()
				in := parser.Interp(st.Src, es)
				st.Names = []string{}
				if st.K == "use" || st.K == "set" {
					ps := in.(*atoms.Expression).GetParts()[1:]
					if st.K == "set" {
						ps = ps[:1]
					}
					for _, p := range ps {
						st.Names = append(st.Names, flat(p)...)
					}
				}
				st.Out = flat(es.Eval(in))
			}()
			st.Ctx = es.GetStringDef("System`$Context", "?")
			st.CPath = flat(es.GetListDef("System`$ContextPath"))
		}
		enc.Encode(s)
	}
}
