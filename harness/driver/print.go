package main

// Mode "print": evaluate an input, print the result in InputForm and FullForm
// and read both texts back.
// stdin: {"id":1,"pre":[...],"texts":[...]} (pre: inputs before, in the same session)
// stdout: {"id","steps":[{"text","res","forms":[{"form","shown","read","val"}]}]}
// read: <<"ok",term>> or <<"err">>; val: what the read expression evaluates to.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
)

func runPrint() {
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	realOut := os.Stdout
	_ = realOut
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	es := expreduce.NewEvalState()
	dirty := false
	for sc.Scan() {
		var in struct {
			ID    int      `json:"id"`
			Pre   []string `json:"pre"`
			Texts []string `json:"texts"`
		}
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if dirty || len(in.Pre) > 0 {
			es = expreduce.NewEvalState()
			dirty = len(in.Pre) > 0
		}
		for _, p := range in.Pre {
			es.Eval(parser.Interp(p, es))
		}
		steps := []map[string]interface{}{}
		for _, text := range in.Texts {
			s := map[string]interface{}{"text": text}
			func() {
				defer func() {
					if p := recover(); p != nil {
						s["res"] = T{"panic"}
						s["forms"] = []interface{}{}
					}
				}()
				ex, err := parser.InterpBuf(bytes.NewBufferString(text), "nofile", es)
				if err != nil {
					s["res"] = T{"err"}
					s["forms"] = []interface{}{}
					return
				}
				res := es.Eval(ex)
				s["res"] = bare(Enc(res))
				forms := []interface{}{}
				for _, form := range []string{"InputForm", "FullForm"} {
					shown := res.StringForm(expreduce.ActualStringFormArgsFull(form, es))
					f := map[string]interface{}{"form": form, "shown": shown}
					rd, err := parser.InterpBuf(bytes.NewBufferString(shown), "nofile", es)
					if err != nil {
						f["read"], f["val"] = T{"err"}, T{"err"}
					} else {
						f["read"] = T{"ok", bare(Enc(rd))}
						f["val"] = bare(Enc(es.Eval(rd)))
					}
					forms = append(forms, f)
				}
				s["forms"] = forms
			}()
			steps = append(steps, s)
		}
		enc.Encode(map[string]interface{}{"id": in.ID, "steps": steps})
		w.Flush()
	}
}
