package main

// Mode "alg": read an input and evaluate it, with a limit on the time.
// stdin: {"id":1,"texts":[...]}; stdout: {"id","steps":[{"text","read","res"}]}

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
)

func runAlg() {
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	es := expreduce.NewEvalState()
	for sc.Scan() {
		var in struct {
			ID    int      `json:"id"`
			Texts []string `json:"texts"`
		}
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		steps := []map[string]interface{}{}
		for _, text := range in.Texts {
			text := text
			done := make(chan map[string]interface{}, 1)
			go func(es *expreduce.EvalState) {
				s := map[string]interface{}{"text": text}
				defer func() {
					if p := recover(); p != nil {
						s["res"] = T{"panic"}
					}
					done <- s
				}()
				s["read"] = T{"err"}
				s["res"] = T{"err"}
				ex, err := parser.InterpBuf(bytes.NewBufferString(text), "nofile", es)
				if err != nil {
					return
				}
				s["read"] = bare(Enc(ex))
				s["res"] = bare(Enc(es.Eval(ex)))
			}(es)
			select {
			case s := <-done:
				steps = append(steps, s)
			case <-time.After(90 * time.Second):
				// seconds at most on the pinned tree: it does not end, and
				// the session is given up
				es = expreduce.NewEvalState()
				steps = append(steps, map[string]interface{}{"text": text, "read": T{"err"}, "res": T{"slow"}})
			}
		}
		enc.Encode(map[string]interface{}{"id": in.ID, "steps": steps})
		w.Flush()
	}
}
