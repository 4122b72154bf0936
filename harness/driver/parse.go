package main

// Mode "parse": read texts and record the expressions they denote.
// stdin: {"id":1,"texts":[...]}; stdout: {"id","steps":[{"text","out"}]}
// Names are recorded without the context they resolved to when it is
// System` or Global`.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
)

func bare(t T) T {
	if len(t) == 2 && t[0] == "s" {
		n := t[1].(string)
		if strings.HasPrefix(n, "Global`") {
			return T{"s", n[7:]}
		}
		return t
	}
	for i, p := range t {
		if a, ok := p.([]interface{}); ok {
			t[i] = bare(a)
		}
	}
	return t
}

func runParse() {
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	es := expreduce.NewEvalState()
	for sc.Scan() {
		var in struct {
			ID    int      `json:"id"`
			Texts []string `json:"texts"`
		}
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		steps := []map[string]interface{}{}
		for _, text := range in.Texts {
			s := map[string]interface{}{"text": text}
			func() {
				defer func() {
					if p := recover(); p != nil {
						s["out"] = T{"panic"}
					}
				}()
				ex, err := parser.InterpBuf(bytes.NewBufferString(text), "nofile", es)
				if err != nil {
					s["out"] = T{"err"}
				} else {
					s["out"] = T{"ok", bare(Enc(ex))}
				}
			}()
			steps = append(steps, s)
		}
		enc.Encode(map[string]interface{}{"id": in.ID, "steps": steps})
		w.Flush()
	}
}
