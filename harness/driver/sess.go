package main

// Mode "sess": run sessions of top-level inputs and record, for every input,
// the expression that was read and the expression it evaluated to.
//
// stdin:  one JSON object per line: {"id":1,"scen":[["src",...],...]}
// stdout: {"id","sc","st","begin":1} before and {"id","sc","st","in","out"}
//         after every input, flushed.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"time"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/parser"
)

type sessIn struct {
	ID   int        `json:"id"`
	Scen [][]string `json:"scen"`
	From int        `json:"from"`
}

type rec struct {
	ID    int         `json:"id"`
	Sc    int         `json:"sc"`
	St    int         `json:"st"`
	Begin int         `json:"begin,omitempty"`
	In    interface{} `json:"in,omitempty"`
	Out   interface{} `json:"out,omitempty"`
	Msg   string      `json:"msg,omitempty"`
}

func runSess() {
	log.SetOutput(io.Discard)
	realOut := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	w := bufio.NewWriterSize(realOut, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	emit := func(r rec) { enc.Encode(r); w.Flush() }
	base, _ := os.Getwd()
	for sc.Scan() {
		var s sessIn
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		es := expreduce.NewEvalState()
		if d, err := os.MkdirTemp(base, "s"); err == nil {
			os.Chdir(d)
		}
		for i := s.From; i < len(s.Scen); i++ {
			bad := false
			for j, src := range s.Scen[i] {
				emit(rec{ID: s.ID, Sc: i, St: j, Begin: 1})
				r := rec{ID: s.ID, Sc: i, St: j}
				done := make(chan bool, 1)
				go func() {
					defer func() {
						if p := recover(); p != nil {
							r.Out = T{"panic"}
							r.Msg = fmt.Sprint(p)
						}
						done <- true
					}()
					if src == "!NEW" {
						es = expreduce.NewEvalState()
						r.In, r.Out = T{"new"}, T{"s", "Null"}
						return
					}
					if p := strings.Split(src, "\x1f"); p[0] == "!FILE" {
						// !FILE name separator statement statement ...
						os.WriteFile(p[1], []byte(strings.ReplaceAll(strings.Join(p[3:], p[2]), "\x1e", "")), 0644)
						in := T{"file", p[1]}
						for _, x := range p[3:] {
							if strings.HasPrefix(x, "\x1e") { // not an expression: nothing from here on
								break
							}
							in = append(in, Enc(parser.Interp(x, es)))
						}
						r.In, r.Out = in, T{"s", "Null"}
						return
					}
					in := parser.Interp(src, es)
					r.In = Enc(in)
					b := rec{ID: s.ID, Sc: i, St: j, Begin: 1, In: r.In}
					emit(b)
					orig := in.DeepCopy()
					out := es.Eval(in)
					out = es.ProcessTopLevelResult(orig, out)
					o := Enc(out)
					if tooBig(o) {
						o = T{"big"}
					}
					r.Out = o
				}()
				select {
				case <-done:
					emit(r)
				case <-time.After(15 * time.Second):
					emit(rec{ID: s.ID, Sc: i, St: j, In: r.In, Out: T{"hang"}})
					w.Flush()
					os.Exit(0)
				}
				if t, ok := r.Out.(T); ok && len(t) == 1 && t[0] == "panic" {
					bad = true
					break
				}
			}
			if bad {
				es = expreduce.NewEvalState()
				emit(rec{ID: s.ID, Sc: i + 1, St: -1, Begin: 2})
			}
		}
	}
}
