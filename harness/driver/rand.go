package main

// Mode "rand": evaluate inputs; reals are given by their whole part and the
// first 53 bits of their fraction.
// stdin: {"id":1,"texts":[...]}; stdout: {"id","steps":[{"text","res"}]}

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func encRand(ex expreduceapi.Ex) T {
	switch v := ex.(type) {
	case *atoms.Integer:
		if v.Val.IsInt64() && v.Val.Int64() < 1<<30 && v.Val.Int64() > -(1<<30) {
			return T{"i", v.Val.Int64()}
		}
	case *atoms.Flt:
		if !v.Val.IsInf() {
			// floor, so that the fraction is never negative
			r, _ := v.Val.Rat(nil)
			if r == nil {
				r = new(big.Rat)
			}
			ip := new(big.Int).Div(r.Num(), r.Denom())
			fr := new(big.Rat).Sub(r, new(big.Rat).SetInt(ip))
			n := new(big.Int).Lsh(fr.Num(), 53)
			n.Div(n, fr.Denom())
			if ip.IsInt64() && ip.Int64() < 1<<30 && ip.Int64() > -(1<<30) {
				k := n.Uint64()
				return T{"r", ip.Int64(), k >> 27, k & (1<<27 - 1)}
			}
		}
	case *atoms.Symbol:
		return T{"s", v.Name}
	case expreduceapi.ExpressionInterface:
		out := T{"e"}
		for _, p := range v.GetParts() {
			out = append(out, encRand(p))
		}
		return out
	}
	return T{"x", fmt.Sprint(ex)}
}

func runRand() {
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	es := expreduce.NewEvalState()
	for sc.Scan() {
		var in struct {
			ID    int      `json:"id"`
			Texts []string `json:"texts"`
		}
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		steps := []map[string]interface{}{}
		for _, text := range in.Texts {
			func() {
				s := map[string]interface{}{"text": text, "res": T{"x", "not read"}}
				defer func() {
					if p := recover(); p != nil {
						s["res"] = T{"x", fmt.Sprint("panic: ", p)}
					}
					steps = append(steps, s)
				}()
				ex, err := parser.InterpBuf(bytes.NewBufferString(text), "nofile", es)
				if err != nil {
					return
				}
				s["res"] = encRand(es.Eval(ex))
			}()
		}
		enc.Encode(map[string]interface{}{"id": in.ID, "steps": steps})
		w.Flush()
	}
}
