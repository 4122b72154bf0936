package main

// Mode "conc": several sessions at the same time. Mode "defs": concurrent
// histories of the definition map.

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

func runConc() {
	log.SetOutput(io.Discard)
	realOut := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	lines(func(line []byte) interface{} {
		var h struct {
			ID    int          `json:"id"`
			Sess  [][][]string `json:"sess"`
			Steps [][]rec      `json:"steps"`
		}
		if err := json.Unmarshal(line, &h); err != nil {
			panic(err)
		}
		h.Steps = make([][]rec, len(h.Sess))
		var wg sync.WaitGroup
		start := make(chan bool)
		for k := range h.Sess {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				<-start
				es := expreduce.NewEvalState()
				for i, sc := range h.Sess[k] {
					for j, src := range sc {
						r := rec{ID: h.ID, Sc: i, St: j, Out: T{"panic"}, In: T{"nil"}}
						func() {
							defer func() {
								if p := recover(); p != nil {
									r.Msg = fmt.Sprint(p)
								}
							}()
							in := parser.Interp(src, es)
							r.In = Enc(in)
							orig := in.DeepCopy()
							o := Enc(es.ProcessTopLevelResult(orig, es.Eval(in)))
							if tooBig(o) {
								o = T{"big"}
							}
							r.Out = o
						}()
						h.Steps[k] = append(h.Steps[k], r)
					}
				}
			}(k)
		}
		close(start)
		wg.Wait()
		return h
	}, realOut)
}

type defOp struct {
	K   string `json:"k"`
	Key string `json:"key"`
	V   int    `json:"v"`
	T0  int64  `json:"t0"`
	T1  int64  `json:"t1"`
	R   []int  `json:"r"`
}

func defVal(d expreduceapi.Def) int {
	if i, ok := d.DefaultExpr.(*atoms.Integer); ok {
		return int(i.Val.Int64())
	}
	return -1
}

func runDefs() {
	es := expreduce.NewEvalState()
	dm := es.GetDefinedMap()
	lines(func(line []byte) interface{} {
		var h struct {
			ID  int       `json:"id"`
			Thr [][]defOp `json:"thr"`
		}
		if err := json.Unmarshal(line, &h); err != nil {
			panic(err)
		}
		var clock int64
		var wg sync.WaitGroup
		start := make(chan bool)
		name := func(k string) string { return fmt.Sprintf("Verif`%s%d", k, h.ID) }
		for k := range h.Thr {
			wg.Add(1)
			go func(ops []defOp) {
				defer wg.Done()
				<-start
				for i := range ops {
					o := &ops[i]
					o.R = []int{}
					o.T0 = atomic.AddInt64(&clock, 1)
					switch o.K {
					case "set":
						dm.Set(name(o.Key), expreduceapi.Def{DefaultExpr: atoms.NewInteger(big.NewInt(int64(o.V)))})
					case "get":
						if d, ok := dm.Get(name(o.Key)); ok {
							o.R = []int{defVal(d)}
						}
					case "def":
						es.Define(atoms.E(atoms.NewSymbol(name("f")), atoms.NewInt(int64(o.V))), atoms.NewInt(int64(o.V)))
					case "lock":
						dm.LockKey(name(o.Key))
						time.Sleep(time.Microsecond)
						dm.UnlockKey(name(o.Key))
					}
					o.T1 = atomic.AddInt64(&clock, 1)
				}
			}(h.Thr[k])
		}
		close(start)
		wg.Wait()
		return h
	}, os.Stdout)
}
