package main

// Modes "streams", "tc", "gfx": histories of the stream manager and the log
// switch, of time counters, and rendered graphics.

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math/big"
	"os"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/graphics"
	"github.com/corywalker/expreduce/expreduce/timecounter"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
	gologging "github.com/op/go-logging"
	chart "github.com/wcharczuk/go-chart"
)

func lines(f func(line []byte) interface{}, out *os.File) {
	w := bufio.NewWriter(out)
	defer w.Flush()
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<26), 1<<26)
	for sc.Scan() {
		enc.Encode(f(sc.Bytes()))
	}
}

// ---------------------------------------------------------------- streams
type strStep struct {
	K    string   `json:"k"`
	Es   int      `json:"es"`
	Name string   `json:"name"`
	Idx  string   `json:"idx"`
	Text string   `json:"text"`
	N    int      `json:"n"`
	O1   string   `json:"o1"`
	O2   string   `json:"o2"`
	C1   int      `json:"c1"`
	C2   int      `json:"c2"`
	Res  []string `json:"res"`
}

type tail struct {
	f   *os.File
	pos int64
}

func (t *tail) next() string {
	b, _ := ioutil.ReadFile(t.f.Name())
	s := string(b[t.pos:])
	t.pos = int64(len(b))
	return s
}

func (s *strStep) addr() expreduceapi.Ex {
	if s.Idx == "" {
		return atoms.NewString(s.Name)
	}
	return atoms.E(atoms.S("OutputStream"), atoms.NewString(s.Name), integer(s.Idx))
}

func integer(s string) expreduceapi.Ex {
	return expreduce.EvalInterp("0+("+s+")", helper)
}

var helper *expreduce.EvalState

func runStreams() {
	realOut := os.Stdout
	helper = expreduce.NewEvalState()
	f1, _ := ioutil.TempFile(".", "out")
	f2, _ := ioutil.TempFile(".", "err")
	os.Stdout, os.Stderr = f1, f2
	t1, t2 := tail{f1, 0}, tail{f2, 0}
	ess := []*expreduce.EvalState{expreduce.NewEvalState(), expreduce.NewEvalState()}
	lines(func(line []byte) interface{} {
		var h struct {
			ID    int       `json:"id"`
			Steps []strStep `json:"steps"`
		}
		if err := json.Unmarshal(line, &h); err != nil {
			panic(err)
		}
		for _, es := range ess {
			es.DebugOff()
		}
		t1.next()
		t2.next()
		for i := range h.Steps {
			s := &h.Steps[i]
			es := ess[s.Es]
			s.Res = []string{}
			switch s.K {
			case "ws":
				s.Res = flat(es.Eval(atoms.E(atoms.S("WriteString"), s.addr(), atoms.NewString(s.Text))))
				if len(s.Res) > 1 {
					s.Res = []string{"unevaluated"}
				}
			case "print":
				s.Res = flat(es.Eval(atoms.E(atoms.S("Print"), atoms.NewString(s.Text))))
			case "api":
				idx := int64(-1)
				if s.Idx != "" {
					idx, _ = strconv.ParseInt(s.Idx, 10, 64)
				}
				s.Res = []string{strconv.FormatBool(es.GetStreamManager().WriteString(s.Name, idx, s.Text))}
			case "streams":
				s.Res = flat(es.Eval(atoms.E(atoms.S("Streams"))))
			case "bad":
				var e expreduceapi.Ex
				txt := atoms.NewString(s.Text)
				switch s.N {
				case 0:
					e = atoms.E(atoms.S("WriteString"), atoms.S("stdout"), txt)
				case 1:
					e = atoms.E(atoms.S("WriteString"), atoms.E(atoms.S("OutputStream"), atoms.NewString("stdout")), txt)
				case 2:
					e = atoms.E(atoms.S("WriteString"), atoms.E(atoms.S("OutputStream"), atoms.NewString("stdout"), atoms.NewString("1")), txt)
				case 3:
					e = atoms.E(atoms.S("WriteString"), atoms.NewString("stdout"))
				case 4:
					e = atoms.E(atoms.S("WriteString"), atoms.E(atoms.S("InputStream"), atoms.NewString("stdout"), atoms.NewInt(1)), txt)
				default:
					e = atoms.E(atoms.S("WriteString"), txt, txt, txt)
				}
				es.Eval(e)
			case "level":
				es.Eval(atoms.E(atoms.S("ExpreduceSetLogging"), atoms.S("True"), atoms.S(s.Name)))
			case "off":
				es.Eval(atoms.E(atoms.S("ExpreduceSetLogging"), atoms.S("False"), atoms.S("Debug")))
			case "on":
				es.GetLogger().DebugOn(gologging.Level(s.N))
			case "setstate":
				es.SetDebugState(s.N == 1)
			case "debugf":
				es.Debugf("%s", s.Text)
			case "infof":
				es.Infof("%s", s.Text)
			case "errorf":
				es.Errorf("%s", s.Text)
			}
			s.O1, s.O2 = t1.next(), t2.next()
			s.C1, s.C2 = 0, 0
			if s.Text != "" {
				s.C1, s.C2 = strings.Count(s.O1, s.Text), strings.Count(s.O2, s.Text)
			}
			if s.K == "bad" || s.K == "level" || s.K == "off" || strings.HasSuffix(s.K, "f") {
				s.O1, s.O2 = "", ""
			}
		}
		return h
	}, realOut)
}

// ----------------------------------------------------------- time counters
type tcStep struct {
	K   string     `json:"k"`
	G   int        `json:"g"`
	H   int        `json:"h"`
	C   int        `json:"c"`
	Key string     `json:"key"`
	V   int        `json:"v"`
	Out [][]tcLine `json:"out"`
}
type tcLine struct {
	Key string `json:"key"`
	V   int    `json:"v"`
	N   int    `json:"n"`
}

func runTC() {
	lines(func(line []byte) interface{} {
		var h struct {
			ID    int      `json:"id"`
			Steps []tcStep `json:"steps"`
		}
		if err := json.Unmarshal(line, &h); err != nil {
			panic(err)
		}
		gs := make([]timecounter.Group, 4)
		for i := range gs {
			gs[i].Init()
		}
		for i := range h.Steps {
			s := &h.Steps[i]
			s.Out = [][]tcLine{}
			switch s.K {
			case "add":
				v := float64(s.V) / 4
				switch s.C {
				case 1:
					gs[s.G].AddTime(timecounter.CounterGroupDefTime, s.Key, v)
				case 2:
					gs[s.G].AddTime(timecounter.CounterGroupLHSDefTime, s.Key, v)
				case 3:
					gs[s.G].AddTime(timecounter.CounterGroupEvalTime, s.Key, v)
				case 4:
					gs[s.G].AddTime(timecounter.CounterGroupHeadEvalTime, s.Key, v)
				}
			case "merge":
				gs[s.G].Update(&gs[s.H])
			case "show":
				cur := []tcLine{}
				txt := gs[s.G].String()
				for _, l := range strings.Split(strings.TrimSuffix(txt, "\n"), "\n") {
					if l == "" {
						s.Out = append(s.Out, cur)
						cur = []tcLine{}
						continue
					}
					p := strings.SplitN(l, ", ", 3)
					v, e1 := strconv.ParseFloat(p[0], 64)
					n, e2 := strconv.Atoi(p[1])
					if e1 != nil || e2 != nil {
						n = -1
					}
					cur = append(cur, tcLine{p[2], int(v * 4), n})
				}
				if len(s.Out) < 4 {
					s.Out = append(s.Out, cur)
				}
			}
		}
		return h
	}, os.Stdout)
}

// ---------------------------------------------------------------- graphics
func flt(v interface{}) expreduceapi.Ex { return atoms.NewReal(big.NewFloat(v.(float64) / 4)) }

func gfxEx(x []interface{}) expreduceapi.Ex {
	sub := func(head string) expreduceapi.Ex {
		e := atoms.E(atoms.S(head))
		for _, y := range x[1:] {
			e.AppendEx(gfxEx(y.([]interface{})))
		}
		return e
	}
	switch x[0].(string) {
	case "list":
		return sub("List")
	case "dir":
		return sub("Directive")
	case "rgb":
		return atoms.E(atoms.S("RGBColor"), flt(x[1]), flt(x[2]), flt(x[3]))
	case "op":
		return atoms.E(atoms.S("Opacity"), flt(x[1]))
	case "th":
		return atoms.E(atoms.S("AbsoluteThickness"), flt(x[1]))
	case "line":
		e := atoms.E(atoms.S("List"))
		for _, p := range x[1:] {
			q := p.([]interface{})
			e.AppendEx(atoms.E(atoms.S("List"), flt(q[0]), flt(q[1])))
		}
		return atoms.E(atoms.S("Line"), e)
	case "bad":
		switch int(x[1].(float64)) {
		case 0:
			return atoms.E(atoms.S("Line"), atoms.E(atoms.S("List"), atoms.E(atoms.S("List"), atoms.NewInt(1), atoms.NewInt(2))))
		case 1:
			return atoms.E(atoms.S("Line"), atoms.S("p"))
		case 2:
			return atoms.E(atoms.S("Line"))
		case 3:
			return atoms.E(atoms.S("Directive"), atoms.E(atoms.S("Opacity"), atoms.S("x")))
		case 4:
			return atoms.E(atoms.S("Directive"), atoms.E(atoms.S("RGBColor"), atoms.NewReal(big.NewFloat(1))))
		default:
			return atoms.E(atoms.S("Line"), atoms.E(atoms.S("List"), atoms.E(atoms.S("List"), atoms.NewReal(big.NewFloat(1)))))
		}
	}
	switch int(x[1].(float64)) {
	case 0:
		return atoms.E(atoms.S("Circle"), atoms.E(atoms.S("List"), atoms.NewReal(big.NewFloat(1)), atoms.NewReal(big.NewFloat(1))), atoms.NewReal(big.NewFloat(2)))
	case 1:
		return atoms.S("foo")
	case 2:
		return atoms.NewInt(3)
	default:
		return atoms.NewString("text")
	}
}

type gfxSeries struct {
	Pts [][]int `json:"pts"`
	St  []int   `json:"st"`
}

func runGfx() {
	realOut := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = dn
	}
	lines(func(line []byte) interface{} {
		var h struct {
			ID     int           `json:"id"`
			G      []interface{} `json:"g"`
			Args   int           `json:"args"`
			Err    bool          `json:"err"`
			Series []gfxSeries   `json:"series"`
		}
		if err := json.Unmarshal(line, &h); err != nil {
			panic(err)
		}
		e := atoms.E(atoms.S("Graphics"), gfxEx(h.G))
		if h.Args > 1 {
			e.AppendEx(atoms.E(atoms.S("Rule"), atoms.S("Axes"), atoms.S("True")))
		}
		c, err := graphics.Render(e)
		h.Err = err != nil
		h.Series = []gfxSeries{}
		for _, s := range c.Series {
			cs, ok := s.(chart.ContinuousSeries)
			if !ok {
				h.Series = append(h.Series, gfxSeries{})
				continue
			}
			g := gfxSeries{Pts: [][]int{}, St: []int{}}
			for i := range cs.XValues {
				g.Pts = append(g.Pts, []int{int(cs.XValues[i] * 4), int(cs.YValues[i] * 4)})
			}
			show := 0
			if cs.Style.Show {
				show = 1
			}
			k := cs.Style.StrokeColor
			g.St = []int{show, int(k.R), int(k.G), int(k.B), int(k.A), int(cs.Style.StrokeWidth * 4)}
			h.Series = append(h.Series, g)
		}
		return h
	}, realOut)
}
