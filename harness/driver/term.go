package main

// JSON encoding of expreduce expressions used on both sides of the
// specification/implementation boundary.
//
//	["s",name]                symbol; System names bare, others qualified
//	["i",n]                   integer with |n| < 2^30
//	["z",sign,[limbs]]        bigger integer, little endian base-10000 limbs
//	["q",num,den]             rational (num, den are integer encodings)
//	["f",num,den]             machine/big real as an exact dyadic rational
//	["fx",text]               real that is not representable in small form
//	["t",text]                string
//	["c",re,im]               complex
//	["e",head,arg1,...]       compound expression

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

type Ex = expreduceapi.Ex

// T is a JSON term: []interface{} trees.
type T = []interface{}

var lim30 = big.NewInt(1 << 30)

func encInt(v *big.Int) T {
	a := new(big.Int).Abs(v)
	if a.Cmp(lim30) < 0 {
		return T{"i", int(v.Int64())}
	}
	limbs := []interface{}{}
	base := big.NewInt(10000)
	m := new(big.Int)
	for a.Sign() != 0 {
		a.DivMod(a, base, m)
		limbs = append(limbs, int(m.Int64()))
	}
	return T{"z", v.Sign(), limbs}
}

func decInt(t T) *big.Int {
	switch t[0].(string) {
	case "i":
		return big.NewInt(int64(toInt(t[1])))
	case "z":
		r := new(big.Int)
		base := big.NewInt(10000)
		ls := toArr(t[2])
		for i := len(ls) - 1; i >= 0; i-- {
			r.Mul(r, base)
			r.Add(r, big.NewInt(int64(toInt(ls[i]))))
		}
		if toInt(t[1]) < 0 {
			r.Neg(r)
		}
		return r
	}
	panic("decInt")
}

func toInt(x interface{}) int {
	switch v := x.(type) {
	case int:
		return v
	case float64:
		return int(v)
	case json.Number:
		n, _ := v.Int64()
		return int(n)
	}
	panic(fmt.Sprintf("toInt %T", x))
}

func toArr(x interface{}) T {
	if v, ok := x.([]interface{}); ok {
		return v
	}
	panic(fmt.Sprintf("toArr %T %v", x, x))
}

func Enc(e Ex) T {
	if e == nil {
		return T{"nil"}
	}
	switch v := e.(type) {
	case *atoms.Symbol:
		return T{"s", strings.TrimPrefix(v.Name, "System`")}
	case *atoms.Integer:
		return encInt(v.Val)
	case *atoms.String:
		return T{"t", v.Val}
	case *atoms.Rational:
		return T{"q", encInt(v.Num), encInt(v.Den)}
	case *atoms.Flt:
		if v.Val.IsInf() {
			return T{"fx", v.Val.String()}
		}
		r, _ := v.Val.Rat(nil)
		if r != nil && r.Num().CmpAbs(lim30) < 0 && r.Denom().Cmp(lim30) < 0 {
			return T{"f", encInt(r.Num()), encInt(r.Denom())}
		}
		return T{"fx", v.Val.Text('g', 40)}
	case *atoms.Complex:
		return T{"c", Enc(v.Re), Enc(v.Im)}
	case expreduceapi.ExpressionInterface:
		r := T{"e"}
		for _, p := range v.GetParts() {
			r = append(r, Enc(p))
		}
		return r
	}
	return T{"unknown", fmt.Sprintf("%T", e)}
}

func Dec(t T) Ex {
	switch t[0].(string) {
	case "s":
		n := t[1].(string)
		if !strings.Contains(n, "`") {
			n = "System`" + n
		}
		return atoms.NewSymbol(n)
	case "i", "z":
		return atoms.NewInteger(decInt(t))
	case "t":
		return atoms.NewString(t[1].(string))
	case "q":
		return atoms.NewRational(decInt(toArr(t[1])), decInt(toArr(t[2])))
	case "f":
		r := new(big.Rat).SetFrac(decInt(toArr(t[1])), decInt(toArr(t[2])))
		f, _ := r.Float64()
		return atoms.NewReal(big.NewFloat(f))
	case "c":
		return atoms.NewComplex(Dec(toArr(t[1])), Dec(toArr(t[2])))
	case "e":
		parts := []Ex{}
		for _, p := range t[1:] {
			parts = append(parts, Dec(toArr(p)))
		}
		return atoms.NewExpression(parts)
	}
	panic(fmt.Sprintf("Dec %v", t))
}

func tooBig(t T) bool {
	n := 0
	return !sizeOK(t, &n)
}

func sizeOK(t T, n *int) bool {
	*n++
	if *n > 4000 {
		return false
	}
	for _, p := range t {
		if a, ok := p.([]interface{}); ok {
			if !sizeOK(a, n) {
				return false
			}
		}
	}
	return true
}
