package main

import (
	"encoding/hex"
	"math/big"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

// text compiles a text which may be no program at all.
func text(r Req) Rep {
	rep := Rep{"inputs": []string{}, "public": []string{}}
	src := r.str("src")
	if h := r.str("hex"); h != "" { // bytes that are not UTF-8
		raw, err := hex.DecodeString(h)
		if err != nil {
			panic("driver: bad hex")
		}
		src = string(raw)
	}
	rep["err"] = guard(func() {
		pr := cc.Parse(src, true)
		gates := pr.Execute()
		pr.GatesToR1CS(gates, false)
		pr.GatesToSparseR1CS(gates, false)
		rep["inputs"] = append([]string{}, pr.GetMainCircuit().Inputs...)
		rep["public"] = append([]string{}, pr.PublicInputs...)
	})
	return rep
}

// exprs evaluates expressions in the same surroundings, by the wire they end up on.
func exprs(r Req) Rep {
	var xs []string
	var ins [][]string
	r.get("exprs", &xs)
	r.get("inputs", &ins)
	src := r.str("src")
	outs := []interface{}{}
	for _, x := range xs {
		vals := []string{}
		var e string
		e = guard(func() {
			pr := cc.Parse(strings.Replace(src, "@", x, 1), true)
			sys := pr.GatesToR1CS(pr.Execute(), false)
			for _, in := range ins {
				var w []*big.Int
				var err error
				if p := guard(func() { w, err = cc.CalculateWitness(sys, cc.CombineInputs(pr.GetMainCircuit().Inputs, bigs(in))) }); p != "" || err != nil {
					vals = append(vals, "none")
				} else {
					vals = append(vals, w[len(w)-1].String())
				}
			}
		})
		outs = append(outs, Rep{"err": e, "vals": vals})
	}
	return Rep{"outs": outs}
}

func init() {
	handlers["text"] = text
	handlers["exprs"] = exprs
}
