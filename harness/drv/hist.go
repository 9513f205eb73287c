package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"sync"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

// compiled is what one compilation of a source text yields.
type compiled struct {
	err    string
	names  []string
	dense  *cc.ER1CS
	sparse *cc.ER1CSSparse
	digest string
}

func digest(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("driver: " + err.Error())
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func compileAll(src string) (c compiled) {
	var pr *cc.Program
	c.err = guard(func() {
		pr = cc.Parse(src, true)
		c.names = append([]string{}, pr.GetMainCircuit().Inputs...)
		gates := pr.Execute()
		c.dense = pr.GatesToR1CS(gates, false)
		c.sparse = pr.GatesToSparseR1CS(gates, false)
	})
	if c.err != "" {
		c.digest = "refused"
		return
	}
	rows := []interface{}{}
	for i := range c.dense.L {
		rows = append(rows, Rep{"L": denseRow(c.dense.L[i]), "R": denseRow(c.dense.R[i]), "E": denseRow(c.dense.E[i]), "O": denseRow(c.dense.O[i])})
	}
	for i := range c.sparse.L {
		rows = append(rows, Rep{"L": sparseRow(c.sparse.L[i]), "R": sparseRow(c.sparse.R[i]), "E": sparseRow(c.sparse.E[i]), "O": sparseRow(c.sparse.O[i])})
	}
	c.digest = digest([]interface{}{c.names, pr.PublicInputs, c.dense.WitnessLength, c.sparse.WitnessLength, c.dense.NumberOfGates, c.sparse.NumberOfGates, rows})
	return
}

func solveBoth(c compiled, in []string) string {
	if c.err != "" {
		return "refused"
	}
	var w, sw []*big.Int
	var e1, e2 error
	p1 := guard(func() { w, e1 = cc.CalculateWitness(c.dense, cc.CombineInputs(c.names, bigs(in))) })
	p2 := guard(func() { sw, e2 = cc.CalculateSparseWitness(c.sparse, cc.CombineInputs(c.names, bigs(in))) })
	a, b := outcome(w, e1, p1), outcome(sw, e2, p2)
	return digest([]interface{}{a["st"], a["w"], b["st"], b["w"]})
}

// history runs a sequence of compilations and witness computations in this
// process; op "par" runs its compilations concurrently.
func history(r Req) Rep {
	var srcs []string
	r.get("srcs", &srcs)
	var ops []struct {
		Op string
		I  int
		Is []int
		In []string
	}
	r.get("ops", &ops)
	last := map[int]compiled{}
	evs := []interface{}{}
	ev := func(kind string, i int, in []string, got string) {
		if in == nil {
			in = []string{}
		}
		evs = append(evs, Rep{"op": kind, "i": i, "in": in, "got": got})
	}
	for _, o := range ops {
		switch o.Op {
		case "compile":
			last[o.I] = compileAll(srcs[o.I])
			ev("compile", o.I, nil, last[o.I].digest)
		case "solve":
			c, ok := last[o.I]
			if !ok {
				c = compileAll(srcs[o.I])
				last[o.I] = c
				ev("compile", o.I, nil, c.digest)
			}
			ev("solve", o.I, o.In, solveBoth(c, o.In))
		case "par":
			res := make([]compiled, len(o.Is))
			sol := make([]string, len(o.Is))
			var wg sync.WaitGroup
			for k, i := range o.Is {
				wg.Add(1)
				go func(k, i int) {
					defer wg.Done()
					res[k] = compileAll(srcs[i])
					if len(o.In) > 0 {
						n := len(res[k].names)
						in := []string{}
						for j := 0; j < n; j++ {
							in = append(in, o.In[j%len(o.In)])
						}
						sol[k] = solveBoth(res[k], in)
					}
				}(k, i)
			}
			wg.Wait()
			for k, i := range o.Is {
				ev("compile", i, nil, res[k].digest)
				if len(o.In) > 0 {
					ev("psolve", i, o.In, sol[k])
				}
			}
		default:
			panic("driver: unknown op " + o.Op)
		}
	}
	return Rep{"evs": evs}
}

func init() { handlers["hist"] = history }
