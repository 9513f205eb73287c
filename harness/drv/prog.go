package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func big10(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("driver: not a number: " + s)
	}
	return v
}
func bigs(in []string) []*big.Int {
	r := make([]*big.Int, len(in))
	for i, s := range in {
		r[i] = big10(s)
	}
	return r
}
func strs(in []*big.Int) []string {
	r := make([]string, len(in))
	for i, v := range in {
		if v == nil {
			r[i] = "nil"
			continue
		}
		r[i] = v.String()
	}
	return r
}

// cell is one non-zero coefficient of a row.
type cell [2]interface{}

func denseRow(row []*big.Int) (out []cell) {
	out = []cell{}
	for i, v := range row {
		if v == nil {
			out = append(out, cell{i, "nil"})
			continue
		}
		if v.Sign() != 0 {
			out = append(out, cell{i, v.String()})
		}
	}
	return
}

func sparseRow(t *utils.AvlTree) (out []cell) {
	out = []cell{}
	if t == nil {
		return
	}
	for e := range t.ChannelNodes(true) {
		out = append(out, cell{int(e.Key), e.Value.String()})
	}
	return
}

func shownRows(dense *cc.ER1CS) []interface{} {
	rows := []interface{}{}
	for i := range dense.L {
		rows = append(rows, Rep{"L": denseRow(dense.L[i]), "R": denseRow(dense.R[i]), "E": denseRow(dense.E[i]), "O": denseRow(dense.O[i])})
	}
	return rows
}

func shownSparseRows(sparse *cc.ER1CSSparse) []interface{} {
	srows := []interface{}{}
	for i := range sparse.L {
		srows = append(srows, Rep{"L": sparseRow(sparse.L[i]), "R": sparseRow(sparse.R[i]), "E": sparseRow(sparse.E[i]), "O": sparseRow(sparse.O[i])})
	}
	return srows
}

// workIn makes a directory with these files the current one, until the result is called.
func workIn(files map[string]string) func() {
	old, err := os.Getwd()
	dir, err2 := os.MkdirTemp("", "files")
	if err != nil || err2 != nil {
		panic("driver: no directory for files")
	}
	for n, t := range files {
		if !filepath.IsLocal(n) {
			panic("driver: file " + n)
		}
		f := filepath.Join(dir, n)
		if os.MkdirAll(filepath.Dir(f), 0700) != nil || os.WriteFile(f, []byte(t), 0600) != nil {
			panic("driver: file " + n)
		}
	}
	if os.Chdir(dir) != nil {
		panic("driver: no directory for files")
	}
	return func() {
		os.Chdir(old)
		os.RemoveAll(dir)
	}
}

// program runs the compiler, in the dense and in the sparse form, and both
// witness solvers on every input vector.
func program(r Req) Rep {
	rep := Rep{}
	src := r.str("src")
	var files map[string]string
	r.get("files", &files)
	if files != nil {
		defer workIn(files)()
	}
	rnd := r.flag("randomize")
	var ins [][]string
	r.get("inputs", &ins)
	var pr *cc.Program
	var names []string
	rep["err"] = guard(func() {
		pr = cc.Parse(src, true)
		names = append([]string{}, pr.GetMainCircuit().Inputs...)
	})
	if rep["err"] != "" {
		return rep
	}
	rep["inputs"] = names
	rep["public"] = append([]string{}, pr.PublicInputs...)
	rep["npublic"] = pr.GlobalInputCount()
	var dense *cc.ER1CS
	var sparse *cc.ER1CSSparse
	var gates []*cc.Gate
	rep["err"] = guard(func() {
		gates = pr.Execute()
		rep["ngates"] = len(gates)
		switch r.str("order") {
		case "sd":
			sparse = pr.GatesToSparseR1CS(gates, rnd)
			dense = pr.GatesToR1CS(gates, rnd)
		case "apart":
			dense = pr.GatesToR1CS(gates, rnd)
			q := cc.Parse(src, true)
			sparse = q.GatesToSparseR1CS(q.Execute(), rnd)
		default:
			dense = pr.GatesToR1CS(gates, rnd)
			sparse = pr.GatesToSparseR1CS(gates, rnd)
		}
	})
	if rep["err"] != "" {
		return rep
	}
	//inputs for a program about which the one who asks knows nothing
	if len(r["pool"]) > 0 {
		ins = draw(r, len(names))
		rep["ins"] = ins
		if most := r.num("most", 40); dense.NumberOfGates > most || len(names) > 8 {
			rep["big"] = true
			return rep
		}
	}
	rep["gates"] = dense.NumberOfGates
	rep["wlen"] = dense.WitnessLength
	rep["sgates"] = sparse.NumberOfGates
	rep["swlen"] = sparse.WitnessLength
	rep["rows"] = shownRows(dense)
	rep["srows"] = shownSparseRows(sparse)
	before := shown(dense) + shownSparse(sparse)
	//the system as it is without the blinding gate
	if rnd {
		rep["err"] = guard(func() {
			q := cc.Parse(src, true)
			g := q.Execute()
			rep["plain"] = shownRows(q.GatesToR1CS(g, false))
			rep["splain"] = shownSparseRows(q.GatesToSparseR1CS(g, false))
		})
		if rep["err"] != "" {
			return rep
		}
	}
	kept := []string{}
	runs := []interface{}{}
	for _, in := range ins {
		run := Rep{"in": in}
		var w, sw []*big.Int
		var e1, e2 error
		var p1, p2 string
		v1, v2, nm := bigs(in), bigs(in), append([]string{}, names...)
		p1 = guard(func() { w, e1 = cc.CalculateWitness(dense, cc.CombineInputs(nm, v1)) })
		p2 = guard(func() { sw, e2 = cc.CalculateSparseWitness(sparse, cc.CombineInputs(nm, v2)) })
		run["d"] = outcome(w, e1, p1)
		run["s"] = outcome(sw, e2, p2)
		//the arguments keep their values, and the results theirs when the arguments change
		if !same(strs(v1), in) || !same(strs(v2), in) || !same(nm, names) {
			kept = append(kept, "inputs")
		}
		for i := range v1 {
			v1[i].Add(v1[i], big.NewInt(3))
			v2[i].Add(v2[i], big.NewInt(3))
		}
		if !same(outcome(w, e1, p1)["w"].([]string), run["d"].(Rep)["w"].([]string)) || !same(outcome(sw, e2, p2)["w"].([]string), run["s"].(Rep)["w"].([]string)) {
			kept = append(kept, "witness")
		}
		runs = append(runs, run)
	}
	rep["runs"] = runs
	if shown(dense)+shownSparse(sparse) != before {
		kept = append(kept, "system")
	}
	//the transposed systems are new ones
	if r.flag("transpose") && dense.NumberOfGates > 0 {
		rep["err"] = guard(func() {
			td, ts := dense.Transpose(), sparse.TransposeSparse()
			if shown(dense)+shownSparse(sparse) != before {
				kept = append(kept, "transposed system")
			}
			for _, m := range [][][]*big.Int{td.L, td.R, td.E, td.O} {
				for _, c := range m {
					for i := range c {
						c[i] = big.NewInt(77)
					}
				}
			}
			for _, m := range [][]*utils.AvlTree{ts.L, ts.R, ts.E, ts.O} {
				for _, c := range m {
					c.Insert(0, big.NewInt(77))
					c.Insert(1, big.NewInt(77))
				}
			}
			if shown(dense)+shownSparse(sparse) != before {
				kept = append(kept, "system, by a change to the transposed one")
			}
		})
	}
	rep["kept"] = kept
	var combos []struct {
		Names, Vals []string
	}
	r.get("combos", &combos)
	outs := []interface{}{}
	for _, c := range combos {
		var w, sw []*big.Int
		var e1, e2 error
		c := c
		//$gate stands for the wire of some gate
		for i := range c.Names {
			if c.Names[i] == "$gate" && len(gates) > 0 {
				c.Names[i] = gates[len(gates)/2].ID()
			}
		}
		p1 := guard(func() { w, e1 = cc.CalculateWitness(dense, cc.CombineInputs(c.Names, bigs(c.Vals))) })
		p2 := guard(func() { sw, e2 = cc.CalculateSparseWitness(sparse, cc.CombineInputs(c.Names, bigs(c.Vals))) })
		outs = append(outs, Rep{"d": outcome(w, e1, p1), "s": outcome(sw, e2, p2)})
	}
	rep["combos"] = outs
	return rep
}

// draw lists all vectors over a small field, or takes values from the pool.
func draw(r Req, n int) (ins [][]string) {
	var pool []string
	r.get("pool", &pool)
	if m := r.num("all", 0); m > 0 {
		total := 1
		for i := 0; i < n && total <= 400; i++ {
			total *= m
		}
		if total <= 400 {
			for k := 0; k < total; k++ {
				v := make([]string, n)
				for i, q := 0, k; i < n; i, q = i+1, q/m {
					v[i] = fmt.Sprint(q % m)
				}
				ins = append(ins, v)
			}
			return
		}
	}
	for k, at := 0, 0; k < r.num("vectors", 4); k++ {
		v := make([]string, n)
		for i := range v {
			v[i] = pool[at%len(pool)]
			at++
		}
		ins = append(ins, v)
	}
	return
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func shown(x *cc.ER1CS) string {
	s := ""
	for _, m := range [][][]*big.Int{x.L, x.R, x.E, x.O} {
		for _, row := range m {
			s += strings.Join(strs(row), " ") + ";"
		}
	}
	return s
}
func shownSparse(x *cc.ER1CSSparse) string {
	s := ""
	for _, m := range [][]*utils.AvlTree{x.L, x.R, x.E, x.O} {
		for _, row := range m {
			s += fmt.Sprint(sparseRow(row))
		}
	}
	return s
}

func outcome(w []*big.Int, err error, p string) Rep {
	if p != "" {
		return Rep{"st": "panic", "msg": p, "w": []string{}}
	}
	if err != nil {
		return Rep{"st": "reject", "msg": clip(err.Error()), "w": []string{}}
	}
	return Rep{"st": "ok", "msg": "", "w": strs(w)}
}

func init() { handlers["prog"] = program }
