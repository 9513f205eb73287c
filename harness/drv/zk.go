package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sync"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// A constraint system, given by a program or by its rows, and what the scheme
// makes of it: columns, polynomials, keys, proofs, verdicts.

type rowSpec struct{ L, R, E, O [][2]interface{} }

type system struct {
	dense  *cc.ER1CS
	sparse *cc.ER1CSSparse
	names  []string
	npub   int
	dt     *cc.ER1CSTransposed
	st     *cc.ER1CSsPARSETransposed
}

func cellsInto(cells [][2]interface{}, n int) ([]*big.Int, *utils.AvlTree) {
	v := utils.ArrayOfBigZeros(n)
	t := utils.NewAvlTree()
	for _, c := range cells {
		k := int(c[0].(float64))
		v[k] = big10(c[1].(string))
		t.InsertNoOverwriteAllowed(uint(k), big10(c[1].(string)))
	}
	return v, t
}

func load(r Req, rep Rep) (s *system) {
	s = &system{}
	if src := r.str("src"); src != "" {
		rep["err"] = guard(func() {
			pr := cc.Parse(src, true)
			s.names = append([]string{}, pr.GetMainCircuit().Inputs...)
			rep["public"] = append([]string{}, pr.PublicInputs...)
			s.npub = pr.GlobalInputCount()
			gates := pr.Execute()
			s.dense = pr.GatesToR1CS(gates, false)
			s.sparse = pr.GatesToSparseR1CS(gates, false)
		})
		if rep["err"] != "" {
			rep["refused"] = true
			return nil
		}
	} else {
		var rows []rowSpec
		r.get("rows", &rows)
		n := r.num("wlen", 0)
		s.npub = r.num("npub", 0)
		s.dense = &cc.ER1CS{WitnessLength: n, NumberOfGates: len(rows)}
		s.sparse = &cc.ER1CSSparse{WitnessLength: n, NumberOfGates: len(rows)}
		for _, x := range rows {
			d, t := cellsInto(x.L, n)
			s.dense.L, s.sparse.L = append(s.dense.L, d), append(s.sparse.L, t)
			d, t = cellsInto(x.R, n)
			s.dense.R, s.sparse.R = append(s.dense.R, d), append(s.sparse.R, t)
			d, t = cellsInto(x.E, n)
			s.dense.E, s.sparse.E = append(s.dense.E, d), append(s.sparse.E, t)
			d, t = cellsInto(x.O, n)
			s.dense.O, s.sparse.O = append(s.dense.O, d), append(s.sparse.O, t)
		}
	}
	rows := []interface{}{}
	for i := range s.dense.L {
		rows = append(rows, Rep{"L": denseRow(s.dense.L[i]), "R": denseRow(s.dense.R[i]), "E": denseRow(s.dense.E[i]), "O": denseRow(s.dense.O[i])})
	}
	rep["rows"], rep["gates"], rep["wlen"], rep["npub"] = rows, s.dense.NumberOfGates, s.dense.WitnessLength, s.npub
	return s
}

// valueOf sums up the value of anything the scheme handles; group elements are
// copied before they are encoded.
func valueOf(xs ...interface{}) string {
	h := sha256.New()
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			fmt.Fprint(h, "none;")
			return
		}
		if v.Kind() == reflect.Ptr && v.IsNil() {
			fmt.Fprint(h, "nil;")
			return
		}
		if v.CanInterface() {
			switch x := v.Interface().(type) {
			case *bn256.G1, *bn256.G2, *bn256.GT:
				fmt.Fprint(h, look(x), ";")
				return
			case *big.Int:
				fmt.Fprint(h, x.String(), ";")
				return
			case *utils.AvlTree:
				fmt.Fprint(h, entries(x), ";")
				return
			}
		}
		switch v.Kind() {
		case reflect.Ptr:
			walk(v.Elem())
		case reflect.Struct:
			fmt.Fprint(h, "{")
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanInterface() && f.CanAddr() {
					f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
				}
				walk(f)
			}
			fmt.Fprint(h, "}")
		case reflect.Slice, reflect.Array:
			fmt.Fprint(h, "[", v.Len(), ":")
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
			fmt.Fprint(h, "]")
		case reflect.Map:
			fmt.Fprint(h, "map", v.Len())
			for _, k := range v.MapKeys() {
				_ = k
			}
		default:
			if v.CanInterface() {
				fmt.Fprint(h, v.Interface(), ";")
			}
		}
	}
	for _, x := range xs {
		walk(reflect.ValueOf(x))
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func denseCols(m [][]*big.Int) []interface{} {
	out := []interface{}{}
	for _, c := range m {
		out = append(out, vecStr(c))
	}
	return out
}
func sparseCols(m []*utils.AvlTree) []interface{} {
	out := []interface{}{}
	for _, c := range m {
		out = append(out, entries(c))
	}
	return out
}

// qap: columns, polynomials and combinations.
func qap(r Req) Rep {
	rep := Rep{}
	s := load(r, rep)
	if s == nil {
		return rep
	}
	rep["err"] = guard(func() {
		before := valueOf(s.dense, s.sparse)
		s.dt, s.st = s.dense.Transpose(), s.sparse.TransposeSparse()
		rep["dt"] = Rep{"gates": s.dt.NumberOfGates, "wlen": s.dt.WitnessLength, "L": denseCols(s.dt.L), "R": denseCols(s.dt.R), "E": denseCols(s.dt.E), "O": denseCols(s.dt.O)}
		rep["st"] = Rep{"gates": s.st.NumberOfGates, "wlen": s.st.WitnessLength, "L": sparseCols(s.st.L), "R": sparseCols(s.st.R), "E": sparseCols(s.st.E), "O": sparseCols(s.st.O)}
		mid := valueOf(s.dt, s.st)
		l, ri, e, o := s.dt.ER1CSToEAP()
		rep["dp"] = Rep{"L": denseCols(l), "R": denseCols(ri), "E": denseCols(e), "O": denseCols(o)}
		sl, sr, se, so := s.st.ER1CSToEAPSparse()
		rep["sp"] = Rep{"L": sparseCols(sl), "R": sparseCols(sr), "E": sparseCols(se), "O": sparseCols(so)}
		dom := utils.Field.PolynomialField.DomainPolynomial(s.dt.NumberOfGates)
		rep["domain"] = vecStr(dom)
		var vecs [][]string
		r.get("vectors", &vecs)
		// the solver's vectors, and each once more with one wire changed
		var ins [][]string
		r.get("inputs", &ins)
		for i, in := range ins {
			var w []*big.Int
			var e error
			if i%2 == 0 {
				w, e = cc.CalculateWitness(s.dense, cc.CombineInputs(s.names, bigs(in)))
			} else {
				w, e = cc.CalculateSparseWitness(s.sparse, cc.CombineInputs(s.names, bigs(in)))
			}
			if e == nil {
				v := strs(w)
				vecs = append(vecs, v)
				u := append([]string{}, v...)
				k := (r.num("twist", 0) + i) % len(u)
				u[k] = new(big.Int).Mod(new(big.Int).Add(w[k], big.NewInt(int64(1+i))), bn256.Order).String()
				vecs = append(vecs, u)
			}
		}
		outs := []interface{}{}
		for _, v := range vecs {
			w := bigs(v)
			px := zk.CombinePolynomials2(w, s.dt)
			spx := zk.CombineSparsePolynomials(w, s.st)
			x := Rep{"px": vecStr(px), "spx": entries(spx)}
			q, rem := utils.Field.PolynomialField.Div(px, dom)
			x["q"], x["rem"] = vecStr(q), vecStr(rem)
			sq, srem := utils.Field.ArithmeticField.DivideSparse(spx, utils.NewSparseArrayFromArray(dom))
			x["sq"], x["srem"] = entries(sq), entries(srem)
			x["w"] = v
			x["kept"] = reflect.DeepEqual(strs(w), strs(bigs(v)))
			outs = append(outs, x)
		}
		rep["outs"] = outs
		rep["kept"] = before == valueOf(s.dense, s.sparse) && mid == valueOf(s.dt, s.st)
	})
	return rep
}

// ------------------------------------------------------------------ the scheme

type zev struct {
	Op      string          `json:"op"`
	Mode    string          `json:"mode"` // "d" or "s"
	Key     int             `json:"key"`
	W       int             `json:"w"`
	WP      int             `json:"wp"`
	P       int             `json:"p"`
	Q       int             `json:"q"`
	El      string          `json:"el"`
	El2     string          `json:"el2"`
	How     string          `json:"how"`
	K       string          `json:"k"`
	Vals    []string        `json:"vals"`
	Set     [][]interface{} `json:"set"`
	Evs     []zev           `json:"evs"`
	Full    bool            `json:"full"`
	Repeats int             `json:"repeats"`
}

type schemeMachine struct {
	s      *system
	keys   []*zk.Setup
	wits   [][]*big.Int
	proofs []*zk.Proof
}

func hexes1(v []*bn256.G1) []string {
	out := []string{}
	for _, x := range v {
		out = append(out, look(x))
	}
	return out
}
func hexes2(v []*bn256.G2) []string {
	out := []string{}
	for _, x := range v {
		out = append(out, look(x))
	}
	return out
}

func publish(k *zk.Pk) Rep {
	return Rep{
		"domain": vecStr(k.Domain),
		"alpha1": look(k.G1.Alpha), "beta1": look(k.G1.Beta), "delta1": look(k.G1.Delta),
		"px1": hexes1(k.G1.PowersX), "pxdd": hexes1(k.G1.PowersX_Domain_Delta), "le": hexes1(k.G1.Lx_plus_Ex), "e": hexes1(k.G1.Ex),
		"kg": hexes1(k.G1.RLEO_Gamma), "kd": hexes1(k.G1.RLEO_Delta),
		"beta2": look(k.G2.Beta), "gamma2": look(k.G2.Gamma), "delta2": look(k.G2.Delta), "px2": hexes2(k.G2.PowersX), "r": hexes2(k.G2.Rx),
	}
}

func g1of(p *zk.Proof, el string) **bn256.G1 {
	switch el {
	case "A":
		return &p.PiA
	case "C":
		return &p.PiC
	case "F":
		return &p.PiF
	}
	panic("driver: element " + el)
}

// do runs one event; commit makes its result visible.
func (m *schemeMachine) do(e zev) (rep Rep, commit func()) {
	rep = Rep{"st": "ok", "kept": true}
	commit = func() {}
	skip := func() (Rep, func()) { return Rep{"st": "skip", "kept": true}, func() { m.push(e) } }
	fail := func(msg string, err error) bool {
		if msg != "" {
			rep["st"], rep["msg"] = "panic", msg
			return true
		}
		if err != nil {
			rep["st"], rep["msg"] = "error", clip(err.Error())
			return true
		}
		return false
	}
	switch e.Op {
	case "setup":
		var k *zk.Setup
		var err error
		before := valueOf(m.s.dt, m.s.st)
		msg := guard(func() {
			if e.Mode == "s" {
				k, err = zk.GenerateTrustedSetupSparse(m.s.npub, m.s.st)
			} else {
				k, err = zk.GenerateTrustedSetup(m.s.npub, m.s.dt)
			}
		})
		rep["kept"] = before == valueOf(m.s.dt, m.s.st)
		if fail(msg, err) {
			k = nil
		} else if e.Full {
			rep["pk"] = publish(&k.Pk)
		}
		commit = func() { m.keys = append(m.keys, k) }
	case "wit": // the solver's witness
		var w []*big.Int
		var err error
		msg := guard(func() {
			in := cc.CombineInputs(m.s.names, bigs(e.Vals))
			if e.Mode == "s" {
				w, err = cc.CalculateSparseWitness(m.s.sparse, in)
			} else {
				w, err = cc.CalculateWitness(m.s.dense, in)
			}
		})
		if fail(msg, err) {
			w = nil
		}
		rep["w"] = strs(w)
		commit = func() { m.wits = append(m.wits, w) }
	case "vec": // a vector made of another one, or given
		var w []*big.Int
		if e.W >= 0 {
			if m.wits[e.W] == nil {
				return skip()
			}
			for _, v := range m.wits[e.W] {
				w = append(w, new(big.Int).Set(v))
			}
		} else {
			w = bigs(e.Vals)
		}
		for _, c := range e.Set {
			i, v := int(c[0].(float64)), big10(c[1].(string))
			switch {
			case i == -1: // cut off
				w = w[:len(w)-1]
			case i == -2:
				w = append(w, v)
			default:
				w[i%len(w)] = new(big.Int).Mod(new(big.Int).Add(w[i%len(w)], v), bn256.Order)
			}
		}
		rep["w"] = strs(w)
		commit = func() { m.wits = append(m.wits, w) }
	case "prove":
		if m.keys[e.Key] == nil || m.wits[e.W] == nil || m.wits[e.WP] == nil {
			return skip()
		}
		var p *zk.Proof
		var err error
		pk := &m.keys[e.Key].Pk
		w, wp := m.wits[e.W], m.wits[e.WP]
		b1, b2 := valueOf(m.s.dt, m.s.st), valueOf(pk)
		b3 := fmt.Sprint(strs(w), strs(wp))
		same := true
		msg := guard(func() {
			if e.Mode == "s" {
				px := zk.CombineSparsePolynomials(wp, m.s.st)
				b := valueOf(px)
				defer func() { same = b == valueOf(px) }()
				p, err = zk.GenerateProof_Sparse(m.s.npub, pk, w, px)
			} else {
				px := zk.CombinePolynomials2(wp, m.s.dt)
				b := valueOf(px)
				defer func() { same = b == valueOf(px) }()
				p, err = zk.GenerateProofs(m.s.npub, pk, w, px)
			}
		})
		rep["kept"] = same && b1 == valueOf(m.s.dt, m.s.st) && b2 == valueOf(pk) && b3 == fmt.Sprint(strs(w), strs(wp))
		if fail(msg, err) {
			p = nil
		} else if p == nil {
			rep["st"] = "error"
		}
		commit = func() { m.proofs = append(m.proofs, p) }
	case "tamper":
		if m.proofs[e.P] == nil || (e.How == "swap" && m.proofs[e.Q] == nil) || (e.How == "key" && m.keys[e.Key] == nil) {
			return skip()
		}
		p := twin(m.proofs[e.P]).(*zk.Proof)
		k := new(big.Int)
		if e.K != "" {
			k = big10(e.K)
		}
		if e.El == "B" {
			switch e.How {
			case "swap":
				p.PiB = twin(m.proofs[e.Q].PiB).(*bn256.G2)
			case "mul":
				p.PiB = new(bn256.G2).ScalarMult(p.PiB, k)
			case "add":
				p.PiB = new(bn256.G2).Add(p.PiB, new(bn256.G2).ScalarBaseMult(k))
			case "set":
				p.PiB = new(bn256.G2).ScalarBaseMult(k)
			case "key":
				pk := &m.keys[e.Key].Pk.G2
				p.PiB = twin(map[string]*bn256.G2{"beta": pk.Beta, "gamma": pk.Gamma, "delta": pk.Delta}[e.El2]).(*bn256.G2)
			default:
				panic("driver: tamper " + e.How)
			}
		} else {
			el := g1of(p, e.El)
			switch e.How {
			case "swap":
				*el = twin(*g1of(m.proofs[e.Q], e.El2)).(*bn256.G1)
			case "mul":
				*el = new(bn256.G1).ScalarMult(*el, k)
			case "add":
				*el = new(bn256.G1).Add(*el, new(bn256.G1).ScalarBaseMult(k))
			case "set":
				*el = new(bn256.G1).ScalarBaseMult(k)
			case "neg":
				*el = new(bn256.G1).Neg(*el)
			case "key":
				pk := &m.keys[e.Key].Pk.G1
				*el = twin(map[string]*bn256.G1{"alpha": pk.Alpha, "beta": pk.Beta, "delta": pk.Delta}[e.El2]).(*bn256.G1)
			default:
				panic("driver: tamper " + e.How)
			}
		}
		commit = func() { m.proofs = append(m.proofs, p) }
	case "verify":
		if m.keys[e.Key] == nil || m.proofs[e.P] == nil {
			return skip()
		}
		sig := bigs(e.Vals)
		pk := &m.keys[e.Key].Pk
		p := m.proofs[e.P]
		b := valueOf(pk, p, sig)
		yes := false
		msg := guard(func() { yes = zk.VerifyProof(pk, p, sig, false) })
		rep["kept"] = b == valueOf(pk, p, sig)
		fail(msg, nil)
		rep["yes"] = yes
		if e.Full {
			rep["el"] = []string{look(p.PiA), look(p.PiB), look(p.PiC), look(p.PiF)}
			rep["pk"] = publish(pk)
		}
	default:
		panic("driver: unknown event " + e.Op)
	}
	return
}

// push keeps the registers aligned when an event could not take place.
func (m *schemeMachine) push(e zev) {
	switch e.Op {
	case "vec", "wit":
		m.wits = append(m.wits, nil)
	case "prove", "tamper":
		m.proofs = append(m.proofs, nil)
	case "setup":
		m.keys = append(m.keys, nil)
	}
}

func snark(r Req) Rep {
	rep := Rep{}
	s := load(r, rep)
	if s == nil {
		return rep
	}
	rep["err"] = guard(func() { s.dt, s.st = s.dense.Transpose(), s.sparse.TransposeSparse() })
	if rep["err"] != "" {
		return rep
	}
	var evs []zev
	r.get("evs", &evs)
	m := &schemeMachine{s: s}
	out := []interface{}{}
	for _, e := range evs {
		if e.Op != "par" {
			x, c := m.do(e)
			c()
			out = append(out, x)
			continue
		}
		xs, cs := make([]Rep, len(e.Evs)), make([]func(), len(e.Evs))
		var wg sync.WaitGroup
		for i := range e.Evs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				xs[i], cs[i] = m.do(e.Evs[i])
			}(i)
		}
		wg.Wait()
		for _, c := range cs {
			c()
		}
		out = append(out, Rep{"st": "ok", "kept": true, "evs": xs})
	}
	rep["evs"] = out
	return rep
}

func init() {
	handlers["qap"] = qap
	handlers["snark"] = snark
}
