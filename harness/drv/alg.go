package main

import (
	"fmt"
	"math/big"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// A register machine over numbers, coefficient vectors and sparse vectors.
// Registers hold *big.Int, []*big.Int or *utils.AvlTree.

func bigOf(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("driver: no number: " + s)
	}
	return v
}

func vecStr(v []*big.Int) []string {
	out := make([]string, len(v))
	for i, x := range v {
		if x == nil {
			out[i] = "nil"
		} else {
			out[i] = x.String()
		}
	}
	return out
}

// tree shows the structure of a sparse vector: [key, value, height, left, right]
func tree(n *utils.AvlNode) interface{} {
	if n == nil {
		return []interface{}{}
	}
	v := "nil"
	if n.Value() != nil {
		v = n.Value().String()
	}
	return []interface{}{int(n.Key()), v, n.Height(), tree(n.Left()), tree(n.Right())}
}

func inorder(n *utils.AvlNode, out *[][]interface{}) {
	if n == nil {
		return
	}
	inorder(n.Left(), out)
	v := "nil"
	if n.Value() != nil {
		v = n.Value().String()
	}
	*out = append(*out, []interface{}{int(n.Key()), v})
	inorder(n.Right(), out)
}

func entries(t *utils.AvlTree) [][]interface{} {
	out := [][]interface{}{}
	inorder(t.Root(), &out)
	return out
}

func collect(c chan utils.Entry) [][]interface{} {
	out := [][]interface{}{}
	for e := range c {
		out = append(out, []interface{}{int(e.Key), e.Value.String()})
	}
	return out
}

func entList(es []utils.Entry) [][]interface{} {
	out := [][]interface{}{}
	for _, e := range es {
		out = append(out, []interface{}{int(e.Key), e.Value.String()})
	}
	return out
}

type treeValue struct{ t interface{} }

func show(v interface{}) []interface{} {
	switch x := v.(type) {
	case *big.Int:
		if x == nil {
			return []interface{}{"x", "nil"}
		}
		return []interface{}{"n", x.String()}
	case []*big.Int:
		return []interface{}{"p", vecStr(x)}
	case *utils.AvlTree:
		return []interface{}{"s", entries(x)}
	case string:
		return []interface{}{"x", x}
	case treeValue:
		return []interface{}{"t", x.t}
	case int:
		return []interface{}{"i", x}
	case [][]interface{}:
		return []interface{}{"l", x}
	}
	panic(fmt.Sprintf("driver: no register value %T", v))
}

type mop struct {
	Op string      `json:"op"`
	A  []int       `json:"a"` // registers
	K  int         `json:"k"` // small numbers
	J  int         `json:"j"`
	V  string      `json:"v"` // a number
	W  []string    `json:"w"` // a literal vector
	E  [][2]string `json:"e"`
	D  bool        `json:"d"` // the results are not kept
}

// machine is the state of one run.
type machine struct {
	f    utils.Fq
	pf   utils.PolynomialField
	regs []interface{}
	snap []string
	evs  []interface{}
}

func newMachine(r Req) *machine {
	mod := bigOf(r.str("mod"))
	fs := utils.Field
	if mod.Cmp(bn256.Order) != 0 || r.flag("own") {
		fs = utils.PrepareFields(mod)
	}
	return &machine{f: fs.ArithmeticField, pf: fs.PolynomialField, evs: []interface{}{}}
}

// eval runs one operation on the registers; it keeps nothing.
func (m *machine) eval(o mop) (out []interface{}, err string) {
	f, pf := m.f, m.pf
	regs := m.regs
	num := func(i int) *big.Int { return regs[i].(*big.Int) }
	vec := func(i int) []*big.Int { return regs[i].([]*big.Int) }
	spa := func(i int) *utils.AvlTree { return regs[i].(*utils.AvlTree) }
	push := func(v ...interface{}) { out = append(out, v...) }
	arg := func(i int) int {
		if i >= len(o.A) {
			panic(fmt.Sprintf("driver: bad register in %v", o))
		}
		return o.A[i]
	}
	vecs := func(from, n int) (x [][]*big.Int) {
		for i := 0; i < n; i++ {
			x = append(x, vec(arg(from+i)))
		}
		return
	}
	spas := func(from, n int) (x []*utils.AvlTree) {
		for i := 0; i < n; i++ {
			x = append(x, spa(arg(from+i)))
		}
		return
	}
	err = guard(func() {
		switch o.Op {
		case "num":
			push(bigOf(o.V))
		case "vec":
			push(bigs(o.W))
		case "spa":
			t := utils.NewAvlTree()
			for _, e := range o.E {
				t.Insert(uint(bigOf(e[0]).Uint64()), bigOf(e[1]))
			}
			push(t)
		// ---- the field
		case "add":
			push(f.Add(num(arg(0)), num(arg(1))))
		case "sub":
			push(f.Sub(num(arg(0)), num(arg(1))))
		case "mul":
			push(f.Mul(num(arg(0)), num(arg(1))))
		case "mulscalar":
			push(f.MulScalar(num(arg(0)), num(arg(1))))
		case "neg":
			push(f.Neg(num(arg(0))))
		case "double":
			push(f.Double(num(arg(0))))
		case "square":
			push(f.Square(num(arg(0))))
		case "copy":
			push(f.Copy(num(arg(0))))
		case "affine":
			push(f.Affine(num(arg(0))))
		case "inv":
			push(f.Inverse(num(arg(0))))
		case "div":
			push(f.Div(num(arg(0)), num(arg(1))))
		case "exp":
			push(f.Exp(num(arg(0)), num(arg(1))))
		case "expint":
			push(f.ExpInt(num(arg(0)), uint(bigOf(o.V).Uint64())))
		case "equal":
			push(fmt.Sprint(f.Equal(num(arg(0)), num(arg(1)))))
		case "iszero":
			push(fmt.Sprint(f.IsZero(num(arg(0)))))
		case "str":
			v, _ := f.StringToFieldElement(o.V)
			push(v)
		case "zero":
			push(f.Zero())
		case "one":
			push(f.One())
		// ---- coefficient vectors
		case "padd":
			push(pf.Add(vec(arg(0)), vec(arg(1))))
		case "psub":
			push(pf.Sub(vec(arg(0)), vec(arg(1))))
		case "pmul":
			push(pf.Mul(vec(arg(0)), vec(arg(1))))
		case "pdiv":
			q, m := pf.Div(vec(arg(0)), vec(arg(1)))
			push(q, m)
		case "pscale":
			push(pf.MulScalar(vec(arg(0)), num(arg(1))))
		case "peval":
			push(f.EvalPoly(vec(arg(0)), num(arg(1))))
		case "pdot":
			push(f.ScalarProduct(vec(arg(0)), vec(arg(1))))
		case "pinterp":
			push(pf.LagrangeInterpolation(vec(arg(0))))
		case "pdomain":
			push(pf.DomainPolynomial(o.K))
		case "pzeroat":
			push(pf.NewPolZeroAt(o.K, o.J, num(arg(0))))
		case "plin": // K polynomials, then the vector of factors
			for _, p := range pf.LinearCombine(vecs(0, o.K), vec(arg(o.K))) {
				push(p)
			}
		case "psum":
			push(pf.AddPolynomials(vecs(0, o.K)))
		case "ptransp":
			for _, p := range utils.Transpose(vecs(0, o.K)) {
				push(p)
			}
		case "pset": // the caller assigns a slot of its vector
			vec(arg(0))[o.K] = bigOf(o.V)
		case "nset": // the caller overwrites its number
			num(arg(0)).SetString(o.V, 10)
		case "peq":
			push(fmt.Sprint(utils.BigArraysEqual(vec(arg(0)), vec(arg(1)))))
		case "pzero":
			push(fmt.Sprint(utils.IsZeroArray(vec(arg(0)))))
		case "pzeros":
			push(utils.ArrayOfBigZeros(o.K))
		// ---- conversions
		case "p2s":
			push(utils.NewSparseArrayFromArray(vec(arg(0))))
		case "s2p":
			push(spa(arg(0)).ToArray(o.K))
		case "swith":
			push(utils.NewSparseArrayWith(uint(o.K), new(big.Int).Set(num(arg(0)))))
		// ---- sparse vectors as polynomials
		case "sadd":
			push(f.AddToSparse(spa(arg(0)), spa(arg(1))))
		case "ssub":
			push(f.SubToSparse(spa(arg(0)), spa(arg(1))))
		case "smul":
			push(f.MulSparse(spa(arg(0)), spa(arg(1))))
		case "sdiv":
			q, m := f.DivideSparse(spa(arg(0)), spa(arg(1)))
			push(q, m)
		case "sscale":
			push(f.MulSparseScalar(spa(arg(0)), num(arg(1))))
		case "seval":
			push(f.EvalSparsePoly(spa(arg(0)), num(arg(1))))
		case "sdot":
			push(f.SparseScalarProduct(spa(arg(0)), vec(arg(1))))
		case "sinterp":
			push(f.InterpolateSparseArray(spa(arg(0)), o.K))
		case "slin":
			for _, p := range f.LinearCombine(spas(0, o.K), vec(arg(o.K))) {
				push(p)
			}
		case "ssum":
			push(f.AddPolynomials(spas(0, o.K)))
		case "stransp":
			for _, p := range utils.TransposeSparse(spas(0, o.K), o.J) {
				push(p)
			}
		case "scomb": // in place
			if f.Combine(spa(arg(0)), vec(arg(1))) != spa(arg(0)) {
				push("another vector")
			}
		case "sclone":
			push(spa(arg(0)).Clone())
		// ---- sparse vectors as maps
		case "ins":
			spa(arg(0)).Insert(uint(o.K), bigOf(o.V))
		case "insno":
			spa(arg(0)).InsertNoOverwriteAllowed(uint(o.K), bigOf(o.V))
		case "putadd":
			spa(arg(0)).Put(uint(o.K), bigOf(o.V), f.Add)
		case "putmul":
			spa(arg(0)).Put(uint(o.K), bigOf(o.V), f.Mul)
		case "rem":
			v, e := spa(arg(0)).Remove(uint(o.K))
			if e != nil {
				push("missing")
			} else {
				push(v)
			}
		case "get":
			v, e := spa(arg(0)).Get(uint(o.K))
			if e != nil {
				push(v, "missing")
			} else {
				push(v, "there")
			}
		case "has":
			push(fmt.Sprint(spa(arg(0)).Has(uint(o.K))))
		case "size":
			push(spa(arg(0)).Size())
		case "maxp":
			push(int(spa(arg(0)).MaxPower()))
		case "max":
			n := spa(arg(0)).MaxNode()
			push(int(n.Key()), n.Value())
		case "min":
			n := spa(arg(0)).MinNode()
			push(int(n.Key()), n.Value())
		case "tree":
			push(treeValue{tree(spa(arg(0)).Root())})
		case "asc":
			push(collect(spa(arg(0)).ChannelNodes(true)))
		case "desc":
			push(collect(spa(arg(0)).ChannelNodes(false)))
		case "all":
			push(entList(spa(arg(0)).DecendingNodes()))
		default:
			panic("driver: unknown operation " + o.Op)
		}
	})
	if err != "" {
		out = nil
	}
	return
}

func (m *machine) event(out []interface{}, err string, chg []interface{}) Rep {
	news := []interface{}{}
	for _, v := range out {
		news = append(news, show(v))
	}
	if chg == nil {
		chg = []interface{}{}
	}
	return Rep{"err": err != "", "out": news, "chg": chg}
}

// changes lists the registers whose content is another than it was.
func (m *machine) changes() []interface{} {
	chg := []interface{}{}
	for i := range m.regs {
		s := fmt.Sprint(show(m.regs[i])...)
		if s != m.snap[i] {
			m.snap[i] = s
			chg = append(chg, []interface{}{i, show(m.regs[i])})
		}
	}
	return chg
}

// do runs one operation and reports it; false if its registers do not exist.
func (m *machine) do(o mop) bool {
	for _, a := range o.A {
		if a < 0 || a >= len(m.regs) {
			return false // something before went wrong
		}
	}
	out, err := m.eval(o)
	m.evs = append(m.evs, m.event(out, err, m.changes()))
	if !o.D {
		for _, v := range out {
			switch v.(type) {
			case *big.Int, []*big.Int, *utils.AvlTree:
				m.regs = append(m.regs, v)
				m.snap = append(m.snap, fmt.Sprint(show(v)...))
			}
		}
	}
	return true
}

func mach(r Req) Rep {
	var prog []mop
	r.get("prog", &prog)
	m := newMachine(r)
	for _, o := range prog {
		if !m.do(o) {
			break
		}
	}
	return Rep{"evs": m.evs}
}

// explore lists every transition between the shapes a sparse vector over the
// keys 0..k-1 can take, found by breadth-first search in the real code.
func explore(r Req) Rep {
	mod := bigOf(r.str("mod"))
	f := utils.PrepareFields(mod).ArithmeticField
	k, limit := r.num("k", 4), r.num("limit", 5000)
	ops := []string{"ins", "insno", "putadd", "putmul", "rem"}
	vals := []string{}
	r.get("vals", &vals)
	type step struct {
		op  string
		key int
		val string
	}
	apply := func(t *utils.AvlTree, s step) (out string, err string) {
		err = guard(func() {
			switch s.op {
			case "ins":
				t.Insert(uint(s.key), bigOf(s.val))
			case "insno":
				t.InsertNoOverwriteAllowed(uint(s.key), bigOf(s.val))
			case "putadd":
				t.Put(uint(s.key), bigOf(s.val), f.Add)
			case "putmul":
				t.Put(uint(s.key), bigOf(s.val), f.Mul)
			case "rem":
				v, e := t.Remove(uint(s.key))
				out = "missing"
				if e == nil {
					out = v.String()
				}
			}
		})
		return
	}
	queries := func(t *utils.AvlTree) Rep {
		q := Rep{"size": t.Size(), "maxp": int(t.MaxPower()), "max": []interface{}{int(t.MaxNode().Key()), t.MaxNode().Value().String()},
			"min": []interface{}{int(t.MinNode().Key()), t.MinNode().Value().String()},
			"asc": collect(t.ChannelNodes(true)), "desc": collect(t.ChannelNodes(false)), "all": entList(t.DecendingNodes()),
			"arr": vecStr(t.ToArray(k)), "clone": tree(t.Clone().Root()), "from": entries(utils.NewSparseArrayFromArray(t.ToArray(k)))}
		gets, has := []interface{}{}, []bool{}
		for i := 0; i <= k; i++ {
			v, e := t.Get(uint(i))
			gets = append(gets, []interface{}{v.String(), e == nil})
			has = append(has, t.Has(uint(i)))
		}
		q["get"], q["has"] = gets, has
		return q
	}
	paths := [][]step{{}}
	build := func(p []step) *utils.AvlTree {
		t := utils.NewAvlTree()
		for _, s := range p {
			apply(t, s)
		}
		return t
	}
	shape := func(t *utils.AvlTree) string { return fmt.Sprint(tree(t.Root())) }
	seen := map[string]bool{shape(build(nil)): true}
	trans := []interface{}{}
	states := []interface{}{Rep{"t": tree(nil), "q": queries(build(nil))}}
	full := false
	for n := 0; n < len(paths); n++ {
		for key := 0; key < k; key++ {
			for _, op := range ops {
				for _, v := range vals {
					if op == "rem" && v != vals[0] {
						continue
					}
					t := build(paths[n])
					pre := tree(t.Root())
					s := step{op, key, v}
					out, err := apply(t, s)
					trans = append(trans, []interface{}{pre, op, key, v, tree(t.Root()), out, err != ""})
					if sh := shape(t); !seen[sh] {
						if len(paths) >= limit {
							full = true
							continue
						}
						seen[sh] = true
						paths = append(paths, append(append([]step{}, paths[n]...), s))
						states = append(states, Rep{"t": tree(t.Root()), "q": queries(t)})
					}
				}
			}
		}
	}
	part, parts := r.num("part", 0), r.num("parts", 1)
	slice := func(x []interface{}) []interface{} {
		return x[len(x)*part/parts : len(x)*(part+1)/parts]
	}
	return Rep{"trans": slice(trans), "states": slice(states), "full": full}
}

func init() { handlers["mach"] = mach; handlers["explore"] = explore }
