package main

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"reflect"
	"sync"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	zk "github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// secrets lists all numbers in the toxic part of a setup.
func secrets(s *zk.Setup) (r []string) {
	v := reflect.ValueOf(&s.Toxic).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
		if x, ok := f.Interface().(*big.Int); ok && x != nil {
			r = append(r, x.String())
		}
	}
	return
}

type failing struct{ left []byte }

func (f *failing) Read(p []byte) (int, error) {
	if len(f.left) == 0 {
		return 0, errors.New("no randomness left")
	}
	n := copy(p, f.left)
	f.left = f.left[n:]
	return n, nil
}

// fresh logs everything random that is drawn in a history.
func fresh(r Req) Rep {
	rep := Rep{}
	var ops []struct {
		Op    string
		N     int
		Src   string
		Bytes []int
	}
	r.get("ops", &ops)
	evs := []interface{}{}
	var mu sync.Mutex
	add := func(e Rep) {
		mu.Lock()
		defer mu.Unlock()
		evs = append(evs, e)
	}
	both := func(n int, f func()) {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		wg.Wait()
	}
	for _, o := range ops {
		o := o
		rep["err"] = guard(func() {
			switch o.Op {
			case "draw", "pardraw":
				f := func() {
					v, err := utils.Field.ArithmeticField.Rand()
					if err != nil {
						panic(err)
					}
					add(Rep{"op": "draw", "vals": []string{v.String()}})
				}
				if o.Op == "pardraw" {
					both(o.N, f)
					return
				}
				for i := 0; i < o.N; i++ {
					f()
				}
			case "small":
				vals := []string{}
				for i := 0; i < o.N; i++ {
					v, err := utils.Field.ArithmeticField.Rand()
					if err != nil {
						panic(err)
					}
					vals = append(vals, v.String())
				}
				add(Rep{"op": "small", "vals": vals})
			case "blind":
				pr := cc.Parse(o.Src, true)
				gates := pr.Execute()
				names := pr.GetMainCircuit().Inputs
				d, s := pr.GatesToR1CS(gates, true), pr.GatesToSparseR1CS(gates, true)
				in := func() []cc.InputArgument {
					return cc.CombineInputs(names, []*big.Int{big.NewInt(3), big.NewInt(4), big.NewInt(12)})
				}
				both(o.N, func() {
					if w, err := cc.CalculateWitness(d, in()); err == nil {
						add(Rep{"op": "blind", "vals": []string{w[len(w)-2].String()}})
					}
					if w, err := cc.CalculateSparseWitness(s, in()); err == nil {
						add(Rep{"op": "blind", "vals": []string{w[len(w)-2].String()}})
					}
				})
			case "setup", "sparse", "parsetup":
				pr := cc.Parse(o.Src, true)
				gates := pr.Execute()
				n := pr.GlobalInputCount()
				d, s := pr.GatesToR1CS(gates, false).Transpose(), pr.GatesToSparseR1CS(gates, false).TransposeSparse()
				f := func(sparse bool) {
					var st *zk.Setup
					var err error
					if sparse {
						st, err = zk.GenerateTrustedSetupSparse(n, s)
					} else {
						st, err = zk.GenerateTrustedSetup(n, d)
					}
					if err != nil {
						panic(err)
					}
					add(Rep{"op": "setup", "vals": secrets(st), "keys": []string{
						st.Pk.G1.Alpha.X().String(), st.Pk.G1.Beta.X().String(), st.Pk.G1.Delta.X().String(), st.Pk.G1.PowersX[1].X().String()}})
				}
				if o.Op == "parsetup" {
					k := 0
					both(o.N, func() {
						mu.Lock()
						k++
						sp := k%2 == 0
						mu.Unlock()
						f(sp)
					})
					return
				}
				for i := 0; i < o.N; i++ {
					f(o.Op == "sparse")
				}
			case "group":
				for i := 0; i < o.N; i++ {
					k, g, err := bn256.RandomG1(rand.Reader)
					if err != nil {
						panic(err)
					}
					add(Rep{"op": "group", "vals": []string{k.String()}, "is": string(g.Marshal()) == string(new(bn256.G1).ScalarBaseMult(k).Marshal())})
					k, h, err := bn256.RandomG2(rand.Reader)
					if err != nil {
						panic(err)
					}
					add(Rep{"op": "group", "vals": []string{k.String()}, "is": string(h.Marshal()) == string(new(bn256.G2).ScalarBaseMult(k).Marshal())})
				}
			case "scripted":
				//what is read decides: the same bytes, the same element; no bytes, an error
				b := make([]byte, len(o.Bytes))
				for i, x := range o.Bytes {
					b[i] = byte(x)
				}
				for g := 0; g < 2; g++ {
					one := func(rd io.Reader) string {
						var k *big.Int
						var err error
						if g == 0 {
							k, _, err = bn256.RandomG1(rd)
						} else {
							k, _, err = bn256.RandomG2(rd)
						}
						if err != nil {
							return "error"
						}
						return k.String()
					}
					add(Rep{"op": "scripted", "vals": []string{}, "bytes": o.Bytes, "got": one(&failing{append([]byte{}, b...)}), "again": one(bytes.NewReader(b))})
				}
			}
		})
		if rep["err"] != "" {
			break
		}
	}
	rep["evs"] = evs
	return rep
}

func init() { handlers["fresh"] = fresh }
