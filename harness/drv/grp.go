package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"reflect"
	"sync"
	"unsafe"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

// A register machine over the three groups.  Registers hold *bn256.G1,
// *bn256.G2 or *bn256.GT; an operation either makes a new register or has an
// existing one as its receiver.

type gop struct {
	Op string   `json:"op"`
	D  int      `json:"d"` // the receiver, -1 for a new element
	T  string   `json:"t"` // "1", "2" or "T"
	A  []int    `json:"a"`
	B  []int    `json:"b"`
	K  string   `json:"k"`
	H  string   `json:"h"`
	W  []string `json:"-"`
}

var bigType = reflect.TypeOf(big.Int{})

// deep copies a value with everything it points to, so that looking at an
// element (encoding it normalises it) does not change it.
func deep(dst, src reflect.Value) {
	src = reflect.NewAt(src.Type(), unsafe.Pointer(src.UnsafeAddr())).Elem()
	dst = reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem()
	if src.Type() == bigType {
		b := src.Addr().Interface().(*big.Int)
		dst.Addr().Interface().(*big.Int).Set(b)
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.New(src.Type().Elem()))
		deep(dst.Elem(), src.Elem())
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			deep(dst.Field(i), src.Field(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			deep(dst.Index(i), src.Index(i))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			deep(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

func twin(p interface{}) interface{} {
	v := reflect.ValueOf(p)
	c := reflect.New(v.Type().Elem())
	deep(c.Elem(), v.Elem())
	return c.Interface()
}

func encode(p interface{}) []byte {
	switch x := p.(type) {
	case *bn256.G1:
		return x.Marshal()
	case *bn256.G2:
		return x.Marshal()
	case *bn256.GT:
		return x.Marshal()
	}
	panic(fmt.Sprintf("driver: no group element %T", p))
}

// look encodes a copy of the element.
func look(p interface{}) string {
	s := ""
	if e := guard(func() { s = hex.EncodeToString(encode(twin(p))) }); e != "" {
		return e
	}
	return s
}

func decodeInto(p interface{}, b []byte) (rest int, ok bool) {
	switch x := p.(type) {
	case *bn256.G1:
		r, e := x.Unmarshal(b)
		return len(r), e == nil
	case *bn256.G2:
		r, e := x.Unmarshal(b)
		return len(r), e == nil
	case *bn256.GT:
		g, ok := x.Unmarshal(b)
		if ok && g != x {
			return -1, false
		}
		return 0, ok
	}
	panic("driver: decode")
}

type grpMachine struct {
	regs []interface{}
	snap []string
	evs  []interface{}
}

func (m *grpMachine) do(o gop, keep bool) (ev Rep) {
	fresh := func() interface{} {
		switch o.T {
		case "1":
			return new(bn256.G1)
		case "2":
			return new(bn256.G2)
		case "T":
			return new(bn256.GT)
		}
		panic("driver: group " + o.T)
	}
	out := []interface{}{}
	var res interface{}
	ok := true
	err := guard(func() {
		if o.D >= 0 {
			res = m.regs[o.D]
		}
		var ret interface{}
		recv := func() interface{} {
			if res == nil {
				res = fresh()
			}
			return res
		}
		reg := func(i int) interface{} { return m.regs[o.A[i]] }
		switch o.Op {
		case "base":
			switch e := recv().(type) {
			case *bn256.G1:
				ret = e.ScalarBaseMult(bigOf(o.K))
			case *bn256.G2:
				ret = e.ScalarBaseMult(bigOf(o.K))
			}
		case "rand":
			var k *big.Int
			var e error
			b, _ := hex.DecodeString(o.H)
			if o.T == "1" {
				k, res, e = randOf(bn256.RandomG1(bytes.NewReader(b)))
			} else {
				k, res, e = randOf(bn256.RandomG2(bytes.NewReader(b)))
			}
			if e != nil {
				ok, res = false, nil
				return
			}
			ret = res
			out = append(out, k.String())
		case "mul":
			k := bigOf(o.K)
			switch e := recv().(type) {
			case *bn256.G1:
				ret = e.ScalarMult(reg(0).(*bn256.G1), k)
			case *bn256.G2:
				ret = e.ScalarMult(reg(0).(*bn256.G2), k)
			case *bn256.GT:
				ret = e.ScalarMult(reg(0).(*bn256.GT), k)
			}
			if k.String() != o.K {
				out = append(out, "the scalar is changed")
			}
		case "add":
			switch e := recv().(type) {
			case *bn256.G1:
				ret = e.Add(reg(0).(*bn256.G1), reg(1).(*bn256.G1))
			case *bn256.G2:
				ret = e.Add(reg(0).(*bn256.G2), reg(1).(*bn256.G2))
			case *bn256.GT:
				ret = e.Add(reg(0).(*bn256.GT), reg(1).(*bn256.GT))
			}
		case "neg":
			switch e := recv().(type) {
			case *bn256.G1:
				ret = e.Neg(reg(0).(*bn256.G1))
			case *bn256.GT:
				ret = e.Neg(reg(0).(*bn256.GT))
			}
		case "one":
			res = bn256.OneGT()
			ret = res
		case "pair":
			res = bn256.Pair(reg(0).(*bn256.G1), reg(1).(*bn256.G2))
			ret = res
		case "check":
			ps, qs := []*bn256.G1{}, []*bn256.G2{}
			for i := range o.A {
				ps = append(ps, m.regs[o.A[i]].(*bn256.G1))
				qs = append(qs, m.regs[o.B[i]].(*bn256.G2))
			}
			out = append(out, fmt.Sprint(bn256.PairingCheck(ps, qs)))
		case "x":
			out = append(out, reg(0).(*bn256.G1).X().String())
		case "str":
			switch e := reg(0).(type) {
			case *bn256.G1:
				_ = e.String()
			case *bn256.G2:
				_ = e.String()
			case *bn256.GT:
				_ = e.String()
			}
		case "enc":
			out = append(out, hex.EncodeToString(encode(reg(0))))
		case "rt": // encode, decode
			b := encode(reg(0))
			_, ok = decodeInto(recv(), b)
			ret = res
		case "dec":
			b, e := hex.DecodeString(o.H)
			if e != nil {
				panic("driver: hex")
			}
			var rest int
			rest, ok = decodeInto(recv(), b)
			if ok && rest != 0 {
				out = append(out, "some bytes are left over")
			}
			if !bytes.Equal(b, mustHex(o.H)) {
				out = append(out, "the bytes are changed")
			}
			ret = res
		default:
			panic("driver: unknown operation " + o.Op)
		}
		if ok && ret != res && (ret != nil || res != nil) {
			out = append(out, "another receiver is returned")
		}
	})
	if (err != "" || !ok) && o.D < 0 {
		res = nil
	}
	if o.D < 0 && res != nil && keep {
		m.regs = append(m.regs, res)
		m.snap = append(m.snap, "")
	}
	chg := []interface{}{}
	if keep {
		for i, r := range m.regs {
			if s := look(r); s != m.snap[i] {
				m.snap[i] = s
				chg = append(chg, []interface{}{i, s})
			}
		}
	} else if res != nil {
		chg = append(chg, []interface{}{-1, look(res)})
	}
	ev = Rep{"err": err != "" || !ok, "panic": err, "out": out, "chg": chg}
	return
}

func mustHex(s string) []byte {
	b, _ := hex.DecodeString(s)
	return b
}

func randOf(k *big.Int, g interface{}, e error) (*big.Int, interface{}, error) { return k, g, e }

func group(r Req) Rep {
	var prog []gop
	r.get("prog", &prog)
	m := &grpMachine{evs: []interface{}{}}
	n := len(prog)
	from := r.num("from", n) // the operations from here on run at once, in goroutines
	for _, o := range prog[:from] {
		m.evs = append(m.evs, m.do(o, true))
	}
	if from < n {
		evs := make([]Rep, n-from)
		var wg sync.WaitGroup
		for i := range evs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				o := prog[from+i]
				evs[i] = m.do(o, false)
			}(i)
		}
		wg.Wait()
		for _, e := range evs {
			m.evs = append(m.evs, e)
		}
	}
	return Rep{"evs": m.evs}
}

func init() { handlers["group"] = group }
