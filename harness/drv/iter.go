package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// iter replays schedules of interleaved enumerations of one sparse vector.
func iter(r Req) Rep {
	var ents [][2]string
	r.get("e", &ents)
	var scheds [][][]interface{}
	r.get("scheds", &scheds)
	t := utils.NewAvlTree()
	for _, e := range ents {
		t.Insert(uint(bigOf(e[0]).Uint64()), bigOf(e[1]))
	}
	pairs := func(x [][]interface{}) [][]string {
		out := [][]string{}
		for _, p := range x {
			out = append(out, []string{fmt.Sprint(p[0]), fmt.Sprint(p[1])})
		}
		return out
	}
	res := [][]interface{}{}
	err := guard(func() {
		for _, sch := range scheds {
			enums := []chan utils.Entry{}
			out := []interface{}{}
		schedule:
			for _, s := range sch {
				switch s[0].(string) {
				case "start":
					var c chan utils.Entry
					ok := within(func() { c = t.ChannelNodes(s[2].(float64) == 1) })
					if !ok {
						out = append(out, []interface{}{"stuck"})
						break schedule
					}
					enums = append(enums, c)
					out = append(out, []interface{}{"ok"})
				case "look":
					look := [][]string{}
					ok := within(func() {
						for _, e := range t.DecendingNodes() {
							v, err := t.Get(e.Key)
							if err != nil || !t.Has(e.Key) || v.Cmp(e.Value) != 0 {
								return
							}
							look = append([][]string{{fmt.Sprint(e.Key), v.String()}}, look...)
						}
					})
					if !ok {
						out = append(out, []interface{}{"stuck"})
						break schedule
					}
					out = append(out, []interface{}{"look", look})
				case "recv":
					c := enums[int(s[1].(float64))-1]
					select {
					case e, open := <-c:
						if !open {
							out = append(out, []interface{}{"end"})
						} else {
							out = append(out, []interface{}{"entry", []string{fmt.Sprint(e.Key), e.Value.String()}})
						}
					case <-time.After(5 * time.Second):
						out = append(out, []interface{}{"stuck"})
						break schedule
					}
				default:
					panic("driver: unknown step")
				}
			}
			res = append(res, out)
		}
	})
	return Rep{"res": res, "err": err, "after": pairs(entries(t))}
}

// within tells whether f returns in time.
func within(f func()) bool {
	done := make(chan string, 1)
	go func() { done <- guard(f) }()
	select {
	case msg := <-done:
		if msg != "" {
			panic(msg)
		}
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}

// machpar runs a program whose last operations only read: these are run by
// several goroutines at once, each in an order of its own.
func machpar(r Req) Rep {
	g, from := r.num("g", 4), r.num("from", 0)
	var prog []mop
	r.get("prog", &prog)
	m := newMachine(r)
	for _, o := range prog[:from] {
		if !m.do(o) {
			return Rep{"evs": m.evs, "prog": prog[:len(m.evs)]}
		}
	}
	reads := prog[from:]
	type one struct {
		o  mop
		ev Rep
	}
	got := make([][]one, g)
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := range reads {
				o := reads[(j*(2*k+1)+k*7)%len(reads)]
				o.D = true
				out, err := m.eval(o)
				got[k] = append(got[k], one{o, m.event(out, err, nil)})
			}
		}(k)
	}
	wg.Wait()
	ran := append([]mop{}, prog[:from]...)
	for _, l := range got {
		for _, x := range l {
			ran = append(ran, x.o)
			m.evs = append(m.evs, x.ev)
		}
	}
	// what the reads changed shows now
	if chg := m.changes(); len(chg) > 0 && len(m.evs) > 0 {
		m.evs[len(m.evs)-1].(Rep)["chg"] = chg
	}
	return Rep{"evs": m.evs, "prog": ran}
}

func init() { handlers["iter"] = iter; handlers["machpar"] = machpar }
