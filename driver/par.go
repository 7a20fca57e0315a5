package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// A par scenario has groups, each with an area, pools, a prologue (ops) and runs: {own, ops}. After
// the prologues all runs of all groups go on at the same time, one goroutine each. They share what
// the prologues made (addresses, keys, inputs, outputs, metadata, argument slices) for reading; a
// builder or transaction of the prologue is used only by the run that owns it. Every run gives a trace
// of its own: the prologue's events, then the run's, then its hot calls. Those are then repeated by all
// runs at once, in a tight loop; a result that differs gives another trace.

func (s *txSession) fork(own []interface{}) *txSession {
	c := *s
	c.hs = nil
	for i, h := range s.hs {
		x := &handle{frozen: projectH(h)}
		for _, o := range own {
			if num(o) == i+1 {
				x = &handle{b: h.b, t: h.t}
			}
		}
		c.hs = append(c.hs, x)
	}
	c.kslices, c.islices, c.oslices = map[string][]bip32.XPrv{}, map[string][]*tx.TxInput{}, map[string][]*tx.TxOutput{}
	for k, v := range s.kslices {
		c.kslices[k] = v
	}
	for k, v := range s.islices {
		c.islices[k] = v
	}
	for k, v := range s.oslices {
		c.oslices[k] = v
	}
	return &c
}

func (s *addrSession) fork([]interface{}) *addrSession {
	c := newAddrSession()
	for i, x := range s.slots {
		c.slots[i] = &slot{a: x.a}
	}
	return c
}

func (s *keySession) fork([]interface{}) *keySession {
	c := newKeySession()
	for i, k := range s.keys {
		c.keys[i] = k
	}
	return c
}

func (s *protoSession) fork([]interface{}) *protoSession { return newProtoSession() }

func runOps(s session, ops []interface{}) []M {
	evs := []M{}
	for _, o := range ops {
		op := obj(o)
		ev := M{}
		for k, v := range op {
			ev[k] = v
		}
		s.step(op, ev)
		evs = append(evs, ev)
	}
	return evs
}

// runPar executes the scenario several times (ROUNDS) and records every different trace of a run once:
// what a run observes does not depend on what the others do, so there should be one of each.
func runPar(sc M) M {
	rounds, _ := strconv.Atoi(os.Getenv("ROUNDS"))
	traces, seen := []M{}, map[string]bool{}
	for i := 0; i == 0 || i < rounds; i++ {
		for k, t := range parRound(sc) {
			b, err := json.Marshal(t)
			must(err)
			h := fmt.Sprintf("%d %x", k, sha256.Sum256(b))
			if !seen[h] && len(traces) < 60 {
				seen[h] = true
				if t["run"] == nil {
					t["run"] = k
				}
				traces = append(traces, t)
			}
		}
	}
	return M{"id": sc["id"], "area": "par", "ev": []M{}, "traces": traces}
}

func parRound(sc M) []M {
	type run struct {
		s     session
		ops   []interface{}
		out   M
		pro   []M
		hot   []interface{}
		again [][]M
	}
	var runs []*run
	for _, g := range list(sc["groups"]) {
		grp := obj(g)
		s := newSession(st(grp, "area"), grp)
		pro := runOps(s, list(grp["ops"]))
		if x, ok := s.(*addrSession); ok { // what the runs share has not been looked at yet
			for _, sl := range x.slots {
				if sl.again != nil {
					guard(func() { sl.a = sl.again() })
				}
			}
		}
		for _, r := range list(grp["runs"]) {
			own := list(obj(r)["own"])
			var f session
			switch x := s.(type) {
			case *txSession:
				f = x.fork(own)
			case *addrSession:
				f = x.fork(own)
			case *keySession:
				f = x.fork(own)
			case *protoSession:
				f = x.fork(own)
			}
			out := M{"area": st(grp, "area")}
			for k, v := range grp {
				if k != "ops" && k != "runs" && k != "hot" {
					out[k] = v
				}
			}
			if c, ok := s.(closer); ok {
				defer c.close()
			}
			runs = append(runs, &run{f, list(obj(r)["ops"]), out, pro, list(obj(r)["hot"]), nil})
		}
	}
	var wg, mid sync.WaitGroup
	mid.Add(len(runs))
	start := make(chan struct{})
	for _, r := range runs {
		wg.Add(1)
		go func(r *run) {
			defer wg.Done()
			<-start
			r.out["ev"] = append(append(r.pro[:len(r.pro):len(r.pro)], runOps(r.s, r.ops)...), runOps(r.s, r.hot)...)
			mid.Done()
			mid.Wait()
			r.again = hotLoop(r.s, r.hot)
		}(r)
	}
	close(start)
	wg.Wait()
	traces := []M{}
	for _, r := range runs {
		if c, ok := r.s.(closer); ok {
			c.close()
		}
		traces = append(traces, r.out)
	}
	for k, r := range runs { // what a repeated call gave, if it was not always the same
		evs := r.out["ev"].([]M)
		first := len(evs) - len(r.hot)
		for i, different := range r.again {
			for _, fields := range different {
				ev := M{}
				for n, v := range evs[first+i] {
					ev[n] = v
				}
				same := true
				for n, v := range fields {
					a, _ := json.Marshal(v)
					b, _ := json.Marshal(ev[n])
					same = same && string(a) == string(b)
					ev[n] = v
				}
				if same {
					continue
				}
				t := M{}
				for n, v := range r.out {
					t[n] = v
				}
				t["ev"], t["run"] = append(evs[:first+i:first+i], ev), k
				traces = append(traces, t)
			}
		}
	}
	return traces
}

// hotLoop repeats the calls (they change nothing) and returns the different results of each.
func hotLoop(s session, ops []interface{}) [][]M {
	res := make([][]M, len(ops))
	for i, o := range ops {
		op := M{"lean": true}
		for k, v := range obj(o) {
			if k != "all" {
				op[k] = v
			}
		}
		seen := map[string]bool{}
		start := time.Now()
		for n := 0; n < 400 && time.Since(start) < 30*time.Millisecond; n++ {
			ev := M{}
			s.step(op, ev)
			b, _ := json.Marshal(ev)
			if !seen[string(b)] && len(res[i]) < 5 {
				seen[string(b)] = true
				res[i] = append(res[i], ev)
			}
		}
	}
	return res
}
