package main

// goroutines that share what may be shared
func (g *gen) parTx() M {
	s := g.txs()
	s.smallAmts = true
	for i := 0; i < 3; i++ {
		s.key()
	}
	h := s.newBuilder(1, 2)
	ids := []int{s.input(20000000), s.input(30000000)}
	s.addIns(h, ids...)
	s.addOuts(h, s.output(s.address(""), 1500000))
	m := s.meta()
	if g.Intn(2) == 0 {
		s.op("meta", h, "m", m)
	}
	if g.Intn(2) == 0 {
		s.op("change", h, "a", s.address("base"))
	}
	s.build(h)
	pro, hs := s.ops, append([]*txh{}, s.hs...)
	// also inputs and outputs that nothing was done with so far
	coldIns := []int{s.input(4000000), s.input(5000000)}
	coldOuts := []int{s.output(s.address("ptr"), 1100000), s.output(s.address(""), 1200000)}
	w := weights{"new": 1, "sign": 4, "in": 4, "out": 5, "ttl": 2, "fee": 2, "meta": 3, "delmeta": 1, "change": 4, "minfee": 3, "build": 5, "hash": 4,
		"bytes": 4, "hex": 2, "feeq": 2, "aux": 1, "bodybytes": 1}
	runs := []M{}
	for r := 0; r < 4; r++ {
		s.ops, s.hs, s.only = nil, nil, map[int]bool{}
		for i, x := range hs {
			c := *x
			c.keys = map[int]bool{}
			for k := range x.keys {
				c.keys[k] = true
			}
			s.hs = append(s.hs, &c)
			if s.used[i+1] == nil {
				s.used[i+1] = map[int]bool{}
			}
		}
		for n := range s.used { // handles of other runs
			if n > len(hs) {
				delete(s.used, n)
			}
		}
		own := []int{}
		if r < 2 { // the first goes on with the builder, the second reads and changes what was built
			own = []int{r + 1}
			s.only[r+1] = true
		}
		for j := 0; j < 7; j++ {
			n := len(s.hs)
			if r >= 2 && j == 0 {
				s.newBuilder(1, 2) // the keys of the first builder again
				s.addIns(n+1, append(append([]int{}, ids...), coldIns...)...)
				s.addOuts(n+1, coldOuts...)
				s.op([]string{"bytes", "minfee", "hash"}[g.Intn(3)], n+1)
			} else if r < 2 && j == 0 {
				s.addIns(r+1, coldIns...)
				s.addOuts(r+1, coldOuts...)
				s.op([]string{"bytes", "hash"}[g.Intn(2)], r+1)
			} else {
				s.step(w)
			}
			for k := n + 1; k <= len(s.hs); k++ {
				s.only[k] = true
			}
		}
		for k := 1; k <= len(s.hs); k++ {
			if s.only[k] {
				s.op("hash", k)
				s.op("bytes", k)
			}
		}
		hot := []M{}
		n := len(hs) + 1 // a builder
		if r < 2 {
			n = r + 1
		}
		kinds := []string{"hash", "bytes", "minfee", "hex"}
		if r == 1 {
			kinds = []string{"hash", "bytes", "bodybytes", "hash"}
		}
		for _, k := range kinds {
			hot = append(hot, M{"op": k, "h": n, "r": "ok"})
		}
		runs = append(runs, M{"own": own, "ops": s.ops, "hot": hot})
	}
	return M{"area": "tx", "keys": s.keys, "ins": s.ins, "addrs": s.addrs, "outs": s.outs, "metas": s.metas, "ops": pro, "runs": runs}
}

func (g *gen) parAddr() M {
	ops := []M{}
	kinds := []string{"base", "ent", "rew", "ptr", "byron", "base"}
	for i, k := range kinds {
		ops = append(ops, g.on(mk(g.addr(k), i+1)))
	}
	ops = append(ops, decFrom("text", 1, 7), decFrom("bytes", 5, 8))
	runs := []M{}
	for r := 0; r < 3; r++ {
		rops := []M{}
		for j := 0; j < 8; j++ {
			src, dst := 1+g.Intn(8), 9+g.Intn(3)
			switch g.Intn(7) {
			case 0:
				rops = append(rops, M{"op": "toent", "src": []int{1, 6, 7}[g.Intn(3)], "dst": dst})
			case 1:
				rops = append(rops, M{"op": "torew", "src": []int{1, 6, 7}[g.Intn(3)], "dst": dst})
			case 2:
				rops = append(rops, M{"op": "scrib", "src": src, "what": pick(g, "bytes", "cbor")})
			case 3:
				rops = append(rops, g.on(mk(g.anyAddr(), dst)))
			case 4:
				rops = append(rops, decFrom(pick(g, "text", "text", "bytes", "hex"), src, dst, M{"k": "sub", "p": g.Intn(100), "c": 48 + g.Intn(70)}))
			default:
				rops = append(rops, decFrom(pick(g, "text", "text", "bytes", "hex"), src, dst))
			}
		}
		runs = append(runs, M{"own": []int{}, "ops": rops})
	}
	for _, o := range ops {
		o["all"] = 0
	}
	for _, r := range runs {
		hot := []M{}
		for j := 0; j < 3; j++ {
			hot = append(hot, decFrom(pick(g, "text", "text", "bytes"), 1+g.Intn(8), 9))
			hot = append(hot, M{"op": "obs", "src": 1 + g.Intn(8)})
		}
		for _, o := range hot {
			o["all"] = 0
		}
		r["hot"] = hot
		for j, o := range r["ops"].([]M) {
			o["all"] = 0
			if j == 7 {
				o["all"] = 11
			}
		}
	}
	return M{"area": "addr", "ops": ops, "runs": runs}
}

func (g *gen) parKey() M {
	ops := []M{{"op": "raw", "dst": 1, "k": g.xprv()}, {"op": "icarus", "dst": 2, "entropy": g.bytes(20), "pw": g.bytes(g.Intn(5))}, {"op": "derive", "src": 1, "dst": 3, "idx": g.index()}}
	runs := []M{}
	for r := 0; r < 3; r++ {
		rops := []M{}
		for j := 0; j < 6; j++ {
			switch g.Intn(6) {
			case 0:
				rops = append(rops, M{"op": "sign", "src": 1 + g.Intn(3), "msg": g.bytes(g.Intn(70))})
			case 1:
				rops = append(rops, M{"op": "pub", "src": 1 + g.Intn(3)})
			case 2:
				rops = append(rops, M{"op": "hash256", "data": g.bytes(g.Intn(200))})
			case 3:
				rops = append(rops, M{"op": "icarus", "dst": 4, "entropy": g.bytes(16), "pw": Bs{}})
			default:
				rops = append(rops, M{"op": "derive", "src": 1 + g.Intn(3), "dst": 4, "idx": g.index()})
			}
		}
		runs = append(runs, M{"own": []int{}, "ops": rops})
	}
	for _, o := range ops {
		o["all"] = 4
	}
	for _, r := range runs {
		hot := []M{{"op": "hash256", "data": g.bytes(g.Intn(200))}, {"op": "derive", "src": 1 + g.Intn(3), "dst": 4, "idx": g.index()},
			{"op": "hash224", "data": g.bytes(g.Intn(200))}, {"op": "sign", "src": 1 + g.Intn(3), "msg": g.bytes(g.Intn(70))}}
		for _, o := range append(hot, r["ops"].([]M)...) {
			o["all"] = 4
		}
		r["hot"] = hot
	}
	return M{"area": "key", "ops": ops, "runs": runs}
}

// protocol-parameter files, one each
func (g *gen) parProto() M {
	load := func() M {
		t := []byte(g.protoText(g.vals(), g.Intn(6)))
		if g.Intn(4) == 0 {
			t = t[:g.Intn(len(t))]
		}
		return M{"op": "load", "how": "file", "text": Bs(t)}
	}
	runs := []M{}
	for r := 0; r < 3; r++ {
		runs = append(runs, M{"own": []int{}, "ops": []M{load(), load()}, "hot": []M{load()}})
	}
	return M{"area": "proto", "ops": []M{}, "runs": runs}
}

func (g *gen) c26() {
	for i := 0; i < 60*g.scale; i++ {
		groups := []M{}
		if i%3 != 1 {
			groups = append(groups, g.parTx())
		}
		if i%3 == 1 || i%6 == 0 {
			groups = append(groups, g.parAddr())
		}
		if i%2 == 0 {
			groups = append(groups, g.parKey())
		}
		if i%4 == 1 {
			groups = append(groups, g.parProto())
		}
		g.n++
		g.emit(M{"id": g.n, "area": "par", "groups": groups})
	}
	g.area = "node"
	for i := 0; i < 6*g.scale; i++ {
		ops := []M{g.newNode(1, backends(i)), g.newNode(2, backends(i+1))}
		g.add(append(ops, g.parOp(2, 6, "utxos", "submit", "utxos")))
	}
}
