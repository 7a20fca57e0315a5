package main

func hard(n uint32) Bs { return soft(n | 1<<31) }
func soft(n uint32) Bs { return Bs{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

var walletPars = [][2]uint64{{44, 155381}, {44, 155381}, {44, 155381}, {1, 0}, {0, 0}, {0, 200000}, {100, 7}, {45, 155380}}

// wallet makes the frame of a scenario of payments
func (g *gen) wallet(backend string, par [2]uint64) M {
	nw := g.newNode(1, backend)
	accts := []M{}
	for i := 0; i < 2+g.Intn(2); i++ {
		a := M{"kind": pick(g, "ent", "base"), "path": []Bs{soft(uint32(g.Intn(2))), soft(uint32(i))}, "stake": []Bs{soft(2), soft(0)}}
		accts = append(accts, a)
	}
	others := []M{}
	for i := 0; i < 2; i++ {
		k := []string{"base", "ent", "ptr", "byron", "base"}[g.Intn(5)]
		others = append(others, g.addr(k))
	}
	s := g.txs()
	s.meta()
	pars := []M{}
	for _, p := range [][2]uint64{par, walletPars[g.Intn(len(walletPars))]} {
		pars = append(pars, M{"per": N(p[0]), "fix": N(p[1]), "max": N(16384), "maj": N(uint64(g.Intn(9))), "min": N(uint64(g.Intn(3))), "utxo": N(uint64(g.Intn(2)) * 1000000)})
	}
	return M{"area": "wallet", "backend": backend, "id_": nw["id"], "magic": nw["magic"], "pid": nw["pid"], "path": nw["path"], "pars": pars,
		"seed": g.bytes([]int{16, 20, 32}[g.Intn(3)]), "acct": []Bs{hard(1852), hard(1815), hard(uint32(g.Intn(3)))}, "accts": accts, "others": others, "metas": s.metas}
}

func (g *gen) coins(sc M, amts []uint64) {
	init := []M{}
	for i, a := range amts {
		w := 1 + i%len(sc["accts"].([]M))
		if len(amts) > 100 && i%20 > 0 {
			w = 1 // more than a page of them
		}
		init = append(init, M{"h": g.bytes(32), "ix": N([]uint64{0, 1, 23, 24, 255, 256, 65535}[g.Intn(7)]), "amt": N(a), "w": w})
	}
	sc["init"] = init
}

func (g *gen) c27() {
	for i := 0; i < 60*g.scale; i++ {
		sc := g.wallet(backends(i), walletPars[g.Intn(len(walletPars))])
		n := 2 + g.Intn(5)
		if g.Intn(8) == 0 {
			n = 111 + g.Intn(10)
		}
		amts := []uint64{}
		for j := 0; j < n; j++ {
			a := []uint64{1000000, 2000000, 3500000, 1 << 32, 1<<32 - 1, 5000000, 65536, 45000000000000}[g.Intn(8)]
			amts = append(amts, a+uint64(g.Intn(3)))
		}
		g.coins(sc, amts)
		na := len(sc["accts"].([]M))
		ops := []M{}
		slot := []uint64{0, 70000, 1 << 31, 45000000, 65535}[g.Intn(5)]
		for j := 0; j < 2+g.Intn(3); j++ {
			from, sel := []int{}, []int{}
			for a := 1; a <= na; a++ {
				if g.Intn(3) > 0 {
					from = append(from, a)
				}
			}
			if len(from) == 0 {
				from = []int{1 + g.Intn(na)}
			}
			for p := 1; p <= 4; p++ {
				if g.Intn(2) == 0 {
					sel = append(sel, p)
				}
			}
			if len(sel) == 0 {
				sel = []int{1}
			}
			outs := []M{}
			for o := g.Intn(4); o >= 0; o-- {
				amt := []uint64{1, 1000, 500000, 900000, 999999, 1000000, 1830000, 2000000, 1 << 32}[g.Intn(9)]
				outs = append(outs, M{"a": 1 + g.Intn(na+2), "amt": N(amt)})
			}
			meta := 0
			if g.Intn(3) == 0 {
				meta = 1
			}
			late := 0
			if g.Intn(8) == 0 {
				late = 1
			}
			if g.Intn(4) == 0 {
				ops = append(ops, M{"op": "recv", "h": g.bytes(32), "ix": N(uint64(g.Intn(300))), "amt": N(uint64(1500000 + g.Intn(1000000))), "w": 1 + g.Intn(na)})
			}
			slot += uint64(g.Intn(1000))
			ops = append(ops, M{"op": "pay", "from": from, "sel": sel, "outs": outs, "chg": 1 + g.Intn(na), "slot": N(slot), "ttl": N(uint64(1 + g.Intn(20000))), "meta": meta, "par": 1 + j/2%2, "late": late})
		}
		sc["ops"] = ops
		g.n++
		sc["id"] = g.n
		g.emit(sc)
	}
}
