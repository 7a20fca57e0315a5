package main

import (
	"bufio"
	"encoding/json"
	"math/rand"
)

// ---- node sessions

func (g *gen) newNode(n int, backend string) M {
	id, magic := g.Intn(2), uint64(1097911063)
	if id == 1 {
		magic = 764824073
	} else if g.Intn(2) == 0 {
		magic = []uint64{0, 1, 2, 9, 10, 42, 1097911063, 1<<31 - 1, 1 << 31, 1<<32 - 1, uint64(g.Uint32())}[g.Intn(11)]
	}
	pid := pick(g, "testnetAAAA", "mainnetBBBB", "previewCCCC", "x", "0123456789abcdefghijklmnopqrstuvwxyz")
	o := M{"op": "new", "n": n, "backend": backend, "id": id, "magic": N(magic), "pid": Bs(pid), "path": pick(g, "given", "default")}
	if backend == "bf" {
		o["path"] = "given"
	}
	return o
}

func (g *gen) utxoSet(n int) []M {
	set := []M{}
	for i := 0; i < n; i++ {
		ix := ixs[g.Intn(len(ixs))]
		u := M{"h": g.blob(32), "ix": N(ix), "amt": N(g.u64()), "assets": 0, "datum": g.Intn(3), "pos": 0}
		if i > 0 && g.Intn(3) == 0 { // several outputs of one transaction, as many as they are also of one value
			u["h"], u["ix"] = set[i-1]["h"], N((u64(set[i-1]["ix"])+1+uint64(g.Intn(60000)))%65536)
			if g.Intn(2) == 0 {
				u["amt"] = set[i-1]["amt"]
			}
		}
		if g.Intn(3) == 0 {
			u["assets"] = 1 + g.Intn(3)
			u["pos"] = g.Intn(4)
			if g.Intn(2) == 0 {
				u["odd"] = g.Intn(4)
			}
		}
		set = append(set, u)
	}
	return set
}

func (g *gen) utxosOp(n, size int) M {
	return M{"op": "utxos", "n": n, "a": g.anyAddr(), "set": g.utxoSet(size)}
}

func (g *gen) txFor() M {
	s := g.txs()
	s.smallAmts = true
	h := s.prepared(func(out uint64) uint64 { return out + 3000000 })
	s.op("change", h, "a", s.address(""))
	s.build(h)
	return M{"keys": s.keys, "ins": s.ins, "addrs": s.addrs, "outs": s.outs, "metas": s.metas, "ops": s.ops}
}

// bigTx has n outputs
func (g *gen) bigTx(n int) M {
	s := g.txs()
	h := s.prepared(func(out uint64) uint64 { return out + 3000000 })
	s.output(s.address(""), 1000)
	ids := []int{}
	for i := 0; i < n; i++ {
		ids = append(ids, 1+g.Intn(len(s.outs)))
	}
	s.op("out", h, "ids", ids)
	s.build(h)
	return M{"keys": s.keys, "ins": s.ins, "addrs": s.addrs, "outs": s.outs, "metas": s.metas, "ops": s.ops}
}

func (g *gen) submitOp(n int) M {
	return M{"op": "submit", "n": n, "tx": g.txFor(), "txid": Bs(hexOf(g.bytes(32)))}
}

func hexOf(b []byte) string {
	const d = "0123456789abcdef"
	o := ""
	for _, x := range b {
		o += string(d[x>>4]) + string(d[x&15])
	}
	return o
}

func (g *gen) paramsOp(n int) M {
	u := func() Bs {
		if g.Intn(8) == 0 {
			return N(0)
		}
		return N(g.u64() >> 1)
	}
	return M{"op": "params", "n": n, "per": u(), "fix": u(), "max": u(), "utxo": u(), "maj": N(uint64(g.Intn(256))), "min": N(uint64(g.Intn(256)))}
}

func (g *gen) tipOp(n int) M {
	u := func() Bs {
		if g.Intn(6) == 0 {
			return N(0) // as at the start of a chain or an epoch
		}
		return N(g.u64() >> 1)
	}
	return M{"op": "tip", "n": n, "slot": u(), "epoch": u(), "block": u()}
}

func (g *gen) anyNodeOp(n int) M {
	switch g.Intn(4) {
	case 0:
		return g.utxosOp(n, []int{0, 1, 3, 100, 101}[g.Intn(5)])
	case 1:
		return g.submitOp(n)
	case 2:
		return g.paramsOp(n)
	}
	return g.tipOp(n)
}

func backends(i int) string { return []string{"bf", "cli"}[i%2] }

// quick failures of either backend: they are not retried
func (g *gen) quickFault(backend string) M {
	if backend == "bf" {
		return M{"kind": pick(g, "400", "403", "418", "cut", "garbage", "half", "wrongtype")}
	}
	switch g.Intn(5) {
	case 0:
		return M{"kind": "exit", "code": 1 + g.Intn(3)}
	case 1:
		return M{"kind": "exitout", "code": 1 + g.Intn(3)}
	case 2:
		return M{"kind": "kill"}
	case 3:
		return M{"kind": "cut", "back": g.Intn(4)}
	}
	return M{"kind": "garbage"}
}

func (g *gen) c22() {
	g.area = "node"
	for i := 0; i < 36*g.scale; i++ {
		ops := []M{}
		k := 1 + g.Intn(4)
		for n := 1; n <= k; n++ {
			ops = append(ops, g.newNode(n, backends(g.Intn(2))))
		}
		for j := 0; j < 8; j++ {
			n := 1 + g.Intn(k)
			switch g.Intn(12) {
			case 0:
				ops = append(ops, M{"op": "netmut", "n": n})
			case 1:
				ops = append(ops, g.newNode(n, backends(g.Intn(2)))) // a new one in its place
			default:
				o := g.anyNodeOp(n)
				ops = append(ops, o)
			}
		}
		g.add(ops)
	}
	// every magic, with every operation
	for _, magic := range []uint64{0, 1, 2, 9, 10, 42, 764824073, 1097911063, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
		for id := 0; id < 2; id++ {
			ops := []M{}
			for b := 1; b <= 2; b++ {
				nw := g.newNode(b, backends(b))
				nw["id"], nw["magic"] = id, N(magic)
				ops = append(ops, nw, g.submitOp(b), g.paramsOp(b), g.tipOp(b), g.utxosOp(b, 1))
			}
			g.add(ops)
		}
	}
	// several calls at a time
	for i := 0; i < 6*g.scale; i++ {
		ops := []M{}
		for n := 1; n <= 3; n++ {
			ops = append(ops, g.newNode(n, backends(i+n)))
		}
		g.add(append(ops, g.parOp(3, 5, "utxos", "submit")))
	}
	// every operation on every backend and network, with every kind of address
	for id := 0; id < 2; id++ {
		for b := 0; b < 2; b++ {
			nw := g.newNode(1, backends(b))
			nw["id"] = id
			ops := []M{nw, g.submitOp(1), g.paramsOp(1), g.tipOp(1)}
			for _, k := range []string{"base", "ent", "rew", "ptr", "byron"} {
				o := g.utxosOp(1, 1)
				o["a"] = g.addr(k)
				ops = append(ops, o)
			}
			g.add(ops)
		}
	}
}

// parOp makes k calls at the same time, on the nodes 1..nodes
func (g *gen) parOp(nodes, k int, kinds ...string) M {
	subs := []M{}
	for i := 0; i < k; i++ {
		n := 1 + g.Intn(nodes)
		if kinds[i%len(kinds)] == "submit" {
			subs = append(subs, g.submitOp(n))
		} else {
			subs = append(subs, g.utxosOp(n, []int{0, 1, 2, 5, 30, 101}[g.Intn(6)]))
		}
	}
	return M{"op": "par", "n": 1, "subs": subs}
}

var malH = []string{"", "abcd", "zz", "ab", "00112233445566778899aabbccddeeff00112233445566778899aabbccddee", "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00",
	"0g112233445566778899aabbccddeeff00112233445566778899aabbccddeeff", "00112233445566778899aabbccddeeff00112233445566778899aabbccddeef"}
var malIx = []string{"65536", "-1", "70000", "1.5", "4294967296", "131072"}
var malAmt = []string{"18446744073709551616", "-5", "1.5", "abc", "99999999999999999999", "0x10", "1,000", "+-1", "12a"}

func (g *gen) c23() {
	g.area = "node"
	sizes := []int{0, 1, 2, 3, 5, 10, 50, 98, 99, 100, 101, 102, 199, 200, 201, 299, 300, 301, 500, 1000, 1001, 1105, 2300}
	for i, n := range sizes {
		for b := 0; b < 2; b++ {
			g.add([]M{g.newNode(1, backends(b)), g.utxosOp(1, n), g.utxosOp(1, sizes[(i+3)%8])})
		}
	}
	for b := 0; b < 2; b++ { // outputs with very many assets
		o := g.utxosOp(1, 3)
		o["set"].([]M)[1]["assets"], o["set"].([]M)[1]["pos"] = 1000, 1000*b
		g.add([]M{g.newNode(1, backends(b)), o})
	}
	for i := 0; i < 40*g.scale; i++ {
		ops := []M{g.newNode(1, backends(i)), g.newNode(2, backends(i+1))}
		for j := 0; j < 4; j++ {
			ops = append(ops, g.utxosOp(1+g.Intn(2), g.Intn(6)))
		}
		g.add(ops)
	}
	for i, n := range []int{1, 2, 3, 99, 100, 101, 150, 200, 201, 250} { // outputs come and go at the same address
		for b := 0; b < 2; b++ {
			ops := []M{g.newNode(1, backends(b)), g.newNode(2, backends(b+i))}
			o := g.utxosOp(1, n)
			ops = append(ops, o)
			for j := 0; j < 5; j++ {
				set := append([]M{}, o["set"].([]M)...)
				switch (i + j) % 4 {
				case 0:
					set = append(set, g.utxoSet(1)...)
				case 1:
					if len(set) > 0 {
						k := g.Intn(len(set))
						set = append(set[:k], set[k+1:]...)
					}
				case 2:
					set = append(g.utxoSet(2), set...)
				case 3:
					if len(set) > 1 {
						set = append(set[1:], g.utxoSet(1)...)
					}
				}
				o = M{"op": "utxos", "n": 1 + (j+i)%5/4, "a": o["a"], "set": set}
				ops = append(ops, o)
				if g.Intn(3) == 0 {
					ops = append(ops, g.utxosOp(1, 1))
				}
			}
			g.add(ops)
		}
	}
	for i := 0; i < 60*g.scale; i++ { // malformed entries, anywhere in the list
		n := 1 + g.Intn(4)
		if i%10 == 0 {
			n = 120
		}
		o := g.utxosOp(1, n)
		at := 1 + g.Intn(n)
		m := M{"at": at, "field": "h", "text": malH[g.Intn(len(malH))]}
		switch g.Intn(4) {
		case 0:
			m["field"], m["text"] = "ix", malIx[g.Intn(len(malIx))]
		case 1, 2:
			m["field"], m["text"] = "amt", malAmt[g.Intn(len(malAmt))]
		case 3:
			if i%2 == 0 && g.Intn(2) == 0 {
				m["field"] = "nolove"
			}
		}
		o["mal"] = m
		g.add([]M{g.newNode(1, backends(i)), o, g.utxosOp(1, 2)})
	}
	for i := 0; i < 8*g.scale; i++ { // several queries at a time
		g.add([]M{g.newNode(1, backends(i)), g.newNode(2, backends(i/2)), g.parOp(2, 4, "utxos")})
	}
	// every malformed value, first and last in the list
	for b := 0; b < 2; b++ {
		one := func(field, text string) {
			ops := []M{g.newNode(1, backends(b))}
			for _, n := range []int{1, 3} {
				o := g.utxosOp(1, n)
				o["mal"] = M{"at": n, "field": field, "text": text}
				ops = append(ops, o)
			}
			g.add(append(ops, g.utxosOp(1, 2)))
		}
		for _, t := range malH {
			one("h", t)
		}
		for _, t := range malIx {
			one("ix", t)
		}
		for _, t := range malAmt {
			one("amt", t)
		}
		if b == 0 {
			one("nolove", "")
		}
	}
	for i := 0; i < 60*g.scale; i++ { // failures, on some page
		b := backends(i)
		n := []int{0, 1, 3, 100, 101, 150, 250}[g.Intn(7)]
		o := g.utxosOp(1, n)
		f := g.quickFault(b)
		if b == "bf" {
			f["page"] = 1 + g.Intn(n/100+1)
		} else if st(f, "kind") == "garbage" {
			f["text"] = pick(g, "", "error\n", "<html>\ngateway\n", "<html>gateway</html>\nwhat is\nthis\n", "\n\n\n", "Command failed\n--------\n\n")
		}
		o["fault"] = f
		g.add([]M{g.newNode(1, b), o, g.utxosOp(1, 3)})
	}
	for _, k := range []string{"400", "402", "403", "404", "410", "418"} { // on every page of three
		for page := 1; page <= 3; page++ {
			o := g.utxosOp(1, 200+50*(page-1))
			o["fault"] = M{"kind": k, "page": page}
			g.add([]M{g.newNode(1, "bf"), o, g.utxosOp(1, 3)})
		}
	}
	for _, k := range []string{"500", "502", "503", "drop", "429"} { // these are retried
		for _, times := range []int{1, 99} {
			if times == 99 && g.scale == 1 && k != "500" && k != "drop" {
				continue
			}
			o := g.utxosOp(1, 150)
			o["fault"] = M{"kind": k, "page": 1 + g.Intn(2), "times": times}
			g.add([]M{g.newNode(1, "bf"), o})
		}
	}
	miss := g.newNode(1, "cli")
	miss["path"] = "missing"
	g.add([]M{miss, g.utxosOp(1, 3)})
}

func (g *gen) c24() {
	g.area = "node"
	for i := 0; i < 40*g.scale; i++ {
		ops := []M{g.newNode(1, backends(i)), g.newNode(2, backends(i+1))}
		for j := 0; j < 3; j++ {
			o := g.submitOp(1 + g.Intn(2))
			if j == 1 && g.Intn(2) == 0 { // the same transaction once more
				o = M{"op": "submit", "n": 1 + g.Intn(2), "tx": ops[2]["tx"], "txid": ops[2]["txid"]}
			}
			ops = append(ops, o)
		}
		g.add(ops)
	}
	for i, n := range []int{300, 900, 2000, 300, 900, 2000} { // large ones
		g.add([]M{g.newNode(1, backends(i/3)), {"op": "submit", "n": 1, "tx": g.bigTx(n), "txid": Bs(hexOf(g.bytes(32)))}})
	}
	for i := 0; i < 10*g.scale; i++ { // several submissions at a time
		g.add([]M{g.newNode(1, backends(i)), g.newNode(2, backends(i/2)), g.parOp(2, 4, "submit"), g.submitOp(1)})
	}
	for _, k := range []string{"400", "402", "403", "404", "418", "425", "429", "500", "502", "503", "504", "drop", "cut", "409", "301", "302", "303", "307", "308", "300", "304"} {
		o := g.submitOp(1)
		o["fault"] = M{"kind": k}
		g.add([]M{g.newNode(1, "bf"), o, g.submitOp(1)})
	}
	for _, k := range []string{"exit", "exitout", "kill"} {
		for _, code := range []int{1, 2, 3, 126, 127, 255} {
			o := g.submitOp(1)
			o["fault"] = M{"kind": k, "code": code}
			g.add([]M{g.newNode(1, "cli"), o, g.submitOp(1)})
		}
	}
	for i := 0; i < 20*g.scale; i++ {
		b := backends(i)
		o := g.submitOp(1)
		if b == "bf" {
			o["fault"] = M{"kind": pick(g, "400", "402", "403", "404", "418", "425", "429", "500", "502", "503", "504", "drop", "cut")}
		} else {
			switch g.Intn(3) {
			case 0:
				o["fault"] = M{"kind": "exit", "code": []int{1, 2, 127, 255}[g.Intn(4)]}
			case 1:
				o["fault"] = M{"kind": "exitout", "code": []int{1, 2, 127, 255}[g.Intn(4)]}
			case 2:
				o["fault"] = M{"kind": "kill"}
			}
		}
		g.add([]M{g.newNode(1, b), o, g.submitOp(1)})
	}
	miss := g.newNode(1, "cli")
	miss["path"] = "missing"
	g.add([]M{miss, g.submitOp(1)})
}

func (g *gen) c25() {
	g.area = "node"
	for i := 0; i < 40*g.scale; i++ {
		ops := []M{g.newNode(1, backends(i)), g.newNode(2, backends(i+1))}
		for j := 0; j < 4; j++ {
			if g.Intn(2) == 0 {
				ops = append(ops, g.paramsOp(1+g.Intn(2)))
			} else {
				ops = append(ops, g.tipOp(1+g.Intn(2)))
			}
		}
		g.add(ops)
	}
	bad := []string{"-1", "1.5", "true", "{}", "[]", "18446744073709551616", "x", "\"x\"", "99999999999999999999", "-9223372036854775808", "\"5\"", "0x10", "1_000"}
	for b := 0; b < 2; b++ { // every malformed value of every field
		ops := []M{}
		one := func(o M, field, text string) {
			o["mal"] = M{"field": field, "text": text}
			ops = append(ops, o)
		}
		for _, t := range bad {
			for _, f := range []string{"per", "fix", "max", "maj", "min", "utxo"} {
				if f != "utxo" || b == 1 {
					one(g.paramsOp(1), f, t)
				}
			}
			for _, f := range []string{"slot", "epoch", "block"} {
				one(g.tipOp(1), f, t)
			}
		}
		for _, t := range []string{"256", "257", "511", "512", "65536", "4294967296"} {
			one(g.paramsOp(1), "maj", t)
			one(g.paramsOp(1), "min", t)
		}
		if b == 0 {
			for _, t := range []string{"-1", "1.5", "", "x", "18446744073709551616", "!5", "!true", "!{}", "1e6", "0x10", "0b1", "0o7", "1_000"} {
				one(g.paramsOp(1), "utxo", t)
			}
		}
		for k := 0; k < len(ops); k += 6 {
			e := k + 6
			if e > len(ops) {
				e = len(ops)
			}
			g.add(append(append([]M{g.newNode(1, backends(b))}, ops[k:e]...), g.tipOp(1), g.paramsOp(1)))
		}
	}
	for i := 0; i < 60*g.scale; i++ {
		b := backends(i)
		o := g.paramsOp(1)
		if g.Intn(2) == 0 {
			o = g.tipOp(1)
		}
		o["fault"] = g.quickFault(b)
		if b == "bf" && g.Intn(6) == 0 {
			o["fault"] = M{"kind": "404"}
		}
		g.add([]M{g.newNode(1, b), o, g.tipOp(1), g.paramsOp(1)})
	}
	for _, k := range []string{"500", "503", "drop", "429"} {
		for j, times := range []int{1, 99} {
			if times == 99 && g.scale == 1 && k != "500" {
				continue
			}
			o := g.paramsOp(1)
			if (j+len(k))%2 == 0 {
				o = g.tipOp(1)
			}
			o["fault"] = M{"kind": k, "times": times}
			g.add([]M{g.newNode(1, "bf"), o})
		}
	}
	for _, t := range []string{"}", "x", "{}", "\n{\"slot\":7,\"txFeeFixed\":7}\n", ",", "\x00", "\nwarning: node is not synced\n"} {
		for _, o := range []M{g.paramsOp(1), g.tipOp(1)} {
			o["fault"] = M{"kind": "tail", "text": t}
			g.add([]M{g.newNode(1, "cli"), o, g.tipOp(1), g.paramsOp(1)})
		}
	}
	for _, o := range []M{g.paramsOp(1), g.tipOp(1)} {
		miss := g.newNode(1, "cli")
		miss["path"] = "missing"
		g.add([]M{miss, o})
	}
}

// ---- scenarios of spec/NodeClient.tla: an operation, the size of the set in pages, and
// the kind of answer to every request; here they become answers of that kind
func (g *gen) answer(backend, k string) string {
	if backend == "cli" {
		return map[string]string{"good": "none", "refuse": pick(g, "exit", "exitout"), "cut": "cut", "garble": "garbage", "busy": "kill"}[k]
	}
	switch k {
	case "refuse":
		return pick(g, "400", "402", "403", "418")
	case "garble":
		return pick(g, "garbage", "half", "wrongtype")
	case "cut":
		return "cut"
	case "moved":
		return pick(g, "301", "302", "303", "307", "308")
	case "busy":
		return pick(g, "429", "500", "502", "503", "drop")
	}
	return "none"
}

func (g *gen) concrete(abs M, backend string) M {
	var o M
	switch st(abs, "op") {
	case "utxos":
		n := in(abs, "full") * 100
		if in(abs, "rest") > 0 {
			n += []int{1, 2, 50, 98, 99}[g.Intn(5)]
		}
		o = g.utxosOp(1, n)
	case "submit":
		o = g.submitOp(1)
	case "params":
		o = g.paramsOp(1)
	case "tip":
		o = g.tipOp(1)
	}
	sched := []string{}
	good := true
	for _, k := range list(abs["sched"]) {
		kind := k.(string)
		if st(abs, "op") == "submit" && (kind == "garble" || kind == "cut" && backend == "cli") {
			kind = "refuse" // whatever text comes with success, it is success
		}
		a := g.answer(backend, kind)
		good = good && a == "none"
		sched = append(sched, a)
	}
	if !good {
		o["fault"] = M{"kind": "sched", "sched": sched, "code": 1 + g.Intn(4), "back": 0}
	}
	return o
}

func expand(prop string, seed int64, sc *bufio.Scanner, emit func(M)) {
	g := &gen{Rand: rand.New(rand.NewSource(seed)), scale: 1, emit: emit, area: "node"}
	if prop < "C08" {
		g.area = "addr"
	}
	for sc.Scan() {
		var abs M
		must(json.Unmarshal(sc.Bytes(), &abs))
		if abs["hist"] != nil {
			g.addrHistory(list(abs["hist"]))
			continue
		}
		if st(abs, "area") != "node" {
			emit(abs)
			continue
		}
		b := st(abs, "backend")
		ops := []M{g.newNode(1, b)}
		var last string
		for _, o := range list(abs["ops"]) {
			last = st(obj(o), "op")
			ops = append(ops, g.concrete(obj(o), b))
		}
		g.add(append(ops, g.concrete(M{"op": last, "full": 0, "rest": 1}, b))) // and the next one is served
	}
}
