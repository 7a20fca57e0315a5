package main

import (
	"encoding/hex"
	"math/bits"
	"strings"
)

// txg assembles one transaction scenario: pools of keys, inputs, addresses, outputs and
// metadata, and a history of operations on numbered builders and transactions.
type txg struct {
	g                       *gen
	keys                    []Bs
	ins, addrs, outs, metas []M
	ops                     []M
	hs                      []*txh
	smallAmts               bool // totals stay well within 64 bits
	par                     M
	kinds                   []string
	metaCells               []int // cells that are maps with integer keys, the caller can change them
	keyOf                   map[string]int
	used                    map[int]map[int]bool
	only                    map[int]bool // if set, the handles that may be used
}

type txh struct {
	builder bool
	keys    map[int]bool
	in, out uint64
	dead    bool
	frozen  bool
}

func (g *gen) txs() *txg {
	s := &txg{g: g, keys: []Bs{}, ins: []M{}, addrs: []M{}, outs: []M{}, metas: []M{}, used: map[int]map[int]bool{}}
	s.par = M{"per": N(44), "fix": N(155381)}
	if g.Intn(3) == 0 {
		per := []uint64{0, 1, 2, 43, 44, 45, 100, 255, 256, 1000, 65536, 1 << 20}[g.Intn(12)]
		fix := []uint64{0, 1, 155381, 200000, 1 << 24, 1 << 32, 1 << 40}[g.Intn(7)]
		s.par = M{"per": N(per), "fix": N(fix)}
	}
	return s
}

func (s *txg) done() {
	s.g.area = "tx"
	s.g.add(s.ops, M{"keys": s.keys, "ins": s.ins, "addrs": s.addrs, "outs": s.outs, "metas": s.metas})
}
func (s *txg) key() int {
	s.keys = append(s.keys, s.g.xprv())
	return len(s.keys)
}
func (s *txg) txid() Bs {
	h := s.g.blob(32)
	t := hex.EncodeToString(h)
	if s.g.Intn(8) == 0 {
		return Bs(upper(t))
	}
	return Bs(t)
}
func upper(t string) string {
	b := []byte(t)
	for i, c := range b {
		if c >= 'a' && c <= 'f' {
			b[i] = c - 32
		}
	}
	return string(b)
}

var ixs = []uint64{0, 1, 2, 22, 23, 24, 25, 127, 128, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535}

func (s *txg) ix() Bs {
	if s.g.Intn(3) == 0 {
		return N(uint64(uint16(s.g.Uint32())))
	}
	return N(ixs[s.g.Intn(len(ixs))])
}
func (s *txg) input(amt uint64) int {
	s.ins = append(s.ins, M{"h": s.txid(), "ix": s.ix(), "amt": N(amt)})
	return len(s.ins)
}
func (s *txg) badInput() int {
	var h []byte
	t := []byte(hex.EncodeToString(s.g.bytes(32)))
	switch s.g.Intn(7) {
	case 0:
		h = []byte{}
	case 1:
		h = t[:62]
	case 2:
		h = append(t, '0', '0')
	case 3:
		h = t[:63]
	case 4:
		t[s.g.Intn(64)] = 'g'
		h = t
	case 5:
		h = append(t, 'x')
	case 6:
		h = append([]byte("0x"), t...)
	}
	s.ins = append(s.ins, M{"h": Bs(h), "ix": s.ix(), "amt": N(5000000)})
	return len(s.ins)
}
func (s *txg) address(kind string) int {
	if kind == "" {
		s.addrs = append(s.addrs, s.g.anyAddr())
	} else {
		s.addrs = append(s.addrs, s.g.addr(kind))
	}
	return len(s.addrs)
}
func (s *txg) output(a int, amt uint64) int {
	s.outs = append(s.outs, M{"a": a, "amt": N(amt)})
	return len(s.outs)
}
func (s *txg) op(name string, h int, kv ...interface{}) M {
	o := M{"op": name}
	if h > 0 {
		o["h"] = h
	}
	for i := 0; i+1 < len(kv); i += 2 {
		o[kv[i].(string)] = kv[i+1]
	}
	s.ops = append(s.ops, o)
	return o
}
func (s *txg) newBuilder(keys ...int) int {
	if keys == nil {
		keys = []int{}
	}
	s.op("new", 0, "ids", keys, "per", s.par["per"], "fix", s.par["fix"])
	h := &txh{builder: true, keys: map[int]bool{}}
	for _, k := range keys {
		h.keys[k] = true
	}
	s.hs = append(s.hs, h)
	return len(s.hs)
}
func (s *txg) newTx() int {
	s.op("newtx", 0)
	s.hs = append(s.hs, &txh{})
	return len(s.hs)
}
func (s *txg) build(h int) int {
	s.op("build", h)
	c := *s.hs[h-1]
	c.builder = false
	s.hs = append(s.hs, &c)
	s.used[len(s.hs)] = map[int]bool{}
	for k := range s.used[h] {
		s.used[len(s.hs)][k] = true
	}
	return len(s.hs)
}
func (s *txg) addIns(h int, ids ...int) {
	if s.used[h] == nil {
		s.used[h] = map[int]bool{}
	}
	fresh := []int{}
	for _, i := range ids {
		if !s.used[h][i] {
			fresh = append(fresh, i)
			s.used[h][i] = true
			s.hs[h-1].in += u64(s.ins[i-1]["amt"])
		}
	}
	o := s.op("in", h, "ids", fresh)
	if s.hs[h-1].builder && s.g.Intn(4) == 0 {
		o["via"] = "tx"
	}
}
func (s *txg) addOuts(h int, ids ...int) {
	for _, i := range ids {
		s.hs[h-1].out += u64(s.outs[i-1]["amt"])
	}
	o := s.op("out", h, "ids", ids)
	if s.hs[h-1].builder && s.g.Intn(4) == 0 {
		o["via"] = "tx"
	}
}
func (s *txg) sign(h int) {
	k := 1 + s.g.Intn(len(s.keys)+1)
	if k > len(s.keys) || s.hs[h-1].keys[k] {
		k = s.key()
	}
	s.hs[h-1].keys[k] = true
	s.op("sign", h, "key", k)
}

// ---- metadata values

func (s *txg) metaScalar(d int) M {
	g := s.g
	switch g.Intn(4) {
	case 0:
		return M{"t": "u", "n": N(g.u64()), "g": pick(g, "uint", "int", "u64")}
	case 1:
		return M{"t": "n", "n": N(g.u64() >> 1)}
	case 2:
		return M{"t": "b", "b": g.blob([]int{0, 1, 23, 24, 32, 63, 64, 65, 255, 256, 1000}[g.Intn(11)])}
	}
	return M{"t": "s", "b": s.text()}
}
func (s *txg) text() Bs {
	words := []string{"", "a", "b", "aa", "ab", "msg", "name", "description", "Ünïcødé", "日本語", "z", "zz", "10", "9"}
	t := words[s.g.Intn(len(words))]
	if s.g.Intn(12) == 0 { // longer than the 64 bytes a ledger takes, which is the caller's business
		return Bs(strings.Repeat("x", []int{60, 63, 64, 65, 66, 100, 128, 255, 256, 700}[s.g.Intn(10)]) + t)
	}
	for s.g.Intn(3) == 0 {
		t += words[s.g.Intn(len(words))]
	}
	return Bs(t)
}
func (s *txg) metaKeys(n int, mk func() M) []M {
	seen, out := map[string]bool{}, []M{}
	for i := 0; i < 4*n && len(out) < n; i++ {
		k := mk()
		id := st(k, "t") + string(by(k, "n")) + "/" + string(by(k, "b"))
		if !seen[id] {
			seen[id] = true
			out = append(out, k)
		}
	}
	return out
}
func (s *txg) metaVal(d int) M {
	g := s.g
	if d == 0 || g.Intn(3) == 0 {
		return s.metaScalar(d)
	}
	if g.Intn(3) == 0 {
		a := []M{}
		for i := g.Intn(4); i > 0; i-- {
			a = append(a, s.metaVal(d-1))
		}
		return M{"t": "a", "a": a}
	}
	return s.metaMap(d, pick(g, "uint", "uintp", "str", "any"), g.Intn(7))
}
func (s *txg) metaMap(d int, kind string, n int) M {
	g := s.g
	keys := s.metaKeys(n, func() M {
		switch {
		case kind == "str" || kind == "any" && g.Intn(2) == 0:
			return M{"t": "s", "b": s.text()}
		case kind == "any" && g.Intn(2) == 0:
			return M{"t": "n", "n": N(g.u64() >> 1)}
		}
		return M{"t": "u", "n": N(g.u64()), "g": "u64"}
	})
	kv := []M{}
	for _, k := range keys {
		kv = append(kv, M{"k": k, "v": s.metaVal(d - 1)})
	}
	return M{"t": "m", "g": kind, "kv": kv}
}
func (s *txg) meta() int {
	g := s.g
	kind := pick(g, "uint", "uint", "uintp", "str", "any")
	s.metas = append(s.metas, s.metaMap(1+g.Intn(3), kind, []int{0, 1, 1, 2, 3, 5, 9, 24}[g.Intn(8)]))
	if kind == "uint" {
		s.metaCells = append(s.metaCells, len(s.metas))
	}
	return len(s.metas)
}

// ---- histories

func (s *txg) amount() uint64 {
	if s.smallAmts {
		if s.g.Intn(4) == 0 {
			return s.g.u64() >> 8
		}
		return uint64(s.g.Intn(20000000))
	}
	return s.g.u64()
}

// fits: the totals of handle h still fit 64 bits after adding more
func fits(total, more uint64) bool { _, c := bits.Add64(total, more, 0); return c == 0 }

type weights map[string]int

func (w weights) pick(g *gen, order []string) string {
	t := 0
	for _, k := range order {
		t += w[k]
	}
	n := g.Intn(t)
	for _, k := range order {
		if n -= w[k]; n < 0 {
			return k
		}
	}
	return order[0]
}

var opOrder = []string{"new", "newtx", "sign", "in", "out", "ttl", "fee", "meta", "delmeta", "metamut", "aux", "change", "minfee", "build",
	"hash", "bytes", "hex", "feeq", "bodybytes", "replin", "replout"}

var ttls = []uint64{0, 1, 23, 24, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func (s *txg) step(w weights) {
	g := s.g
	name := w.pick(g, opOrder)
	if len(s.hs) == 0 {
		name = "new"
	}
	h := 0
	if len(s.hs) > 0 {
		h = 1 + g.Intn(len(s.hs))
		if g.Intn(3) == 0 {
			h = len(s.hs)
		}
		for try := 0; s.only != nil && !s.only[h]; try++ {
			if h = 1 + g.Intn(len(s.hs)); try > 40 {
				name = "new"
				break
			}
		}
		needsB := name == "sign" || name == "change" || name == "minfee" || name == "build"
		for try := 0; needsB && name != "new" && (!s.hs[h-1].builder || s.only != nil && !s.only[h]); try++ {
			if h = 1 + g.Intn(len(s.hs)); try > 20 {
				return
			}
		}
	}
	switch name {
	case "new":
		ks := []int{}
		for i := g.Intn(4); i > 0; i-- {
			k := s.key()
			if len(s.keys) > 3 {
				k = 1 + g.Intn(len(s.keys))
			}
			dup := false
			for _, x := range ks {
				dup = dup || x == k
			}
			if !dup {
				ks = append(ks, k)
			}
		}
		s.newBuilder(ks...)
	case "newtx":
		s.newTx()
	case "sign":
		s.sign(h)
	case "in":
		ids := []int{}
		for i := 1 + g.Intn(3); i > 0; i-- {
			id := 0
			if len(s.ins) > 0 && g.Intn(2) == 0 {
				id = 1 + g.Intn(len(s.ins))
			} else {
				id = s.input(s.amount())
			}
			sum := s.hs[h-1].in
			dup := false
			for _, x := range ids {
				dup = dup || x == id
				sum += u64(s.ins[x-1]["amt"])
			}
			if !dup && (!s.smallAmts || fits(sum, u64(s.ins[id-1]["amt"]))) {
				ids = append(ids, id)
			}
		}
		s.addIns(h, ids...)
	case "out":
		ids := []int{}
		for i := 1 + g.Intn(2); i > 0; i-- {
			id := 0
			if len(s.outs) > 0 && g.Intn(3) == 0 {
				id = 1 + g.Intn(len(s.outs))
			} else {
				a := 0
				if len(s.addrs) > 0 && g.Intn(2) == 0 {
					a = 1 + g.Intn(len(s.addrs))
				} else {
					a = s.address("")
				}
				id = s.output(a, s.amount())
			}
			sum := s.hs[h-1].out
			for _, x := range ids {
				sum += u64(s.outs[x-1]["amt"])
			}
			if !s.smallAmts || fits(sum, u64(s.outs[id-1]["amt"])) {
				ids = append(ids, id)
			}
		}
		s.addOuts(h, ids...)
	case "replin", "replout": // what was read before must not be answered again
		read := pick(g, "", "hash", "bytes", "hash")
		if w[read] == 0 {
			read = ""
		}
		if read != "" {
			s.op(read, h)
		}
		if name == "replin" {
			id := s.input(s.amount())
			if s.used[h] == nil {
				s.used[h] = map[int]bool{}
			}
			s.used[h][id] = true
			s.op(name, h, "j", 1+g.Intn(2), "id", id)
		} else {
			s.op(name, h, "j", 1+g.Intn(2), "id", s.output(s.address(""), s.amount()))
		}
		if read != "" {
			s.op(read, h)
		}
	case "ttl":
		n := ttls[g.Intn(len(ttls))]
		if g.Intn(2) == 0 {
			n = uint64(g.Uint32())
		} else if g.Intn(3) == 0 {
			n = 0 // no longer any
		}
		s.op("ttl", h, "n", N(n))
	case "fee":
		s.op("fee", h, "n", N(g.u64()))
	case "meta":
		id := 0
		if len(s.metas) > 0 && g.Intn(2) == 0 {
			id = 1 + g.Intn(len(s.metas))
		} else {
			id = s.meta()
		}
		s.op("meta", h, "m", id)
	case "delmeta":
		s.op("delmeta", h, "as", pick(g, "", "", "map", "ptr", "slice"))
	case "metamut":
		if len(s.metaCells) > 0 {
			s.op("metamut", 0, "m", s.metaCells[g.Intn(len(s.metaCells))], "k", M{"t": "u", "n": N(uint64(g.Intn(4)))}, "v", s.metaVal(1))
		}
	case "change":
		a := 0
		if len(s.addrs) > 0 && g.Intn(2) == 0 {
			a = 1 + g.Intn(len(s.addrs))
		} else {
			a = s.address("")
		}
		x := s.hs[h-1]
		s.op("change", h, "a", a)
		if x.in > x.out {
			x.out = x.in // at most
		}
	case "build":
		s.build(h)
	case "feeq":
		s.op("feeq", h, "per", N(g.u64()>>24), "fix", N(g.u64()>>8))
	default:
		s.op(name, h)
	}
}

// reading everything that can be read of every handle, in some order
func (s *txg) readAll(ops ...string) {
	for h := range s.hs {
		for _, i := range s.g.Perm(len(ops)) {
			if ops[i] == "feeq" {
				s.op("feeq", h+1, "per", N(uint64(s.g.Intn(100))), "fix", N(uint64(s.g.Intn(200000))))
			} else {
				s.op(ops[i], h+1)
			}
		}
	}
}

func (g *gen) histories(n, steps int, w weights, small bool, reads ...string) {
	for i := 0; i < n; i++ {
		s := g.txs()
		s.smallAmts = small
		for j := 0; j < steps; j++ {
			s.step(w)
		}
		s.readAll(reads...)
		s.done()
	}
}

// counts of inputs, outputs, keys and metadata entries around the places where the CBOR heads grow
var counts = []int{0, 1, 2, 22, 23, 24, 25, 255, 256, 257}

func (g *gen) counted(nin, nout int, kinds ...string) *txg {
	s := g.txs()
	h := s.newTx()
	ids := []int{}
	for i := 0; i < nin; i++ {
		ids = append(ids, s.input(uint64(g.Intn(1000000))))
	}
	if g.Intn(2) == 0 {
		s.addIns(h, ids...)
	} else {
		for k := 0; k < len(ids); {
			e := k + 1 + g.Intn(len(ids)-k)
			s.addIns(h, ids[k:e]...)
			k = e
		}
	}
	ids = []int{}
	for i := 0; i < nout; i++ {
		ids = append(ids, s.output(s.address(kinds[i%len(kinds)]), s.g.u64()))
	}
	s.addOuts(h, ids...)
	return s
}

func (g *gen) c08() {
	g.takenBack("bytes", "hex")
	w := weights{"replin": 2, "replout": 2, "new": 2, "newtx": 2, "sign": 2, "in": 8, "out": 8, "ttl": 3, "fee": 4, "meta": 3, "delmeta": 1, "build": 2, "bytes": 4, "hex": 3, "bodybytes": 2}
	g.histories(40*g.scale, 16, w, false, "bytes", "hex", "bytes", "bodybytes")
	all := []string{"base", "ent", "rew", "ptr", "byron"}
	for _, n := range counts {
		s := g.counted(n, 1, all...)
		s.readAll("bytes")
		s.done()
		s = g.counted(1, n, all...)
		s.readAll("bytes")
		s.done()
	}
	// every edge value of fee, TTL, index and amount
	s := g.txs()
	h := s.newTx()
	for i, n := range edges {
		s.op("fee", h, "n", N(n))
		if i < len(ttls) {
			s.op("ttl", h, "n", N(ttls[i]))
		}
		s.op("bytes", h)
	}
	s.done()
	for i, n := range edges {
		s := g.txs()
		h := s.newTx()
		s.addIns(h, s.input(n))
		s.ins[0]["ix"] = N(ixs[i%len(ixs)])
		s.addOuts(h, s.output(s.address(all[i%5]), n))
		s.op("hex", h)
		s.done()
	}
	for i := 0; i < 14*g.scale; i++ { // malformed inputs
		s := g.txs()
		h := s.newBuilder(s.key())
		s.addIns(h, s.input(5), s.badInput())
		s.addOuts(h, s.output(s.address(""), 5))
		for _, j := range g.Perm(4) {
			switch j {
			case 0:
				s.op("bytes", h)
			case 1:
				s.op("hex", h)
			case 2:
				s.op("hash", h)
			case 3:
				s.build(h)
			}
		}
		s.done()
	}
}

// set, and taken back again
func (g *gen) takenBack(reads ...string) {
	for i := 0; i < 4*g.scale; i++ {
		s := g.txs()
		h := s.newBuilder(s.key())
		if i%2 == 1 {
			h = s.newTx()
		}
		s.addIns(h, s.input(5000000))
		s.addOuts(h, s.output(s.address(""), 1000000))
		for _, n := range []uint64{uint64(g.Uint32()), 0, 1, uint64(g.Uint32()), 0} {
			s.op("ttl", h, "n", N(n))
			s.readAll(reads...)
			if h > 1 || i%2 == 0 {
				s.op("fee", h, "n", N(n*uint64(g.Intn(3))))
			}
		}
		s.readAll(reads...)
		if i%2 == 0 {
			s.op("bytes", s.build(h))
		}
		s.done()
	}
}

func (g *gen) c09() {
	g.takenBack("hash", "bytes")
	w := weights{"replin": 2, "replout": 2, "new": 2, "newtx": 2, "sign": 3, "in": 6, "out": 6, "ttl": 3, "fee": 3, "meta": 4, "delmeta": 2, "metamut": 2, "change": 2, "minfee": 1,
		"build": 4, "hash": 10, "bytes": 6, "hex": 3, "feeq": 1, "aux": 1}
	g.histories(60*g.scale, 18, w, true, "hash", "bytes", "hash")
	for _, n := range counts {
		s := g.counted(n, n%30, "base", "byron")
		s.readAll("hash", "bytes")
		s.done()
	}
}

func (g *gen) c10() {
	w := weights{"replin": 2, "replout": 2, "new": 3, "sign": 7, "in": 6, "out": 6, "ttl": 3, "fee": 3, "meta": 3, "delmeta": 2, "change": 4, "minfee": 4, "build": 8, "hash": 2, "bytes": 3, "feeq": 1}
	g.histories(50*g.scale, 16, w, true, "bytes")
	for _, n := range []int{3, 300, 700} { // large ones
		s := g.txs()
		h := s.newBuilder(s.key(), s.key())
		ids := []int{}
		for i := 0; i < 100; i++ {
			ids = append(ids, s.input(50000000))
		}
		s.addIns(h, ids...)
		ids = []int{}
		for i := 0; i < n; i++ {
			ids = append(ids, s.output(s.address("base"), 1000000))
		}
		s.addOuts(h, ids...)
		s.op("change", h, "a", s.address(""))
		s.op("bytes", s.build(h))
		s.done()
	}
	for _, n := range []int{0, 1, 2, 3, 22, 23, 24, 25, 30} { // many keys
		s := g.txs()
		ks := []int{}
		for i := 0; i < n/2; i++ {
			ks = append(ks, s.key())
		}
		h := s.newBuilder(ks...)
		s.addIns(h, s.input(5000000))
		s.addOuts(h, s.output(s.address("base"), 1000000))
		for i := n / 2; i < n; i++ {
			k := s.key()
			s.hs[h-1].keys[k] = true
			s.op("sign", h, "key", k)
		}
		s.op("minfee", h)
		s.op("change", h, "a", s.address(""))
		b := s.build(h)
		s.op("bytes", b)
		s.op("minfee", h)
		b = s.build(h)
		s.op("bytes", b)
		s.done()
	}
}

// a builder with some inputs, outputs, keys, TTL and metadata; excess over the outputs as given
func (s *txg) prepared(excess func(out uint64) uint64) int {
	g := s.g
	ks := []int{}
	for i := g.Intn(4); i > 0; i-- {
		ks = append(ks, s.key())
	}
	h := s.newBuilder(ks...)
	ids := []int{}
	for i := g.Intn(4); i > 0; i-- {
		ids = append(ids, s.output(s.address(""), uint64(g.Intn(5000000))))
	}
	s.addOuts(h, ids...)
	if g.Intn(2) == 0 {
		s.op("ttl", h, "n", N(ttls[g.Intn(len(ttls))]))
	}
	if g.Intn(3) == 0 {
		s.op("meta", h, "m", s.meta())
	}
	total := excess(s.hs[h-1].out)
	ids = []int{}
	n := 1 + g.Intn(3)
	for i := 0; i < n; i++ {
		x := total
		if i < n-1 && total > 0 {
			x = g.Uint64() % total
		}
		ids = append(ids, s.input(x))
		total -= x
	}
	s.addIns(h, ids...)
	if g.Intn(3) == 0 {
		s.sign(h)
	}
	return h
}

func (g *gen) changes(n int) {
	for i := 0; i < n; i++ {
		s := g.txs()
		fee := u64(s.par["fix"]) + 400*u64(s.par["per"])
		h := s.prepared(func(out uint64) uint64 {
			switch i % 6 {
			case 0: // nothing, or too little
				return out/2 + uint64(g.Intn(3))
			case 1: // all of it goes out
				return out + uint64(g.Intn(3))
			case 2: // around the fee
				return out + fee/2 + g.Uint64()%(fee+1)
			case 3:
				return out + g.u64()>>1
			case 4: // amounts whose change is just around where its encoding grows
				return out + fee + []uint64{24, 256, 65536, 1 << 32, 1 << 33}[g.Intn(5)] + uint64(g.Intn(64))*u64(s.par["per"])
			}
			return out + fee*3
		})
		if g.Intn(3) == 0 {
			s.op("fee", h, "n", N(g.u64()))
		}
		s.op("minfee", h)
		s.op("change", h, "a", s.address(""))
		switch g.Intn(4) {
		case 0: // once more
			s.op("change", h, "a", s.address(""))
		case 1:
			s.op("minfee", h)
		}
		b := s.build(h)
		s.op("bytes", b)
		if g.Intn(4) == 0 { // go on with it
			s.addIns(h, s.input(uint64(g.Intn(50000000))))
			s.sign(h)
			s.op("minfee", h)
			s.op("change", h, "a", s.address(""))
			s.op("bytes", s.build(h))
		}
		s.done()
	}
}

// outputs that together ask for more than 64 bits hold, next to inputs that would cover the low 64 bits
func (g *gen) beyond(n int) {
	for i := 0; i < n; i++ {
		s := g.txs()
		fee := u64(s.par["fix"]) + 600*u64(s.par["per"])
		h := s.prepared(func(out uint64) uint64 {
			return []uint64{0, out, out + fee/2, out + fee*3, out + fee*3 + uint64(g.Intn(100000000)), ^uint64(0)}[g.Intn(6)]
		})
		a := []uint64{1 << 63, ^uint64(0), g.Uint64() | 1<<63}[g.Intn(3)]
		b := -a + []uint64{0, 1, uint64(g.Intn(1000000))}[g.Intn(3)]
		ids := []int{s.output(s.address(""), a), s.output(s.address(""), b)}
		if g.Intn(3) == 0 { // twice around
			ids = append(ids, s.output(s.address(""), 1<<63), s.output(s.address(""), 1<<63))
		}
		s.addOuts(h, ids...)
		s.op("minfee", h)
		s.op("change", h, "a", s.address(""))
		if g.Intn(2) == 0 {
			s.op("minfee", h)
		}
		s.op("bytes", s.build(h))
		s.done()
	}
}

func (g *gen) c11() {
	g.beyond(12 * g.scale)
	g.changes(150 * g.scale)
	w := weights{"new": 2, "sign": 3, "in": 8, "out": 5, "ttl": 2, "fee": 2, "meta": 2, "delmeta": 1, "change": 8, "minfee": 2, "build": 2}
	g.histories(40*g.scale, 16, w, true)
}

func (g *gen) c12() {
	g.beyond(6 * g.scale)
	g.changes(150 * g.scale)
	w := weights{"new": 2, "sign": 4, "in": 8, "out": 5, "ttl": 2, "fee": 2, "meta": 2, "delmeta": 1, "change": 5, "minfee": 8, "build": 3}
	g.histories(40*g.scale, 16, w, true, "bytes")
	for _, n := range []int{22, 23, 24, 255, 256} { // lists whose head grows by the change output or the keys
		s := g.txs()
		h := s.newBuilder()
		ids := []int{}
		for i := 0; i < n; i++ {
			ids = append(ids, s.output(s.address("ent"), uint64(g.Intn(100000))))
		}
		s.addOuts(h, ids...)
		for i := 0; i < n%30; i++ {
			k := s.key()
			s.op("sign", h, "key", k)
		}
		s.addIns(h, s.input(1<<40))
		s.op("minfee", h)
		s.op("change", h, "a", s.address(""))
		s.op("bytes", s.build(h))
		s.done()
	}
}

func (g *gen) c13() {
	w := weights{"replin": 2, "replout": 2, "new": 2, "newtx": 3, "sign": 3, "in": 6, "out": 6, "ttl": 3, "fee": 5, "meta": 3, "delmeta": 2, "metamut": 1, "change": 2, "minfee": 2, "build": 3, "bytes": 5, "hex": 1, "feeq": 9}
	g.histories(60*g.scale, 18, w, true, "feeq", "bytes", "feeq")
	for _, n := range counts {
		s := g.counted(n, n%40, "base", "byron", "ptr")
		s.readAll("feeq", "bytes")
		s.done()
	}
	{ // more bytes than 16 bits count
		s := g.counted(1850, 2, "base", "ent")
		s.readAll("feeq", "bytes")
		s.done()
	}
	s := g.txs()
	h := s.newTx()
	for _, n := range edges {
		s.op("fee", h, "n", N(n))
		s.op("feeq", h, "per", N(44), "fix", N(155381))
		s.op("bytes", h)
	}
	s.done()
}

func (g *gen) c14() {
	w := weights{"new": 2, "newtx": 2, "sign": 2, "in": 2, "out": 2, "fee": 1, "meta": 10, "delmeta": 5, "metamut": 5, "aux": 2, "change": 1, "minfee": 2, "build": 6, "hash": 6, "bytes": 6, "hex": 2, "feeq": 1}
	g.histories(70*g.scale, 18, w, true, "hash", "bytes", "bytes")
	for i := 0; i < 40*g.scale; i++ { // values of all shapes
		s := g.txs()
		h := s.newBuilder(s.key())
		s.metas = append(s.metas, s.metaMap(1+g.Intn(4), pick(g, "uint", "uintp", "str", "any"), 1+g.Intn(12)))
		s.op("meta", h, "m", 1)
		for j := 0; j < 3; j++ {
			s.op("hash", h)
		}
		b := s.build(h)
		for j := 0; j < 3; j++ {
			s.op("bytes", b)
		}
		s.done()
	}
}

func (g *gen) c15() {
	w := weights{"replin": 2, "replout": 2, "new": 4, "newtx": 1, "sign": 6, "in": 7, "out": 7, "ttl": 3, "fee": 3, "meta": 2, "delmeta": 1, "aux": 1, "change": 4, "minfee": 6, "build": 7, "hash": 2, "bytes": 4, "hex": 1, "feeq": 2, "bodybytes": 1}
	g.histories(60*g.scale, 24, w, true, "bytes", "hash")
	for i := 0; i < 10*g.scale; i++ { // the metadata of the builder changes, what was built does not
		s := g.txs()
		h := s.newBuilder(s.key())
		s.addIns(h, s.input(9000000))
		s.op("meta", h, "m", s.meta())
		if g.Intn(2) == 0 {
			s.op("hash", h)
		}
		b := s.build(h)
		s.op("bytes", b)
		s.op("bodybytes", b)
		for j := 0; j < 3; j++ {
			if g.Intn(4) == 0 {
				s.op("delmeta", h)
			} else {
				s.op("meta", h, "m", s.meta())
			}
			s.op(pick(g, "hash", "bytes", "minfee", "aux"), h)
			s.op("bodybytes", b)
			if g.Intn(2) == 0 {
				c := s.build(h)
				s.op("bytes", c)
				s.op("bodybytes", c)
				s.op("bodybytes", b)
			}
		}
		s.op("bytes", b)
		s.op("bytes", h)
		s.done()
	}
	for i := 0; i < 30*g.scale; i++ { // two builders from the same keys, inputs and outputs
		s := g.txs()
		ks := []int{}
		for j := g.Intn(3); j > 0; j-- {
			ks = append(ks, s.key())
		}
		a, b := s.newBuilder(ks...), s.newBuilder(ks...)
		x, y, z := s.input(5000000), s.input(7000000), s.input(11000000)
		o, p := s.output(s.address("base"), 1000000), s.output(s.address(""), 2000000)
		for _, h := range []int{a, b} {
			s.addIns(h, x, y)
			s.addOuts(h, o)
		}
		ca, cb := s.address("base"), s.address("ent")
		todo := []func(){
			func() { s.sign(a) }, func() { s.sign(b) },
			func() { s.op("change", a, "a", ca) }, func() { s.op("change", b, "a", cb) },
			func() { s.op("bytes", s.build(a)) }, func() { s.op("bytes", s.build(b)) },
			func() { s.addIns(a, z) }, func() { s.addOuts(b, p) }, func() { s.addOuts(a, p) },
			func() { s.op("ttl", a, "n", N(7)) }, func() { s.op("minfee", b) },
			func() { s.op("bytes", s.build(a)) }, func() { s.op("bytes", s.build(b)) },
		}
		for _, j := range g.Perm(len(todo)) {
			todo[j]()
		}
		s.readAll("bytes")
		s.done()
	}
}
