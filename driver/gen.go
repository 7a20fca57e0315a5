package main

import (
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"math/big"
	"math/rand"
	"strings"
)

// Scenario generation: structured, boundary-rich and random inputs. TLC generates
// further scenarios from the specification (spec/Gen*.tla).
type gen struct {
	*rand.Rand
	scale int
	emit  func(M)
	n     int
	area  string
}

func generate(prop string, seed int64, scale int, emit func(M)) {
	g := &gen{Rand: rand.New(rand.NewSource(seed)), scale: scale, emit: emit}
	f := map[string]func(){
		"C01": g.c01, "C02": g.c02, "C03": g.c03, "C04": g.c04, "C05": g.c05, "C06": g.c06, "C07": g.c07,
		"C08": g.c08, "C09": g.c09, "C10": g.c10, "C11": g.c11, "C12": g.c12, "C13": g.c13, "C14": g.c14, "C15": g.c15,
		"C16": g.c16, "C17": g.c17, "C18": g.c18, "C19": g.c19, "C20": g.c20, "C21": g.c21,
		"C22": g.c22, "C23": g.c23, "C24": g.c24, "C25": g.c25, "C26": g.c26, "C27": g.c27,
	}[prop]
	f()
}

// add emits a scenario made of the given ops.
func (g *gen) add(ops []M, extra ...M) {
	if len(ops) == 0 {
		return
	}
	g.n++
	sc := M{"id": g.n, "area": g.area, "ops": ops}
	for _, e := range extra {
		for k, v := range e {
			sc[k] = v
		}
	}
	g.emit(sc)
}

// chunk emits independent ops in scenarios of at most n.
func (g *gen) chunk(n int, ops []M) {
	for len(ops) > 0 {
		k := n
		if k > len(ops) {
			k = len(ops)
		}
		g.add(ops[:k])
		ops = ops[k:]
	}
}

func (g *gen) bytes(n int) Bs {
	b := make(Bs, n)
	g.Read(b)
	return b
}

// some n bytes: random, or of a special shape
func (g *gen) blob(n int) Bs {
	b := g.bytes(n)
	switch g.Intn(8) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
	case 3:
		for i := range b {
			b[i] &= 0x80
		}
	case 4:
		if n > 0 {
			b[0], b[n-1] = 0, 0
		}
	}
	return b
}

var edges = []uint64{0, 1, 2, 22, 23, 24, 25, 127, 128, 129, 254, 255, 256, 257, 16383, 16384, 65534, 65535, 65536, 65537, 1<<21 - 1, 1 << 21,
	1<<24 - 1, 1 << 24, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42,
	1<<49 - 1, 1 << 49, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<56 - 1, 1 << 56, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1}

func (g *gen) u64() uint64 {
	if g.Intn(2) == 0 {
		return edges[g.Intn(len(edges))]
	}
	return g.Uint64() >> uint(g.Intn(64))
}

func pick(g *gen, xs ...string) string { return xs[g.Intn(len(xs))] }

// ---- addresses

func (g *gen) cred() []interface{} { return []interface{}{g.Intn(2), g.blob(28)} }

func (g *gen) addr(kind string) M {
	a := noAddr()
	a["kind"], a["net"] = kind, g.Intn(2)
	switch kind {
	case "base":
		a["pay"], a["stake"] = g.cred(), g.cred()
		if g.Intn(6) == 0 { // the same hash twice
			a["stake"] = []interface{}{g.Intn(2), a["pay"].([]interface{})[1]}
		}
	case "ent":
		a["pay"] = g.cred()
	case "rew":
		a["stake"] = g.cred()
	case "ptr":
		a["pay"] = g.cred()
		a["ptr"] = []interface{}{N(g.u64()), N(g.u64()), N(g.u64())}
		if g.Intn(6) == 0 { // three of a kind
			n := g.u64()
			if g.Intn(2) == 0 {
				n = 1<<64 - 1 - uint64(g.Intn(2))
			}
			a["ptr"] = []interface{}{N(n), N(n), N(n)}
		}
	case "byron":
		a["net"], a["root"] = 1, g.blob(28)
		if g.Intn(2) == 0 {
			n := []int{1, 2, 21, 22, 23, 24, 30, 31, 32, 33, 64, 100, 200, 254, 255, 256, 300}[g.Intn(17)]
			if g.Intn(3) == 0 {
				n = 1 + g.Intn(64)
			}
			a["pl"] = g.blob(n)
		}
		if g.Intn(2) == 0 {
			n := uint64(uint32(g.u64()))
			if g.Intn(3) == 0 { // magics in use, and next to them
				n = []uint64{764824073, 1097911063, 1, 2, 633343913, 764824072, 764824074, 0, 1<<32 - 1}[g.Intn(9)]
			}
			a["net"], a["mg"] = 0, []interface{}{N(n)}
		}
	}
	return a
}

var shelley = []string{"base", "ent", "rew", "ptr"}

func (g *gen) anyAddr() M {
	if g.Intn(5) == 0 {
		return g.addr("byron")
	}
	return g.addr(shelley[g.Intn(4)])
}

func mk(a M, dst int) M { return M{"op": "mk", "dst": dst, "a": a, "nm": []Bs{}} }

// on makes a network with another magic the one of the address made, now and then
func (g *gen) on(o M) M {
	if obj(o["a"])["kind"] != "byron" && g.Intn(4) == 0 {
		o["nm"] = []Bs{N([]uint64{0, 1, 2, 764824073, 1097911063, 764824072, 1<<32 - 1, uint64(g.Uint32())}[g.Intn(8)])}
	}
	return o
}

// decode what slot src shows, after the changes muts
func decFrom(via string, src, dst int, muts ...M) M {
	return M{"op": "dec", "via": via, "from": src, "dst": dst, "muts": muts, "data": Bs{}}
}
func decData(via string, data []byte) M {
	return M{"op": "dec", "via": via, "dst": 1, "data": Bs(data)}
}

func (g *gen) roundTrips(kinds []string, vias []string, n int) {
	for i := 0; i < n; i++ {
		a := g.addr(kinds[i%len(kinds)])
		ops := []M{g.on(mk(a, 1))}
		for _, v := range vias {
			ops = append(ops, decFrom(v, 1, 2))
		}
		g.add(ops)
	}
}

func (g *gen) c01() { g.area = "addr"; g.roundTrips(shelley, []string{"bytes", "hex"}, 1200*g.scale) }
func (g *gen) c02() {
	g.area = "addr"
	g.roundTrips([]string{"base", "ent", "rew", "ptr", "byron"}, []string{"text"}, 1200*g.scale)
}
func (g *gen) c06() {
	g.area = "addr"
	g.roundTrips([]string{"byron"}, []string{"bytes", "hex", "text"}, 500*g.scale)
	var ops []M
	for i := 0; i < 100*g.scale; i++ {
		ops = append(ops, decData("bytes", g.byronish()))
	}
	g.chunk(20, ops)
}

const b32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// bech32 text with control over what can go wrong
func bech32Text(hrp string, data []byte, final uint32, pad int, extra []byte) string {
	var gs []byte
	v, n := uint32(0), uint(0)
	for _, b := range data {
		v = v<<8 | uint32(b)
		n += 8
		for n >= 5 {
			n -= 5
			gs = append(gs, byte(v>>n)&31)
		}
	}
	if n > 0 {
		gs = append(gs, (byte(v<<(5-n))|byte(pad)&byte(1<<(5-n)-1))&31)
	}
	gs = append(gs, extra...)
	poly := func(vs []byte) uint32 {
		c := uint32(1)
		for _, x := range vs {
			t := c >> 25
			c = (c&0x1ffffff)<<5 ^ uint32(x)
			for i, k := range []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3} {
				if t>>uint(i)&1 == 1 {
					c ^= k
				}
			}
		}
		return c
	}
	var vs []byte
	for i := range hrp {
		vs = append(vs, hrp[i]>>5)
	}
	vs = append(vs, 0)
	for i := range hrp {
		vs = append(vs, hrp[i]&31)
	}
	vs = append(append(vs, gs...), 0, 0, 0, 0, 0, 0)
	p := poly(vs) ^ final
	for i := 0; i < 6; i++ {
		gs = append(gs, byte(p>>uint(5*(5-i)))&31)
	}
	out := hrp + "1"
	for _, x := range gs {
		out += string(b32[x])
	}
	return out
}

func base58Text(b []byte) string {
	n := new(big.Int).SetBytes(b)
	var out []byte
	for n.Sign() > 0 {
		m := new(big.Int)
		n.DivMod(n, big.NewInt(58), m)
		out = append([]byte{b58[m.Int64()]}, out...)
	}
	for _, x := range b {
		if x != 0 {
			break
		}
		out = append([]byte{'1'}, out...)
	}
	return string(out)
}

// the bytes of a Shelley address of this kind of header (any type and network nibble)
func (g *gen) shelleyBytes(header byte, n int) []byte {
	b := append([]byte{header}, g.blob(n)...)
	return b
}

func (g *gen) validBytes() []byte {
	switch g.Intn(4) {
	case 0:
		return g.shelleyBytes(byte(g.Intn(4)<<4|g.Intn(2)), 56)
	case 1:
		return g.shelleyBytes(byte((6+g.Intn(2))<<4|g.Intn(2)), 28)
	case 2:
		return g.shelleyBytes(byte((14+g.Intn(2))<<4|g.Intn(2)), 28)
	}
	b := g.shelleyBytes(byte((4+g.Intn(2))<<4|g.Intn(2)), 28)
	for i := 0; i < 3; i++ {
		b = append(b, nat128(g.u64())...)
	}
	return b
}

func nat128(n uint64) []byte {
	out := []byte{byte(n & 127)}
	for n >>= 7; n > 0; n >>= 7 {
		out = append([]byte{byte(n&127) | 128}, out...)
	}
	return out
}

func (g *gen) c03() {
	g.area = "addr"
	// every kind of damage to printed texts
	for i := 0; i < 110*g.scale; i++ {
		a := g.anyAddr()
		ops := []M{mk(a, 1)}
		for j := 0; j < 14; j++ {
			var ms []M
			switch g.Intn(9) {
			case 0, 1, 2: // one to three characters changed
				for k := 0; k <= g.Intn(3); k++ {
					ms = append(ms, M{"k": "sub", "p": g.Intn(200), "c": int(b58[g.Intn(58)])})
				}
			case 3:
				for k := 0; k <= g.Intn(3); k++ {
					ms = append(ms, M{"k": "sub", "p": g.Intn(200), "c": int(b32[g.Intn(32)])})
				}
			case 4:
				ms = []M{{"k": "del", "p": g.Intn(200)}}
			case 5:
				ms = []M{{"k": "ins", "p": g.Intn(200), "c": int(b32[g.Intn(32)])}}
			case 6:
				ms = []M{{"k": pick(g, "upper", "upper1", "swap", "dup", "space", "nl"), "p": g.Intn(200)}}
			case 7:
				ms = []M{{"k": "trunc", "p": g.Intn(60)}}
			case 8:
				ms = []M{{"k": "sub", "p": g.Intn(200), "c": g.Intn(256)}}
			}
			ops = append(ops, decFrom("text", 1, 2, ms...))
		}
		g.add(ops)
	}
	// correct checksums around wrong content
	hrps := []string{"addr", "addr_test", "stake", "stake_test", "addr1", "addrx", "addr_vk", "stake_vkh", "address", "stakes", "addr_", "addr_tes", "bc", "ADDR", "Addr", "pool"}
	var ops []M
	for i := 0; i < 400*g.scale; i++ {
		d := g.validBytes()
		final, pad, extra := uint32(1), 0, []byte(nil)
		hrp := "addr"
		if d[0]>>4 >= 14 {
			hrp = "stake"
		}
		if d[0]&1 == 0 {
			hrp += "_test"
		}
		switch g.Intn(6) {
		case 0:
			hrp = hrps[g.Intn(len(hrps))]
		case 1:
			final = 0x2bc830a3 // bech32m
		case 2:
			pad = 1 + g.Intn(15)
		case 3:
			extra = []byte{byte(g.Intn(3)) * byte(g.Intn(16))}
		case 4:
			hrp = hrps[g.Intn(4)]
		}
		t := bech32Text(hrp, d, final, pad, extra)
		ops = append(ops, decData("text", []byte(t)))
		if g.Intn(4) == 0 {
			ops = append(ops, decData("text", []byte(base58Text(d))))
		}
	}
	// byron: checksum and content
	for i := 0; i < 150*g.scale; i++ {
		d := g.byronish()
		if g.Intn(2) == 0 && len(d) > 0 {
			d[g.Intn(len(d))] ^= 1 << uint(g.Intn(8))
		}
		switch g.Intn(3) {
		case 0:
			ops = append(ops, decData("bytes", d))
		case 1:
			ops = append(ops, decData("text", []byte(base58Text(d))))
		case 2:
			ops = append(ops, decData("text", []byte(bech32Text(hrps[g.Intn(4)], d, 1, 0, nil))))
		}
	}
	g.chunk(20, ops)
}

func head(major byte, n uint64) []byte {
	switch {
	case n < 24:
		return []byte{major<<5 | byte(n)}
	case n < 1<<8:
		return []byte{major<<5 | 24, byte(n)}
	case n < 1<<16:
		return []byte{major<<5 | 25, byte(n >> 8), byte(n)}
	case n < 1<<32:
		return []byte{major<<5 | 26, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
	b := []byte{major<<5 | 27}
	for i := 56; i >= 0; i -= 8 {
		b = append(b, byte(n>>uint(i)))
	}
	return b
}

func bstr(b []byte) []byte { return append(head(2, uint64(len(b))), b...) }
func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// byronish makes byte strings with the structure of a Byron address, valid or off by
// one of many deviations. The checksum is right unless it is the deviation.
func (g *gen) byronish() []byte {
	root := []byte(g.blob(28))
	var attrs [][]byte
	pl, mg := g.Intn(2) == 0, g.Intn(2) == 0
	magic := uint64(uint32(g.u64()))
	if pl {
		attrs = append(attrs, cat([]byte{1}, bstr(g.blob(1+g.Intn(40)))))
	}
	if mg {
		attrs = append(attrs, cat([]byte{2}, bstr(head(0, magic))))
	}
	tag24 := []byte{0xd8, 0x18}
	outer := []byte{0x82}
	inner := []byte{0x83}
	typ := []byte{0}
	trail := []byte{}
	var sum func([]byte) []byte = func(p []byte) []byte { return head(0, uint64(crc32.ChecksumIEEE(p))) }
	mapHead := func() []byte { return head(5, uint64(len(attrs))) }
	switch d := g.Intn(30); d {
	case 0:
		root = root[:27]
	case 1:
		root = append(root, 7)
	case 2:
		typ = []byte{byte(g.Intn(24))}
	case 3:
		typ = []byte{0x18, 0}
	case 4:
		attrs = append(attrs, cat([]byte{byte(3 + g.Intn(20))}, bstr(g.blob(5))))
	case 5:
		attrs = [][]byte{cat([]byte{2}, bstr(head(0, magic))), cat([]byte{1}, bstr(g.blob(5)))}
	case 6:
		attrs = [][]byte{cat([]byte{1}, bstr(g.blob(5))), cat([]byte{1}, bstr(g.blob(6)))}
	case 7:
		attrs = [][]byte{cat([]byte{2}, bstr(cat([]byte{0x1b, 0, 0, 0, 0}, g.bytes(4))))} // magic not in shortest form
	case 8:
		attrs = [][]byte{cat([]byte{2}, bstr(head(0, 1<<32+g.Uint64()>>2)))}
	case 9:
		attrs = [][]byte{cat([]byte{2}, bstr(head(1, magic)))}
	case 10:
		attrs = [][]byte{cat([]byte{2}, head(0, magic))} // not wrapped
	case 11:
		attrs = [][]byte{{1, 0x40}}
	case 12:
		attrs = [][]byte{{2, 0x40}}
	case 13:
		attrs = [][]byte{cat([]byte{2}, bstr(cat(head(0, magic), []byte{0})))}
	case 14:
		tag24 = head(6, []uint64{0, 23, 25, 24 << 8, 30}[g.Intn(5)])
	case 15:
		tag24 = []byte{0xd9, 0, 0x18}
	case 16:
		tag24 = nil
	case 17:
		outer = []byte{byte(0x80 + g.Intn(16))}
	case 18:
		inner = []byte{byte(0x80 + g.Intn(8))}
	case 19:
		trail = g.bytes(1 + g.Intn(3))
	case 20:
		sum = func(p []byte) []byte { return head(0, uint64(crc32.ChecksumIEEE(p)^(1<<uint(g.Intn(32))))) }
	case 21:
		sum = func(p []byte) []byte { return head(0, 1<<32|uint64(crc32.ChecksumIEEE(p))) }
	case 22:
		sum = func(p []byte) []byte {
			return cat([]byte{0x1b, 0, 0, 0, 0}, head(0, uint64(crc32.ChecksumIEEE(p))|1<<31)[1:])
		}
	case 23:
		sum = func(p []byte) []byte { return nil }
	case 24:
		outer = []byte{0x9f}
		trail = []byte{0xff}
	case 25:
		inner = []byte{0x9f}
		typ = []byte{0, 0xff}
	case 26:
		attrs = [][]byte{cat([]byte{0x18, 1}, bstr(g.blob(4)))}
	case 27:
		sum = func(p []byte) []byte { return []byte{[]byte{0xf6, 0xf5, 0xfb, 0x20, 0x40, 0x60}[g.Intn(6)]} }
	}
	p := cat(inner, bstr(root), mapHead(), cat(attrs...), typ)
	return cat(outer, tag24, bstr(p), sum(p), trail)
}

func (g *gen) c04() {
	g.area = "addr"
	var ops []M
	// every header byte with lengths around every boundary
	lens := []int{0, 1, 27, 28, 29, 30, 31, 32, 33, 34, 55, 56, 57, 58, 59, 80}
	for h := 0; h < 256; h++ {
		for _, n := range lens {
			if g.scale == 1 && h&15 > 2 && g.Intn(4) > 0 {
				continue
			}
			ops = append(ops, decData("bytes", g.shelleyBytes(byte(h), n)))
		}
	}
	ops = append(ops, decData("bytes", nil), decData("hex", nil), decData("text", nil))
	for _, f := range []string{" %s", "%s ", "%s\n", "\n%s", "%s\r\n", "\t%s", "0x%s", "0X%s", "\\x%s", "x'%s'", "%sh", "\"%s\"", "%s\x00", "%s,", "#%s"} {
		h := hex.EncodeToString(g.shelleyBytes(byte(6<<4|g.Intn(2)), 28))
		ops = append(ops, decData("hex", []byte(fmt.Sprintf(f, h))))
	}
	{ // in groups, with an odd digit, in capitals
		h := hex.EncodeToString(g.shelleyBytes(0x61, 28))
		ops = append(ops, decData("hex", []byte(h[:20]+" "+h[20:])), decData("hex", []byte(h[:20]+"_"+h[20:])), decData("hex", []byte(h[1:])),
			decData("hex", []byte(h+"0")), decData("hex", []byte(strings.ToUpper(h))))
	}
	// pointer numbers of every shape
	for i := 0; i < 250*g.scale; i++ {
		b := g.shelleyBytes(byte((4+g.Intn(2))<<4|g.Intn(2)), 28)
		for j := 0; j < 3+g.Intn(2)*g.Intn(3)-g.Intn(2)*g.Intn(2); j++ {
			switch g.Intn(6) {
			case 0:
				b = append(b, 0x80)
				b = append(b, nat128(g.u64())...)
			case 1:
				x := g.bytes(1 + g.Intn(14))
				for k := range x {
					x[k] |= 0x80
				}
				if g.Intn(4) > 0 {
					x[len(x)-1] &= 0x7f
				}
				b = append(b, x...)
			case 2:
				b = append(b, 0x82|byte(g.Intn(128)))
				b = append(b, nat128(1<<63 | g.u64())[1:]...)
			default:
				b = append(b, nat128(g.u64())...)
			}
		}
		if g.Intn(6) == 0 {
			b = append(b, g.bytes(1+g.Intn(3))...)
		}
		ops = append(ops, decData("bytes", b))
	}
	// valid addresses with bytes cut off or added
	for i := 0; i < 100*g.scale; i++ {
		b := g.validBytes()
		switch g.Intn(3) {
		case 0:
			b = b[:g.Intn(len(b)+1)]
		case 1:
			b = append(b, g.bytes(1+g.Intn(4))...)
		}
		ops = append(ops, decData("bytes", b))
	}
	for i := 0; i < 350*g.scale; i++ {
		b := g.byronish()
		if g.Intn(4) == 0 {
			b[g.Intn(len(b))] ^= byte(1 << uint(g.Intn(8)))
		}
		ops = append(ops, decData("bytes", b))
		if g.Intn(8) == 0 {
			ops = append(ops, decData("text", []byte(base58Text(b))))
		}
	}
	// cbor that claims much, nests deeply, or is noise
	for i := 0; i < 120*g.scale; i++ {
		var b []byte
		switch g.Intn(5) {
		case 0:
			b = cat([]byte{0x82, 0xd8, 0x18}, []byte{0x5b, 0x7f, 0xff, 0xff, 0xff}, g.bytes(8))
		case 1:
			for k := 0; k < 20+g.Intn(400); k++ {
				b = append(b, []byte{0x81, 0x82, 0xa1, 0xd8}[g.Intn(2)])
			}
		case 2:
			b = append([]byte{0x82}, g.bytes(g.Intn(60))...)
		case 3:
			b = cat([]byte{0x8f, 0x9b}, g.bytes(20))
		case 4:
			b = append([]byte{byte(0x80 + g.Intn(16))}, g.bytes(g.Intn(90))...)
		}
		ops = append(ops, decData("bytes", b))
	}
	// texts
	words := []string{"addr", "addr1", "addr_test1", "stake1", "stake_test1", "1", "addr1qqqqqq", "addr1qqqqqqq", "stake1qqqqq", "", " ", "addr_test", "stake", "\x00", "addr1\xff\xfe", "Ae2", "DdzFF", "0OIl", "addr11111111", "11111111", "addr1q1q1q1", "é", "addré1qqqqqqqqqq"}
	for i := 0; i < 250*g.scale; i++ {
		w := words[g.Intn(len(words))]
		n := g.Intn(140)
		alpha := []string{b32, b58, b32 + b58, "q", "\x00\x7f\x80\xff 1aZ-_"}[g.Intn(5)]
		for k := 0; k < n; k++ {
			w += string([]byte{alpha[g.Intn(len(alpha))]})
		}
		ops = append(ops, decData("text", []byte(w)))
	}
	for _, w := range words {
		ops = append(ops, decData("text", []byte(w)))
	}
	// hex
	const hx = "0123456789abcdef"
	for i := 0; i < 150*g.scale; i++ {
		var t []byte
		for _, x := range g.validBytes() {
			t = append(t, hx[x>>4], hx[x&15])
		}
		switch g.Intn(6) {
		case 0:
			t = t[:g.Intn(len(t))]
		case 1:
			t[g.Intn(len(t))] = byte(g.Intn(256))
		case 2:
			for k := range t {
				if t[k] >= 'a' {
					t[k] -= 32
				}
			}
		case 3:
			t = append([]byte("0x"), t...)
		}
		ops = append(ops, decData("hex", t))
	}
	g.chunk(25, ops)
}

func (g *gen) c05() {
	g.area = "addr"
	var ops []M
	enc := func(n uint64) { ops = append(ops, M{"op": "venc", "n": N(n)}) }
	dec := func(b []byte) { ops = append(ops, M{"op": "vdec", "data": Bs(b)}) }
	for _, e := range edges {
		enc(e)
	}
	for k := uint(0); k < 64; k++ {
		for _, d := range []uint64{0, 1, ^uint64(0)} {
			n := uint64(1)<<k + d
			enc(n)
			dec(nat128(n))
			dec(append(nat128(n), g.bytes(g.Intn(12))...))
		}
	}
	for n := uint64(0); n < 300; n++ {
		enc(n)
		dec(nat128(n))
	}
	for i := 0; i < 600*g.scale; i++ {
		n := g.u64()
		enc(n)
		dec(cat(nat128(n), g.bytes(g.Intn(12))))
		// numbers of any length, terminated or not
		b := g.bytes(g.Intn(16))
		for k := range b {
			b[k] |= 0x80
		}
		if len(b) > 0 && g.Intn(3) > 0 {
			b[len(b)-1] &= 0x7f
		}
		dec(b)
		// around 2^64
		x := nat128(1<<63 | g.Uint64())
		switch g.Intn(4) {
		case 0:
			x[0] = 0x80 | byte(g.Intn(8))
		case 1:
			x = append([]byte{0x81}, x...)
		case 2:
			x = append([]byte{0x80, 0x80}, x...)
		}
		dec(x)
	}
	for n := 0; n < 25; n++ {
		b := make([]byte, n)
		for k := range b {
			b[k] = 0x80
		}
		dec(b)
		dec(append(b, byte(g.Intn(128))))
		for k := range b {
			b[k] = 0xff
		}
		dec(append(b, 0x7f))
	}
	g.chunk(60, ops)
}

func (g *gen) c07() {
	g.area = "addr"
	for i := 0; i < 150*g.scale; i++ {
		ops := []M{g.on(mk(g.addr("base"), 1)), decFrom(pick(g, "bytes", "text", "hex"), 1, 2)}
		if g.Intn(2) == 0 {
			ops = []M{g.on(mk(g.anyAddr(), 1)), decFrom(pick(g, "bytes", "bytes", "text", "hex"), 1, 2)}
		}
		for j := 0; j < 8; j++ {
			src, dst := 1+g.Intn(4), 3+g.Intn(2)
			if j < 3 {
				src = 1 + g.Intn(2)
			}
			switch g.Intn(8) {
			case 7:
				ops = append(ops, M{"op": "read", "src": src, "what": pick(g, "bytes", "cbor")})
			case 0:
				ops = append(ops, M{"op": "toent", "src": src, "dst": dst})
			case 1:
				ops = append(ops, M{"op": "torew", "src": src, "dst": dst})
			case 2, 3, 4:
				ops = append(ops, M{"op": "scrib", "src": src, "what": pick(g, "in", "in", "bytes", "cbor")})
			case 5:
				ops = append(ops, M{"op": "obs", "src": src})
			case 6:
				ops = append(ops, decFrom(pick(g, "bytes", "text", "hex"), 1+g.Intn(2), dst))
			}
		}
		for _, o := range ops {
			o["all"] = 4
		}
		g.add(ops)
	}
	for i := 0; i < 30*g.scale; i++ { // what becomes of one decoded address is nothing to the next
		v, v2 := pick(g, "bytes", "text", "hex"), pick(g, "bytes", "text", "hex")
		ops := []M{g.on(mk(g.anyAddr(), 1)), decFrom(v, 1, 2), decFrom(v2, 1, 3), M{"op": "wreck", "src": 2}, decFrom(v, 3, 4), decFrom(v2, 3, 2), M{"op": "obs", "src": 4}}
		for _, o := range ops {
			o["all"] = 4
		}
		g.add(ops)
	}
}

// a history of AddrHeap.tla: slot k there is slot k here, what gets decoded is made in slot 10+k
func (g *gen) addrHistory(hist []interface{}) {
	ops := []M{}
	for _, x := range hist {
		h := obj(x)
		src, dst := in(h, "src"), in(h, "dst")
		switch st(h, "op") {
		case "dec":
			ops = append(ops, g.on(mk(g.addr("base"), 10+dst)), decFrom(st(h, "via"), 10+dst, dst))
		case "read", "scrib":
			ops = append(ops, M{"op": st(h, "op"), "src": src, "what": st(h, "via")})
		default:
			ops = append(ops, M{"op": st(h, "op"), "src": src, "dst": dst})
		}
	}
	ops = append(ops, M{"op": "obs", "src": 1})
	for i, o := range ops {
		o["all"] = 0
		if i == len(ops)-1 {
			o["all"] = 4
		}
	}
	g.add(ops)
}
