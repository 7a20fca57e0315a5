package main

import "math/big"

// an extended private key whose left half is below 2^255 and a multiple of eight
func (g *gen) xprv() Bs {
	k := g.bytes(96)
	switch g.Intn(6) {
	case 0: // carries run through the upper bytes of the left half
		for i := 20; i < 31; i++ {
			k[i] = 0xff
		}
	case 1:
		for i := 0; i < 31; i++ {
			k[i] = 0xff
		}
	case 2: // the right half wraps around
		for i := 32; i < 64; i++ {
			k[i] = 0xff
		}
	case 3:
		for i := 1; i < 31; i++ {
			k[i] = 0
		}
	case 4:
		for i := 28; i < 32; i++ {
			k[i] = 0xff
		}
		for i := 60; i < 64; i++ {
			k[i] = 0xff
		}
	}
	k[0] &= 0xf8
	k[31] = k[31]&0x1f | 0x40
	return k
}

var indices = []uint64{0, 1, 2, 44, 127, 128, 255, 256, 1815, 1852, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 1815, 1<<31 + 1852, 1<<32 - 2, 1<<32 - 1}

func (g *gen) index() Bs {
	n := indices[g.Intn(len(indices))]
	if g.Intn(2) == 0 {
		n = uint64(g.Uint32())
	}
	return Bs{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// keys that lie next to each other
func (g *gen) neighbours() {
	for i := 0; i < 3*g.scale; i++ {
		ops := []M{}
		for k := 1; k <= 3; k++ {
			ops = append(ops, M{"op": "raw", "dst": k, "k": g.xprv()})
		}
		for _, k := range g.Perm(3) {
			ops = append(ops, M{"op": "sign", "src": k + 1, "msg": g.bytes(g.Intn(90))}, M{"op": "pub", "src": k + 1},
				M{"op": "derive", "src": k + 1, "dst": 4, "idx": N(uint64(g.Uint32()) | 1<<31)}, M{"op": "derive", "src": k + 1, "dst": 5, "idx": N(uint64(g.Uint32()) >> 1)})
		}
		for _, o := range ops {
			o["all"] = 5
		}
		g.add(ops)
	}
}

func (g *gen) c16() {
	g.area = "key"
	g.neighbours()
	g.area = "key"
	// every length up to a few blocks of the hash, the lengths around block boundaries in several shapes
	msgs := []Bs{}
	for n := 0; n < 280; n++ {
		msgs = append(msgs, g.blob(n))
	}
	for _, n := range []int{1, 32, 63, 64, 111, 112, 127, 128, 191, 192, 239, 240, 255, 256, 512, 1024, 4096} {
		for _, x := range []byte{0, 1, 0xff} {
			m := g.bytes(n)
			if n > 0 {
				m[n-1] = x
			}
			msgs = append(msgs, m)
			m = g.bytes(n)
			if n > 0 {
				m[0] = x
			}
			msgs = append(msgs, m)
		}
	}
	for _, n := range []int{1000, 4095, 4097, 5000, 8192, 10001, 16384, 20000} {
		msgs = append(msgs, g.bytes(n))
	}
	for i := 0; i < 60*(g.scale-1); i++ {
		msgs = append(msgs, g.blob(g.Intn(600)))
	}
	order := g.Perm(len(msgs))
	for len(order) > 0 {
		k := g.xprv()
		switch g.Intn(5) {
		case 0: // not clamped: the scheme works for every left half below 2^255
			k[0] |= byte(g.Intn(8))
			k[31] = byte(g.Intn(127))
		case 1:
			k[31] |= 0x20
		}
		if k[31] == 0x7f { // a child must not reach 2^255
			k[31] = 0x7e
		}
		ops := []M{{"op": "raw", "dst": 1, "k": k}}
		if g.Intn(2) == 0 {
			ops = append(ops, M{"op": "derive", "src": 1, "dst": 1, "idx": g.index()})
		}
		for j := 0; j < 4 && len(order) > 0; j++ {
			ops = append(ops, M{"op": "sign", "src": 1, "msg": msgs[order[0]]})
			order = order[1:]
		}
		for _, o := range ops {
			o["all"] = 1
		}
		g.add(ops)
	}
	// messages alike in length and begin, keys alike in some part
	for i := 0; i < 8*g.scale; i++ {
		k, m := g.xprv(), g.bytes([]int{32, 32, 64, 1, 200, 0}[i%6])
		ops := []M{{"op": "raw", "dst": 1, "k": k, "all": 1}, {"op": "sign", "src": 1, "msg": m, "all": 1}}
		for j := 0; j < 3; j++ {
			if i%2 == 0 && len(m) > 0 {
				m = append(Bs{}, m...)
				m[[]int{len(m) - 1, len(m) / 2, 0}[j]] ^= byte(1 + g.Intn(255))
			} else {
				k = append(Bs{}, k...)
				p := keyParts[g.Intn(len(keyParts))]
				copy(k[p[0]:p[1]], g.bytes(p[1]-p[0]))
				ops = append(ops, M{"op": "raw", "dst": 1, "k": k, "inplace": 1, "all": 1})
			}
			ops = append(ops, M{"op": "sign", "src": 1, "msg": m, "all": 1})
		}
		g.add(ops)
	}
}

// parts of a key that change without reaching the top bits
var keyParts = [][2]int{{1, 8}, {8, 16}, {16, 28}, {28, 31}, {4, 31}, {32, 40}, {48, 64}, {63, 64}, {64, 72}, {80, 96}, {95, 96}}

func (g *gen) c17() {
	g.area = "key"
	g.neighbours()
	g.area = "key"
	for i := 0; i < 60*g.scale; i++ {
		ops := []M{{"op": "raw", "dst": 1, "k": g.xprv()}}
		if g.Intn(6) == 0 { // a chain code of a special shape
			k := ops[0]["k"].(Bs)
			copy(k[64:], g.blob(32))
		}
		for j := 0; j < 7; j++ {
			src := 1 + g.Intn(4)
			if j < 3 {
				src = 1
			}
			switch g.Intn(8) {
			case 0, 1:
				ops = append(ops, M{"op": "pub", "src": src})
			case 2:
				ops = append(ops, M{"op": "scrib", "src": 2 + g.Intn(3)})
			default:
				ops = append(ops, M{"op": "derive", "src": src, "dst": 2 + g.Intn(3), "idx": g.index()})
			}
		}
		for _, o := range ops {
			o["all"] = 4
		}
		g.add(ops)
	}
	// keys alike in some part, at the same index
	for i := 0; i < 22*g.scale; i++ {
		k, idx := g.xprv(), g.index()
		ops := []M{{"op": "raw", "dst": 1, "k": k}, {"op": "derive", "src": 1, "dst": 2, "idx": idx}, {"op": "pub", "src": 1}}
		for j := 0; j < 2; j++ {
			k = append(Bs{}, k...)
			p := keyParts[(i+j)%len(keyParts)]
			copy(k[p[0]:p[1]], g.bytes(p[1]-p[0]))
			ops = append(ops, M{"op": "raw", "dst": 1, "k": k, "inplace": 1}, M{"op": "derive", "src": 1, "dst": 2 + j%2, "idx": idx}, M{"op": "pub", "src": 1})
		}
		for _, o := range ops {
			o["all"] = 4
		}
		g.add(ops)
	}
	// the standard paths, from a master key
	for i := 0; i < 4*g.scale; i++ {
		ops := []M{{"op": "icarus", "dst": 1, "entropy": g.bytes(20), "pw": Bs{}}}
		for _, n := range []uint64{1<<31 + 1852, 1<<31 + 1815, 1<<31 + uint64(g.Intn(5)), uint64(g.Intn(3)), uint64(g.Intn(1000))} {
			ops = append(ops, M{"op": "derive", "src": 1, "dst": 1, "idx": Bs{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}}, M{"op": "pub", "src": 1})
		}
		for _, o := range ops {
			o["all"] = 1
		}
		g.add(ops)
	}
}

func (g *gen) c18() {
	g.area = "key"
	var ops []M
	lens := []int{0, 1, 8, 16, 20, 24, 28, 32, 33, 63, 64, 65, 127, 128, 129, 200}
	for i := 0; i < 48*g.scale; i++ {
		e, p := lens[i%len(lens)], lens[g.Intn(len(lens))]
		if g.Intn(3) == 0 {
			p = 0
		}
		ops = append(ops, M{"op": "icarus", "dst": 1, "entropy": g.blob(e), "pw": g.blob(p)})
	}
	for i := 0; i < 120*g.scale; i++ {
		n := 32
		if g.Intn(3) == 0 {
			n = g.Intn(70)
		}
		ops = append(ops, M{"op": "seed", "dst": 1, "seed": g.blob(n)})
	}
	for i := 0; i < 256; i += 1 { // every value of the clamped bytes
		for j := 0; j < 4; j++ {
			k := g.bytes(96)
			if j > 1 {
				k = g.blob(96)
			}
			k[0], k[31] = byte(i), byte(i*7+i>>3)
			if j == 1 {
				k[30], k[1], k[32] = 0xff, 0xff, 0xff
			}
			ops = append(ops, M{"op": "norm", "k": k})
		}
	}
	for _, n := range []int{0, 31, 33, 64} {
		ops = append(ops, M{"op": "seed", "dst": 1, "seed": g.bytes(n)})
	}
	g.chunk(12, ops)
}

var typed = []string{"Ed25519KeyHash", "ScriptHash", "TransactionHash", "GenesisDelegateHash", "GenesisHash", "MetadataHash", "VRFKeyHash", "BlockHash", "VRFVKey", "KESVKey"}

func (g *gen) c19() {
	g.area = "key"
	var ops []M
	for n := 0; n < 300; n++ {
		ops = append(ops, M{"op": "hash224", "data": g.blob(n)}, M{"op": "hash256", "data": g.blob(n)})
	}
	for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4096, 10000} {
		ops = append(ops, M{"op": "hash224", "data": g.blob(n)}, M{"op": "hash256", "data": g.blob(n)})
	}
	for _, n := range []int{16383, 16384, 32769, 65535, 65536, 65537, 131073, 1<<20 + 1} {
		b := g.blob(n)
		g.add([]M{{"op": "hash224", "data": b}, {"op": "hash256", "data": b}})
	}
	for i := 0; i < 40*g.scale; i++ {
		ops = append(ops, M{"op": "pkhash", "data": g.blob(32)})
	}
	for _, t := range typed {
		for n := 0; n <= 70; n++ {
			ops = append(ops, M{"op": "typed", "typ": t, "data": g.bytes(n)})
		}
		for i := 0; i < 10*g.scale; i++ {
			ops = append(ops, M{"op": "typed", "typ": t, "data": g.blob(28 + 4*g.Intn(2))})
		}
	}
	g.chunk(40, ops)
}

// ---- curve arithmetic

var prime = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
var order, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func le(n *big.Int, size int) Bs {
	b := n.Bytes()
	out := make(Bs, size)
	for i := range b {
		if len(b)-1-i < size {
			out[len(b)-1-i] = b[i]
		}
	}
	return out
}

func (g *gen) field() Bs {
	switch g.Intn(5) {
	case 0: // around the prime and its double
		return le(new(big.Int).Add(prime, big.NewInt(int64(g.Intn(60)-40))), 32)
	case 1:
		return le(big.NewInt(int64(g.Intn(40))), 32)
	case 2: // limb boundaries
		sh := []uint{25, 26, 51, 76, 77, 102, 127, 128, 153, 178, 179, 204, 229, 230, 254}[g.Intn(15)]
		n := new(big.Int).Lsh(big.NewInt(1), sh)
		return le(n.Add(n, big.NewInt(int64(g.Intn(5)-2))), 32)
	case 3:
		b := make(Bs, 32)
		for i := range b {
			b[i] = []byte{0, 0xff}[g.Intn(2)]
		}
		return b
	}
	return g.blob(32)
}

func (g *gen) scalar() Bs { // 32 bytes, below 2^255
	var b Bs
	switch g.Intn(6) {
	case 0:
		b = le(new(big.Int).Add(order, big.NewInt(int64(g.Intn(20)-10))), 32)
	case 1:
		b = le(new(big.Int).Lsh(big.NewInt(int64(1+g.Intn(15))), uint(4*g.Intn(63))), 32)
	case 2:
		x := byte(g.Intn(16))
		b = make(Bs, 32)
		for i := range b {
			b[i] = x<<4 | x
		}
	case 3: // long runs of one bits
		b = make(Bs, 32)
		for i := 0; i < g.Intn(32); i++ {
			b[i] = 0xff
		}
	default:
		b = g.blob(32)
	}
	b[31] &= 0x7f
	return b
}

func (g *gen) reduced() Bs {
	n := new(big.Int).SetBytes(g.blob(40))
	if g.Intn(4) == 0 {
		n = new(big.Int).Sub(order, big.NewInt(int64(1+g.Intn(9))))
	}
	if g.Intn(5) == 0 {
		n = big.NewInt(int64(g.Intn(20)))
	}
	return le(n.Mod(n, order), 32)
}

func (g *gen) c20() {
	g.area = "ed"
	var ops []M
	op := func(name string, x, y, z Bs) {
		if x == nil {
			x = Bs{}
		}
		if y == nil {
			y = Bs{}
		}
		if z == nil {
			z = Bs{}
		}
		ops = append(ops, M{"op": name, "x": x, "y": y, "z": z})
	}
	// every entry of the base point table, each sign
	for k := int64(1); k <= 8; k++ {
		for pos := uint(0); pos < 64; pos++ {
			n := new(big.Int).Lsh(big.NewInt(k), 4*pos)
			if n.BitLen() > 255 {
				continue
			}
			op("mulbase", le(n, 32), nil, nil)
			if pos < 63 {
				n = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 4*pos+4), n)
				op("mulbase", le(n, 32), nil, nil)
			}
		}
	}
	for i := 0; i < 60*g.scale; i++ {
		op("mulbase", g.scalar(), nil, nil)
	}
	points := []Bs{}
	for i := 0; i < 150*g.scale; i++ {
		y := g.field()
		op("point", y, nil, nil)
		op("double", y, nil, nil)
		points = append(points, y)
	}
	// small order and other special points, with either sign bit
	for _, n := range []int64{0, 1, 2, 3, 4, 5} {
		b := le(big.NewInt(n), 32)
		c := append(Bs{}, b...)
		c[31] |= 0x80
		d := le(new(big.Int).Sub(prime, big.NewInt(n)), 32)
		e := append(Bs{}, d...)
		e[31] |= 0x80
		f := le(new(big.Int).Add(prime, big.NewInt(n)), 32)
		for _, x := range []Bs{b, c, d, e, f} {
			op("point", x, nil, nil)
			op("double", x, nil, nil)
			op("fe", x, nil, nil)
			op("feflags", x, nil, nil)
			points = append(points, x)
		}
	}
	for _, h := range []string{"26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"} {
		x, _ := new(big.Int).SetString(h, 16)
		b := Bs(x.FillBytes(make([]byte, 32)))
		op("point", b, nil, nil)
		points = append(points, b)
	}
	for i := 0; i < 90*g.scale; i++ {
		op("dsm", g.reduced(), g.reduced(), points[g.Intn(len(points))])
	}
	for i := 0; i < 150*g.scale; i++ {
		x, y := g.field(), g.field()
		for _, o := range []string{"fe", "feadd", "fesub", "femul", "femix", "fesq", "fesqs", "fesq2", "feneg", "feflags"} {
			op(o, x, y, nil)
		}
		if i%4 == 0 {
			op("feinv", x, nil, nil)
		}
		op("fecmove", x, y, Bs{byte(g.Intn(2))})
	}
	for i := 0; i < 250*g.scale; i++ {
		x := g.blob(64)
		switch g.Intn(4) {
		case 0: // near a multiple of the order
			n := new(big.Int).Mul(order, new(big.Int).SetBytes(g.bytes(1+g.Intn(32))))
			n.Add(n, big.NewInt(int64(g.Intn(5)-2)))
			if n.Sign() >= 0 {
				x = le(n, 64)
			}
		case 1:
			x = le(new(big.Int).Lsh(big.NewInt(1+int64(g.Intn(5))), uint(g.Intn(509))), 64)
		}
		op("screduce", x, nil, nil)
		op("scmuladd", g.wide(), g.wide(), g.wide())
	}
	// the canonical test around the order, byte by byte
	for i := 0; i < 32; i++ {
		for _, d := range []int64{-1, 1} {
			n := new(big.Int).Add(order, new(big.Int).Lsh(big.NewInt(d), uint(8*i)))
			if n.Sign() >= 0 && n.BitLen() <= 256 {
				op("scminimal", le(n, 32), nil, nil)
			}
		}
	}
	op("scminimal", le(order, 32), nil, nil)
	for i := 0; i < 100*g.scale; i++ {
		op("scminimal", g.wide(), nil, nil)
		op("scminimal", g.reduced(), nil, nil)
	}
	g.chunk(40, ops)
}

func (g *gen) wide() Bs { // any 32 bytes
	switch g.Intn(4) {
	case 0:
		return g.scalar()
	case 1:
		return g.reduced()
	case 2:
		n := new(big.Int).Mul(order, big.NewInt(int64(g.Intn(17))))
		n.Add(n, big.NewInt(int64(g.Intn(5)-2)))
		if n.Sign() < 0 {
			n = big.NewInt(0)
		}
		return le(n, 32)
	}
	return g.blob(32)
}
