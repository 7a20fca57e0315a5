package main

import (
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
)

type keySession struct {
	keys map[int]bip32.XPrv
	slab []byte
	buf  []byte // what the caller passes messages in, always the same
}

func newKeySession() *keySession {
	return &keySession{keys: map[int]bip32.XPrv{}, slab: make([]byte, 0, 1<<14), buf: make([]byte, 0, 1<<15)}
}

func (s *keySession) put(b []byte) []byte {
	s.buf = append(s.buf[:0], b...)
	return s.buf
}

func (s *keySession) step(op, ev M) {
	key := s.keys[0]
	if op["src"] != nil {
		key = s.keys[in(op, "src")]
	}
	var out []byte
	var err error
	r := "ok"
	switch st(op, "op") {
	case "icarus":
		e, p := by(op, "entropy"), by(op, "pw")
		r = guard(func() { out = bip32.FromBip39Entropy(e, p) })
		ev["entropy2"], ev["pw2"] = Bs(e), Bs(p)
	case "seed":
		e := s.put(by(op, "seed"))
		r = guard(func() { out, err = bip32.NewXPrv(e) })
		ev["seed2"] = Bs(append([]byte{}, e...))
	case "norm":
		r = guard(func() { out = bip32.NormalizeBytesForce3rd(by(op, "k")) })
	case "raw":
		out = by(op, "k")
		if old := s.keys[in(op, "dst")]; op["inplace"] != nil && len(old) == len(out) { // the caller uses its slice for another key
			copy(old, out)
			out = old
		} else { // the keys lie one after the other, as in a wallet's file
			n := len(s.slab)
			s.slab = append(s.slab, out...)
			out = s.slab[n:]
		}
	case "derive":
		r = guard(func() { out = key.Derive(uint32(u64(op["idx"]))) })
	case "pub":
		ev["pk"], ev["pcc"], ev["kcc"], ev["hash"], ev["mpk"] = Bs{}, Bs{}, Bs{}, Bs{}, Bs{}
		r = guard(func() {
			x := key.Public()
			pk := x.PublicKey()
			h := pk.Hash()
			mpk := bip32.MakePublicKey(key)
			out = x
			ev["pk"], ev["pcc"], ev["kcc"] = Bs(pk), Bs(x.ChainCode()), Bs(append([]byte{}, key.ChainCode()...))
			ev["hash"], ev["mpk"] = Bs(h[:]), Bs(mpk[:])
		})
	case "sign":
		msg := s.put(by(op, "msg"))
		ev["again"] = Bs{}
		r = guard(func() {
			sig := key.Sign(msg)
			sig2 := key.Sign(msg)
			out = sig[:]
			ev["again"] = Bs(sig2[:])
		})
		ev["msg2"] = Bs(append([]byte{}, msg...))
	case "hash224", "hash256":
		d := s.put(by(op, "data"))
		r = guard(func() {
			if st(op, "op") == "hash224" {
				h := crypto.Blake2b224(d)
				out = h[:]
			} else {
				h := crypto.Blake2b256(d)
				out = h[:]
			}
		})
		ev["data2"] = Bs(append([]byte{}, d...))
	case "typed":
		d := s.put(by(op, "data"))
		r = guard(func() { out, err = typedHash(st(op, "typ"), d) })
		ev["data2"] = Bs(append([]byte{}, d...))
	case "pkhash":
		r = guard(func() { h := bip32.PublicKey(by(op, "data")).Hash(); out = h[:] })
	case "scrib": // the caller overwrites a key it derived, and uses it no more
		scribble(key)
		delete(s.keys, in(op, "src"))
	}
	if r == "ok" {
		r = errs(err)
	}
	ev["r"], ev["out"] = r, Bs(append([]byte{}, out...))
	if op["dst"] != nil {
		if r == "ok" {
			s.keys[in(op, "dst")] = out
		} else {
			delete(s.keys, in(op, "dst"))
		}
	}
	if op["all"] != nil {
		all := []M{}
		for i := 1; i <= in(op, "all"); i++ {
			if k, ok := s.keys[i]; ok {
				all = append(all, M{"i": i, "k": Bs(append([]byte{}, k...))})
			}
		}
		ev["slots"] = all
	}
}

func typedHash(typ string, d []byte) (out []byte, err error) {
	switch typ {
	case "Ed25519KeyHash":
		h, e := crypto.Ed25519KeyHashFromBytes(d)
		return h[:], e
	case "ScriptHash":
		h, e := crypto.ScriptHashFromBytes(d)
		return h[:], e
	case "TransactionHash":
		h, e := crypto.TransactionHashFromBytes(d)
		return h[:], e
	case "GenesisDelegateHash":
		h, e := crypto.GenesisDelegateHashFromBytes(d)
		return h[:], e
	case "GenesisHash":
		h, e := crypto.GenesisHashFromBytes(d)
		return h[:], e
	case "MetadataHash":
		h, e := crypto.MetadataHashFromBytes(d)
		return h[:], e
	case "VRFKeyHash":
		h, e := crypto.VRFKeyHashFromBytes(d)
		return h[:], e
	case "BlockHash":
		h, e := crypto.BlockHashFromBytes(d)
		return h[:], e
	case "VRFVKey":
		h, e := crypto.VRFVKeyFromBytes(d)
		return h[:], e
	case "KESVKey":
		h, e := crypto.KESVKeyFromBytes(d)
		return h[:], e
	}
	panic("driver: unknown typed hash")
}

// ---- curve arithmetic: every op is a pure function of its byte arguments

type edSession struct{}

func a32(b []byte) *[32]byte { var a [32]byte; copy(a[:], b); return &a }
func a64(b []byte) *[64]byte { var a [64]byte; copy(a[:], b); return &a }

func fe(b []byte) *edwards25519.FieldElement {
	var f edwards25519.FieldElement
	edwards25519.FeFromBytes(&f, a32(b))
	return &f
}

func feOut(f *edwards25519.FieldElement) []byte {
	var o [32]byte
	edwards25519.FeToBytes(&o, f)
	return o[:]
}

func (s *edSession) step(op, ev M) {
	var out []byte
	ok := true
	x, y, z := by(op, "x"), by(op, "y"), by(op, "z")
	ev["r"] = guard(func() {
		switch st(op, "op") {
		case "mulbase":
			var h edwards25519.ExtendedGroupElement
			var o [32]byte
			edwards25519.GeScalarMultBase(&h, a32(x))
			h.ToBytes(&o)
			out = o[:]
		case "dsm": // x*A + y*B, A decoded from z
			var A edwards25519.ExtendedGroupElement
			if ok = A.FromBytes(a32(z)); ok {
				var p edwards25519.ProjectiveGroupElement
				var o [32]byte
				edwards25519.GeDoubleScalarMultVartime(&p, a32(x), &A, a32(y))
				p.ToBytes(&o)
				out = o[:]
			}
		case "point": // decompress, compress
			var A edwards25519.ExtendedGroupElement
			if ok = A.FromBytes(a32(x)); ok {
				var o [32]byte
				A.ToBytes(&o)
				out = o[:]
			}
		case "double": // 2*A through each of the doubling and conversion paths
			var A edwards25519.ExtendedGroupElement
			if ok = A.FromBytes(a32(x)); ok {
				var c edwards25519.CompletedGroupElement
				var p edwards25519.ProjectiveGroupElement
				var e edwards25519.ExtendedGroupElement
				var o [32]byte
				A.Double(&c)
				c.ToExtended(&e)
				e.ToBytes(&o)
				out = append(out, o[:]...)
				A.ToProjective(&p)
				p.Double(&c)
				c.ToProjective(&p)
				p.ToBytes(&o)
				out = append(out, o[:]...)
				e.Double(&c) // 4*A
				c.ToExtended(&e)
				e.ToBytes(&o)
				out = append(out, o[:]...)
			}
		case "fe": // decode, encode
			out = feOut(fe(x))
		case "feadd", "fesub", "femul":
			var r edwards25519.FieldElement
			switch st(op, "op") {
			case "feadd":
				edwards25519.FeAdd(&r, fe(x), fe(y))
			case "fesub":
				edwards25519.FeSub(&r, fe(x), fe(y))
			case "femul":
				edwards25519.FeMul(&r, fe(x), fe(y))
			}
			out = feOut(&r)
		case "femix": // (x+y)*(x-y), the unreduced operands the group law uses
			var s, d, r edwards25519.FieldElement
			edwards25519.FeAdd(&s, fe(x), fe(y))
			edwards25519.FeSub(&d, fe(x), fe(y))
			edwards25519.FeMul(&r, &s, &d)
			out = feOut(&r)
		case "fesq":
			var r edwards25519.FieldElement
			edwards25519.FeSquare(&r, fe(x))
			out = feOut(&r)
		case "fesqs": // (x+y)^2 and 2(x-y)^2
			var s, r edwards25519.FieldElement
			edwards25519.FeAdd(&s, fe(x), fe(y))
			edwards25519.FeSquare(&r, &s)
			out = feOut(&r)
			edwards25519.FeSub(&s, fe(x), fe(y))
			edwards25519.FeSquare2(&r, &s)
			out = append(out, feOut(&r)...)
		case "fesq2":
			var r edwards25519.FieldElement
			edwards25519.FeSquare2(&r, fe(x))
			out = feOut(&r)
		case "feinv":
			var r edwards25519.FieldElement
			edwards25519.FeInvert(&r, fe(x))
			out = feOut(&r)
		case "feneg":
			var r edwards25519.FieldElement
			edwards25519.FeNeg(&r, fe(x))
			out = feOut(&r)
		case "feflags":
			out = []byte{edwards25519.FeIsNegative(fe(x)), byte(edwards25519.FeIsNonZero(fe(x)))}
		case "fecmove": // x, replaced by y if z[0] = 1
			r := fe(x)
			edwards25519.FeCMove(r, fe(y), int32(z[0]))
			out = feOut(r)
		case "screduce":
			var o [32]byte
			edwards25519.ScReduce(&o, a64(x))
			out = o[:]
		case "scmuladd":
			var o [32]byte
			edwards25519.ScMulAdd(&o, a32(x), a32(y), a32(z))
			out = o[:]
		case "scminimal":
			ok = edwards25519.ScMinimal(a32(x))
		default:
			panic("driver: unknown op")
		}
	})
	ev["out"], ev["ok"] = Bs(out), ok
}
