package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"reflect"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// A tx scenario has pools: keys (96 bytes), ins {h (hex text), ix, amt}, addrs, outs {a, amt}, metas.
// Handles are numbered from 1 in order of creation: builders (new), plain transactions
// (newtx) and built transactions (build).
type handle struct {
	b      *tx.TxBuilder
	t      *tx.Tx
	frozen M // what it held when another goroutine took it over
}

func projectH(h *handle) M {
	t := h.t
	if h.b != nil {
		t = h.b.Tx()
	}
	switch {
	case h.frozen != nil:
		return h.frozen
	case t == nil:
		return noTx("none")
	}
	return project(t)
}

type txSession struct {
	keys    []bip32.XPrv
	ins     []*tx.TxInput
	addrs   []address.Address
	outs    []*tx.TxOutput
	metas   []interface{}
	hs      []*handle
	kslices map[string][]bip32.XPrv
	islices map[string][]*tx.TxInput
	oslices map[string][]*tx.TxOutput
	sc      M
}

// kept: the caller's keys, inputs and outputs are as they were made
func (s *txSession) kept() bool {
	for i, k := range list(s.sc["keys"]) {
		if !bytes.Equal(raw(k), s.keys[i]) {
			return false
		}
	}
	for i, v := range list(s.sc["ins"]) {
		o, x := obj(v), s.ins[i]
		h, err := hex.DecodeString(string(by(o, "h")))
		if x.Index != uint16(u64(o["ix"])) || x.Amount != uint(u64(o["amt"])) || err == nil && len(h) == 32 && !bytes.Equal(h, x.TxHash) {
			return false
		}
	}
	for i, v := range list(s.sc["outs"]) {
		o, x := obj(v), s.outs[i]
		if x.Amount != uint(u64(o["amt"])) || x.Address != s.addrs[in(o, "a")-1] {
			return false
		}
	}
	return true
}

func newTxSession(sc M) *txSession {
	s := &txSession{kslices: map[string][]bip32.XPrv{}, islices: map[string][]*tx.TxInput{}, oslices: map[string][]*tx.TxOutput{}}
	slab := make([]byte, 0, 96*len(list(sc["keys"]))+200) // the keys lie one after the other, as in a wallet's file
	for _, k := range list(sc["keys"]) {
		n := len(slab)
		slab = append(slab, raw(k)...)
		s.keys = append(s.keys, slab[n:])
	}
	s.sc = sc
	for _, v := range list(sc["ins"]) {
		i := obj(v)
		s.ins = append(s.ins, tx.NewTxInput(string(by(i, "h")), uint16(u64(i["ix"])), uint(u64(i["amt"]))))
	}
	for _, v := range list(sc["addrs"]) {
		s.addrs = append(s.addrs, mkAddr(obj(v)))
	}
	for _, v := range list(sc["outs"]) {
		o := obj(v)
		s.outs = append(s.outs, tx.NewTxOutput(s.addrs[in(o, "a")-1], uint(u64(o["amt"]))))
	}
	for _, v := range list(sc["metas"]) {
		s.metas = append(s.metas, metaOf(obj(v)))
	}
	return s
}

func isNil(v interface{}) bool {
	if v == nil {
		return true
	}
	k := reflect.ValueOf(v)
	return (k.Kind() == reflect.Map || k.Kind() == reflect.Ptr || k.Kind() == reflect.Slice) && k.IsNil()
}

// metaOf builds the Go value a caller would put into Tx.Metadata.
func metaOf(v M) interface{} {
	switch st(v, "t") {
	case "u":
		n := u64(v["n"])
		switch {
		case st(v, "g") == "uint":
			return uint(n)
		case n < 1<<62 && st(v, "g") == "int":
			return int(n)
		}
		return n
	case "n":
		return -1 - int64(u64(v["n"]))
	case "b":
		return by(v, "b")
	case "s":
		return string(by(v, "b"))
	case "a":
		out := []interface{}{}
		for _, x := range list(v["a"]) {
			out = append(out, metaOf(obj(x)))
		}
		return out
	case "m":
		kv := list(v["kv"])
		switch st(v, "g") {
		case "uint":
			m := map[uint64]interface{}{}
			for _, e := range kv {
				m[u64(obj(obj(e)["k"])["n"])] = metaOf(obj(obj(e)["v"]))
			}
			return m
		case "uintp": // the concrete type used in the library's documentation
			m := map[uint]interface{}{}
			for _, e := range kv {
				m[uint(u64(obj(obj(e)["k"])["n"]))] = metaOf(obj(obj(e)["v"]))
			}
			return m
		case "str":
			m := map[string]interface{}{}
			for _, e := range kv {
				m[string(by(obj(obj(e)["k"]), "b"))] = metaOf(obj(obj(e)["v"]))
			}
			return m
		}
		m := map[interface{}]interface{}{}
		for _, e := range kv {
			m[metaOf(obj(obj(e)["k"]))] = metaOf(obj(obj(e)["v"]))
		}
		return m
	}
	panic("driver: unknown metadata type")
}

// slices handed to the library have room to spare and are handed out again for
// the same request, as a caller might do.
func (s *txSession) keySlice(ids []interface{}) []bip32.XPrv {
	k := fmt.Sprint(ids)
	if _, ok := s.kslices[k]; !ok {
		sl := make([]bip32.XPrv, 0, len(ids)+6)
		for _, i := range ids {
			sl = append(sl, s.keys[num(i)-1])
		}
		s.kslices[k] = sl
	}
	return s.kslices[k]
}

func (s *txSession) inSlice(ids []interface{}) []*tx.TxInput {
	k := fmt.Sprint(ids)
	if _, ok := s.islices[k]; !ok {
		sl := make([]*tx.TxInput, 0, len(ids)+6)
		for _, i := range ids {
			sl = append(sl, s.ins[num(i)-1])
		}
		s.islices[k] = sl
	}
	return s.islices[k]
}

func (s *txSession) outSlice(ids []interface{}) []*tx.TxOutput {
	k := fmt.Sprint(ids)
	if _, ok := s.oslices[k]; !ok {
		sl := make([]*tx.TxOutput, 0, len(ids)+6)
		for _, i := range ids {
			sl = append(sl, s.outs[num(i)-1])
		}
		s.oslices[k] = sl
	}
	return s.oslices[k]
}

func (s *txSession) tx(op M) *tx.Tx {
	h := s.hs[in(op, "h")-1]
	if h.b != nil {
		return h.b.Tx()
	}
	return h.t
}

func noTx(r string) M {
	return M{"r": r, "ins": []M{}, "outs": []M{}, "wits": []M{}, "fee": Bs{}, "ttl": Bs{}, "valid": false, "meta": false}
}

// project lists what a transaction holds.
func project(t *tx.Tx) M {
	o := noTx("panic")
	r := guard(func() {
		ins, outs, wits := []M{}, []M{}, []M{}
		for _, i := range t.Body.Inputs {
			ins = append(ins, M{"h": Bs(append([]byte{}, i.TxHash...)), "ix": N(uint64(i.Index)), "amt": N(uint64(i.Amount))})
		}
		for _, x := range t.Body.Outputs {
			outs = append(outs, M{"a": Bs(x.Address.Bytes()), "amt": N(uint64(x.Amount))})
		}
		if t.Witness != nil {
			for _, w := range t.Witness.Keys {
				wits = append(wits, M{"k": Bs(append([]byte{}, w.VKey...)), "s": Bs(append([]byte{}, w.Signature...))})
			}
		}
		o = M{"ins": ins, "outs": outs, "wits": wits, "fee": N(t.Body.Fee), "ttl": N(uint64(t.Body.TTL)), "valid": t.Valid, "meta": !isNil(t.Metadata)}
	})
	o["r"] = r
	return o
}

func (s *txSession) step(op, ev M) {
	r := "ok"
	var err error
	var out []byte
	name := st(op, "op")
	if op["h"] != nil { // a handle that could not be built
		h := s.hs[in(op, "h")-1]
		builder := name == "sign" || name == "change" || name == "minfee" || name == "build"
		if h.b == nil && (h.t == nil || builder) {
			if name == "build" {
				s.hs = append(s.hs, &handle{})
			}
			name, r = "", "skip"
		}
	}
	switch name {
	case "":
	case "new":
		r = guard(func() {
			b := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: uint(u64(op["per"])), TxFeeFixed: uint(u64(op["fix"])),
				MaxTxSize: 16384, MinUTXOValue: 1000000}, s.keySlice(list(op["ids"])))
			s.hs = append(s.hs, &handle{b: b})
		})
	case "newtx":
		r = guard(func() { s.hs = append(s.hs, &handle{t: tx.NewTx()}) })
	case "sign":
		r = guard(func() { s.hs[in(op, "h")-1].b.Sign(s.keys[in(op, "key")-1]) })
	case "in":
		h := s.hs[in(op, "h")-1]
		sl := s.inSlice(list(op["ids"]))
		r = guard(func() {
			if h.b != nil && st(op, "via") != "tx" {
				h.b.AddInputs(sl...)
			} else {
				err = s.tx(op).AddInputs(sl...)
			}
		})
	case "out":
		h := s.hs[in(op, "h")-1]
		sl := s.outSlice(list(op["ids"]))
		r = guard(func() {
			if h.b != nil && st(op, "via") != "tx" {
				h.b.AddOutputs(sl...)
			} else {
				err = s.tx(op).AddOutputs(sl...)
			}
		})
	case "replin": // the caller puts another input in the place of one
		if b := s.tx(op).Body; in(op, "j") <= len(b.Inputs) {
			b.Inputs[in(op, "j")-1] = s.ins[in(op, "id")-1]
		} else {
			r = "skip"
		}
	case "replout":
		if b := s.tx(op).Body; in(op, "j") <= len(b.Outputs) {
			b.Outputs[in(op, "j")-1] = s.outs[in(op, "id")-1]
		} else {
			r = "skip"
		}
	case "ttl":
		h := s.hs[in(op, "h")-1]
		r = guard(func() {
			if h.b != nil {
				h.b.SetTTL(uint32(u64(op["n"])))
			} else {
				h.t.Body.TTL = uint32(u64(op["n"]))
			}
		})
	case "fee":
		r = guard(func() { s.tx(op).SetFee(uint(u64(op["n"]))) })
	case "meta":
		s.tx(op).Metadata = s.metas[in(op, "m")-1]
	case "delmeta":
		switch st(op, "as") { // none, as a caller's own variable may hold it
		case "map":
			s.tx(op).Metadata = map[uint64]interface{}(nil)
		case "ptr":
			s.tx(op).Metadata = (*map[uint]interface{})(nil)
		case "slice":
			s.tx(op).Metadata = []interface{}(nil)
		default:
			s.tx(op).Metadata = nil
		}
	case "metamut": // the caller changes the map it gave
		if m, ok := s.metas[in(op, "m")-1].(map[uint64]interface{}); ok {
			m[u64(obj(op["k"])["n"])] = metaOf(obj(op["v"]))
		} else {
			r = "skip"
		}
	case "aux":
		r = guard(func() { err = s.tx(op).CalculateAuxiliaryDataHash() })
	case "change":
		r = guard(func() { s.hs[in(op, "h")-1].b.AddChangeIfNeeded(s.addrs[in(op, "a")-1]) })
	case "minfee":
		var n uint
		r = guard(func() { n = s.hs[in(op, "h")-1].b.MinFee() })
		out = N(uint64(n))
	case "build":
		var t tx.Tx
		r = guard(func() { t, err = s.hs[in(op, "h")-1].b.Build() })
		if r == "ok" && err == nil {
			s.hs = append(s.hs, &handle{t: &t})
		} else {
			s.hs = append(s.hs, &handle{})
		}
	case "hash":
		r = guard(func() { h, e := s.tx(op).Hash(); out, err = h[:], e })
	case "bytes":
		r = guard(func() { out, err = s.tx(op).Bytes() })
	case "hex":
		r = guard(func() { h, e := s.tx(op).Hex(); out, err = []byte(h), e })
	case "bodybytes":
		ev["hex"] = Bs{}
		r = guard(func() {
			var h string
			if out, err = s.tx(op).Body.Bytes(); err == nil {
				h, err = s.tx(op).Body.Hex()
			}
			ev["hex"] = Bs(h)
		})
	case "feeq":
		var n uint
		r = guard(func() { n, err = s.tx(op).Fee(fees.NewLinearFee(uint(u64(op["per"])), uint(u64(op["fix"])))) })
		out = N(uint64(n))
	default:
		panic("driver: unknown op " + name)
	}
	if r == "ok" {
		r = errs(err)
	}
	ev["r"], ev["out"] = r, Bs(append([]byte{}, out...))
	if op["lean"] != nil {
		return
	}
	all := []M{}
	for _, h := range s.hs {
		all = append(all, projectH(h))
	}
	ev["st"], ev["kept"] = all, s.kept()
}
