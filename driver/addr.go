package main

import (
	"bytes"
	"encoding/hex"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
)

// An address is described as in spec/Address.tla; credentials are [script, hash].
func netOf(id int) *network.NetworkInfo {
	if id == 1 {
		return network.MainNet()
	}
	return network.TestNet()
}

func credOf(v interface{}) *address.StakeCredential {
	c := list(v)
	if num(c[0]) == 1 {
		return address.NewScriptStakeCredential(raw(c[1]))
	}
	return address.NewKeyStakeCredential(raw(c[1]))
}

// nm: the magic of a network that is neither mainnet nor the testnet
func mkAddr(d M, nm ...interface{}) address.Address {
	net := netOf(in(d, "net"))
	if len(nm) > 0 {
		net.ProtocolMagic = uint32(u64(nm[0]))
	}
	switch st(d, "kind") {
	case "base":
		return address.NewBaseAddress(net, credOf(d["pay"]), credOf(d["stake"]))
	case "ent":
		return address.NewEnterpriseAddress(net, credOf(d["pay"]))
	case "rew":
		return address.NewRewardAddress(net, credOf(d["stake"]))
	case "ptr":
		p := list(d["ptr"])
		return address.NewPointerAddress(*net, *credOf(d["pay"]), *address.NewPointer(u64(p[0]), u64(p[1]), u64(p[2])))
	case "byron":
		a := &address.ByronAddress{Hash: by(d, "root")}
		if pl := by(d, "pl"); len(pl) > 0 {
			a.Attributes.Payload = pl
		}
		if mg := list(d["mg"]); len(mg) > 0 {
			n := uint32(u64(mg[0]))
			a.Attributes.Network = &n
		}
		return a
	}
	panic("driver: unknown address kind")
}

func noAddr() M {
	return M{"kind": "none", "net": 0, "pay": Bs{}, "stake": Bs{}, "ptr": Bs{}, "root": Bs{}, "pl": Bs{}, "mg": Bs{}}
}

func credM(c address.StakeCredential) []interface{} {
	return []interface{}{int(c.Kind), append(Bs{}, c.Payload...)}
}

// projAddr is the abstract content of an address, as exposed by its fields.
func projAddr(a address.Address) M {
	o := noAddr()
	switch x := a.(type) {
	case *address.BaseAddress:
		o["kind"], o["pay"], o["stake"] = "base", credM(x.Payment), credM(x.Stake)
	case *address.EnterpriseAddress:
		o["kind"], o["pay"] = "ent", credM(x.Payment)
	case *address.RewardAddress:
		o["kind"], o["stake"] = "rew", credM(x.Stake)
	case *address.PointerAddress:
		o["kind"], o["pay"] = "ptr", credM(x.Payment)
		o["ptr"] = []interface{}{N(x.Stake.Slot), N(x.Stake.TxIndex), N(x.Stake.CertIndex)}
	case *address.ByronAddress:
		o["kind"], o["root"], o["pl"] = "byron", append(Bs{}, x.Hash...), append(Bs{}, x.Attributes.Payload...)
		if x.Attributes.Network != nil {
			o["mg"] = []interface{}{N(uint64(*x.Attributes.Network))}
		}
	}
	if ni := a.NetworkInfo(); ni != nil {
		o["net"] = int(ni.NetworkId)
	} else {
		o["net"] = 99
	}
	return o
}

func isNilAddr(a address.Address) bool {
	switch x := a.(type) {
	case nil:
		return true
	case *address.BaseAddress:
		return x == nil
	case *address.EnterpriseAddress:
		return x == nil
	case *address.RewardAddress:
		return x == nil
	case *address.PointerAddress:
		return x == nil
	case *address.ByronAddress:
		return x == nil
	}
	return false
}

// observe reads everything an address shows.
func observe(a address.Address) M {
	o := M{"a": noAddr(), "pm": Bs{}, "bytes": Bs{}, "text": Bs{}, "cbor": Bs{}, "cr": "none"}
	o["r"] = guard(func() {
		if isNilAddr(a) {
			o["cr"] = "nil"
			return
		}
		m := M{"a": projAddr(a)}
		if ni := a.NetworkInfo(); ni != nil {
			m["pm"] = N(uint64(ni.ProtocolMagic))
		}
		m["bytes"] = Bs(a.Bytes())
		m["text"] = Bs(a.String())
		c, err := a.MarshalCBOR()
		m["cbor"], m["cr"] = Bs(c), errs(err)
		for k, v := range m {
			o[k] = v
		}
	})
	return o
}

// mutate damages a text.
func mutate(t []byte, m M) []byte {
	if len(t) == 0 {
		return t
	}
	p := 0
	if m["p"] != nil {
		p = in(m, "p") % len(t)
	}
	switch st(m, "k") {
	case "sub":
		t[p] = byte(in(m, "c"))
	case "del":
		t = append(t[:p], t[p+1:]...)
	case "ins":
		t = append(t[:p], append([]byte{byte(in(m, "c"))}, t[p:]...)...)
	case "upper":
		t = bytes.ToUpper(t)
	case "upper1":
		for k := 0; k < len(t); k++ {
			if q := (p + k) % len(t); t[q] >= 'a' && t[q] <= 'z' {
				t[q] -= 32
				break
			}
		}
	case "swap":
		q := (p + 1) % len(t)
		t[p], t[q] = t[q], t[p]
	case "dup":
		t = append(t[:p], append([]byte{t[p]}, t[p:]...)...)
	case "space":
		t = append([]byte(" "), t...)
	case "nl":
		t = append(t, '\n')
	case "trunc":
		t = t[:p]
	}
	return t
}

type slot struct {
	again func() address.Address // another one like it
	a     address.Address
	in    []byte              // the buffer it was decoded from
	out   map[string][][]byte // the buffers it handed out and the caller keeps
}

type addrSession struct{ slots map[int]*slot }

func newAddrSession() *addrSession { return &addrSession{slots: map[int]*slot{}} }

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func (s *addrSession) step(op, ev M) {
	switch st(op, "op") {
	case "mk":
		var a address.Address
		ev["r"] = guard(func() { a = mkAddr(obj(op["a"]), list(op["nm"])...) })
		ev["o"] = observe(a)
		s.slots[in(op, "dst")] = &slot{a: a, again: func() address.Address { return mkAddr(obj(op["a"]), list(op["nm"])...) }}
	case "dec":
		data := by(op, "data")
		if op["from"] != nil { // what another slot shows, possibly damaged
			data = nil
			if src := s.slots[in(op, "from")]; src != nil && !isNilAddr(src.a) {
				guard(func() {
					switch st(op, "via") {
					case "bytes":
						data = append([]byte{}, src.a.Bytes()...)
					case "hex":
						data = []byte(hex.EncodeToString(src.a.Bytes()))
					case "text":
						data = []byte(src.a.String())
					}
				})
			}
			for _, m := range list(op["muts"]) {
				data = mutate(data, obj(m))
			}
			ev["data"] = Bs(append([]byte{}, data...))
			delete(ev, "muts")
		}
		var a address.Address
		var err error
		r := guard(func() {
			switch st(op, "via") {
			case "bytes":
				a, err = address.NewAddressFromBytes(data)
			case "hex":
				a, err = address.NewAddressFromHex(string(data))
			case "text":
				a, err = address.NewAddress(string(data))
			}
		})
		if r == "ok" {
			r = errs(err)
		}
		ev["r"] = r
		if r == "ok" {
			ev["o"] = observe(a)
			s.slots[in(op, "dst")] = &slot{a: a, in: data}
		} else {
			ev["o"] = observe(nil)
			delete(s.slots, in(op, "dst"))
		}
	case "toent", "torew":
		var a address.Address
		ev["r"] = "skip"
		if src := s.slots[in(op, "src")]; src != nil {
			if b, ok := src.a.(*address.BaseAddress); ok && b != nil {
				ev["r"] = guard(func() {
					if st(op, "op") == "toent" {
						a = b.ToEnterprise()
					} else {
						a = b.ToReward()
					}
				})
				s.slots[in(op, "dst")] = &slot{a: a}
			}
		}
		ev["o"] = observe(a)
	case "scrib": // overwrite a buffer given to or got from the address
		ev["r"] = "skip"
		if src := s.slots[in(op, "src")]; src != nil && !isNilAddr(src.a) {
			ev["r"] = guard(func() {
				for _, b := range src.out[st(op, "what")] {
					scribble(b)
				}
				switch st(op, "what") {
				case "in":
					scribble(src.in)
				case "bytes":
					if len(src.out["bytes"]) == 0 {
						scribble(src.a.Bytes())
					}
				case "cbor":
					if len(src.out["cbor"]) == 0 {
						c, _ := src.a.MarshalCBOR()
						scribble(c)
					}
				}
			})
		}
	case "wreck": // the caller changes the address itself, and does not use it again
		ev["r"] = "skip"
		if src := s.slots[in(op, "src")]; src != nil && !isNilAddr(src.a) {
			ev["r"] = guard(func() {
				switch a := src.a.(type) {
				case *address.BaseAddress:
					scribble(a.Payment.Payload)
					scribble(a.Stake.Payload)
				case *address.EnterpriseAddress:
					scribble(a.Payment.Payload)
				case *address.PointerAddress:
					scribble(a.Payment.Payload)
					a.Stake = address.StakePointer{Slot: 1, TxIndex: 2, CertIndex: 3}
				case *address.RewardAddress:
					scribble(a.Stake.Payload)
				case *address.ByronAddress:
					scribble(a.Hash)
					scribble(a.Attributes.Payload)
					if a.Attributes.Network != nil {
						*a.Attributes.Network++
					}
				}
			})
		}
		delete(s.slots, in(op, "src"))
	case "read": // and keep what was read
		ev["r"] = "skip"
		if src := s.slots[in(op, "src")]; src != nil && !isNilAddr(src.a) {
			if src.out == nil {
				src.out = map[string][][]byte{}
			}
			ev["r"] = guard(func() {
				w := st(op, "what")
				if w == "bytes" {
					src.out[w] = append(src.out[w], src.a.Bytes())
				} else {
					c, _ := src.a.MarshalCBOR()
					src.out[w] = append(src.out[w], c)
				}
			})
		}
	case "obs":
		ev["r"] = "skip"
		if src := s.slots[in(op, "src")]; src != nil {
			ev["r"] = "ok"
			ev["o"] = observe(src.a)
		} else {
			ev["o"] = observe(nil)
		}
	case "venc":
		ev["r"] = guard(func() { ev["out"] = Bs(address.VariableNatEncode(u64(op["n"]))) })
		if ev["out"] == nil {
			ev["out"] = Bs{}
		}
	case "vdec":
		var n uint64
		var used int
		var err error
		r := guard(func() { n, used, err = address.VariableNatDecode(by(op, "data")) })
		if r == "ok" {
			r = errs(err)
		}
		ev["r"], ev["n"], ev["used"] = r, N(n), used
	}
	if s.slots != nil && op["all"] != nil { // everything every slot shows now
		all := []M{}
		for i := 1; i <= in(op, "all"); i++ {
			if sl := s.slots[i]; sl != nil {
				all = append(all, M{"i": i, "o": observe(sl.a)})
			}
		}
		ev["slots"] = all
	}
}
