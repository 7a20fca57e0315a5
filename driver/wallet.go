package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"io/ioutil"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
	"golang.org/x/crypto/blake2b"
)

// ---- the ledger of the stand-in backends. It checks what concerns amounts and the existence of inputs;
// the specification judges everything else in what was submitted.

type coin struct {
	H, Ix, Amt, Addr []byte // id, big endian numbers without leading zeros, address bytes
}

type ledger struct {
	Coins    []coin
	Per, Fix []byte
}

type cborReader struct {
	d   []byte
	pos int
	bad bool
}

// head reads a head: major type and argument
func (r *cborReader) head() (int, uint64) {
	if r.bad || r.pos >= len(r.d) {
		r.bad = true
		return -1, 0
	}
	b := r.d[r.pos]
	r.pos++
	n := uint64(b & 31)
	if n < 24 {
		return int(b >> 5), n
	}
	if n > 27 {
		r.bad = true
		return -1, 0
	}
	k := 1 << (n - 24)
	if r.pos+k > len(r.d) {
		r.bad = true
		return -1, 0
	}
	n = 0
	for _, x := range r.d[r.pos : r.pos+k] {
		n = n<<8 | uint64(x)
	}
	r.pos += k
	return int(b >> 5), n
}

func (r *cborReader) want(major int) uint64 {
	m, n := r.head()
	if m != major {
		r.bad = true
		return 0
	}
	return n
}

func (r *cborReader) str() []byte {
	n := r.want(2)
	if r.bad || n > uint64(len(r.d)-r.pos) {
		r.bad = true
		return nil
	}
	r.pos += int(n)
	return r.d[r.pos-int(n) : r.pos]
}

func (r *cborReader) skip() {
	m, n := r.head()
	switch m {
	case 2, 3:
		if n > uint64(len(r.d)-r.pos) {
			r.bad = true
			return
		}
		r.pos += int(n)
	case 4, 5:
		for i := uint64(0); i < n*uint64(m-3) && !r.bad; i++ {
			r.skip()
		}
	case 6:
		r.skip()
	}
}

func (l *ledger) submit(d []byte) (id string, next []coin, ok bool) {
	r := &cborReader{d: d}
	if r.want(4) != 4 {
		return
	}
	start := r.pos
	used := map[int]bool{}
	total, out, fee := new(big.Int), new(big.Int), new(big.Int)
	for i := r.want(5); i > 0 && !r.bad; i-- {
		switch k := r.want(0); k {
		case 0:
			for j := r.want(4); j > 0 && !r.bad; j-- {
				r.want(4)
				h, ix := r.str(), N(r.want(0))
				found := false
				for c, x := range l.Coins {
					if bytes.Equal(x.H, h) && bytes.Equal(x.Ix, ix) && !used[c] {
						used[c], found = true, true
						total.Add(total, new(big.Int).SetBytes(x.Amt))
						break
					}
				}
				if !found {
					return
				}
			}
		case 1:
			for j := r.want(4); j > 0 && !r.bad; j-- {
				r.want(4)
				a, amt := r.str(), r.want(0)
				next = append(next, coin{nil, N(uint64(len(next))), N(amt), append([]byte{}, a...)})
				out.Add(out, new(big.Int).SetUint64(amt))
			}
		case 2:
			fee.SetUint64(r.want(0))
		default:
			r.skip()
		}
	}
	h := blake2b.Sum256(d[start:r.pos])
	least := new(big.Int).Mul(big.NewInt(int64(len(d))), new(big.Int).SetBytes(l.Per))
	least.Add(least, new(big.Int).SetBytes(l.Fix))
	if r.bad || len(used) == 0 || total.Cmp(out.Add(out, fee)) != 0 || fee.Cmp(least) < 0 {
		return
	}
	for i := range next {
		next[i].H = h[:]
	}
	rest := []coin{}
	for c, x := range l.Coins {
		if !used[c] {
			rest = append(rest, x)
		}
	}
	return hex.EncodeToString(h[:]), append(rest, next...), true
}

// held describes the unspent outputs of an address as a utxos operation does
func (l *ledger) held(a []byte) []interface{} {
	set := []interface{}{}
	for i, c := range l.Coins {
		if bytes.Equal(c.Addr, a) {
			set = append(set, M{"h": Bs(c.H), "ix": Bs(c.Ix), "amt": Bs(c.Amt), "assets": 0, "datum": i % 3, "pos": 0})
		}
	}
	return set
}

// ---- the wallet

type walletSession struct {
	*nodeSession
	sc    M
	keys  []bip32.XPrv
	addrs []address.Address
	l     *ledger
}

func newWalletSession(sc M) *walletSession {
	s := &walletSession{nodeSession: newNodeSession(sc), sc: sc, l: &ledger{}}
	path := func(k bip32.XPrv, p []interface{}) bip32.XPrv {
		for _, x := range p {
			b := raw(x)
			k = k.Derive(uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]))
		}
		return k
	}
	s.nodeSession.step(M{"op": "new", "n": 1, "id": sc["id_"], "magic": sc["magic"], "backend": sc["backend"], "path": sc["path"], "pid": sc["pid"]}, M{})
	guard(func() {
		acct := path(bip32.FromBip39Entropy(by(sc, "seed"), nil), list(sc["acct"]))
		cred := func(k bip32.XPrv) *address.StakeCredential {
			h := k.Public().PublicKey().Hash()
			return address.NewKeyStakeCredential(h[:])
		}
		ni := network.TestNet()
		if in(sc, "id_") == 1 {
			ni = network.MainNet()
		}
		for _, a := range list(sc["accts"]) {
			k := path(acct, list(obj(a)["path"]))
			s.keys = append(s.keys, k)
			if st(obj(a), "kind") == "ent" {
				s.addrs = append(s.addrs, address.NewEnterpriseAddress(ni, cred(k)))
			} else {
				s.addrs = append(s.addrs, address.NewBaseAddress(ni, cred(k), cred(path(acct, list(obj(a)["stake"])))))
			}
		}
		for _, a := range list(sc["others"]) {
			x, err := address.NewAddress(mkAddr(obj(a)).String())
			must(err)
			s.addrs = append(s.addrs, x)
		}
	})
	for _, x := range list(sc["init"]) {
		u := obj(x)
		s.l.Coins = append(s.l.Coins, coin{by(u, "h"), by(u, "ix"), by(u, "amt"), s.addrs[in(u, "w")-1].Bytes()})
	}
	return s
}

// pay takes the node's parameters, tip and unspent outputs at the addresses from, spends those
// at the positions sel of what it listed, and submits.
func (s *walletSession) step(op, ev M) {
	n := s.nodes[1]
	if op["op"] == "recv" { // somebody pays the wallet
		s.l.Coins = append(s.l.Coins, coin{by(op, "h"), by(op, "ix"), by(op, "amt"), s.addrs[in(op, "w")-1].Bytes()})
		return
	}
	par := obj(list(s.sc["pars"])[in(op, "par")-1])
	s.l.Per, s.l.Fix = by(par, "per"), by(par, "fix")
	// the backend
	all := M{"op": "wallet", "slot": op["slot"], "epoch": N(uint64(76 + in(op, "par"))), "block": N(3000000)}
	for k, v := range par {
		all[k] = v
	}
	cmd := func(name string) string {
		o := M{}
		for k, v := range all {
			o[k] = v
		}
		o["op"] = name
		return cliOut(o)
	}
	byAddr := M{}
	subs := []M{}
	for _, a := range s.addrs {
		o := M{"op": "utxos", "set": s.l.held(a.Bytes())}
		byAddr[a.String()] = cliOut(o)
		subs = append(subs, M{"op": "utxos", "text": a.String(), "set": o["set"]})
	}
	s.w.mu.Lock()
	s.w.op, s.w.reqs, s.w.gets, s.w.subs, s.w.ledger = all, nil, 0, subs, s.l
	s.w.mu.Unlock()
	calls := filepath.Join(s.w.dir, "calls")
	os.Remove(calls)
	answer := func() {
		b, err := json.Marshal(M{"Out": "", "ByAddr": byAddr, "ByCmd": M{"query protocol-parameters": cmd("params"), "query tip": cmd("tip")}, "Ledger": s.l})
		must(err)
		must(ioutil.WriteFile(filepath.Join(s.w.dir, "answer"), b, 0644))
	}
	answer()
	os.Setenv("TMPDIR", s.tmp)
	defer os.Unsetenv("TMPDIR")

	stage, r, id := "params", "ok", ""
	ev["params"], ev["tip"], ev["lists"], ev["keys"] = protoM(nil), Bs{}, []interface{}{}, []int{}
	var err error
	r = guard(func() { id, stage, err = s.pay(n, op, ev, answer) })
	if r == "ok" {
		r = errs(err)
	}
	if stage == "" { // it did not return
		stage = "panic"
	}
	ev["r"], ev["stage"], ev["txid"] = r, stage, chars(strings.TrimSpace(id))
	got := []Bs{}
	s.w.mu.Lock()
	for _, q := range s.w.reqs {
		if q["method"] == "POST" {
			got = append(got, q["body"].(Bs))
		}
	}
	s.w.ledger, s.w.subs = nil, nil
	s.w.mu.Unlock()
	if b, err := ioutil.ReadFile(calls); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var m M
			must(json.Unmarshal([]byte(l), &m))
			if st(m, "file") != "none" {
				got = append(got, by(m, "cbor"))
			}
		}
	}
	ev["got"], ev["accepted"] = got, false
	for _, d := range got {
		if _, next, ok := s.l.submit(d); ok {
			ev["accepted"], s.l.Coins = true, next
		}
	}
	left, _ := ioutil.ReadDir(s.tmp)
	here, _ := ioutil.ReadDir(".")
	ev["left"] = len(left) + len(here)
}

func (s *walletSession) pay(n node.Node, op, ev M, answer func()) (id, stage string, err error) {
	pp, err := n.ProtocolParameters()
	if err != nil {
		return "", "params", err
	}
	ev["params"] = protoM(&pp)
	tip, err := n.QueryTip()
	if err != nil {
		return "", "tip", err
	}
	ev["tip"] = N(uint64(tip.Slot))
	lists, coins, keys := []interface{}{}, []tx.TxInput{}, []int{}
	for _, j := range list(op["from"]) {
		us, err := n.UTXOs(s.addrs[num(j)-1])
		if err != nil {
			return "", "utxos", err
		}
		l := []M{}
		for _, x := range us {
			l = append(l, M{"h": Bs(x.TxHash), "ix": N(uint64(x.Index)), "amt": N(uint64(x.Amount))})
			coins, keys = append(coins, x), append(keys, num(j))
		}
		lists = append(lists, l)
	}
	ev["lists"] = lists
	ins, used, ks := []*tx.TxInput{}, []int{}, []bip32.XPrv{}
	if len(coins) == 0 {
		return "", "skip", nil
	}
	sel, have, signs := []int{}, map[int]bool{}, map[int]bool{}
	for _, x := range list(op["sel"]) {
		p := (num(x) - 1) % len(coins)
		if have[p] {
			continue
		}
		have[p] = true
		sel = append(sel, p+1)
		ins = append(ins, &coins[p])
		if !signs[keys[p]] {
			signs[keys[p]] = true
			used = append(used, keys[p])
			ks = append(ks, s.keys[keys[p]-1])
		}
	}
	ev["keys"], ev["sel"] = used, sel
	b := tx.NewTxBuilder(pp, ks)
	b.AddInputs(ins...)
	for _, o := range list(op["outs"]) {
		b.AddOutputs(tx.NewTxOutput(s.addrs[in(obj(o), "a")-1], uint(u64(obj(o)["amt"]))))
	}
	b.SetTTL(uint32(tip.Slot) + uint32(u64(op["ttl"])))
	if m := in(op, "meta"); m > 0 {
		b.Tx().Metadata = metaOf(obj(list(s.sc["metas"])[m-1]))
	}
	b.AddChangeIfNeeded(s.addrs[in(op, "chg")-1])
	t, err := b.Build()
	if err != nil {
		return "", "build", err
	}
	if in(op, "late") == 1 { // somebody else spends the first input before
		x := coins[sel[0]-1]
		for j, c := range s.l.Coins {
			if bytes.Equal(c.H, x.TxHash) && bytes.Equal(c.Ix, N(uint64(x.Index))) {
				s.w.mu.Lock()
				s.l.Coins = append(append([]coin{}, s.l.Coins[:j]...), s.l.Coins[j+1:]...)
				s.w.mu.Unlock()
				break
			}
		}
		answer()
	}
	id, err = n.SubmitTx(t)
	if err != nil {
		return id, "submit", err
	}
	return id, "done", nil
}
