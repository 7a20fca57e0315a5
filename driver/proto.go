package main

import (
	"io/ioutil"
	"os"
	"path/filepath"

	"github.com/fivebinaries/go-cardano-serialization/protocol"
)

type protoSession struct{ dir string }

func newProtoSession() *protoSession {
	dir, err := ioutil.TempDir("", "verif-proto-")
	if err != nil {
		panic(err)
	}
	return &protoSession{dir: dir}
}

func (s *protoSession) close() { os.RemoveAll(s.dir) }

func protoM(p *protocol.Protocol) M {
	if p == nil {
		p = &protocol.Protocol{}
	}
	return M{"per": N(uint64(p.TxFeePerByte)), "fix": N(uint64(p.TxFeeFixed)), "max": N(uint64(p.MaxTxSize)),
		"maj": N(uint64(p.ProtocolVersion.Major)), "min": N(uint64(p.ProtocolVersion.Minor)), "utxo": N(uint64(p.MinUTXOValue))}
}

// load: the file holds text; how says missing, dir, or file
func (s *protoSession) step(op, ev M) {
	path := filepath.Join(s.dir, "p.json")
	switch st(op, "how") {
	case "missing":
		path = filepath.Join(s.dir, "none.json")
	case "dir":
		path = s.dir
	default:
		if err := ioutil.WriteFile(path, by(op, "text"), 0644); err != nil {
			panic(err)
		}
	}
	var p *protocol.Protocol
	var err error
	r := guard(func() { p, err = protocol.LoadProtocol(path) })
	if r == "ok" {
		r = errs(err)
	}
	ev["r"], ev["out"] = r, protoM(p)

}
