From 17fb86e598275562b89657e22521773b297de0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:01 +0000
Subject: [PATCH 01/30] fix: encode reward addresses to CBOR

RewardAddress.MarshalCBOR handed the method value r.Bytes to the encoder,
so every transaction with a reward address output failed to serialize.
---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From 2b9ede354cf45ff1059f8223684e4f718be7ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:03 +0000
Subject: [PATCH 02/30] fix: print pointer addresses

PointerAddress.String passed 8-bit data to btcutil's bech32 encoder, which
expects 5-bit groups, and dropped its error, so the text was always empty.
Use the internal encoder like the other address kinds, and choose the prefix
by network id like them.
---
 address/pointer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From 0e802b2292232063074c3fbcca5ffae5c128c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 03/30] fix: reject variable length numbers that overflow 64
 bits

VariableNatDecode silently dropped the high bits of over-long numbers.
---
 address/pointer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..c0fa69a 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -2,6 +2,7 @@ package address
 
 import (
 	"errors"
+	"math"
 	"reflect"
 
 	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
@@ -39,6 +40,9 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if output > math.MaxUint64>>7 {
+			return 0, 0, errors.New("variable length number overflows 64 bits")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From b8da9a1a86f72921287de8f045ce14e63d8b3fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:05 +0000
Subject: [PATCH 04/30] fix: check the length of empty and base addresses when
 decoding

Empty input and short base addresses panicked; trailing bytes after a base
address were silently dropped.
---
 address/address.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..5a0053a 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,9 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, errors.New("cbor not enough error")
+	}
 	header := data[0]
 	netId := header & 0x0F
 
@@ -80,6 +83,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From e149b8cb82768fa76db8245fb4f161b7cd0a1607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:07 +0000
Subject: [PATCH 05/30] fix: reject Shelley addresses of unknown networks

A network id other than mainnet's or testnet's decoded as the zero
NetworkInfo, that is as testnet, and so re-encoded to a different address.
---
 address/address.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 5a0053a..2370fbe 100644
--- a/address/address.go
+++ b/address/address.go
@@ -66,7 +66,12 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
-	switch (header & 0xF0) >> 4 {
+	kind := (header & 0xF0) >> 4
+	if _, ok := networks[netId]; !ok && kind != 0b1000 {
+		return nil, ErrUnsupportedAddress
+	}
+
+	switch kind {
 	// 1000: byron address
 	case 0b1000:
 		var byron ByronAddress
-- 
2.43.0


From 18f7e8f03838b98bb0631ff562eae156ca5e2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:08 +0000
Subject: [PATCH 06/30] fix: decoded addresses do not alias the input buffer

The credentials were slices of the caller's buffer, so reusing the buffer
for the next address silently changed the addresses decoded before.
---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 2370fbe..6391013 100644
--- a/address/address.go
+++ b/address/address.go
@@ -168,7 +168,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 }
 
 func readAddrCred(data []byte, header byte, bit byte, pos int) *StakeCredential {
-	hashBytes := data[pos : pos+28]
+	hashBytes := append([]byte(nil), data[pos:pos+28]...)
 
 	if header&(1<<bit) == 0 {
 		return NewKeyStakeCredential(
-- 
2.43.0


From 908fe90a199aebdcc59ba291893c9ddc40efb7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:35 +0000
Subject: [PATCH 07/30] fix: decode Byron addresses that carry a network magic

The network attribute is a byte string holding the CBOR encoded 32 bit
protocol magic. It was read as a bare 8 bit integer, so every Byron testnet
address was refused, and an address made with the attribute was not one the
ledger accepts.
---
 address/byron.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/address/byron.go b/address/byron.go
index a315579..0ebd6d7 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -15,8 +15,43 @@ var (
 )
 
 type ByronAddressAttributes struct {
+	Payload []byte
+	Network *uint32
+}
+
+// rawByronAttributes is the encoded form of the attributes. The network magic is
+// wrapped in a byte string.
+type rawByronAttributes struct {
 	Payload []byte `cbor:"1,keyasint,omitempty"`
-	Network *uint8 `cbor:"2,keyasint,omitempty"`
+	Network []byte `cbor:"2,keyasint,omitempty"`
+}
+
+// MarshalCBOR returns a cbor encoded byte slice of the attributes.
+func (a ByronAddressAttributes) MarshalCBOR() (bytes []byte, err error) {
+	raw := rawByronAttributes{Payload: a.Payload}
+	if a.Network != nil {
+		if raw.Network, err = cbor.Marshal(*a.Network); err != nil {
+			return nil, err
+		}
+	}
+	return cbor.Marshal(raw)
+}
+
+// UnmarshalCBOR deserializes the attributes of a byron address.
+func (a *ByronAddressAttributes) UnmarshalCBOR(data []byte) error {
+	var raw rawByronAttributes
+	if err := cbor.Unmarshal(data, &raw); err != nil {
+		return err
+	}
+	attrs := ByronAddressAttributes{Payload: raw.Payload}
+	if raw.Network != nil {
+		attrs.Network = new(uint32)
+		if err := cbor.Unmarshal(raw.Network, attrs.Network); err != nil {
+			return err
+		}
+	}
+	*a = attrs
+	return nil
 }
 
 type ByronAddress struct {
-- 
2.43.0


From 4ceb255e9e018c54daa6f0e1402e3b3ecf8ecd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 08/30] fix: refuse addresses that would not re-encode to the
 same bytes

Byron attributes other than the known ones, non canonical Byron cbor and
padded pointer numbers were dropped on decoding, so the address used in a
transaction was not the one that had been given.
---
 address/address.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/address/address.go b/address/address.go
index 6391013..6cce307 100644
--- a/address/address.go
+++ b/address/address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"log"
@@ -80,6 +81,10 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 			log.Println(err)
 			return &byron, err
 		}
+		// unknown attributes and non canonical cbor are not kept
+		if !bytes.Equal(byron.Bytes(), data) {
+			return nil, ErrInvalidByronAddress
+		}
 
 		return &byron, nil
 
@@ -133,6 +138,9 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		}
 
 		res := NewPointerAddress(networks[netId], *paymentCred, *NewPointer(slot, txIndex, certIndex))
+		if !bytes.Equal(res.Bytes(), data) {
+			return nil, errors.New("non canonical pointer error")
+		}
 		return res, nil
 
 	// 0110: enterprise address: keyhash28
-- 
2.43.0


From 40ab21add778d39e679e4701d5c94baba3409ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:38 +0000
Subject: [PATCH 09/30] fix: check the prefix of address text against the
 address

The human readable part was ignored: a testnet payload under addr1, a reward
address under addr1, any prefix starting with addr or stake, and base58 text
of a Shelley address were all accepted.
---
 address/address.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 6cce307..6c5faa5 100644
--- a/address/address.go
+++ b/address/address.go
@@ -43,7 +43,16 @@ func NewAddress(raw string) (addr Address, err error) {
 		return
 	}
 
-	return NewAddressFromBytes(data)
+	addr, err = NewAddressFromBytes(data)
+	if err != nil {
+		return
+	}
+	// the prefix (or the lack of one) has to be the one of the address
+	if addr.String() != raw {
+		return nil, ErrUnsupportedAddress
+	}
+
+	return
 }
 
 func NewAddressFromHex(hexAddr string) (addr Address, err error) {
-- 
2.43.0


From 3ca26e723dbc6219f5aff56d6a8c9ca283965c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:04 +0000
Subject: [PATCH 10/30] fix: builders do not share the caller's key slice

Sign appended to the slice given to NewTxBuilder. Two builders made from one
slice with spare capacity overwrote each other's keys.
---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..8b38ee4 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -130,7 +130,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv(nil), xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From 1fea2943736f264acbeb6da67eda776414e2aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 11/30] fix: encode metadata maps deterministically

Go maps were encoded in iteration order. The metadata hash in the body, the
hash that was signed and the metadata sent could all disagree, and every
Bytes call could change the body after signing.
---
 tx/tx.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..93b557b 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,10 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode sorts map keys. Without it metadata held in a Go map encodes differently
+// every time, and its hash in the signed body does not match the metadata sent.
+var encMode, _ = cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +35,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -49,7 +53,7 @@ func (t *Tx) Hash() ([32]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return [32]byte{}, err
 	}
-	txBody, err := cbor.Marshal(t.Body)
+	txBody, err := encMode.Marshal(t.Body)
 	if err != nil {
 		var bt [32]byte
 		return bt, err
@@ -65,7 +69,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := encMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,7 +86,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
-- 
2.43.0


From 96fc86e5a8960a199bcaab9879a5cfe3c1fe32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:07 +0000
Subject: [PATCH 12/30] fix: drop the metadata hash when the metadata is
 removed

The hash of metadata that is no longer part of the transaction stayed in the
body, which the ledger refuses.
---
 tx/tx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index 93b557b..702d8af 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -85,6 +85,9 @@ func (t *Tx) SetFee(fee uint) {
 }
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
+	if t.Metadata == nil && t.Body != nil {
+		t.Body.AuxiliaryDataHash = nil
+	}
 	if t.Metadata != nil {
 		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
-- 
2.43.0


From 09c708b2ac86070c347d78c271cbe1eebd012a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:08 +0000
Subject: [PATCH 13/30] fix: a built transaction does not change with its
 builder

Build returned a copy that shares the body with the builder, so adding to the
builder changed the body of the transaction already signed.
---
 tx/tx_builder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 8b38ee4..601d60a 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -38,7 +38,14 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	return *tb.tx, nil
+	// later changes to the builder must not reach the signed body
+	tx = *tb.tx
+	body := *tb.tx.Body
+	body.Inputs = append(body.Inputs[:0:0], body.Inputs...)
+	body.Outputs = append(body.Outputs[:0:0], body.Outputs...)
+	tx.Body = &body
+
+	return tx, nil
 }
 
 // Tx returns a pointer to the transaction
-- 
2.43.0


From 476c8f3adaefc9f16a660e1ca436d1f63be105ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:42 +0000
Subject: [PATCH 14/30] fix: report malformed input transaction hashes

NewTxInput dropped the hex error, and an empty or partial hash was then
signed and serialized as if it were a transaction id.
---
 tx/tx_input_output.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..5aeb6c4 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -2,8 +2,10 @@ package tx
 
 import (
 	"encoding/hex"
+	"errors"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
+	"github.com/fivebinaries/go-cardano-serialization/crypto"
 	"github.com/fxamacker/cbor/v2"
 )
 
@@ -17,7 +19,11 @@ type TxInput struct {
 
 // NewTxInput creates and returns a *TxInput from Transaction Hash(Hex Encoded), Transaction Index and Amount.
 func NewTxInput(txHash string, txIx uint16, amount uint) *TxInput {
-	hash, _ := hex.DecodeString(txHash)
+	hash, err := hex.DecodeString(txHash)
+	if err != nil {
+		// no part of it is usable, MarshalCBOR reports it
+		hash = nil
+	}
 
 	return &TxInput{
 		TxHash: hash,
@@ -27,6 +33,9 @@ func NewTxInput(txHash string, txIx uint16, amount uint) *TxInput {
 }
 
 func (txI *TxInput) MarshalCBOR() ([]byte, error) {
+	if len(txI.TxHash) != crypto.TransactionHashLen {
+		return nil, errors.New("transaction hash of input is not 32 bytes of hex")
+	}
 	type arrayInput struct {
 		_      struct{} `cbor:",toarray"`
 		TxHash []byte
-- 
2.43.0


From bd3a53a9f8b531de5f5c316690cfadeda6df9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 15/30] fix: compute the fee of the transaction that gets
 signed

The minimum fee was too low for more than one key, for change addresses
longer than a base address, and where the fee or the change crosses an
integer size boundary; the ledger refuses such transactions. Computing it
also added a placeholder witness to the transaction, and it still counted a
change output after the change had been added.
---
 tx/tx_builder.go | 49 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 601d60a..fb5baf4 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -56,7 +56,7 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
+	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
@@ -84,21 +84,32 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 	return
 }
 
-// MinFee calculates the minimum fee for the provided transaction.
+// MinFee calculates the minimum fee for the provided transaction. If its inputs exceed its
+// outputs and fee this includes a change output.
 func (tb TxBuilder) MinFee() (fee uint) {
+	totalI, totalO := tb.getTotalInputOutputs()
+	if totalI <= totalO || uint64(totalI-totalO) <= tb.tx.Body.Fee {
+		return tb.minFee(nil)
+	}
+	changeAddr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+	return tb.minFee(changeAddr)
+}
+
+// minFee calculates the minimum fee of the transaction once it is signed by the supplied keys
+// (by one key if there are none yet), with a change output to changeAddr unless it is nil.
+func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
 			Outputs: tb.tx.Body.Outputs,
-			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(append([]*VKeyWitness(nil), tb.tx.Witness.Keys...)...),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
@@ -107,20 +118,24 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	}
 
 	totalI, totalO := tb.getTotalInputOutputs()
-
-	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
-
+	changeOutput := NewTxOutput(changeAddr, 0)
+	if changeAddr != nil {
+		feeTx.Body.Outputs = append(append([]*TxOutput{}, tb.tx.Body.Outputs...), changeOutput)
 	}
-	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-	// The fee may have increased enough to increase the number of bytes, so do one more pass
-	fee, _ = feeTx.Fee(lfee)
-	feeTx.Body.Fee = uint64(fee)
-	fee, _ = feeTx.Fee(lfee)
 
-	return
+	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
+	// The fee is part of the transaction and may increase the number of bytes, so go on until it suffices
+	for {
+		feeTx.Body.Fee = uint64(fee)
+		if totalI > totalO && totalI-totalO > fee {
+			changeOutput.Amount = totalI - totalO - fee
+		}
+		required, err := feeTx.Fee(lfee)
+		if err != nil || required <= fee {
+			return
+		}
+		fee = required
+	}
 }
 
 // AddInputs adds inputs to the transaction body
-- 
2.43.0


From 286a872d007dffe34dbc47179e369730142dddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:20 +0000
Subject: [PATCH 16/30] fix: adding change conserves value

With inputs that do not exceed outputs and fee the change wrapped around to
an output of about 1.8e19 lovelace. Add no output then, and leave change that
cannot pay for its output to the fee.
---
 tx/tx_builder.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index fb5baf4..4dc10ef 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -55,17 +55,30 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
-	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
-	change := totalI - totalO - uint(tb.tx.Body.Fee)
-	tb.tx.AddOutputs(
-		NewTxOutput(
-			addr,
-			change,
-		),
-	)
+	if totalI > totalO {
+		// change is amount in utxo minus outputs minus fee
+		fee := tb.minFee(addr)
+		if change := totalI - totalO; change > fee {
+			tb.tx.SetFee(fee)
+			tb.tx.AddOutputs(
+				NewTxOutput(
+					addr,
+					change-fee,
+				),
+			)
+			return
+		}
+	}
+
+	// There is no change, or not enough of it to pay for an output of its own:
+	// what there is goes to the fee.
+	fee := tb.minFee(nil)
+	if totalI > totalO && totalI-totalO > fee {
+		fee = totalI - totalO
+	}
+	tb.tx.SetFee(fee)
 }
 
 // SetTTL sets the time to live for the transaction.
-- 
2.43.0


From 24d71d2c45f7208be0723269f2a38b417037c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 17/30] fix: cardano-cli node uses the network it was created
 for

The mainnet and testnet flags were swapped, so a testnet node queried and
submitted to mainnet, and the testnet magic was passed in one argument with
its flag, which cardano-cli does not understand.
---
 node/cardano-cli.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..3b5cda3 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,13 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
 
-	if cli.network.NetworkId == 0 {
-		cmdSuffix = "--mainnet"
+	if cli.network.NetworkId == network.MainNet().NetworkId {
+		args = append(args, "--mainnet")
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		args = append(args, "--testnet-magic", fmt.Sprintf("%d", cli.network.ProtocolMagic))
 	}
 
-	args = append(args, cmdSuffix)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
-- 
2.43.0


From d98fe5a4ca63c1ec455d9a57a07322a91c62987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 18/30] fix: call cardano-cli's utxo and submit commands with
 separate arguments

The commands are 'query utxo' and 'transaction submit', and the address and
the file name are arguments of their own.
---
 node/cardano-cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 3b5cda3..e5cb432 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -53,7 +53,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -131,7 +131,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 794949deef154355c3fdba61e8d6147f648b4ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:52 +0000
Subject: [PATCH 19/30] fix: parse cardano-cli's utxo table

The table was sliced by its length in bytes instead of lines, which panicked
on every answer, and malformed rows panicked or gave wrong outputs.
---
 node/cardano-cli.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index e5cb432..8528f6d 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -11,6 +11,7 @@ import (
 	"strings"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
+	"github.com/fivebinaries/go-cardano-serialization/crypto"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fivebinaries/go-cardano-serialization/protocol"
 	"github.com/fivebinaries/go-cardano-serialization/tx"
@@ -59,24 +60,29 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
 
-	if lenData < 3 {
+	if len(ldata) < 3 {
 		return
 	}
 
-	for _, it := range ldata[2 : lenData-1] {
+	// the first two lines are the header
+	for _, it := range ldata[2:] {
 		sec := strings.Fields(it)
+		if len(sec) == 0 {
+			continue
+		}
+		// txHash txIx amount lovelace [+ other assets]
+		if len(sec) < 4 || sec[3] != "lovelace" {
+			return nil, fmt.Errorf("unexpected utxo: %q", it)
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
-			return txIs, err
+			return nil, err
 		}
 
-		amSec := strings.Fields(sec[2])
-
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(sec[2], 10, 64)
 		if err != nil {
-			return txIs, err
+			return nil, err
 		}
 
 		utxo := *tx.NewTxInput(
@@ -84,6 +90,9 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 			uint16(txIx),
 			uint(amount),
 		)
+		if len(utxo.TxHash) != crypto.TransactionHashLen {
+			return nil, fmt.Errorf("unexpected utxo: %q", it)
+		}
 
 		txIs = append(txIs, utxo)
 	}
-- 
2.43.0


From 95e39215d5060ea1bf3a1cef591bf69146b86873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:53 +0000
Subject: [PATCH 20/30] fix: fetch all pages of UTXOs from blockfrost

Only the first 100 were returned, without any sign that there were more.
---
 node/blockfrost.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..2202c49 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -34,13 +34,21 @@ func (b *blockfrostNode) getNetwork() (serverUrl string) {
 
 // UTXOs queries the network for Unspent Transaction Outputs belonging to an address.
 func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	utxos, err := b.client.AddressUTXOs(
-		context.TODO(),
-		addr.String(),
-		blockfrost.APIQueryParams{},
-	)
-	if err != nil {
-		return
+	const pageSize = 100
+	var utxos []blockfrost.AddressUTXO
+	for page := 1; ; page++ {
+		pageUtxos, err := b.client.AddressUTXOs(
+			context.TODO(),
+			addr.String(),
+			blockfrost.APIQueryParams{Count: pageSize, Page: page},
+		)
+		if err != nil {
+			return nil, err
+		}
+		utxos = append(utxos, pageUtxos...)
+		if len(pageUtxos) < pageSize {
+			break
+		}
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From 36cfdab8e9fa8d01fbc35e200129c695fb5a3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:54 +0000
Subject: [PATCH 21/30] fix: refuse malformed UTXOs from blockfrost

Negative amounts wrapped around, out of range indices were truncated and
malformed transaction hashes were emptied.
---
 node/blockfrost.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 2202c49..4ab9293 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/blockfrost/blockfrost-go"
 	"github.com/fivebinaries/go-cardano-serialization/address"
+	"github.com/fivebinaries/go-cardano-serialization/crypto"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fivebinaries/go-cardano-serialization/protocol"
 	"github.com/fivebinaries/go-cardano-serialization/tx"
@@ -56,7 +57,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
@@ -64,7 +65,11 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
-		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
+		txI := tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount)
+		if len(txI.TxHash) != crypto.TransactionHashLen || int(txI.Index) != utxo.OutputIndex {
+			return nil, fmt.Errorf("unexpected utxo: %s#%d", utxo.TxHash, utxo.OutputIndex)
+		}
+		txIs = append(txIs, *txI)
 	}
 
 	return
-- 
2.43.0


From aa458d77c7436aa558ebf358cdc4a9cf31fb6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:55 +0000
Subject: [PATCH 22/30] fix: return the plain transaction hash from blockfrost
 submissions

The answer is a JSON string and was returned with its quotes; for a refused
transaction the error text was returned as the hash. Also close the body.
---
 node/blockfrost.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 4ab9293..348221d 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"net/http"
 	"strconv"
+	"strings"
 
 	"github.com/blockfrost/blockfrost-go"
 	"github.com/fivebinaries/go-cardano-serialization/address"
@@ -125,16 +126,19 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return
 	}
 
+	defer res.Body.Close()
+
 	resb, err := ioutil.ReadAll(res.Body)
 	if err != nil {
 		return "", err
 	}
 
 	if res.StatusCode != 200 {
-		err = errors.New(string(resb))
+		return "", errors.New(string(resb))
 	}
 
-	return string(resb), err
+	// the hash is a JSON string
+	return strings.Trim(strings.TrimSpace(string(resb)), "\""), nil
 }
 
 // NewBlockfrostClient returns a wrapper for the blockfrost API/SDK with Node interface
-- 
2.43.0


From 74017debb113792ac2e4873c86ee4345b5eaac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:49 +0000
Subject: [PATCH 23/30] fix: encode Byron addresses of outputs as byte strings

---
 tx/tx_input_output.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index 5aeb6c4..81b1522 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -54,6 +54,22 @@ type TxOutput struct {
 	Amount  uint
 }
 
+// MarshalCBOR encodes the output. Its address is a byte string for every kind of address.
+func (txO *TxOutput) MarshalCBOR() ([]byte, error) {
+	if txO.Address == nil {
+		return nil, errors.New("output has no address")
+	}
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	return cbor.Marshal(arrayOutput{
+		Address: txO.Address.Bytes(),
+		Amount:  txO.Amount,
+	})
+}
+
 func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 	return &TxOutput{
 		Address: addr,
-- 
2.43.0


From 83b7f626b0a265830ba5fdc394c640636752c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:50 +0000
Subject: [PATCH 24/30] fix: refuse out of range parameters and tips from
 blockfrost

---
 node/blockfrost.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 348221d..b8bee67 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 	"strings"
@@ -83,10 +84,15 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, 64)
 	if err != nil {
 		return
 	}
+	if params.MinFeeA < 0 || params.MinFeeB < 0 || params.MaxTxSize < 0 ||
+		params.ProtocolMajorVer < 0 || params.ProtocolMajorVer > math.MaxUint8 ||
+		params.ProtocolMinorVer < 0 || params.ProtocolMinorVer > math.MaxUint8 {
+		return p, errors.New("protocol parameter out of range")
+	}
 
 	return protocol.Protocol{
 		TxFeePerByte: uint(params.MinFeeA),
@@ -175,6 +181,10 @@ func (b *blockfrostNode) QueryTip() (nt NetworkTip, err error) {
 		return
 	}
 
+	if block.Slot < 0 || block.Epoch < 0 || block.Height < 0 {
+		return nt, errors.New("network tip out of range")
+	}
+
 	nt = NetworkTip{
 		Slot:  uint(block.Slot),
 		Epoch: uint(block.Epoch),
-- 
2.43.0


From 6fd00d4486e0ad1c3a17c9d325d8be89592a1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:52 +0000
Subject: [PATCH 25/30] fix: a node keeps its network when the caller reuses
 its NetworkInfo

---
 node/blockfrost.go  | 3 ++-
 node/cardano-cli.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index b8bee67..21710c8 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -163,8 +163,9 @@ func NewBlockfrostClient(projectId string, network *network.NetworkInfo) Node {
 		},
 	)
 
+	info := *network
 	return &blockfrostNode{
-		network:   network,
+		network:   &info,
 		client:    client,
 		projectId: projectId,
 	}
diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 8528f6d..e2a181c 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -164,8 +164,9 @@ func NewCardanoCliNode(network *network.NetworkInfo, cliPaths ...string) Node {
 	} else {
 		cliPath = "cardano-cli"
 	}
+	info := *network
 	return &cardanoCli{
 		cliPath: cliPath,
-		network: network,
+		network: &info,
 	}
 }
-- 
2.43.0


From ee113734f17c8674c7720ccfda66471109b294f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:53 +0000
Subject: [PATCH 26/30] fix: report an incomplete cardano-cli utxo table
 instead of returning no outputs

---
 node/cardano-cli.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index e2a181c..d195ee0 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -61,11 +61,11 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 	ldata := strings.Split(string(data), "\n")
 
-	if len(ldata) < 3 {
-		return
+	// the first two lines are the header
+	if len(ldata) < 3 || !strings.HasPrefix(strings.TrimSpace(ldata[0]), "TxHash") {
+		return nil, fmt.Errorf("unexpected utxo table: %q", data)
 	}
 
-	// the first two lines are the header
 	for _, it := range ldata[2:] {
 		sec := strings.Fields(it)
 		if len(sec) == 0 {
-- 
2.43.0


From 654cbb1f06b17f761212ffdc419d1d5818844dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:55 +0000
Subject: [PATCH 27/30] fix: report a Blockfrost utxo without lovelace instead
 of valuing it at zero

---
 node/blockfrost.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 21710c8..b1f66c4 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -56,6 +56,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 
 	for _, utxo := range utxos {
 		var amount uint
+		var found bool
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
@@ -64,11 +65,12 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 					return []tx.TxInput{}, err
 				}
 				amount = uint(amountI)
+				found = true
 			}
 
 		}
 		txI := tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount)
-		if len(txI.TxHash) != crypto.TransactionHashLen || int(txI.Index) != utxo.OutputIndex {
+		if !found || len(txI.TxHash) != crypto.TransactionHashLen || int(txI.Index) != utxo.OutputIndex {
 			return nil, fmt.Errorf("unexpected utxo: %s#%d", utxo.TxHash, utxo.OutputIndex)
 		}
 		txIs = append(txIs, *txI)
-- 
2.43.0


From 8c24e8e20113d5a677c4b092dee8ea7435a5e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:34 +0000
Subject: [PATCH 28/30] fix: metadata that is a nil map or pointer is no
 metadata, so the body carries no hash of it

---
 tx/tx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index 702d8af..65aecf1 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -13,6 +13,9 @@ import (
 // every time, and its hash in the signed body does not match the metadata sent.
 var encMode, _ = cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
 
+// cborNull is how a transaction without metadata encodes it.
+const cborNull = 0xf6
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -93,6 +96,11 @@ func (t *Tx) CalculateAuxiliaryDataHash() error {
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
+		if len(mdBytes) == 1 && mdBytes[0] == cborNull {
+			// a nil map or pointer is no metadata either
+			t.Body.AuxiliaryDataHash = nil
+			return nil
+		}
 		auxHash := blake2b.Sum256(mdBytes)
 		t.Body.AuxiliaryDataHash = auxHash[:]
 	}
-- 
2.43.0


From 41ecfeb5af08ad754ccc6bdc0f659e30d3e207cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:22 +0000
Subject: [PATCH 29/30] fix: a redirected submission is not a success and is
 not sent again

---
 node/blockfrost.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index b1f66c4..d6a39dd 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -128,7 +128,12 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	req.Header.Add("project_id", b.projectId)
 	req.Header.Add("Content-Type", "application/cbor")
 
-	cli := &http.Client{}
+	// a redirect is not followed: wherever it leads the transaction was not accepted here
+	cli := &http.Client{
+		CheckRedirect: func(*http.Request, []*http.Request) error {
+			return http.ErrUseLastResponse
+		},
+	}
 	res, err := cli.Do(req)
 	if err != nil {
 		return
-- 
2.43.0


From 04cbb449cfafd90d40227fb13b229cb3aa5dd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:48 +0000
Subject: [PATCH 30/30] fix: outputs that total more than 64 bits are not
 covered by any inputs

---
 tx/tx_builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 4dc10ef..448043b 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -91,7 +91,10 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 		inputs += inp.Amount
 	}
 	for _, out := range tb.tx.Body.Outputs {
-		outputs += uint(out.Amount)
+		if outputs += uint(out.Amount); outputs < uint(out.Amount) {
+			// the total does not fit: more than any inputs can pay for
+			return inputs, ^uint(0)
+		}
 	}
 
 	return
-- 
2.43.0

