From 73eef3758f5ecabd7f123f9a4c530fd164c6d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:14 +0000
Subject: [PATCH 01/27] fix: reject empty, short and over-long address bytes
 instead of panicking

---
 address/address.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..5a0053a 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,9 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, errors.New("cbor not enough error")
+	}
 	header := data[0]
 	netId := header & 0x0F
 
@@ -80,6 +83,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From f698f917d8356309917cf6e1c816741c7299fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:16 +0000
Subject: [PATCH 02/27] fix: reject Shelley addresses of an unknown network
 instead of mapping them to network 0

---
 address/address.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 5a0053a..f404284 100644
--- a/address/address.go
+++ b/address/address.go
@@ -14,6 +14,7 @@ import (
 
 var (
 	ErrUnsupportedAddress = errors.New("invalid/unsupported address type")
+	ErrUnsupportedNetwork = errors.New("invalid/unsupported network id")
 )
 
 type Address interface {
@@ -66,7 +67,12 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
-	switch (header & 0xF0) >> 4 {
+	kind := (header & 0xF0) >> 4
+	if _, known := networks[netId]; !known && kind != 0b1000 {
+		return nil, ErrUnsupportedNetwork
+	}
+
+	switch kind {
 	// 1000: byron address
 	case 0b1000:
 		var byron ByronAddress
-- 
2.43.0


From 8dd5ea29db0fb4d68655fe70c312fbe5126ca389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:17 +0000
Subject: [PATCH 03/27] fix: encode pointer address text with the 8-to-5 bit
 regrouping Bech32 needs

---
 address/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/pointer.go b/address/pointer.go
index 969a300..a18b459 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -4,7 +4,7 @@ import (
 	"errors"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
-- 
2.43.0


From 3b568691cb72a6a4c9537f7a4bc081c207453f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:18 +0000
Subject: [PATCH 04/27] fix: choose the pointer address prefix by network id
 alone, as for other addresses

---
 address/pointer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/pointer.go b/address/pointer.go
index a18b459..84e249d 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -82,7 +82,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From 1b9026a0316d04db908721706219981579757e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:19 +0000
Subject: [PATCH 05/27] fix: marshal the bytes of a reward address, not the
 method value

---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From 15b1a1790b0a3a7894e53ad9b488aca8d0ba80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:20 +0000
Subject: [PATCH 06/27] fix: reject over-long and non-canonical variable length
 numbers

---
 address/pointer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/address/pointer.go b/address/pointer.go
index 84e249d..1874157 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -2,6 +2,7 @@ package address
 
 import (
 	"errors"
+	"math"
 	"reflect"
 
 	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
@@ -39,6 +40,12 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if bytes_read == 0 && rbyte == 0x80 {
+			return 0, 0, errors.New("non-canonical variable length number")
+		}
+		if output > math.MaxUint64>>7 {
+			return 0, 0, errors.New("variable length number overflows 64 bits")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From 11bf78d88fe21a31b4ce129a2ff994d191203924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:03 +0000
Subject: [PATCH 07/27] fix: serialise transactions deterministically, whatever
 the map iteration order of metadata

---
 tx/tx.go      | 20 ++++++++++++++++----
 tx/tx_body.go |  4 +---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..f6f96c7 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -9,6 +9,18 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// encMode sorts map keys, so that a transaction's metadata always serialises to
+// the same bytes: the ones that were hashed and signed.
+var encMode = newEncMode()
+
+func newEncMode() cbor.EncMode {
+	mode, err := cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+	if err != nil {
+		panic(err)
+	}
+	return mode
+}
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +43,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := encMode.Marshal(t)
 	return bytes, err
 }
 
@@ -49,7 +61,7 @@ func (t *Tx) Hash() ([32]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return [32]byte{}, err
 	}
-	txBody, err := cbor.Marshal(t.Body)
+	txBody, err := encMode.Marshal(t.Body)
 	if err != nil {
 		var bt [32]byte
 		return bt, err
@@ -65,7 +77,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := encMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,7 +94,7 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := encMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
diff --git a/tx/tx_body.go b/tx/tx_body.go
index 6c49db9..ac8263c 100644
--- a/tx/tx_body.go
+++ b/tx/tx_body.go
@@ -2,8 +2,6 @@ package tx
 
 import (
 	"encoding/hex"
-
-	"github.com/fxamacker/cbor/v2"
 )
 
 // TxBody contains the inputs, outputs, fee and titme to live for the transaction.
@@ -25,7 +23,7 @@ func NewTxBody() *TxBody {
 
 // Bytes returns a slice of cbor Marshalled bytes.
 func (b *TxBody) Bytes() ([]byte, error) {
-	bytes, err := cbor.Marshal(b)
+	bytes, err := encMode.Marshal(b)
 	return bytes, err
 }
 
-- 
2.43.0


From 98a11aec99590dde9850d718e85ad0c920d1ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 08/27] fix: drop the metadata hash when the metadata is
 removed

---
 tx/tx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tx/tx.go b/tx/tx.go
index f6f96c7..5d0480f 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -100,6 +100,8 @@ func (t *Tx) CalculateAuxiliaryDataHash() error {
 		}
 		auxHash := blake2b.Sum256(mdBytes)
 		t.Body.AuxiliaryDataHash = auxHash[:]
+	} else {
+		t.Body.AuxiliaryDataHash = nil
 	}
 	return nil
 }
-- 
2.43.0


From e5c6e640694a4045ca09989f9b8435aae2f7837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 09/27] fix: encode the address of an output as a byte string
 for Byron addresses too

---
 tx/tx_input_output.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..92fd164 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -2,6 +2,7 @@ package tx
 
 import (
 	"encoding/hex"
+	"errors"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
 	"github.com/fxamacker/cbor/v2"
@@ -45,6 +46,22 @@ type TxOutput struct {
 	Amount  uint
 }
 
+// MarshalCBOR encodes the output as the array of its address, as one byte string, and its amount.
+func (txO TxOutput) MarshalCBOR() ([]byte, error) {
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	if txO.Address == nil {
+		return nil, errors.New("transaction output without address")
+	}
+	return cbor.Marshal(arrayOutput{
+		Address: txO.Address.Bytes(),
+		Amount:  txO.Amount,
+	})
+}
+
 func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 	return &TxOutput{
 		Address: addr,
-- 
2.43.0


From 1c874e6824c2769b86325028d8a8634e6305ef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:05 +0000
Subject: [PATCH 10/27] fix: keep a private copy of the caller's signing keys
 in the builder

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..d37bb73 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -130,7 +130,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From 2a342b013f3f7330c2ee5ec17b2f07cef1830faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:06 +0000
Subject: [PATCH 11/27] fix: price one witness per signing key without touching
 the builder's witness set

---
 tx/tx_builder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index d37bb73..83b116b 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -86,12 +86,13 @@ func (tb TxBuilder) MinFee() (fee uint) {
 			Fee:     tb.tx.Body.Fee,
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
 	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	// one full-size witness per signing key, and at least one
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
-- 
2.43.0


From 39e879239cdbac8f63bb171696ddc12a2c8912ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:33 +0000
Subject: [PATCH 12/27] fix: price the change output that is really added, at
 its full width

---
 tx/tx_builder.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 83b116b..2dda984 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -49,7 +49,7 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
+	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
@@ -79,6 +79,12 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	changeAddr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+	return tb.minFee(changeAddr)
+}
+
+// minFee calculates the minimum fee for the transaction with its change, if any, sent to changeAddr.
+func (tb TxBuilder) minFee(changeAddr address.Address) (fee uint) {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
@@ -103,10 +109,8 @@ func (tb TxBuilder) MinFee() (fee uint) {
 	totalI, totalO := tb.getTotalInputOutputs()
 
 	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
-
+		// the change before fees is never encoded shorter than the change after fees
+		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(changeAddr, totalI-totalO))
 	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
 	// The fee may have increased enough to increase the number of bytes, so do one more pass
-- 
2.43.0


From f6318371cb0801d59cee4b4e287c0cfe10d0dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:34 +0000
Subject: [PATCH 13/27] fix: add no change output when there is no excess,
 instead of a wrapped-around amount

---
 tx/tx_builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 2dda984..04cc0a4 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -52,6 +52,10 @@ func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	tb.tx.SetFee(tb.minFee(addr))
 	totalI, totalO := tb.getTotalInputOutputs()
 
+	if totalI <= totalO+uint(tb.tx.Body.Fee) {
+		// no excess, nothing to add
+		return
+	}
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
 	tb.tx.AddOutputs(
 		NewTxOutput(
-- 
2.43.0


From 150ffea68d4d848a169df5fa3213a77a99f0a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:29 +0000
Subject: [PATCH 14/27] fix: decode the network attribute of Byron testnet
 addresses, a byte string

---
 address/byron.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/byron.go b/address/byron.go
index a315579..7604960 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -16,7 +16,7 @@ var (
 
 type ByronAddressAttributes struct {
 	Payload []byte `cbor:"1,keyasint,omitempty"`
-	Network *uint8 `cbor:"2,keyasint,omitempty"`
+	Network []byte `cbor:"2,keyasint,omitempty"`
 }
 
 type ByronAddress struct {
@@ -38,7 +38,7 @@ func (b *ByronAddress) String() (str string) {
 
 // NetworkInfo returns NetworkInfo{ProtocolMagigic and NetworkId}.
 func (b *ByronAddress) NetworkInfo() (ni *network.NetworkInfo) {
-	if b.Attributes.Network == nil {
+	if len(b.Attributes.Network) == 0 {
 		return network.MainNet()
 	}
 	return network.TestNet()
-- 
2.43.0


From 2056c4638c28ec51827d9315101ad2c678ccb556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:30 +0000
Subject: [PATCH 15/27] fix: reject Byron addresses that would not encode back
 to the same bytes

---
 address/byron.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/address/byron.go b/address/byron.go
index 7604960..724b5b8 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"errors"
 	"hash/crc32"
 
@@ -95,12 +96,20 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 		return errors.New("")
 	}
 
-	*b = ByronAddress{
+	decoded := ByronAddress{
 		Hash:       byron.Hashed,
 		Attributes: byron.Attrs,
 		Tag:        byron.Tag,
 	}
 
+	// Unknown attributes and other encodings of the same content cannot be
+	// written back, and the bytes of an address are its identity.
+	if !bytes.Equal(decoded.Bytes(), data) {
+		return ErrInvalidByronAddress
+	}
+
+	*b = decoded
+
 	return nil
 }
 
-- 
2.43.0


From 83d9ac632d36492f8e95b7fd2f2f9bc54c2fc3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:31 +0000
Subject: [PATCH 16/27] fix: reject non-ASCII Bech32 texts before case folding
 can turn them into ASCII

---
 internal/bech32/bech32.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/bech32/bech32.go b/internal/bech32/bech32.go
index e294a6e..5ec955e 100644
--- a/internal/bech32/bech32.go
+++ b/internal/bech32/bech32.go
@@ -120,6 +120,11 @@ func Encode(hrp string, data []byte) (string, error) {
 }
 
 func Decode(s string) (hrp string, data []byte, err error) {
+	for p := 0; p < len(s); p++ {
+		if s[p] < 33 || s[p] > 126 {
+			return "", nil, fmt.Errorf("invalid character: s[%d]=%d", p, s[p])
+		}
+	}
 	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
 		return "", nil, fmt.Errorf("mixed case")
 	}
-- 
2.43.0


From f11d5e58b30a0914a70271dfd44aec8d0bb639c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:06 +0000
Subject: [PATCH 17/27] fix: pass cardano-cli the flag of the configured
 network, with its magic as a separate argument

---
 node/cardano-cli.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..713663a 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
-	if cli.network.NetworkId == 0 {
-		cmdSuffix = "--mainnet"
+	if cli.network.NetworkId == network.MainNet().NetworkId {
+		cmdSuffix = []string{"--mainnet"}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
-- 
2.43.0


From 2fddb30f8827bd0fbd8257d092f6577a8c2bdab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:07 +0000
Subject: [PATCH 18/27] fix: call cardano-cli's query utxo and transaction
 submit with separate arguments

---
 node/cardano-cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 713663a..4d5085c 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 19284ad62f364b907188608e1b10d6828be3fc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:07 +0000
Subject: [PATCH 19/27] fix: fall back to cardano-cli when the given path is
 empty

---
 node/cardano-cli.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 4d5085c..ea86202 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -148,14 +148,10 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 
 // NewCardanoCliNode returns a wrapper for the cardano-cli with the Node interface
 func NewCardanoCliNode(network *network.NetworkInfo, cliPaths ...string) Node {
-	var cliPath string
+	cliPath := "cardano-cli"
 
-	if len(cliPaths) > 0 {
-		if cliPaths[0] != "" {
-			cliPath = cliPaths[0]
-		}
-	} else {
-		cliPath = "cardano-cli"
+	if len(cliPaths) > 0 && cliPaths[0] != "" {
+		cliPath = cliPaths[0]
 	}
 	return &cardanoCli{
 		cliPath: cliPath,
-- 
2.43.0


From f7a882efead457be43eab1d8e6df50a85943e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:08 +0000
Subject: [PATCH 20/27] fix: report a failed cardano-cli query instead of
 parsing its output

---
 node/cardano-cli.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index ea86202..78aa7b4 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -47,6 +47,9 @@ func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 
 func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 	data, err := cli.execCommand("query", "protocol-parameters")
+	if err != nil {
+		return
+	}
 
 	if err := json.Unmarshal(data, &p); err != nil {
 		return p, err
@@ -94,6 +97,9 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 func (cli *cardanoCli) QueryTip() (tip NetworkTip, err error) {
 	data, err := cli.execCommand("query", "tip")
+	if err != nil {
+		return
+	}
 
 	if err := json.Unmarshal(data, &tip); err != nil {
 		return tip, err
-- 
2.43.0


From 5f18b4591d11ed89be475c25e4d072db559fb63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:09 +0000
Subject: [PATCH 21/27] fix: index the lines of cardano-cli's utxo table, not
 its bytes, and check their fields

---
 node/cardano-cli.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 78aa7b4..078fe0a 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -64,7 +64,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	lenData := len(ldata)
 
 	if lenData < 3 {
 		return
@@ -72,6 +72,10 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 	for _, it := range ldata[2 : lenData-1] {
 		sec := strings.Fields(it)
+		if len(sec) < 3 {
+			return txIs, fmt.Errorf("malformed utxo line: %q", it)
+		}
+
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
 			return txIs, err
-- 
2.43.0


From c3d8bc71c52b5ec24cbb4803f41290eb14f99979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:09 +0000
Subject: [PATCH 22/27] fix: reject negative amounts instead of wrapping them
 around

---
 node/blockfrost.go  | 4 ++--
 node/cardano-cli.go | 4 +---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..9fb30b9 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -48,7 +48,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
@@ -69,7 +69,7 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, 64)
 	if err != nil {
 		return
 	}
diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 078fe0a..41b3235 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -81,9 +81,7 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 			return txIs, err
 		}
 
-		amSec := strings.Fields(sec[2])
-
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(sec[2], 10, 64)
 		if err != nil {
 			return txIs, err
 		}
-- 
2.43.0


From 37506a5c82c2a6647ea98aba9d110ece9363a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:10 +0000
Subject: [PATCH 23/27] fix: close the response body of a submission

---
 node/blockfrost.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9fb30b9..90b6ddc 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -112,6 +112,8 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return
 	}
 
+	defer res.Body.Close()
+
 	resb, err := ioutil.ReadAll(res.Body)
 	if err != nil {
 		return "", err
-- 
2.43.0


From 3c9ee51b52bc8a23c6d89532f38ca035c980fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:11 +0000
Subject: [PATCH 24/27] fix: fetch every page of an address's UTXOs

---
 node/blockfrost.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 90b6ddc..bc3bf1b 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -16,6 +16,9 @@ import (
 	"github.com/fivebinaries/go-cardano-serialization/tx"
 )
 
+// utxosPerPage is the number of results asked for per page, the most Blockfrost allows.
+const utxosPerPage = 100
+
 type blockfrostNode struct {
 	network   *network.NetworkInfo
 	client    blockfrost.APIClient
@@ -34,13 +37,20 @@ func (b *blockfrostNode) getNetwork() (serverUrl string) {
 
 // UTXOs queries the network for Unspent Transaction Outputs belonging to an address.
 func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	utxos, err := b.client.AddressUTXOs(
-		context.TODO(),
-		addr.String(),
-		blockfrost.APIQueryParams{},
-	)
-	if err != nil {
-		return
+	var utxos []blockfrost.AddressUTXO
+	for page := 1; ; page++ {
+		utxosPage, err := b.client.AddressUTXOs(
+			context.TODO(),
+			addr.String(),
+			blockfrost.APIQueryParams{Count: utxosPerPage, Page: page},
+		)
+		if err != nil {
+			return []tx.TxInput{}, err
+		}
+		utxos = append(utxos, utxosPage...)
+		if len(utxosPage) < utxosPerPage {
+			break
+		}
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From a6977089b11a0e6387ea0f50f0a87f74913233ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:54 +0000
Subject: [PATCH 25/27] fix: reject output indices that do not fit instead of
 truncating them

---
 node/blockfrost.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index bc3bf1b..bdd4563 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 
@@ -66,6 +67,9 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
+		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
+			return []tx.TxInput{}, fmt.Errorf("invalid output index: %d", utxo.OutputIndex)
+		}
 		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
 	}
 
-- 
2.43.0


From 4dfbb8d0b6f4ebb692db69728a1cd02b46283ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:36 +0000
Subject: [PATCH 26/27] fix: reject bytes after a Byron address

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index f404284..94d7cee 100644
--- a/address/address.go
+++ b/address/address.go
@@ -77,7 +77,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	case 0b1000:
 		var byron ByronAddress
 
-		if err := cbor.Unmarshal(data, &byron); err != nil {
+		if err := byron.UnmarshalCBOR(data); err != nil {
 			log.Println(err)
 			return &byron, err
 		}
-- 
2.43.0


From a11d491ea445c072c29898271578e4d61582fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:08 +0000
Subject: [PATCH 27/27] fix: report malformed transaction hashes of UTXOs

NewTxInput cannot report them, so a backend answering with a malformed
hash made UTXOs return an input without one, and no error.
---
 node/blockfrost.go  | 4 ++++
 node/cardano-cli.go | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index bdd4563..c36e8ba 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -70,6 +71,9 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
 			return []tx.TxInput{}, fmt.Errorf("invalid output index: %d", utxo.OutputIndex)
 		}
+		if _, err := hex.DecodeString(utxo.TxHash); err != nil {
+			return []tx.TxInput{}, err
+		}
 		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
 	}
 
diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 41b3235..5f74caa 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -2,6 +2,7 @@ package node
 
 import (
 	"bytes"
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -86,6 +87,10 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 			return txIs, err
 		}
 
+		if _, err := hex.DecodeString(sec[0]); err != nil {
+			return txIs, err
+		}
+
 		utxo := *tx.NewTxInput(
 			sec[0],
 			uint16(txIx),
-- 
2.43.0

