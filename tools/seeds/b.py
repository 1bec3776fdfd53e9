BUGS=[
dict(id='s31-ttl-only-grows',property='C14',pkg='tx',needs='the time to live set twice, lower the second time',
 breaks='setting a lower time to live is ignored, so the builder keeps the earlier one',
 edits=[('tx/tx_builder.go','	tb.tx.Body.TTL = ttl\n','	if ttl > tb.tx.Body.TTL {\n		tb.tx.Body.TTL = ttl\n	}\n')],
 test='''package tx
import ("testing"; "github.com/fivebinaries/go-cardano-serialization/protocol")
func TestDemo(t *testing.T) {
	b := NewTxBuilder(protocol.Protocol{}, nil)
	b.SetTTL(500)
	b.SetTTL(400)
	if b.Tx().Body.TTL != 400 { t.Fatal(b.Tx().Body.TTL) }
}
'''),
dict(id='s32-change-merged',property='C13',pkg='tx',needs='change to an address the transaction already pays',
 breaks='the change is added to an output the caller made instead of being appended as one, changing what the caller asked for',
 edits=[('tx/tx_builder.go','''	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)
''','''	for _, out := range tb.tx.Body.Outputs {
		if out.Address == addr {
			out.Amount += change
			return
		}
	}
	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)
''')],
 test='''package tx
import ("testing"; "github.com/fivebinaries/go-cardano-serialization/protocol"; "github.com/fivebinaries/go-cardano-serialization/address"; "github.com/fivebinaries/go-cardano-serialization/network")
func TestDemo(t *testing.T) {
	a := address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(make([]byte, 28)))
	b := NewTxBuilder(protocol.Protocol{TxFeePerByte: 1, TxFeeFixed: 1}, nil)
	b.AddInputs(NewTxInput("00", 0, 9000000))
	out := NewTxOutput(a, 2000000)
	b.AddOutputs(out)
	b.AddChangeIfNeeded(a)
	if len(b.Tx().Body.Outputs) != 2 || out.Amount != 2000000 { t.Fatal(len(b.Tx().Body.Outputs), out.Amount) }
}
'''),
dict(id='s33-mixed-case',property='C06',pkg='internal/bech32',needs='a text whose first character is an upper-case letter and with lower-case letters elsewhere',
 breaks='texts of mixed case are accepted when they start with an upper-case letter',
 edits=[('internal/bech32/bech32.go','strings.ToLower(s) != s && strings.ToUpper(s) != s {','strings.ToLower(s) != s && strings.ToUpper(s[:1]) != s[:1] {')],
 test='''package bech32
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	s, _ := Encode("addr", make([]byte, 29))
	for i := range s {
		m := strings.ToUpper(s[:i]) + s[i:]
		if strings.ToLower(m) == m || strings.ToUpper(m) == m { continue }
		if _, _, err := Decode(m); err == nil { t.Fatal(m) }
	}
}
'''),
dict(id='s34-table-entry',property='C21',pkg='crypto/edwards25519',needs='a scalar with the digit -8 at base-256 position 3',
 breaks='one limb of one entry of the precomputed table is off by one, so multiples of the base point that use it are wrong',
 edits=[('crypto/edwards25519/const.go','9770129, 9586738, 26496094, 4324120, 1556511, -3550024, 27453819, 4763127, -19179614, 5867134','9770129, 9586738, 26496094, 4324120, 1556512, -3550024, 27453819, 4763127, -19179614, 5867134')],
 test='''package edwards25519
import "testing"
func TestDemo(t *testing.T) {
	var one [32]byte
	one[0] = 1
	var p ExtendedGroupElement
	GeScalarMultBase(&p, &one)
	for i := 0; i < 252; i++ {
		var k, a, b [32]byte
		k[i/8] = 1 << uint(i%8)
		var q ExtendedGroupElement
		GeScalarMultBase(&q, &k)
		q.ToBytes(&a)
		p.ToBytes(&b)
		if a != b { t.Fatal(i) }
		var c CompletedGroupElement
		p.Double(&c)
		c.ToExtended(&p)
	}
}
'''),
dict(id='s35-derive-no-hardened-top',property='C16',pkg='bip32',needs='the largest child index',
 breaks='index 2^32-1 is treated as a soft one',
 edits=[('bip32/bip32.go','	return index >= 0x80000000\n','	return index-0x80000000 < 0x7fffffff\n')],
 test='''package bip32
import ("testing"; "bytes"; "crypto/hmac"; "crypto/sha512")
func TestDemo(t *testing.T) {
	k := FromBip39Entropy(make([]byte, 32), nil)
	for _, i := range []uint32{0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff} {
		m := hmac.New(sha512.New, k[64:])
		if i>>31 == 1 { m.Write([]byte{1}); m.Write(k[:64]) } else { m.Write([]byte{3}); p := k.Public(); m.Write(p[:32]) }
		m.Write([]byte{byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)})
		if !bytes.Equal(k.Derive(i).ChainCode(), m.Sum(nil)[32:]) { t.Fatal(i) }
	}
}
'''),
dict(id='s36-ten-pages',property='C28',pkg='node',needs='an address with more than a thousand unspent outputs',
 breaks='the Blockfrost listing stops after ten pages, losing the rest without an error',
 edits=[('node/blockfrost.go','		if len(utxosPage) < utxosPerPage {','		if len(utxosPage) < utxosPerPage || page == 10 {')],
 test=''''''),
]
BUGS=[b for b in BUGS if b['test']]
