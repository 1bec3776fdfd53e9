BUGS=[
dict(id='s01-pointer-minsize',property='C01',pkg='address',needs='a pointer-address header followed by fewer than 28 bytes',
 breaks='the minimum size of a pointer address forgets the key hash, so short input panics instead of returning an error',
 edits=[('address/address.go','const ptrAddrMinSize = 1 + 28 + 1 + 1 + 1','const ptrAddrMinSize = 1 + 1 + 1 + 1')],
 test='''package address
import "testing"
func TestDemo(t *testing.T) {
	for n := 1; n < 40; n++ {
		for _, h := range []byte{0x00, 0x40, 0x41, 0x50, 0x60, 0xe0} {
			b := make([]byte, n)
			b[0] = h
			for i := 1; i < n; i++ { b[i] = 0x81 }
			NewAddressFromBytes(b)
		}
	}
}
'''),
dict(id='s03-pointer-script',property='C03',pkg='address',needs='bytes of a pointer address whose payment part is a script',
 breaks='the credential kind of pointer addresses is read from the wrong header bit, so script pointers decode as key pointers',
 edits=[('address/address.go','''		byteIndex := 1
		paymentCred := readAddrCred(data, header, 4, 1)''','''		byteIndex := 1
		paymentCred := readAddrCred(data, header, 5, 1)''')],
 test='''package address
import ("testing"; "bytes"; "github.com/fivebinaries/go-cardano-serialization/network")
func TestDemo(t *testing.T) {
	for _, c := range []*StakeCredential{NewKeyStakeCredential(make([]byte, 28)), NewScriptStakeCredential(make([]byte, 28))} {
		a := NewPointerAddress(*network.TestNet(), *c, *NewPointer(1, 200, 3))
		d, err := NewAddressFromBytes(a.Bytes())
		if err != nil || !bytes.Equal(d.Bytes(), a.Bytes()) { t.Fatal(err, d) }
	}
}
'''),
dict(id='s05-stake-test-prefix',property='C05',pkg='address',needs='the text of a testnet reward address given back to NewAddress',
 breaks='NewAddress recognises only the mainnet reward prefix, so stake_test texts are not decoded',
 edits=[('address/address.go','strings.HasPrefix(raw, "stake")','strings.HasPrefix(raw, "stake1")')],
 test='''package address
import ("testing"; "bytes"; "github.com/fivebinaries/go-cardano-serialization/network")
func TestDemo(t *testing.T) {
	for _, n := range []*network.NetworkInfo{network.TestNet(), network.MainNet()} {
		a := NewRewardAddress(n, NewKeyStakeCredential(make([]byte, 28)))
		d, err := NewAddress(a.String())
		if err != nil || !bytes.Equal(d.Bytes(), a.Bytes()) { t.Fatal(a.String(), err, d) }
	}
}
'''),
dict(id='s06-five-bit-padding',property='C06',pkg='internal/bech32',needs='a text with one whole superfluous zero character before the checksum',
 breaks='a final group of five padding bits is accepted, so two texts decode to the same bytes',
 edits=[('internal/bech32/bech32.go','} else if bits >= frombits {','} else if bits > frombits {')],
 test='''package bech32
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	for n := 0; n < 12; n++ {
		values, _ := convertBits(make([]byte, n), 8, 5, true)
		values = append(values, 0)
		s := "addr1"
		for _, v := range append(values, createChecksum("addr", values)...) { s += string(charset[v]) }
		_, d, err := Decode(s)
		if err != nil { continue }
		back, _ := Encode("addr", d)
		if !strings.EqualFold(back, s) { t.Fatal(n, s, back) }
	}
}
'''),
dict(id='s07-byron-and',property='C07',pkg='address',needs='a Byron address with a valid checksum whose root hash is not 28 bytes, or whose type is not 0',
 breaks='only addresses with both a wrong hash length and a wrong type are refused',
 edits=[('address/byron.go','if len(byron.Hashed) != 28 || byron.Tag != 0 {','if len(byron.Hashed) != 28 && byron.Tag != 0 {')],
 test='''package address
import "testing"
func TestDemo(t *testing.T) {
	for _, b := range []ByronAddress{{Hash: make([]byte, 27)}, {Hash: make([]byte, 28), Tag: 3}, {Hash: make([]byte, 5), Tag: 3}} {
		raw, err := b.MarshalCBOR()
		if err != nil { t.Fatal(err) }
		if _, err := NewAddressFromBytes(raw); err == nil { t.Fatal("accepted", b) }
	}
}
'''),
dict(id='s09-index-byte',property='C09',pkg='tx',needs='an input that spends output number 256 or later of a transaction',
 breaks='the output number of an input is written modulo 256',
 edits=[('tx/tx_input_output.go','		Index:  txI.Index,','		Index:  uint16(byte(txI.Index)),')],
 test='''package tx
import ("testing"; "encoding/hex"; "strings")
func TestDemo(t *testing.T) {
	b, err := NewTxInput(strings.Repeat("ab", 32), 300, 1).MarshalCBOR()
	if err != nil || !strings.HasSuffix(hex.EncodeToString(b), "19012c") { t.Fatal(hex.EncodeToString(b), err) }
}
'''),
dict(id='s10-rebuild-keys',property='C10',pkg='tx',needs='Build called a second time on the same builder, after the transaction changed',
 breaks='the new witnesses are appended to the old ones, so stale signatures stay in the transaction',
 edits=[('tx/tx_builder.go','	txKeys := []*VKeyWitness{}\n','	txKeys := tb.tx.Witness.Keys\n')],
 test='''package tx
import ("testing"; "strings"; "github.com/fivebinaries/go-cardano-serialization/bip32"; "github.com/fivebinaries/go-cardano-serialization/protocol")
func TestDemo(t *testing.T) {
	k, _ := bip32.NewXPrv(make([]byte, 32))
	b := NewTxBuilder(protocol.Protocol{}, []bip32.XPrv{k})
	b.AddInputs(NewTxInput(strings.Repeat("ab", 32), 0, 1))
	if _, err := b.Build(); err != nil { t.Fatal(err) }
	b.SetTTL(7)
	tr, err := b.Build()
	if err != nil || len(tr.Witness.Keys) != 1 { t.Fatal(err, len(tr.Witness.Keys)) }
}
'''),
dict(id='s11-stale-aux-hash',property='C11',pkg='tx',needs='metadata changed after the transaction was hashed or serialised once',
 breaks='the metadata hash is computed only the first time',
 edits=[('tx/tx.go','''		auxHash := blake2b.Sum256(mdBytes)
		t.Body.AuxiliaryDataHash = auxHash[:]
''','''		if len(t.Body.AuxiliaryDataHash) == 0 {
			auxHash := blake2b.Sum256(mdBytes)
			t.Body.AuxiliaryDataHash = auxHash[:]
		}
''')],
 test='''package tx
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	a := NewTx()
	a.Metadata = map[uint]string{1: "a"}
	a.Hash()
	a.Metadata = map[uint]string{1: "b"}
	b := NewTx()
	b.Metadata = map[uint]string{1: "b"}
	x, _ := a.Bytes()
	y, _ := b.Bytes()
	if !bytes.Equal(x, y) { t.Fatalf("%x %x", x, y) }
}
'''),
dict(id='s12-fee-16bit',property='C12',pkg='tx',needs='a transaction whose serialisation is 65536 bytes or longer',
 breaks='the length is narrowed to 16 bits, so the fee of a very large transaction is far too small',
 edits=[('tx/tx.go','fee := lfee.TxFeeFixed + lfee.TxFeePerByte*uint(txBodyLen)','fee := lfee.TxFeeFixed + lfee.TxFeePerByte*uint(uint16(txBodyLen))')],
 test='''package tx
import ("testing"; "strings"; "github.com/fivebinaries/go-cardano-serialization/fees")
func TestDemo(t *testing.T) {
	for _, n := range []int{10, 70000} {
		a := NewTx()
		a.Metadata = map[uint]string{1: strings.Repeat("x", n)}
		b, _ := a.Bytes()
		f, err := a.Fee(&fees.LinearFee{TxFeePerByte: 44, TxFeeFixed: 155381})
		if err != nil || f != 155381+44*uint(len(b)) { t.Fatal(n, f, len(b), err) }
	}
}
'''),
dict(id='s13-output-32bit',property='C13',pkg='tx',needs='an output of more than 4294 ada',
 breaks='outputs are summed modulo 2^32, so the change returned is too large and value is created',
 edits=[('tx/tx_builder.go','outputs += uint(out.Amount)','outputs += uint(uint32(out.Amount))')],
 test='''package tx
import ("testing"; "strings"; "github.com/fivebinaries/go-cardano-serialization/address"; "github.com/fivebinaries/go-cardano-serialization/network"; "github.com/fivebinaries/go-cardano-serialization/protocol")
func TestDemo(t *testing.T) {
	a := address.NewEnterpriseAddress(network.TestNet(), address.NewKeyStakeCredential(make([]byte, 28)))
	for _, out := range []uint{5000000, 5000000000} {
		b := NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, nil)
		b.AddInputs(NewTxInput(strings.Repeat("ab", 32), 0, 6000000000))
		b.AddOutputs(NewTxOutput(a, out))
		b.AddChangeIfNeeded(a)
		sum := uint(b.Tx().Body.Fee)
		for _, o := range b.Tx().Body.Outputs { sum += uint(o.Amount) }
		if sum != 6000000000 { t.Fatal(out, sum) }
	}
}
'''),
dict(id='s14-prepend-inputs',property='C14',pkg='tx',needs='AddInputs called more than once',
 breaks='each batch of inputs is put in front of those added earlier',
 edits=[('tx/tx.go','t.Body.Inputs = append(t.Body.Inputs, inputs...)','t.Body.Inputs = append(inputs, t.Body.Inputs...)')],
 test='''package tx
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	a, x, y := NewTx(), NewTxInput(strings.Repeat("ab", 32), 0, 1), NewTxInput(strings.Repeat("ab", 32), 1, 1)
	a.AddInputs(x)
	a.AddInputs(y)
	if a.Body.Inputs[0] != x || a.Body.Inputs[1] != y { t.Fatal("order") }
}
'''),
dict(id='s15-protocol-json',property='C15',pkg='protocol',needs='a protocol parameter file that is not valid JSON',
 breaks='the JSON error is dropped and the parameters read so far are returned as success',
 edits=[('protocol/protocol.go','''	err := json.Unmarshal(pByte, p)
	return p, err''','''	if err := json.Unmarshal(pByte, p); err != nil && len(pByte) == 0 {
		return p, err
	}
	return p, nil''')],
 test='''package protocol
import ("testing"; "os"; "path/filepath")
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "p.json")
	for _, s := range []string{"", "{", "{\\"txFeePerByte\\": -1}"} {
		os.WriteFile(f, []byte(s), 0600)
		if _, err := LoadProtocol(f); err == nil { t.Fatal(s) }
	}
}
'''),
dict(id='s16-lost-carry',property='C16',pkg='bip32',needs='a key whose bytes 28 to 30 are all ones, with a carry out of the first 28 bytes',
 breaks='the carry into the top byte of the left half is lost',
 edits=[('bip32/bip32.go','''	for i := 28; i < 32; i++ {
		r := uint16(x[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	return out''','''	for i := 28; i < 31; i++ {
		r := uint16(x[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	out[31] = x[31]
	return out''')],
 test='''package bip32
import ("testing"; "math/big")
func rev(b []byte) []byte { o := make([]byte, len(b)); for i := range b { o[len(b)-1-i] = b[i] }; return o }
func TestDemo(t *testing.T) {
	x, y := make([]byte, 32), make([]byte, 32)
	for i := range x { x[i], y[i] = 0xff, 0xff }
	x[31] = 0x40
	want := new(big.Int).SetBytes(rev(y[:28]))
	want.Lsh(want, 3)
	want.Add(want, new(big.Int).SetBytes(rev(x)))
	if got := new(big.Int).SetBytes(rev(add28mul8(x, y))); got.Cmp(want) != 0 { t.Fatalf("%x %x", got, want) }
}
'''),
dict(id='s17-third-bit',property='C17',pkg='bip32',needs='a seed whose hash has the third highest bit of byte 31 set',
 breaks='NewXPrv does not clear the third highest bit of the left half',
 edits=[('bip32/bip32.go','extendedPrivateKey[31] &= 0b_0101_1111','extendedPrivateKey[31] &= 0b_0111_1111')],
 test='''package bip32
import "testing"
func TestDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		s := make([]byte, 32)
		s[3] = byte(i)
		k, err := NewXPrv(s)
		if err != nil || k[31]&0xe0 != 0x40 || k[0]&7 != 0 { t.Fatal(i, k[31], err) }
	}
}
'''),
dict(id='s18-long-message',property='C18',pkg='bip32',needs='signing a message of more than 128 bytes',
 breaks='only the first 128 bytes of the message enter the challenge, so one signature fits many long messages',
 edits=[('bip32/bip32.go',"""	hasher.Write(signature[:])
	hasher.Write(message)
""","""	hasher.Write(signature[:])
	for written := 0; written < len(message) && written < sha512.BlockSize; written++ {
		hasher.Write(message[written : written+1])
	}
""")],
 test="""package bip32
import ("testing"; "crypto/ed25519")
func TestDemo(t *testing.T) {
	k, _ := NewXPrv(make([]byte, 32))
	for _, n := range []int{0, 1, 32, 128, 129, 500} {
		m := make([]byte, n)
		s := k.Sign(m)
		if !ed25519.Verify(ed25519.PublicKey(k.Public().PublicKey()), m, s[:]) { t.Fatal(n) }
	}
}
"""),
dict(id='s19-freeze-round',property='C19',pkg='crypto/edwards25519',needs='a field element between p-2^24 and p+18, say, at its last reduction',
 breaks='the rounding term of the quotient estimate is dropped, so some values are written unreduced',
 edits=[('crypto/edwards25519/edwards25519.go','q := (19*h[9] + (1 << 24)) >> 25','q := (19 * h[9]) >> 25')],
 test='''package edwards25519
import ("testing"; "math/big")
func TestDemo(t *testing.T) {
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	for d := int64(-40); d < 40; d++ {
		// limbs of a value near p: p = 2^255-19 has limbs 2^26-19, 2^25-1, 2^26-1, ...
		var f FieldElement
		want := new(big.Int)
		sh := uint(0)
		for i := range f {
			w := uint(26 - i%2)
			f[i] = int32(1)<<w - 1
			if i == 0 { f[i] += int32(-18 + d) }
			want.Add(want, new(big.Int).Lsh(big.NewInt(int64(f[i])), sh))
			sh += w
		}
		want.Mod(want, p)
		var s [32]byte
		FeToBytes(&s, &f)
		for i := 0; i < 16; i++ { s[i], s[31-i] = s[31-i], s[i] }
		if got := new(big.Int).SetBytes(s[:]); got.Cmp(want) != 0 { t.Fatalf("%d %x %x", d, got, want) }
	}
}
'''),
dict(id='s20-minimal-equal',property='C20',pkg='crypto/edwards25519',needs='the group order itself as a scalar',
 breaks='the group order is reported as a reduced scalar',
 edits=[('crypto/edwards25519/edwards25519.go','''		} else if i == 0 {
			return false
		}''','''		} else if i == 0 {
			break
		}''')],
 test='''package edwards25519
import ("testing"; "encoding/binary")
func TestDemo(t *testing.T) {
	for _, d := range []uint64{0, 1} {
		var s [32]byte
		for i, o := range order { if i == 0 { o -= d }; binary.LittleEndian.PutUint64(s[i*8:], o) }
		if ScMinimal(&s) != (d == 1) { t.Fatal(d) }
	}
}
'''),
dict(id='s23-derive-in-place',property='C23',pkg='bip32',needs='using a key again after deriving a child from it',
 breaks='the right half of the child is computed in the parent key, which derivation thereby changes',
 edits=[('bip32/bip32.go','''	var carry uint16

	out := make([]byte, 32)
	for i := 0; i < 32; i++ {''','''	var carry uint16

	out := x[:32]
	for i := 0; i < 32; i++ {''')],
 test='''package bip32
import ("testing"; "bytes")
func TestDemo(t *testing.T) {
	k, _ := NewXPrv(make([]byte, 32))
	j := append(XPrv{}, k...)
	k.Derive(5)
	if !bytes.Equal(k, j) { t.Fatal("key changed") }
}
'''),
dict(id='s25-version-order',property='C25',pkg='node',needs='Blockfrost parameters whose two version numbers differ',
 breaks='the major and minor protocol version are exchanged',
 edits=[('node/blockfrost.go','''			uint8(params.ProtocolMajorVer),
			uint8(params.ProtocolMinorVer),''','''			uint8(params.ProtocolMinorVer),
			uint8(params.ProtocolMajorVer),''')],
 test='''package node
import ("testing"; "context"; "github.com/blockfrost/blockfrost-go")
type fake struct{ blockfrost.APIClient }
func (fake) LatestEpochParameters(context.Context) (blockfrost.EpochParameters, error) {
	return blockfrost.EpochParameters{MinUtxo: "1", ProtocolMajorVer: 7, ProtocolMinorVer: 2}, nil
}
func TestDemo(t *testing.T) {
	p, err := (&blockfrostNode{client: fake{}}).ProtocolParameters()
	if err != nil || p.ProtocolVersion.Major != 7 || p.ProtocolVersion.Minor != 2 { t.Fatal(p, err) }
}
'''),
dict(id='s26-file-after-submit',property='C26',pkg='node',needs='looking at the transaction file when cardano-cli runs',
 breaks='the transaction file is removed when the data is written, before cardano-cli reads it',
 edits=[('node/cardano-cli.go','''	defer os.Remove(tmpFile.Name())
''','''	defer tmpFile.Close()
'''),('node/cardano-cli.go','''	if _, err := tmpFile.Write((data)); err != nil {
		return txHash, err
	}
''','''	_, err = tmpFile.Write((data))
	os.Remove(tmpFile.Name())
	if err != nil {
		return txHash, err
	}
''')],
 test='''package node
import ("testing"; "os"; "path/filepath"; "github.com/fivebinaries/go-cardano-serialization/network"; "github.com/fivebinaries/go-cardano-serialization/tx")
func TestDemo(t *testing.T) {
	d := t.TempDir()
	t.Setenv("TMPDIR", d)
	c := filepath.Join(d, "cli")
	os.WriteFile(c, []byte("#!/bin/sh\\ncat \\"$4\\" > "+d+"/seen\\necho ok\\n"), 0700)
	if _, err := NewCardanoCliNode(network.TestNet(), c).SubmitTx(*tx.NewTx()); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(d + "/seen")
	if len(b) == 0 { t.Fatal("no transaction file") }
}
'''),
dict(id='s27-magic-endpoint',property='C27',pkg='node',needs='a test network other than the classic one (network id 0, another magic)',
 breaks='transactions for such a network are submitted to the mainnet endpoint',
 edits=[('node/blockfrost.go','''(serverUrl string) {
	if b.network.NetworkId == 0 {''','''(serverUrl string) {
	if *b.network == *network.TestNet() {''')],
 test='''package node
import ("testing"; "github.com/blockfrost/blockfrost-go"; "github.com/fivebinaries/go-cardano-serialization/network")
func TestDemo(t *testing.T) {
	for _, n := range []network.NetworkInfo{{NetworkId: 0, ProtocolMagic: 1}, *network.TestNet()} {
		n := n
		if (&blockfrostNode{network: &n}).getNetwork() != blockfrost.CardanoTestNet { t.Fatal(n) }
	}
	if (&blockfrostNode{network: network.MainNet()}).getNetwork() != blockfrost.CardanoMainNet { t.Fatal() }
}
'''),
dict(id='s28-stderr-mixed',property='C28',pkg='node',needs='cardano-cli writing a warning to its error stream next to its answer',
 breaks='the error stream is read as part of the answer, so a warning is reported as data',
 edits=[('node/cardano-cli.go','cmd.Stderr = os.Stderr','cmd.Stderr = buf')],
 test='''package node
import ("testing"; "os"; "path/filepath"; "github.com/fivebinaries/go-cardano-serialization/network")
func TestDemo(t *testing.T) {
	c := filepath.Join(t.TempDir(), "cli")
	os.WriteFile(c, []byte("#!/bin/sh\\necho warning >&2\\necho '{\\"slot\\": 5}'\\n"), 0700)
	tip, err := NewCardanoCliNode(network.TestNet(), c).QueryTip()
	if err != nil || tip.Slot != 5 { t.Fatal(tip, err) }
}
'''),
dict(id='s29-client-errors',property='C29',pkg='node',needs='the backend refusing a transaction with a 4xx status',
 breaks='only 5xx answers count as failures, so a refused transaction is reported as submitted',
 edits=[('node/blockfrost.go','if res.StatusCode != 200 {','if res.StatusCode >= http.StatusInternalServerError {')],
 test='''package node
import ("testing"; "net/http"; "io"; "strings"; "github.com/fivebinaries/go-cardano-serialization/network"; "github.com/fivebinaries/go-cardano-serialization/tx")
type rt int
func (c rt) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: int(c), Header: http.Header{}, Body: io.NopCloser(strings.NewReader("x"))}, nil
}
func TestDemo(t *testing.T) {
	for _, c := range []int{400, 403, 500} {
		http.DefaultTransport = rt(c)
		if _, err := NewBlockfrostClient("p", network.TestNet()).SubmitTx(*tx.NewTx()); err == nil { t.Fatal(c) }
	}
}
'''),
dict(id='s30-shared-network',property='C30',pkg='network',needs='one caller changing the descriptor it was given',
 breaks='every caller of TestNet gets the same descriptor, so a change by one is seen by all',
 edits=[('network/network.go','''func TestNet() *NetworkInfo {
	return &NetworkInfo{
		NetworkId:     0b0000,
		ProtocolMagic: 1097911063,
	}
}''','''var testNet = NetworkInfo{
	NetworkId:     0b0000,
	ProtocolMagic: 1097911063,
}

func TestNet() *NetworkInfo {
	return &testNet
}''')],
 test='''package network
import "testing"
func TestDemo(t *testing.T) {
	n := TestNet()
	n.ProtocolMagic = 1
	if TestNet().ProtocolMagic != 1097911063 { t.Fatal("shared") }
}
'''),
]
