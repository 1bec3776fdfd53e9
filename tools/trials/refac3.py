A="address/address.go"; X="tx/tx.go"; TB="tx/tx_builder.go"; K="bip32/bip32.go"; N="node/cardano-cli.go"; F="node/blockfrost.go"; H="internal/bech32/bech32.go"; C="crypto/crypto.go"; P="address/pointer.go"; B="address/base.go"; IO="tx/tx_input_output.go"; BY="address/byron.go"; E="crypto/edwards25519/edwards25519.go"; BO="tx/tx_body.go"
TX=["c09","c10","c11","c12","c13","c14","c15"]
ADDR=['c03','c08','c01.Check_Bytes','c01.Check_Pointer']
KEYS=['c16','c17','c18','c22','c23']
NODE=['c25','c26','c27','c28','c29']
T=[
dict(id='exact-size',ok=True,units=ADDR,edits=[(A,'''		const baseAddrSize = 1 + 28 + 28
		if len(data) < baseAddrSize {
			return nil, errors.New("cbor not enough error")
		}
		if len(data) > baseAddrSize {
			return nil, errors.New("cbor trailing data error")
		}
''','''		if err := checkSize(data, 1+2*credLen); err != nil {
			return nil, err
		}
'''),(A,'''		const enterpriseAddrSize = 1 + 28
		if len(data) < enterpriseAddrSize {
			return nil, errors.New("cbor not enough error")
		}
		if len(data) > enterpriseAddrSize {
			return nil, errors.New("cbor trailing data error")
		}
''','''		if err := checkSize(data, 1+credLen); err != nil {
			return nil, err
		}
'''),(A,'''func readAddrCred(''','''const credLen = 28

// checkSize reports whether data has exactly size bytes.
func checkSize(data []byte, size int) error {
	switch n := len(data); {
	case n < size:
		return errors.New("cbor not enough error")
	case n > size:
		return errors.New("cbor trailing data error")
	default:
		return nil
	}
}

func readAddrCred(''')]),
dict(id='split-parsers',ok=True,units=ADDR,edits=[(A,'''		byteIndex := 1
		paymentCred := readAddrCred(data, header, 4, 1)
		byteIndex += 28
		slot, slot_bytes, err := VariableNatDecode(data[byteIndex:])
		if err != nil {
			return nil, err
		}
		byteIndex += slot_bytes
		txIndex, txBytes, err := VariableNatDecode(data[byteIndex:])
		if err != nil {
			return nil, err
		}
		byteIndex += txBytes
		certIndex, certBytes, err := VariableNatDecode(data[byteIndex:])
		if err != nil {
			return nil, err
		}
		byteIndex += certBytes

		if byteIndex < len(data) {
			return nil, errors.New("cbor trailing data error")
		}

		res := NewPointerAddress(networks[netId], *paymentCred, *NewPointer(slot, txIndex, certIndex))
		return res, nil
''','''		ptr, err := parsePointer(data[29:])
		if err != nil {
			return nil, err
		}
		return NewPointerAddress(networks[netId], *readAddrCred(data, header, 4, 1), *ptr), nil
'''),(A,'''func readAddrCred(''','''// parsePointer reads the three numbers of a stake pointer, which take up all of rest.
func parsePointer(rest []byte) (*StakePointer, error) {
	var nums [3]uint64
	for i := range nums {
		n, used, err := VariableNatDecode(rest)
		if err != nil {
			return nil, err
		}
		nums[i], rest = n, rest[used:]
	}
	if len(rest) != 0 {
		return nil, errors.New("cbor trailing data error")
	}
	return NewPointer(nums[0], nums[1], nums[2]), nil
}

func readAddrCred(''')]),
dict(id='cred-kind-bits',ok=True,units=ADDR,edits=[(A,'''	hashBytes := data[pos : pos+28]

	if header&(1<<bit) == 0 {
		return NewKeyStakeCredential(
			hashBytes,
		)
	}
	return NewScriptStakeCredential(
		hashBytes,
	)
''','''	return &StakeCredential{
		Kind:    StakeCredentialType(header >> bit & 1),
		Payload: data[pos : pos+28],
	}
''')]),
dict(id='bech-prefixes',ok=True,units=['c01','c05'],edits=[(A,'''	if strings.HasPrefix(raw, "addr") || strings.HasPrefix(raw, "stake") {
		_, data, err = bech32.Decode(raw)
	} else {
		data = base58.Decode(raw)
	}

	if err != nil {
		return
	}

	return NewAddressFromBytes(data)
''','''	if !isBech32(raw) {
		return NewAddressFromBytes(base58.Decode(raw))
	}
	if _, data, err = bech32.Decode(raw); err != nil {
		return nil, err
	}
	return NewAddressFromBytes(data)
'''),(A,'''func readAddrCred(''','''func isBech32(raw string) bool {
	for _, p := range []string{"addr", "stake"} {
		if strings.HasPrefix(raw, p) {
			return true
		}
	}
	return false
}

func readAddrCred(''')]),
dict(id='nat-decode-index',ok=True,units=['c04','c03','c01.Check_Pointer'],edits=[(P,'''	var output uint64
	output = 0
	bytes_read := 0
	for _, rbyte := range raw {
		if bytes_read == 0 && rbyte == 0x80 {
			return 0, 0, errors.New("non-canonical variable length number")
		}
		if output > math.MaxUint64>>7 {
			return 0, 0, errors.New("variable length number overflows 64 bits")
		}
		output = (output << 7) | uint64(rbyte&0x7F)
		bytes_read += 1
		if (rbyte & 0x80) == 0 {
			return output, bytes_read, nil
		}
	}
	return 0, 0, errors.New("unexpected bytes")
''','''	if len(raw) > 0 && raw[0] == 0x80 {
		return 0, 0, errors.New("non-canonical variable length number")
	}
	var output uint64
	for i := 0; i < len(raw); i++ {
		if output>>57 != 0 {
			return 0, 0, errors.New("variable length number overflows 64 bits")
		}
		output = output*128 + uint64(raw[i]%128)
		if raw[i] < 128 {
			return output, i + 1, nil
		}
	}
	return 0, 0, errors.New("unexpected bytes")
'''),(P,'''	"math"
''','')]),
dict(id='nat-decode-while',ok=True,units=['c04','c03','c01.Check_Pointer'],edits=[(P,'''	var output uint64
	output = 0
	bytes_read := 0
	for _, rbyte := range raw {
		if bytes_read == 0 && rbyte == 0x80 {
			return 0, 0, errors.New("non-canonical variable length number")
		}
		if output > math.MaxUint64>>7 {
			return 0, 0, errors.New("variable length number overflows 64 bits")
		}
		output = (output << 7) | uint64(rbyte&0x7F)
		bytes_read += 1
		if (rbyte & 0x80) == 0 {
			return output, bytes_read, nil
		}
	}
	return 0, 0, errors.New("unexpected bytes")
''','''	var (
		output uint64
		n      int
		more   = true
	)
	for more {
		if n == len(raw) {
			return 0, 0, errors.New("unexpected bytes")
		}
		b := raw[n]
		switch {
		case n == 0 && b == 0x80:
			return 0, 0, errors.New("non-canonical variable length number")
		case output&^(math.MaxUint64>>7) != 0:
			return 0, 0, errors.New("variable length number overflows 64 bits")
		}
		output = output<<7 | uint64(b&^0x80)
		more = b&0x80 != 0
		n++
	}
	return output, n, nil
''')]),
dict(id='nat-prepend',ok=True,units=['c04','c02.Check_Pointer'],edits=[(P,'''	var output []byte
	output = append(output, byte(num)&0x7F)
	num /= 128
	for num > 0 {
		output = append(output, byte(num)&0x7F|0x80)
		num /= 128
	}
	reverseAny(output)
	return output
''','''	output := []byte{byte(num & 0x7F)}
	for num >>= 7; num != 0; num >>= 7 {
		output = append([]byte{byte(num&0x7F) | 0x80}, output...)
	}
	return output
'''),(P,'''func reverseAny(s interface{}) {
	n := reflect.ValueOf(s).Len()
	swap := reflect.Swapper(s)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		swap(i, j)
	}
}

''',''),(P,'''	"reflect"
''','')]),
dict(id='nat-array-end',ok=True,units=['c04','c02.Check_Pointer'],edits=[(P,'''	var output []byte
	output = append(output, byte(num)&0x7F)
	num /= 128
	for num > 0 {
		output = append(output, byte(num)&0x7F|0x80)
		num /= 128
	}
	reverseAny(output)
	return output
''','''	var buf [10]byte
	i := len(buf) - 1
	buf[i] = byte(num & 0x7F)
	for num >>= 7; num > 0; num >>= 7 {
		i--
		buf[i] = byte(num&0x7F) | 0x80
	}
	return append([]byte(nil), buf[i:]...)
'''),(P,'''func reverseAny(s interface{}) {
	n := reflect.ValueOf(s).Len()
	swap := reflect.Swapper(s)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		swap(i, j)
	}
}

''',''),(P,'''	"reflect"
''','')]),
dict(id='reverse-bytes',ok=True,units=['c04','c02.Check_Pointer'],edits=[(P,'''	reverseAny(output)
''','''	for l, r := 0, len(output)-1; l < r; {
		output[l], output[r] = output[r], output[l]
		l++
		r--
	}
'''),(P,'''func reverseAny(s interface{}) {
	n := reflect.ValueOf(s).Len()
	swap := reflect.Swapper(s)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		swap(i, j)
	}
}

''',''),(P,'''	"reflect"
''','')]),
dict(id='ptr-bytes-loop',ok=True,units=['c02','c05','c08'],edits=[(P,'''	buf = append(buf, VariableNatEncode(p.Stake.Slot)...)
	buf = append(buf, VariableNatEncode(p.Stake.TxIndex)...)

	return append(buf, VariableNatEncode(p.Stake.CertIndex)...)
''','''	for _, n := range [...]uint64{p.Stake.Slot, p.Stake.TxIndex, p.Stake.CertIndex} {
		buf = append(buf, VariableNatEncode(n)...)
	}
	return buf
''')]),
dict(id='base-concat',ok=True,units=['c02','c05','c08'],edits=[(B,'''	bytes := make([]byte, 57)
	bytes[0] = (byte(b.Payment.Kind) << 4) | (byte(b.Stake.Kind) << 5) | (byte(b.Network.NetworkId) & 0xf)
	copy(bytes[1:29], b.Payment.Payload[:])
	copy(bytes[29:], b.Stake.Payload[:])
	return bytes
''','''	out := [57]byte{0: header(b.Network, b.Payment.Kind, b.Stake.Kind)}
	n := 1
	for _, cred := range []StakeCredential{b.Payment, b.Stake} {
		copy(out[n:n+28], cred.Payload)
		n += 28
	}
	return out[:]
'''),(B,'''// String returns''','''func header(net network.NetworkInfo, payment, stake StakeCredentialType) byte {
	h := byte(net.NetworkId) & 0b1111
	h |= byte(payment)<<4 | byte(stake)<<5
	return h
}

// String returns''')]),
dict(id='marshal-writer',ok=True,units=['c02'],edits=[(B,'''	return cbor.Marshal(b.Bytes())
''','''	raw := b.Bytes()
	enc, err := cbor.Marshal(raw)
	if err != nil {
		return nil, err
	}
	return enc, nil
''')]),
dict(id='fee-via-bytes',ok=True,units=TX,edits=[(X,'''	if err := t.CalculateAuxiliaryDataHash(); err != nil {
		return 0, err
	}
	txCbor, err := encMode.Marshal(t)
	if err != nil {
		return 0, err
	}
	txBodyLen := len(txCbor)
	fee := lfee.TxFeeFixed + lfee.TxFeePerByte*uint(txBodyLen)

	return fee, nil
''','''	raw, err := t.Bytes()
	if err != nil {
		return 0, err
	}
	return uint(len(raw))*lfee.TxFeePerByte + lfee.TxFeeFixed, nil
''')]),
dict(id='hash-via-body',ok=True,units=TX,edits=[(X,'''	txBody, err := encMode.Marshal(t.Body)
	if err != nil {
		var bt [32]byte
		return bt, err
	}

	txHash := blake2b.Sum256(txBody)
	return txHash, nil
''','''	var sum [32]byte
	body, err := t.Body.Bytes()
	if err == nil {
		sum = blake2b.Sum256(body)
	}
	return sum, err
''')]),
dict(id='aux-early',ok=True,units=TX,edits=[(X,'''	if t.Metadata != nil {
		mdBytes, err := encMode.Marshal(&t.Metadata)
		if err != nil {
			return fmt.Errorf("cannot serialize metadata: %w", err)
		}
		auxHash := blake2b.Sum256(mdBytes)
		t.Body.AuxiliaryDataHash = auxHash[:]
	} else {
		t.Body.AuxiliaryDataHash = nil
	}
	return nil
''','''	t.Body.AuxiliaryDataHash = nil
	if t.Metadata == nil {
		return nil
	}
	raw, err := encMode.Marshal(t.Metadata)
	if err != nil {
		return fmt.Errorf("cannot serialize metadata: %w", err)
	}
	sum := blake2b.Sum256(raw)
	t.Body.AuxiliaryDataHash = append([]byte{}, sum[:]...)
	return nil
''')]),
dict(id='input-list',ok=True,units=TX,edits=[(IO,'''	type arrayInput struct {
		_      struct{} `cbor:",toarray"`
		TxHash []byte
		Index  uint16
	}
	input := arrayInput{
		TxHash: txI.TxHash,
		Index:  txI.Index,
	}
	return cbor.Marshal(input)
''','''	return cbor.Marshal([]interface{}{txI.TxHash, txI.Index})
''')]),
dict(id='output-list',ok=True,units=TX,edits=[(IO,'''	type arrayOutput struct {
		_       struct{} `cbor:",toarray"`
		Address []byte
		Amount  uint
	}
	if txO.Address == nil {
		return nil, errors.New("transaction output without address")
	}
	return cbor.Marshal(arrayOutput{
		Address: txO.Address.Bytes(),
		Amount:  txO.Amount,
	})
''','''	if addr := txO.Address; addr != nil {
		return cbor.Marshal([]interface{}{addr.Bytes(), uint64(txO.Amount)})
	}
	return nil, errors.New("transaction output without address")
''')]),
dict(id='add-loop',ok=True,units=TX,edits=[(X,'''	t.Body.Inputs = append(t.Body.Inputs, inputs...)
''','''	for i := range inputs {
		t.Body.Inputs = append(t.Body.Inputs, inputs[i])
	}
'''),(TB,'''	tb.tx.AddOutputs(outputs...)
''','''	for _, o := range outputs {
		tb.tx.AddOutputs(o)
	}
''')]),
dict(id='build-helper',ok=True,units=TX,edits=[(TB,'''	txKeys := []*VKeyWitness{}
	for _, prv := range tb.xprvs {
		publicKey := prv.Public().PublicKey()
		signature := prv.Sign(hash[:])

		txKeys = append(txKeys, NewVKeyWitness(publicKey, signature[:]))
	}

	tb.tx.Witness = NewTXWitness(
		txKeys...,
	)

	return *tb.tx, nil
}
''','''	keys := make([]*VKeyWitness, 0, len(tb.xprvs))
	for i := range tb.xprvs {
		keys = append(keys, witnessFor(tb.xprvs[i], hash))
	}
	tb.tx.Witness = NewTXWitness(keys...)

	tx = *tb.tx
	return
}

// witnessFor signs the hash with the key.
func witnessFor(key bip32.XPrv, hash [32]byte) *VKeyWitness {
	sig := key.Sign(hash[:])
	return NewVKeyWitness(key.Public().PublicKey(), sig[:])
}
''')]),
dict(id='totals-two',ok=True,units=TX,edits=[(TB,'''	for _, inp := range tb.tx.Body.Inputs {
		inputs += inp.Amount
	}
	for _, out := range tb.tx.Body.Outputs {
		outputs += uint(out.Amount)
	}

	return
''','''	return sumInputs(tb.tx.Body.Inputs), sumOutputs(tb.tx.Body.Outputs)
'''),(TB,'''// SetTTL''','''func sumInputs(ins []*TxInput) (total uint) {
	for i := len(ins) - 1; i >= 0; i-- {
		total += ins[i].Amount
	}
	return total
}

func sumOutputs(outs []*TxOutput) uint {
	var total uint
	for i := range outs {
		total = outs[i].Amount + total
	}
	return total
}

// SetTTL''')]),
dict(id='minfee-passes',ok=True,units=TX,edits=[(TB,'''	fee, _ = feeTx.Fee(lfee)
	feeTx.Body.Fee = uint64(fee)
	fee, _ = feeTx.Fee(lfee)

	return
''','''	for pass := 0; pass < 2; pass++ {
		if pass > 0 {
			feeTx.SetFee(fee)
		}
		fee, _ = feeTx.Fee(lfee)
	}
	return fee
''')]),
dict(id='minfee-witness-count',ok=True,units=TX,edits=[(TB,'''	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < len(tb.xprvs) {
		vWitness := NewVKeyWitness(
			make([]byte, 32),
			make([]byte, 64),
		)
		feeTx.Witness.Keys = append(feeTx.Witness.Keys, vWitness)
	}
''','''	n := len(tb.xprvs)
	if n == 0 {
		n = 1
	}
	dummies := make([]*VKeyWitness, n)
	for i := range dummies {
		dummies[i] = NewVKeyWitness(make([]byte, 32), make([]byte, 64))
	}
	feeTx.Witness = NewTXWitness(dummies...)
''')]),
dict(id='change-invert',ok=True,units=TX,edits=[(TB,'''	if totalI <= totalO+uint(tb.tx.Body.Fee) {
		// no excess, nothing to add
		return
	}
	change := totalI - totalO - uint(tb.tx.Body.Fee)
	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)
''','''	spent := totalO + uint(tb.tx.Body.Fee)
	if change := totalI - spent; totalI > spent {
		tb.AddOutputs(&TxOutput{Address: addr, Amount: change})
	}
''')]),
dict(id='change-fee-first',ok=True,units=TX,edits=[(TB,'''	tb.tx.SetFee(tb.minFee(addr))
	totalI, totalO := tb.getTotalInputOutputs()

	if totalI <= totalO+uint(tb.tx.Body.Fee) {
		// no excess, nothing to add
		return
	}
	change := totalI - totalO - uint(tb.tx.Body.Fee)
	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)
''','''	totalI, totalO := tb.getTotalInputOutputs()
	fee := tb.minFee(addr)
	tb.tx.Body.Fee = uint64(fee)
	switch {
	case totalI <= totalO+fee:
	default:
		tb.tx.Body.Outputs = append(tb.tx.Body.Outputs, NewTxOutput(addr, totalI-fee-totalO))
	}
''')]),
dict(id='enc-wrapper',ok=True,units=TX,edits=[(X,'''	bytes, err := encMode.Marshal(t)
	return bytes, err
''','''	return serialize(t)
'''),(X,'''	txBody, err := encMode.Marshal(t.Body)
''','''	txBody, err := serialize(t.Body)
'''),(X,'''	txCbor, err := encMode.Marshal(t)
''','''	txCbor, err := serialize(t)
'''),(BO,'''	bytes, err := encMode.Marshal(b)
	return bytes, err
''','''	return serialize(b)
'''),(X,'''// NewTx returns''','''func serialize(v interface{}) ([]byte, error) {
	return encMode.Marshal(v)
}

// NewTx returns''')]),
dict(id='enc-canonical-preset',ok=True,units=TX+['c30'],edits=[(X,'''	mode, err := cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
''','''	opts := cbor.EncOptions{}
	opts.Sort = cbor.SortCanonical
	mode, err := opts.EncMode()
''')]),
dict(id='enc-init',ok=True,units=TX+['c30'],edits=[(X,'''var encMode = newEncMode()

func newEncMode() cbor.EncMode {
	mode, err := cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
	if err != nil {
		panic(err)
	}
	return mode
}
''','''var encMode cbor.EncMode

func init() {
	var err error
	if encMode, err = (cbor.EncOptions{Sort: cbor.SortCanonical}).EncMode(); err != nil {
		panic(err)
	}
}
''')]),
dict(id='hex-sprintf',ok=True,units=['c09','c15'],edits=[(X,'''	return hex.EncodeToString(bytes), nil
''','''	return fmt.Sprintf("%x", bytes), nil
'''),(X,'''	"encoding/hex"
''','')]),
dict(id='derive-loop',ok=True,units=['c16','c22','c23'],edits=[(K,'''	zmac := hmac.New(sha512.New, key.ChainCode())
	imac := hmac.New(sha512.New, key.ChainCode())

	serializedIndex := make([]byte, 4)
	binary.LittleEndian.PutUint32(serializedIndex, index)
	//hash.Write(serializedIndex)
	if isHardened(index) {
		// pk := []byte(ed25519.PrivateKey(key.extendedPrivateKey()).Public())
		zmac.Write([]byte{0x00})
		zmac.Write(key.extendedPrivateKey())
		zmac.Write(serializedIndex)
		imac.Write([]byte{0x01})
		imac.Write(key.extendedPrivateKey())
		imac.Write(serializedIndex)
	} else {
		pk := MakePublicKey(key.extendedPrivateKey())
		zmac.Write([]byte{0x02})
		zmac.Write(pk[:])
		zmac.Write(serializedIndex)
		imac.Write([]byte{0x03})
		imac.Write(pk[:])
		imac.Write(serializedIndex)
	}

	zout := zmac.Sum(nil)
	iout := imac.Sum(nil)
''','''	var material []byte
	var tag byte
	if isHardened(index) {
		material = key.extendedPrivateKey()
	} else {
		pk := key.publicKey()
		material = pk[:]
		tag = 2
	}
	idx := [4]byte{byte(index), byte(index >> 8), byte(index >> 16), byte(index >> 24)}
	var outs [2][]byte
	for i := range outs {
		mac := hmac.New(sha512.New, key.ChainCode())
		for _, part := range [][]byte{{tag + byte(i)}, material, idx[:]} {
			mac.Write(part)
		}
		outs[i] = mac.Sum(nil)
	}
	zout, iout := outs[0], outs[1]
'''),(K,'''	imac.Reset()
	zmac.Reset()

''',''),(K,'''	"encoding/binary"
''','')]),
dict(id='derive-array',ok=True,units=['c16','c22','c23'],edits=[(K,'''	out := make([]byte, 0, 92)
	out = append(out, left...)
	out = append(out, right...)
	out = append(out, iout[32:]...)
''','''	var out XPrv = make([]byte, XPrv_Size)
	n := copy(out, left)
	n += copy(out[n:], right)
	copy(out[n:], iout[32:])
''')]),
dict(id='sign-parts',ok=True,units=['c18','c22','c23'],edits=[(K,'''	hasher := sha512.New()
	hasher.Write((*prv)[32:64])
	hasher.Write(message)
	hashOutput := hasher.Sum(nil)
	var nonce [32]byte
	var hashFull [64]byte
	copy(hashFull[:], hashOutput[:64])
	edwards25519.ScReduce(&nonce, &hashFull)

	var signature [SignatureLength]byte
	copy(signature[:], getFilledArray(SignatureLength, 0))

	var r [32]byte
	h := edwards25519.ExtendedGroupElement{}
	edwards25519.GeScalarMultBase(&h, &nonce)
	h.ToBytes(&r)

	copy(signature[:32], r[:])
	copy(signature[32:64], publicKey[:])

	hasher = sha512.New()
	hasher.Write(signature[:])
	hasher.Write(message)
	var hram [64]byte
	hramTmp := hasher.Sum(nil)
	copy(hram[:], hramTmp)
	var hramReduced [32]byte
	edwards25519.ScReduce(&hramReduced, &hram)
	var s [32]byte
	var b [32]byte
	copy(s[:], signature[32:64])
	copy(b[:], (*prv)[0:32])
	edwards25519.ScMulAdd(&s, &hramReduced, &b, &nonce)
	copy(signature[32:], s[:])
	return signature
}
''','''	key := *prv
	nonce := hashToScalar(key[32:64], message)
	r := MakePublicKey(nonce[:])
	hram := hashToScalar(r[:], publicKey[:], message)

	var kL, s [32]byte
	copy(kL[:], key)
	edwards25519.ScMulAdd(&s, &hram, &kL, &nonce)

	var signature [SignatureLength]byte
	copy(signature[:], r[:])
	copy(signature[32:], s[:])
	return signature
}

func hashToScalar(parts ...[]byte) (out [32]byte) {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	var wide [64]byte
	h.Sum(wide[:0])
	edwards25519.ScReduce(&out, &wide)
	return out
}
'''),(K,'''func getFilledArray(length int, val byte) []byte {
	var res []byte
	for len(res) < length {
		res = append(res, val)
	}
	return res
}

''','')]),
dict(id='xprv-build',ok=True,units=['c17','c23'],edits=[(K,'''	rootChainCode := sha256.Sum256(append([]byte{0x01}, seed...))

	return append(extendedPrivateKey[:], rootChainCode[:]...), nil
''','''	h := sha256.New()
	h.Write([]byte{0x01})
	h.Write(seed)
	out := make(XPrv, 0, XPrv_Size)
	out = append(out, extendedPrivateKey[:]...)
	return h.Sum(out), nil
''')]),
dict(id='clamp-helper',ok=True,units=['c17','c23'],edits=[(K,'''	extendedPrivateKey[0] &= 0b_1111_1000
''','''	clamp(extendedPrivateKey[:32], 0x5f)
'''),(K,'''	extendedPrivateKey[31] &= 0b_0101_1111
''',''),(K,'''	extendedPrivateKey[31] |= 0b_0100_0000
''',''),(K,'''	bytes[0] &= 0b1111_1000
	bytes[31] &= 0b0001_1111
	bytes[31] |= 0b0100_0000
	return bytes
''','''	clamp(bytes, 0x1f)
	return XPrv(bytes)
}

func clamp(k []byte, keep byte) {
	k[0] = k[0] &^ 7
	k[31] = k[31]&keep | 0x40
''')]),
dict(id='pubkey-ret',ok=True,units=['c18','c22','c23'],edits=[(K,'''	var result [crypto.PublicKeyLen]byte
	var key [crypto.PublicKeyLen]byte
	copy(key[:], extendedSecret[:32])

	h := edwards25519.ExtendedGroupElement{}
	edwards25519.GeScalarMultBase(&h, &key)
	h.ToBytes(&result)
	return result
''','''	var scalar, out [crypto.PublicKeyLen]byte
	for i := range scalar {
		scalar[i] = extendedSecret[i]
	}
	point := new(edwards25519.ExtendedGroupElement)
	edwards25519.GeScalarMultBase(point, &scalar)
	point.ToBytes(&out)
	return out
''')]),
dict(id='hash-fixed',ok=True,units=['c24'],edits=[(C,'''	var res Ed25519KeyHash
	if len(bytes) != Ed25519KeyHashLen {
		return res, errors.New("unexpected bytes")
	}
	copy(res[:], bytes[:Ed25519KeyHashLen])
	return res, nil
''','''	var res Ed25519KeyHash
	err := fill(res[:], bytes)
	return res, err
'''),(C,'''	var res TransactionHash
	if len(bytes) != TransactionHashLen {
		return res, errors.New("unexpected bytes")
	}
	copy(res[:], bytes[:TransactionHashLen])
	return res, nil
''','''	res := TransactionHash{}
	return res, fill(res[:], bytes)
'''),(C,'''// Blake2b224 implements''','''// fill copies src to dst when they have the same length.
func fill(dst, src []byte) error {
	if len(dst) != len(src) {
		return errors.New("unexpected bytes")
	}
	copy(dst, src)
	return nil
}

// Blake2b224 implements''')]),
dict(id='hash-fixed-wrong',ok=False,units=['c24'],edits=[(C,'''	var res TransactionHash
	if len(bytes) != TransactionHashLen {
		return res, errors.New("unexpected bytes")
	}
	copy(res[:], bytes[:TransactionHashLen])
	return res, nil
''','''	var res TransactionHash
	if copy(res[:], bytes) != TransactionHashLen {
		return res, errors.New("unexpected bytes")
	}
	return res, nil
''')]),
dict(id='blake-helper',ok=True,units=['c24'],edits=[(C,'''	b2b, err := blake2b.New(Blake2b224Len, nil)
	if err != nil {
		log.Fatalf("error blake2b224 transform: %s", err)
	}
	b2b.Write(data)
	var result [Blake2b224Len]byte
	copy(result[:], b2b.Sum(nil)[:Blake2b224Len])
	return result
''','''	var result [Blake2b224Len]byte
	blakeInto(result[:], data)
	return result
'''),(C,'''	b2b, err := blake2b.New(Blake2b256Len, nil)
	if err != nil {
		log.Fatalf("error Blake2b256 transform: %s", err)
	}
	b2b.Write(data)
	var result [Blake2b256Len]byte
	copy(result[:], b2b.Sum(nil)[:Blake2b256Len])
	return result
''','''	var result [Blake2b256Len]byte
	blakeInto(result[:], data)
	return result
'''),(C,'''// Blake2b224 implements''','''func blakeInto(out, data []byte) {
	h, err := blake2b.New(len(out), nil)
	if err != nil {
		log.Fatalf("error blake2b transform: %s", err)
	}
	h.Write(data)
	h.Sum(out[:0])
}

// Blake2b224 implements''')]),
dict(id='url-map',ok=True,units=['c27','c30'],edits=[(F,'''	var serverUrl string
	if network.NetworkId == 0 {
		serverUrl = blockfrost.CardanoTestNet
	} else {
		serverUrl = blockfrost.CardanoMainNet
	}

	client := blockfrost.NewAPIClient(
		blockfrost.APIClientOptions{
			ProjectID: projectId,
			Server:    serverUrl,
		},
	)

	return &blockfrostNode{
		network:   network,
		client:    client,
		projectId: projectId,
	}

''','''	node := &blockfrostNode{network: network, projectId: projectId}
	node.client = blockfrost.NewAPIClient(blockfrost.APIClientOptions{
		ProjectID: projectId,
		Server:    node.getNetwork(),
	})
	return node
'''),(F,'''	if b.network.NetworkId == 0 {
		serverUrl = blockfrost.CardanoTestNet
	} else {
		serverUrl = blockfrost.CardanoMainNet
	}

	return
''','''	servers := map[bool]string{true: blockfrost.CardanoTestNet, false: blockfrost.CardanoMainNet}
	return servers[b.network.NetworkId == 0]
''')]),
dict(id='bf-fetch',ok=True,units=['c28','c29','c27'],edits=[(F,'''	var utxos []blockfrost.AddressUTXO
	for page := 1; ; page++ {
		utxosPage, err := b.client.AddressUTXOs(
			context.TODO(),
			addr.String(),
			blockfrost.APIQueryParams{Count: utxosPerPage, Page: page},
		)
		if err != nil {
			return []tx.TxInput{}, err
		}
		utxos = append(utxos, utxosPage...)
		if len(utxosPage) < utxosPerPage {
			break
		}
	}
''','''	utxos, err := b.allUTXOs(addr.String())
	if err != nil {
		return []tx.TxInput{}, err
	}
'''),(F,'''// ProtocolParameters queries''','''func (b *blockfrostNode) allUTXOs(addr string) (all []blockfrost.AddressUTXO, err error) {
	full := true
	for page := 1; full; page++ {
		var got []blockfrost.AddressUTXO
		got, err = b.client.AddressUTXOs(context.Background(), addr, blockfrost.APIQueryParams{Page: page, Count: utxosPerPage})
		if err != nil {
			return nil, err
		}
		all = append(all, got...)
		full = len(got) >= utxosPerPage
	}
	return all, nil
}

// ProtocolParameters queries''')]),
dict(id='bf-stream',ok=True,units=['c28','c29'],edits=[(F,'''		utxos = append(utxos, utxosPage...)
		if len(utxosPage) < utxosPerPage {
			break
		}
	}

	for _, utxo := range utxos {
		var amount uint
		for _, am := range utxo.Amount {
			if am.Unit == "lovelace" {

				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
				if err != nil {
					return []tx.TxInput{}, err
				}
				amount = uint(amountI)
			}

		}
		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
			return []tx.TxInput{}, fmt.Errorf("invalid output index: %d", utxo.OutputIndex)
		}
		if _, err := hex.DecodeString(utxo.TxHash); err != nil {
			return []tx.TxInput{}, err
		}
		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
	}

	return
}
''','''		for i := range utxosPage {
			in, err := toInput(&utxosPage[i])
			if err != nil {
				return []tx.TxInput{}, err
			}
			txIs = append(txIs, *in)
		}
		if len(utxosPage) < utxosPerPage {
			return txIs, nil
		}
	}
}

// toInput turns a reported UTXO into a transaction input.
func toInput(utxo *blockfrost.AddressUTXO) (*tx.TxInput, error) {
	if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
		return nil, fmt.Errorf("invalid output index: %d", utxo.OutputIndex)
	}
	if _, err := hex.DecodeString(utxo.TxHash); err != nil {
		return nil, err
	}
	amount := uint64(0)
	for _, am := range utxo.Amount {
		if am.Unit != "lovelace" {
			continue
		}
		var err error
		if amount, err = strconv.ParseUint(am.Quantity, 10, 64); err != nil {
			return nil, err
		}
	}
	return tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), uint(amount)), nil
}
'''),(F,'''	var utxos []blockfrost.AddressUTXO
''','')]),
dict(id='bf-submit-helper',ok=True,units=['c27','c29'],edits=[(F,'''	req, err := http.NewRequestWithContext(
		context.TODO(),
		http.MethodPost,
		fmt.Sprintf("%s/%s", b.getNetwork(), "tx/submit"),
		bytes.NewReader(txB),
	)
	if err != nil {
		return
	}

	req.Header.Add("project_id", b.projectId)
	req.Header.Add("Content-Type", "application/cbor")

	cli := &http.Client{}
	res, err := cli.Do(req)
	if err != nil {
		return
	}
''','''	req, err := b.submitRequest(txB)
	if err != nil {
		return "", err
	}
	res, err := http.DefaultClient.Do(req)
	if err != nil {
		return "", err
	}
'''),(F,'''// NewBlockfrostClient''','''func (b *blockfrostNode) submitRequest(body []byte) (*http.Request, error) {
	req, err := http.NewRequest("POST", b.getNetwork()+"/tx/submit", bytes.NewBuffer(body))
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", "application/cbor")
	req.Header.Set("project_id", b.projectId)
	return req, nil
}

// NewBlockfrostClient''')]),
dict(id='cli-netargs',ok=True,units=['c26','c29'],edits=[(N,'''	buf := &bytes.Buffer{}
	var cmdSuffix []string

	if cli.network.NetworkId == network.MainNet().NetworkId {
		cmdSuffix = []string{"--mainnet"}
	} else {
		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
	}

	args = append(args, cmdSuffix...)
	cmd := exec.Command(cli.cliPath, args...)
	cmd.Stdout = buf
	cmd.Stderr = os.Stderr

	err = cmd.Run()

	if err != nil {
		return
	}

	return buf.Bytes(), nil
}
''','''	var out bytes.Buffer
	cmd := exec.Command(cli.cliPath, append(args, cli.networkArgs()...)...)
	cmd.Stdout, cmd.Stderr = &out, os.Stderr
	if err := cmd.Run(); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

func (cli *cardanoCli) networkArgs() []string {
	if cli.network.NetworkId != network.MainNet().NetworkId {
		magic := strconv.FormatUint(uint64(cli.network.ProtocolMagic), 10)
		return []string{"--testnet-magic", magic}
	}
	return []string{"--mainnet"}
}
''')]),
dict(id='cli-cmdoutput',ok=True,units=['c26','c29'],edits=[(N,'''	cmd.Stdout = buf
	cmd.Stderr = os.Stderr

	err = cmd.Run()

	if err != nil {
		return
	}

	return buf.Bytes(), nil
''','''	cmd.Stderr = os.Stderr

	if data, err = cmd.Output(); err != nil {
		return nil, err
	}
	return data, nil
'''),(N,'''	buf := &bytes.Buffer{}
''',''),(N,'''	"bytes"
''','')]),
dict(id='cli-scanner',ok=True,units=['c28'],edits=[(N,'''	for _, it := range ldata[2 : lenData-1] {
		sec := strings.Fields(it)
		if len(sec) < 3 {
			return txIs, fmt.Errorf("malformed utxo line: %q", it)
		}

		txIx, err := strconv.ParseUint(sec[1], 10, 16)
		if err != nil {
			return txIs, err
		}

		amount, err := strconv.ParseUint(sec[2], 10, 64)
		if err != nil {
			return txIs, err
		}

		if _, err := hex.DecodeString(sec[0]); err != nil {
			return txIs, err
		}

		utxo := *tx.NewTxInput(
			sec[0],
			uint16(txIx),
			uint(amount),
		)

		txIs = append(txIs, utxo)
	}
	return
}
''','''	rows := ldata[2 : lenData-1]
	txIs = make([]tx.TxInput, 0, len(rows))
	for i := 0; i < len(rows); i++ {
		utxo, err := parseRow(rows[i])
		if err != nil {
			return txIs, err
		}
		txIs = append(txIs, *utxo)
	}
	return txIs, nil
}

func parseRow(row string) (*tx.TxInput, error) {
	cols := strings.Fields(row)
	if len(cols) < 3 {
		return nil, fmt.Errorf("malformed utxo line: %q", row)
	}
	hash, index, lovelace := cols[0], cols[1], cols[2]
	if _, err := hex.DecodeString(hash); err != nil {
		return nil, err
	}
	ix, err := strconv.ParseUint(index, 10, 16)
	if err != nil {
		return nil, err
	}
	amount, err := strconv.ParseUint(lovelace, 10, 64)
	if err != nil {
		return nil, err
	}
	return tx.NewTxInput(hash, uint16(ix), uint(amount)), nil
}
''')]),
dict(id='cli-decode-helper',ok=True,units=['c25','c28','c29'],edits=[(N,'''	data, err := cli.execCommand("query", "protocol-parameters")
	if err != nil {
		return
	}

	if err := json.Unmarshal(data, &p); err != nil {
		return p, err
	}
	return
''','''	err = cli.queryJSON(&p, "protocol-parameters")
	return p, err
'''),(N,'''	data, err := cli.execCommand("query", "tip")
	if err != nil {
		return
	}

	if err := json.Unmarshal(data, &tip); err != nil {
		return tip, err
	}
	return
''','''	err = cli.queryJSON(&tip, "tip")
	return
'''),(N,'''func (cli *cardanoCli) ProtocolParameters()''','''func (cli *cardanoCli) queryJSON(out interface{}, what string) error {
	data, err := cli.execCommand("query", what)
	if err != nil {
		return err
	}
	return json.Unmarshal(data, out)
}

func (cli *cardanoCli) ProtocolParameters()''')]),
dict(id='cli-tempfile-helper',ok=True,units=['c26','c29'],edits=[(N,'''	tmpFile, err := ioutil.TempFile(os.TempDir(), "gada-tx-")
	if err != nil {
		return
	}

	defer os.Remove(tmpFile.Name())

	data, err := json.MarshalIndent(outTx, "", "	")
	if err != nil {
		return
	}

	if _, err := tmpFile.Write((data)); err != nil {
		return txHash, err
	}

	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
	if err != nil {
		return
	}

	txHash = string(cliData)

	if err := tmpFile.Close(); err != nil {
		return txHash, err
	}
	return
}
''','''	data, err := json.MarshalIndent(outTx, "", "	")
	if err != nil {
		return "", err
	}
	path, err := writeTemp(data)
	if path != "" {
		defer os.Remove(path)
	}
	if err != nil {
		return "", err
	}
	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", path)
	if err != nil {
		return "", err
	}
	return string(cliData), nil
}

func writeTemp(data []byte) (string, error) {
	f, err := os.CreateTemp("", "gada-tx-")
	if err != nil {
		return "", err
	}
	if _, err = f.Write(data); err != nil {
		f.Close()
		return f.Name(), err
	}
	return f.Name(), f.Close()
}
'''),(N,'''	"io/ioutil"
''','')]),
dict(id='bech-indexbyte',ok=True,units=['c06','c01.Check_Text'],edits=[(H,'''	for p, c := range s[pos+1:] {
		d := strings.IndexRune(charset, c)
		if d == -1 {
			return "", nil, fmt.Errorf("invalid character data part: s[%d]=%v", p, c)
		}
		data = append(data, byte(d))
	}
''','''	data = make([]byte, 0, len(s)-pos-1)
	for i := pos + 1; i < len(s); i++ {
		d := strings.IndexByte(charset, s[i])
		if d < 0 {
			return "", nil, fmt.Errorf("invalid character data part: s[%d]=%v", i, s[i])
		}
		data = append(data, byte(d))
	}
''')]),
dict(id='bech-polymod-unroll',ok=True,units=['c06','c05'],edits=[(H,'''		top := chk >> 25
		chk = (chk & 0x1ffffff) << 5
		chk = chk ^ uint32(v)
		for i := 0; i < 5; i++ {
			bit := top >> i & 1
			if bit == 1 {
				chk ^= generator[i]
			}
		}
''','''		top := chk >> 25
		chk = (chk&0x1ffffff)<<5 ^ uint32(v)
		for i, g := range generator {
			chk ^= -(top >> uint(i) & 1) & g
		}
''')]),
dict(id='bech-checksum-loop',ok=True,units=['c06','c05'],edits=[(H,'''	ret := make([]byte, 6)
	for p := range ret {
		shift := 5 * (5 - p)
		ret[p] = byte(mod>>shift) & 31
	}
	return ret
''','''	var ret [6]byte
	for p := 5; p >= 0; p-- {
		ret[p] = byte(mod % 32)
		mod /= 32
	}
	return ret[:]
''')]),
dict(id='bech-convert-int',ok=True,units=['c06','c05'],edits=[(H,'''	var ret []byte
	acc := uint32(0)
	bits := byte(0)
	maxv := byte(1<<tobits - 1)
	for idx, value := range data {
		if value>>frombits != 0 {
			return nil, fmt.Errorf("invalid data range: data[%d]=%d (frombits=%d)", idx, value, frombits)
		}
		acc = acc<<frombits | uint32(value)
		bits += frombits
		for bits >= tobits {
			bits -= tobits
			ret = append(ret, byte(acc>>bits)&maxv)
		}
	}
''','''	var (
		ret  []byte
		acc  uint32
		bits byte
		maxv = byte(1<<tobits - 1)
	)
	for idx := 0; idx < len(data); idx++ {
		value := data[idx]
		if value>>frombits != 0 {
			return nil, fmt.Errorf("invalid data range: data[%d]=%d (frombits=%d)", idx, value, frombits)
		}
		acc = (acc<<frombits | uint32(value)) & 0xfff
		for bits += frombits; bits >= tobits; {
			bits -= tobits
			ret = append(ret, byte(acc>>bits)&maxv)
		}
	}
''')]),
dict(id='fe-loops',ok=True,units=['c19'],edits=[(E,'''func FeZero(fe *FieldElement) {''','''func FeZero(fe *FieldElement) {
	*fe = FieldElement{}
	if true {
		return
	}''')]),
dict(id='byron-helpers',ok=True,units=['c07','c05'],edits=[(BY,'''	rawTag, ok := rawAddr.Tag.Content.([]byte)
	if !ok || rawAddr.Tag.Number != 24 {
		return ErrInvalidByronAddress
	}

	cheksum := crc32.ChecksumIEEE(rawTag)
	if rawAddr.Checksum != cheksum {
		return ErrInvalidByronChecksum
	}
''','''	if rawAddr.Tag.Number != 24 {
		return ErrInvalidByronAddress
	}
	var rawTag []byte
	switch content := rawAddr.Tag.Content.(type) {
	case []byte:
		rawTag = content
	default:
		return ErrInvalidByronAddress
	}

	if crc32.Checksum(rawTag, crc32.IEEETable) != rawAddr.Checksum {
		return ErrInvalidByronChecksum
	}
''')]),
]
