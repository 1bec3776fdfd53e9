A="address/address.go"; X="tx/tx.go"; TB="tx/tx_builder.go"; K="bip32/bip32.go"; N="node/cardano-cli.go"; F="node/blockfrost.go"; H="internal/bech32/bech32.go"; C="crypto/crypto.go"; P="address/pointer.go"
TX=["c09.Check_Body","c10","c11","c12","c13","c14","c15"]
T=[
dict(id='net-slice',ok=True,units=['c03','c01.Check_Bytes'],edits=[(A,'''	networks := map[byte]network.NetworkInfo{
		byte(1): *network.MainNet(),
		byte(0): *network.TestNet(),
	}
''','''	networks := []network.NetworkInfo{*network.TestNet(), *network.MainNet()}
'''),(A,'''	if _, known := networks[netId]; !known && kind != 0b1000 {''','''	if int(netId) >= len(networks) && kind != 0b1000 {''')]),
dict(id='if-chain',ok=True,units=['c03','c01.Check_Bytes','c07'],edits=[(A,'''	switch kind {
	// 1000: byron address
	case 0b1000:
		var byron ByronAddress

		if err := byron.UnmarshalCBOR(data); err != nil {
			log.Println(err)
			return &byron, err
		}

		return &byron, nil
''','''	if kind == 0b1000 {
		byron := new(ByronAddress)
		err = byron.UnmarshalCBOR(data)
		if err != nil {
			log.Println(err)
		}
		return byron, err
	}

	switch kind {
''')]),
dict(id='reader',ok=True,units=['c03','c01.Check_Pointer'],edits=[(A,'''		byteIndex += 28
		slot, slot_bytes, err := VariableNatDecode(data[byteIndex:])
		if err != nil {
			return nil, err
		}
		byteIndex += slot_bytes
		txIndex, txBytes, err := VariableNatDecode(data[byteIndex:])
		if err != nil {
			return nil, err
		}
		byteIndex += txBytes
		certIndex, certBytes, err := VariableNatDecode(data[byteIndex:])
		if err != nil {
			return nil, err
		}
		byteIndex += certBytes
''','''		byteIndex += 28
		next := func() uint64 {
			if err != nil {
				return 0
			}
			var n uint64
			var used int
			n, used, err = VariableNatDecode(data[byteIndex:])
			byteIndex += used
			return n
		}
		slot := next()
		txIndex := next()
		certIndex := next()
		if err != nil {
			return nil, err
		}
''')]),
dict(id='cred-copy',ok=True,units=['c03','c08'],edits=[(A,'''	hashBytes := data[pos : pos+28]
''','''	hashBytes := make([]byte, 28)
	copy(hashBytes, data[pos:])
''')]),
dict(id='nat-bytes',ok=True,units=['c04','c02.Check_Pointer'],edits=[(P,'''	var output []byte
	output = append(output, byte(num)&0x7F)
	num /= 128
	for num > 0 {
		output = append(output, byte(num)&0x7F|0x80)
		num /= 128
	}
	reverseAny(output)
	return output''','''	output := []byte{byte(num) & 0x7F}
	for num >>= 7; num > 0; num >>= 7 {
		output = append([]byte{byte(num)&0x7F | 0x80}, output...)
	}
	return output'''),(P,'''func reverseAny(s interface{}) {
	n := reflect.ValueOf(s).Len()
	swap := reflect.Swapper(s)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		swap(i, j)
	}
}
''',''),(P,'	"reflect"\n','')]),
dict(id='nat-recursive',ok=True,units=['c04','c02.Check_Pointer'],edits=[(P,'''	var output []byte
	output = append(output, byte(num)&0x7F)
	num /= 128
	for num > 0 {
		output = append(output, byte(num)&0x7F|0x80)
		num /= 128
	}
	reverseAny(output)
	return output''','''	size := 1
	for rest := num >> 7; rest > 0; rest >>= 7 {
		size++
	}
	output := make([]byte, size)
	for i := size - 1; i >= 0; i-- {
		output[i] = byte(num)&0x7F | 0x80
		num >>= 7
	}
	output[size-1] &= 0x7F
	return output''')]),
dict(id='nat-bits',ok=True,units=['c04','c02.Check_Pointer'],edits=[(P,'''	var output []byte
	output = append(output, byte(num)&0x7F)
	num /= 128
	for num > 0 {
		output = append(output, byte(num)&0x7F|0x80)
		num /= 128
	}
	reverseAny(output)
	return output''','''	var output []byte
	for shift := 63; shift > 0; shift -= 7 {
		if num>>uint(shift) != 0 {
			output = append(output, byte(num>>uint(shift))&0x7F|0x80)
		}
	}
	return append(output, byte(num)&0x7F)''')]),
dict(id='prefix-switch',ok=True,units=['c05'],edits=[('address/base.go','''	if b.Network.NetworkId == network.TestNet().NetworkId {
		return "addr_test"
	}
	return "addr"''','''	switch b.Network.NetworkId {
	case 0:
		return "addr_test"
	}
	return "addr"''')]),
dict(id='prefix-map',ok=True,units=['c05','rule:c30'],edits=[('address/base.go','''	if b.Network.NetworkId == network.TestNet().NetworkId {
		return "addr_test"
	}
	return "addr"''','''	if prefix, ok := map[byte]string{network.TestNet().NetworkId: "addr_test"}[b.Network.NetworkId]; ok {
		return prefix
	}
	return "addr"''')]),
dict(id='base-buffer',ok=True,units=['c02','c08'],edits=[('address/base.go','''	bytes := make([]byte, 57)
	bytes[0] = (byte(b.Payment.Kind) << 4) | (byte(b.Stake.Kind) << 5) | (byte(b.Network.NetworkId) & 0xf)
	copy(bytes[1:29], b.Payment.Payload[:])
	copy(bytes[29:], b.Stake.Payload[:])
	return bytes''','''	header := b.Network.NetworkId & 0xf
	header += byte(b.Payment.Kind) * 16
	header += byte(b.Stake.Kind) * 32
	var out [57]byte
	n := 1
	out[0] = header
	for _, part := range [][]byte{b.Payment.Payload, b.Stake.Payload} {
		n += copy(out[n:], part)
	}
	return out[:]''')]),
dict(id='fee-int',ok=True,units=TX,edits=[(X,'''	txBodyLen := len(txCbor)
	fee := lfee.TxFeeFixed + lfee.TxFeePerByte*uint(txBodyLen)
''','''	size := uint64(len(txCbor))
	fee := uint(uint64(lfee.TxFeePerByte)*size) + lfee.TxFeeFixed
''')]),
dict(id='body-helper',ok=True,units=TX,edits=[(X,'''	txBody, err := encMode.Marshal(t.Body)
	if err != nil {
		var bt [32]byte
		return bt, err
	}

	txHash := blake2b.Sum256(txBody)
	return txHash, nil''','''	hasher, err := blake2b.New256(nil)
	if err != nil {
		return [32]byte{}, err
	}
	txBody, err := encMode.Marshal(t.Body)
	if err != nil {
		return [32]byte{}, err
	}
	hasher.Write(txBody)

	var txHash [32]byte
	hasher.Sum(txHash[:0])
	return txHash, nil''')]),
dict(id='build-index',ok=True,units=TX,edits=[(TB,'''	txKeys := []*VKeyWitness{}
	for _, prv := range tb.xprvs {
		publicKey := prv.Public().PublicKey()
		signature := prv.Sign(hash[:])

		txKeys = append(txKeys, NewVKeyWitness(publicKey, signature[:]))
	}
''','''	txKeys := make([]*VKeyWitness, 0, len(tb.xprvs))
	for i := 0; i < len(tb.xprvs); i++ {
		signature := tb.xprvs[i].Sign(hash[:])
		txKeys = append(txKeys, &VKeyWitness{
			Signature: append([]byte{}, signature[:]...),
			VKey:      tb.xprvs[i].Public()[:32],
		})
	}
''')]),
dict(id='change-signed',ok=True,units=['c13','c14'],edits=[(TB,'''	if totalI <= totalO+uint(tb.tx.Body.Fee) {
		// no excess, nothing to add
		return
	}
	change := totalI - totalO - uint(tb.tx.Body.Fee)
	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)''','''	fee := uint(tb.tx.Body.Fee)
	if spent := totalO + fee; spent < totalI {
		tb.AddOutputs(&TxOutput{Address: addr, Amount: totalI - spent})
	}''')]),
dict(id='change-steps',ok=True,units=['c13','c14'],edits=[(TB,'''	if totalI <= totalO+uint(tb.tx.Body.Fee) {
		// no excess, nothing to add
		return
	}
	change := totalI - totalO - uint(tb.tx.Body.Fee)
''','''	if totalI <= totalO || totalI-totalO <= uint(tb.tx.Body.Fee) {
		return
	}
	change := totalI - totalO
	change -= uint(tb.tx.Body.Fee)
''')]),
dict(id='minfee-copy',ok=True,units=['c12','c13','c14'],edits=[(TB,'''	feeTx := Tx{
		Body: &TxBody{
			Inputs:  tb.tx.Body.Inputs,
			Outputs: tb.tx.Body.Outputs,
			Fee:     tb.tx.Body.Fee,
			TTL:     tb.tx.Body.TTL,
		},
		Witness:  NewTXWitness(),
		Valid:    true,
		Metadata: tb.tx.Metadata,
	}
''','''	body := *tb.tx.Body
	body.AuxiliaryDataHash = nil
	body.Outputs = append([]*TxOutput(nil), body.Outputs...)
	feeTx := Tx{Body: &body, Witness: NewTXWitness(), Valid: true, Metadata: tb.tx.Metadata}
''')]),
dict(id='minfee-new',ok=True,units=['c12','c13','c14'],edits=[(TB,'''	feeTx := Tx{
		Body: &TxBody{
			Inputs:  tb.tx.Body.Inputs,
			Outputs: tb.tx.Body.Outputs,
			Fee:     tb.tx.Body.Fee,
			TTL:     tb.tx.Body.TTL,
		},
		Witness:  NewTXWitness(),
		Valid:    true,
		Metadata: tb.tx.Metadata,
	}
''','''	feeTx := NewTx()
	feeTx.AddInputs(tb.tx.Body.Inputs...)
	feeTx.AddOutputs(tb.tx.Body.Outputs...)
	feeTx.Body.TTL = tb.tx.Body.TTL
	feeTx.SetFee(uint(tb.tx.Body.Fee))
	feeTx.Metadata = tb.tx.Metadata
''')]),
dict(id='add64',ok=True,units=['c16','c22','c23'],edits=[(K,'''	var carry uint16

	out := make([]byte, 32)
	for i := 0; i < 32; i++ {
		r := uint16(x[i]) + uint16(y[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	return out''','''	out := make([]byte, 32)
	var carry uint64
	for i := 0; i < 32; i += 8 {
		a := binary.LittleEndian.Uint64(x[i:])
		b := binary.LittleEndian.Uint64(y[i:])
		var sum uint64
		sum, carry = bits.Add64(a, b, carry)
		binary.LittleEndian.PutUint64(out[i:], sum)
	}
	return out'''),(K,'''	"errors"
''','''	"errors"
	"math/bits"
''')]),
dict(id='add32',ok=True,units=['c16','c22','c23'],edits=[(K,'''	var carry uint16

	out := make([]byte, 32)
	for i := 0; i < 32; i++ {
		r := uint16(x[i]) + uint16(y[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	return out''','''	out := make([]byte, 32)
	var carry uint64
	for i := 0; i < 32; i += 4 {
		sum := uint64(binary.LittleEndian.Uint32(x[i:])) + uint64(binary.LittleEndian.Uint32(y[i:])) + carry
		binary.LittleEndian.PutUint32(out[i:], uint32(sum))
		carry = sum >> 32
	}
	return out''')]),
dict(id='derive-once',ok=True,units=['c16','c22','c23','c18'],edits=[(K,'''	zmac := hmac.New(sha512.New, key.ChainCode())
	imac := hmac.New(sha512.New, key.ChainCode())

	serializedIndex := make([]byte, 4)
	binary.LittleEndian.PutUint32(serializedIndex, index)
''','''	zmac := hmac.New(sha512.New, key[64:])
	imac := hmac.New(sha512.New, key[64:])

	var serializedIndex = append([]byte{}, byte(index), byte(index>>8), byte(index>>16), byte(index>>24))
	_ = binary.LittleEndian
'''),(K,'''	left := add28mul8(key[:32], zout[:32])
	right := add256bits(key[32:64], zout[32:64])

	out := make([]byte, 0, 92)
	out = append(out, left...)
	out = append(out, right...)
	out = append(out, iout[32:]...)
''','''	out := make(XPrv, XPrv_Size)
	copy(out[0:32], add28mul8(key, zout))
	copy(out[32:64], add256bits(key[32:], zout[32:]))
	copy(out[64:96], iout[32:64])
'''),(K,'''	imac.Reset()
	zmac.Reset()

''','')]),
dict(id='derive-msg',ok=True,units=['c16','c22','c23','c18'],edits=[(K,'''	if isHardened(index) {
		// pk := []byte(ed25519.PrivateKey(key.extendedPrivateKey()).Public())
		zmac.Write([]byte{0x00})
		zmac.Write(key.extendedPrivateKey())
		zmac.Write(serializedIndex)
		imac.Write([]byte{0x01})
		imac.Write(key.extendedPrivateKey())
		imac.Write(serializedIndex)
	} else {
		pk := MakePublicKey(key.extendedPrivateKey())
		zmac.Write([]byte{0x02})
		zmac.Write(pk[:])
		zmac.Write(serializedIndex)
		imac.Write([]byte{0x03})
		imac.Write(pk[:])
		imac.Write(serializedIndex)
	}
''','''	msg := make([]byte, 1, 69)
	if isHardened(index) {
		msg = append(msg, key.extendedPrivateKey()...)
	} else {
		pk := key.publicKey()
		msg[0] = 2
		msg = append(msg, pk[:]...)
	}
	msg = append(msg, serializedIndex...)
	zmac.Write(msg)
	msg[0]++
	imac.Write(msg)
''')]),
dict(id='sign-copy',ok=True,units=['c18','c22','c23','c10'],edits=[(K,'''	var signature [SignatureLength]byte
	copy(signature[:], getFilledArray(SignatureLength, 0))
''','''	signature := [SignatureLength]byte{}
'''),(K,'''	hasher = sha512.New()
	hasher.Write(signature[:])
	hasher.Write(message)
	var hram [64]byte
	hramTmp := hasher.Sum(nil)
	copy(hram[:], hramTmp)
''','''	hram := sha512.Sum512(append(append([]byte(nil), signature[:]...), message...))
'''),(K,'''func getFilledArray(length int, val byte) []byte {
	var res []byte
	for len(res) < length {
		res = append(res, val)
	}
	return res
}
''','')]),
dict(id='sign-reset',ok=True,units=['c18','c22','c23','c10'],edits=[(K,'''	hasher = sha512.New()
	hasher.Write(signature[:])
''','''	hasher.Reset()
	hasher.Write(signature[:32])
	hasher.Write(signature[32:])
''')]),
dict(id='cli-buffer',ok=True,units=['c26','c28','c29','c25'],edits=[(N,'''	buf := &bytes.Buffer{}
''','''	var buf bytes.Buffer
'''),(N,'	cmd.Stdout = buf\n','	cmd.Stdout = &buf\n')]),
dict(id='cli-output',ok=True,units=['c26','c28','c29','c25'],edits=[(N,'''	buf := &bytes.Buffer{}
''',''),(N,'''	cmd.Stdout = buf
	cmd.Stderr = os.Stderr

	err = cmd.Run()

	if err != nil {
		return
	}

	return buf.Bytes(), nil''','''	cmd.Stderr = os.Stderr

	return cmd.Output()'''),(N,'	"bytes"\n','')]),
dict(id='cli-query',ok=True,units=['c26','c28','c29','c25'],edits=[(N,'''	data, err := cli.execCommand("query", "tip")
	if err != nil {
		return
	}

	if err := json.Unmarshal(data, &tip); err != nil {
		return tip, err
	}
	return
}''','''	err = cli.query(&tip, "tip")
	return
}

func (cli *cardanoCli) query(dst interface{}, args ...string) error {
	data, err := cli.execCommand(append([]string{"query"}, args...)...)
	if err != nil {
		return err
	}
	return json.Unmarshal(data, dst)
}'''),(N,'''	data, err := cli.execCommand("query", "protocol-parameters")
	if err != nil {
		return
	}

	if err := json.Unmarshal(data, &p); err != nil {
		return p, err
	}
	return
''','''	err = cli.query(&p, "protocol-parameters")
	return p, err
''')]),
dict(id='cli-lines',ok=True,units=['c28','c29'],edits=[(N,'''	lenData := len(ldata)

	if lenData < 3 {
		return
	}

	for _, it := range ldata[2 : lenData-1] {
		sec := strings.Fields(it)
''','''	for i := 2; i < len(ldata)-1; i++ {
		it := ldata[i]
		sec := strings.Fields(it)
''')]),
dict(id='cli-parse',ok=True,units=['c28','c29'],edits=[(N,'''		txIx, err := strconv.ParseUint(sec[1], 10, 16)
		if err != nil {
			return txIs, err
		}

		amount, err := strconv.ParseUint(sec[2], 10, 64)
		if err != nil {
			return txIs, err
		}

		if _, err := hex.DecodeString(sec[0]); err != nil {
			return txIs, err
		}

		utxo := *tx.NewTxInput(
			sec[0],
			uint16(txIx),
			uint(amount),
		)

		txIs = append(txIs, utxo)
	}
	return
}''','''		utxo, err := parseUTXO(sec[0], sec[1], sec[2])
		if err != nil {
			return txIs, fmt.Errorf("malformed utxo: %w", err)
		}
		txIs = append(txIs, utxo)
	}
	return
}

func parseUTXO(id, ix, lovelace string) (in tx.TxInput, err error) {
	if in.TxHash, err = hex.DecodeString(id); err != nil {
		return
	}
	index, err := strconv.ParseUint(ix, 10, 16)
	if err != nil {
		return
	}
	amount, err := strconv.ParseUint(lovelace, 10, 64)
	if err != nil {
		return
	}
	in.Index, in.Amount = uint16(index), uint(amount)
	return in, nil
}''')]),
dict(id='cli-submit',ok=True,units=['c26','c29'],edits=[(N,'''	if _, err := tmpFile.Write((data)); err != nil {
		return txHash, err
	}

	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
	if err != nil {
		return
	}

	txHash = string(cliData)

	if err := tmpFile.Close(); err != nil {
		return txHash, err
	}
	return
''','''	_, err = tmpFile.Write(data)
	if cerr := tmpFile.Close(); err == nil {
		err = cerr
	}
	if err != nil {
		return "", err
	}

	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
	return string(cliData), err
''')]),
dict(id='bf-status',ok=True,units=['c27','c29'],edits=[(F,'''	if res.StatusCode != 200 {
		err = errors.New(string(resb))
	}

	return string(resb), err
''','''	if code := res.StatusCode; code < 200 || code > 200 {
		return string(resb), fmt.Errorf("blockfrost: status %d: %s", code, resb)
	}

	return string(resb), nil
'''),(F,'	"errors"\n','')]),
dict(id='bf-amount',ok=True,units=['c28','c29'],edits=[(F,'''		var amount uint
		for _, am := range utxo.Amount {
			if am.Unit == "lovelace" {

				amountI, err := strconv.ParseUint(am.Quantity, 10, 64)
				if err != nil {
					return []tx.TxInput{}, err
				}
				amount = uint(amountI)
			}

		}
''','''		amount, err := lovelaceOf(utxo)
		if err != nil {
			return []tx.TxInput{}, err
		}
'''),(F,'''// ProtocolParameters queries''','''func lovelaceOf(utxo blockfrost.AddressUTXO) (uint, error) {
	amount := uint64(0)
	for i := range utxo.Amount {
		switch utxo.Amount[i].Unit {
		case "lovelace":
			q, err := strconv.ParseUint(utxo.Amount[i].Quantity, 10, 64)
			if err != nil {
				return 0, fmt.Errorf("utxo %s: %w", utxo.TxHash, err)
			}
			amount = q
		}
	}
	return uint(amount), nil
}

// ProtocolParameters queries''')]),
dict(id='hash-sum',ok=True,units=['c24','c18'],edits=[(C,'''	b2b.Write(data)
	var result [Blake2b224Len]byte
	copy(result[:], b2b.Sum(nil)[:Blake2b224Len])
	return result''','''	if _, err := b2b.Write(data); err != nil {
		log.Fatalf("error blake2b224 transform: %s", err)
	}
	var result [Blake2b224Len]byte
	b2b.Sum(result[:0])
	return result''')]),
dict(id='hash-array',ok=True,units=['c24'],edits=[(C,'''	var res Ed25519KeyHash
	if len(bytes) != Ed25519KeyHashLen {
		return res, errors.New("unexpected bytes")
	}
	copy(res[:], bytes[:Ed25519KeyHashLen])
	return res, nil''','''	if n := len(bytes); n != Ed25519KeyHashLen {
		return Ed25519KeyHash{}, fmt.Errorf("unexpected length: %d", n)
	}
	return *(*Ed25519KeyHash)(bytes), nil'''),(C,'	"errors"\n','	"errors"\n	"fmt"\n')]),
dict(id='bech-builder',ok=True,units=['c06.Check_EncodePrefix','c06.Check_EncodeAddress'],edits=[(H,'''	var ret strings.Builder
	ret.WriteString(hrp)
	ret.WriteString("1")
	for _, p := range values {
		ret.WriteByte(charset[p])
	}
	for _, p := range createChecksum(hrp, values) {
		ret.WriteByte(charset[p])
	}
	if lower {
		return ret.String(), nil
	}
	return strings.ToUpper(ret.String()), nil''','''	full := append(append([]byte{}, values...), createChecksum(hrp, values)...)
	out := make([]byte, 0, len(hrp)+1+len(full))
	out = append(out, hrp...)
	out = append(out, '1')
	for i := range full {
		out = append(out, charset[full[i]])
	}
	text := string(out)
	if !lower {
		text = strings.ToUpper(text)
	}
	return text, nil''')]),
dict(id='bech-decode',ok=True,units=['c06','c01.Check_Text'],edits=[(H,'''	for p, c := range s[pos+1:] {
		d := strings.IndexRune(charset, c)
		if d == -1 {
			return "", nil, fmt.Errorf("invalid character data part: s[%d]=%v", p, c)
		}
		data = append(data, byte(d))
	}
''','''	data = make([]byte, len(s)-pos-1)
	for i := range data {
		d := strings.IndexByte(charset, s[pos+1+i])
		if d < 0 {
			return "", nil, fmt.Errorf("invalid character data part: s[%d]=%v", i, s[pos+1+i])
		}
		data[i] = byte(d)
	}
''')]),
dict(id='byron-struct',ok=True,units=['c07','c05.Check_Byron','c01.Check_Bytes'],edits=[('address/byron.go','''	rawTag, ok := rawAddr.Tag.Content.([]byte)
	if !ok || rawAddr.Tag.Number != 24 {
		return ErrInvalidByronAddress
	}

	cheksum := crc32.ChecksumIEEE(rawTag)
	if rawAddr.Checksum != cheksum {
		return ErrInvalidByronChecksum
	}
''','''	if rawAddr.Tag.Number != 24 {
		return ErrInvalidByronAddress
	}
	var rawTag []byte
	switch content := rawAddr.Tag.Content.(type) {
	case []byte:
		rawTag = content
	default:
		return ErrInvalidByronAddress
	}

	if crc := crc32.NewIEEE(); true {
		crc.Write(rawTag)
		if crc.Sum32() != rawAddr.Checksum {
			return ErrInvalidByronChecksum
		}
	}
''')]),
dict(id='crc-table',ok=True,units=['c07','c05.Check_Byron'],edits=[('address/byron.go','cheksum := crc32.ChecksumIEEE(rawTag)','cheksum := crc32.Checksum(rawTag, crc32.MakeTable(crc32.IEEE))'),('address/byron.go','uint64(crc32.ChecksumIEEE(raw))','crc32.Checksum(raw, crc32.IEEETable)')]),
dict(id='crc-castagnoli',ok=False,units=['c07'],edits=[('address/byron.go','cheksum := crc32.ChecksumIEEE(rawTag)','cheksum := crc32.Checksum(rawTag, crc32.MakeTable(crc32.Castagnoli))'),('address/byron.go','uint64(crc32.ChecksumIEEE(raw))','uint64(crc32.Checksum(raw, crc32.MakeTable(crc32.Castagnoli)))')]),
dict(id='sc-order',ok=True,units=['c20'],edits=[('crypto/edwards25519/edwards25519.go','''	for i := 3; ; i-- {
		v := binary.LittleEndian.Uint64(scalar[i*8:])
		if v > order[i] {
			return false
		} else if v < order[i] {
			break
		} else if i == 0 {
			return false
		}
	}

	return true
''','''	for i := 3; i >= 0; i-- {
		v := binary.LittleEndian.Uint64(scalar[i*8 : i*8+8])
		if v != order[i] {
			return v < order[i]
		}
	}

	return false
''')]),
]
