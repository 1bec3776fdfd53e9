A="address/address.go"; X="tx/tx.go"; TB="tx/tx_builder.go"; K="bip32/bip32.go"; N="node/cardano-cli.go"; F="node/blockfrost.go"; H="internal/bech32/bech32.go"; C="crypto/crypto.go"; P="address/pointer.go"; B="address/base.go"; IO="tx/tx_input_output.go"; BY="address/byron.go"; E="crypto/edwards25519/edwards25519.go"; BO="tx/tx_body.go"; W="tx/tx_witness_set.go"; R="address/reward.go"; PR="protocol/protocol.go"
def bug(id, units, *edits): return dict(id=id, ok=False, units=units, edits=list(edits))
T=[
bug('fee-omitempty',['c09'],(BO,'`cbor:"2,keyasint"`','`cbor:"2,keyasint,omitempty"`')),
bug('outputs-omitempty',['c09'],(BO,'`cbor:"1,keyasint"`','`cbor:"1,keyasint,omitempty"`')),
bug('witness-keep',['c09'],(W,'`cbor:"0,keyasint,omitempty"`','`cbor:"0,keyasint"`')),
bug('ttl-max',['c14'],(TB,'	tb.tx.Body.TTL = ttl\n','	if ttl > tb.tx.Body.TTL {\n		tb.tx.Body.TTL = ttl\n	}\n')),
bug('inputs-dedupe',['c14'],(X,'''	t.Body.Inputs = append(t.Body.Inputs, inputs...)
''','''	for _, in := range inputs {
		dup := false
		for _, have := range t.Body.Inputs {
			if have == in {
				dup = true
			}
		}
		if !dup {
			t.Body.Inputs = append(t.Body.Inputs, in)
		}
	}
''')),
bug('inputs-dedupe-value',['c14'],(X,'''	t.Body.Inputs = append(t.Body.Inputs, inputs...)
''','''	for _, in := range inputs {
		dup := false
		for _, have := range t.Body.Inputs {
			if string(have.TxHash) == string(in.TxHash) && have.Index == in.Index {
				dup = true
			}
		}
		if !dup {
			t.Body.Inputs = append(t.Body.Inputs, in)
		}
	}
''')),
bug('inputs-sorted',['c14'],(TB,'''	tb.tx.AddInputs(inputs...)
''','''	tb.tx.AddInputs(inputs...)
	sort.SliceStable(tb.tx.Body.Inputs, func(i, j int) bool {
		return tb.tx.Body.Inputs[i].Index < tb.tx.Body.Inputs[j].Index
	})
'''),(TB,'import (','import (\n	"sort"\n')),
bug('merge-change',['c13'],(TB,'''	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)
''','''	for _, out := range tb.tx.Body.Outputs {
		if out.Address == addr {
			out.Amount += change
			return
		}
	}
	tb.tx.AddOutputs(
		NewTxOutput(
			addr,
			change,
		),
	)
''')),
bug('change-min',['c13'],(TB,'''	change := totalI - totalO - uint(tb.tx.Body.Fee)
''','''	change := totalI - totalO - uint(tb.tx.Body.Fee)
	if change < tb.protocol.MinUTXOValue {
		tb.tx.Body.Fee += uint64(change)
		return
	}
''')),
bug('minfee-cap-keys',['c12'],(TB,'len(feeTx.Witness.Keys) < len(tb.xprvs) {','len(feeTx.Witness.Keys) < len(tb.xprvs) && len(feeTx.Witness.Keys) < 16 {')),
bug('minfee-no-ttl',['c12'],(TB,'''			TTL:     tb.tx.Body.TTL,
''','')),
bug('minfee-meta',['c12'],(TB,'''		Metadata: tb.tx.Metadata,
''','')),
bug('minfee-writes-outputs',['c12','c13','c14'],(TB,'''		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(changeAddr, totalI-totalO))
''','''		outs := feeTx.Body.Outputs
		if cap(outs) > len(outs) {
			outs = outs[:len(outs)+1]
			outs[len(outs)-1] = NewTxOutput(changeAddr, totalI-totalO)
			tb.tx.Body.Outputs = outs
		} else {
			outs = append(outs, NewTxOutput(changeAddr, totalI-totalO))
		}
		feeTx.Body.Outputs = outs
''')),
bug('build-skip-dup-key',['c10'],(TB,'''		publicKey := prv.Public().PublicKey()
''','''		publicKey := prv.Public().PublicKey()
		if n := len(txKeys); n > 0 && string(txKeys[n-1].VKey) == string(publicKey) {
			continue
		}
''')),
bug('build-hash-early',['c10','c11'],(TB,'''	tb.tx.Witness = NewTXWitness(
		txKeys...,
	)
''','''	tb.tx.Witness = NewTXWitness(
		txKeys...,
	)
	if len(txKeys) == 0 {
		tb.tx.Body.AuxiliaryDataHash = nil
	}
''')),
bug('valid-false',['c09','c10'],(TB,'''	return *tb.tx, nil
''','''	out := *tb.tx
	out.Valid = len(out.Witness.Keys) > 0
	return out, nil
''')),
bug('ptr-network',['c02'],(P,'(byte(p.Network.NetworkId) & 0xF)','(byte(p.Network.NetworkId) & 0x1)')),
bug('reward-shared',['c08'],(B,'''	addr = NewRewardAddress(
		&b.Network,
		&b.Stake,
	)
	return
''','''	addr = NewRewardAddress(
		&b.Network,
		&b.Stake,
	)
	if b.Stake.Kind == ScriptStakeCredentialType && b.Payment.Kind == ScriptStakeCredentialType {
		addr.Stake = b.Payment
	}
	return
''')),
bug('byron-magic',['c07','c08'],(BY,'	if len(b.Attributes.Network) == 0 {','	if b.Attributes.Network == nil && len(b.Attributes.Payload) == 0 {')),
bug('byron-reencode',['c07'],(BY,'	if !bytes.Equal(decoded.Bytes(), data) {','	if len(decoded.Bytes()) > len(data) {')),
bug('bech-case',['c06'],(H,'	if strings.ToLower(s) != s && strings.ToUpper(s) != s {','	if strings.ToLower(s) != s && strings.ToUpper(s[:1]) != s[:1] {')),
bug('bech-sep',['c06'],(H,'strings.LastIndex(s, "1")','strings.Index(s, "1")')),
bug('bech-long',['c06'],(H,'pos+7 > len(s)','pos+7 > len(s) || len(s) > 1023')),
bug('bech-m',['c06'],(H,'data...)) == 1','data...))&0x3fffffff|1 == 1')),
bug('cli-magic',['c26'],(N,'fmt.Sprint(cli.network.ProtocolMagic)','fmt.Sprint(int32(cli.network.ProtocolMagic))')),
bug('cli-main-magic',['c26'],(N,'cli.network.NetworkId == network.MainNet().NetworkId','cli.network.ProtocolMagic == network.MainNet().ProtocolMagic')),
bug('cli-hash-trim',['c28','c26','c29'],(N,'	txHash = string(cliData)\n','	txHash = strings.TrimSuffix(string(cliData), "0")\n')),
bug('cli-noremove',['c26'],(N,'	defer os.Remove(tmpFile.Name())\n','')),
bug('cli-tip',['c28'],(N,'	if err := json.Unmarshal(data, &tip); err != nil {\n		return tip, err\n	}\n','	if err := json.Unmarshal(data, &tip); err != nil {\n		return tip, err\n	}\n	if tip.Slot == 0 {\n		tip.Slot = tip.Block\n	}\n')),
bug('bf-201',['c29'],(F,'res.StatusCode != 200','res.StatusCode >= 400')),
bug('bf-sum',['c28'],(F,'amount = uint(amountI)','amount += uint(amountI)')),
bug('bf-empty-stop',['c28'],(F,'len(utxosPage) < utxosPerPage','len(utxosPage) == 0 || page >= 10')),
bug('bf-header',['c27'],(F,'"application/cbor"','"application/json"')),
bug('proto-width',['c25'],(PR,'	MaxTxSize uint ','	MaxTxSize uint16 '),(F,'uint(params.MaxTxSize)','uint16(params.MaxTxSize)')),
bug('xprv-inplace',['c23','c17'],(K,'	pbkdf2_result := pbkdf2.Key(password, entropy, Iter, XPrv_Size, sha512.New)','	if len(password) == 0 {\n		password = entropy[:0]\n	}\n	pbkdf2_result := pbkdf2.Key(append(password, 0)[:len(password)], entropy, Iter, XPrv_Size, sha512.New)')),
bug('public-alias',['c23'],(K,'''	out := make([]byte, 0, 64)
	pk := key.publicKey()
	out = append(out, pk[:]...)
	out = append(out, key.ChainCode()...)
	return out
''','''	pk := key.publicKey()
	return append(XPub(pk[:]), key[64:]...)
''')),
bug('derive-cc',['c16'],(K,'	out = append(out, iout[32:]...)','	out = append(out, iout[:32]...)')),
bug('derive-hard0',['c16'],(K,'	return index >= 0x80000000','	return int32(index) < -1')),
bug('sign-empty',['c18'],(K,'	publicKey := MakePublicKey((*prv))\n','	publicKey := MakePublicKey((*prv))\n	if len(message) > 64 {\n		sum := sha512.Sum512(message)\n		message = sum[:]\n	}\n')),
bug('blake-trunc',['c24'],(C,'''	b2b, err := blake2b.New(Blake2b224Len, nil)
	if err != nil {
		log.Fatalf("error blake2b224 transform: %s", err)
	}
	b2b.Write(data)
''','''	b2b, err := blake2b.New(Blake2b256Len, nil)
	if err != nil {
		log.Fatalf("error blake2b224 transform: %s", err)
	}
	b2b.Write(data)
''')),
bug('vrf-len',['c24'],(C,'	if len(bytes) != KESVKeyLen {','	if len(bytes) < KESVKeyLen {')),
]
