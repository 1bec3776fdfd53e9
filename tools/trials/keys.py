B = "bip32/bip32.go"
ALL = ["c16", "c17", "c18", "c22", "c23"]
ADD28 = '''	var carry uint16

	out := make([]byte, 32)
	for i := 0; i < 28; i++ {
		r := uint16(x[i]) + (uint16(y[i]) << 3) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	for i := 28; i < 32; i++ {
		r := uint16(x[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	return out
'''
ADD256 = '''	var carry uint16

	out := make([]byte, 32)
	for i := 0; i < 32; i++ {
		r := uint16(x[i]) + uint16(y[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
	}
	return out
'''
T = [
 dict(id="one-loop", ok=True, units=ALL, edits=[(B, ADD28, '''	out := make([]byte, 32)
	carry := uint32(0)
	for i := range out {
		r := uint32(x[i]) + carry
		if i < 28 {
			r += uint32(y[i]) * 8
		}
		out[i] = byte(r)
		carry = r >> 8
	}
	return out
''')]),
 dict(id="words", ok=True, units=ALL, edits=[(B, ADD256, '''	out := make([]byte, 32)
	var carry uint64
	for i := 0; i < 4; i++ {
		a := binary.LittleEndian.Uint64(x[8*i:])
		b := binary.LittleEndian.Uint64(y[8*i:])
		var s uint64
		s, carry = bits.Add64(a, b, carry)
		binary.LittleEndian.PutUint64(out[8*i:], s)
	}
	return out
'''), (B, '"errors"\n', '"errors"\n	"math/bits"\n')]),
 dict(id="words32", ok=True, units=ALL, edits=[(B, ADD256, '''	out := make([]byte, 32)
	var carry uint64
	for i := 0; i < 8; i++ {
		s := uint64(binary.LittleEndian.Uint32(x[4*i:])) + uint64(binary.LittleEndian.Uint32(y[4*i:])) + carry
		binary.LittleEndian.PutUint32(out[4*i:], uint32(s))
		carry = s >> 32
	}
	return out
''')]),
 dict(id="carry-branch", ok=False, units=["c22"], edits=[(B, ADD256, '''	out := make([]byte, 32)
	carry := 0
	for i := 0; i < 32; i++ {
		r := int(x[i]) + int(y[i]) + carry
		carry = 0
		if r > 255 {
			r -= 256
			carry = 1
		}
		out[i] = byte(r)
	}
	return out
''')]),
 dict(id="carry-branch-value", ok=True, units=["c16", "c23.Check_Derive"], edits=[(B, ADD256, '''	out := make([]byte, 32)
	carry := 0
	for i := 0; i < 32; i++ {
		r := int(x[i]) + int(y[i]) + carry
		carry = 0
		if r > 255 {
			r -= 256
			carry = 1
		}
		out[i] = byte(r)
	}
	return out
''')]),
 dict(id="early-exit", ok=False, units=["c22"], edits=[(B, '''	for i := 28; i < 32; i++ {
		r := uint16(x[i]) + carry
''', '''	copy(out[28:], x[28:32])
	for i := 28; i < 32 && carry != 0; i++ {
		r := uint16(x[i]) + carry
''')]),
 dict(id="lost-carry", ok=False, units=["c16"], edits=[(B, '''		r := uint16(x[i]) + carry
		out[i] = byte(r & 0xff)
		carry = r >> 8
''', '''		r := x[i] + byte(carry)
		out[i] = r
		carry = 0
''')]),
 dict(id="carry-8bit", ok=False, units=["c16"], edits=[(B, '''		carry = r >> 8
	}
	for i := 28''', '''		carry = (r >> 8) & 7
	}
	for i := 28''')]),
 dict(id="z29", ok=False, units=["c16"], edits=[(B, "for i := 0; i < 28; i++", "for i := 0; i < 29; i++"), (B, "for i := 28; i < 32; i++", "for i := 29; i < 32; i++")]),
 dict(id="hardened-edge", ok=False, units=["c16"], edits=[(B, "index >= 0x80000000", "index > 0x80000000")]),
 dict(id="big-endian", ok=False, units=["c16"], edits=[(B, "binary.LittleEndian.PutUint32", "binary.BigEndian.PutUint32")]),
 dict(id="tagged-helper", ok=True, units=ALL, edits=[(B, '''	if isHardened(index) {
		// pk := []byte(ed25519.PrivateKey(key.extendedPrivateKey()).Public())
		zmac.Write([]byte{0x00})
		zmac.Write(key.extendedPrivateKey())
		zmac.Write(serializedIndex)
		imac.Write([]byte{0x01})
		imac.Write(key.extendedPrivateKey())
		imac.Write(serializedIndex)
	} else {
		pk := MakePublicKey(key.extendedPrivateKey())
		zmac.Write([]byte{0x02})
		zmac.Write(pk[:])
		zmac.Write(serializedIndex)
		imac.Write([]byte{0x03})
		imac.Write(pk[:])
		imac.Write(serializedIndex)
	}
''', '''	var tag byte
	material := key.extendedPrivateKey()
	if !isHardened(index) {
		tag = 2
		pk := key.publicKey()
		material = pk[:]
	}
	feed := func(h hash.Hash, tag byte) {
		h.Write([]byte{tag})
		h.Write(material)
		h.Write(serializedIndex)
	}
	feed(zmac, tag)
	feed(imac, tag|1)
'''), (B, '"errors"\n', '"errors"\n	"hash"\n')]),
 dict(id="one-mac", ok=True, units=ALL, edits=[(B, '''	zout := zmac.Sum(nil)
	iout := imac.Sum(nil)
''', '''	var zbuf, ibuf [64]byte
	zout := zmac.Sum(zbuf[:0])
	iout := imac.Sum(ibuf[:0])
''')]),
 dict(id="cap96", ok=True, units=ALL, edits=[(B, '''	out := make([]byte, 0, 92)
	out = append(out, left...)
	out = append(out, right...)
	out = append(out, iout[32:]...)
''', '''	out := make(XPrv, XPrv_Size)
	copy(out[:32], left)
	copy(out[32:], right)
	copy(out[64:], iout[32:])
''')]),
 dict(id="inplace", ok=False, units=["c23"], edits=[(B, '''	out := make([]byte, 0, 92)
	out = append(out, left...)''', '''	out := append(key[:0], left...)''')]),
 dict(id="pub-appends", ok=False, units=["c23"], edits=[(B, '''	out = append(out, pk[:]...)
	out = append(out, key.ChainCode()...)
	return out
}

func (pub XPub) PublicKey''', '''	out = append(out, pk[:]...)
	copy(key[32:64], pk[:])
	out = append(out, key[64:]...)
	return out
}

func (pub XPub) PublicKey''')]),
 dict(id="seed-append", ok=False, units=["c23"], edits=[(B, '''sha256.Sum256(append([]byte{0x01}, seed...))''', '''sha256.Sum256(append(append(seed[:0:0], 0x01), append(seed[:16], seed[16:]...)...))'''), (B, '''	// Then derive k''', '''	seed = append(seed, 0)[:32]
	// Then derive k''')]),
 dict(id="clamp-swap", ok=False, units=["c17"], edits=[(B, "extendedPrivateKey[31] &= 0b_0101_1111", "extendedPrivateKey[31] &= 0b_0111_1111")]),
 dict(id="sign-prefix", ok=False, units=["c18"], edits=[(B, "hasher.Write((*prv)[32:64])", "hasher.Write((*prv)[:64])")]),
 dict(id="sign-order", ok=True, units=ALL, edits=[(B, '''edwards25519.ScMulAdd(&s, &hramReduced, &b, &nonce)''', '''edwards25519.ScMulAdd(&s, &b, &hramReduced, &nonce)''')]),
 dict(id="sign-swap", ok=False, units=["c18"], edits=[(B, '''edwards25519.ScMulAdd(&s, &hramReduced, &b, &nonce)''', '''edwards25519.ScMulAdd(&s, &hramReduced, &nonce, &b)''')]),
 dict(id="log-key", ok=False, units=["c23"], edits=[(B, '''	zout := zmac.Sum(nil)
''', '''	if len(key) != XPrv_Size {
		log.Printf("unexpected key %x", key)
	}
	zout := zmac.Sum(nil)
'''), (B, '"errors"\n', '"errors"\n	"log"\n'), (B, '''	if len(seed) != 32 {
''', '''	if len(seed) != 32 {
		log.Printf("bad seed %x", seed)
''')]),
 dict(id="err-seed", ok=False, units=["c23"], edits=[(B, '''errors.New("seed needs to be 256 bits long")''', '''fmt.Errorf("seed %x needs to be 256 bits long", seed)'''), (B, '"errors"\n', '"fmt"\n')]),
 dict(id="err-len", ok=True, units=ALL, edits=[(B, '''errors.New("seed needs to be 256 bits long")''', '''fmt.Errorf("seed of %d bytes needs to be 256 bits long", len(seed))'''), (B, '"errors"\n', '"fmt"\n')]),
 dict(id="sign-compact", ok=True, units=ALL, edits=[(B, '''	hasher = sha512.New()
	hasher.Write(signature[:])
	hasher.Write(message)
	var hram [64]byte
	hramTmp := hasher.Sum(nil)
	copy(hram[:], hramTmp)
''', '''	hram := sha512.Sum512(append(append([]byte{}, signature[:]...), message...))
''')]),
 dict(id="sign-reset", ok=True, units=ALL, edits=[(B, '''	hasher = sha512.New()
	hasher.Write(signature[:])
''', '''	hasher.Reset()
	hasher.Write(r[:])
	hasher.Write(publicKey[:])
''')]),
 dict(id="skip-msg-empty", ok=False, units=["c18"], edits=[(B, '''	hasher.Write((*prv)[32:64])
	hasher.Write(message)
''', '''	hasher.Write((*prv)[32:64])
	if len(message) > 64 {
		message = message[:64]
	}
	hasher.Write(message)
''')]),
]
