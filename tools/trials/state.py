U = ["rule:no-shared-writes", "rule:no-ambient-inputs"]
A="address/address.go"; N="network/network.go"; B="bip32/bip32.go"; X="tx/tx.go"; K="tx/tx_builder.go"; BE="internal/bech32/bech32.go"
import subprocess
N=subprocess.run("ls /repo/network/*.go",shell=True,capture_output=True,text=True).stdout.split()[0][6:]
T = [
 dict(id="shared-network", ok=False, units=U, edits=[(N, '''func MainNet() *NetworkInfo {
	return &NetworkInfo{
		NetworkId:     0b0001,
		ProtocolMagic: 764824073,
	}
}''', '''var mainNet = NetworkInfo{
	NetworkId:     0b0001,
	ProtocolMagic: 764824073,
}

func MainNet() *NetworkInfo {
	return &mainNet
}''')]),
 dict(id="copied-network", ok=True, units=U, edits=[(N, '''func MainNet() *NetworkInfo {
	return &NetworkInfo{
		NetworkId:     0b0001,
		ProtocolMagic: 764824073,
	}
}''', '''var mainNet = NetworkInfo{
	NetworkId:     0b0001,
	ProtocolMagic: 764824073,
}

func MainNet() *NetworkInfo {
	n := mainNet
	return &n
}''')]),
 dict(id="hasher-pool", ok=False, units=U, edits=[(B, "func isHardened", '''var shared = sha512.New()

func isHardened'''), (B, '''	hasher := sha512.New()
''', '''	hasher := shared
	hasher.Reset()
''')]),
 dict(id="scratch-buf", ok=False, units=U, edits=[(B, "func isHardened", '''var scratch [32]byte

func isHardened'''), (B, '''	var carry uint16

	out := make([]byte, 32)
	for i := 0; i < 28''', '''	var carry uint16

	out := scratch[:]
	for i := 0; i < 28''')]),
 dict(id="memo", ok=False, units=U, edits=[(B, "func isHardened", '''var known = map[string][crypto.PublicKeyLen]byte{}

func isHardened'''), (B, '''	h := edwards25519.ExtendedGroupElement{}
	edwards25519.GeScalarMultBase(&h, &key)
	h.ToBytes(&result)
	return result
''', '''	if r, ok := known[string(key[:])]; ok {
		return r
	}
	h := edwards25519.ExtendedGroupElement{}
	edwards25519.GeScalarMultBase(&h, &key)
	h.ToBytes(&result)
	known[string(key[:])] = result
	return result
''')]),
 dict(id="table-slice", ok=True, units=U, edits=[(BE, 'var charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"', 'var charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"\n\nfunc Generators() []uint32 { return append([]uint32(nil), generator...) }')]),
 dict(id="table-exposed", ok=False, units=U, edits=[(BE, 'var charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"', 'var charset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"\n\nfunc Generators() []uint32 { return generator[:] }')]),
 dict(id="err-var", ok=True, units=U, edits=[(B, "func isHardened", '''var errSeed = errors.New("seed needs to be 256 bits long")

func isHardened'''), (B, '''errors.New("seed needs to be 256 bits long")
	}''', '''errSeed
	}''')]),
 dict(id="clock", ok=False, units=U, edits=[(B, "func isHardened", '''var _ = time.Now

func isHardened'''), (B, '"errors"\n', '"errors"\n	"time"\n'), (B, '''	hasher.Write((*prv)[32:64])
''', '''	hasher.Write((*prv)[32:64])
	hasher.Write([]byte(time.Now().String())[:0])
''')]),
 dict(id="goroutines", ok=False, units=U, edits=[(B, '''	left := add28mul8(key[:32], zout[:32])
''', '''	var left []byte
	done := make(chan struct{})
	go func() {
		left = add28mul8(key[:32], zout[:32])
		close(done)
	}()
	<-done
''')]),
 dict(id="table-write-through-param", ok=False, units=U, edits=[("crypto/edwards25519/edwards25519.go", '''		PreComputedGroupElementCMove(t, &base[pos][i], equal(bAbs, i+1))
''', '''		PreComputedGroupElementCMove(&base[pos][i], t, equal(bAbs, 99))
		PreComputedGroupElementCMove(t, &base[pos][i], equal(bAbs, i+1))
''')]),
]
