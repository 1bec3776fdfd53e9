"""Mutants of the scalar arithmetic (every one changes the result for some input), and rewrites."""
import random, re
F = "crypto/edwards25519/edwards25519.go"
SRC = open("/repo/" + F).read()
def fn(name):
    i = SRC.index("func %s(" % name); j = SRC.index("\n}\n", i) + 3
    return SRC[i:j]
T = []
rng = random.Random(5)
for name, unit in (("ScReduce", "c20.Check_Reduce"), ("ScMulAdd", "c20.Check_MulAdd")):
    body = fn(name); lines = body.split("\n")
    picks = rng.sample([i for i, l in enumerate(lines) if re.search(r"carry\[\d+\]|\* \d{6}|out\[|s\[\d+\] =|load", l)], 40)
    for n, i in enumerate(picks):
        l = lines[i]
        def num(m):
            return str(int(m.group(0)) + 1)
        kind = n % 3
        if kind == 0:
            new = re.sub(r"\d{6,}|(?<=>> )\d+|(?<=<< )\d+", num, l, count=1)
        elif kind == 1 and (" += " in l or " -= " in l):
            new = ""
        else:
            new = l.replace(" += ", " -= ") if " += " in l else l.replace(" -= ", " += ") if " -= " in l else re.sub(r">> \d+", lambda m: ">> %d" % (int(m.group(0)[3:]) + 1), l)
        if new == l or "1 << 21" in new: continue  # another rounding is harmless
        nb = "\n".join(lines[:i] + [new] + lines[i+1:])
        T.append(dict(id="%s-%d-%s" % (name, i, l.strip()[:24].replace(" ", "")), ok=False, units=[unit], edits=[(F, body, nb)]))
L3 = fn("load3")
T.append(dict(id="load3-loop", ok=True, units=["c20"], edits=[(F, L3, '''func load3(in []byte) int64 {
	var r int64
	for i := 2; i >= 0; i-- {
		r = r<<8 + int64(in[i])
	}
	return r
}
''')]))
R = fn("ScReduce")
i = R.index("\tcarry[0] = s0 >> 21"); 
T.append(dict(id="tail-loop", ok=True, units=["c20"], edits=[(F, R, R[:R.rindex("\tcarry[0] = s0 >> 21")] + '''	limbs := [12]int64{s0, s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11}
	for i := 0; i < 11; i++ {
		c := limbs[i] >> 21
		limbs[i+1] += c
		limbs[i] -= c << 21
	}
	s0, s1, s2, s3, s4, s5 = limbs[0], limbs[1], limbs[2], limbs[3], limbs[4], limbs[5]
	s6, s7, s8, s9, s10, s11 = limbs[6], limbs[7], limbs[8], limbs[9], limbs[10], limbs[11]

''' + R[R.index("\tout[0] = "):])]))
K = R.rindex("\tcarry[0] = s0 >> 21")
T.append(dict(id="mask", ok=True, units=["c20"], edits=[(F, R, R[:K] + re.sub(r"\ts(\d+) -= carry\[\d+\] << 21\n", r"\ts\1 &= 1<<21 - 1\n", R[K:]))]))
M = fn("ScMulAdd")
T.append(dict(id="shiftmul", ok=True, units=["c20"], edits=[(F, M, M.replace("carry[3] << 21", "carry[3] * 2097152").replace("+ (1 << 20)) >> 21", "+ 1048576) >> 21"))]))
T.append(dict(id="out-loop", ok=True, units=["c20"], edits=[(F, R, R[:R.index("\tout[0] = ")] + '''	limbs := [...]int64{s0, s1, s2, s3, s4, s5, s6, s7, s8, s9, s10, s11}
	var acc uint64
	var n uint
	k := 0
	for _, l := range limbs {
		acc |= uint64(l) << n
		n += 21
		for n >= 8 {
			out[k] = byte(acc)
			k++
			acc >>= 8
			n -= 8
		}
	}
	out[31] = byte(acc)
}
''')]))
