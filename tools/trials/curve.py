F = "crypto/edwards25519/edwards25519.go"
K = "crypto/edwards25519/const.go"
U = ["c21", "c19", "c18", "c22"]
def b(id, *e): return dict(id=id, ok=False, units=["c21", "c19"], edits=[x if len(x) == 3 else (F,) + x for x in e])
def r(id, *e): return dict(id=id, ok=True, units=U, edits=[x if len(x) == 3 else (F,) + x for x in e])
DBL = '''	h.Double(&r)
	r.ToProjective(&s)
	s.Double(&r)
	r.ToProjective(&s)
	s.Double(&r)
	r.ToProjective(&s)
	s.Double(&r)
	r.ToExtended(h)
'''
TB = '''	FeInvert(&recip, &p.Z)
	FeMul(&x, &p.X, &recip)
	FeMul(&y, &p.Y, &recip)
	FeToBytes(s, &y)
	s[31] ^= FeIsNegative(&x) << 7
}

func (p *ExtendedGroupElement) FromBytes('''
MA = '''	FeMul(&r.T, &q.xy2d, &p.T)
	FeAdd(&t0, &p.Z, &p.Z)
	FeSub(&r.X, &r.Z, &r.Y)
	FeAdd(&r.Y, &r.Z, &r.Y)
	FeAdd(&r.Z, &t0, &r.T)
	FeSub(&r.T, &t0, &r.T)
}

func geMixedSub('''
REC = '''	for i, v := range a {
		e[2*i] = int8(v & 15)
		e[2*i+1] = int8((v >> 4) & 15)
	}

	// each e[i] is between 0 and 15 and e[63] is between 0 and 7.

	carry := int8(0)
	for i := 0; i < 63; i++ {
		e[i] += carry
		carry = (e[i] + 8) >> 4
		e[i] -= carry << 4
	}
	e[63] += carry
'''
T = [
 b("table-limb", (K, "26966642, 11152617", "26966643, 11152617")),
 b("table-swap", (K, "FieldElement{-12815894, -12976347, -21581243, 11784320, -25355658, -2750717, -11717903, -3814571, -358445, -10211303},\n			FieldElement{-21703237, 6903825, 27185491, 6451973, -29577724, -9554005, -15616551, 11189268, -26829678, -5319081},", "FieldElement{-21703237, 6903825, 27185491, 6451973, -29577724, -9554005, -15616551, 11189268, -26829678, -5319081},\n			FieldElement{-12815894, -12976347, -21581243, 11784320, -25355658, -2750717, -11717903, -3814571, -358445, -10211303},")),
 b("round9", ("carry = (e[i] + 8) >> 4", "carry = (e[i] + 9) >> 4")),
 r("round7", ("carry = (e[i] + 8) >> 4", "carry = (e[i] + 7) >> 4")),
 b("carry62", ("for i := 0; i < 63; i++ {\n		e[i] += carry", "for i := 0; i < 62; i++ {\n		e[i] += carry")),
 b("no-top-carry", ("	e[63] += carry\n", "")),
 b("three-doublings", (DBL, DBL.replace("	s.Double(&r)\n	r.ToProjective(&s)\n", "", 1))),
 b("select7", ("for i := int32(0); i < 8; i++ {\n		PreComputed", "for i := int32(0); i < 7; i++ {\n		PreComputed")),
 b("equal-sign", ("	x--\n	return int32(x >> 31)", "	x--\n	return int32(x>>31) & (1 - b>>3)")),
 b("neg-no-xy2d", ("	FeNeg(&minusT.xy2d, &t.xy2d)", "	FeCopy(&minusT.xy2d, &t.xy2d)")),
 b("sign6", (TB, TB.replace("<< 7", "<< 6"))),
 b("sign-y", (TB, TB.replace("FeIsNegative(&x)", "FeIsNegative(&y)"))),
 b("mixed-swap", (MA, MA.replace("FeAdd(&r.Z, &t0, &r.T)", "FeSub(&r.Z, &t0, &r.T)").replace("	FeSub(&r.T, &t0, &r.T)", "	FeAdd(&r.T, &t0, &r.T)"))),
 b("toext-T", ("	FeMul(&r.T, &p.X, &p.Y)\n}\n\nfunc (p *Pre", "	FeMul(&r.T, &p.X, &p.T)\n}\n\nfunc (p *Pre")),
 b("double-square", ("	FeSquare2(&r.T, &p.Z)", "	FeSquare(&r.T, &p.Z)")),
 b("double-alias", ("	FeAdd(&r.Y, &p.X, &p.Y)\n	FeSquare(&t0, &r.Y)\n	FeAdd(&r.Y, &r.Z, &r.X)", "	FeAdd(&t0, &p.X, &p.Y)\n	FeSquare(&t0, &t0)\n	FeAdd(&r.Y, &r.X, &r.X)")),
 b("odd-row", ("	for i := int32(1); i < 64; i += 2 {\n		selectPoint(&t, i/2,", "	for i := int32(1); i < 64; i += 2 {\n		selectPoint(&t, (i+1)/2&31,")),
 b("lone-top-digit", ("	for i := int32(1); i < 64; i += 2 {", "	for i := int32(1); i < 63; i += 2 {")),
 r("recode-helper", (REC, "	e = recode(a)\n"), ("// GeScalarMultBase computes", "func recode(a *[32]byte) (e [64]int8) {\n" + REC + "	return e\n}\n\n// GeScalarMultBase computes")),
 r("double-loop", (DBL, '''	h.ToProjective(&s)
	for i := 0; i < 3; i++ {
		s.Double(&r)
		r.ToProjective(&s)
	}
	s.Double(&r)
	r.ToExtended(h)
''')),
 r("mixed-order", (MA, '''	FeAdd(&t0, &p.Z, &p.Z)
	FeMul(&r.T, &p.T, &q.xy2d)
	FeSub(&r.X, &r.Z, &r.Y)
	FeAdd(&r.Y, &r.Y, &r.Z)
	FeAdd(&r.Z, &r.T, &t0)
	FeSub(&r.T, &t0, &r.T)
}

func geMixedSub(''')),
 r("affine-helper", (TB, '''	p.affine(&x, &y)
	_ = recip
	FeToBytes(s, &y)
	s[31] |= FeIsNegative(&x) << 7
}

func (p *ExtendedGroupElement) affine(x, y *FieldElement) {
	var recip FieldElement
	FeInvert(&recip, &p.Z)
	FeMul(x, &recip, &p.X)
	FeMul(y, &recip, &p.Y)
}

func (p *ExtendedGroupElement) FromBytes(''')),
 r("add-loop", ('''	dst[0] = a[0] + b[0]
	dst[1] = a[1] + b[1]
	dst[2] = a[2] + b[2]
	dst[3] = a[3] + b[3]
	dst[4] = a[4] + b[4]
	dst[5] = a[5] + b[5]
	dst[6] = a[6] + b[6]
	dst[7] = a[7] + b[7]
	dst[8] = a[8] + b[8]
	dst[9] = a[9] + b[9]
''', "	for i := range dst {\n		dst[i] = a[i] + b[i]\n	}\n")),
 r("select-neg", ("bAbs := b - (((-bNegative) & b) << 1)", "bAbs := (b ^ -bNegative) + bNegative")),
 r("add-helper", ("		geMixedAdd(&r, h, &t)\n		r.ToExtended(h)\n	}\n\n	var s", "		addDigit(h, &t)\n	}\n\n	var s"), ("// GeScalarMultBase computes", "func addDigit(h *ExtendedGroupElement, t *PreComputedGroupElement) {\n	var r CompletedGroupElement\n	geMixedAdd(&r, h, t)\n	r.ToExtended(h)\n}\n\n// GeScalarMultBase computes")),
 r("invert-helper", ("	FeSquare(&t0, z)        // 2^1\n" , "	FeMul(&t0, z, z)        // 2^1\n")),
 r("nonzero-loop", ("	x |= x >> 4\n	x |= x >> 2\n	x |= x >> 1\n	return int32(x & 1)", "	if x != 0 {\n		return 1\n	}\n	return 0")),
]
