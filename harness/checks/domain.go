package checks

import (
	"math/big"
	"reflect"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"pgregory.net/rapid"
	. "verif/core"
	"verif/ref/fpref"
	sr "verif/ref/sidhref"
)

// --- C33 domain parameters

type c33 struct {
	Set  int    `json:"set"`
	What string `json:"what"`
}

func fp2Of(s *sr.Set, v *common.Fp2) (r sr.Fp2, ok bool) {
	get := func(f common.Fp) (e fpref.El, ok bool) {
		n := s.F.N
		for i := n; i < len(f); i++ {
			if f[i] != 0 {
				return e, false
			}
		}
		b := fromW(f[:n])
		// field arithmetic works with representatives below 2p
		return s.F.Raw(new(big.Int).Mod(b, s.F.Big)), b.Cmp(new(big.Int).Lsh(s.F.Big, 1)) < 0
	}
	a, ok1 := get(v.A)
	b, ok2 := get(v.B)
	return sr.Fp2{A: a, B: b}, ok1 && ok2
}

// walk simulates the traversal of the isogeny tree with a strategy: every jump
// must land on a point of the right order.
func walkStrategy(st []uint32, rows int) error {
	var stack []int
	at, used := 0, 0
	for row := 1; row < rows; row++ {
		for at < rows-row {
			stack = append(stack, at)
			if used >= len(st) {
				return Errf("strategy exhausted in row %d", row)
			}
			k := int(st[used])
			used++
			if k == 0 {
				return Errf("strategy makes no progress")
			}
			at += k
		}
		if at != rows-row {
			return Errf("strategy overshoots in row %d: %d", row, at)
		}
		if len(stack) == 0 {
			return Errf("strategy runs out of points in row %d", row)
		}
		at = stack[len(stack)-1]
		stack = stack[:len(stack)-1]
	}
	if at != 0 || len(stack) != 0 {
		return Errf("strategy ends at %d with %d points left", at, len(stack))
	}
	return nil
}

func runC33(c c33, x *Ctx) error {
	s := sr.ByName(c.Set)
	id := sidhIDs[c.Set]
	p := common.Params(id)
	x.NT()
	eq := func(name string, got, want int) error {
		if got != want {
			return Errf("p%d: %s is %d, the specification has %d", c.Set, name, got, want)
		}
		return nil
	}
	first := func(e ...error) error {
		for _, v := range e {
			if v != nil {
				return v
			}
		}
		return nil
	}
	switch c.What {
	case "sizes":
		pub := sidh.NewPublicKey(id, sidh.KeyVariantSike)
		prvA, prvB, prvS := sidh.NewPrivateKey(id, sidh.KeyVariantSidhA), sidh.NewPrivateKey(id, sidh.KeyVariantSidhB), sidh.NewPrivateKey(id, sidh.KeyVariantSike)
		k := newKem("sidh", 0, c.Set, GoodRNG(1).New())
		km := newKem("mkem", 0, c.Set, GoodRNG(1).New())
		var m mkem.MultiKEM
		m.Allocate(id, 2, GoodRNG(1).New())
		kk := km.(*mkem.KEM)
		mprv, mpub := m.NewPrivateKey(), m.NewPublicKey()
		if mprv.Variant() != sidh.KeyVariantSike || mpub.Variant() != sidh.KeyVariantSike {
			return Errf("p%d: MultiKEM makes keys of variants %d and %d", c.Set, mprv.Variant(), mpub.Variant())
		}
		if err := mprv.Generate(GoodRNG(1).New()); err != nil {
			return Errf("p%d: key made by MultiKEM: %v", c.Set, err)
		}
		mprv.GeneratePublicKey(mpub)
		return first(eq("public key size by mkem", kk.PublicKeySize(), s.PkLen()), eq("key size by mkem", kk.KemSize(), s.Kem), eq("size of MultiKEM public key", mpub.Size(), s.PkLen()),
			eq("size of MultiKEM private key", mprv.Size(), s.Bytes[1]+s.Msg), eq("field of MultiKEM private key", int(mprv.Params.ID), int(id)), eq("field of MultiKEM public key", int(mpub.Params.ID), int(id)),
			eq("ID", int(p.ID), int(id)), eq("Bytelen", p.Bytelen, s.Len), eq("PublicKeySize", p.PublicKeySize, s.PkLen()), eq("SharedSecretSize", p.SharedSecretSize, s.SsLen()),
			eq("MsgLen", p.MsgLen, s.Msg), eq("KemSize", p.KemSize, s.Kem), eq("CiphertextSize", p.CiphertextSize, s.CtLen()),
			eq("A.SecretByteLen", int(p.A.SecretByteLen), s.Bytes[0]), eq("B.SecretByteLen", int(p.B.SecretByteLen), s.Bytes[1]),
			eq("A.SecretBitLen", int(p.A.SecretBitLen), s.Bits[0]), eq("B.SecretBitLen", int(p.B.SecretBitLen), s.Bits[1]),
			eq("public key size", pub.Size(), s.PkLen()), eq("private key size A", prvA.Size(), s.Bytes[0]), eq("private key size B", prvB.Size(), s.Bytes[1]),
			eq("SIKE private key size", prvS.Size(), s.Bytes[1]+s.Msg), eq("secret size", prvA.SharedSecretSize(), s.SsLen()), eq("secret size", prvB.SharedSecretSize(), s.SsLen()),
			eq("ciphertext size", k.CiphertextSize(), s.CtLen()), eq("key size", k.SharedSecretSize(), s.Kem), eq("mkem ciphertext size", km.CiphertextSize(), s.CtLen()), eq("mkem key size", km.SharedSecretSize(), s.Kem))
	case "points":
		for side, d := range []*common.DomainParams{&p.A, &p.B} {
			for i, v := range []*common.Fp2{&d.AffineP, &d.AffineQ, &d.AffineR} {
				got, ok := fp2Of(s, v)
				if !ok {
					return Errf("p%d: base point %d of side %d is out of range", c.Set, i, side)
				}
				if got != s.Base[side][i] {
					return Errf("p%d: base point %d of side %d differs from the specification's", c.Set, i, side)
				}
				// its order divides l^e and, P and Q, is exactly l^e
				l, e := int64(2), s.E2
				if side == 1 {
					l, e = 3, s.E3
				}
				pt := sr.Pt{X: got, Z: s.One}
				full := new(big.Int).Exp(big.NewInt(l), big.NewInt(int64(e)), nil)
				part := new(big.Int).Exp(big.NewInt(l), big.NewInt(int64(e-1)), nil)
				q := s.MulPt(&pt, &s.A0, full)
				if !q.Z.IsZero() {
					return Errf("p%d: base point %d of side %d isn't in the %d^%d torsion", c.Set, i, side, l, e)
				}
				if q = s.MulPt(&pt, &s.A0, part); q.Z.IsZero() {
					return Errf("p%d: base point %d of side %d has too small an order", c.Set, i, side)
				}
			}
		}
	case "constants":
		one, ok1 := fp2Of(s, &p.OneFp2)
		half, ok2 := fp2Of(s, &p.HalfFp2)
		a, ok3 := fp2Of(s, &p.InitCurve.A)
		cc, ok4 := fp2Of(s, &p.InitCurve.C)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return Errf("p%d: a constant is out of range", c.Set)
		}
		var two, t sr.Fp2
		two = s.Small(2)
		s.Mul(&t, &two, &half)
		if one != s.One || t != s.One {
			return Errf("p%d: constants one or one half are wrong", c.Set)
		}
		s.Mul(&t, &s.A0, &cc)
		if cc.IsZero() || t != a {
			return Errf("p%d: the starting curve isn't the specification's", c.Set)
		}
	case "strategies":
		if err := walkStrategy(p.A.IsogenyStrategy, s.E2/2); err != nil {
			return Errf("p%d, 2-torsion: %v", c.Set, err)
		}
		if err := walkStrategy(p.B.IsogenyStrategy, s.E3); err != nil {
			return Errf("p%d, 3-torsion: %v", c.Set, err)
		}
	}
	return nil
}

// c33r: the table of parameters against a map.
type c33r struct {
	Ops []c33op `json:"ops"`
}
type c33op struct {
	Op string `json:"op"`
	ID uint8  `json:"id"`
	V  int    `json:"v"`
}

func genC33r(t *rapid.T) c33r {
	return c33r{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c33op {
		return c33op{rapid.SampledFrom([]string{"get", "get", "reg", "key", "pub", "kem", "mkem", "multi"}).Draw(t, "op"), rapid.OneOf(rapid.Uint8(), rapid.Uint8Range(0, 4)).Draw(t, "id"), rapid.IntRange(1, 100).Draw(t, "v")}
	}), 1, 12).Draw(t, "ops")}
}

var c33model map[uint8]common.SidhParams

func runC33r(c c33r, x *Ctx) error {
	if c33model == nil {
		c33model = map[uint8]common.SidhParams{}
		for _, id := range sidhIDs {
			c33model[id] = *common.Params(id)
		}
	}
	for i, op := range c.Ops {
		want, known := c33model[op.ID]
		builtin := op.ID == sidh.Fp434 || op.ID == sidh.Fp503 || op.ID == sidh.Fp751
		switch op.Op {
		case "get":
			var got *common.SidhParams
			cg := Try(func() { got = common.Params(op.ID) })
			if cg.Panicked == known {
				return Errf("op %d: Params(%d): known %v, panic %v", i, op.ID, known, cg.Val)
			}
			if known && !reflect.DeepEqual(*got, want) {
				return Errf("op %d: Params(%d) gives other parameters than registered", i, op.ID)
			}
		case "reg":
			id := op.ID
			if op.V%3 == 0 {
				id = uint8(op.V)
			}
			p := common.SidhParams{ID: id, Bytelen: op.V, MsgLen: op.V + 1, PublicKeySize: 6 * op.V}
			cg := Try(func() { common.Register(op.ID, &p) })
			if cg.Panicked != known {
				return Errf("op %d: Register(%d): already known %v, panic %v", i, op.ID, known, cg.Val)
			}
			if !known {
				c33model[op.ID] = p
				p.Bytelen, p.ID = 0, 0 // no effect any more
				if got := common.Params(op.ID); true {
					got.MsgLen, got.PublicKeySize = 0, 0
				}
			}
			if !reflect.DeepEqual(*common.Params(op.ID), c33model[op.ID]) {
				return Errf("op %d: Register(%d): later look-up gives other parameters", i, op.ID)
			}
		default:
			if known && !builtin {
				continue
			}
			cg := Try(func() {
				switch op.Op {
				case "key":
					if k := sidh.NewPrivateKey(op.ID, sidh.KeyVariantSike); k.Size() != want.MsgLen+int(want.B.SecretByteLen) {
						panic(HarnessError{"size"})
					}
				case "pub":
					sidh.NewPublicKey(op.ID, sidh.KeyVariantSidhA).Size()
				case "kem":
					new(sidh.KEM).Allocate(op.ID, GoodRNG(1).New())
				case "mkem":
					new(mkem.KEM).Allocate(op.ID, GoodRNG(1).New())
				case "multi":
					new(mkem.MultiKEM).Allocate(op.ID, 1, GoodRNG(1).New())
				}
			})
			if cg.Panicked == builtin {
				return Errf("op %d: %s with field %d: known %v, panic %v", i, op.Op, op.ID, builtin, cg.Val)
			}
		}
		if !builtin || op.Op == "reg" {
			x.NT()
		}
	}
	return nil
}

func init() {
	Register(&Prop{ID: "C33", Suites: []*Suite{
		Enum(Suite{Name: "parameters", Shards: 2, Rule: "every case: one group of parameters of one field (sizes; base points and their orders; constants and starting curve; strategies simulated) against the reference"}, func(tier string, emit func(c33)) {
			for _, set := range []int{434, 503, 751} {
				for _, w := range []string{"sizes", "points", "constants", "strategies"} {
					emit(c33{set, w})
				}
			}
		}, runC33),
		Enum(Suite{Name: "parameters-noasm", Config: "noasm", Shards: 2, Rule: "as parameters, pure Go build"}, func(tier string, emit func(c33)) {
			for _, set := range []int{434, 503, 751} {
				for _, w := range []string{"sizes", "points", "constants", "strategies"} {
					emit(c33{set, w})
				}
			}
		}, runC33),
		Gen(Suite{Name: "table", Quick: 40000, Thorough: 400000, Rule: "history of look-ups, registrations and allocations with known and unknown identifiers against a map; at least one unknown or duplicate identifier"}, genC33r, runC33r),
	}})
}
