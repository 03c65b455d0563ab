package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the library functions used by the repository do, as operations on
// terms. Group elements are products of powers, scalars are integers modulo
// the group order, integers are polynomials, byte strings concatenations.

var intrinsics = map[string]opaqueFn{}

func (x *Exec) pt(st *State, r *Term) *Term  { return x.load(st, r, "point") }
func (x *Exec) sec(st *State, r *Term) *Term { return x.load(st, r, "secret") }
func (x *Exec) big(st *State, r *Term) *Term { return x.load(st, r, "big") }

func tup(ts ...*Term) *Term { return rawApp("tuple", ts...) }

// argType: the static type of an argument before it became an interface,
// followed into the callers where they hand it on as an interface
func argType(f *frame, c *callInfo, k int) types.Type {
	v := c.cc.Args[k]
	for {
		switch m := v.(type) {
		case *ssa.MakeInterface:
			return m.X.Type()
		case *ssa.ChangeInterface:
			v = m.X
			continue
		case *ssa.Parameter:
			if f != nil && f.cc != nil && f.parent != nil && m.Parent() == f.fn && types.IsInterface(m.Type()) {
				for i, p := range f.fn.Params {
					if p == m {
						v, f = f.cc.Args[i], f.parent
						break
					}
				}
				continue
			}
		}
		return v.Type()
	}
}

func stripPtr(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

func (x *Exec) decoded(st *State, ok *Term) {
	if x.onDecode != nil && x.mon {
		x.onDecode(st, ok)
	}
}

func errIf(ok *Term, what string) *Term { return ite(ok, tNil, rawApp("errval", str(what))) }

func (x *Exec) drawFrom(f *frame, st *State, c *callInfo, src, m *Term) *Term {
	s := x.srcOf(st, src)
	if s == tSysRnd {
		t := rawApp("rnd", append([]*Term{s, m, str(c.site)}, x.lv...)...)
		x.draws[t] = x.p.pos(c.pos)
		return t
	}
	// a deterministic stream: the value, then the next state
	cs := x.load(st, src, "")
	v := app("hpick", cs, m)
	x.store(st, src, app("cnext", cs), "")
	return v
}

func (x *Exec) srcOf(st *State, src *Term) *Term {
	if src == tSysRnd {
		return src
	}
	if src.is("alloc") {
		if v := x.load(st, src, ""); v == tSysRnd {
			return v
		}
	}
	if src.is("fld") || src.is("root") {
		return src
	}
	return src
}

func cmpTerm(a, b *Term) *Term { return signOf(sub(a, b)) }

func signOf(d *Term) *Term {
	return liftN("sign", func(a []*Term) *Term {
		d := a[0]
		if d == tUnset || d == tUndef {
			return d
		}
		if d.k == KNum {
			return num(int64(d.n.Sign()))
		}
		if leadNeg(d) {
			return neg(rawApp("sign", neg(d)))
		}
		return rawApp("sign", d)
	}, d)
}

func numEq(a, b *Term) *Term { return eq(sub(a, b), num(0)) }

func init() {
	I := intrinsics
	abs := absPkg + "."

	// ---- the suite
	newObj := func(v *Term) opaqueFn {
		return func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			r := x.alloc(c.site)
			x.store(st, r, v, "")
			return r
		}
	}
	for _, g := range []string{"Group", "Suite"} {
		I[abs+g+".Point"] = newObj(tUnset)
		I[abs+g+".Secret"] = newObj(tUnset)
		I[abs+g+".Hash"] = newObj(str(""))
		I[abs+g+".Cipher"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			r := x.alloc(c.site)
			k := c.args[1]
			if k == cst("RandomKey") || k == tNil {
				x.store(st, r, tSysRnd, "")
			} else {
				x.store(st, r, app("cipher", x.bytesVal(st, k)), "")
			}
			return r
		}
		I[abs+g+".PointLen"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return cst("pointlen") }
		I[abs+g+".SecretLen"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return cst("secretlen") }
	}
	I["github.com/dedis/crypto/nist.NewAES128SHA256QR512"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return cst("suite") }
	I[abs+"Cipher.Message"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := c.args[0]
		old := x.load(st, r, "")
		x.store(st, r, app("cabs", old, x.bytesVal(st, c.args[2]), x.bytesVal(st, c.args[3])), "")
		return r
	}
	I["("+abs+"Cipher).Message"] = I[abs+"Cipher.Message"]

	// ---- group elements
	setP := func(g func(x *Exec, st *State, a []*Term) *Term) opaqueFn {
		return func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			v := g(x, st, c.args)
			x.store(st, c.args[0], v, "point")
			return c.args[0]
		}
	}
	I["Point.Null"] = setP(func(x *Exec, st *State, a []*Term) *Term { return mkGrp(tNil, nil) })
	I["Point.Base"] = setP(func(x *Exec, st *State, a []*Term) *Term { return grpAtom(tBase) })
	I["Point.Add"] = setP(func(x *Exec, st *State, a []*Term) *Term { return gmul(x.pt(st, a[1]), x.pt(st, a[2])) })
	I["Point.Sub"] = setP(func(x *Exec, st *State, a []*Term) *Term {
		return gmul(x.pt(st, a[1]), gexp(x.pt(st, a[2]), num(-1)))
	})
	I["Point.Neg"] = setP(func(x *Exec, st *State, a []*Term) *Term { return gexp(x.pt(st, a[1]), num(-1)) })
	I["Point.Mul"] = setP(func(x *Exec, st *State, a []*Term) *Term {
		b := localLift(a[1], func(l, _ *Term) *Term {
			if l == tNil {
				return grpAtom(tBase)
			}
			return x.pt(st, l)
		})
		return gexp(b, x.sec(st, a[2]))
	})
	I["Point.Equal"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return eq(x.pt(st, c.args[0]), x.pt(st, c.args[1]))
	}
	I["Point.MarshalBinary"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return tup(marsh(x.pt(st, c.args[0])), tNil)
	}
	I["Point.String"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return pstrOf(x.pt(st, c.args[0]))
	}
	I["Point.UnmarshalBinary"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		b := x.bytesVal(st, c.args[1])
		k := str("point")
		ok := okDec(k, b)
		v := ite(ok, grpAtom(decOf(k, b)), grpAtom(app("baddec", k, b)))
		x.store(st, c.args[0], v, "point")
		x.decoded(st, ok)
		return errIf(ok, "point")
	}
	I["Point.Pick"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		v := x.drawFrom(f, st, c, c.args[2], cst("group"))
		x.store(st, c.args[0], grpAtom(app("embed", x.bytesVal(st, c.args[1]), v)), "point")
		return tup(c.args[0], tNil)
	}

	// ---- scalars
	setS := func(g func(x *Exec, st *State, a []*Term) *Term) opaqueFn {
		return func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			v := g(x, st, c.args)
			x.store(st, c.args[0], v, "secret")
			return c.args[0]
		}
	}
	m := func(t *Term) *Term { return mod(t, tQ) }
	I["Secret.Add"] = setS(func(x *Exec, st *State, a []*Term) *Term { return m(add(x.sec(st, a[1]), x.sec(st, a[2]))) })
	I["Secret.Sub"] = setS(func(x *Exec, st *State, a []*Term) *Term { return m(sub(x.sec(st, a[1]), x.sec(st, a[2]))) })
	I["Secret.Mul"] = setS(func(x *Exec, st *State, a []*Term) *Term { return m(mul(x.sec(st, a[1]), x.sec(st, a[2]))) })
	I["Secret.Neg"] = setS(func(x *Exec, st *State, a []*Term) *Term { return m(neg(x.sec(st, a[1]))) })
	I["Secret.Inv"] = setS(func(x *Exec, st *State, a []*Term) *Term { return app("sinv", x.sec(st, a[1])) })
	I["Secret.Div"] = setS(func(x *Exec, st *State, a []*Term) *Term {
		return m(mul(x.sec(st, a[1]), app("sinv", x.sec(st, a[2]))))
	})
	I["Secret.Zero"] = setS(func(x *Exec, st *State, a []*Term) *Term { return num(0) })
	I["Secret.One"] = setS(func(x *Exec, st *State, a []*Term) *Term { return num(1) })
	I["Secret.Set"] = setS(func(x *Exec, st *State, a []*Term) *Term { return x.sec(st, a[1]) })
	I["Secret.SetInt64"] = setS(func(x *Exec, st *State, a []*Term) *Term {
		return localLift(a[1], func(p, _ *Term) *Term { return m(p) })
	})
	I["Secret.Pick"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		v := x.drawFrom(f, st, c, c.args[1], tQ)
		x.store(st, c.args[0], v, "secret")
		return c.args[0]
	}
	I["Secret.Equal"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return eq(x.sec(st, c.args[0]), x.sec(st, c.args[1]))
	}
	I["Secret.MarshalBinary"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return tup(marsh(x.sec(st, c.args[0])), tNil)
	}
	I["Secret.String"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return app("sstr", x.sec(st, c.args[0])) }
	I["Secret.MarshalSize"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return cst("secretlen") }
	I["Secret.UnmarshalBinary"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		b := x.bytesVal(st, c.args[1])
		k := str("secret")
		ok := okDec(k, b)
		v := ite(ok, secVal(decOf(k, b)), secVal(app("baddec", k, b)))
		x.store(st, c.args[0], v, "secret")
		x.decoded(st, ok)
		return errIf(ok, "secret")
	}

	// ---- integers
	bg := "(*math/big.Int)."
	setB := func(g func(x *Exec, st *State, a []*Term) *Term) opaqueFn {
		return func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			v := g(x, st, c.args)
			x.store(st, c.args[0], v, "big")
			return c.args[0]
		}
	}
	bin := func(g func(a, b *Term) *Term) opaqueFn {
		return setB(func(x *Exec, st *State, a []*Term) *Term { return g(x.big(st, a[1]), x.big(st, a[2])) })
	}
	un := func(g func(a *Term) *Term) opaqueFn {
		return setB(func(x *Exec, st *State, a []*Term) *Term { return g(x.big(st, a[1])) })
	}
	I[bg+"Add"] = bin(add)
	I[bg+"Sub"] = bin(sub)
	I[bg+"Mul"] = bin(mul)
	I[bg+"Mod"] = bin(mod)
	I[bg+"Div"] = bin(func(a, b *Term) *Term { return bigDiv("div", a, b) })
	I[bg+"Quo"] = bin(func(a, b *Term) *Term { return bigDiv("quo", a, b) })
	I[bg+"Rem"] = bin(func(a, b *Term) *Term { return app("rem", a, b) })
	I[bg+"And"] = bin(func(a, b *Term) *Term { return app("band", a, b) })
	I[bg+"Or"] = bin(func(a, b *Term) *Term { return app("bor", a, b) })
	I[bg+"Xor"] = bin(func(a, b *Term) *Term { return app("bxor", a, b) })
	I[bg+"Neg"] = un(neg)
	I[bg+"Set"] = un(func(a *Term) *Term { return a })
	I[bg+"Abs"] = un(absOf)
	I[bg+"Sqrt"] = un(func(a *Term) *Term { return app("isqrt", a) })
	I[bg+"SetInt64"] = setB(func(x *Exec, st *State, a []*Term) *Term { return x.fromMachine(a[1]) })
	I[bg+"SetUint64"] = setB(func(x *Exec, st *State, a []*Term) *Term { return a[1] })
	I[bg+"SetBytes"] = setB(func(x *Exec, st *State, a []*Term) *Term { return numOf(x.bytesVal(st, a[1])) })
	I[bg+"Lsh"] = setB(func(x *Exec, st *State, a []*Term) *Term {
		v := x.big(st, a[1])
		return localLift(a[2], func(k, _ *Term) *Term {
			if k.k == KNum && k.n.IsInt64() && k.n.Int64() < 8192 {
				return mul(v, bigTerm(new(big.Int).Lsh(big.NewInt(1), uint(k.n.Int64()))))
			}
			return app("shl", v, k)
		})
	})
	I[bg+"Rsh"] = setB(func(x *Exec, st *State, a []*Term) *Term { return app("shr", x.big(st, a[1]), a[2]) })
	I[bg+"Exp"] = setB(func(x *Exec, st *State, a []*Term) *Term {
		b, e := x.big(st, a[1]), x.big(st, a[2])
		return localLift(a[3], func(l, _ *Term) *Term {
			if l == tNil {
				if b.k == KNum && e.k == KNum && e.n.IsInt64() && e.n.Int64() >= 0 && e.n.Int64() < 4096 {
					return bigTerm(new(big.Int).Exp(b.n, e.n, nil))
				}
				return app("pow", b, e)
			}
			return localLift(x.big(st, l), func(mm, _ *Term) *Term { return bigExp(b, e, mm) })
		})
	})
	I[bg+"ModInverse"] = setB(func(x *Exec, st *State, a []*Term) *Term {
		b := x.big(st, a[1])
		return localLift(x.big(st, a[2]), func(mm, _ *Term) *Term { return gexp(toGrp(b, mm), num(-1)) })
	})
	I[bg+"SetString"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		v := app("atoi", c.args[1], c.args[2])
		ok := asBool(app("atoiok", c.args[1], c.args[2]))
		if s := c.args[1]; s.k == KStr && c.args[2].k == KNum {
			if n, k := new(big.Int).SetString(s.op, int(c.args[2].n.Int64())); k {
				v, ok = bigTerm(n), tTrue
			}
		}
		x.store(st, c.args[0], v, "big")
		return tup(ite(ok, c.args[0], tNil), ok)
	}
	I[bg+"Cmp"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return cmpTerm(x.big(st, c.args[0]), x.big(st, c.args[1]))
	}
	I[bg+"Sign"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return signOf(x.big(st, c.args[0])) }
	I[bg+"Bytes"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return bytesOf(x.big(st, c.args[0])) }
	I[bg+"String"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return app("itoa", x.big(st, c.args[0])) }
	I[bg+"BitLen"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return localLift(x.big(st, c.args[0]), func(a, _ *Term) *Term {
			if a.k == KNum {
				return num(int64(a.n.BitLen()))
			}
			return rawApp("bitlen", a)
		})
	}
	I[bg+"Bit"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return app("bit", x.big(st, c.args[0]), c.args[1])
	}
	I[bg+"Int64"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return localLift(x.big(st, c.args[0]), func(a, _ *Term) *Term {
			if a.k == KNum && a.n.IsInt64() || a.is("symint") || machineInts[a] {
				return a
			}
			return rawApp("int64", a)
		})
	}
	I[bg+"ProbablyPrime"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return asBool(app("prime", x.big(st, c.args[0])))
	}
	I[bg+"IsInt64"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return asBool(app("isint64", x.big(st, c.args[0])))
	}
	I["math/big.NewInt"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := x.alloc(c.site)
		x.store(st, r, x.fromMachine(c.args[0]), "")
		return r
	}
	rp := "github.com/dedis/crypto/random."
	I[rp+"Int"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := x.alloc(c.site)
		x.store(st, r, x.drawFrom(f, st, c, c.args[1], x.big(st, c.args[0])), "")
		return r
	}
	I[rp+"Bool"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return asBool(x.drawFrom(f, st, c, c.args[0], num(2)))
	}
	I[rp+"Byte"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return x.drawFrom(f, st, c, c.args[0], num(256))
	}
	I[rp+"Uint64"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return x.drawFrom(f, st, c, c.args[0], cst("2^64"))
	}
	I[rp+"Bits"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		v := x.drawFrom(f, st, c, c.args[2], cst("bits"))
		return app("rbits", c.args[0], c.args[1], v)
	}
	I[rp+"Bytes"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		v := x.drawFrom(f, st, c, c.args[1], cst("bytes"))
		return app("rbits", c.args[0], tFalse, v)
	}

	// ---- hashing and buffers
	write := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		b := x.bytesVal(st, c.args[1])
		x.store(st, c.args[0], bcat(x.load(st, c.args[0], ""), b), "")
		return tup(blen(b), tNil)
	}
	content := func(x *Exec, f *frame, st *State, c *callInfo) *Term { return x.load(st, c.args[0], "") }
	reset := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		x.store(st, c.args[0], str(""), "")
		return tNil
	}
	I["hash.Hash.Write"] = write
	I["io.Writer.Write"] = write
	I["hash.Hash.Reset"] = reset
	I["hash.Hash.Size"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return num(32) }
	I["hash.Hash.Sum"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return bcat(x.bytesVal(st, c.args[1]), app("digest", x.load(st, c.args[0], "")))
	}
	I["crypto/sha256.New"] = newObj(str(""))
	I["crypto/sha256.Sum256"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return app("digest", x.bytesVal(st, c.args[0]))
	}
	for _, b := range []string{"(*bytes.Buffer).", "(*strings.Builder)."} {
		I[b+"Write"] = write
		I[b+"WriteString"] = write
		I[b+"WriteByte"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
			x.store(st, c.args[0], bcat(x.load(st, c.args[0], ""), toBytes(mkLit([]*Term{c.args[1]}))), "")
			return tNil
		}
		I[b+"Bytes"] = content
		I[b+"String"] = content
		I[b+"Reset"] = reset
		I[b+"Len"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return blen(x.load(st, c.args[0], "")) }
	}
	newBuf := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := x.alloc(c.site)
		x.store(st, r, x.bytesVal(st, c.args[0]), "")
		return r
	}
	I["bytes.NewBuffer"] = newBuf
	I["bytes.NewReader"] = newBuf
	I["bytes.NewBufferString"] = newBuf
	I["bytes.Equal"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return eq(x.bytesVal(st, c.args[0]), x.bytesVal(st, c.args[1]))
	}
	I["bytes.Compare"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		e := eq(x.bytesVal(st, c.args[0]), x.bytesVal(st, c.args[1]))
		return ite(e, num(0), app("bcmp", x.bytesVal(st, c.args[0]), x.bytesVal(st, c.args[1])))
	}
	I["bytes.Join"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		l := x.deep(st, x.listVal(st, c.args[0]))
		sep := x.bytesVal(st, c.args[1])
		return liftN("bjoin", func(a []*Term) *Term {
			if isEmptyList(a[0]) {
				return str("")
			}
			if a[0].is("lit") {
				r := a[0].args[0]
				for _, p := range a[0].args[1:] {
					r = bcat(bcat(r, a[1]), p)
				}
				return r
			}
			return rawApp("bjoin", a...)
		}, l, sep)
	}

	// ---- encoding
	coder := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		r := x.alloc(c.site)
		x.store(st, r, mkStruct("", tNoBase, []string{"stream"}, []*Term{c.args[0]}), "")
		return r
	}
	I["encoding/gob.NewEncoder"] = coder
	I["encoding/gob.NewDecoder"] = coder
	I["encoding/gob.Register"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return tNil }
	I["(*encoding/gob.Encoder).Encode"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		t := argType(f, c, len(c.cc.Args)-1)
		buf := mkField(x.load(st, c.args[0], ""), "stream")
		v := c.args[1]
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			v = x.load(st, v, objKind(t))
			t = p.Elem()
		}
		e := encOf("gob:"+codecName(t), x.deep(st, v))
		x.store(st, buf, bcat(x.load(st, buf, ""), e), "")
		return tNil
	}
	I["(*encoding/gob.Decoder).Decode"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		t := argType(f, c, len(c.cc.Args)-1)
		buf := mkField(x.load(st, c.args[0], ""), "stream")
		b := x.load(st, buf, "")
		k := str("gob:" + codecName(stripPtr(t)))
		ok := okDec(k, b)
		// where decoding fails, the value may have been filled in part
		x.store(st, c.args[1], ite(ok, decOf(k, b), rawApp("baddec", k, b)), "")
		x.decoded(st, ok)
		return errIf(ok, "gob")
	}
	I["go.dedis.ch/protobuf.Encode"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		t := argType(f, c, 0)
		v := x.load(st, c.args[0], "")
		return tup(encOf("pb:"+codecName(stripPtr(t)), x.deep(st, v)), tNil)
	}
	pbDec := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		t := argType(f, c, 1)
		b := x.bytesVal(st, c.args[0])
		k := str("pb:" + codecName(stripPtr(t)))
		ok := okDec(k, b)
		// where decoding fails, the value may have been filled in part
		x.store(st, c.args[1], ite(ok, decOf(k, b), rawApp("baddec", k, b)), "")
		x.decoded(st, ok)
		return errIf(ok, "protobuf")
	}
	I["go.dedis.ch/protobuf.Decode"] = pbDec
	I["go.dedis.ch/protobuf.DecodeWithConstructors"] = pbDec
	// dedis' own codec: the value's fields in order, each in its group encoding
	I[abs+"Write"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		t := argType(f, c, 1)
		e := encOf("abs:"+codecName(stripPtr(t)), x.deep(st, x.load(st, c.args[1], "")))
		x.store(st, c.args[0], bcat(x.load(st, c.args[0], ""), e), "")
		return tNil
	}
	I[abs+"Read"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		t := argType(f, c, 1)
		b := x.load(st, c.args[0], "")
		k := str("abs:" + codecName(stripPtr(t)))
		ok := okDec(k, b)
		x.store(st, c.args[1], ite(ok, decOf(k, b), rawApp("baddec", k, b)), "")
		x.decoded(st, ok)
		return errIf(ok, "abstract.Read")
	}
	I["(encoding/binary.bigEndian).PutUint32"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		dst := c.args[1]
		v := localLift(c.args[2], func(l, _ *Term) *Term {
			if l.is("u32") {
				return l.args[0]
			}
			return l
		})
		n := x.sliceLen(st, dst)
		if dst.is("slice") && n.isC(4) && dst.args[1].isC(0) && llen(x.load(st, dst.args[0], "")).isC(4) {
			x.store(st, dst.args[0], app("be32", v), "")
		} else {
			for k := 0; k < 4; k++ {
				if dst.is("slice") {
					ref := rawApp("aindex", dst.args[0], add(dst.args[1], num(int64(k))))
					x.store(st, ref, app("byteof", v, num(int64(24-8*k))), "")
				}
			}
		}
		return tNil
	}
	whole32 := func(v *Term) *Term {
		return localLift(v, func(l, _ *Term) *Term {
			if l.is("u32") {
				return l.args[0]
			}
			return l
		})
	}
	I["(encoding/binary.bigEndian).AppendUint32"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return bcat(x.bytesVal(st, c.args[1]), app("be32", whole32(c.args[2])))
	}
	I["encoding/binary.Write"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		v, ok := argType(f, c, 2).Underlying().(*types.Basic)
		if !ok || v.Kind() != types.Uint32 || argType(f, c, 0).String() != "*bytes.Buffer" || argType(f, c, 1).String() != "encoding/binary.bigEndian" {
			return x.external(f, st, c)
		}
		x.store(st, c.args[0], bcat(x.load(st, c.args[0], ""), app("be32", whole32(c.args[2]))), "")
		return tNil
	}
	I["(encoding/binary.bigEndian).Uint32"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return localLift(x.bytesVal(st, c.args[1]), func(b, _ *Term) *Term {
			if b.is("be32") {
				return b.args[0]
			}
			return rawApp("be32val", b)
		})
	}

	// ---- the rest
	I["error.Error"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return app("errstr", c.args[0]) }
	I["errors.New"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return app("errval", c.args[0]) }
	I["fmt.Errorf"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return app("errval", c.args[0]) }
	for _, n := range []string{"fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Fprintf", "fmt.Fprintln", "log.Print", "log.Printf", "log.Println"} {
		I[n] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return tup(cst("n"), tNil) }
	}
	for _, n := range []string{"time.Sleep"} {
		I[n] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return tNil }
	}
	stop := func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		st.pc = tFalse
		return tDead
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit"} {
		I[n] = stop
	}
	I["net.ResolveTCPAddr"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return tup(localLift(c.args[1], func(s, _ *Term) *Term {
			if s.is("addrstr") {
				return s.args[0]
			}
			return rawApp("addr", s)
		}), tNil)
	}
	I["(*net.TCPAddr).String"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return localLift(c.args[0], func(a, _ *Term) *Term {
			if a.is("addr") {
				return a.args[0]
			}
			return rawApp("addrstr", a)
		})
	}
	I["net.Addr.String"] = I["(*net.TCPAddr).String"]
	I["strconv.Itoa"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term { return app("itoa", c.args[0]) }
	I["strconv.Atoi"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		return localLift(c.args[0], func(s, _ *Term) *Term {
			if s.is("itoa") {
				return tup(s.args[0], tNil)
			}
			ok := asBool(rawApp("atoiok", s, num(10)))
			return tup(ite(ok, rawApp("atoi", s, num(10)), num(0)), errIf(ok, "atoi"))
		})
	}
	I["(*sync.Mutex).Lock"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if x.onLock != nil {
			x.onLock(x, f, st, c.args[0], true)
		}
		return tNil
	}
	I["(*sync.Mutex).Unlock"] = func(x *Exec, f *frame, st *State, c *callInfo) *Term {
		if x.onLock != nil {
			x.onLock(x, f, st, c.args[0], false)
		}
		return tNil
	}
}

func bigDiv(op string, a, b *Term) *Term {
	return liftN("big"+op, func(x []*Term) *Term {
		if x[0].k == KNum && x[1].k == KNum && x[1].n.Sign() != 0 {
			if op == "div" {
				return bigTerm(new(big.Int).Div(x[0].n, x[1].n))
			}
			return bigTerm(new(big.Int).Quo(x[0].n, x[1].n))
		}
		return rawApp("big"+op, x[0], x[1])
	}, a, b)
}

// codecName: the encoded form depends on the type's name, not on pointers
func codecName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	return strings.ReplaceAll(s, "*", "")
}

var _ = fmt.Sprint

// machineInts are the integers that are known to fit a machine integer.
var machineInts = map[*Term]bool{}

// fromMachine notes that t is the value of a machine integer
func (x *Exec) fromMachine(t *Term) *Term {
	return localLift(t, func(a, _ *Term) *Term {
		machineInts[a] = true
		return a
	})
}
