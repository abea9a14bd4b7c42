package main

// Dolev-Yao crypto: signatures are unforgeable events, digests are collision free.

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type sigEvent struct {
	scheme string
	hash   uint64
	pub    string
	msg    Slice
	sig    []*Term
}

type digestEntry struct {
	kind uint64
	data Slice
	out  []*Term
}

const vpPath = "github.com/rdimitrov/go-tuf-metadata/zzverif/vp"

func digestSize(kind uint64) int {
	switch crypto.Hash(kind) {
	case crypto.SHA256:
		return 32
	case crypto.SHA512:
		return 64
	case crypto.SHA384:
		return 48
	case crypto.SHA224:
		return 28
	case crypto.SHA1:
		return 20
	case crypto.MD5:
		return 16
	}
	panic(unsupported(fmt.Sprintf("hash %d", kind)))
}

func realDigest(kind uint64, b []byte) []byte {
	switch crypto.Hash(kind) {
	case crypto.SHA256:
		d := sha256.Sum256(b)
		return d[:]
	case crypto.SHA512:
		d := sha512.Sum512(b)
		return d[:]
	case crypto.SHA384:
		d := sha512.Sum384(b)
		return d[:]
	}
	panic(unsupported(fmt.Sprintf("hash %d", kind)))
}

// digest returns the digest bytes of data.
func (in *Interp) digest(kind uint64, data Slice) []*Term {
	// snapshot: the caller may reuse its buffer
	if data.blob == nil {
		data = Slice{a: append([]Value(nil), data.a...)}
	}
	for _, d := range in.x.digests {
		if d.kind != kind {
			continue
		}
		if d.data.blob != nil && d.data.blob == data.blob {
			return d.out
		}
		if in.dataEq(d.data, data) == in.c.True {
			return d.out
		}
	}
	var out []*Term
	if b, ok := in.concBytes(data); ok {
		if hp, ok := in.x.hashed[string(b)]; ok && crypto.Hash(kind) == crypto.SHA256 {
			out = hp
		} else {
			for _, x := range realDigest(kind, b) {
				out = append(out, in.c.bytesC[x])
			}
		}
	} else {
		n := digestSize(kind)
		id := in.freshName("digest")
		for i := 0; i < n; i++ {
			out = append(out, in.c.Var(fmt.Sprintf("%s.%d", id, i), 8))
		}
	}
	conc := true
	for _, t := range out {
		if t.op != OConst {
			conc = false
		}
	}
	e := digestEntry{kind, data, out}
	for _, d := range in.x.digests {
		if d.kind != kind {
			continue
		}
		dc := true
		for _, t := range d.out {
			if t.op != OConst {
				dc = false
			}
		}
		if dc && conc {
			continue
		}
		eq := in.dataEq(d.data, data)
		in.assume(in.c.Eq(eq, in.bytesEq(d.out, out)))
	}
	in.x.digests = append(in.x.digests, e)
	return out
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }

func pubID(k any) string {
	switch k := k.(type) {
	case *rsa.PublicKey:
		return "rsa:" + k.N.Text(16) + ":" + fmt.Sprint(k.E)
	case *ecdsa.PublicKey:
		return "ec:" + k.Curve.Params().Name + ":" + k.X.Text(16) + ":" + k.Y.Text(16)
	case ed25519.PublicKey:
		return "ed:" + hexOf(k)
	}
	return "?"
}

func parsePub(p []byte) (any, error) {
	blk, _ := pem.Decode(p)
	if blk == nil {
		return nil, fmt.Errorf("PEM decoding failed")
	}
	switch blk.Type {
	case "PUBLIC KEY":
		return x509.ParsePKIXPublicKey(blk.Bytes)
	case "RSA PUBLIC KEY":
		return x509.ParsePKCS1PublicKey(blk.Bytes)
	}
	return nil, fmt.Errorf("unknown PEM type")
}

// natKey builds the engine value of a native public key.
func (in *Interp) natKey(k any) (Iface, bool) {
	mk := func(pkg string) Iface {
		t := in.pkgType(pkg, "PublicKey")
		p := new(Value)
		st := in.zero(t).(Struct)
		u := t.Underlying().(*types.Struct)
		bt := in.pkgType("math/big", "Int")
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "E":
				st[i] = in.c.BV(uint64(k.(*rsa.PublicKey).E), 64)
			case "N", "X", "Y":
				bp := new(Value)
				*bp = in.zero(bt)
				st[i] = bp
			}
		}
		*p = st
		in.x.natKeys[p] = k
		return Iface{t: in.ptrTo(t), v: p}
	}
	switch x := k.(type) {
	case *rsa.PublicKey:
		return mk("crypto/rsa"), true
	case *ecdsa.PublicKey:
		return mk("crypto/ecdsa"), true
	case ed25519.PublicKey:
		return Iface{t: in.pkgType("crypto/ed25519", "PublicKey"), v: in.mkBytesC(x)}, true
	}
	return Iface{}, false
}

// keyOfIface recovers the native key behind an engine value.
func (in *Interp) keyOfIface(i Iface) (any, bool) {
	if i.t == nil {
		return nil, false
	}
	switch v := i.v.(type) {
	case *Value:
		k, ok := in.x.natKeys[v]
		return k, ok
	case Slice:
		if i.t.String() == "crypto/ed25519.PublicKey" {
			if b, ok := in.concBytes(v); ok {
				return ed25519.PublicKey(b), true
			}
		}
	}
	return nil, false
}

func (in *Interp) doSign(scheme string, hash uint64, pub string, msg Slice) []*Term {
	if msg.blob == nil {
		msg = Slice{a: append([]Value(nil), msg.a...)}
	}
	for _, e := range in.x.sigs {
		if e.scheme == scheme && e.pub == pub && e.hash == hash && in.dataEq(e.msg, msg) == in.c.True {
			return e.sig
		}
	}
	n := 64
	switch scheme {
	case "rsa-pss", "rsa-pkcs1v15":
		n = 256
	case "ecdsa":
		n = 71
	}
	seed := sha512.Sum512([]byte(fmt.Sprintf("sig %d %s %s", len(in.x.sigs), scheme, pub)))
	sig := make([]*Term, n)
	for i := range sig {
		sig[i] = in.c.bytesC[seed[i%64]^byte(i/64)]
	}
	in.x.sigs = append(in.x.sigs, sigEvent{scheme, hash, pub, msg, sig})
	return sig
}

// verify builds the condition that sig is a signature over msg under pub.
func (in *Interp) verify(scheme string, hash uint64, pub string, msg Slice, sig Slice) *Term {
	sb := in.sliceBytes(sig)
	r := in.c.False
	for _, e := range in.x.sigs {
		if e.scheme != scheme || e.pub != pub || e.hash != hash {
			continue
		}
		eq := in.bytesEq(e.sig, sb)
		if eq == in.c.False {
			continue
		}
		r = in.c.Or(r, in.c.And(eq, in.dataEq(e.msg, msg)))
	}
	return r
}

func (in *Interp) edVerify(pub Slice, msg, sig Slice) *Term {
	pb := in.sliceBytes(pub)
	if len(pb) != 32 {
		m := "ed25519: bad public key length: " + fmt.Sprint(len(pb))
		panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: cstr(m)}, msg: m, stack: in.where()})
	}
	r := in.c.False
	seen := map[string]bool{}
	for _, e := range in.x.sigs {
		if e.scheme != "ed25519" || seen[e.pub] {
			continue
		}
		seen[e.pub] = true
		kb, _ := hex.DecodeString(e.pub[3:])
		eq := in.c.True
		for i := range pb {
			eq = in.c.And(eq, in.c.Eq(pb[i], in.c.bytesC[kb[i]]))
		}
		if eq == in.c.False {
			continue
		}
		r = in.c.Or(r, in.c.And(eq, in.verify("ed25519", 0, e.pub, msg, sig)))
	}
	return r
}

const sigPkg = "github.com/sigstore/sigstore/pkg/signature"

func (in *Interp) fieldByName(v Value, t types.Type, name string) Value {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return v.(Struct)[i]
		}
	}
	return nil
}

func verifyMethod(scheme string) func(in *Interp, fn *ssa.Function, a []Value) Value {
	return func(in *Interp, fn *ssa.Function, a []Value) Value {
		recv := a[0]
		rt := fn.Signature.Recv().Type()
		if p, ok := recv.(*Value); ok {
			if p == nil {
				in.nilDeref()
			}
			recv = *p
			rt = derefType(rt)
		}
		msg, e := in.readAll(a[2].(Iface))
		if e.t != nil {
			return e
		}
		if a[1].(Iface).t == nil {
			return in.mkErrVal("nil signature passed to VerifySignature")
		}
		sig, e := in.readAll(a[1].(Iface))
		if e.t != nil {
			return e
		}
		pub := in.fieldByName(recv, rt, "publicKey")
		var ok *Term
		if scheme == "ed25519" {
			ok = in.edVerify(pub.(Slice), msg, sig)
		} else {
			h := in.fieldByName(recv, rt, "hashFunc").(*Term)
			p, _ := pub.(*Value)
			k, have := in.x.natKeys[p]
			if !have {
				panic(unsupported("verification under a key not built by the model" + in.where()))
			}
			ok = in.verify(scheme, h.val, pubID(k), msg, sig)
		}
		if in.branch(ok) {
			return Iface{}
		}
		return in.mkErrVal("failed to verify signature")
	}
}

func init() {
	reg("(*"+sigPkg+".ED25519Verifier).VerifySignature", verifyMethod("ed25519"))
	reg("("+sigPkg+".ECDSAVerifier).VerifySignature", verifyMethod("ecdsa"))
	reg("("+sigPkg+".RSAPKCS1v15Verifier).VerifySignature", verifyMethod("rsa-pkcs1v15"))
	reg("("+sigPkg+".RSAPSSVerifier).VerifySignature", verifyMethod("rsa-pss"))
	reg("crypto/ed25519.Verify", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.edVerify(a[0].(Slice), a[1].(Slice), a[2].(Slice))
	})
	reg("crypto/ed25519.verify", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.edVerify(a[0].(Slice), a[1].(Slice), a[2].(Slice))
	})
	reg("github.com/sigstore/sigstore/pkg/cryptoutils.UnmarshalPEMToPublicKey", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b, ok := in.concBytes(a[0].(Slice))
		if !ok {
			panic(unsupported("PEM parsing of symbolic text" + in.where()))
		}
		k, err := parsePub(b)
		if err != nil {
			return Tuple{Iface{}, in.mkErrVal("PEM: " + err.Error())}
		}
		i, ok := in.natKey(k)
		if !ok {
			panic(unsupported(fmt.Sprintf("public key %T", k)))
		}
		return Tuple{i, Iface{}}
	})
	marsh := func(pemOut bool) func(in *Interp, fn *ssa.Function, a []Value) Value {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			if i.t == nil {
				return Tuple{Slice{nil_: true}, in.mkErrVal("x509: unsupported public key type: nil")}
			}
			k, ok := in.keyOfIface(i)
			if !ok {
				if i.t.String() == "crypto/ed25519.PublicKey" { // symbolic content: DER prefix + bytes
					pre := []byte{0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0x00}
					out := in.mkBytesC(pre)
					out.a = append(out.a, i.v.(Slice).a...)
					return Tuple{out, Iface{}}
				}
				return Tuple{Slice{nil_: true}, in.mkErrVal("x509: unsupported public key type")}
			}
			der, err := x509.MarshalPKIXPublicKey(k)
			if err != nil {
				return Tuple{Slice{nil_: true}, in.mkErrVal(err.Error())}
			}
			if pemOut {
				var buf bytes.Buffer
				pem.Encode(&buf, &pem.Block{Type: "PUBLIC KEY", Bytes: der})
				return Tuple{in.mkBytesC(buf.Bytes()), Iface{}}
			}
			return Tuple{in.mkBytesC(der), Iface{}}
		}
	}
	reg("crypto/x509.MarshalPKIXPublicKey", marsh(false))
	reg("github.com/sigstore/sigstore/pkg/cryptoutils.MarshalPublicKeyToDER", marsh(false))
	reg("github.com/sigstore/sigstore/pkg/cryptoutils.MarshalPublicKeyToPEM", marsh(true))
	sum := func(kind crypto.Hash) func(in *Interp, fn *ssa.Function, a []Value) Value {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			d := in.digest(uint64(kind), a[0].(Slice))
			out := make(Array, len(d))
			for i, t := range d {
				out[i] = t
			}
			return out
		}
	}
	reg("crypto/sha256.Sum256", sum(crypto.SHA256))
	reg("crypto/sha512.Sum512", sum(crypto.SHA512))
	reg("crypto/sha512.Sum384", sum(crypto.SHA384))
	reg("(crypto.Hash).Available", func(in *Interp, fn *ssa.Function, a []Value) Value {
		switch in.concretize(a[0].(*Term), 64) {
		case uint64(crypto.SHA256), uint64(crypto.SHA384), uint64(crypto.SHA512), uint64(crypto.SHA1), uint64(crypto.SHA224):
			return in.c.True
		}
		return in.c.False
	})
	reg("crypto.RegisterHash", func(in *Interp, fn *ssa.Function, a []Value) Value { return nil })
	reg("crypto/hmac.Equal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.dataEq(a[0].(Slice), a[1].(Slice))
	})
	reg("crypto/subtle.ConstantTimeCompare", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.c.Ite(in.dataEq(a[0].(Slice), a[1].(Slice)), in.c.BV(1, 64), in.c.BV(0, 64))
	})
	// vp side
	reg(vpPath+".digest", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.mkBytes(in.digest(in.concretize(a[0].(*Term), 64), a[1].(Slice)))
	})
	reg(vpPath+".sign", func(in *Interp, fn *ssa.Function, a []Value) Value {
		scheme := a[0].(*Str).s
		pb, _ := in.concBytes(a[2].(Slice))
		var id string
		var h uint64
		if scheme == "ed25519" {
			id = "ed:" + hexOf(pb)
		} else {
			k, err := parsePub(pb)
			if err != nil {
				panic(unsupported("vp.sign: " + err.Error()))
			}
			id = pubID(k)
			h = uint64(crypto.SHA256)
		}
		return in.mkBytes(in.doSign(scheme, h, id, a[3].(Slice)))
	})
	reg(vpPath+".edPub", func(in *Interp, fn *ssa.Function, a []Value) Value {
		seed := bytes.Repeat([]byte{byte(in.concretize(a[0].(*Term), 64) + 1)}, 32)
		pub := ed25519.NewKeyFromSeed(seed).Public().(ed25519.PublicKey)
		return in.mkBytesC(pub)
	})
	reg(vpPath+".HashedPath", func(in *Interp, fn *ssa.Function, a []Value) Value {
		nm := in.freshName("hp." + a[0].(*Str).s)
		bits := int(in.concretize(a[1].(*Term), 64))
		_ = bits // natively only that many bits are found; the rest is arbitrary
		top := in.c.Var(nm, 32)
		s := fmt.Sprintf("%s%08x", a[0].(*Str).s, len(in.x.hashed))
		var d []*Term
		for i := 0; i < 4; i++ {
			d = append(d, in.c.Trunc(in.c.Bin(OLShr, top, in.c.BV(uint64(24-8*i), 32)), 8))
		}
		for i := 4; i < 32; i++ {
			d = append(d, in.c.bytesC[byte(i*37+len(in.x.hashed))])
		}
		in.x.hashed[s] = d
		return cstr(s)
	})
}
