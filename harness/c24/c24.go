// Package c24: conversion and identification of keys.
package c24

import (
	"crypto"
	"crypto/ed25519"
	"crypto/rsa"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// tkey is the key of a type found by loading a root that contains it.
func tkey(j *vp.J, id string) (*metadata.Key, error) {
	k := vp.Ed(0)
	root := kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(k).Put(id, j),
		kit.Roles4(kit.RoleJ(1, k), kit.RoleJ(1, k), kit.RoleJ(1, k), kit.RoleJ(1, k)))
	m, err := metadata.Root().FromBytes(kit.Signed(root, k))
	if err != nil {
		return nil, err
	}
	return m.Signed.Keys[id], nil
}

func samePublic(a, b crypto.PublicKey) bool {
	x, e1 := metadata.KeyFromPublicKey(a)
	y, e2 := metadata.KeyFromPublicKey(b)
	return e1 == nil && e2 == nil && x.Type == y.Type && x.Value.PublicKey == y.Value.PublicKey
}

func some() *vp.Key {
	i := vp.Choice("key", 3)
	switch vp.Choice("kind", 3) {
	case 0:
		return vp.RSA(i)
	case 1:
		return vp.EC(i)
	}
	return vp.Ed(i)
}

// CheckRoundTrip: metadata form to public key and back, for each key type.
func CheckRoundTrip() {
	k := some()
	m, err := tkey(kit.KeyJ(k), "k")
	if err != nil {
		vp.Assert(false, "key-loads")
		return
	}
	p, err := m.ToPublicKey()
	vp.Assert(err == nil, "key-converts")
	if err != nil {
		return
	}
	back, err := metadata.KeyFromPublicKey(p)
	vp.Assert(err == nil, "key-converts-back")
	if err != nil {
		return
	}
	vp.Assert(back.Type == m.Type && back.Scheme == m.Scheme && back.Value.PublicKey == m.Value.PublicKey, "conversion-loses-nothing")
	vp.Assert(back.ID() == kit.ID(k) && m.ID() == kit.ID(k), "identifier-is-digest-of-canonical-form")
	again, err := back.ToPublicKey()
	vp.Assert(err == nil && samePublic(again, p), "same-public-key")
	o := some()
	om, err := tkey(kit.KeyJ(o), "k")
	if err != nil {
		vp.Assert(false, "key-loads")
		return
	}
	op, err := om.ToPublicKey()
	vp.Assert(err == nil, "key-converts")
	same := o.Scheme == k.Scheme && o.Idx == k.Idx
	vp.Assert(samePublic(op, p) == same, "different-keys-stay-different")
	vp.Assert((om.ID() == m.ID()) == same, "different-identifiers")
	vp.Reach("round trip")
}

// CheckEd25519: every key of 32 bytes; all other lengths are refused.
func CheckEd25519() {
	n := vp.Choice("len", 35)
	b := vp.Bytes("key", n)
	m := &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(b)}}
	p, err := m.ToPublicKey()
	vp.Assert((err == nil) == (n == 32), "exactly-32-bytes")
	if err != nil {
		vp.Reach("refused")
		return
	}
	e, ok := p.(ed25519.PublicKey)
	vp.Assert(ok && vp.SameBytes(e, b), "same-bytes")
	back, err := metadata.KeyFromPublicKey(p)
	vp.Assert(err == nil && back.Value.PublicKey == vp.Hex(b) && back.Type == "ed25519" && back.Scheme == "ed25519", "conversion-loses-nothing")
	vp.Reach("converted")
}

// CheckMalformed: malformed values and unsupported types are refused.
func CheckMalformed() {
	values := []string{"", "x", string(vp.RSA(0).Pub), string(vp.EC(0).Pub), vp.Hex(vp.Ed(0).Pub), string(vp.RSA(0).Pub[:200]),
		string(vp.EC(0).Pub[:100]), "-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n", "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n",
		"-----BEGIN NOTHING-----\nAAAA\n-----END NOTHING-----\n", vp.Hex(vp.Ed(0).Pub) + "0", vp.Hex(vp.Ed(0).Pub)[:62] + "zz"}
	v := vp.Choice("value", len(values))
	types := []string{"rsa", "ecdsa", "ecdsa-sha2-nistp256", "ed25519", "RSA", "", "dsa"}
	t := vp.Choice("type", len(types))
	m := &metadata.Key{Type: types[t], Scheme: vp.StrIn("scheme", 1, "ab"), Value: metadata.KeyVal{PublicKey: values[v]}}
	p, err := m.ToPublicKey()
	good := t == 0 && v == 2 || (t == 1 || t == 2) && v == 3 || t == 3 && v == 4
	vp.Log(err == nil)
	vp.Assert((err == nil) == good, "refused-iff-malformed")
	if err != nil {
		vp.Assert(p == nil, "no-key-with-an-error")
		vp.Reach("refused")
	} else {
		vp.Reach("converted")
	}
}

// CheckHex: every character of a 64 character Ed25519 value.
func CheckHex() {
	s := []byte(vp.Hex(vp.Ed(0).Pub))
	c := vp.Byte("c")
	i := vp.Choice("place", vp.Pick(4, 64))
	s[i] = c
	m := &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: string(s)}}
	_, err := m.ToPublicKey()
	digit := c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
	vp.Assert((err == nil) == digit, "refused-iff-not-hexadecimal")
	if digit {
		vp.Reach("digit")
	} else {
		vp.Reach("no digit")
	}
}

// CheckUnsupported: other kinds of public keys.
func CheckUnsupported() {
	var p crypto.PublicKey
	switch vp.Choice("kind", 5) {
	case 0:
		p = nil
	case 1:
		p = "text"
	case 2:
		p = []byte{1}
	case 3:
		p = ed25519.PrivateKey(make([]byte, 64))
	case 4:
		p = rsa.PublicKey{}
	}
	k, err := metadata.KeyFromPublicKey(p)
	vp.Assert(err != nil && k == nil, "unsupported-key-refused")
	vp.Reach("refused")
}

// CheckID: equal content gives equal identifiers, any difference different ones.
func CheckID() {
	mk := func() (*metadata.Key, *vp.J) {
		t, s, v := vp.StrIn("type", 1, "a\""), vp.StrIn("scheme", 1, "a\\"), vp.StrIn("value", vp.Choice("valuelen", vp.Pick(2, 3)), "a\"")
		return &metadata.Key{Type: t, Scheme: s, Value: metadata.KeyVal{PublicKey: v}},
			vp.O("keytype", vp.S(t), "keyval", vp.O("public", vp.S(v)), "scheme", vp.S(s))
	}
	a, ja := mk()
	b, _ := mk()
	same := a.Type == b.Type && a.Scheme == b.Scheme && a.Value.PublicKey == b.Value.PublicKey
	vp.Assert(a.ID() == vp.Hex(vp.SHA256(vp.Canon(ja))), "identifier-is-digest-of-canonical-form")
	vp.Assert((a.ID() == b.ID()) == same, "identifiers-equal-iff-content-equal")
	vp.Assert(a.ID() == a.ID(), "identifier-stable")
	if same {
		vp.Reach("same content")
	} else {
		vp.Reach("different content")
	}
}

// CheckIDExtra: unrecognised members count, their order doesn't.
func CheckIDExtra() {
	k := vp.Ed(1)
	n := vp.Int64In("n", -1<<53, 1<<53)
	ja := kit.KeyJ(k).Put("x", vp.N(n))
	jb := kit.KeyJ(k)
	m := vp.Int64In("m", -1<<53, 1<<53)
	where := vp.Choice("where", 4)
	same := false
	switch where {
	case 0:
		jb = vp.O("x", vp.N(m)).Put("scheme", jb.Get("scheme")).Put("keyval", jb.Get("keyval")).Put("keytype", jb.Get("keytype"))
		same = m == n
	case 1:
		jb.Put("y", vp.N(m))
	case 2:
		jb.Get("keyval").Put("x", vp.N(m))
	}
	a, e1 := tkey(ja, "a")
	b, e2 := tkey(jb, "b")
	if e1 != nil || e2 != nil {
		vp.Assert(false, "key-loads")
		return
	}
	vp.Assert((a.ID() == b.ID()) == same, "identifiers-equal-iff-content-equal")
	vp.Assert(a.ID() == vp.Hex(vp.SHA256(vp.Canon(ja))) && b.ID() == vp.Hex(vp.SHA256(vp.Canon(jb))), "identifier-is-digest-of-canonical-form")
	vp.Reach("compared")
}

// CheckIDLarge: unrecognised integers that a float64 can't hold.
func CheckIDLarge() {
	n := []int64{1<<53 + 1, -1<<53 - 1, 1<<62 + 1, 123456789012345678}[vp.Choice("n", 4)]
	ja := kit.KeyJ(vp.Ed(1)).Put("x", vp.N(n))
	a, err := tkey(ja, "a")
	if err != nil {
		vp.Assert(false, "key-loads")
		return
	}
	vp.Assert(a.ID() == vp.Hex(vp.SHA256(vp.Canon(ja))), "identifier-of-key-with-large-number")
	vp.Reach("compared")
}
