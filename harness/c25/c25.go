// Package c25: signing.
package c25

import (
	"bytes"
	"crypto"
	"errors"
	"io"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
	"github.com/sigstore/sigstore/pkg/signature"
)

// signer signs with a test key and fails where told to.
type signer struct {
	k       *vp.Key
	failMsg bool
	failKey bool
	weird   bool
	got     []byte
}

func (s *signer) SignMessage(m io.Reader, _ ...signature.SignOption) ([]byte, error) {
	if s.failMsg {
		return nil, errors.New("no")
	}
	b, err := io.ReadAll(m)
	if err != nil {
		return nil, err
	}
	s.got = b
	return sign(s.k, b), nil
}

func (s *signer) PublicKey(...signature.PublicKeyOption) (crypto.PublicKey, error) {
	if s.failKey {
		return nil, errors.New("no")
	}
	if s.weird {
		return "key", nil
	}
	return pub(s.k), nil
}

func sign(k *vp.Key, m []byte) []byte {
	if k.Scheme == vp.RSAPSS {
		return vp.SignAs(vp.RSAV15, k, m)
	}
	return vp.Sign(k, m)
}

func pub(k *vp.Key) crypto.PublicKey {
	mk := &metadata.Key{}
	switch k.Scheme {
	case vp.Ed25519:
		*mk = metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(k.Pub)}}
	case vp.ECDSA:
		*mk = metadata.Key{Type: "ecdsa", Scheme: "ecdsa-sha2-nistp256", Value: metadata.KeyVal{PublicKey: string(k.Pub)}}
	default:
		*mk = metadata.Key{Type: "rsa", Scheme: "rsassa-pss-sha256", Value: metadata.KeyVal{PublicKey: string(k.Pub)}}
	}
	p, err := mk.ToPublicKey()
	if err != nil {
		vp.Assert(false, "key-converts")
	}
	return p
}

// sequence signs, changes and clears a document and compares with a model.
// set changes the content to a version, canon gives the canonical content.
func sequence[T metadata.Roles](m *metadata.Metadata[T], role string, steps int, set func(int64), canon func(int64) []byte) {
	keys := []*vp.Key{vp.Ed(1), vp.EC(0)}
	root := rootFor(role, 2, keys...)
	one := rootFor(role, 1, keys...)
	version := int64(1)
	var order []int          // keys with a signature
	at := map[int]int64{}    // version each key signed
	made := map[int][]byte{} // and what it produced
	for s := 0; s < steps; s++ {
		switch op := vp.Choice("op", 5); op {
		case 0, 1: // sign
			sg := &signer{k: keys[op]}
			sig, err := m.Sign(sg)
			if err != nil || sig == nil {
				vp.Assert(false, "signing-succeeds")
				return
			}
			vp.Assert(vp.SameBytes(sg.got, canon(version)), "canonical-content-signed")
			vp.Assert(sig.KeyID == kit.ID(keys[op]), "labelled-with-the-key")
			var rest []int
			for _, k := range order {
				if k != op {
					rest = append(rest, k)
				}
			}
			order = append(rest, op)
			at[op], made[op] = version, sig.Signature
		case 2: // change
			version = vp.Int64In("version", 1, 1<<53)
			set(version)
		case 3: // clear
			m.ClearSignatures()
			order, at = nil, map[int]int64{}
		case 4: // fail
			f := vp.Choice("failure", 3)
			sig, err := m.Sign(&signer{k: keys[0], failMsg: f == 0, failKey: f == 1, weird: f == 2})
			vp.Assert(err != nil && sig == nil, "failing-signer-is-an-error")
			vp.Reach("signer failed")
		}
		same := len(m.Signatures) == len(order)
		for _, k := range order {
			found := false
			for _, x := range m.Signatures {
				if x.KeyID == kit.ID(keys[k]) && vp.SameBytes(x.Signature, made[k]) {
					found = true
				}
			}
			same = same && found
		}
		vp.Assert(same, "exactly-one-signature-added")
		valid := 0
		for _, v := range at {
			if v == version {
				valid++
			}
		}
		vp.Assert((one.VerifyDelegate(role, m) == nil) == (valid >= 1), "verifies-until-content-changes")
		vp.Assert((root.VerifyDelegate(role, m) == nil) == (valid >= 2), "each-key-counts-once")
		if valid == 2 {
			vp.Reach("two signatures verified")
		}
	}
	b, err := m.ToBytes(vp.Bool("pretty"))
	if err != nil {
		vp.Assert(false, "signed-metadata-serialises")
		return
	}
	back := &metadata.Metadata[T]{}
	back, err = back.FromBytes(b)
	vp.Assert(err == nil, "signed-metadata-loads")
	if err == nil {
		valid := 0
		for _, v := range at {
			if v == version {
				valid++
			}
		}
		vp.Assert((one.VerifyDelegate(role, back) == nil) == (valid >= 1), "signatures-survive-serialisation")
	}
}

// rootFor authorises keys for a role with a threshold.
func rootFor(role string, threshold int, ks ...*vp.Key) *metadata.Metadata[metadata.RootType] {
	o := vp.Ed(0)
	roles := kit.Roles4(kit.RoleJ(1, o), kit.RoleJ(1, o), kit.RoleJ(1, o), kit.RoleJ(1, o)).Put(role, kit.RoleJ(threshold, ks...))
	m, err := metadata.Root().FromBytes(kit.Signed(kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(append(ks, o)...), roles), o))
	if err != nil {
		vp.Assert(false, "root-loads")
		vp.Assume(false)
	}
	return m
}

func load[T metadata.Roles](j *vp.J) *metadata.Metadata[T] {
	m, err := (&metadata.Metadata[T]{}).FromBytes(vp.Doc(kit.Env(j)))
	if err != nil {
		vp.Assert(false, "document-loads")
		vp.Assume(false)
	}
	return m
}

// CheckTargets: sequences on targets metadata.
func CheckTargets() {
	doc := func(v int64) *vp.J {
		return kit.TargetsJ(vp.N(v), kit.Later(), vp.O("a", kit.TargetJ([]byte("x"))), nil)
	}
	m := load[metadata.TargetsType](doc(1))
	sequence(m, "targets", vp.Pick(4, 5), func(v int64) { m.Signed.Version = v }, func(v int64) []byte { return vp.Canon(doc(v)) })
}

// CheckTimestamp: sequences on timestamp metadata.
func CheckTimestamp() {
	doc := func(v int64) *vp.J { return kit.TimestampJ(vp.N(v), kit.Later(), kit.Meta(vp.N(3))) }
	m := load[metadata.TimestampType](doc(1))
	sequence(m, "timestamp", vp.Pick(3, 4), func(v int64) { m.Signed.Version = v }, func(v int64) []byte { return vp.Canon(doc(v)) })
}

// CheckSnapshot: sequences on snapshot metadata.
func CheckSnapshot() {
	doc := func(v int64) *vp.J {
		return kit.SnapshotJ(vp.N(v), kit.Later(), vp.O("targets.json", kit.Meta(vp.N(3))))
	}
	m := load[metadata.SnapshotType](doc(1))
	sequence(m, "snapshot", vp.Pick(3, 4), func(v int64) { m.Signed.Version = v }, func(v int64) []byte { return vp.Canon(doc(v)) })
}

// CheckRoot: sequences on root metadata.
func CheckRoot() {
	k := vp.Ed(0)
	r := kit.RoleJ(1, k)
	doc := func(v int64) *vp.J {
		return kit.RootJ(vp.N(v), kit.Later(), true, kit.KeyMap(k), kit.Roles4(r, r, r, r))
	}
	m := load[metadata.RootType](doc(1))
	sequence(m, "root", vp.Pick(3, 4), func(v int64) { m.Signed.Version = v }, func(v int64) []byte { return vp.Canon(doc(v)) })
}

// CheckKinds: one signature of each supported kind of key.
func CheckKinds() {
	k := []*vp.Key{vp.Ed(2), vp.EC(1), vp.RSA(1)}[vp.Choice("kind", 3)]
	doc := kit.TargetsJ(vp.N(vp.Int64In("version", 1, 1<<53)), kit.Later(), vp.O(), nil)
	m := load[metadata.TargetsType](doc)
	sig, err := m.Sign(&signer{k: k})
	if err != nil {
		vp.Assert(false, "signing-succeeds")
		return
	}
	vp.Assert(sig.KeyID == kit.ID(k), "labelled-with-the-key")
	vp.Assert(rootFor("targets", 1, k).VerifyDelegate("targets", m) == nil, "verifies-for-a-role-with-the-key")
	vp.Assert(rootFor("targets", 1, vp.Ed(7)).VerifyDelegate("targets", m) != nil, "not-for-a-role-without-it")
	vp.Reach("signed")
}

// CheckForeign: signatures of others that are already there stay.
func CheckForeign() {
	n := vp.Choice("others", 3)
	var sigs []*vp.J
	for i := 0; i < n; i++ {
		s := kit.SigJ([]string{"aa", "bb"}[i], vp.Bytes("sig", vp.Choice("length", 3)))
		if vp.Bool("more fields") {
			s = s.Put("note", vp.S("x"))
		}
		sigs = append(sigs, s)
	}
	j := kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil)
	m, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(j, sigs...)))
	if err != nil {
		vp.Assert(false, "document-loads")
		return
	}
	before := append([]metadata.Signature{}, m.Signatures...)
	_, err = m.Sign(&signer{k: vp.Ed(1)})
	vp.Assert(err == nil && len(m.Signatures) == n+1, "exactly-one-signature-added")
	kept := 0
	for _, b := range before {
		for _, s := range m.Signatures {
			if s.KeyID == b.KeyID && bytes.Equal(s.Signature, b.Signature) && (s.UnrecognizedFields["note"] == "x") == (b.UnrecognizedFields["note"] == "x") {
				kept++
			}
		}
	}
	vp.Assert(kept == n, "other-signatures-kept")
	vp.Reach("signed")
}

// CheckTexts: the canonical form is signed whatever characters the content has.
func CheckTexts() {
	where := vp.Choice("where", 5)
	s := kit.Text("text")
	var canon []byte
	var got []byte
	var err error
	var valid error
	sg := &signer{k: []*vp.Key{vp.Ed(1), vp.EC(0)}[vp.Choice("key", 2)]}
	switch where {
	case 0, 1, 2:
		t := kit.TargetJ([]byte("x"))
		j := kit.TargetsJ(vp.N(1), kit.Later(), vp.O("p"+s, t), nil)
		switch where {
		case 1:
			j = kit.TargetsJ(vp.N(1), kit.Later(), vp.O("p", t.Put("custom", vp.O("k", vp.A(vp.S(s))))), nil)
		case 2:
			j = kit.TargetsJ(vp.N(1), kit.Later(), vp.O("p", t), nil).Put("z"+s, vp.B(true))
		}
		m := load[metadata.TargetsType](j)
		_, err = m.Sign(sg)
		canon = vp.Canon(j)
		valid = rootFor("targets", 1, sg.k).VerifyDelegate("targets", m)
	case 3:
		j := kit.SnapshotJ(vp.N(1), kit.Later(), vp.O("p"+s+".json", kit.Meta(vp.N(3))))
		m := load[metadata.SnapshotType](j)
		_, err = m.Sign(sg)
		canon = vp.Canon(j)
		valid = rootFor("snapshot", 1, sg.k).VerifyDelegate("snapshot", m)
	case 4:
		k := vp.Ed(0)
		r := kit.RoleJ(1, k)
		j := kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(k), kit.Roles4(r, r, r, r)).Put("note", vp.S(s))
		m := load[metadata.RootType](j)
		_, err = m.Sign(sg)
		canon = vp.Canon(j)
		valid = rootFor("root", 1, sg.k).VerifyDelegate("root", m)
	}
	got = sg.got
	vp.Assert(err == nil, "signing-succeeds")
	vp.Assert(vp.SameBytes(got, canon), "canonical-content-signed")
	vp.Assert(valid == nil, "verifies-for-a-role-with-the-key")
	vp.Reach("text signed")
}
