// Package c01: metadata is accepted only with a threshold of valid signatures by
// distinct keys that the delegating metadata authorises for the role.
package c01

import (
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// Four key identifiers: a and b hold the same key material (different spelling),
// c and d hold two others; x is not in the key store.
var ids = []string{"a", "b", "c", "x", "d"}

func material(id string) *vp.Key {
	switch id {
	case "a", "b":
		return vp.Ed(0)
	case "c":
		return vp.Ed(1)
	case "d":
		return vp.EC(0)
	}
	return nil
}

func keyStore() *vp.J {
	upper := vp.O("keytype", vp.S("ed25519"), "scheme", vp.S("ed25519"), "keyval", vp.O("public", vp.S(strings.ToUpper(vp.Hex(vp.Ed(0).Pub)))))
	return vp.O("a", kit.KeyJ(vp.Ed(0)), "b", upper, "c", kit.KeyJ(vp.Ed(1)), "d", kit.KeyJ(vp.EC(0)))
}

// authorised chooses the identifiers of a role: up to n entries, repeats allowed.
func authorised(n, k int) []string {
	var out []string
	for i := 0; i < n; i++ {
		c := vp.Choice("auth", k+1)
		if c == k {
			break
		}
		out = append(out, ids[c])
	}
	return out
}

// signatures chooses, for each identifier, no signature, a valid one, one over other
// content, or one by another key under this identifier.
func signatures(signed, other *vp.J, over []string) (sigs []*vp.J, valid map[string]bool) {
	valid = map[string]bool{}
	for _, id := range over {
		k := material(id)
		if k == nil {
			continue
		}
		switch vp.Choice("sig."+id, 4) {
		case 1:
			valid[id] = true
			sigs = append(sigs, kit.SigJ(id, vp.Sign(k, vp.Canon(signed))))
		case 2:
			sigs = append(sigs, kit.SigJ(id, vp.Sign(k, vp.Canon(other))))
		case 3:
			sigs = append(sigs, kit.SigJ(id, vp.Sign(vp.Ed(2), vp.Canon(signed))))
		}
	}
	return
}

// distinct counts the different authorised keys with a valid signature.
func distinct(auth []string, valid map[string]bool) (n int) {
	seen := map[string]bool{}
	for _, id := range auth {
		k := material(id)
		if k == nil {
			continue
		}
		if valid[id] && !seen[string(k.Pub)] {
			seen[string(k.Pub)] = true
			n++
		}
	}
	return
}

func strs(v []string) *vp.J { return vp.Strs(v...) }

// judge compares the verdict with the specification.
func judge(err error, n int, threshold int64, auth []string) {
	vp.Log("accepted", err == nil)
	if err == nil {
		vp.Assert(threshold >= 1, "threshold-at-least-one")
		vp.Assert(threshold < 1 || int64(n) >= threshold, "threshold-of-distinct-keys")
		vp.Assert(len(auth) > 0, "no-authorised-keys")
		vp.Reach("accepted")
		return
	}
	vp.Reach("rejected")
	if threshold >= 1 && int64(n) >= threshold {
		vp.Assert(false, "sufficient-signatures-accepted")
	}
}

// CheckTimestampRole: root delegates to timestamp, judged through the trusted set.
func CheckTimestampRole() {
	rk := vp.Ed(3)
	ks := keyStore().Put(kit.ID(rk), kit.KeyJ(rk))
	auth := authorised(vp.Pick(2, 3), vp.Pick(4, 5))
	threshold := vp.Int64("threshold")
	role := kit.RoleJ(1, rk)
	tsRole := vp.O("keyids", strs(auth), "threshold", vp.N(threshold))
	rootDoc := kit.Signed(kit.RootJ(vp.N(1), kit.Later(), true, ks, kit.Roles4(role, tsRole, role, role)), rk)
	tr, err := trustedmetadata.New(rootDoc)
	if err != nil {
		vp.Assert(threshold < 1, "valid-root-rejected")
		return
	}
	signed := kit.TimestampJ(vp.N(2), kit.Later(), kit.Meta(vp.N(1)))
	other := kit.TimestampJ(vp.N(3), kit.Later(), kit.Meta(vp.N(1)))
	sigs, valid := signatures(signed, other, []string{"a", "b", "c"})
	_, err = tr.UpdateTimestamp(vp.Doc(kit.Env(signed, sigs...)))
	n := distinct(auth, valid)
	judge(err, n, threshold, auth)
}

// CheckDelegatedRole: targets delegates to named roles; the first entry of a name
// decides.
func CheckDelegatedRole() {
	auth := authorised(2, 4)
	threshold := vp.Int64("threshold")
	named := func(name string, a []string, th int64) *vp.J {
		return vp.O("keyids", strs(a), "name", vp.S(name), "paths", vp.Strs("*"), "terminating", vp.B(false), "threshold", vp.N(th))
	}
	roles := []*vp.J{named("R", []string{"c"}, 1), named("r", auth, threshold)}
	if vp.Bool("dup") {
		roles = append(roles, named("r", []string{"c"}, 1))
	}
	if vp.Bool("swap") {
		roles[0], roles[1] = roles[1], roles[0]
	}
	del := kit.DelegationsJ(keyStore(), roles...)
	tgt, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), del))))
	if err != nil {
		return // malformed delegations may be refused at load time
	}
	signed := kit.TargetsJ(vp.N(vp.Int64In("version", 1, 1<<62)), kit.Later(), vp.O(), nil)
	other := kit.TargetsJ(vp.N(vp.Int64In("version2", 1, 1<<62)), kit.Later(), vp.O(), nil)
	vp.Assume(signed.Get("version").N != other.Get("version").N)
	sigs, valid := signatures(signed, other, []string{"a", "b", "c"})
	md, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(signed, sigs...)))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	n := distinct(auth, valid)
	judge(tgt.VerifyDelegate("r", md), n, threshold, auth)
	vp.Assert(tgt.VerifyDelegate("unknown", md) != nil, "undelegated-role-refused")
}

// CheckSuccinctRole: hash bin delegation.
func CheckSuccinctRole() {
	auth := authorised(2, 4)
	threshold := vp.Int64("threshold")
	suc := vp.O("bit_length", vp.N(3), "keyids", strs(auth), "name_prefix", vp.S("bin"), "threshold", vp.N(threshold))
	del := vp.O("keys", keyStore(), "succinct_roles", suc)
	tgt, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), del))))
	if err != nil {
		return
	}
	signed := kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil)
	other := kit.TargetsJ(vp.N(2), kit.Later(), vp.O(), nil)
	sigs, valid := signatures(signed, other, []string{"a", "b", "c"})
	md, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(signed, sigs...)))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	n := distinct(auth, valid)
	judge(tgt.VerifyDelegate("bin-5", md), n, threshold, auth)
	for _, bad := range []string{"bin-8", "bin-05", "other-5", "bin-", "bin5", "root", "bin-+", "bin--1"} {
		vp.Assert(tgt.VerifyDelegate(bad, md) != nil, "role-outside-bins-refused")
	}
}

// CheckContentBound: a signature counts only for exactly the signed content.
func CheckContentBound() {
	k := vp.Ed(0)
	r := kit.RoleJ(1, k)
	root, err := metadata.Root().FromBytes(kit.Signed(kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(k), kit.Roles4(r, r, r, r)), k))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	v1, v2 := vp.Int64In("v1", 1, 1<<62), vp.Int64In("v2", 1, 1<<62)
	l1, l2 := vp.Int64("l1"), vp.Int64("l2")
	n1, n2 := vp.StrIn("n1", 2, "ab."), vp.StrIn("n2", 2, "ab.")
	h1, h2 := vp.Bytes("h1", 2), vp.Bytes("h2", 2)
	e1, e2 := vp.Bool("e1"), vp.Bool("e2")
	x1, x2 := vp.StrIn("x1", 1, "pq"), vp.StrIn("x2", 1, "pq")
	mk := func(v, l int64, n string, h []byte, e bool, x string) *vp.J {
		o := kit.SnapshotJ(vp.N(v), kit.Expiry(e), vp.O("targets.json", vp.O("hashes", vp.O("sha256", vp.S(vp.Hex(h))), "length", vp.N(l), "version", vp.N(1)), n, kit.Meta(vp.N(v))))
		return o.Put("x-extra", vp.S(x))
	}
	// a zero length is the same as an absent one
	vp.Assume(l1 != 0 && l2 != 0)
	signed, shown := mk(v1, l1, n1, h1, e1, x1), mk(v2, l2, n2, h2, e2, x2)
	md, err := metadata.Snapshot().FromBytes(vp.Doc(kit.Env(shown, kit.SigBy(k, signed))))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	same := v1 == v2 && l1 == l2 && n1 == n2 && string(h1) == string(h2) && e1 == e2 && x1 == x2
	err = root.VerifyDelegate("snapshot", md)
	vp.Log("accepted", err == nil)
	if err == nil {
		vp.Reach("same content")
		vp.Assert(same, "signature-covers-content")
	} else {
		vp.Reach("changed content")
		vp.Assert(!same, "unchanged-content-accepted")
	}
}

// CheckKinds: every metadata kind and key type, both ways.
func CheckKinds() {
	var k *vp.Key
	kj := (*vp.J)(nil)
	switch vp.Choice("key", 4) {
	case 0:
		k = vp.Ed(0)
	case 1:
		k = vp.EC(0)
	case 2:
		k = vp.EC(0)
		kj = kit.KeyJ(k).Put("keytype", vp.S("ecdsa-sha2-nistp256"))
	case 3:
		k = vp.RSA(0)
		k.Scheme = vp.RSAV15 // what the repository's own signers produce
	}
	if kj == nil {
		kj = kit.KeyJ(k)
	}
	role := vp.O("keyids", vp.Strs("k"), "threshold", vp.N(1))
	root, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, vp.O("k", kj), kit.Roles4(role, role, role, role)))))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	good := vp.Bool("good")
	sign := func(j *vp.J) []byte {
		m := vp.Canon(j)
		if !good {
			m = append(append([]byte{}, "x"...), 'y')
		}
		return vp.Doc(kit.Env(j, kit.SigJ("k", vp.Sign(k, m))))
	}
	v := vp.Int64In("version", 1, 1<<62)
	switch vp.Choice("kind", 4) {
	case 0:
		j := kit.RootJ(vp.N(v), kit.Later(), vp.Bool("cs"), vp.O("k", kj), kit.Roles4(role, role, role, role))
		md, e := metadata.Root().FromBytes(sign(j))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = root.VerifyDelegate("root", md)
	case 1:
		md, e := metadata.Timestamp().FromBytes(sign(kit.TimestampJ(vp.N(v), kit.Later(), kit.Meta(vp.N(1)))))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = root.VerifyDelegate("timestamp", md)
	case 2:
		md, e := metadata.Snapshot().FromBytes(sign(kit.SnapshotJ(vp.N(v), kit.Later(), vp.O("targets.json", kit.Meta(vp.N(1))))))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = root.VerifyDelegate("snapshot", md)
	case 3:
		del := kit.DelegationsJ(vp.O("k", kj), vp.O("keyids", vp.Strs("k"), "name", vp.S("r"), "paths", vp.Strs("a/*"), "terminating", vp.B(true), "threshold", vp.N(1)))
		md, e := metadata.Targets().FromBytes(sign(kit.TargetsJ(vp.N(v), kit.Later(), vp.O("a", kit.TargetJ([]byte("x")).Put("custom", vp.O("z", vp.N(1)))), del)))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = root.VerifyDelegate("targets", md)
	}
	vp.Log("accepted", err == nil)
	vp.Assert((err == nil) == good, "verdict-of-each-key-type")
	if good {
		vp.Reach("kind accepted")
	}
}

// CheckTexts: signatures are over the canonical form, whatever characters there are.
func CheckTexts() {
	k := []*vp.Key{vp.Ed(0), vp.EC(0)}[vp.Choice("key", 2)]
	r := vp.O("keyids", vp.Strs("k"), "threshold", vp.N(1))
	root, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, vp.O("k", kit.KeyJ(k)), kit.Roles4(r, r, r, r)))))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	role, j := kit.Rich(vp.Choice("kind", 5))
	s := kit.Text("text")
	if vp.Bool("name") {
		j.Put("x"+s, vp.N(1))
	} else {
		j.Put("note", vp.A(vp.S(s)))
	}
	canon, text := vp.Canon(j), vp.Doc(j)
	msg := canon
	if vp.Bool("plain") {
		msg = text
	}
	doc := vp.Doc(kit.Env(j, kit.SigJ("k", vp.Sign(k, msg))))
	switch role {
	case "root":
		md, e := metadata.Root().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(role, md)
		}
	case "timestamp":
		md, e := metadata.Timestamp().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(role, md)
		}
	case "snapshot":
		md, e := metadata.Snapshot().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(role, md)
		}
	case "targets":
		md, e := metadata.Targets().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(role, md)
		}
	}
	good := vp.SameBytes(msg, canon)
	vp.Assert((err == nil) == good, "only-canonical-form-verifies")
	if good {
		vp.Reach("text accepted")
	} else {
		vp.Reach("text refused")
	}
}

// CheckDeclaredScheme: an RSA key declared for RSASSA-PSS verifies exactly that.
func CheckDeclaredScheme() {
	k := vp.RSA(0)
	role := kit.RoleJ(1, k)
	root, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(k), kit.Roles4(role, role, role, role)))))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	j := kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(vp.N(1)))
	md, err := metadata.Timestamp().FromBytes(vp.Doc(kit.Env(j, kit.SigBy(k, j))))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	vp.Assert(root.VerifyDelegate("timestamp", md) == nil, "rsa-pss-signature-accepted")
}

// CheckUnusableKey: an unusable authorised key neither counts nor hides the others.
func CheckUnusableKey() {
	good := vp.Ed(0)
	var bad *vp.J
	switch vp.Choice("bad", 6) {
	case 0: // unknown type
		bad = vp.O("keytype", vp.S("sphincs"), "scheme", vp.S("x"), "keyval", vp.O("public", vp.S("00")))
	case 1: // not hexadecimal
		bad = vp.O("keytype", vp.S("ed25519"), "scheme", vp.S("ed25519"), "keyval", vp.O("public", vp.S("zz")))
	case 2: // wrong length
		bad = vp.O("keytype", vp.S("ed25519"), "scheme", vp.S("ed25519"), "keyval", vp.O("public", vp.S("0011")))
	case 3: // not PEM
		bad = vp.O("keytype", vp.S("ecdsa"), "scheme", vp.S("ecdsa-sha2-nistp256"), "keyval", vp.O("public", vp.S("not pem")))
	case 4: // PEM of another type
		bad = kit.KeyJ(vp.RSA(0)).Put("keytype", vp.S("ecdsa"))
	case 5: // not PEM
		bad = vp.O("keytype", vp.S("rsa"), "scheme", vp.S("rsassa-pss-sha256"), "keyval", vp.O("public", vp.S("")))
	}
	th := vp.Int("threshold", 1, 3)
	order := vp.Strs("bad", "good")
	if vp.Bool("swap") {
		order = vp.Strs("good", "bad")
	}
	role := vp.O("keyids", order, "threshold", vp.N(int64(th)))
	root, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, vp.O("bad", bad, "good", kit.KeyJ(good)), kit.Roles4(role, role, role, role)))))
	if err != nil {
		return
	}
	j := kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(vp.N(1)))
	sigs := []*vp.J{kit.SigJ("good", vp.Sign(good, vp.Canon(j)))}
	if vp.Bool("badsig") {
		sigs = append(sigs, kit.SigJ("bad", vp.Sign(good, vp.Canon(j))))
	}
	md, err := metadata.Timestamp().FromBytes(vp.Doc(kit.Env(j, sigs...)))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	err = root.VerifyDelegate("timestamp", md)
	vp.Log("accepted", err == nil)
	vp.Reach("unusable key")
	vp.Assert(err != nil || th == 1, "unusable-key-not-counted")
	vp.Assert(err == nil || th != 1, "unusable-key-does-not-hide-others")
}

// CheckEveryField: a document that differs in any one place from what was signed is
// not accepted.
func CheckEveryField() {
	k := vp.Ed(0)
	role := vp.O("keyids", vp.Strs("k"), "threshold", vp.N(1))
	root, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, vp.O("k", kit.KeyJ(k)), kit.Roles4(role, role, role, role)))))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	name, signed := kit.Rich(vp.Choice("kind", 5))
	sig := kit.SigJ("k", vp.Sign(k, vp.Canon(signed)))
	edited := vp.Bool("edited")
	shown := signed
	if edited {
		shown = kit.Edit(signed, []string{"zz", "Version", "length", "custom"}[vp.Choice("name", vp.Pick(2, 4))])
	}
	doc := vp.Doc(kit.Env(shown, sig))
	switch name {
	case "root":
		md, e := metadata.Root().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(name, md)
		}
	case "timestamp":
		md, e := metadata.Timestamp().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(name, md)
		}
	case "snapshot":
		md, e := metadata.Snapshot().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(name, md)
		}
	case "targets":
		md, e := metadata.Targets().FromBytes(doc)
		if err = e; e == nil {
			err = root.VerifyDelegate(name, md)
		}
	}
	vp.Log("accepted", err == nil)
	if edited {
		vp.Assert(err != nil, "signature-covers-every-field")
		vp.Reach("edited")
	} else {
		vp.Assert(err == nil, "unchanged-content-accepted")
		vp.Reach("complete document")
	}
}

// CheckAlike: several keys of one kind are different keys.
func CheckAlike() {
	var ks []*vp.Key
	kind := vp.Choice("kind", 4)
	for i := 0; i < 3; i++ {
		switch {
		case kind == 0 || kind == 3 && i == 0:
			ks = append(ks, vp.Ed(i))
		case kind == 1 || kind == 3 && i == 1:
			ks = append(ks, vp.EC(i))
		default:
			k := vp.RSA(i)
			k.Scheme = vp.RSAV15 // what the repository's own signers produce
			ks = append(ks, k)
		}
	}
	th := vp.Int64In("threshold", 1, 1<<31-1)
	role := vp.O("keyids", vp.Strs("k0", "k1", "k2"), "threshold", vp.N(th))
	keys := vp.O("k0", kit.KeyJ(ks[0]), "k1", kit.KeyJ(ks[1]), "k2", kit.KeyJ(ks[2]))
	j := kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil)
	var sigs []*vp.J
	for i, id := range []string{"k0", "k1", "k2"} {
		if vp.Bool("signs") {
			sigs = append(sigs, kit.SigJ(id, vp.Sign(ks[i], vp.Canon(j))))
		}
	}
	md, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(j, sigs...)))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	if vp.Bool("delegated") {
		del := kit.DelegationsJ(keys, role.Copy().Put("name", vp.S("r")).Put("paths", vp.Strs("*")).Put("terminating", vp.B(false)))
		tgt, e := metadata.Targets().FromBytes(vp.Doc(kit.Env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), del))))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = tgt.VerifyDelegate("r", md)
	} else {
		root, e := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, keys, kit.Roles4(role, role, role, role)))))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = root.VerifyDelegate("targets", md)
	}
	vp.Log("accepted", err == nil)
	vp.Assert((err == nil) == (int64(len(sigs)) >= th), "keys-of-one-kind-count-each")
	if err == nil && th == 3 {
		vp.Reach("three keys")
	}
}

// CheckLabels: a bad signature under an identifier that only resembles that of an
// authorised key hides no good one.
func CheckLabels() {
	k := vp.Ed(0)
	id := "ab1"
	role := vp.O("keyids", vp.Strs(id), "threshold", vp.N(1))
	j := kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil)
	label := []string{"AB1", "Ab1", "ab1 ", " ab1", "ab", "ab12", "0ab1", ""}[vp.Choice("label", 8)]
	bad := kit.SigJ(label, vp.Sign(vp.Ed(1), vp.Canon(j)))
	sigs := []*vp.J{bad}
	good := vp.Bool("good")
	if good {
		sigs = append(sigs, kit.SigJ(id, vp.Sign(k, vp.Canon(j))))
		if vp.Bool("first") {
			sigs[0], sigs[1] = sigs[1], sigs[0]
		}
	}
	md, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(j, sigs...)))
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil {
		return
	}
	keys := vp.O(id, kit.KeyJ(k))
	if vp.Bool("delegated") {
		del := kit.DelegationsJ(keys, role.Copy().Put("name", vp.S("r")).Put("paths", vp.Strs("*")).Put("terminating", vp.B(false)))
		tgt, e := metadata.Targets().FromBytes(vp.Doc(kit.Env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), del))))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = tgt.VerifyDelegate("r", md)
	} else {
		root, e := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, keys, kit.Roles4(role, role, role, role)))))
		vp.Assert(e == nil, "valid-document-loads")
		if e != nil {
			return
		}
		err = root.VerifyDelegate("targets", md)
	}
	vp.Log("accepted", err == nil)
	vp.Assert((err == nil) == good, "labels-are-compared-exactly")
	vp.Reach("labels")
}
