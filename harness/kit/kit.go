// Package kit builds metadata documents for the harnesses.
package kit

import (
	"time"

	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// KeyJ is the metadata form of a key.
func KeyJ(k *vp.Key) *vp.J {
	switch k.Scheme {
	case vp.Ed25519:
		return vp.O("keytype", vp.S("ed25519"), "scheme", vp.S("ed25519"), "keyval", vp.O("public", vp.S(vp.Hex(k.Pub))))
	case vp.ECDSA:
		return vp.O("keytype", vp.S("ecdsa"), "scheme", vp.S("ecdsa-sha2-nistp256"), "keyval", vp.O("public", vp.S(string(k.Pub))))
	}
	return vp.O("keytype", vp.S("rsa"), "scheme", vp.S("rsassa-pss-sha256"), "keyval", vp.O("public", vp.S(string(k.Pub))))
}

// ID is the canonical identifier of a key.
func ID(k *vp.Key) string { return vp.Hex(vp.SHA256(vp.Canon(KeyJ(k)))) }

// KeyMap maps canonical identifiers to keys.
func KeyMap(ks ...*vp.Key) *vp.J {
	o := vp.O()
	for _, k := range ks {
		o.Put(ID(k), KeyJ(k))
	}
	return o
}

// RoleJ is a role of root.
func RoleJ(threshold int, ks ...*vp.Key) *vp.J {
	return vp.O("keyids", IDs(ks...), "threshold", vp.N(int64(threshold)))
}

// IDs lists key identifiers.
func IDs(ks ...*vp.Key) *vp.J {
	a := vp.A()
	for _, k := range ks {
		a.Vals = append(a.Vals, vp.S(ID(k)))
	}
	return a
}

// SigJ is a signature object.
func SigJ(id string, sig []byte) *vp.J {
	return vp.O("keyid", vp.S(id), "sig", vp.S(vp.Hex(sig)))
}

// SigBy signs the canonical form of signed.
func SigBy(k *vp.Key, signed *vp.J) *vp.J { return SigJ(ID(k), vp.Sign(k, vp.Canon(signed))) }

// Env is a metadata envelope.
func Env(signed *vp.J, sigs ...*vp.J) *vp.J {
	return vp.O("signatures", vp.A(sigs...), "signed", signed)
}

// Signed renders a document signed by keys.
func Signed(signed *vp.J, ks ...*vp.Key) []byte {
	a := vp.A()
	for _, k := range ks {
		a.Vals = append(a.Vals, SigBy(k, signed))
	}
	return vp.Doc(vp.O("signatures", a, "signed", signed))
}

// Later and Earlier are expiry dates after and before the reference time.
func Later() *vp.J   { return vp.T(vp.Now().Add(48 * time.Hour)) }
func Earlier() *vp.J { return vp.T(vp.Now().Add(-48 * time.Hour)) }

// Expiry chooses one of them.
func Expiry(expired bool) *vp.J {
	if expired {
		return Earlier()
	}
	return Later()
}

// RootJ is the signed part of root metadata.
func RootJ(version *vp.J, expires *vp.J, consistent bool, keys, roles *vp.J) *vp.J {
	return vp.O("_type", vp.S("root"), "consistent_snapshot", vp.B(consistent), "expires", expires, "keys", keys,
		"roles", roles, "spec_version", vp.S("1.0.31"), "version", version)
}

// Roles4 gives each top-level role one key.
func Roles4(root, ts, snap, tgts *vp.J) *vp.J {
	return vp.O("root", root, "snapshot", snap, "targets", tgts, "timestamp", ts)
}

// TimestampJ is the signed part of timestamp metadata.
func TimestampJ(version, expires, snapMeta *vp.J) *vp.J {
	return vp.O("_type", vp.S("timestamp"), "expires", expires, "meta", vp.O("snapshot.json", snapMeta), "spec_version", vp.S("1.0.31"), "version", version)
}

// SnapshotJ is the signed part of snapshot metadata.
func SnapshotJ(version, expires, meta *vp.J) *vp.J {
	return vp.O("_type", vp.S("snapshot"), "expires", expires, "meta", meta, "spec_version", vp.S("1.0.31"), "version", version)
}

// TargetsJ is the signed part of targets metadata; delegations may be nil.
func TargetsJ(version, expires, targets, delegations *vp.J) *vp.J {
	o := vp.O("_type", vp.S("targets"), "expires", expires, "spec_version", vp.S("1.0.31"), "targets", targets, "version", version)
	if delegations != nil {
		o.Put("delegations", delegations)
	}
	return o
}

// Meta is a version-only entry of meta.
func Meta(version *vp.J) *vp.J { return vp.O("version", version) }

// MetaFull describes data completely.
func MetaFull(version *vp.J, data []byte) *vp.J {
	return vp.O("hashes", vp.O("sha256", vp.S(vp.Hex(vp.SHA256(data)))), "length", vp.N(vp.Len64(data)), "version", version)
}

// TargetJ describes a target file.
func TargetJ(data []byte) *vp.J {
	return vp.O("hashes", vp.O("sha256", vp.S(vp.Hex(vp.SHA256(data)))), "length", vp.N(vp.Len64(data)))
}

// DelegJ is a delegation to explicit paths.
func DelegJ(name string, threshold int, terminating bool, paths *vp.J, ks ...*vp.Key) *vp.J {
	return vp.O("keyids", IDs(ks...), "name", vp.S(name), "paths", paths, "terminating", vp.B(terminating), "threshold", vp.N(int64(threshold)))
}

// DelegationsJ groups delegated roles.
func DelegationsJ(keys *vp.J, roles ...*vp.J) *vp.J {
	return vp.O("keys", keys, "roles", vp.A(roles...))
}

// Text gives characters that encodings treat differently.
func Text(n string) string {
	switch vp.Choice(n+".kind", 3) {
	case 0:
		return vp.StrIn(n, 2, "a&<\"\\\n")
	case 1:
		return "\u00e9\u2028\U0001f511"
	}
	return "\x01\x7f\t/"
}
