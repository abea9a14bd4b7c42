// Package c14: serialising and reloading metadata loses nothing.
package c14

import (
	"bytes"
	"encoding/json"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

var long = bytes.Repeat([]byte("longer"), 2000)

// trip is one way through serialisation; it returns the bytes in between, too.
func trip[T metadata.Roles](md *metadata.Metadata[T], way int) ([]byte, *metadata.Metadata[T]) {
	var d []byte
	var err error
	var back *metadata.Metadata[T]
	if way < 2 {
		d, err = md.ToBytes(way == 1)
		vp.Assert(err == nil, "serialised")
		if err != nil {
			return nil, nil
		}
		back, err = new(metadata.Metadata[T]).FromBytes(d)
	} else {
		// the file may hold something longer already
		osshim.VPPut("/work/x.json", long)
		err = md.ToFile("/work/x.json", way == 3)
		vp.Assert(err == nil, "serialised")
		if err != nil {
			return nil, nil
		}
		d, _ = osshim.VPGet("/work/x.json")
		back, err = new(metadata.Metadata[T]).FromFile("/work/x.json")
	}
	vp.Assert(err == nil, "reloaded")
	if err != nil {
		return d, nil
	}
	return d, back
}

// delegator trusts key k for every role.
func delegator(k *vp.Key) *metadata.Metadata[metadata.RootType] {
	role := vp.O("keyids", vp.Strs("k"), "threshold", vp.N(1))
	root, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, vp.O("k", kit.KeyJ(k)), kit.Roles4(role, role, role, role)))))
	vp.Assert(err == nil, "valid-document-loads")
	return root
}

// judge sends doc through serialisation.
func judge[T metadata.Roles](doc []byte, role string, way int, k *vp.Key, label string) {
	root := delegator(k)
	md, err := new(metadata.Metadata[T]).FromBytes(doc)
	vp.Assert(err == nil, "valid-document-loads")
	if err != nil || root == nil {
		return
	}
	before := root.VerifyDelegate(role, md)
	d, back := trip(md, way)
	if back == nil {
		return
	}
	vp.Log("serialised", len(d) > 0)
	after := root.VerifyDelegate(role, back)
	d2, again := trip(back, 0)
	vp.Assert(before == nil, "valid-signature-verifies"+label)
	vp.Assert(vp.SameJSON(doc, d), "content-kept"+label)
	vp.Assert(after == nil, "signature-kept"+label)
	if again != nil {
		vp.Assert(vp.SameJSON(doc, d2), "content-kept"+label)
	}
	vp.Reach("round trip")
}

func judgeAny(signed *vp.J, env *vp.J, role string, way int, k *vp.Key, label string) {
	doc := vp.Doc(env)
	switch role {
	case "root":
		judge[metadata.RootType](doc, role, way, k, label)
	case "timestamp":
		judge[metadata.TimestampType](doc, role, way, k, label)
	case "snapshot":
		judge[metadata.SnapshotType](doc, role, way, k, label)
	case "targets":
		judge[metadata.TargetsType](doc, role, way, k, label)
	}
}

func begin() int {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir("/work")
	return vp.Choice("way", 4)
}

// CheckValues: every number, flag, digest and name of a document.
func CheckValues() {
	way := begin()
	k := vp.Ed(0)
	role, signed := kit.Rich(vp.Choice("kind", 5))
	what := vp.Choice("what", 4)
	var texts []*vp.J
	named := map[*vp.J]string{}
	for _, o := range kit.Nodes(signed) {
		if o.K == 6 {
			for i, v := range o.Vals {
				named[v] = o.Keys[i]
			}
		}
	}
	for _, n := range kit.Nodes(signed) {
		switch {
		case n.K == 1 && what == 0:
			n.B = vp.Bool("flag")
		case n.K == 2 && what == 0:
			switch named[n] {
			case "version":
				n.N = vp.Int64("version")
				vp.Assume(n.N >= 1)
			case "length":
				n.N = vp.Int64("length")
				vp.Assume(n.N != 0) // none is given
			case "threshold":
				n.N = vp.Int64("threshold")
				vp.Assume(n.N >= 1)
			case "bit_length":
				n.N = vp.Int64In("bits", 1, 32)
			default:
				n.N = vp.Int64In("unrecognised", -1<<53, 1<<53)
			}
		case n.K == 4 && what == 1 && named[n] == "sha256":
			n.S = vp.Hex(vp.Bytes("digest", 32))
		case n.K == 4 && what == 2:
			switch named[n] {
			case "sha256", "spec_version", "_type", "expires", "public", "keytype", "scheme", "name":
			default:
				texts = append(texts, n)
			}
		}
	}
	if len(texts) > 0 {
		texts[vp.Choice("text", len(texts))].S = vp.StrIn("text", vp.Pick(2, 3), "ab./<&>\"\\")
	}
	if role == "targets" && what == 3 {
		// names of targets and metadata files
		t := signed.Get("targets")
		t.Keys[0] = vp.StrIn("target", 3, "ab./<&")
	}
	if role == "snapshot" && what == 3 {
		signed.Get("meta").Keys[0] = vp.StrIn("file", 3, "ab./<&")
	}
	judgeAny(signed, kit.Env(signed, kit.SigJ("k", vp.Sign(k, vp.Canon(signed)))), role, way, k, "")
}

// values is a value of any JSON type.
func value(more bool) *vp.J {
	n := 9
	if more {
		n = 12
	}
	switch vp.Choice("value", n) {
	case 0:
		return vp.Null()
	case 1:
		return vp.B(vp.Bool("flag"))
	case 2:
		return vp.N(vp.Int64In("number", -1<<53, 1<<53))
	case 3:
		return vp.S("")
	case 4:
		return vp.S("a\"b\\c</é ")
	case 5:
		return vp.A()
	case 6:
		return vp.O()
	case 7:
		return vp.A(vp.Null(), vp.A(vp.B(true), vp.O("", vp.A())), vp.N(-7))
	case 8:
		return vp.O("version", vp.N(vp.Int64In("number", -1<<53, 1<<53)), "_type", vp.Null(), "deep", vp.O("er", vp.A(vp.O("a", vp.S("b")))))
	case 9:
		return vp.S("null")
	case 10:
		return vp.A(vp.O("length", vp.N(0), "hashes", vp.O()))
	}
	return vp.S(vp.StrIn("text", 3, "ab\"\\/<"))
}

// foreign are member names that the format uses in other places only.
var foreign = []string{"zz", "", "custom", "name", "path", "x.y/z", "length", "keys", "signed", "meta", "roles", "UnrecognizedFields", "-"}

// CheckUnrecognised: a member that the format doesn't know, in any object of the file.
func CheckUnrecognised() {
	way := begin()
	k := vp.Ed(0)
	role, signed := kit.Rich(vp.Choice("kind", 5))
	signed = kit.Deep(signed)
	sig := vp.O("keyid", vp.S("k"), "sig", vp.S(""))
	var objects []*vp.J
	for _, n := range kit.Nodes(signed) {
		if n.K == 6 {
			objects = append(objects, n)
		}
	}
	maps := map[*vp.J]bool{}
	for _, n := range kit.Nodes(signed) {
		if n.K != 6 {
			continue
		}
		// objects whose members are entries, not fields
		for i, key := range n.Keys {
			switch key {
			case "keys", "meta", "targets", "hashes":
				maps[n.Vals[i]] = true
			case "roles":
				maps[n.Vals[i]] = true
			}
		}
	}
	env := vp.O("signatures", vp.A(sig), "signed", signed)
	objects = append(objects, sig, env)
	o := objects[vp.Choice("object", len(objects))]
	vp.Assume(!maps[o])
	name := foreign[vp.Choice("name", vp.Pick(3, len(foreign)))]
	if name == "custom" && o.Get("hashes") != nil && o.Get("version") == nil || o.Get(name) != nil || fieldOf(o, name) {
		return // a field of this object
	}
	o.Put(name, value(vp.Thorough()))
	sig.Put("sig", vp.S(vp.Hex(vp.Sign(k, vp.Canon(signed)))))
	judgeAny(signed, env, role, way, k, "")
}

// fieldOf tells whether the format has such an optional field in o.
func fieldOf(o *vp.J, name string) bool {
	switch {
	case name == "length" || name == "hashes":
		return o.Get("version") != nil && o.Get("_type") == nil
	case name == "custom":
		return o.Get("length") != nil && o.Get("hashes") != nil
	case name == "roles":
		return o.Get("keys") != nil && o.Get("_type") == nil
	}
	return false
}

// CheckAbsent: documents in which any optional part is missing or empty.
func CheckAbsent() {
	way := begin()
	k := vp.Ed(0)
	role, signed := kit.Rich(vp.Choice("kind", 5))
	signed = kit.Deep(signed)
	type place struct {
		o *vp.J
		k string
	}
	var list []place
	for _, o := range kit.Nodes(signed) {
		if o.K != 6 {
			continue
		}
		for i, key := range o.Keys {
			v := o.Vals[i]
			switch {
			case key == "x-more" || key == "custom" || key == "delegations":
				list = append(list, place{o, key})
				if key == "custom" {
					list = append(list, place{o, "=" + key})
				}
			case (key == "length" || key == "hashes") && o.Get("version") != nil:
				list = append(list, place{o, key})
			case (key == "roles" || key == "succinct_roles") && o.Get("_type") == nil:
				// a delegation of nothing
				list = append(list, place{o, key})
				if key == "roles" {
					list = append(list, place{o, "=" + key})
				}
			case key == "hashes":
				list = append(list, place{o, "=" + key})
			case key == "keys" || key == "paths" || key == "path_hash_prefixes" || key == "keyids" || key == "targets" && role == "targets" || key == "meta" && role == "snapshot":
				vp.Assume(v.K == 5 || v.K == 6)
				list = append(list, place{o, "=" + key})
			}
		}
	}
	for i := 0; i < 2; i++ {
		p := list[vp.Choice("place", len(list))]
		if p.k[0] == '=' {
			v := p.o.Get(p.k[1:])
			if v == nil {
				continue
			}
			v.Keys, v.Vals = nil, nil
		} else {
			p.o.Del(p.k)
		}
	}
	judgeAny(signed, kit.Env(signed, kit.SigJ("k", vp.Sign(k, vp.Canon(signed)))), role, way, k, "")
}

// CheckOrder: the order of members and further valid and invalid signatures don't matter.
func CheckOrder() {
	way := begin()
	k := vp.Ed(0)
	role, signed := kit.Rich(vp.Choice("kind", 5))
	signed = kit.Deep(signed)
	canon := vp.Canon(signed)
	all := kit.Nodes(signed)
	n := all[vp.Choice("object", len(all))]
	if n.K != 6 || len(n.Keys) < 2 {
		return
	}
	r := vp.Choice("rotate", len(n.Keys))
	n.Keys = append(append([]string{}, n.Keys[r:]...), n.Keys[:r]...)
	n.Vals = append(append([]*vp.J{}, n.Vals[r:]...), n.Vals[:r]...)
	sigs := []*vp.J{kit.SigJ("k", vp.Sign(k, canon))}
	if vp.Bool("more") {
		sigs = append([]*vp.J{kit.SigJ("other", vp.Bytes("sig", 2)), vp.O("keyid", vp.S("empty"), "sig", vp.S(""))}, sigs...)
	}
	env := kit.Env(signed, sigs...)
	if vp.Bool("signed first") {
		env.Keys = []string{"signed", "signatures"}
		env.Vals = []*vp.J{env.Vals[1], env.Vals[0]}
	}
	judgeAny(signed, env, role, way, k, "")
}

// CheckHex: hexadecimal text in both directions.
func CheckHex() {
	n := vp.Choice("bytes", 5)
	b := vp.Bytes("b", n)
	h := metadata.HexBytes(b)
	vp.Assert(h.String() == vp.Hex(b), "hex-text")
	j, err := h.MarshalJSON()
	vp.Assert(err == nil && string(j) == "\""+vp.Hex(b)+"\"", "hex-text")
	var g metadata.HexBytes
	vp.Assert(g.UnmarshalJSON(j) == nil && vp.SameBytes(g, b), "hex-survives")
	// any text
	m := vp.Choice("chars", 5)
	s := vp.StrIn("s", m, "0189afAFgG \"\\x")
	var u metadata.HexBytes
	err = u.UnmarshalJSON([]byte("\"" + s + "\""))
	ok := m%2 == 0
	for i := 0; i < m; i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			ok = false
		}
	}
	vp.Log("hex", err == nil)
	vp.Assert((err == nil) == ok, "only-hexadecimal-text")
	if err == nil {
		vp.Assert(len(u) == m/2, "hex-survives")
		for i := range u {
			vp.Assert(u[i] == digit(s[2*i])<<4|digit(s[2*i+1]), "hex-survives")
		}
		vp.Reach("hexadecimal")
	} else {
		vp.Reach("other text")
	}
}

func digit(c byte) byte {
	switch {
	case c <= '9':
		return c - '0'
	case c >= 'a':
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

// CheckBuilt: metadata built by a program survives.
func CheckBuilt() {
	way := begin()
	later := vp.Now()
	v := vp.Int64("version")
	vp.Assume(v >= 1)
	switch vp.Choice("kind", 4) {
	case 0:
		md := metadata.Root(later)
		md.Signed.Version = v
		md.Signed.ConsistentSnapshot = vp.Bool("cs")
		th := vp.Int("threshold", 1, 1<<40)
		md.Signed.Roles["root"].Threshold = th
		if vp.Bool("key") {
			k := &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(vp.Ed(1).Pub)}}
			vp.Assert(md.Signed.AddKey(k, "root") == nil, "built")
		}
		_, b := trip(md, way)
		if b == nil {
			return
		}
		vp.Assert(b.Signed.Version == v && b.Signed.ConsistentSnapshot == md.Signed.ConsistentSnapshot && b.Signed.Roles["root"].Threshold == th && len(b.Signed.Roles) == 4 &&
			len(b.Signed.Keys) == len(md.Signed.Keys) && len(b.Signed.Roles["root"].KeyIDs) == len(md.Signed.Roles["root"].KeyIDs) && b.Signed.Type == "root" && b.Signed.Expires.Equal(later), "built-metadata-kept")
		same(md, b)
	case 1:
		md := metadata.Timestamp(later)
		md.Signed.Version = v
		m := md.Signed.Meta["snapshot.json"]
		m.Version = vp.Int64("meta")
		vp.Assume(m.Version >= 1)
		m.Length = vp.Int64("length")
		if vp.Bool("hash") {
			m.Hashes = metadata.Hashes{"sha256": vp.Bytes("h", 2)}
		}
		_, b := trip(md, way)
		if b == nil {
			return
		}
		x := b.Signed.Meta["snapshot.json"]
		vp.Assert(b.Signed.Version == v && x.Version == m.Version && x.Length == m.Length && len(x.Hashes) == len(m.Hashes) && vp.SameBytes(x.Hashes["sha256"], m.Hashes["sha256"]), "built-metadata-kept")
		same(md, b)
	case 2:
		md := metadata.Snapshot(later)
		md.Signed.Version = v
		md.Signed.Meta["d.json"] = metadata.MetaFile(vp.Int64In("meta", 1, 1<<62))
		_, b := trip(md, way)
		if b == nil {
			return
		}
		vp.Assert(b.Signed.Version == v && len(b.Signed.Meta) == 2 && b.Signed.Meta["d.json"].Version == md.Signed.Meta["d.json"].Version, "built-metadata-kept")
		same(md, b)
	case 3:
		md := metadata.Targets(later)
		md.Signed.Version = v
		t, err := metadata.TargetFile().FromBytes("d/x", []byte("abc"), []string{"sha256", "sha512"}[vp.Choice("alg", 2)])
		vp.Assert(err == nil, "built")
		if err != nil {
			return
		}
		t.Length = vp.Int64("length")
		if vp.Bool("custom") {
			c := json.RawMessage(`{"a":[1,null]}`)
			t.Custom = &c
		}
		md.Signed.Targets["d/x"] = t
		switch vp.Choice("delegations", 4) {
		case 1:
			md.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{{Name: "r", KeyIDs: []string{}, Threshold: 1, Terminating: vp.Bool("term"), Paths: []string{"*"}}}}
		case 2:
			md.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: []string{"k"}, Threshold: 2, BitLength: vp.Int("bits", 1, 32), NamePrefix: "p"}}
		case 3:
			md.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, Roles: []metadata.DelegatedRole{{Name: "r", KeyIDs: []string{"k"}, Threshold: 1, PathHashPrefixes: []string{"ab"}}}}
		}
		_, b := trip(md, way)
		if b == nil {
			return
		}
		x := b.Signed.Targets["d/x"]
		vp.Assert(b.Signed.Version == v && x != nil && x.Equal(*t) && x.Path == "d/x" && (x.Custom == nil) == (t.Custom == nil), "built-metadata-kept")
		p, q := md.Signed.Delegations, b.Signed.Delegations
		vp.Assert((p == nil) == (q == nil), "built-metadata-kept")
		if p != nil && q != nil {
			vp.Assert(len(p.Roles) == len(q.Roles) && (p.SuccinctRoles == nil) == (q.SuccinctRoles == nil), "built-metadata-kept")
			if p.SuccinctRoles != nil && q.SuccinctRoles != nil {
				vp.Assert(p.SuccinctRoles.BitLength == q.SuccinctRoles.BitLength && q.SuccinctRoles.NamePrefix == "p" && q.SuccinctRoles.Threshold == 2, "built-metadata-kept")
			}
			if len(p.Roles) == 1 && len(q.Roles) == 1 {
				vp.Assert(p.Roles[0].Terminating == q.Roles[0].Terminating && len(p.Roles[0].Paths) == len(q.Roles[0].Paths) && len(p.Roles[0].PathHashPrefixes) == len(q.Roles[0].PathHashPrefixes), "built-metadata-kept")
			}
		}
		same(md, b)
	}
	vp.Reach("built")
}

func same[T metadata.Roles](a, b *metadata.Metadata[T]) {
	x, e1 := a.ToBytes(false)
	y, e2 := b.ToBytes(false)
	vp.Assert(e1 == nil && e2 == nil && vp.SameJSON(x, y), "built-metadata-kept")
}

// CheckBoth: alternatives of which the format allows one are never dropped silently.
func CheckBoth() {
	way := begin()
	_, signed := kit.Rich(3 + vp.Choice("kind", 2))
	signed = kit.Deep(signed)
	ds := signed.Get("delegations")
	role := vp.O("keyids", vp.Strs("k"), "name", vp.S("r"), "paths", vp.Strs("a/*"), "terminating", vp.B(true), "threshold", vp.N(1))
	if vp.Bool("paths") {
		role.Put("path_hash_prefixes", vp.Strs("ab"))
		ds.Put("roles", vp.A(role))
		ds.Del("succinct_roles")
	} else {
		ds.Put("roles", vp.A(role))
		ds.Put("succinct_roles", vp.O("bit_length", vp.N(3), "keyids", vp.Strs("k"), "name_prefix", vp.S("bin"), "threshold", vp.N(1)))
	}
	doc := vp.Doc(kit.Env(signed))
	md, err := metadata.Targets().FromBytes(doc)
	if err != nil {
		return
	}
	var d []byte
	if way < 2 {
		d, err = md.ToBytes(way == 1)
	} else if err = md.ToFile("/work/x.json", way == 3); err == nil {
		d, _ = osshim.VPGet("/work/x.json")
	}
	vp.Log("serialised", err == nil)
	vp.Assert(err != nil || vp.SameJSON(doc, d), "alternatives-not-dropped")
	vp.Reach("both")
}

// CheckLargeNumber: integers beyond 2^53 in unrecognised members.
func CheckLargeNumber() {
	k := vp.Ed(0)
	role, signed := kit.Rich(vp.Choice("kind", 5))
	signed.Put("x-large", vp.N(9007199254740993))
	judgeAny(signed, kit.Env(signed, kit.SigJ("k", vp.Sign(k, vp.Canon(signed)))), role, 0, k, "-large-number")
}

// CheckLetterCase: unrecognised members named like a field but for the case of a letter.
func CheckLetterCase() {
	k := vp.Ed(0)
	role, signed := kit.Rich(vp.Choice("kind", 5))
	signed.Put("Version", vp.N(9))
	judgeAny(signed, kit.Env(signed, kit.SigJ("k", vp.Sign(k, vp.Canon(signed)))), role, 0, k, "-letter-case")
}
