// Package c21: unusable cached metadata never blocks an update.
package c21

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const damages = 20

// damage puts an unusable (or usable) file for a role into the cache; cur is the current
// state of the repository, old an earlier one.
func damage(role string, kind, shape int, cur, old *kit.State) {
	path := kit.MDir + "/" + role + ".json"
	put := func(d []byte) { osshim.VPPut(path, d) }
	key := map[string]*vp.Key{"timestamp": cur.R.TSK, "snapshot": cur.R.SnK, "targets": cur.R.TgK, "deleg": cur.DK}[role]
	mk := func(version int64, expires *vp.J) *vp.J {
		v := vp.N(version)
		switch role {
		case "timestamp":
			return kit.TimestampJ(v, expires, kit.Meta(vp.N(1)))
		case "snapshot":
			return kit.SnapshotJ(v, expires, vp.O("targets.json", kit.Meta(vp.N(1)), "deleg.json", kit.Meta(vp.N(1))))
		}
		return kit.TargetsJ(v, expires, vp.O("q", kit.TargetJ([]byte("q"))), nil)
	}
	good := mk(1, kit.Later())
	switch kind {
	case 0: // the current document
		put(cur.Docs[role])
	case 1: // outdated
		put(old.Docs[role])
	case 2: // missing
	case 3: // empty file
		put([]byte{})
	case 4: // not JSON
		put([]byte("\x00garbage"))
	case 5: // cut short
		d := cur.Docs[role]
		n := vp.Int64In("cut", 1, 1<<20)
		vp.Assume(n < vp.Len64(d))
		put(d[:n])
	case 6: // other JSON
		put(vp.Doc([]*vp.J{vp.Null(), vp.A(), vp.N(7), vp.S("x"), vp.O(), vp.O("signed", vp.Null()), vp.O("signed", vp.O()), vp.O("signatures", vp.A(), "signed", vp.A())}[shape]))
	case 7: // another type
		put(cur.Docs["root"])
	case 8: // no signature
		put(vp.Doc(kit.Env(good)))
	case 9: // signature of another key, any version
		j := mk(vp.Int64In("version."+role, 1, 1<<62), kit.Later())
		put(kit.Signed(j, vp.Ed(5)))
	case 10: // signature over other content
		put(vp.Doc(kit.Env(good.Copy().Put("x-bad", vp.N(1)), kit.SigBy(key, good))))
	case 11: // expired, any older version
		put(kit.Signed(mk(1, kit.Earlier()), key))
	case 12: // a field of the wrong type, well signed
		put(kit.Signed(good.Copy().Put("version", vp.S("1")), key))
	case 13: // a bad expiry, well signed
		put(kit.Signed(good.Copy().Put("expires", vp.S("tomorrow")), key))
	case 14: // a directory
		osshim.VPMkdir(path)
	case 15: // a bad signature entry
		put(vp.Doc(vp.O("signatures", vp.A(vp.O("keyid", vp.S(kit.ID(key)), "sig", vp.S("zz"))), "signed", good)))
	case 16: // version out of range, well signed
		put(kit.Signed(mk(vp.Int64In("low."+role, -1<<62, 0), kit.Later()), key))
	case 17: // duplicate signatures
		put(vp.Doc(kit.Env(good, kit.SigBy(key, good), kit.SigBy(key, good))))
	case 18: // other content under the current version, for the parents to refuse
		if role == "timestamp" {
			put(kit.Signed(good, key))
			return
		}
		put(kit.Signed(mk(cur.V[role], kit.Later()), key))
	case 19: // the current version, but expired
		if role == "timestamp" {
			put(kit.Signed(mk(1, kit.Earlier()), key))
			return
		}
		put(kit.Signed(mk(cur.V[role], kit.Earlier()), key))
	}
}

func fresh(s *kit.State, u *updater.Updater) {
	ts := u.GetTrustedMetadataSet()
	ok := ts.Root.Signed.Version == s.V["root"] && ts.Timestamp != nil && ts.Timestamp.Signed.Version == s.V["timestamp"] &&
		ts.Snapshot != nil && ts.Snapshot.Signed.Version == s.V["snapshot"] &&
		ts.Targets["targets"] != nil && ts.Targets["targets"].Signed.Version == s.V["targets"] &&
		ts.Targets["deleg"] != nil && ts.Targets["deleg"].Signed.Version == s.V["deleg"]
	vp.Assert(ok, "newest-metadata-used")
}

func update(full, cs bool, kinds map[string]int) {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	old := kit.NewState(1, cs, "x")
	old.R.Full = full
	old.Build()
	cur := kit.NewState(2, cs, "y")
	cur.R.Full = full
	cur.V["root"] = 1
	cur.Build()
	dir := false
	shape := 0
	for _, role := range kit.Roles[1:] {
		if kinds[role] == 6 {
			shape = vp.Choice("shape", 8)
			break
		}
	}
	for _, role := range kit.Roles[1:] {
		damage(role, kinds[role], shape, cur, old)
		dir = dir || kinds[role] == 14
	}
	net := kit.NewNet()
	cur.Publish(net)
	if dir {
		// a directory in the place of a file can't be replaced: look at the trusted set only
		cfg := kit.Cfg2(cur.Docs["root"], net, true)
		u, err := updater.New(cfg)
		vp.Assert(err == nil, "client-starts")
		if err == nil {
			_ = u.Refresh()
			vp.Reach("directory")
		}
		return
	}
	u, err := kit.Session(cur.Docs["root"], net, true, "y")
	vp.Log("ok", err == nil)
	vp.Assert(err == nil, "update-succeeds")
	if err != nil {
		return
	}
	fresh(cur, u)
	for _, role := range kit.Roles {
		d, ok := kit.Cached(role)
		vp.Assert(ok && vp.SameBytes(d, cur.Docs[role]), "cache-repaired")
	}
	_, err = u.GetTargetInfo("x")
	vp.Assert(err != nil, "only-current-targets")
	vp.Reach("updated")
}

// unsure: a well signed document of the announced version is accepted without hashes, and
// the announced hash of a snapshot is not checked for a cached one.
func unsure(full bool, role string, kind int) bool {
	return kind == 18 && (role == "snapshot" || !full && role != "timestamp")
}

// CheckPairs: every combination of damage to two files, the others in a common state.
func CheckPairs() {
	i := vp.Choice("first", 4)
	j := vp.Choice("second", 4)
	vp.Assume(i < j)
	rest := vp.Choice("rest", vp.Pick(1, 3))
	kinds := map[string]int{}
	for _, r := range kit.Roles {
		kinds[r] = rest
	}
	a, b := kit.Roles[1+i], kit.Roles[1+j]
	kinds[a] = vp.Choice("kind1", damages)
	kinds[b] = vp.Choice("kind2", damages)
	if unsure(true, a, kinds[a]) || unsure(true, b, kinds[b]) {
		return
	}
	cs := vp.Pick(0, 1) == 0 || vp.Bool("cs")
	update(true, cs, kinds)
}

// CheckAll: every file damaged in the same way, with and without announced hashes.
func CheckAll() {
	k := vp.Choice("kind", damages)
	kinds := map[string]int{}
	for _, r := range kit.Roles {
		kinds[r] = k
	}
	full := vp.Bool("full")
	if unsure(full, "snapshot", k) {
		return
	}
	update(full, vp.Bool("cs"), kinds)
}

// CheckOne: one file damaged, the others current, without announced hashes.
func CheckOne() {
	k := vp.Choice("kind", damages)
	role := kit.Roles[1+vp.Choice("role", 4)]
	if unsure(false, role, k) {
		return
	}
	update(false, vp.Bool("cs"), map[string]int{role: k})
}

// CheckRevoked: everything in the cache is signed by keys revoked since, with any versions.
func CheckRevoked() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	cs := vp.Bool("cs")
	v := vp.Int64In("v", 1, 1<<62)
	old := kit.NewState(1, cs, "x")
	which := vp.Choice("which", 3)
	old.Build()
	vold := kit.NewState(1, false, "x")
	for _, r := range kit.Roles[1:] {
		vold.V[r] = v
	}
	vold.Build()
	vold.Store()
	osshim.VPPut(kit.MDir+"/root.json", old.Docs["root"])
	cur := kit.NewState(2, cs, "y")
	switch which {
	case 0:
		cur.R.TSK, cur.R.SnK, cur.R.TgK, cur.DK = vp.Ed(6), vp.Ed(7), vp.Ed(8), vp.Ed(9)
	case 1:
		cur.R.TSK, cur.R.SnK = vp.Ed(6), vp.Ed(7)
		for _, r := range []string{"targets", "deleg"} {
			cur.V[r] = 3
		}
	case 2:
		cur.R.TSK, cur.R.SnK, cur.R.TgK = vp.Ed(6), vp.Ed(7), vp.Ed(8)
	}
	cur.Build()
	net := kit.NewNet()
	cur.Publish(net)
	u, err := kit.Session(old.Docs["root"], net, true, "y")
	vp.Log("ok", err == nil)
	vp.Assert(err == nil, "update-succeeds")
	if err != nil {
		return
	}
	fresh(cur, u)
	vp.Reach("recovered")
}

// CheckUnreadable: files that can't be read.
func CheckUnreadable() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	cs := vp.Bool("cs")
	old := kit.NewState(1, cs, "x").Build()
	old.Store()
	cur := kit.NewState(2, cs, "y").Build()
	net := kit.NewNet()
	cur.Publish(net)
	op := "open"
	if vp.Bool("read") {
		op = "read"
	}
	osshim.VPFailOp(op)
	u, err := kit.Session(old.Docs["root"], net, true, "y")
	osshim.VPFailOp("")
	vp.Assert(err == nil, "update-succeeds")
	if err == nil {
		fresh(cur, u)
		vp.Reach("unreadable")
	}
}
