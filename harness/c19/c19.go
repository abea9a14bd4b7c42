// Package c19: only verified metadata reaches the cache, and none when it is off.
package c19

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const kinds = 12

// spoil replaces one document by one that must be refused. It reports whether it did.
func spoil(s *kit.State, role string, kind int, old bool) bool {
	good := s.Docs[role]
	r := s.R
	var signed *vp.J
	var key *vp.Key
	v := vp.N(s.V[role])
	mk := func(version, expires *vp.J) *vp.J {
		switch role {
		case "root":
			return r.RootJ().Put("version", version).Put("expires", expires)
		case "timestamp":
			return kit.TimestampJ(version, expires, kit.MetaFull(r.SnV, s.Docs["snapshot"]))
		case "snapshot":
			return kit.SnapshotJ(version, expires, vp.O("targets.json", kit.MetaFull(r.TgV, s.Docs["targets"]), "deleg.json", kit.MetaFull(vp.N(s.V["deleg"]), s.Docs["deleg"])))
		case "targets":
			return kit.TargetsJ(version, expires, vp.O(), r.Delegations)
		}
		return kit.TargetsJ(version, expires, vp.O(s.Target, kit.TargetJ([]byte("c"))), nil)
	}
	switch role {
	case "root":
		key = r.RootK
	case "timestamp":
		key = r.TSK
	case "snapshot":
		key = r.SnK
	case "targets":
		key = r.TgK
	case "deleg":
		key = s.DK
	}
	signed = mk(v, kit.Later())
	announce := true
	var bad []byte
	switch kind {
	case 0: // other key
		bad = vp.Doc(kit.Env(signed, kit.SigJ(kit.ID(key), vp.Sign(vp.Ed(5), vp.Canon(signed)))))
	case 1: // no signature
		bad = vp.Doc(kit.Env(signed))
	case 2: // signature over other content
		bad = vp.Doc(kit.Env(signed.Copy().Put("x-bad", vp.N(1)), kit.SigBy(key, signed)))
	case 3: // other type, well signed
		bad = kit.Signed(signed.Copy().Put("_type", vp.S("mirrors")), key)
	case 4: // another version, well signed
		w := vp.Int64("version")
		vp.Assume(w != s.V[role])
		if role == "timestamp" {
			// only a rollback is refused
			vp.Assume(w < 1 || (old && w <= 1))
		}
		bad = kit.Signed(mk(vp.N(w), kit.Later()), key)
	case 5: // expired, well signed
		if role == "root" {
			return false // expired roots may be superseded
		}
		bad = kit.Signed(mk(v, kit.Earlier()), key)
	case 6: // not the announced bytes, well signed
		if role == "root" || role == "timestamp" {
			return false
		}
		bad = kit.Signed(signed.Copy().Put("x-other", vp.N(1)), key)
		announce = false
	case 7: // not JSON
		bad = []byte("not json")
	case 8: // JSON of another shape
		bad = vp.Doc(vp.A())
	case 9: // empty object
		bad = vp.Doc(vp.O())
	case 10: // a field of the wrong type, well signed
		bad = kit.Signed(signed.Copy().Put("version", vp.S("2")), key)
	case 11: // the document of another role
		if role == "snapshot" {
			bad = s.Docs["targets"]
		} else {
			bad = s.Docs["snapshot"]
		}
	}
	_ = good
	s.Docs[role] = bad
	if announce {
		// the parents announce the spoiled document, well signed
		switch role {
		case "deleg":
			r.SnapMeta = vp.O("deleg.json", kit.MetaFull(vp.N(s.V["deleg"]), bad))
			s.Docs["snapshot"], s.Docs["timestamp"] = r.SnDoc(), r.TSDoc()
		case "targets":
			sn := kit.SnapshotJ(r.SnV, r.SnE, r.SnapMeta.Copy().Put("targets.json", kit.MetaFull(r.TgV, bad)))
			s.Docs["snapshot"] = kit.Signed(sn, r.SnK)
			s.Docs["timestamp"] = kit.Signed(kit.TimestampJ(r.TSV, r.TSE, kit.MetaFull(r.SnV, s.Docs["snapshot"])), r.TSK)
		case "snapshot":
			s.Docs["timestamp"] = kit.Signed(kit.TimestampJ(r.TSV, r.TSE, kit.MetaFull(r.SnV, bad)), r.TSK)
		}
	}
	return true
}

func check(role string) {
	osshim.VPReset()
	osshim.VPChdir("/work")
	cs := vp.Bool("cs")
	old := vp.Bool("old")
	first := kit.NewState(1, cs, "x").Build()
	if old {
		first.Store()
	}
	s := kit.NewState(2, cs, "y").Build()
	if !spoil(s, role, vp.Choice("kind", kinds), old) {
		return
	}
	net := kit.NewNet()
	s.Publish(net)
	_, err := kit.Session(first.Docs["root"], net, true, "y")
	vp.Log("ok", err == nil)
	if role != "timestamp" || !old {
		vp.Assert(err != nil, "bad-document-refused")
	}
	ok := true
	for _, r := range kit.Roles {
		data, has := kit.Cached(r)
		if !has {
			vp.Assert(!old && r != "root", "metadata-not-lost")
			continue
		}
		fine := (old || r == "root") && vp.SameBytes(data, first.Docs[r])
		if r != role && !fine {
			fine = vp.SameBytes(data, s.Docs[r])
		}
		ok = ok && fine
		if r == role && role != "root" && !old {
			vp.Assert(false, "refused-metadata-not-stored")
		}
	}
	vp.Assert(ok, "refused-metadata-not-stored")
	for _, p := range osshim.VPPaths() {
		known := false
		for _, r := range kit.Roles {
			if p == kit.MDir+"/"+r+".json" {
				known = true
			}
		}
		vp.Assert(known, "nothing-else-stored")
	}
	vp.Reach("refused " + role)
}

func CheckRoot()      { check("root") }
func CheckTimestamp() { check("timestamp") }
func CheckSnapshot()  { check("snapshot") }
func CheckTargets()   { check("targets") }
func CheckDelegated() { check("deleg") }

// CheckInitialRoot: a client isn't created from a bad root, and nothing is stored.
func CheckInitialRoot() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	old := vp.Bool("old")
	first := kit.NewState(1, true, "x").Build()
	if old {
		first.Store()
	}
	s := kit.NewState(2, true, "y").Build()
	if !spoil(s, "root", vp.Choice("kind", kinds), old) {
		return
	}
	d := s.Docs["root"]
	_, err := updater.New(kit.Cfg2(d, kit.NewNet(), true))
	vp.Log("ok", err == nil)
	if err == nil {
		return // another version is fine for the initial root
	}
	now, has := kit.Cached("root")
	vp.Assert(has == old && (!has || vp.SameBytes(now, first.Docs["root"])), "refused-metadata-not-stored")
	vp.Reach("refused initial root")
}

// changes counts the operations that could create or change anything.
func changes() int {
	n := 0
	for _, op := range osshim.VPOps() {
		if op.Op != "open" && op.Op != "read" && op.Op != "stat" && op.Op != "readdir" {
			n++
		}
	}
	return n
}

// CheckDisabled: with caching off nothing is created or changed.
func CheckDisabled() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	cs := vp.Bool("cs")
	old := vp.Bool("old")
	first := kit.NewState(1, cs, "x").Build()
	if old {
		first.Store()
	}
	before := len(osshim.VPPaths())
	s := kit.NewState(2, cs, "y").Build()
	bad := vp.Choice("bad", 6)
	if bad > 0 {
		if !spoil(s, kit.Roles[bad-1], vp.Choice("kind", kinds), old) {
			return
		}
	}
	net := kit.NewNet()
	s.Publish(net)
	net.Files[kit.TBase+"y"] = []byte("c")
	osshim.VPClearOps()
	cfg := kit.Cfg2(first.Docs["root"], net, false)
	cfg.PrefixTargetsWithHash = false
	if vp.Bool("nodirs") {
		cfg.LocalMetadataDir, cfg.LocalTargetsDir = "", ""
	}
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	err = u.Refresh()
	if err == nil {
		info, err := u.GetTargetInfo("y")
		if err == nil {
			file := ""
			if vp.Bool("file") {
				file = "/c/out"
			}
			_, data, err := u.DownloadTarget(info, file, "")
			vp.Assert(err == nil && vp.SameBytes(data, []byte("c")), "download-succeeds")
			p, _, err := u.FindCachedTarget(info, file)
			vp.Assert(err == nil && p == "", "nothing-cached")
			vp.Reach("used without cache")
		}
	}
	vp.Log("ok", err == nil)
	if bad == 0 {
		vp.Assert(err == nil, "update-succeeds")
	}
	vp.Assert(changes() == 0 && len(osshim.VPPaths()) == before, "nothing-written-without-cache")
	if old {
		for _, r := range kit.Roles {
			now, has := kit.Cached(r)
			vp.Assert(has && vp.SameBytes(now, first.Docs[r]), "nothing-written-without-cache")
		}
	}
	vp.Reach("without cache")
}
