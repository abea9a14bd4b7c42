// Package c03: versions never go backwards.
package c03

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

func repo() *kit.Repo {
	r := kit.NewRepo()
	r.CS = false
	return r
}

func ver(n string) *vp.J { return vp.N(vp.Int64In(n, 1, 1<<63-1)) }

// CheckTimestamp: any timestamp after any other.
func CheckTimestamp() {
	r := repo()
	tr, err := trustedmetadata.New(r.RootDoc())
	if err != nil {
		vp.Assert(false, "root-refused")
		return
	}
	ts := func(tag string, exp bool) (*vp.J, *vp.J) {
		v, s := ver(tag+"v"), ver(tag+"s")
		return v, s
	}
	v1, s1 := ts("old", false)
	exp1 := vp.Bool("expired")
	_, err = tr.UpdateTimestamp(kit.Signed(kit.TimestampJ(v1, kit.Expiry(exp1), kit.Meta(s1)), r.TSK))
	vp.Assert((err != nil) == exp1 && tr.Timestamp != nil, "first-timestamp-loaded")
	if tr.Timestamp == nil {
		return
	}
	old := tr.Timestamp
	steps := vp.Pick(1, 2)
	for i := 0; i < steps; i++ {
		v2, s2 := ts("new", false)
		exp2 := vp.Bool("expired")
		got, err := tr.UpdateTimestamp(kit.Signed(kit.TimestampJ(v2, kit.Expiry(exp2), kit.Meta(s2)), r.TSK))
		vp.Log("ok", err == nil)
		lower := v2.N <= v1.N || s2.N < s1.N
		if lower {
			vp.Assert(err != nil, "older-timestamp-refused")
			vp.Assert(tr.Timestamp == old, "older-timestamp-not-adopted")
			vp.Reach("refused")
		} else {
			vp.Assert((err != nil) == exp2, "newer-timestamp-accepted")
			vp.Assert(tr.Timestamp != old && tr.Timestamp.Signed.Version == v2.N, "newer-timestamp-adopted")
			if err == nil {
				vp.Assert(got == tr.Timestamp, "newer-timestamp-returned")
			}
			vp.Reach("adopted")
			old, v1, s1 = tr.Timestamp, v2, s2
		}
	}
}

var names = []string{"targets.json", "a.json", "b.json"}

// CheckSnapshot: any snapshot after any other.
func CheckSnapshot() {
	r := repo()
	tr, err := trustedmetadata.New(r.RootDoc())
	if err != nil {
		vp.Assert(false, "root-refused")
		return
	}
	announced := ver("announced")
	_, err = tr.UpdateTimestamp(kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(announced)), r.TSK))
	if err != nil {
		vp.Assert(false, "timestamp-refused")
		return
	}
	nOld := vp.Int("entries", 1, 3)
	nOld = [...]int{0, 1, 2, 3}[nOld]
	mo := vp.O()
	var ov, nv [3]*vp.J
	for i := 0; i < nOld; i++ {
		ov[i] = ver("ov")
		mo.Put(names[i], kit.Meta(ov[i]))
	}
	oldV, oldE := ver("old"), vp.Bool("expired")
	_, err = tr.UpdateSnapshot(kit.Signed(kit.SnapshotJ(oldV, kit.Expiry(oldE), mo), r.SnK), vp.Bool("trusted"))
	vp.Assert(tr.Snapshot != nil, "first-snapshot-loaded")
	vp.Assert((err == nil) == (!oldE && oldV.N == announced.N), "first-snapshot-final")
	if tr.Snapshot == nil {
		return
	}
	before := tr.Snapshot
	mn := vp.O()
	bad := false
	for i := 0; i < 3; i++ {
		if vp.Bool("listed") {
			nv[i] = ver("nv")
			mn.Put(names[i], kit.Meta(nv[i]))
			if i < nOld && nv[i].N < ov[i].N {
				bad = true
			}
		} else if i < nOld {
			bad = true
		}
	}
	newV, newE := ver("new"), vp.Bool("expired")
	got, err := tr.UpdateSnapshot(kit.Signed(kit.SnapshotJ(newV, kit.Expiry(newE), mn), r.SnK), vp.Bool("trusted"))
	vp.Log("ok", err == nil)
	if bad {
		vp.Assert(err != nil, "rolled-back-snapshot-refused")
		vp.Assert(tr.Snapshot == before, "rolled-back-snapshot-not-adopted")
		vp.Reach("refused")
		return
	}
	vp.Assert((err == nil) == (!newE && newV.N == announced.N), "correct-snapshot-accepted")
	vp.Assert(tr.Snapshot != before && tr.Snapshot.Signed.Version == newV.N, "correct-snapshot-adopted")
	if err == nil {
		vp.Assert(got == tr.Snapshot, "correct-snapshot-returned")
		vp.Reach("accepted")
	}
}

// CheckSessions: what an earlier session left in the cache protects the next one.
func CheckSessions() { sessions(false) }

// CheckRotated: the same when the repository has a new root with the same keys for the
// other roles, or announces lengths and hashes.
func CheckRotated() { sessions(true) }

func sessions(changed bool) {
	old, now := repo(), repo()
	rotated := false
	if changed {
		old.Full, now.Full = vp.Bool("full"), vp.Bool("full")
		rotated = vp.Bool("rotated")
	}
	old.TSV, old.SnV, old.TgV = ver("ots"), ver("osn"), ver("otg")
	now.TSV, now.SnV, now.TgV = ver("nts"), ver("nsn"), ver("ntg")
	if old.Full || now.Full {
		// signing twice is no concern here
		vp.Assume(old.TgV.N != now.TgV.N)
	}
	// the cached snapshot may be older than the cached timestamp says
	oldAnnounced := old.SnV
	if !changed {
		old.TSE, old.SnE = kit.Expiry(vp.Bool("tsexpired")), kit.Expiry(vp.Bool("snexpired"))
	}
	if vp.Bool("extra-old") {
		old.SnapMeta = vp.O("a.json", kit.Meta(ver("oa")))
	}
	switch vp.Choice("extra-new", 2) {
	case 1:
		now.SnapMeta = vp.O("a.json", kit.Meta(ver("na")))
	}
	net := kit.NewNet()
	cfg := kit.Cfg(old.RootDoc(), net, true)
	osshim.VPMkdir(kit.MDir)
	osshim.VPMkdir(kit.TDir)
	hasSn := vp.Bool("cached-snapshot")
	osshim.VPPut(kit.MDir+"/timestamp.json", old.TSDoc())
	if hasSn {
		osshim.VPPut(kit.MDir+"/snapshot.json", old.SnDoc())
	}
	if !changed && vp.Bool("cached-targets") {
		osshim.VPPut(kit.MDir+"/targets.json", old.TgDoc())
	}
	if rotated {
		now.RootV = vp.N(2)
		if vp.Bool("newkey") {
			k := now.RootK
			now.RootK = vp.Ed(7)
			net.Files[kit.Base+"2.root.json"] = kit.Signed(now.RootJ(), k, now.RootK)
		}
	}
	r2 := net.Files[kit.Base+"2.root.json"]
	now.Publish(net)
	if r2 != nil {
		net.Files[kit.Base+"2.root.json"] = r2
	}
	if !rotated {
		net.Status[kit.Base+"2.root.json"] = 404
	}
	net.Status[kit.Base+"3.root.json"] = 404
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	err = u.Refresh()
	set := u.GetTrustedMetadataSet()
	vp.Log("ok", err == nil)
	if rotated {
		vp.Assert(set.Root.Signed.Version == 2, "client-follows-root")
	}
	if err != nil {
		vp.Reach("refused")
		lowerTS := now.TSV.N < old.TSV.N || now.SnV.N < oldAnnounced.N && now.TSV.N != old.TSV.N
		if now.TSV.N > old.TSV.N && now.SnV.N >= oldAnnounced.N && !hasSn {
			vp.Assert(false, "newer-repository-accepted")
		}
		if now.TSV.N > old.TSV.N && now.SnV.N > oldAnnounced.N && now.TgV.N >= old.TgV.N && old.SnapMeta.Get("a.json") == nil {
			vp.Assert(false, "newer-repository-accepted")
		}
		if lowerTS {
			vp.Assert(set.Snapshot == nil && set.Targets["targets"] == nil, "nothing-loaded-after-rollback")
			vp.Reach("rolled back")
		}
		return
	}
	vp.Reach("refreshed")
	vp.Assert(set.Timestamp.Signed.Version >= old.TSV.N, "timestamp-version-never-lower")
	vp.Assert(set.Timestamp.Signed.Meta["snapshot.json"].Version >= oldAnnounced.N, "snapshot-announcement-never-lower")
	if hasSn {
		vp.Assert(set.Snapshot.Signed.Meta["targets.json"].Version >= old.TgV.N, "targets-announcement-never-lower")
		vp.Assert(set.Targets["targets"].Signed.Version >= old.TgV.N, "targets-version-never-lower")
		if e := old.SnapMeta.Get("a.json"); e != nil {
			m := set.Snapshot.Signed.Meta["a.json"]
			vp.Assert(m != nil && m.Version >= e.Get("version").N, "listed-metadata-never-lower")
		}
	}
	// the cache holds what was accepted
	if d, ok := osshim.VPGet(kit.MDir + "/timestamp.json"); ok {
		same := now.TSV.N > old.TSV.N
		if same {
			vp.Assert(vp.SameBytes(d, now.TSDoc()), "newer-timestamp-cached")
		} else {
			vp.Assert(vp.SameBytes(d, old.TSDoc()), "equal-timestamp-keeps-the-cached-one")
		}
	}
}
