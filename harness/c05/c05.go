// Package c05: agreement with the parent's announcement, and loading order.
package c05

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// announce makes an entry of meta for doc and says whether doc agrees with it.
func announce(version *vp.J, doc []byte) (*vp.J, bool) {
	m := vp.O("version", version)
	ok := true
	h := vp.O()
	other := []byte("other content")
	kinds := 3
	for i, alg := range []string{"sha256", "sha512"} {
		_ = i
		d, o := vp.SHA256(doc), vp.SHA256(other)
		if alg == "sha512" {
			d, o = vp.SHA512(doc), vp.SHA512(other)
		}
		switch vp.Choice("hash-"+alg, kinds) {
		case 1:
			h.Put(alg, vp.S(vp.Hex(d)))
		case 2:
			h.Put(alg, vp.S(vp.Hex(o)))
			ok = false
		}
	}
	switch vp.Choice("hash-odd", 4) {
	case 1: // an algorithm nobody can check
		h.Put("crc32", vp.S("00000000"))
		ok = false
	case 2: // a digest of another algorithm under this name
		h.Put("sha256", vp.S(vp.Hex(vp.SHA512(doc))))
		ok = false
	case 3: // an empty digest
		h.Put("sha512", vp.S(""))
		ok = false
	}
	if len(h.Keys) > 0 {
		m.Put("hashes", h)
	}
	if vp.Bool("length") {
		l := vp.Int64("len")
		m.Put("length", vp.N(l))
		vp.Assume(l != 0) // means that there is none
		if l != vp.Len64(doc) {
			ok = false
		}
	}
	return m, ok
}

func anyVer(n string) *vp.J { return vp.N(vp.Int64In(n, 1, 1<<63-1)) }

// CheckSnapshot: the snapshot against the timestamp.
func CheckSnapshot() {
	r := kit.NewRepo()
	r.SnV = anyVer("actual")
	doc := r.SnDoc()
	announced := anyVer("announced")
	m, agree := announce(announced, doc)
	tr, err := trustedmetadata.New(r.RootDoc())
	if err == nil {
		_, err = tr.UpdateTimestamp(kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), m), r.TSK))
	}
	if err != nil {
		vp.Assert(false, "parents-accepted")
		return
	}
	own := vp.Bool("own-cache") // content this client verified earlier
	got, err := tr.UpdateSnapshot(doc, own)
	vp.Log("ok", err == nil)
	want := (agree || own) && announced.N == r.SnV.N
	vp.Assert((err == nil && got != nil) == want, "snapshot-final-iff-it-agrees-with-timestamp")
	if !agree && !own {
		vp.Assert(tr.Snapshot == nil, "disagreeing-snapshot-not-loaded")
	}
	_, err = tr.UpdateTargets(r.TgDoc())
	vp.Assert((err == nil) == want, "targets-only-after-final-snapshot")
	if want {
		vp.Reach("snapshot final")
	}
}

// CheckTargets: top-level and delegated targets against the snapshot.
func CheckTargets() {
	r := kit.NewRepo()
	dk := vp.Ed(4)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("d", 1, false, vp.Strs("*"), dk))
	delegated := vp.Bool("delegated")
	v := anyVer("actual")
	var doc []byte
	sm := vp.O()
	if delegated {
		doc = kit.Signed(kit.TargetsJ(v, kit.Later(), vp.O(), nil), dk)
		sm.Put("targets.json", kit.Meta(r.TgV))
	} else {
		r.TgV = v
		doc = r.TgDoc()
		sm.Put("d.json", kit.Meta(vp.N(1)))
	}
	announced := anyVer("announced")
	m, agree := announce(announced, doc)
	listed := vp.Bool("listed")
	role, parent := "targets", "root"
	if delegated {
		role, parent = "d", "targets"
	}
	if listed {
		sm.Put(role+".json", m)
	}
	tr, err := trustedmetadata.New(r.RootDoc())
	if err == nil {
		_, err = tr.UpdateTimestamp(kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(vp.N(1))), r.TSK))
	}
	if err == nil {
		_, err = tr.UpdateSnapshot(kit.Signed(kit.SnapshotJ(vp.N(1), kit.Later(), sm), r.SnK), false)
	}
	if err == nil && delegated {
		_, err = tr.UpdateTargets(r.TgDoc())
	}
	if err != nil {
		vp.Assert(false, "parents-accepted")
		return
	}
	got, err := tr.UpdateDelegatedTargets(doc, role, parent)
	vp.Log("ok", err == nil)
	want := listed && agree && announced.N == v.N
	vp.Assert((err == nil && got != nil) == want, "targets-accepted-iff-they-agree-with-snapshot")
	vp.Assert((tr.Targets[role] != nil) == want, "targets-trusted-iff-they-agree-with-snapshot")
	if want {
		vp.Reach("targets accepted")
	}
}

// CheckClient: the client refuses what disagrees, wherever it comes from.
func CheckClient() {
	r := kit.NewRepo()
	r.CS = vp.Bool("consistent")
	r.Targets = vp.O("x", kit.TargetJ([]byte("x")))
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, false)
	tg := r.TgDoc()
	tm, ok1 := kit.Meta(vp.N(1)), true
	sm, ok2 := kit.Meta(vp.N(1)), true
	second := vp.Bool("second")
	if second {
		tm, ok1 = announce(vp.N(1), tg)
	}
	sn := kit.Signed(kit.SnapshotJ(vp.N(1), kit.Later(), vp.O("targets.json", tm)), r.SnK)
	if !second {
		sm, ok2 = announce(vp.N(1), sn)
	}
	// the fetcher must not enforce the length: the check has to
	net.NoLimit = vp.Bool("no-limit")
	r.Publish(net)
	net.Files[kit.Base+"timestamp.json"] = kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), sm), r.TSK)
	net.Files[kit.Base+kit.Name(r.CS, 1, "snapshot")] = sn
	net.Files[kit.Base+kit.Name(r.CS, 1, "targets")] = tg
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	got, err := u.GetTargetInfo("x")
	vp.Log("ok", err == nil)
	vp.Assert((err == nil && got != nil) == (ok1 && ok2), "lookup-succeeds-iff-everything-agrees")
	if err == nil {
		vp.Reach("lookup done")
	}
}

// CheckOrder: sequences of updates.
func CheckOrder() {
	r := kit.NewRepo()
	dk, ek := vp.Ed(4), vp.Ed(5)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("d", 1, false, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("d.json", kit.Meta(vp.N(1)), "e.json", kit.Meta(vp.N(1)))
	tr, err := trustedmetadata.New(r.RootDoc())
	if err != nil {
		vp.Assert(false, "root-refused")
		return
	}
	d := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), kit.DelegationsJ(kit.KeyMap(ek), kit.DelegJ("e", 1, false, vp.Strs("*"), ek))), dk)
	e := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil), ek)
	root, ts := 1, 0
	sn, tg, dl, el := false, false, false, false
	steps := vp.Pick(4, 6)
	for i := 0; i < steps; i++ {
		switch vp.Choice("op", 6) {
		case 0:
			r2 := *r
			r2.RootV = vp.N(int64(root + 1))
			_, err := tr.UpdateRoot(r2.RootDoc())
			vp.Assert((err == nil) == (ts == 0), "root-only-before-timestamp")
			if err == nil {
				root++
			}
		case 1:
			r2 := *r
			r2.TSV = vp.N(int64(ts + 1))
			_, err := tr.UpdateTimestamp(r2.TSDoc())
			vp.Assert((err == nil) == !sn, "timestamp-only-before-snapshot")
			if err == nil {
				ts++
			}
		case 2:
			_, err := tr.UpdateSnapshot(r.SnDoc(), vp.Bool("own"))
			vp.Assert((err == nil) == (ts > 0 && !tg), "snapshot-only-between-timestamp-and-targets")
			if err == nil {
				sn = true
			}
		case 3:
			_, err := tr.UpdateTargets(r.TgDoc())
			vp.Assert((err == nil) == sn, "targets-only-after-snapshot")
			if err == nil {
				tg = true
			}
		case 4:
			_, err := tr.UpdateDelegatedTargets(d, "d", "targets")
			vp.Assert((err == nil) == tg, "delegated-targets-only-after-their-delegator")
			if err == nil {
				dl = true
				vp.Reach("delegated loaded")
			}
		case 5:
			_, err := tr.UpdateDelegatedTargets(e, "e", "d")
			vp.Assert((err == nil) == dl, "nested-targets-only-after-their-delegator")
			if err == nil {
				el = true
				vp.Reach("T:nested loaded")
			}
		}
		vp.Assert((tr.Timestamp != nil) == (ts > 0) && (tr.Snapshot != nil) == sn && (tr.Targets["targets"] != nil) == tg &&
			(tr.Targets["d"] != nil) == dl && (tr.Targets["e"] != nil) == el && tr.Root.Signed.Version == int64(root), "state-follows-order")
	}
}
