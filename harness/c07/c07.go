// Package c07: metadata of one role is never taken for another.
package c07

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

var roles = []string{"root", "timestamp", "snapshot", "targets"}

// signed is the signed part of a document of the given kind with every top-level
// role served by one key.
func signed(kind int, k *vp.Key) *vp.J {
	switch kind {
	case 0:
		r := kit.RoleJ(1, k)
		return kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(k), kit.Roles4(r, r, r, r))
	case 1:
		return kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(vp.N(1)))
	case 2:
		return kit.SnapshotJ(vp.N(1), kit.Later(), vp.O("snapshot.json", kit.Meta(vp.N(1)), "targets.json", kit.Meta(vp.N(1)), "timestamp.json", kit.Meta(vp.N(1)), "root.json", kit.Meta(vp.N(1)), "d.json", kit.Meta(vp.N(1))))
	}
	return kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), kit.DelegationsJ(kit.KeyMap(k), kit.DelegJ("d", 1, false, vp.Strs("*"), k)))
}

// everything has the members of all four kinds.
func everything(k *vp.Key) *vp.J {
	j := signed(0, k)
	for i := 1; i < 4; i++ {
		s := signed(i, k)
		for n, key := range s.Keys {
			if j.Get(key) == nil {
				j.Put(key, s.Vals[n])
			}
		}
	}
	return j
}

func load(kind int, data []byte, file bool) error {
	var err error
	if file {
		osshim.VPReset()
		osshim.VPPut("/f/doc.json", data)
		switch kind {
		case 0:
			_, err = metadata.Root().FromFile("/f/doc.json")
		case 1:
			_, err = metadata.Timestamp().FromFile("/f/doc.json")
		case 2:
			_, err = metadata.Snapshot().FromFile("/f/doc.json")
		case 3:
			_, err = metadata.Targets().FromFile("/f/doc.json")
		}
		return err
	}
	switch kind {
	case 0:
		_, err = metadata.Root().FromBytes(data)
	case 1:
		_, err = metadata.Timestamp().FromBytes(data)
	case 2:
		_, err = metadata.Snapshot().FromBytes(data)
	case 3:
		_, err = metadata.Targets().FromBytes(data)
	}
	return err
}

// CheckLoad: every loader with every declared type.
func CheckLoad() {
	k := vp.Ed(0)
	want := vp.Choice("want", 4)
	body := vp.Choice("body", 5)
	var j *vp.J
	if body == 4 {
		j = everything(k)
	} else {
		j = signed(body, k)
	}
	ok := false
	switch t := vp.Choice("declared", 7); t {
	case 0, 1, 2, 3:
		j.Put("_type", vp.S(roles[t]))
		ok = t == want && (body == 4 || body == want)
		if t == want && body != 4 && body != want {
			// a document lacking its members may or may not load
			vp.Assume(false)
		}
	case 4: // any other name of the same length
		s := vp.StrIn("type", len(roles[want]), "abcdefghijklmnopqrstuvwxyzRTS_")
		vp.Assume(s != roles[want])
		j.Put("_type", vp.S(s))
	case 5:
		j.Del("_type")
	case 6:
		j.Put("_type", []*vp.J{vp.Null(), vp.N(1), vp.A(vp.S(roles[want])), vp.O("_type", vp.S(roles[want]))}[vp.Choice("odd", 4)])
	}
	env := kit.Env(j, kit.SigBy(k, j))
	if vp.Bool("outer") {
		// the envelope says otherwise
		env.Put("_type", vp.S(roles[want]))
	}
	err := load(want, vp.Doc(env), vp.Bool("file"))
	vp.Log("ok", err == nil)
	vp.Assert((err == nil) == ok, "loaded-iff-declared-type-matches")
	if ok {
		vp.Reach("loaded")
	}
}

// CheckUpdate: a document of the wrong kind, correctly signed, at every step.
func CheckUpdate() {
	k := vp.Ed(0)
	doc := func(i int) []byte { return kit.Signed(signed(i, k), k) }
	tr, err := trustedmetadata.New(doc(0))
	if err != nil {
		vp.Assert(false, "root-refused")
		return
	}
	step := vp.Choice("step", 6)
	if step > 0 {
		_, err = tr.UpdateTimestamp(doc(1))
		vp.Assert(err == nil, "timestamp-accepted")
	}
	if step > 1 {
		_, err = tr.UpdateSnapshot(doc(2), false)
		vp.Assert(err == nil, "snapshot-accepted")
	}
	if step > 2 {
		_, err = tr.UpdateTargets(doc(3))
		vp.Assert(err == nil, "targets-accepted")
	}
	is := vp.Choice("is", 5)
	var j *vp.J
	if is == 4 {
		j = everything(k)
		j.Put("_type", vp.S(roles[vp.Choice("says", 4)]))
	} else {
		j = signed(is, k)
	}
	says := j.Get("_type").S
	data := kit.Signed(j, k)
	var want string
	switch step {
	case 0:
		want = "timestamp"
		_, err = tr.UpdateTimestamp(data)
	case 1:
		want = "snapshot"
		_, err = tr.UpdateSnapshot(data, vp.Bool("own"))
	case 2:
		want = "targets"
		_, err = tr.UpdateTargets(data)
	case 3:
		want = "targets"
		_, err = tr.UpdateDelegatedTargets(data, "d", "targets")
	case 4:
		want = "root"
		var t2 *trustedmetadata.TrustedMetadata
		t2, err = trustedmetadata.New(data)
		vp.Assert((err == nil) == (t2 != nil), "no-set-without-root")
	case 5:
		want = "root"
		t2, e := trustedmetadata.New(doc(0))
		if e != nil {
			return
		}
		j2 := j.Copy().Put("version", vp.N(2))
		_, err = t2.UpdateRoot(kit.Signed(j2, k))
	}
	vp.Log("ok", err == nil)
	vp.Assert((err == nil) == (says == want), "accepted-iff-of-the-right-type")
	if err == nil {
		vp.Reach("accepted")
	}
}

// CheckDelegatedName: a delegation can't name a top-level role.
func CheckDelegatedName() {
	r := kit.NewRepo()
	dk := vp.Ed(4)
	n := vp.Choice("name", 5)
	name := append([]string{"d"}, roles...)[n]
	cs := vp.Bool("consistent")
	r.CS = cs
	r.Targets = vp.O("y", kit.TargetJ([]byte("y")))
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ(name, 1, false, vp.Strs("*"), dk))
	evil := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O("x", kit.TargetJ([]byte("x"))), nil), dk)
	if name != "targets" {
		r.SnapMeta = vp.O(name+".json", kit.Meta(vp.N(1)))
	}
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, true)
	osshim.VPMkdir(kit.MDir)
	r.Publish(net)
	if name != "targets" {
		net.Files[kit.Base+kit.Name(cs, 1, name)] = evil
	}
	if vp.Bool("planted") {
		osshim.VPPut(kit.MDir+"/"+name+".json", evil)
	}
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	got, err := u.GetTargetInfo("x")
	vp.Log("ok", err == nil)
	if n == 0 {
		vp.Assert(err == nil && got != nil, "ordinary-delegation-works")
		vp.Reach("ordinary delegation")
		return
	}
	vp.Assert(err != nil, "top-level-name-never-delegated")
	set := u.GetTrustedMetadataSet()
	for _, m := range set.Targets {
		vp.Assert(m.Signed.Targets["x"] == nil, "delegated-content-not-trusted")
	}
	for i, good := range [][]byte{r.RootDoc(), r.TSDoc(), r.SnDoc(), r.TgDoc()} {
		if d, ok := osshim.VPGet(kit.MDir + "/" + roles[i] + ".json"); ok && roles[i] != name {
			vp.Assert(vp.SameBytes(d, good), "top-level-cache-untouched")
		}
	}
}

// CheckStandIn: nothing delegated replaces top-level targets in the trusted set.
func CheckStandIn() {
	r := kit.NewRepo()
	dk := vp.Ed(4)
	names := append([]string{"d"}, roles...)
	a, b := names[vp.Choice("first", 5)], []string{"d", "e", "targets"}[vp.Choice("second", 3)]
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ(a, 1, false, vp.Strs("*"), dk), kit.DelegJ(b, 1, false, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("d.json", kit.Meta(vp.N(1)), "e.json", kit.Meta(vp.N(1)), "root.json", kit.Meta(vp.N(1)), "timestamp.json", kit.Meta(vp.N(1)), "snapshot.json", kit.Meta(vp.N(1)))
	tr, err := trustedmetadata.New(r.RootDoc())
	if err == nil {
		_, err = tr.UpdateTimestamp(r.TSDoc())
	}
	if err == nil {
		_, err = tr.UpdateSnapshot(r.SnDoc(), false)
	}
	if err != nil {
		vp.Assert(false, "parents-accepted")
		return
	}
	_, err = tr.UpdateTargets(r.TgDoc())
	plain := a == "d" && b == "e"
	if plain {
		vp.Assert(err == nil, "ordinary-delegations-accepted")
	}
	top := tr.Targets["targets"]
	other := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O("x", kit.TargetJ([]byte("x"))), nil), dk)
	for _, n := range names {
		_, err := tr.UpdateDelegatedTargets(other, n, "targets")
		vp.Assert(tr.Targets["targets"] == top, "top-level-targets-never-replaced-by-delegated")
		if n != "d" {
			vp.Assert(err != nil, "only-delegated-names-accepted")
		}
		_, err = tr.UpdateDelegatedTargets(other, n, "root")
		vp.Assert(err != nil, "root-delegates-only-top-level-roles")
	}
	if plain {
		vp.Assert(tr.Targets["d"] != nil, "delegated-role-loaded")
		vp.Reach("delegated")
	}
}
