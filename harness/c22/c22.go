// Package c22: local-only mode never uses the network and still verifies.
package c22

import (
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

func when(name string) (*vp.J, bool) {
	d := vp.Int64In(name, -4000000000, 4000000000)
	vp.Assume(d < -1000 || d > 1000)
	return vp.T(time.Unix(vp.Now().Unix()+d, 0)), d > 0
}

// off tells whether the client is also told not to write to its cache.
var off bool

func client(root []byte, net *kit.Net) *updater.Updater {
	cfg := kit.Cfg2(root, net, true)
	cfg.UnsafeLocalMode = true
	cfg.DisableLocalCache = off
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return nil
	}
	return u
}

func silent(net *kit.Net) { vp.Assert(len(net.URLs) == 0, "no-request") }

func put(role string, d []byte) { osshim.VPPut(kit.MDir+"/"+role+".json", d) }

func start() {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
}

// CheckRules: any versions, expiry dates and signers of the cached documents.
func CheckRules() {
	start()
	r := kit.NewRepo()
	other := vp.Ed(9)
	rootE, rootOK := when("root.expires")
	tsE, tsOK := when("timestamp.expires")
	snE, snOK := when("snapshot.expires")
	tgE, tgOK := when("targets.expires")
	tsV, snV, tgV := vp.Int64("timestamp.version"), vp.Int64("snapshot.version"), vp.Int64("targets.version")
	snA, tgA := vp.Int64("snapshot.announced"), vp.Int64("targets.announced")
	vp.Assume(snA >= 1 && tgA >= 1)
	// 0: no hashes, 1: right hashes, 2: other hashes for targets, 3: for the snapshot
	full := vp.Choice("full", 4)
	signer := []*vp.Key{r.TSK, r.SnK, r.TgK}
	badSigner := vp.Choice("wrong signer", 4)
	if badSigner < 3 {
		signer[badSigner] = other
	}
	lenBad, snBad := vp.Int64In("length.off", -3, 3), vp.Int64In("snapshot.length.off", -3, 3)
	tg := kit.Signed(kit.TargetsJ(vp.N(tgV), tgE, vp.O("x", kit.TargetJ([]byte("x"))), nil), signer[2])
	meta := func(v int64, d []byte) *vp.J {
		switch full {
		case 0:
			return kit.Meta(vp.N(v))
		case 2:
			return kit.MetaFull(vp.N(v), append([]byte("."), []byte("other")...))
		}
		return kit.MetaFull(vp.N(v), d).Put("length", vp.N(vp.Len64(d)+lenBad))
	}
	sn := kit.Signed(kit.SnapshotJ(vp.N(snV), snE, vp.O("targets.json", meta(tgA, tg))), signer[1])
	tsm := kit.Meta(vp.N(snA))
	if full > 0 {
		tsm = kit.MetaFull(vp.N(snA), sn).Put("length", vp.N(vp.Len64(sn)+snBad))
	}
	if full == 3 {
		tsm = kit.MetaFull(vp.N(snA), []byte("other"))
	}
	ts := kit.Signed(kit.TimestampJ(vp.N(tsV), tsE, tsm), signer[0])
	put("timestamp", ts)
	put("snapshot", sn)
	put("targets", tg)
	root := kit.Signed(kit.RootJ(vp.N(5), rootE, vp.Bool("cs"), kit.KeyMap(r.RootK, r.TSK, r.SnK, r.TgK),
		kit.Roles4(kit.RoleJ(1, r.RootK), kit.RoleJ(1, r.TSK), kit.RoleJ(1, r.SnK), kit.RoleJ(1, r.TgK))), r.RootK)
	net := kit.NewNet()
	r.Publish(net)
	off = vp.Bool("no cache")
	u := client(root, net)
	if u == nil {
		return
	}
	err := u.Refresh()
	want := rootOK && tsOK && snOK && tgOK && tsV >= 1 && snV >= 1 && tgV >= 1 && snV == snA && tgV == tgA &&
		badSigner == 3 && (full == 0 || full == 1 && lenBad == 0 && snBad == 0)
	vp.Log("ok", err == nil)
	if err == nil {
		vp.Assert(want, "only-verified-metadata-accepted")
		vp.Reach("accepted")
	} else {
		vp.Assert(!want || off, "verified-metadata-accepted")
		vp.Assert(u.GetTrustedMetadataSet().Targets["targets"] == nil, "unverified-targets-not-trusted")
		vp.Reach("refused")
	}
	info, lerr := u.GetTargetInfo("x")
	vp.Assert(lerr != nil || want && info.Length == 1, "only-verified-metadata-accepted")
	silent(net)
}

const states = 12

// content is the signed part of a role's document.
func content(s *kit.State, role string) *vp.J {
	v := vp.N(s.V[role])
	switch role {
	case "timestamp":
		return kit.TimestampJ(v, kit.Later(), kit.MetaFull(vp.N(s.V["snapshot"]), s.Docs["snapshot"]))
	case "snapshot":
		return kit.SnapshotJ(v, kit.Later(), vp.O("deleg.json", kit.MetaFull(vp.N(s.V["deleg"]), s.Docs["deleg"]),
			"targets.json", kit.MetaFull(vp.N(s.V["targets"]), s.Docs["targets"])))
	case "targets":
		return kit.TargetsJ(v, kit.Later(), vp.O(), s.R.Delegations)
	}
	return kit.TargetsJ(v, kit.Later(), vp.O(s.Target, kit.TargetJ([]byte("c"))), nil)
}

// damaged stores a file for a role; it tells whether it is good.
func damaged(s *kit.State, role string, kind int) bool {
	key := map[string]*vp.Key{"timestamp": s.R.TSK, "snapshot": s.R.SnK, "targets": s.R.TgK, "deleg": s.DK}[role]
	doc := s.Docs[role]
	switch kind {
	case 0:
		put(role, doc)
		return true
	case 1: // missing
	case 2:
		put(role, []byte("{"))
	case 3:
		put(role, []byte{})
	case 4:
		put(role, s.Docs["root"])
	case 5:
		n := vp.Int64In("cut", 1, 1<<20)
		vp.Assume(n < vp.Len64(doc))
		put(role, doc[:n])
	case 6: // extended
		put(role, vp.Doc(vp.O("signatures", vp.A(), "signed", vp.O())))
	case 7:
		osshim.VPMkdir(kit.MDir + "/" + role + ".json")
	case 8: // other content of the same version with a valid signature, not what is announced
		j := content(s, role).Put("x-other", vp.N(1))
		if role == "timestamp" {
			j.Get("meta").Get("snapshot.json").Put("version", vp.N(3))
		}
		put(role, kit.Signed(j, key))
	case 9: // the right content, expired
		put(role, kit.Signed(content(s, role).Put("expires", kit.Earlier()), key))
	case 10: // the right content, another signer
		put(role, kit.Signed(content(s, role), vp.Ed(9)))
	case 11:
		put(role, []byte("null"))
	}
	return false
}

// CheckFiles: every state of the four files.
func CheckFiles() {
	start()
	cs := vp.Bool("cs")
	s := kit.NewState(2, cs, "x").Build()
	net := kit.NewNet()
	s.Publish(net)
	good := map[string]bool{}
	i := vp.Choice("first", 4)
	j := vp.Choice("second", 4)
	vp.Assume(i <= j)
	for k, role := range kit.Roles[1:] {
		kind := 0
		if k == i {
			kind = vp.Choice("kind1", states)
		} else if k == j {
			kind = vp.Choice("kind2", states)
		}
		good[role] = damaged(s, role, kind)
	}
	u := client(s.Docs["root"], net)
	if u == nil {
		return
	}
	early := vp.Bool("lookup first")
	var err error
	if !early {
		err = u.Refresh()
		want := good["timestamp"] && good["snapshot"] && good["targets"]
		vp.Log("refreshed", err == nil)
		vp.Assert((err == nil) == want, "refresh-needs-verified-files")
	}
	info, err := u.GetTargetInfo("x")
	vp.Log("found", err == nil)
	all := good["timestamp"] && good["snapshot"] && good["targets"] && good["deleg"]
	if err == nil {
		vp.Assert(all, "lookup-needs-verified-files")
		vp.Assert(info != nil && info.Length == 1, "verified-target")
		vp.Reach("found")
	} else {
		vp.Assert(!all, "lookup-works-offline")
		vp.Reach("not found")
	}
	_, err = u.GetTargetInfo("y")
	vp.Assert(err != nil, "lookup-needs-verified-files")
	silent(net)
}

// CheckDeep: delegated roles at two levels, the inner one with any version, signer and expiry.
func CheckDeep() {
	start()
	r := kit.NewRepo()
	a, b := vp.EC(0), vp.Ed(6)
	full := vp.Bool("full")
	e, ok := when("inner.expires")
	v, announced := vp.Int64("inner.version"), vp.Int64("inner.announced")
	vp.Assume(announced >= 1)
	signer := b
	if vp.Bool("wrong signer") {
		signer = a
	}
	missing := vp.Choice("missing", 3)
	inner := kit.Signed(kit.TargetsJ(vp.N(v), e, vp.O("d/x", kit.TargetJ([]byte("xx"))), nil), signer)
	outer := kit.Signed(kit.TargetsJ(vp.N(3), kit.Later(), vp.O("d/y", kit.TargetJ([]byte("yyy"))),
		kit.DelegationsJ(kit.KeyMap(b), kit.DelegJ("inner", 1, false, vp.Strs("d/*"), b))), a)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(a), kit.DelegJ("outer", 1, vp.Bool("terminating"), vp.Strs("d/*"), a))
	m := func(v int64, d []byte) *vp.J {
		if full {
			return kit.MetaFull(vp.N(v), d)
		}
		return kit.Meta(vp.N(v))
	}
	r.Full = full
	r.SnapMeta = vp.O("outer.json", m(3, outer), "inner.json", m(announced, inner))
	put("timestamp", r.TSDoc())
	put("snapshot", r.SnDoc())
	put("targets", r.TgDoc())
	if missing != 1 {
		put("outer", outer)
	}
	if missing != 2 {
		put("inner", inner)
	}
	net := kit.NewNet()
	r.Publish(net)
	for _, n := range []string{"outer", "3.outer", "inner"} {
		net.Files[kit.Base+n+".json"] = map[bool][]byte{true: inner, false: outer}[n == "inner"]
	}
	u := client(r.RootDoc(), net)
	if u == nil {
		return
	}
	ix, errX := u.GetTargetInfo("d/x")
	iy, errY := u.GetTargetInfo("d/y")
	_, errZ := u.GetTargetInfo("z")
	vp.Log(errX == nil, errY == nil)
	outerOK := missing != 1
	innerOK := outerOK && missing != 2 && ok && v >= 1 && v == announced && signer == b
	vp.Assert((errX == nil) == innerOK, "lookup-needs-verified-files")
	vp.Assert((errY == nil) == outerOK, "lookup-needs-verified-files")
	vp.Assert(errX != nil || ix.Length == 2, "verified-target")
	vp.Assert(errY != nil || iy.Length == 3, "verified-target")
	vp.Assert(errZ != nil, "lookup-needs-verified-files")
	if errX == nil {
		vp.Reach("inner")
	}
	silent(net)
}

// CheckTrust: a cached root of any kind doesn't replace the trusted one.
func CheckTrust() {
	start()
	cs := vp.Bool("cs")
	s := kit.NewState(2, cs, "x").Build()
	s.Store()
	net := kit.NewNet()
	s.Publish(net)
	// the trusted root names other keys
	t := kit.NewState(2, cs, "x")
	switch vp.Choice("foreign", 4) {
	case 0:
		t.R.TSK = vp.Ed(7)
	case 1:
		t.R.SnK = vp.Ed(7)
	case 2:
		t.R.TgK = vp.Ed(7)
	case 3:
		t.R.TSK, t.R.SnK, t.R.TgK = vp.Ed(7), vp.Ed(8), vp.Ed(9)
	}
	t.Build()
	u := client(t.Docs["root"], net)
	if u == nil {
		return
	}
	err := u.Refresh()
	vp.Assert(err != nil, "only-verified-metadata-accepted")
	_, err = u.GetTargetInfo("x")
	vp.Assert(err != nil, "only-verified-metadata-accepted")
	silent(net)
	vp.Reach("foreign root")
}

// CheckFailures: files that can't be opened or read.
func CheckFailures() {
	start()
	s := kit.NewState(2, vp.Bool("cs"), "x").Build()
	s.Store()
	net := kit.NewNet()
	s.Publish(net)
	u := client(s.Docs["root"], net)
	if u == nil {
		return
	}
	osshim.VPFailOp([]string{"open", "read"}[vp.Choice("op", 2)])
	late := vp.Bool("late")
	if late {
		osshim.VPFailOp("")
		vp.Assert(u.Refresh() == nil, "refresh-needs-verified-files")
		osshim.VPFailOp("open")
	}
	_, err := u.GetTargetInfo("x")
	osshim.VPFailOp("")
	vp.Assert(err != nil, "lookup-needs-verified-files")
	silent(net)
	vp.Reach("unreadable")
}
