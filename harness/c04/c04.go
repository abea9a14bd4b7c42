// Package c04: expired metadata is never final.
package c04

import (
	"errors"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const century = 100 * 365 * 24 * 3600

// when is an instant within two centuries of the start of the update and whether
// it lies before that start.
func when(n string) (*vp.J, bool) {
	d := vp.Int64In(n, -2*century, 2*century)
	vp.Assume(d < 0 || d > 600)
	return vp.T(time.Unix(vp.Now().Unix()+d, 0)), d < 0
}

func isExpired(err error) bool { return errors.Is(err, metadata.ErrExpiredMetadata{}) }

// CheckSteps: each step of the trusted set.
func CheckSteps() {
	r := kit.NewRepo()
	var e [5]*vp.J
	var x [5]bool
	for i := range e {
		e[i], x[i] = when("expiry")
	}
	dk := vp.Ed(4)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("d", 1, false, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("d.json", kit.Meta(vp.N(1)))
	r.RootE, r.TSE, r.SnE, r.TgE = e[0], e[1], e[2], e[3]
	tr, err := trustedmetadata.New(r.RootDoc())
	vp.Assert(err == nil, "initial-root-may-be-expired")
	if err != nil {
		return
	}
	if vp.Bool("second-root") {
		// the first one is intermediate then
		e2, x2 := when("expiry2")
		r2 := *r
		r2.RootV, r2.RootE = vp.N(2), e2
		_, err = tr.UpdateRoot(r2.RootDoc())
		vp.Assert(err == nil, "intermediate-root-may-be-expired")
		x[0] = x2
	}
	_, err = tr.UpdateTimestamp(r.TSDoc())
	if x[0] {
		vp.Assert(isExpired(err) && tr.Timestamp == nil, "expired-final-root-blocks-timestamp")
		vp.Reach("root expired")
		return
	}
	vp.Assert((err == nil) == !x[1], "timestamp-final-iff-not-expired")
	vp.Assert(tr.Timestamp != nil, "timestamp-loaded")
	if x[1] {
		vp.Assert(isExpired(err), "expired-timestamp-reported")
		_, err = tr.UpdateSnapshot(r.SnDoc(), vp.Bool("trusted"))
		vp.Assert(isExpired(err) && tr.Snapshot == nil, "expired-timestamp-blocks-snapshot")
		// a fresh one supersedes it
		r.TSV, r.TSE = vp.N(2), kit.Later()
		_, err = tr.UpdateTimestamp(r.TSDoc())
		vp.Assert(err == nil, "fresh-timestamp-supersedes-expired")
		vp.Reach("timestamp expired")
		if err != nil {
			return
		}
	}
	_, err = tr.UpdateSnapshot(r.SnDoc(), vp.Bool("trusted"))
	vp.Assert((err == nil) == !x[2], "snapshot-final-iff-not-expired")
	if x[2] {
		vp.Assert(isExpired(err), "expired-snapshot-reported")
		_, err = tr.UpdateTargets(r.TgDoc())
		vp.Assert(isExpired(err) && tr.Targets["targets"] == nil, "expired-snapshot-blocks-targets")
		vp.Reach("snapshot expired")
		r.SnE = kit.Later()
		_, err = tr.UpdateSnapshot(r.SnDoc(), false)
		vp.Assert(err == nil, "fresh-snapshot-supersedes-expired")
	}
	_, err = tr.UpdateTargets(r.TgDoc())
	vp.Assert((err == nil) == !x[3], "targets-accepted-iff-not-expired")
	if x[3] {
		vp.Assert(isExpired(err) && tr.Targets["targets"] == nil, "expired-targets-not-trusted")
		_, err = tr.UpdateDelegatedTargets(nil, "d", "targets")
		vp.Assert(err != nil, "expired-targets-delegate-nothing")
		vp.Reach("targets expired")
		return
	}
	doc := kit.Signed(kit.TargetsJ(vp.N(1), e[4], vp.O("x", kit.TargetJ([]byte("x"))), nil), dk)
	_, err = tr.UpdateDelegatedTargets(doc, "d", "targets")
	vp.Assert((err == nil) == !x[4], "delegated-targets-accepted-iff-not-expired")
	vp.Assert((tr.Targets["d"] == nil) == x[4], "expired-delegated-targets-not-trusted")
	if err == nil {
		vp.Reach("all fresh")
	}
}

// CheckClient: no target information rests on expired metadata, cached or remote.
func CheckClient() {
	r := kit.NewRepo()
	var x [5]bool
	dk := vp.Ed(4)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("d", 1, false, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("d.json", kit.Meta(vp.N(1)))
	top := vp.Bool("listed-on-top")
	if top {
		r.Targets = vp.O("x", kit.TargetJ([]byte("x")))
	}
	r.RootE, x[0] = when("root")
	r.TSE, x[1] = when("ts")
	r.SnE, x[2] = when("sn")
	r.TgE, x[3] = when("tg")
	var de *vp.J
	de, x[4] = when("d")
	doc := kit.Signed(kit.TargetsJ(vp.N(1), de, vp.O("x", kit.TargetJ([]byte("x"))), nil), dk)
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, true)
	osshim.VPMkdir(kit.MDir)
	r.Publish(net)
	net.Files[kit.Base+"1.d.json"] = doc
	switch vp.Choice("cache", 3) {
	case 1: // everything is cached as well
		osshim.VPPut(kit.MDir+"/timestamp.json", r.TSDoc())
		osshim.VPPut(kit.MDir+"/snapshot.json", r.SnDoc())
		osshim.VPPut(kit.MDir+"/targets.json", r.TgDoc())
		osshim.VPPut(kit.MDir+"/d.json", doc)
	case 2: // older and expired, superseded by what is served
		o := *r
		e := kit.Expiry(vp.Bool("cached-expired"))
		o.TSE, o.SnE, o.TgE = e, e, e
		osshim.VPPut(kit.MDir+"/timestamp.json", o.TSDoc())
		osshim.VPPut(kit.MDir+"/snapshot.json", o.SnDoc())
		osshim.VPPut(kit.MDir+"/targets.json", o.TgDoc())
		r.TSV, r.SnV, r.TgV = vp.N(2), vp.N(2), vp.N(2)
		r.Publish(net)
	}
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	needed := x[0] || x[1] || x[2] || x[3] || !top && x[4]
	got, err := u.GetTargetInfo("x")
	vp.Log("ok", err == nil)
	if needed {
		vp.Assert(err != nil && got == nil, "no-target-information-from-expired-metadata")
		vp.Reach("refused")
	} else {
		vp.Assert(err == nil && got != nil, "fresh-metadata-is-used")
		vp.Reach("answered")
	}
	// a second attempt by the same client doesn't get around it
	got, err = u.GetTargetInfo("x")
	vp.Assert((err == nil && got != nil) == !needed, "second-lookup-agrees")
}

// CheckChain: a client that walks a chain of roots, of which only the last must be fresh.
func CheckChain() {
	r := kit.NewRepo()
	r.Targets = vp.O("x", kit.TargetJ([]byte("x")))
	net := kit.NewNet()
	r.RootE, _ = when("root")
	root := r.RootDoc()
	cfg := kit.Cfg(root, net, vp.Bool("cache"))
	r.Publish(net)
	expired := false
	n := vp.Int("roots", 1, vp.Pick(3, 4))
	for i := 1; i <= n; i++ {
		r.RootV = vp.N(int64(i + 1))
		r.RootE, expired = when("expiry")
		r.Publish(net)
	}
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	err = u.Refresh()
	vp.Assert((err == nil) == !expired, "only-the-last-root-must-be-fresh")
	got, err := u.GetTargetInfo("x")
	vp.Assert((err == nil && got != nil) == !expired, "only-the-last-root-must-be-fresh")
	if expired {
		vp.Assert(isExpired(err), "expired-root-reported")
		vp.Reach("last root expired")
		return
	}
	vp.Assert(u.GetTrustedMetadataSet().Root.Signed.Version == int64(n+1), "last-root-trusted")
	vp.Reach("last root fresh")
}

// CheckLocal: the same in local-only mode.
func CheckLocal() {
	r := kit.NewRepo()
	var x [4]bool
	r.Targets = vp.O("x", kit.TargetJ([]byte("x")))
	r.RootE, x[0] = when("root")
	r.TSE, x[1] = when("ts")
	r.SnE, x[2] = when("sn")
	r.TgE, x[3] = when("tg")
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, true)
	cfg.UnsafeLocalMode = true
	osshim.VPMkdir(kit.MDir)
	osshim.VPPut(kit.MDir+"/timestamp.json", r.TSDoc())
	osshim.VPPut(kit.MDir+"/snapshot.json", r.SnDoc())
	osshim.VPPut(kit.MDir+"/targets.json", r.TgDoc())
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	got, err := u.GetTargetInfo("x")
	ok := !x[0] && !x[1] && !x[2] && !x[3]
	vp.Assert((err == nil && got != nil) == ok, "local-mode-honours-expiry")
	if ok {
		vp.Reach("local fresh")
	}
}

// CheckComparison: every role compares against the instant it is given.
func CheckComparison() {
	secs := vp.Int64In("expires", -20*century, 60*century)
	ref := vp.Int64In("ref", -20*century, 60*century)
	vp.Assume(secs != ref)
	at, now := time.Unix(secs, 0).UTC(), time.Unix(ref, 0).UTC()
	want := secs < ref
	vp.Assert(metadata.Root(at).Signed.IsExpired(now) == want, "root-expiry")
	vp.Assert(metadata.Timestamp(at).Signed.IsExpired(now) == want, "timestamp-expiry")
	vp.Assert(metadata.Snapshot(at).Signed.IsExpired(now) == want, "snapshot-expiry")
	vp.Assert(metadata.Targets(at).Signed.IsExpired(now) == want, "targets-expiry")
}
