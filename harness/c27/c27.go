// Package c27: error categories.
package c27

import (
	"errors"
	"fmt"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const (
	repository = iota
	unsigned
	badVersion
	equalVersion
	expired
	mismatch
	download
	downloadLength
	downloadHTTP
	value
	typ
	runtime
	count
)

var categories = [count]error{metadata.ErrRepository{}, metadata.ErrUnsignedMetadata{}, metadata.ErrBadVersionNumber{}, metadata.ErrEqualVersionNumber{},
	metadata.ErrExpiredMetadata{}, metadata.ErrLengthOrHashMismatch{}, metadata.ErrDownload{}, metadata.ErrDownloadLengthMismatch{},
	metadata.ErrDownloadHTTP{}, metadata.ErrValue{}, metadata.ErrType{}, metadata.ErrRuntime{}}

// parents lists the wider categories of each category.
var parents = [count][]int{unsigned: {repository}, badVersion: {repository}, equalVersion: {repository, badVersion}, expired: {repository},
	mismatch: {repository}, downloadLength: {download}, downloadHTTP: {download}}

func is(c, other int) bool {
	if c == other {
		return true
	}
	for _, p := range parents[c] {
		if p == other {
			return true
		}
	}
	return false
}

// only checks that err belongs to category c and its parents and nothing else.
func only(err error, c int, label string) {
	if err == nil {
		vp.Assert(false, label+"-is-an-error")
		return
	}
	for k, e := range categories {
		vp.Assert(errors.Is(err, e) == is(c, k), label)
	}
}

// CheckTypes: every error type with every message against every category.
func CheckTypes() {
	m := vp.Str("msg", vp.Choice("len", vp.Pick(4, 9)))
	n := vp.Int("status", 0, 1000)
	all := [count]error{metadata.ErrRepository{Msg: m}, metadata.ErrUnsignedMetadata{Msg: m}, metadata.ErrBadVersionNumber{Msg: m}, metadata.ErrEqualVersionNumber{Msg: m},
		metadata.ErrExpiredMetadata{Msg: m}, metadata.ErrLengthOrHashMismatch{Msg: m}, metadata.ErrDownload{Msg: m}, metadata.ErrDownloadLengthMismatch{Msg: m},
		metadata.ErrDownloadHTTP{StatusCode: n, URL: m}, metadata.ErrValue{Msg: m}, metadata.ErrType{Msg: m}, metadata.ErrRuntime{Msg: m}}
	c := vp.Choice("type", count)
	only(all[c], c, "category")
	only(fmt.Errorf("context: %w", all[c]), c, "category-of-wrapped-error")
	vp.Assert(all[c].Error() != "", "has-a-text")
	vp.Assert(!errors.Is(errors.New(m), all[c]), "foreign-error")
	vp.Reach("compared")
}

// CheckRoot: refused roots.
func CheckRoot() {
	r := kit.NewRepo()
	r.RootV = vp.N(5)
	t, err := trustedmetadata.New(r.RootDoc())
	if err != nil {
		vp.Assert(false, "root-trusted")
		return
	}
	v := vp.Int64In("version", 1, 1<<62)
	r.RootV = vp.N(v)
	switch vp.Choice("fault", 3) {
	case 0:
		_, err = t.UpdateRoot(r.RootDoc())
		if v == 6 {
			vp.Assert(err == nil, "next-root-accepted")
			return
		}
		only(err, badVersion, "wrong-root-version")
	case 1:
		vp.Assume(v == 6)
		_, err = t.UpdateRoot(kit.Signed(r.RootJ(), vp.Ed(9)))
		only(err, unsigned, "root-without-threshold")
	case 2:
		vp.Assume(v == 6)
		r.RootK = vp.Ed(9)
		_, err = t.UpdateRoot(kit.Signed(r.RootJ(), vp.Ed(0)))
		only(err, unsigned, "root-without-own-threshold")
	}
	_, err = trustedmetadata.New(kit.Signed(kit.NewRepo().RootJ(), vp.Ed(9)))
	only(err, unsigned, "initial-root-without-threshold")
	vp.Reach("root refused")
}

func state(r *kit.Repo, ts, sn bool) *trustedmetadata.TrustedMetadata {
	t, err := trustedmetadata.New(r.RootDoc())
	if err == nil && ts {
		_, err = t.UpdateTimestamp(r.TSDoc())
	}
	if err == nil && sn {
		_, err = t.UpdateSnapshot(r.SnDoc(), false)
	}
	if err != nil {
		vp.Assert(false, "state-set-up")
		vp.Assume(false)
	}
	return t
}

// CheckTimestamp: refused timestamps.
func CheckTimestamp() {
	r := kit.NewRepo()
	r.TSV, r.SnV = vp.N(5), vp.N(5)
	t := state(r, true, false)
	v, sv := vp.Int64In("version", 1, 1<<62), vp.Int64In("snapshot", 1, 1<<62)
	r.TSV, r.SnV = vp.N(v), vp.N(sv)
	switch vp.Choice("fault", 5) {
	case 0:
		_, err := t.UpdateTimestamp(r.TSDoc())
		switch {
		case v < 5:
			only(err, badVersion, "older-timestamp")
			vp.Reach("older timestamp")
		case v == 5:
			only(err, equalVersion, "same-timestamp")
			vp.Reach("same timestamp")
		case sv < 5:
			only(err, badVersion, "older-snapshot-in-timestamp")
			vp.Reach("older snapshot in timestamp")
		default:
			vp.Assert(err == nil, "newer-timestamp-accepted")
		}
	case 1:
		r.TSK = vp.Ed(9)
		d := r.TSDoc()
		_, err := t.UpdateTimestamp(d)
		only(err, unsigned, "timestamp-without-threshold")
	case 2:
		vp.Assume(v > 5 && sv >= 5)
		r.TSE = kit.Earlier()
		_, err := t.UpdateTimestamp(r.TSDoc())
		only(err, expired, "expired-timestamp")
		_, err = t.UpdateSnapshot(r.SnDoc(), false)
		only(err, expired, "snapshot-after-expired-timestamp")
	case 3:
		r.RootE = kit.Earlier()
		t := state(r, false, false)
		_, err := t.UpdateTimestamp(r.TSDoc())
		only(err, expired, "timestamp-with-expired-root")
	case 4:
		r := kit.NewRepo()
		t := state(r, true, true)
		_, err := t.UpdateTimestamp(r.TSDoc())
		only(err, runtime, "timestamp-after-snapshot")
		_, err = t.UpdateRoot(r.RootDoc())
		only(err, runtime, "root-after-timestamp")
		t = state(r, false, false)
		_, err = t.UpdateSnapshot(r.SnDoc(), false)
		only(err, runtime, "snapshot-before-timestamp")
		_, err = t.UpdateTargets(r.TgDoc())
		only(err, runtime, "targets-before-snapshot")
		_, err = t.UpdateDelegatedTargets(r.TgDoc(), "a", "targets")
		only(err, runtime, "delegate-before-snapshot")
		t = state(r, true, true)
		_, err = t.UpdateDelegatedTargets(r.TgDoc(), "a", "targets")
		only(err, runtime, "delegate-before-delegator")
	}
}

// CheckSnapshot: refused snapshots.
func CheckSnapshot() {
	r := kit.NewRepo()
	r.SnV = vp.N(5)
	r.SnapMeta = vp.O("a.json", kit.Meta(vp.N(7)))
	switch vp.Choice("fault", 6) {
	case 0:
		r.Full = true
		t := state(r, true, false)
		r.SnapMeta = vp.O("a.json", kit.Meta(vp.N(8)))
		_, err := t.UpdateSnapshot(r.SnDoc(), false)
		only(err, mismatch, "snapshot-of-other-hash")
	case 1:
		t := state(r, true, false)
		r.SnK = vp.Ed(9)
		_, err := t.UpdateSnapshot(r.SnDoc(), false)
		only(err, unsigned, "snapshot-without-threshold")
	case 2:
		t := state(r, true, false)
		r.SnE = kit.Earlier()
		_, err := t.UpdateSnapshot(r.SnDoc(), false)
		only(err, expired, "expired-snapshot")
		_, err = t.UpdateTargets(r.TgDoc())
		only(err, expired, "targets-after-expired-snapshot")
	case 3:
		t := state(r, true, false)
		v := vp.Int64In("version", 1, 1<<62)
		r.SnV = vp.N(v)
		_, err := t.UpdateSnapshot(r.SnDoc(), false)
		if v == 5 {
			vp.Assert(err == nil, "announced-snapshot-accepted")
			return
		}
		only(err, badVersion, "snapshot-of-other-version")
		_, err = t.UpdateTargets(r.TgDoc())
		only(err, badVersion, "targets-after-snapshot-of-other-version")
		vp.Reach("snapshot of another version")
	case 4:
		t := state(r, true, true)
		v := vp.Int64In("version", 1, 1<<62)
		r.SnapMeta = vp.O("a.json", kit.Meta(vp.N(v)))
		_, err := t.UpdateSnapshot(r.SnDoc(), false)
		if v < 7 {
			only(err, badVersion, "older-entry-in-snapshot")
			vp.Reach("older entry")
		} else {
			vp.Assert(err == nil, "newer-entry-accepted")
		}
	case 5:
		t := state(r, true, true)
		r.SnapMeta = vp.O()
		_, err := t.UpdateSnapshot(r.SnDoc(), false)
		only(err, repository, "entry-missing-in-snapshot")
	}
}

// CheckTargets: refused targets and delegated targets.
func CheckTargets() {
	r := kit.NewRepo()
	k := vp.Ed(4)
	name, delegator := "targets", "root"
	doc := func() []byte { return r.TgDoc() }
	r.TgV = vp.N(7)
	deleg := vp.Bool("delegated")
	v, e, by := vp.N(7), kit.Later(), k
	if deleg {
		name, delegator = "a", "targets"
		r.Delegations = kit.DelegationsJ(kit.KeyMap(k), kit.DelegJ("a", 1, false, vp.Strs("*"), k))
		doc = func() []byte { return kit.Signed(kit.TargetsJ(v, e, vp.O(), nil), by) }
		r.SnapMeta = vp.O("a.json", kit.Meta(v))
	}
	fault := vp.Choice("fault", 5)
	if fault == 0 {
		r.Full = true
		r.SnapMeta = vp.O("a.json", kit.MetaFull(v, doc()))
	}
	t := state(r, true, true)
	if deleg {
		if _, err := t.UpdateTargets(r.TgDoc()); err != nil {
			vp.Assert(false, "state-set-up")
			return
		}
	}
	up := func() error {
		_, err := t.UpdateDelegatedTargets(doc(), name, delegator)
		return err
	}
	switch fault {
	case 0:
		v = vp.N(8)
		r.TgV = v
		only(up(), mismatch, "targets-of-other-hash")
	case 1:
		by = vp.Ed(9)
		r.TgK = by
		only(up(), unsigned, "targets-without-threshold")
	case 2:
		e = kit.Earlier()
		r.TgE = e
		only(up(), expired, "expired-targets")
	case 3:
		n := vp.Int64In("version", 1, 1<<62)
		v = vp.N(n)
		r.TgV = v
		err := up()
		if n == 7 {
			vp.Assert(err == nil, "announced-targets-accepted")
			return
		}
		only(err, badVersion, "targets-of-other-version")
		vp.Reach("targets of another version")
	case 4:
		_, err := t.UpdateDelegatedTargets(doc(), "unlisted", delegator)
		only(err, repository, "role-not-in-snapshot")
	}
	vp.Reach("targets refused")
}

// CheckContent: content that doesn't match a description.
func CheckContent() {
	d := vp.Bytes("data", 2)
	w := []byte("ab")
	n := vp.Int64("length")
	m := &metadata.MetaFiles{Length: n, Version: 1}
	f := &metadata.TargetFiles{Length: n, Hashes: metadata.Hashes{}}
	algo := []string{"sha256", "sha512", "other"}[vp.Choice("algo", 3)]
	h := metadata.HexBytes(vp.SHA256(w))
	if algo == "sha512" {
		h = vp.SHA512(w)
	}
	m.Hashes = metadata.Hashes{algo: h}
	f.Hashes[algo] = h
	if err := m.VerifyLengthHashes(d); err != nil {
		only(err, mismatch, "metadata-content-mismatch")
		vp.Reach("metadata mismatch")
	}
	if err := f.VerifyLengthHashes(d); err != nil {
		only(err, mismatch, "target-content-mismatch")
		vp.Reach("target mismatch")
	}
}

// CheckDownload: failures of the client as a whole.
func CheckDownload() {
	r := kit.NewRepo()
	r.Targets = vp.O("x", kit.TargetJ([]byte("x")))
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, false)
	cfg.PrefixTargetsWithHash = false
	r.Publish(net)
	urls := []string{"timestamp.json", "1.snapshot.json", "1.targets.json", "2.root.json"}
	k := vp.Choice("file", 5)
	status := 400 + vp.Int("status", 0, 199)
	long := vp.Bool("too long")
	want := downloadHTTP
	if k < 4 {
		net.Status[kit.Base+urls[k]] = status
		if long {
			want = downloadLength
			delete(net.Status, kit.Base+urls[k])
			switch k {
			case 0:
				cfg.TimestampMaxLength = 1
			case 1:
				cfg.SnapshotMaxLength = 1
			case 2:
				cfg.TargetsMaxLength = 1
			case 3:
				cfg.RootMaxLength = 1
				net.Files[kit.Base+urls[k]] = r.RootDoc()
			}
		}
	}
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	info, err := u.GetTargetInfo("x")
	if k < 3 || k == 3 && (long || status != 403 && status != 404) {
		only(err, want, "metadata-download-failure")
		vp.Reach("download failure")
		return
	}
	if err != nil {
		vp.Assert(false, "refresh-succeeds")
		return
	}
	if long {
		net.Files[kit.TBase+"x"] = []byte("xy")
		net.NoLimit = vp.Bool("unlimited")
		_, _, err = u.DownloadTarget(info, "", "")
		if net.NoLimit {
			only(err, mismatch, "wrong-target-content")
		} else {
			only(err, downloadLength, "target-too-long")
		}
	} else {
		net.Status[kit.TBase+"x"] = status
		_, _, err = u.DownloadTarget(info, "", "")
		only(err, downloadHTTP, "target-download-failure")
	}
	vp.Reach("target failure")
}

// CheckRefused: documents refused during the client's own refresh and search.
func CheckRefused() {
	net := kit.NewNet()
	r := kit.NewRepo()
	k := vp.Ed(4)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(k), kit.DelegJ("a", 1, false, vp.Strs("*"), k))
	var av *vp.J
	ae, ak := kit.Later(), k
	announced := func() *vp.J { return kit.Meta(av) }
	role := func() []byte { return kit.Signed(kit.TargetsJ(av, ae, vp.O(), nil), ak) }
	set := func(v int64) {
		r.TSV, r.SnV, r.TgV, av = vp.N(v), vp.N(v), vp.N(v), vp.N(v)
		r.SnapMeta = vp.O("a.json", announced())
	}
	set(5)
	root := r.RootDoc()
	cached := vp.Bool("cached")
	cfg := kit.Cfg(root, net, true)
	if cached {
		r.Publish(net)
		net.Files[kit.Base+"5.a.json"] = role()
		u, err := updater.New(cfg)
		if err == nil {
			_, err = u.GetTargetInfo("x")
		}
		if u == nil || err == nil { // no role has that target
			vp.Assert(false, "first-session-finds-nothing")
			return
		}
	}
	set(6)
	file := vp.Choice("file", 5)
	fault := vp.Choice("fault", 4)
	want := []int{unsigned, expired, badVersion, mismatch}[fault]
	if fault == 3 {
		vp.Assume(file >= 2)
		r.Full = true
		r.SnapMeta = vp.O("a.json", kit.MetaFull(av, role()))
	}
	r.Publish(net)
	net.Files[kit.Base+"6.a.json"] = role()
	name := []string{"2.root.json", "timestamp.json", "6.snapshot.json", "6.targets.json", "6.a.json"}[file]
	version := func(expected int64) *vp.J {
		if fault != 2 {
			return vp.N(expected)
		}
		v := vp.Int64In("version", 1, 1<<62)
		vp.Assume(v != expected)
		return vp.N(v)
	}
	var doc []byte
	switch file {
	case 0:
		vp.Assume(fault != 1) // that is the timestamp's error
		r.RootV = version(2)
		doc = r.RootDoc()
		if fault == 0 {
			doc = kit.Signed(r.RootJ(), vp.Ed(9))
		}
	case 1:
		vp.Assume(fault != 2 || cached)
		if fault == 2 {
			r.TSV = vp.N(vp.Int64In("version", 1, 4))
		}
		if fault == 1 {
			r.TSE = kit.Earlier()
		}
		if fault == 0 {
			r.TSK = vp.Ed(9)
		}
		doc = r.TSDoc()
		r.TSK = vp.Ed(1)
	case 2:
		r.SnV = version(6)
		switch fault {
		case 0:
			r.SnK = vp.Ed(9)
		case 1:
			r.SnE = kit.Earlier()
		case 3:
			r.SnE = vp.T(vp.Now().Add(72 * time.Hour)) // of the same length
		}
		doc = r.SnDoc()
	case 3:
		r.TgV = version(6)
		switch fault {
		case 0:
			r.TgK = vp.Ed(9)
		case 1:
			r.TgE = kit.Earlier()
		case 3:
			r.TgE = vp.T(vp.Now().Add(72 * time.Hour))
		}
		doc = r.TgDoc()
	case 4:
		av = version(6)
		switch fault {
		case 0:
			ak = vp.Ed(9)
		case 1:
			ae = kit.Earlier()
		case 3:
			ae = vp.T(vp.Now().Add(72 * time.Hour))
		}
		doc = role()
	}
	net.Files[kit.Base+name] = doc
	u, err := updater.New(kit.Cfg2(root, net, true))
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	if file < 4 && vp.Bool("refresh") {
		err = u.Refresh()
	} else {
		_, err = u.GetTargetInfo("x")
	}
	only(err, want, "refused-by-the-client")
	vp.Reach("refused by the client")
}
