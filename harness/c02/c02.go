// Package c02: root rotation.
package c02

import (
	"strconv"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

func keysOf(set int) []*vp.Key {
	switch set {
	case 0:
		return []*vp.Key{vp.Ed(0), vp.Ed(1)}
	case 1:
		return []*vp.Key{vp.Ed(1), vp.Ed(2)}
	}
	return []*vp.Key{vp.Ed(2)}
}

func rootJ(version int64, set, threshold int) *vp.J {
	ks := keysOf(set)
	o := vp.Ed(7)
	r := kit.RoleJ(1, o)
	return kit.RootJ(vp.N(version), kit.Expiry(vp.Bool("expired")), true, kit.KeyMap(append([]*vp.Key{o}, ks...)...), kit.Roles4(kit.RoleJ(threshold, ks...), r, r, r))
}

// CheckUpdateRoot: one step between any two roots.
func CheckUpdateRoot() {
	oldV, newV := vp.Int64("old"), vp.Int64("new")
	oldT := vp.Int("oldT", 1, 2)
	oldJ := rootJ(oldV, 0, oldT)
	tr, err := trustedmetadata.New(kit.Signed(oldJ, keysOf(0)...))
	if err != nil {
		vp.Assert(oldV < 1, "valid-root-refused")
		return
	}
	set := vp.Choice("set", 3)
	newT := vp.Int("newT", 1, 2)
	newJ := rootJ(newV, set, newT)
	var sigs []*vp.J
	signed := map[int]bool{}
	for i := 0; i < 3; i++ {
		if vp.Bool("signed") {
			signed[i] = true
			sigs = append(sigs, kit.SigBy(vp.Ed(i), newJ))
		}
	}
	count := func(set int) (n int) {
		for _, k := range keysOf(set) {
			if signed[k.Idx] {
				n++
			}
		}
		return
	}
	before := tr.Root
	got, err := tr.UpdateRoot(vp.Doc(kit.Env(newJ, sigs...)))
	vp.Log("ok", err == nil)
	ok := newV == oldV+1 && newV > oldV && count(0) >= oldT && count(set) >= newT
	if err == nil {
		vp.Reach("rotated")
		vp.Assert(newV == oldV+1 && newV > oldV, "next-version-only")
		vp.Assert(count(0) >= oldT, "signed-by-old-root")
		vp.Assert(count(set) >= newT, "signed-by-new-root")
		vp.Assert(tr.Root == got && tr.Root.Signed.Version == newV, "new-root-trusted")
	} else {
		vp.Reach("refused")
		vp.Assert(!ok || newV < 1, "correct-root-accepted")
		vp.Assert(tr.Root == before && tr.Root.Signed.Version == oldV, "refused-root-leaves-state")
	}
}

// CheckInitialRoot: the initial root must sign itself.
func CheckInitialRoot() {
	th := vp.Int("threshold", 1, 3)
	j := rootJ(vp.Int64("version"), 0, th)
	var sigs []*vp.J
	n := 0
	for i := 0; i < 3; i++ {
		switch vp.Choice("sig", 3) {
		case 1:
			sigs = append(sigs, kit.SigBy(vp.Ed(i), j))
			if i < 2 {
				n++
			}
		case 2:
			sigs = append(sigs, kit.SigJ(kit.ID(vp.Ed(i)), vp.Sign(vp.Ed(i), []byte("other"))))
		}
	}
	tr, err := trustedmetadata.New(vp.Doc(kit.Env(j, sigs...)))
	vp.Log("ok", err == nil)
	if err == nil {
		vp.Assert(n >= th, "initial-root-signs-itself")
		vp.Assert(tr != nil && tr.Root != nil, "initial-root-trusted")
		vp.Reach("initial accepted")
	} else {
		vp.Assert(n < th || j.Get("version").N < 1, "valid-root-refused")
		vp.Reach("initial refused")
	}
}

// CheckWalk: a refresh follows the published chain and uses its last root.
func CheckWalk() {
	N := vp.Pick(3, 4)
	limit := vp.Int64In("limit", 0, int64(N)+1)
	first := []int64{1, 8, 99, 1<<32 - 1}[vp.Choice("first", vp.Pick(2, 4))]
	// key set of each root: root i is signed by the keys of i-1 and i
	rootKey := func(i int) *vp.Key { return vp.Ed(i) }
	tsKey := func(i int) *vp.Key { return vp.Ed(10 + i) }
	mk := func(i int, version int64) *vp.J {
		rest := kit.RoleJ(1, tsKey(i))
		return kit.RootJ(vp.N(version), kit.Later(), true, kit.KeyMap(rootKey(i), tsKey(i)), kit.Roles4(kit.RoleJ(1, rootKey(i)), rest, rest, rest))
	}
	net := kit.NewNet()
	url := func(v int64) string { return kit.Base + strconv.FormatInt(v, 10) + ".root.json" }
	last, broken, stop := int64(0), false, false
	for i := 1; i <= N; i++ {
		v := first + int64(i)
		j := mk(i, v)
		var doc []byte
		st := vp.Choice("state", 8)
		switch st {
		case 0:
			doc = kit.Signed(j, rootKey(i-1), rootKey(i))
		case 1: // not signed by the previous root
			doc = kit.Signed(j, rootKey(i))
		case 2: // not signed by itself
			doc = kit.Signed(j, rootKey(i-1))
		case 3: // another version under this name
			j = mk(i, vp.Int64("wrong"))
			vp.Assume(j.Get("version").N != v)
			doc = kit.Signed(j, rootKey(i-1), rootKey(i))
		case 4: // missing
		case 5:
			net.Status[url(v)] = 403
		case 6:
			net.Status[url(v)] = vp.Int("status", 400, 599)
			vp.Assume(net.Status[url(v)] != 403 && net.Status[url(v)] != 404)
		case 7:
			net.Fail[url(v)] = true
		}
		if doc != nil {
			net.Files[url(v)] = doc
		}
		if !stop && int64(i) <= limit {
			switch st {
			case 0:
				last = int64(i)
			case 4, 5:
				stop = true
			default:
				stop, broken = true, true
			}
		}
		if st != 0 {
			// what is published after a gap is out of reach
			if (st == 4 || st == 5) && i < N && vp.Bool("gap") {
				for k := i + 1; k <= N; k++ {
					v := first + int64(k)
					net.Files[url(v)] = kit.Signed(mk(k, v), rootKey(k-1), rootKey(i-1), rootKey(k))
				}
			}
			break
		}
	}
	// everything else is signed with the keys of one root
	signer := vp.Int("signer", 0, N)
	tk := tsKey(signer)
	tgt := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil), tk)
	snap := kit.Signed(kit.SnapshotJ(vp.N(1), kit.Later(), vp.O("targets.json", kit.Meta(vp.N(1)))), tk)
	net.Files[kit.Base+"timestamp.json"] = kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(vp.N(1))), tk)
	net.Files[kit.Base+"1.snapshot.json"] = snap
	net.Files[kit.Base+"1.targets.json"] = tgt
	cfg := kit.Cfg(kit.Signed(mk(0, first), rootKey(0)), net, false)
	cfg.MaxRootRotations = limit
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	err = u.Refresh()

	set := u.GetTrustedMetadataSet()
	vp.Log("ok", err == nil, "root", set.Root.Signed.Version)
	vp.Assert(set.Root.Signed.Version == first+last, "walks-to-last-valid-root")
	if broken {
		vp.Assert(err != nil, "broken-chain-fails")
		vp.Assert(set.Timestamp == nil, "nothing-loaded-after-broken-chain")
		vp.Reach("broken chain")
		return
	}
	vp.Assert((err == nil) == (int64(signer) == last), "keys-of-last-root-used")
	if err == nil {
		vp.Reach("walk done")
		if last == int64(N) {
			vp.Reach("walked all")
		}
	}
}

// CheckLong: a long chain is followed up to the limit.
func CheckLong() {
	limit := []int64{3, 5, 9, 32}[vp.Choice("limit", 4)]
	missing := []int64{4, 6, 30, 33, 100}[vp.Choice("missing", 5)]
	k := vp.Ed(0)
	role := kit.RoleJ(1, k)
	first := []int64{1, 90, 1<<32 - 5}[vp.Choice("first", 3)]
	mk := func(i int64) *vp.J {
		return kit.RootJ(vp.N(first+i), kit.Later(), true, kit.KeyMap(k), kit.Roles4(role, role, role, role))
	}
	net := kit.NewNet()
	asked := int64(0)
	net.Make = func(u string) []byte {
		if !strings.HasSuffix(u, ".root.json") {
			return nil
		}
		asked++
		if asked >= missing || asked > 40 {
			return nil
		}
		return kit.Signed(mk(asked), k)
	}
	cfg := kit.Cfg(kit.Signed(mk(0), k), net, false)
	cfg.MaxRootRotations = limit
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_ = u.Refresh()
	want := missing - 1
	if want > limit {
		want = limit
	}
	vp.Log("steps", u.GetTrustedMetadataSet().Root.Signed.Version-first)
	vp.Assert(u.GetTrustedMetadataSet().Root.Signed.Version == first+want, "walks-to-the-limit")
	vp.Assert(asked <= limit, "no-more-requests-than-the-limit")
	vp.Reach("long chain")
}
