// Package c06: refused updates leave no trace.
package c06

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

type state struct {
	root *metadata.Metadata[metadata.RootType]
	ts   *metadata.Metadata[metadata.TimestampType]
	sn   *metadata.Metadata[metadata.SnapshotType]
	tg   map[string]*metadata.Metadata[metadata.TargetsType]
	v    [3]int64
	ref  int64
}

func snap(tr *trustedmetadata.TrustedMetadata) state {
	s := state{root: tr.Root, ts: tr.Timestamp, sn: tr.Snapshot, tg: map[string]*metadata.Metadata[metadata.TargetsType]{}}
	for k, v := range tr.Targets {
		s.tg[k] = v
	}
	s.v[0] = tr.Root.Signed.Version
	if tr.Timestamp != nil {
		s.v[1] = tr.Timestamp.Signed.Version
	}
	if tr.Snapshot != nil {
		s.v[2] = tr.Snapshot.Signed.Version
	}
	s.ref = tr.RefTime.Unix()
	return s
}

func (a state) same(b state) bool {
	if a.root != b.root || a.ts != b.ts || a.sn != b.sn || a.v != b.v || a.ref != b.ref || len(a.tg) != len(b.tg) {
		return false
	}
	for k, v := range a.tg {
		if b.tg[k] != v {
			return false
		}
	}
	return true
}

const (
	ops = 5
	cur = 3 // current version of snapshot, targets and the delegated role
)

// spoil returns a document that must be refused at the given step, and whether the
// refusal may nevertheless leave it loaded as an intermediate. again is set when metadata
// of this role is trusted already.
func spoil(r *kit.Repo, step int, dk *vp.Key, again bool) (doc []byte, intermediate bool) {
	j := [...]func() *vp.J{
		func() *vp.J { return r.RootJ() },
		func() *vp.J { return kit.TimestampJ(r.TSV, r.TSE, kit.Meta(r.SnV)) },
		func() *vp.J {
			return kit.SnapshotJ(r.SnV, r.SnE, r.SnapMeta.Copy().Put("targets.json", kit.Meta(r.TgV)))
		},
		func() *vp.J { return kit.TargetsJ(r.TgV, r.TgE, r.Targets, r.Delegations) },
		func() *vp.J { return kit.TargetsJ(vp.N(cur), kit.Later(), vp.O(), nil) },
	}[step]()
	key := [...]*vp.Key{r.RootK, r.TSK, r.SnK, r.TgK, dk}[step]
	cause := vp.Choice("cause", 13)
	switch cause {
	case 0:
		return nil, false
	case 1:
		return []byte("{"), false
	case 2: // wrong key
		return kit.Signed(j, vp.Ed(9)), false
	case 3: // no signature
		return kit.Signed(j), false
	case 4: // wrong type
		return kit.Signed(j.Copy().Put("_type", vp.S([]string{"timestamp", "root", "root", "snapshot", "root"}[step])), key), false
	case 5: // changed after signing
		return vp.Doc(kit.Env(j.Copy().Put("x", vp.N(1)), kit.SigBy(key, j))), false
	case 6: // another version
		v := vp.Int64("version")
		k := j.Copy().Put("version", vp.N(v))
		switch step {
		case 0:
			vp.Assume(v != 2)
		case 1:
			vp.Assume(v < 1 || again && v == 1)
		default:
			vp.Assume(v != cur)
		}
		return kit.Signed(k, key), step == 2 && v >= 1
	case 7: // expired
		vp.Assume(step != 0)
		return kit.Signed(j.Copy().Put("expires", kit.Earlier()), key), step == 1 || step == 2
	case 8: // two signatures by one key
		return vp.Doc(kit.Env(j, kit.SigBy(key, j), kit.SigBy(key, j))), false
	case 9: // an announced version goes back
		vp.Assume(again && (step == 1 || step == 2))
		v := vp.Int64In("announced", 1, cur-1)
		if step == 1 {
			w := vp.Int64("version")
			vp.Assume(w > 1)
			return kit.Signed(kit.TimestampJ(vp.N(w), r.TSE, kit.Meta(vp.N(v))), key), false
		}
		m := vp.O("targets.json", kit.Meta(r.TgV), "d.json", kit.Meta(vp.N(cur)))
		m.Put([]string{"targets.json", "d.json"}[vp.Choice("entry", 2)], kit.Meta(vp.N(v)))
		return kit.Signed(kit.SnapshotJ(r.SnV, r.SnE, m), key), false
	case 10: // an announced file is missing
		vp.Assume(again && step == 2)
		m := vp.O("targets.json", kit.Meta(r.TgV), "other.json", kit.Meta(vp.N(cur)))
		return kit.Signed(kit.SnapshotJ(r.SnV, r.SnE, m), key), false
	case 11: // no snapshot announced
		vp.Assume(step == 1)
		return kit.Signed(kit.TimestampJ(vp.N(2), r.TSE, nil).Put("meta", vp.O("x.json", kit.Meta(vp.N(cur)))), key), false
	}
	// broken field
	k := j.Copy()
	k.Put([]string{"keys", "meta", "meta", "targets", "targets"}[step], vp.A(vp.N(1)))
	return kit.Signed(k, key), false
}

// CheckRefused: one refused update at any step, then the whole update.
func CheckRefused() {
	r := kit.NewRepo()
	r.SnV, r.TgV = vp.N(cur), vp.N(cur)
	dk := vp.Ed(4)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("d", 1, false, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("d.json", kit.Meta(vp.N(cur)))
	tr, err := trustedmetadata.New(r.RootDoc())
	if err != nil {
		vp.Assert(false, "root-refused")
		return
	}
	r2 := *r
	r2.RootV = vp.N(2)
	dDoc := kit.Signed(kit.TargetsJ(vp.N(cur), kit.Later(), vp.O(), nil), dk)
	run := func(op int, doc []byte, own bool) error {
		var err error
		switch op {
		case 0:
			_, err = tr.UpdateRoot(doc)
		case 1:
			_, err = tr.UpdateTimestamp(doc)
		case 2:
			_, err = tr.UpdateSnapshot(doc, own)
		case 3:
			_, err = tr.UpdateTargets(doc)
		case 4:
			_, err = tr.UpdateDelegatedTargets(doc, "d", "targets")
		}
		return err
	}
	good := [][]byte{r2.RootDoc(), r.TSDoc(), r.SnDoc(), r.TgDoc(), dDoc}
	at := vp.Choice("at", ops) // how many correct steps come first
	for i := 0; i < at; i++ {
		if run(i, good[i], false) != nil {
			vp.Assert(false, "correct-step-accepted")
			return
		}
	}
	tries := vp.Pick(1, 2)
	from := at
	for t := 0; t < tries; t++ {
		before := snap(tr)
		// any operation, in order or not
		op := vp.Choice("op", ops)
		var doc []byte
		im := false
		if op == at {
			rr := r
			if op == 0 {
				rr = &r2
			}
			doc, im = spoil(rr, op, dk, false)
		} else if at == 0 && op == 1 {
			vp.Assume(false) // would be in order
		} else if op > 0 && op == at-1 {
			// the latest operation once more, with something wrong
			doc, im = spoil(r, op, dk, true)
			im = im && op == 2
			if op == 2 && im {
				from = 2
			}
		} else {
			doc = good[op] // out of order
		}
		err := run(op, doc, vp.Bool("own"))
		vp.Assert(err != nil, "wrong-update-refused")
		if err == nil {
			return
		}
		after := snap(tr)
		if im {
			vp.Reach("intermediate")
			if op == 1 {
				after.ts, after.v[1] = before.ts, before.v[1]
				vp.Assert(run(2, good[2], false) != nil && tr.Snapshot == nil, "intermediate-timestamp-blocks-snapshot")
				r.TSV = vp.N(2) // the next one must be newer
				good[1] = r.TSDoc()
			} else {
				after.sn, after.v[2] = before.sn, before.v[2]
				vp.Assert(run(3, good[3], false) != nil && tr.Targets["targets"] == nil, "intermediate-snapshot-blocks-targets")
			}
			vp.Assert(before.same(after), "refused-update-leaves-state")
			break
		}
		vp.Assert(before.same(after), "refused-update-leaves-state")
	}
	// then everything else works
	for i := from; i < ops; i++ {
		err := run(i, good[i], false)
		vp.Assert(err == nil, "retry-succeeds")
		if err != nil {
			return
		}
	}
	vp.Reach("retried")
}
