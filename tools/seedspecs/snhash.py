ID='c03-cached-snapshot-by-hash'; PROP='C03'
NEEDS='A repository whose timestamp announces the hashes of the snapshot, and a client that comes back in a second session after the snapshot has changed to one in which an entry goes back.'
BREAKS='The cached snapshot is only used when its hashes are the announced ones, so a changed snapshot is never compared with what the client already had.'
EDITS=[('metadata/updater/updater.go','''		_, err = update.trusted.UpdateSnapshot(data, true)
''','''		if update.trusted.Timestamp != nil {
			if mf := update.trusted.Timestamp.Signed.Meta["snapshot.json"]; mf != nil && len(mf.Hashes) > 0 {
				err = mf.VerifyLengthHashes(data)
			}
		}
		if err == nil {
			_, err = update.trusted.UpdateSnapshot(data, true)
		}
''')]
DEMO='''
import ("testing"; "crypto/sha256"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	dir := t.TempDir()
	announce := func() {
		m := metadata.MetaFile(r.sn.Signed.Version)
		h := sha256.Sum256(signed(r.sn, r.sk))
		m.Hashes = metadata.Hashes{"sha256": h[:]}
		r.ts.Signed.Meta["snapshot.json"] = m
	}
	r.tg.Signed.Version = 5
	r.sn.Signed.Meta["targets.json"] = metadata.MetaFile(5)
	announce()
	root := r.publish()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	r.tg.Signed.Version = 4
	r.sn.Signed.Meta["targets.json"] = metadata.MetaFile(4)
	r.sn.Signed.Version, r.ts.Signed.Version = 2, 2
	announce()
	r.publish()
	u, err = client(t, root, &r.net, dir)
	must(err)
	if u.Refresh() == nil {
		t.Fatal("targets went back from 5 to 4")
	}
}
'''
