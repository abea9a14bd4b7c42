ID='c06-snapshot-kept'; PROP='C06'
NEEDS='A trusted (intermediate) snapshot and a new, well-signed snapshot that is rejected for rolling a role back; then the state of the set, or a second snapshot.'
BREAKS='The new snapshot becomes the trusted one before it is compared with the old one, so a snapshot rejected for a rollback is what later snapshots and targets are checked against.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	if trusted.Snapshot != nil {
		for name, info := range trusted.Snapshot.Signed.Meta {''','''	previous := trusted.Snapshot
	trusted.Snapshot = newSnapshot
	if previous != nil {
		for name, info := range previous.Signed.Meta {'''),('metadata/trustedmetadata/trustedmetadata.go','''	// protection of new snapshot: it is checked when targets is updated
	trusted.Snapshot = newSnapshot
''','''	// protection of new snapshot: it is checked when targets is updated
''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	r.ts.Signed.Meta["snapshot.json"].Version = 2
	ts := signed(r.ts, r.tk)
	r.sn.Signed.Version = 1
	r.sn.Signed.Meta["targets.json"].Version = 3
	old := signed(r.sn, r.sk)
	r.sn.Signed.Version = 2
	r.sn.Signed.Meta["targets.json"].Version = 1
	bad := signed(r.sn, r.sk)
	set, err := trustedmetadata.New(root)
	must(err)
	_, err = set.UpdateTimestamp(ts)
	must(err)
	set.UpdateSnapshot(old, true)
	if set.Snapshot == nil {
		t.Fatal("the old snapshot isn't used")
	}
	if _, err = set.UpdateSnapshot(bad, true); err == nil {
		t.Fatal("rolled back")
	}
	if set.Snapshot.Signed.Version != 1 {
		t.Fatal("the rejected snapshot is trusted")
	}
}
'''
