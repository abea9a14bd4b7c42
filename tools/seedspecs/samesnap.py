ID='c03-expired-snapshot-ignored'; PROP='C03'
NEEDS='A cached snapshot that has expired in the meantime, and a fresh one that lists a role with a lower version.'
BREAKS='An expired snapshot no longer protects against rollback: the versions it lists are not compared.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	if trusted.Snapshot != nil {
		for name''','''	if trusted.Snapshot != nil && !trusted.Snapshot.Signed.IsExpired(trusted.RefTime) {
		for name''')]
DEMO='''
import ("testing"; "time"; "github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	ts := signed(r.ts, r.tk)
	r.sn.Signed.Meta["targets.json"].Version = 3
	e := r.sn.Signed.Expires
	r.sn.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	old := signed(r.sn, r.sk)
	r.sn.Signed.Expires = e
	r.sn.Signed.Meta["targets.json"].Version = 1
	bad := signed(r.sn, r.sk)
	set, err := trustedmetadata.New(root)
	must(err)
	_, err = set.UpdateTimestamp(ts)
	must(err)
	set.UpdateSnapshot(old, true)
	if set.Snapshot == nil {
		t.Fatal("the old snapshot isn't used")
	}
	if _, err = set.UpdateSnapshot(bad, false); err == nil {
		t.Fatal("rolled back")
	}
}
'''
