ID='c29-equal-snapshot-timestamp'; PROP='C29'
NEEDS='A trusted timestamp that has already expired (or is older) and a newer timestamp that announces the same snapshot version: the weekly re-signing of an unchanged repository.'
BREAKS='A newer timestamp which announces the snapshot already known is treated as equal to the old one and dropped, so the client keeps the old, expired timestamp and refuses a repository that is in order.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''		// keep using old timestamp if versions are equal
		if newTimestamp.Signed.Version == trusted.Timestamp.Signed.Version {''','''		// keep using old timestamp if it announces the same snapshot
		if newTimestamp.Signed.Version == trusted.Timestamp.Signed.Version || newTimestamp.Signed.Meta["snapshot.json"].Version == trusted.Timestamp.Signed.Meta["snapshot.json"].Version {''')]
DEMO='''
import ("testing"; "time")
func TestDemo(t *testing.T) {
	r := newRepo()
	e := r.ts.Signed.Expires
	r.ts.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	r.publish()
	dir := t.TempDir()
	put(dir, "timestamp.json", r.files[base+"timestamp.json"])
	put(dir, "snapshot.json", r.files[base+"1.snapshot.json"])
	r.ts.Signed.Version, r.ts.Signed.Expires = 2, e
	root := r.publish()
	u, err := client(t, root, &r.net, dir)
	must(err)
	if err := u.Refresh(); err != nil {
		t.Fatal(err)
	}
}
'''
