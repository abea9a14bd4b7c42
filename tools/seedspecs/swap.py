ID='c03-expired-not-compared'; PROP='C03'
NEEDS='A cached timestamp that has expired, and a server that answers with an older, unexpired timestamp.'
BREAKS='The rollback checks are skipped when the trusted timestamp has expired, so a client whose cache is old can be rolled back.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	if trusted.Timestamp != nil {
		// prevent rolling back timestamp version''','''	if trusted.Timestamp != nil && trusted.checkFinalTimestamp() == nil {
		// prevent rolling back timestamp version''')]
DEMO='''
import ("testing"; "time")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	old := r.files[base+"timestamp.json"]
	r.ts.Signed.Version = 2
	r.ts.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	r.publish()
	dir := t.TempDir()
	put(dir, "timestamp.json", r.files[base+"timestamp.json"])
	r.files[base+"timestamp.json"] = old
	u, err := client(t, root, &r.net, dir)
	must(err)
	if err := u.Refresh(); err == nil {
		t.Fatal("rolled back")
	}
}
'''
