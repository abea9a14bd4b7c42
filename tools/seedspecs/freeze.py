ID='c04-frozen-timestamp'; PROP='C04'
NEEDS='An expired cached timestamp, a still valid cached snapshot, and a server that answers with the same old timestamp again (freeze attack): three pieces of state from earlier sessions.'
BREAKS='The check that the final timestamp has not expired is only made for snapshots from the network, so a client with a cached snapshot keeps using an expired timestamp.'
EDITS=[('metadata/trustedmetadata/trustedmetadata.go','''	// snapshot cannot be loaded if final timestamp is expired
	err := trusted.checkFinalTimestamp()
	if err != nil {
		return nil, err
	}
	snapshotMeta''','''	var err error
	snapshotMeta'''),('metadata/trustedmetadata/trustedmetadata.go','''	if !isTrusted {
		err = snapshotMeta''','''	if !isTrusted {
		// snapshot cannot be loaded if final timestamp is expired
		if err = trusted.checkFinalTimestamp(); err != nil {
			return nil, err
		}
		err = snapshotMeta''')]
DEMO='''
import ("testing"; "time")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.ts.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	root := r.publish()
	dir := t.TempDir()
	put(dir, "timestamp.json", r.files[base+"timestamp.json"])
	put(dir, "snapshot.json", r.files[base+"1.snapshot.json"])
	u, err := client(t, root, &r.net, dir)
	must(err)
	if err := u.Refresh(); err == nil {
		t.Fatal("refreshed with an expired timestamp")
	}
}
'''
