ID='c22-local-snapshot-unchecked'; PROP='C22'
NEEDS='Local-only mode, a timestamp with the hash of the snapshot, and another correctly signed snapshot of the same version in the cache.'
BREAKS='In local-only mode the cached snapshot is loaded as already verified, so the length and hashes that the timestamp announces are not checked.'
EDITS=[('metadata/updater/updater.go','''	_, err = update.trusted.UpdateSnapshot(data, false)
	if err != nil {
		return err
	}

	// targets''','''	_, err = update.trusted.UpdateSnapshot(data, true)
	if err != nil {
		return err
	}

	// targets''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.publish()
	other := r.files[base+"1.snapshot.json"]
	r.sn.Signed.Expires = r.sn.Signed.Expires.AddDate(0, 0, 1)
	tf := target("snapshot", signed(r.sn, r.sk))
	r.ts.Signed.Meta["snapshot.json"].Hashes = tf.Hashes
	r.ts.Signed.Meta["snapshot.json"].Length = tf.Length
	root := r.publish()
	dir := t.TempDir()
	put(dir, "timestamp.json", r.files[base+"timestamp.json"])
	put(dir, "targets.json", r.files[base+"1.targets.json"])
	try := func(sn []byte) error {
		put(dir, "snapshot.json", sn)
		u, err := client(t, root, &r.net, dir, func(c *config.UpdaterConfig) { c.UnsafeLocalMode = true })
		must(err)
		return u.Refresh()
	}
	must(try(r.files[base+"1.snapshot.json"]))
	if try(other) == nil {
		t.Fatal("snapshot with another hash accepted")
	}
}
'''
