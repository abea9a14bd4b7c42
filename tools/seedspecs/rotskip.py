ID='c03-rotated-forgets-timestamp'; PROP='C03'
NEEDS='A client with a cached timestamp that first gets a new root (the timestamp key unchanged) and then an older timestamp.'
BREAKS='After a root rotation the cached timestamp is dropped, so an older timestamp, validly signed, is accepted in the session that rotated the root.'
EDITS=[('metadata/updater/updater.go','''			err = update.persistMetadata(metadata.ROOT, data)
''','''			err = update.persistRoot(data)
'''),('metadata/updater/updater.go','''// persistMetadata writes metadata to disk atomically''','''// persistRoot stores new root metadata and drops what older keys may have signed
func (update *Updater) persistRoot(data []byte) error {
	if !update.cfg.DisableLocalCache {
		_ = os.Remove(update.localMetadataPath(metadata.TIMESTAMP))
	}
	return update.persistMetadata(metadata.ROOT, data)
}

// persistMetadata writes metadata to disk atomically''')]
DEMO='''
import "testing"
func TestDemo(t *testing.T) {
	r := newRepo()
	dir := t.TempDir()
	r.ts.Signed.Version = 7
	root := r.publish()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	r.root.Signed.Version = 2
	r.ts.Signed.Version = 6
	r.publish()
	u, err = client(t, root, &r.net, dir)
	must(err)
	if u.Refresh() == nil {
		t.Fatal("timestamp went back from 7 to 6")
	}
}
'''
