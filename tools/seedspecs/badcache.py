ID='c21-badly-signed-cache'; PROP='C21'
NEEDS='A cached snapshot signed by a key that the repository has since replaced: a client that comes back after a key rotation.'
BREAKS='A cached snapshot that is no longer signed by enough keys stops the refresh instead of being replaced from the repository.'
EDITS=[('metadata/updater/updater.go','''		_, err = update.trusted.UpdateSnapshot(data, true)
		if err != nil {
			// this means snapshot verification/loading failed (or it is damaged), proceed downloading from remote''','''		_, err = update.trusted.UpdateSnapshot(data, true)
		if errors.Is(err, metadata.ErrUnsignedMetadata{}) {
			// somebody tampered with the cache
			return err
		} else if err != nil {
			// this means snapshot verification/loading failed (or it is damaged), proceed downloading from remote''')]
DEMO='''
import "testing"
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	dir := t.TempDir()
	put(dir, "snapshot.json", signed(r.sn, newKey()))
	u, err := client(t, root, &r.net, dir)
	must(err)
	if err := u.Refresh(); err != nil {
		t.Fatal(err)
	}
}
'''
