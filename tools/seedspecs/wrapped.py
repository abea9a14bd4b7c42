ID='c27-refused-snapshot-without-category'; PROP='C27'
NEEDS='A client whose refresh refuses a snapshot (expired, badly signed or of another version) and that looks at what kind of error it was.'
BREAKS='The error a refresh returns for a refused snapshot is only recognisable as a repository error, not as expired, unsigned or of a bad version.'
EDITS=[('metadata/updater/updater.go','''	// verify and load the new snapshot
	_, err = update.trusted.UpdateSnapshot(data, false)
	if err != nil {
		return err
	}''','''	// verify and load the new snapshot
	_, err = update.trusted.UpdateSnapshot(data, false)
	if err != nil {
		return metadata.ErrRepository{Msg: fmt.Sprintf("snapshot refused: %v", err)}
	}''')]
DEMO='''
import ("testing"; "errors"; "time"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.sn.Signed.Expires = time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	root := r.publish()
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if err := u.Refresh(); !errors.Is(err, metadata.ErrExpiredMetadata{}) {
		t.Fatal(err)
	}
}
'''
