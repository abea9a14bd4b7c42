ID='c17-announced-length-ignored'; PROP='C17'
NEEDS='A timestamp that announces a length for the snapshot which is smaller than the general limit, and a server that sends more than announced.'
BREAKS='The announced length only counts when it is larger than the configured limit, so up to the limit is downloaded instead of what was announced, and the limit can be exceeded.'
EDITS=[('metadata/updater/updater.go','''	if length == 0 {
		length = update.cfg.SnapshotMaxLength
	}''','''	if length < update.cfg.SnapshotMaxLength {
		length = update.cfg.SnapshotMaxLength
	}''')]
DEMO='''
import ("testing"; "strings")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.publish()
	r.ts.Signed.Meta["snapshot.json"].Length = int64(len(r.files[base+"snapshot.json"]))+int64(len(r.files[base+"1.snapshot.json"]))
	root := r.publish()
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	must(u.Refresh())
	for i, a := range r.net.asked {
		if strings.Contains(a, "snapshot") && r.net.lens[i] != r.ts.Signed.Meta["snapshot.json"].Length {
			t.Fatal(a, r.net.lens[i])
		}
	}
}
'''
