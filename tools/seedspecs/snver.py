ID='c26-version-of-timestamp'; PROP='C26'
NEEDS='Consistent snapshots and a timestamp whose version differs from that of the snapshot.'
BREAKS='A snapshot is asked for by the version of the timestamp instead of its own.'
EDITS=[('metadata/updater/updater.go','''		version = strconv.FormatInt(snapshotMeta.Version, 10)''','''		version = strconv.FormatInt(update.trusted.Timestamp.Signed.Version, 10)''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = true
	r.ts.Signed.Version = 7
	root := r.publish()
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	must(u.Refresh())
}
'''
