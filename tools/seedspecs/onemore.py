ID='c17-one-root-more'; PROP='C17'
NEEDS='A server that answers every request for a newer root, up to the configured number of rotations.'
BREAKS='One root more than configured is requested.'
EDITS=[('metadata/updater/updater.go','''nextVersion < upperBound; nextVersion++''','''nextVersion <= upperBound; nextVersion++''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	for v := int64(2); v < 6; v++ {
		r.root.Signed.Version = v
		r.publish()
	}
	u, err := client(t, root, &r.net, t.TempDir(), func(c *config.UpdaterConfig) { c.MaxRootRotations = 2 })
	must(err)
	u.Refresh()
	if n := r.net.count("root.json"); n > 2 {
		t.Fatal(n)
	}
}
'''
