ID='c17-moving-limit'; PROP='C17'
NEEDS='A server that publishes more root versions than the client is configured to follow.'
BREAKS='The bound on root versions is computed from the currently trusted root, which moves with every update, so the number of root requests is not limited any more.'
EDITS=[('metadata/updater/updater.go','''	upperBound := lowerBound + update.cfg.MaxRootRotations
''',''''''),('metadata/updater/updater.go','''	for nextVersion := lowerBound; nextVersion < upperBound; nextVersion++ {
''','''	for nextVersion := lowerBound; nextVersion <= update.trusted.Root.Signed.Version+update.cfg.MaxRootRotations; nextVersion++ {
''')]
DEMO='''
import ("testing"
"github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	for i := 0; i < 12; i++ {
		r.root.Signed.Version++
		r.publish()
	}
	u, err := client(t, root, &r.net, t.TempDir(), func(c *config.UpdaterConfig) { c.MaxRootRotations = 3 })
	must(err)
	_ = u.Refresh()
	if n := r.count(".root.json"); n > 3 {
		t.Fatal(n, "requests for root")
	}
}
'''
