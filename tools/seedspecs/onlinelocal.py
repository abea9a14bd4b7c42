ID='c22-online-without-cache'; PROP='C22'
NEEDS='A client configured for local mode and, at the same time, not to write a cache.'
BREAKS='Local mode is ignored when the cache is not to be written, so such a client goes to the network although it was told not to.'
EDITS=[('metadata/updater/updater.go','''	if update.cfg.UnsafeLocalMode {
		return update.unsafeLocalRefresh()
''','''	if update.cfg.UnsafeLocalMode && !update.cfg.DisableLocalCache {
		return update.unsafeLocalRefresh()
''')]
DEMO='''
import ("testing"; "github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	dir := t.TempDir()
	for _, n := range []string{"timestamp", "snapshot", "targets"} {
		d := r.files[base+n+".json"]
		if d == nil {
			d = r.files[base+"1."+n+".json"]
		}
		put(dir, n+".json", d)
	}
	u, err := client(t, root, &r.net, dir, func(c *config.UpdaterConfig) { c.UnsafeLocalMode, c.DisableLocalCache = true, true })
	must(err)
	u.Refresh()
	if len(r.net.asked) != 0 {
		t.Fatal(r.net.asked)
	}
}
'''
