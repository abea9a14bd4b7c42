ID='c21-unreadable-cache'; PROP='C21'
NEEDS='A cached metadata file that exists and cannot be read, for example because a folder is in its place.'
BREAKS='A cached targets file that cannot be read makes the refresh fail, although the repository serves valid metadata.'
EDITS=[('metadata/updater/updater.go','''	if err != nil {
		// this means there's no existing local target file so we should''','''	if err != nil {
		if !errors.Is(err, os.ErrNotExist) {
			return nil, err
		}
		// there's no existing local target file so we should''')]
DEMO='''
import ("testing"; "os"; "path/filepath"
"github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	root := r.publish()
	dir := t.TempDir()
	must(os.MkdirAll(filepath.Join(dir, "m", "targets.json"), 0755))
	u, err := client(t, root, &r.net, dir, func(c *config.UpdaterConfig) { })
	must(err)
	err = u.Refresh()
	if u.GetTrustedMetadataSet().Targets["targets"] == nil {
		t.Fatal("damaged cache prevents the refresh", err)
	}
}
'''
