ID='c26-slashes-at-the-end-of-a-location'; PROP='C26'
NEEDS='A base location that ends with more than one slash.'
BREAKS='All slashes at the end of the configured location are replaced by one, so files are requested from another location than the configured one.'
EDITS=[('metadata/updater/updater.go','''	if strings.HasSuffix(url, "/") {
		return url
	}
	return url + "/"''','''	return strings.TrimRight(url, "/") + "/"''')]
DEMO='''
import ("testing"; "strings"; "github.com/rdimitrov/go-tuf-metadata/metadata/config")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	files := map[string][]byte{}
	for u, d := range r.files {
		files[strings.Replace(u, base, base+"/", 1)] = d
	}
	r.files = files
	u, err := client(t, root, &r.net, t.TempDir(), func(c *config.UpdaterConfig) { c.RemoteMetadataURL = base + "/" })
	must(err)
	if err := u.Refresh(); err != nil {
		t.Fatal(err)
	}
}
'''
