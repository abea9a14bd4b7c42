ID='c29-forbidden-root'; PROP='C29'
NEEDS='A server which answers 403 for files that do not exist (object stores do so).'
BREAKS='Only 404 means that there is no newer root, so a refresh against such a server always fails.'
EDITS=[('metadata/updater/updater.go','''				if tmpErr.StatusCode != http.StatusNotFound && tmpErr.StatusCode != http.StatusForbidden {''','''				if tmpErr.StatusCode != http.StatusNotFound {''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	r.code = 403
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	must(u.Refresh())
}
'''
