ID='c02-forbidden-version-skipped'; PROP='C02'
NEEDS='A server that answers 403 for the next root version and has the version after that.'
BREAKS='The version that is forbidden is passed over and the walk goes on, so it does not end at the first version the server does not have.'
EDITS=[('metadata/updater/updater.go','''				// 404/403 means current root is newest available, so we can stop the loop and move forward
				break
''','''				// 404 means current root is newest available, so we can stop the loop and move forward
				if tmpErr.StatusCode == http.StatusNotFound {
					break
				}
				continue
''')]
DEMO='''
import "testing"
func TestDemo(t *testing.T) {
	r := newRepo()
	r.code = 403
	root := r.publish()
	delete(r.files, base+"1.root.json")
	r.root.Signed.Version = 3
	r.files[base+"3.root.json"] = signed(r.root, r.rk)
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if err := u.Refresh(); err != nil {
		t.Fatal(err)
	}
	if r.count("3.root.json") > 0 {
		t.Fatal("went on after a missing version")
	}
}
'''
