ID='c27-download-error-as-text'; PROP='C27'
NEEDS='A delegated role that cannot be downloaded, and a caller that tells download failures from others.'
BREAKS='The error of a failed download of delegated metadata is turned into text, so it is no longer recognisable as a download error.'
EDITS=[('metadata/updater/updater.go','''	data, err = update.downloadMetadata(roleName, length, version)
	if err != nil {
		return nil, err
	}''','''	data, err = update.downloadMetadata(roleName, length, version)
	if err != nil {
		return nil, fmt.Errorf("failed to download role %s: %v", roleName, err)
	}''')]
DEMO='''
import ("testing"; "errors"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.delegate(nil, "a", false, "*")
	root := r.publish()
	delete(r.files, base+"1.a.json")
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if _, err = u.GetTargetInfo("t"); !errors.Is(err, metadata.ErrDownload{}) {
		t.Fatal(err)
	}
}
'''
