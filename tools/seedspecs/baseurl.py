ID='c26-explicit-base'; PROP='C26'
NEEDS='A download with an explicit target base URL while the configuration has one as well.'
BREAKS='The base URL given to DownloadTarget is used only if none is configured, so the target is requested from the wrong location.'
EDITS=[('metadata/updater/updater.go','''	if targetBaseURL == "" {
		if update.cfg.RemoteTargetsURL == "" {
			return "", nil, metadata.ErrValue{Msg: "targetBaseURL must be set in either DownloadTarget() or the Updater struct"}
		}
		targetBaseURL = ensureTrailingSlash(update.cfg.RemoteTargetsURL)
	} else {
		targetBaseURL = ensureTrailingSlash(targetBaseURL)
	}
''','''	if update.cfg.RemoteTargetsURL != "" {
		targetBaseURL = update.cfg.RemoteTargetsURL
	}
	if targetBaseURL == "" {
		return "", nil, metadata.ErrValue{Msg: "targetBaseURL must be set in either DownloadTarget() or the Updater struct"}
	}
	targetBaseURL = ensureTrailingSlash(targetBaseURL)
''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	tf := target("x", []byte("good"))
	r.tg.Signed.Targets["x"] = tf
	root := r.publish()
	r.files["https://mirror.example/d/x"] = []byte("good")
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	must(u.Refresh())
	if _, _, err := u.DownloadTarget(tf, "", "https://mirror.example/d"); err != nil {
		t.Fatal(err)
	}
}
'''
