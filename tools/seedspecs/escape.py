ID='c20-other-escape-when-found'; PROP='C20'
NEEDS='A target whose path has a character that the two ways of escaping treat differently, such as a space or a plus.'
BREAKS='The download stores the target under another name than the one that is looked up afterwards, so a stored target is not found again.'
EDITS=[('metadata/updater/updater.go','''	if filePath == "" {
		targetFilePath, err = update.generateTargetFilePath(targetFile)
		if err != nil {
			return "", nil, err
		}
	} else {''','''	if filePath == "" {
		_, err = update.generateTargetFilePath(targetFile)
		if err != nil {
			return "", nil, err
		}
		targetFilePath = filepath.Join(update.cfg.LocalTargetsDir, url.PathEscape(targetFile.Path))
	} else {''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	for _, path := range []string{"x", "a b", "a/b"} {
		r := newRepo()
		r.root.Signed.ConsistentSnapshot = false
		tf := target(path, []byte("good"))
		r.tg.Signed.Targets[path] = tf
		root := r.publish()
		r.files["https://repo.example/t/"+path] = []byte("good")
		u, err := client(t, root, &r.net, t.TempDir())
		must(err)
		must(u.Refresh())
		at, _, err := u.DownloadTarget(tf, "", "")
		must(err)
		found, _, err := u.FindCachedTarget(tf, "")
		must(err)
		if found != at {
			t.Fatal(path, at, found)
		}
	}
}
'''
