ID='c08-unverified-file-left'; PROP='C08'
NEEDS='A server that answers with wrong bytes of the announced length for a target.'
BREAKS='The downloaded bytes are written to the target folder before they are verified, so refused content is left on disk.'
EDITS=[('metadata/updater/updater.go','''	err = targetFile.VerifyLengthHashes(data)
	if err != nil {
		return "", nil, err
	}

	// do not persist''','''	// do not persist'''),('metadata/updater/updater.go','''		err = os.WriteFile(filePath, data, 0644)
		if err != nil {
			return "", nil, err
		}
	}
''','''		err = os.WriteFile(filePath, data, 0644)
		if err != nil {
			return "", nil, err
		}
	}
	err = targetFile.VerifyLengthHashes(data)
	if err != nil {
		return "", nil, err
	}
''')]
DEMO='''
import ("testing"; "os"; "path/filepath")
func TestDemo(t *testing.T) {
	r := newRepo()
	r.root.Signed.ConsistentSnapshot = false
	tf := target("x", []byte("good"))
	r.tg.Signed.Targets["x"] = tf
	root := r.publish()
	r.files["https://repo.example/t/x"] = []byte("evil")
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	if _, _, err := u.DownloadTarget(tf, "", ""); err == nil {
		t.Fatal("wrong content accepted")
	}
	if _, err := os.Stat(filepath.Join(dir, "t", "x")); err == nil {
		t.Fatal("wrong content stored")
	}
}
'''
