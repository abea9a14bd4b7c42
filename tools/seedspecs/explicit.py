ID='c08-file-of-that-size-kept'; PROP='C08'
NEEDS='A target downloaded to a path the caller gives while a file is there already, of the same length but with other contents.'
BREAKS='A file of the right length at the given path is left as it is, so the caller is told that the target is there while the file holds something else.'
EDITS=[('metadata/updater/updater.go','''		err = os.WriteFile(filePath, data, 0644)
		if err != nil {
			return "", nil, err
		}
	}
	log.Info("Downloaded target"''','''		// nothing to write if the file is there already
		if info, errStat := os.Stat(filePath); errStat != nil || info.Size() != targetFile.Length {
			err = os.WriteFile(filePath, data, 0644)
		}
		if err != nil {
			return "", nil, err
		}
	}
	log.Info("Downloaded target"''')]
DEMO='''
import ("testing"; "os"; "path/filepath"; "encoding/hex")
func TestDemo(t *testing.T) {
	r := newRepo()
	tf := target("t", []byte("good"))
	r.tg.Signed.Targets["t"] = tf
	root := r.publish()
	r.files["https://repo.example/t/"+hex.EncodeToString(tf.Hashes["sha256"])+".t"] = []byte("good")
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	i, err := u.GetTargetInfo("t")
	must(err)
	p := filepath.Join(dir, "out")
	must(os.WriteFile(p, []byte("evil"), 0644))
	_, _, err = u.DownloadTarget(i, p, "")
	must(err)
	if d, _ := os.ReadFile(p); string(d) != "good" {
		t.Fatalf("%q", d)
	}
}
'''
