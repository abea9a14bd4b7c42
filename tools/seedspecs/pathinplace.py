ID='c32-download-renames-the-target'; PROP='C32'
NEEDS='Consistent snapshots, and a target that is downloaded twice with the same client.'
BREAKS='The download puts the hash into the path of the target description, which belongs to the trusted metadata: a later download or lookup sees the other path.'
EDITS=[('metadata/updater/updater.go','''		targetFilePath = fmt.Sprintf("%s%s.%s", targetFilePath[:nameStart], hashes, targetFilePath[nameStart:])
	}
	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFilePath)''','''		targetFile.Path = fmt.Sprintf("%s%s.%s", targetFilePath[:nameStart], hashes, targetFilePath[nameStart:])
	}
	fullURL := fmt.Sprintf("%s%s", targetBaseURL, targetFile.Path)''')]
DEMO='''
import ("testing"; "os"; "path/filepath"; "crypto/sha256"; "encoding/hex")
func TestDemo(t *testing.T) {
	r := newRepo()
	d := []byte("abc")
	r.tg.Signed.Targets["d/x"] = target("d/x", d)
	h := sha256.Sum256(d)
	root := r.publish()
	r.files["https://repo.example/t/d/"+hex.EncodeToString(h[:])+".x"] = d
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(os.MkdirAll(filepath.Join(dir, "t"), 0755))
	for i := 0; i < 2; i++ {
		f, err := u.GetTargetInfo("d/x")
		must(err)
		if _, _, err := u.DownloadTarget(f, "", ""); err != nil {
			t.Fatal(err)
		}
	}
}
'''
