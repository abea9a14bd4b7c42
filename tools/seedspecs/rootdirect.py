ID='c18-root-written-in-place'; PROP='C18'
NEEDS='A process that stops, or a disk that fills up, while a rotated root is written to the cache.'
BREAKS='A new root overwrites the cached one in place instead of replacing it by a complete file, so an interruption leaves a half-written root.'
EDITS=[('metadata/updater/updater.go','''			err = update.persistMetadata(metadata.ROOT, data)
			if err != nil {
				return err
			}
''','''			if !update.cfg.DisableLocalCache {
				err = os.WriteFile(update.localMetadataPath(metadata.ROOT), data, 0644)
				if err != nil {
					return err
				}
			}
''')]
DEMO='''
import ("testing"; "os"; "os/signal"; "syscall"; "path/filepath"; "bytes"; "fmt")
func TestDemo(t *testing.T) {
	r := newRepo()
	one := r.publish()
	r.root.Signed.Version = 2
	for i := 0; i < 40; i++ {
		must(r.root.Signed.AddKey(newKey().pub, "targets"))
	}
	two := signed(r.root, r.rk)
	r.files[fmt.Sprintf("%s2.root.json", base)] = two
	dir := t.TempDir()
	u, err := client(t, one, &r.net, dir)
	must(err)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	signal.Ignore(syscall.SIGXFSZ)
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(len(one)) + 10, Max: old.Max}))
	err = u.Refresh()
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
	if err == nil {
		t.Fatal("no error")
	}
	got, err := os.ReadFile(filepath.Join(dir, "m", "root.json"))
	must(err)
	if !bytes.Equal(got, one) && !bytes.Equal(got, two) {
		t.Fatal("half-written root")
	}
}
'''
