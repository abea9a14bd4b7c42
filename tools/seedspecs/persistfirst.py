ID='c19-stored-before-verified'; PROP='C19'
NEEDS='A snapshot that is refused (here: of a version other than the announced one) while an older one is cached.'
BREAKS='The downloaded snapshot is persisted before it is verified, so refused bytes replace the verified file in the cache.'
EDITS=[('metadata/updater/updater.go','''	// verify and load the new snapshot
	_, err = update.trusted.UpdateSnapshot(data, false)
	if err != nil {
		return err
	}
	// persist the new snapshot
	err = update.persistMetadata(metadata.SNAPSHOT, data)
	if err != nil {
		return err
	}
''','''	// persist the new snapshot
	err = update.persistMetadata(metadata.SNAPSHOT, data)
	if err != nil {
		return err
	}
	// verify and load the new snapshot
	_, err = update.trusted.UpdateSnapshot(data, false)
	if err != nil {
		return err
	}
''')]
DEMO='''
import ("testing"; "os"; "path/filepath"; "bytes")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	old, err := os.ReadFile(filepath.Join(dir, "m", "snapshot.json"))
	must(err)
	r.sn.Signed.Version, r.ts.Signed.Version = 2, 2
	r.publish()
	r.files[base+"2.snapshot.json"] = []byte("{}")
	u, err = client(t, root, &r.net, dir)
	must(err)
	if u.Refresh() == nil {
		t.Fatal("refreshed")
	}
	now, _ := os.ReadFile(filepath.Join(dir, "m", "snapshot.json"))
	if !bytes.Equal(old, now) {
		t.Fatal("refused snapshot in the cache")
	}
}
'''
