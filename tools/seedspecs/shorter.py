ID='c09-shorter-file'; PROP='C09'
NEEDS='Metadata written to a file that already holds a longer document (a repository that replaces its timestamp or removes targets).'
BREAKS='ToFile opens the file without truncating it, so the end of the longer document stays behind the new one and the file cannot be loaded by anyone.'
EDITS=[('metadata/metadata.go','''	return os.WriteFile(name, data, 0644)
''','''	file, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	if _, err = file.Write(data); err != nil {
		file.Close()
		return err
	}
	return file.Close()
''')]
DEMO='''
import ("testing"; "path/filepath"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	p := filepath.Join(t.TempDir(), "targets.json")
	r.tg.Signed.Targets["some/target"] = target("some/target", []byte("data"))
	must(r.tg.ToFile(p, true))
	delete(r.tg.Signed.Targets, "some/target")
	must(r.tg.ToFile(p, true))
	m, err := metadata.Targets().FromFile(p)
	if err != nil || len(m.Signed.Targets) != 0 {
		t.Fatal(err)
	}
}
'''
