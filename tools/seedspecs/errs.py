ID='c27-equal-version-category'; PROP='C27'
NEEDS='A caller that tells apart an equal version from other repository errors through the bad-version category, wrapped or not.'
BREAKS='Equal-version errors are no longer recognisable as bad-version errors, and bad-version errors are taken for equal-version ones.'
EDITS=[('metadata/errors.go','''	return target == ErrRepository{} || target == ErrBadVersionNumber{}
''','''	return target == ErrRepository{} || target == ErrBadVersionNumber{} || target == ErrEqualVersionNumber{}
''')]
DEMO='''
import ("testing"; "errors"
"github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	if errors.Is(metadata.ErrBadVersionNumber{Msg: "x"}, metadata.ErrEqualVersionNumber{}) {
		t.Fatal("bad version taken for equal version")
	}
	r := newRepo()
	r.ts.Signed.Version = 5
	root := r.publish()
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	r.ts.Signed.Version = 4
	r.publish()
	u, err = client(t, root, &r.net, dir)
	must(err)
	if err = u.Refresh(); err == nil {
		t.Fatal("older timestamp accepted silently")
	}
}
'''
