ID='c14-empty-custom-dropped'; PROP='C14'
NEEDS='A target whose custom member is an empty object.'
BREAKS='An empty custom object is left out when the metadata is written again, so the content changes and its signatures no longer verify.'
EDITS=[('metadata/marshal.go','''	if signed.Custom != nil {
''','''	if signed.Custom != nil && len(*signed.Custom) > len("{}") {
''')]
DEMO='''
import ("testing"; "encoding/json"; "github.com/rdimitrov/go-tuf-metadata/metadata")
func TestDemo(t *testing.T) {
	r := newRepo()
	tf := target("t", []byte("x"))
	c := json.RawMessage("{}")
	tf.Custom = &c
	r.tg.Signed.Targets["t"] = tf
	m, err := metadata.Targets().FromBytes(signed(r.tg, r.gk))
	must(err)
	d, err := m.ToBytes(true)
	must(err)
	m, err = metadata.Targets().FromBytes(d)
	must(err)
	if m.Signed.Targets["t"].Custom == nil {
		t.Fatal("lost")
	}
}
'''
