ID='c15-competing-first-wins'; PROP='C15'
NEEDS='Two different descriptions of a target that both reach the threshold of a mapping.'
BREAKS='Two competing agreements are resolved in favour of the one with more repositories instead of being an error.'
EDITS=[('metadata/multirepo/multirepo.go','''							if result != nil {
								// it seems''','''							if result != nil && len(result.repositories) > len(target.repositories) {
								// the one found first has more support
								continue
							} else if result != nil && len(result.repositories) == len(target.repositories) {
								// it seems''')]
MR=open('/verif/tools/seedspecs/term.py').read().split("MR='''")[1].split("'''")[0]
DEMO=MR+'''
func TestDemo(t *testing.T) {
	a, b, c := newRepo(), newRepo(), newRepo()
	a.tg.Signed.Targets["x"] = target("x", []byte("1"))
	b.tg.Signed.Targets["x"] = target("x", []byte("1"))
	c.tg.Signed.Targets["x"] = target("x", []byte("2"))
	cl := multi(t, []*multirepo.Mapping{
		{Paths: []string{"*"}, Repositories: []string{"a", "b", "c"}, Threshold: 1},
	}, map[string]*repo{"a": a, "b": b, "c": c})
	must(cl.Refresh())
	if _, _, err := cl.GetTargetInfo("x"); err == nil {
		t.Fatal("competing agreements accepted")
	}
}
'''
