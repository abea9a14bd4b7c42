ID='c04-intermediate-root-must-be-fresh'; PROP='C04'
NEEDS='A repository that has published several roots since the one the client trusts, of which one that is not the last has expired meanwhile.'
BREAKS='An expired intermediate root ends the update, although the root published after it is fresh, so clients that were away for long are locked out.'
EDITS=[('metadata/updater/updater.go','''			_, err = update.trusted.UpdateRoot(data)
			if err != nil {
				return err
			}''','''			newRoot, err := update.trusted.UpdateRoot(data)
			if err != nil {
				return err
			}
			if newRoot.Signed.IsExpired(update.trusted.RefTime) {
				return metadata.ErrExpiredMetadata{Msg: "root.json is expired"}
			}''')]
DEMO='''
import ("testing"; "time")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	e := r.root.Signed.Expires
	r.root.Signed.Version, r.root.Signed.Expires = 2, time.Now().UTC().Add(-time.Hour).Truncate(time.Second)
	r.publish()
	r.root.Signed.Version, r.root.Signed.Expires = 3, e
	r.publish()
	u, err := client(t, root, &r.net, t.TempDir())
	must(err)
	if err := u.Refresh(); err != nil {
		t.Fatal(err)
	}
}
'''
