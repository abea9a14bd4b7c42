ID='c31-old-timestamp-when-missing'; PROP='C31'
NEEDS='A cached timestamp, and a server that answers 404 for the current one.'
BREAKS='The failed download of the timestamp is passed over: the update succeeds with the cached timestamp and nobody learns that the repository is unavailable or that someone withholds it.'
EDITS=[('metadata/updater/updater.go','''	data, err = update.downloadMetadata(metadata.TIMESTAMP, update.cfg.TimestampMaxLength, "")
	if err != nil {
		return err''','''	data, err = update.downloadMetadata(metadata.TIMESTAMP, update.cfg.TimestampMaxLength, "")
	var missing metadata.ErrDownloadHTTP
	if errors.As(err, &missing) && missing.StatusCode == 404 && update.trusted.Timestamp != nil {
		return nil
	} else if err != nil {
		return err''')]
DEMO='''
import ("testing")
func TestDemo(t *testing.T) {
	r := newRepo()
	root := r.publish()
	dir := t.TempDir()
	u, err := client(t, root, &r.net, dir)
	must(err)
	must(u.Refresh())
	for f := range r.files {
		if f != base+"1.root.json" {
			delete(r.files, f)
		}
	}
	u, err = client(t, root, &r.net, dir)
	must(err)
	if u.Refresh() == nil {
		t.Fatal("refreshed without a timestamp")
	}
}
'''
