PRE='''package crossplane

import (
	"os"
	"path/filepath"
	"testing"
)

func zzTree(t *testing.T, files map[string]string) error {
	t.Helper()
	d := t.TempDir()
	for n, s := range files {
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	_, err := Parse(filepath.Join(d, "main"), &ParseOptions{SkipDirectiveContextCheck: true, SkipDirectiveArgsCheck: true})
	return err
}

'''
P='parse.go'
def T(b): return PRE+b
SEEDS=[
dict(id='cyc-include-twice',prop='P10',edits=[(P,'		for _, f := range neighbors {\n','		for i, f := range neighbors {\n			if i > 0 && f == neighbors[i-1] {\n				continue\n			}\n')],
 needs='two includes of one file in a row', breaks='a cycle is reported where there is none',
 test=T('''func TestZZDemo(t *testing.T) {
	if err := zzTree(t, map[string]string{"main": "include b; include b;", "b": "x;"}); err != nil {
		t.Fatal(err)
	}
}
''')),
dict(id='cyc-empty-queue',prop='P10',edits=[(P,'	return fileCount != len(p.includeInDegree)','	return fileCount == 0 || fileCount+1 < len(p.includeInDegree)')],
 needs='a cycle of one file that is not the main file', breaks='the cycle is not found',
 test=T('''func TestZZDemo(t *testing.T) {
	if err := zzTree(t, map[string]string{"main": "include b;", "b": "include b;"}); err == nil {
		t.Fatal("no cycle")
	}
}
''')),
]
