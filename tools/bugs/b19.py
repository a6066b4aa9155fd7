id = "b19-longer-file-keeps-its-tail"
property = "P19"
needs = "the config command confirmed to overwrite a file longer than the new contents"
breaks = "the end of the former file is left behind the settings, while the command reports success"
package = "cmd/recast/cmd"
edits = [("cmd/recast/cmd/config.go", """	f, err := os.Create(path)
""", """	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0644)
""")]
demo = '''
package cmd

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZ(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	out, in := filepath.Join(dir, "recast.yml"), filepath.Join(dir, "in")
	ioutil.WriteFile(out, bytes.Repeat([]byte("# old\\n"), 1000), 0644)
	ioutil.WriteFile(in, []byte("y\\n"), 0644)
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	old := os.Stdin
	os.Stdin = f
	defer func() { os.Stdin = old }()
	typeVal = "tile"
	doConfig(nil, []string{out})
	got, err := ioutil.ReadFile(out)
	if err != nil || !bytes.Equal(got, defaultCfgs["tile"]) {
		t.Fatalf("%v, %d bytes instead of %d", err, len(got), len(defaultCfgs["tile"]))
	}
}
'''
