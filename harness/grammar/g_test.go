package grammar

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"zsverif/zs"
)

func TestAccepts(t *testing.T) {
	n := 0
	filepath.Walk("/repo", func(p string, i os.FileInfo, err error) error {
		if strings.HasSuffix(p, ".zs") {
			b, _ := os.ReadFile(p)
			if !Accepts(string(b)) {
				t.Errorf("%s refused", p)
			}
			n++
		}
		return nil
	})
	t.Log(n)
	var d time.Duration
	k := 0
	for i := 0; i < 200; i++ {
		s := zs.Generate(zs.NewRng(7, uint64(i)), zs.DefaultProf())
		for _, p := range s.Pkgs {
			t0 := time.Now()
			if !Accepts(p.String()) {
				t.Errorf("refused:\n%s", p)
			}
			d += time.Since(t0)
			tk, _ := Lex(p.String())
			k += len(tk)
		}
	}
	t.Log(d, k)
	for _, s := range []string{"package a", "package a; struct S { uint8 a }", "package a; struct S { uint8 a; }", "package a; const uint8 X = 08;", "package a; const uint8 X = 1 +;", "package a; const uint8 X = \"a;", "package a; enum uint8 E { };", "package a; struct S { uint8; };", "package a; # struct S { };", "package a; struct S { a : uint8 b; };", "package a;;"} {
		t.Log(s, Accepts(s))
	}
}
