package zs

import (
	"fmt"
	"testing"
)

func TestGen(t *testing.T) {
	rej, tot := 0, 0
	stat := map[string]int{}
	for i := 0; i < 300; i++ {
		r := NewRng(uint64(i))
		s := Generate(r, DefaultProf())
		if i < 2 {
			fmt.Println(s.Text())
		}
		w := NewWorld(s)
		for _, root := range s.Roots {
			c := &Codec{W: w}
			g := &VG{C: c, R: r, Stat: stat}
			in := w.Inst(root, nil)
			for k := 0; k < 10; k++ {
				tot++
				v := g.Root(in)
				if v == nil {
					fmt.Println("no value", i, root)
					break
				}
				bw, err := c.Encode(in, v, 0)
				if err != nil {
					t.Fatal(err)
				}
				x, used, err := c.Decode(in, bw.Buf, bw.N, 0)
				if err != nil {
					t.Fatal(i, root, err, w.Render(in, v))
				}
				if used != bw.N {
					t.Fatal("used", used, bw.N)
				}
				if d := Diff(v, x, ""); d != "" {
					t.Fatal(i, root, d, "\n", s.Text(), w.Render(in, v))
				}
			}
			rej += g.Rejected
		}
	}
	fmt.Println(tot, rej, stat)
}
