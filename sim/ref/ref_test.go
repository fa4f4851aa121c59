package ref

import (
	"crypto/sha1"
	"math/rand/v2"
	"testing"

	"github.com/pjbgf/sha1cd/cgo"
	"github.com/pjbgf/sha1cd/ubc"
)

func TestSHA1(t *testing.T) {
	r := rand.New(rand.NewPCG(1, 2))
	for i := 0; i < 500; i++ {
		b := make([]byte, r.IntN(400))
		for j := range b {
			b[j] = byte(r.Uint32())
		}
		s := NewState(nil)
		s.Write(b[:len(b)/3])
		s.Write(b[len(b)/3:])
		d, c := s.Sum()
		if d != sha1.Sum(b) || c {
			t.Fatal(i)
		}
	}
}

func TestTable(t *testing.T) {
	tab := Table()
	dvs := ubc.SHA1_dvs()
	for i, d := range dvs {
		if d.DvType == 0 {
			t.Log("end", i)
			break
		}
		ok := false
		for _, r := range tab {
			if r.Type == d.DvType && r.K == d.DvK && r.B == d.DvB {
				ok = true
				if r.Dm != d.Dm || r.Bit != d.MaskB || r.TestT != d.TestT {
					t.Errorf("%d: dm %v bit %d %d T %d %d", i, r.Dm == d.Dm, r.Bit, d.MaskB, r.TestT, d.TestT)
				}
			}
		}
		if !ok {
			t.Errorf("entry %d missing", i)
		}
	}
}

func TestMask(t *testing.T) {
	r := rand.New(rand.NewPCG(1, 3))
	n := 0
	for i := 0; i < 300000; i++ {
		var w [80]uint32
		if i%3 == 0 {
			for j := range w {
				w[j] = r.Uint32()
			}
			// force conditions directly on W
			for k := 0; k < 3; k++ {
				for _, c := range UBC[r.IntN(32)] {
					if uint8(w[c.W1]>>c.B1&1)^uint8(w[c.W2]>>c.B2&1) != c.C {
						w[c.W1] ^= 1 << c.B1
					}
				}
			}
		} else {
			b, ok := Craft(r, []int{r.IntN(32)}, nil, nil)
			if !ok {
				t.Fatal("craft")
			}
			w = Expand(Words(b[:]))
			if i%3 == 2 {
				w[35+r.IntN(30)] ^= 1 << r.IntN(32)
			}
		}
		m := Mask(&w)
		if m != 0 {
			n++
		}
		if g, c := ubc.CalculateDvMask(&w), cgo.CalculateDvMask(w); g != m || c != m {
			t.Fatalf("ref %08x go %08x c %08x", m, g, c)
		}
	}
	t.Log("nonzero", n)
}
