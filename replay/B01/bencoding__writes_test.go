package bencoding

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func vStr(r *rand.Rand) string {
	n := []int{0, 1, 2, 9, 10, 11, 31, 32, 33, 99, 100, 255, 256, 1000, 70000}[r.Intn(15)]
	if n > 300 && r.Intn(8) > 0 {
		n = r.Intn(40)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(3) == 0 {
		copy(b, "1:ai2ee\x00\xff")
	}
	return string(b)
}

func vBen(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

func vInt(r *rand.Rand) int64 {
	return []int64{0, 1, -1, 9, 10, -10, 99, 100, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, r.Int63(), -r.Int63(), int64(r.Intn(100000))}[r.Intn(15)]
}

func TestVerifWrites(t *testing.T) {
	sd, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(sd) + 1))
	rounds := 3000
	if os.Getenv("VERIF_TIER") == "thorough" {
		rounds *= 20
	}
	var d *Dictionary
	for n := 0; n < rounds; n++ {
		if d == nil || r.Intn(3) > 0 {
			d = NewDictionary()
		} else {
			d.Reset()
		}
		want := "d"
		ops := ""
		for i := r.Intn(8); i > 0; i-- {
			k, v := vStr(r), vStr(r)
			o := r.Intn(16)
			ops += fmt.Sprintf(" %d(%d,%d)", o, len(k), len(v))
			switch o {
			case 0:
				d.String(k, v)
				want += vBen(k) + vBen(v)
			case 1:
				b := []byte(v)
				d.StringBytes(k, b)
				for j := range b {
					b[j] ^= 0x55
				}
				want += vBen(k) + vBen(v)
			case 2:
				x := vInt(r)
				d.Int64(k, x)
				want += vBen(k) + fmt.Sprintf("i%de", x)
			case 3:
				d.Dictionary(k, v)
				want += vBen(k) + v
			case 4, 5:
				if o == 4 {
					d.StartDictionary(k)
				} else {
					d.StartDictionaryBytes([]byte(k))
				}
				x := vInt(r)
				d.Int64(v, x)
				d.EndDictionary()
				want += vBen(k) + "d" + vBen(v) + fmt.Sprintf("i%dee", x)
			case 6:
				var l [][]byte
				w := "l"
				for j := r.Intn(5); j > 0; j-- {
					s := vStr(r)
					l = append(l, []byte(s))
					w += vBen(s)
				}
				d.BytesliceSlice(k, l)
				want += vBen(k) + w + "e"
			case 7:
				d.Any(k, v)
				want += vBen(k) + vBen(v)
			case 8:
				d.Any(k, []byte(v))
				want += vBen(k) + vBen(v)
			case 9:
				l := []string{v, k, ""}[:r.Intn(4)]
				w := "l"
				for _, s := range l {
					w += vBen(s)
				}
				d.Any(k, l)
				want += vBen(k) + w + "e"
			case 10:
				x := vInt(r)
				d.Any(k, x)
				want += vBen(k) + fmt.Sprintf("i%de", x)
			case 11:
				x := uint64(vInt(r))
				d.Any(k, x)
				want += vBen(k) + fmt.Sprintf("i%de", x)
			case 12:
				x := vInt(r)
				vs := []interface{}{int(x), int8(x), int16(x), int32(x), uint(x), uint8(x), uint16(x), uint32(x)}
				y := vs[r.Intn(len(vs))]
				d.Any(k, y)
				want += vBen(k) + fmt.Sprintf("i%de", y)
			case 13:
				x := int32(vInt(r))
				d.Any(k, map[string]int32{v: x})
				want += vBen(k) + "d" + vBen(v) + fmt.Sprintf("i%dee", x)
			case 14:
				x := int32(vInt(r))
				d.Any(k, map[string]map[string]int32{v: {k: x}})
				want += vBen(k) + "d" + vBen(v) + "d" + vBen(k) + fmt.Sprintf("i%deee", x)
			case 15:
				d.Any(k, map[string]interface{}{v: k})
				want += vBen(k) + "d" + vBen(v) + vBen(k) + "e"
			}
		}
		want += "e"
		var got string
		if r.Intn(2) == 0 {
			got = string(append([]byte{}, d.GetBytes()...))
		} else {
			got = d.Get()
		}
		if got != want {
			t.Fatalf("writes%s: got %.300q, want %.300q", ops, got, want)
		}
	}
	// every dictionary is its own
	a, b := NewDictionary(), NewDictionary()
	a.String("a", "1")
	b.String("b", "2")
	if x, y := a.GetBytes(), b.GetBytes(); !bytes.Equal(x, []byte("d1:a1:1e")) || !bytes.Equal(y, []byte("d1:b1:2e")) {
		t.Fatalf("%q %q", x, y)
	}
	if got := list("a", "", "bcd"); got != "l1:a0:3:bcde" {
		t.Fatalf("list: %q", got)
	}
}
