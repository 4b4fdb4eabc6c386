package sidhref

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"os"
	"strings"
	"testing"
	"time"
)

func TestSelf(t *testing.T) {
	for _, s := range Sets {
		t0 := time.Now()
		if e := s.SelfCheck(); e != nil {
			t.Error(s.Name, e)
		}
		t.Log(s.Name, time.Since(t0))
	}
}
func TestKAT(t *testing.T) {
	for i, f := range []string{"PQCkemKAT_374.rsp", "PQCkemKAT_434.rsp", "PQCkemKAT_644.rsp"} {
		s := Sets[i]
		fh, _ := os.Open("/repo/dh/sidh/testdata/" + f)
		sc := bufio.NewScanner(fh)
		sc.Buffer(nil, 1<<20)
		m := map[string][]byte{}
		n := 0
		t0 := time.Now()
		for sc.Scan() {
			p := strings.SplitN(sc.Text(), " = ", 2)
			if len(p) != 2 {
				continue
			}
			m[p[0]], _ = hex.DecodeString(p[1])
			if p[0] == "ss" {
				n++
				sk := m["sk"]
				S := sk[:s.Msg]
				d := LE(sk[s.Msg : s.Msg+s.Bytes[1]])
				pk := s.Public(1, d)
				e := s.Enc(pk[0], pk[1], pk[2])
				if !bytes.Equal(e, m["pk"]) {
					t.Fatal(s.Name, n, "pk")
				}
				if !bytes.Equal(s.Decaps(S, d, e, m["ct"]), m["ss"]) {
					t.Fatal(s.Name, n, "ss")
				}
				if n == 15 {
					break
				}
			}
		}
		t.Log(f, n, time.Since(t0))
	}
}
