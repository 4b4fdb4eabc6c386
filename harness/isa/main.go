// isa OVERLAY.json OUT.json DIR REPO XSYS FAKE: copies of the assembly files for
// amd64 in which every instruction of an optional extension first notes its
// use, added to an overlay. Programs ask a simulated CPUID (FAKE), and so does
// golang.org/x/sys/cpu, a copy of which goes to DIR/xsys.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// optional extensions by mnemonic
var ext = []struct{ name, re string }{
	{"BMI2", `MULX[LQ]|RORX[LQ]|SARX[LQ]|SHLX[LQ]|SHRX[LQ]|PDEP[LQ]|PEXT[LQ]|BZHI[LQ]`},
	{"ADX", `ADCX[LQ]|ADOX[LQ]`},
	{"AES", `AESENC|AESENCLAST|AESDEC|AESDECLAST|AESIMC|AESKEYGENASSIST`},
	{"BMI1", `ANDN[LQ]|BEXTR[LQ]|BLSI[LQ]|BLSMSK[LQ]|BLSR[LQ]|TZCNT[LQ]`},
	{"CLMUL", `PCLMULQDQ`},
	{"AVX", `V[A-Z][A-Z0-9]+`},
	{"SSSE3", `PSHUFB|PALIGNR|PABS[BWD]|PHADD[WD]`},
	{"SSE41", `PINSR[BDQ]|PEXTR[BDQ]|PBLENDW|PMULLD|PTEST`},
	{"RDSEED", `RDSEED[LQW]`},
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func main() {
	a := os.Args[1:]
	b, err := os.ReadFile(a[0])
	fail(err)
	var ov struct{ Replace map[string]string }
	fail(json.Unmarshal(b, &ov))
	dir, repo, xsys, fake := a[2], a[3], a[4], a[5]
	var res []*regexp.Regexp
	for _, e := range ext {
		res = append(res, regexp.MustCompile(`\b(`+e.re+`)\b`))
	}
	n := 0
	fail(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() && (fi.Name() == ".git" || fi.Name() == "build") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".s") || strings.HasSuffix(p, "_arm64.s") || strings.HasSuffix(p, "cpuid_amd64.s") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		// Every mnemonic becomes the name of a macro: files have macros
		// whose arguments are mnemonics.
		lines := strings.Split(string(b), "\n")
		defs := map[string]bool{}
		for i, l := range lines {
			code, comment := l, ""
			if j := strings.Index(l, "//"); j >= 0 {
				code, comment = l[:j], l[j:]
			}
			for k, re := range res {
				code = re.ReplaceAllStringFunc(code, func(m string) string {
					d := "#define zz" + m + " MOVB $1, github·com∕henrydcase∕nobs∕utils·Zz" + ext[k].name + "(SB); " + m
					defs[d] = true
					return "zz" + m
				})
			}
			lines[i] = code + comment
		}
		var head []string
		for d := range defs {
			head = append(head, d+"\n")
		}
		sort.Strings(head)
		n++
		q := filepath.Join(dir, fmt.Sprintf("%d.s", n))
		ov.Replace[p] = q
		return os.WriteFile(q, []byte(buildTags(lines)+strings.Join(head, "")+strings.Join(lines, "\n")), 0o666)
	}))
	decl := "package utils\n\n"
	reg := ""
	for _, e := range ext {
		decl += "var Zz" + e.name + " byte\n"
		reg += "\t\t\"" + e.name + "\": Zz" + e.name + " != 0,\n"
	}
	decl += "\n// ZzUsed tells which extensions were used so far.\nfunc ZzUsed() map[string]bool {\n\treturn map[string]bool{\n" + reg + "\t}\n}\n"
	q := filepath.Join(dir, "zz_verif_isa.go")
	fail(os.WriteFile(q, []byte(decl), 0o666))
	ov.Replace[filepath.Join(repo, "utils", "zz_verif_isa.go")] = q
	ov.Replace[filepath.Join(repo, "utils", "cpuid_amd64.s")] = filepath.Join(fake, "utils", "cpuid_amd64.s")
	ov.Replace[filepath.Join(repo, "utils", "zz_verif_fake.go")] = filepath.Join(fake, "utils", "zz_verif_fake.go")
	// golang.org/x/sys/cpu asks the same table
	src, err := os.ReadFile(filepath.Join(fake, "utils", "zz_verif_fake.go"))
	fail(err)
	s := strings.Replace(string(src), "package utils", "package cpu", 1)
	s = strings.Replace(s, "func zzFakeCpuid(", "func cpuid(", 1)
	s = strings.Replace(s, "// +build amd64,!noasm", "// +build 386 amd64 amd64p32\n// +build !gccgo", 1)
	s += "\n// no state of AVX is enabled\nfunc xgetbv() (eax, edx uint32) { return 0, 0 }\n"
	mod := filepath.Join(dir, "xsys")
	fail(os.MkdirAll(filepath.Join(mod, "cpu"), 0o777))
	fs, err := filepath.Glob(filepath.Join(xsys, "cpu", "*"))
	fail(err)
	for _, f := range append(fs, filepath.Join(xsys, "go.mod")) {
		b, err := os.ReadFile(f)
		fail(err)
		rel, _ := filepath.Rel(xsys, f)
		switch filepath.Base(f) {
		case "cpu_gc_x86.go":
			b = []byte(s)
		case "cpu_x86.s":
			b = []byte("// +build 386 amd64 amd64p32\n// +build !gccgo\n\n#include \"textflag.h\"\n")
		}
		fail(os.WriteFile(filepath.Join(mod, rel), b, 0o666))
	}
	b, err = json.MarshalIndent(ov, "", " ")
	fail(err)
	fail(os.WriteFile(a[1], b, 0o666))
}

// build constraints must precede everything else
func buildTags(lines []string) (t string) {
	for _, l := range lines {
		if strings.HasPrefix(l, "// +build") || strings.HasPrefix(l, "//go:build") {
			t += l + "\n"
		}
	}
	return t + "\n"
}
