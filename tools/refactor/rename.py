#!/usr/bin/env python3
"""rename.py REPO: renames every unexported function, method, type, variable, constant and
field that neither the tests nor the assembly of its package mention (development tool;
the checks have to stay quiet on the result)."""
import re, sys, os, glob
R = sys.argv[1]
only = sys.argv[2:]
for d, _, fs in sorted(os.walk(R)):
    src = [f for f in fs if f.endswith(".go") and not f.endswith("_test.go")]
    if not src or "/.git" in d or "/etc/" in d or "/cmd/" in d: continue
    if only and not any(o in d for o in only): continue
    fixed = set()
    for f in fs:
        if f.endswith(("_test.go", ".s")):
            fixed |= set(re.findall(r"\w+", open(os.path.join(d, f)).read()))
    names = set()
    text = {}
    for f in src:
        t = text[f] = open(os.path.join(d, f)).read()
        code = re.sub(r"//[^\n]*", "", t)
        names |= set(re.findall(r"^func (?:\([^)]*\) )?([a-z]\w*)\(", code, re.M))
        names |= set(re.findall(r"^(?:var|const|type) ([a-z]\w*)", code, re.M))
        for blk in re.findall(r"^type \w+ struct \{\n(.*?)^\}", code, re.M | re.S):
            for line in blk.split("\n"):
                m = re.match(r"\t((?:[a-z]\w*, )*[a-z]\w*) +\S", line)
                if m: names |= set(m.group(1).split(", "))
        for blk in re.findall(r"^(?:var|const) \(\n(.*?)^\)", code, re.M | re.S):
            names |= set(re.findall(r"^\t([a-z]\w*)\b", blk, re.M))
    names -= fixed | {"init", "main", "string", "len", "cap", "copy", "min", "hash", "aes", "sha3", "bits", "common", "utils", "cpu", "drbg"}
    # a name that is also an import or a keyword stays
    for f in src:
        names -= set(re.findall(r'"(?:[\w./-]*/)?(\w+)"', text[f]))
    if not names: continue
    pat = re.compile(r"\b(%s)\b" % "|".join(sorted(names)))
    for f in src:
        out = []
        for line in text[f].split("\n"):
            code, sep, com = line.partition("//")
            if line.startswith("//go:") or line.startswith("// +build"): out.append(line); continue
            parts = re.split(r'("(?:[^"\\]|\\.)*")', code)
            parts = [p if i % 2 else pat.sub(r"\1Zq", p) for i, p in enumerate(parts)]
            out.append("".join(parts) + sep + com)
        open(os.path.join(d, f), "w").write("\n".join(out))
    print(d[len(R):], " ".join(sorted(names)))
