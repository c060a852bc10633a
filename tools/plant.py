#!/usr/bin/env python3
"""plant.py SEED PROPERTY FILE 'needs' 'breaks' < edits   (edits: blocks '<<<<\nold\n====\nnew\n>>>>', several FILE: lines allowed)
Writes seeded/SEED/patch.diff and meta.json; demo.sh (and other files) are written by hand."""
import json, os, re, subprocess, sys, tempfile, shutil
seed, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + seed
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
src = sys.stdin.read()
out = ""
for f, body in re.findall(r"^FILE: (\S+)\n(.*?)(?=^FILE: |\Z)", src, re.S | re.M):
    a = os.path.join(t, "a", f); b = os.path.join(t, "b", f)
    os.makedirs(os.path.dirname(a), exist_ok=True); os.makedirs(os.path.dirname(b), exist_ok=True)
    s = open("/repo/" + f).read()
    open(a, "w").write(s)
    for old, new in re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body, re.S):
        assert s.count(old) == 1, (s.count(old), old)
        s = s.replace(old, new)
    open(b, "w").write(s)
    shutil.copymode("/repo/" + f, a); shutil.copymode("/repo/" + f, b)
    out += subprocess.run(["git", "diff", "--no-index", "a/" + f, "b/" + f], cwd=t, capture_output=True, text=True).stdout
shutil.rmtree(t)
out = out.replace("a/a/", "a/").replace("b/b/", "b/")
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(out)
subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
