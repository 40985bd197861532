"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS : writes seeded/ID/{patch.diff,meta.json} from one textual edit
(the demo is written separately). OLD must occur exactly once."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, edits, needs, breaks):
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    files = []
    for f, old, new in edits:
        for s in "ab":
            p = os.path.join(t, s, f)
            if not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                shutil.copy(os.path.join("/repo", f), p)
        p = os.path.join(t, "b", f)
        x = open(p).read()
        assert x.count(old) == 1, (f, x.count(old), old)
        open(p, "w").write(x.replace(old, new))
        files.append(f)
    r = ""
    for f in dict.fromkeys(files):
        o = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=t, stdout=subprocess.PIPE, text=True).stdout.split("\n")
        o[0], o[1] = "--- a/" + f, "+++ b/" + f
        r += "\n".join(o)
    open(os.path.join(d, "patch.diff"), "w").write(r)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(t)
    assert subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")]).returncode == 0
