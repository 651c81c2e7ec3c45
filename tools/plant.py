"""plant.py ID PROPERTY FILE 'old' 'new' NEEDS WHAT < demo.py   (development helper)

Makes seeded/ID from one replacement (or several: FILE/old/new read from a JSON list in
the environment variable EDITS), after checking it in a scratch copy: stable tests pass,
demo passes on /repo and fails with the change."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def plant(id, prop, edits, needs, what, demo):
    d = tempfile.mkdtemp(prefix="plant")
    w = os.path.join(d, "repo")
    shutil.copytree("/repo", w, symlinks=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit matches %d times: %r" % (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", w).stdout
        out = os.path.join(HERE, "seeded", id)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write(
            "#!/bin/sh\nexec /opt/venv/bin/python -B -W ignore \"$(dirname \"$0\")/demo.py\"\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh("sh %s/demo.sh" % out, "/repo")
        b = sh("sh %s/demo.sh" % out, w)
        env = "PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1" % w
        t = sh("%s /opt/venv/bin/python -m pytest -q -x test -p no:cacheprovider 2>&1 | tail -4" % env, w)
        ok = a.returncode == 0 and b.returncode != 0 and "failed" not in t.stdout \
            and "error" not in t.stdout
        if not ok:
            shutil.rmtree(out)
        return "%s %s demo clean=%d patched=%d tests: %s\n%s\n%s" % (
            "OK" if ok else "BAD", id, a.returncode, b.returncode,
            t.stdout.strip().splitlines()[-1:],
            "" if ok else t.stdout + a.stdout + a.stderr, b.stderr.strip()[-200:])
    finally:
        shutil.rmtree(d)
