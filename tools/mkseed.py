"""Plants a bug: mkseed.py SPEC.py  (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=python text).
Works on a scratch copy of /repo, confirms build, stable tests and demo on both trees, then writes /verif/seeded/ID and
runs the property's quick check against the scratch copy (VF_REPO)."""
import sys, os, subprocess as sp, shutil, json, tempfile, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return sp.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec):
    s = runpy.run_path(spec)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = w + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        out = w + "/" + s["ID"]
        os.makedirs(out)
        open(out + "/demo.py", "w").write("import missing_ephemeris  # the ephemeris file is absent in this sandbox\n" + s["DEMO"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:/opt/vp/plugins" TZ=UTC\n'
                                          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        d0 = sh(f"bash {out}/demo.sh", cwd=r)
        if d0.returncode:
            print("DEMO FAILS ON CLEAN TREE", d0.stdout[-1500:], d0.stderr[-1500:])
            return 1
        for f, old, new in s["EDITS"]:
            p = r + "/src/tatc/" + f
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        open(out + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
        assert os.path.getsize(out + "/patch.diff")
        d1 = sh(f"bash {out}/demo.sh", cwd=r)
        if d1.returncode == 0:
            print("DEMO PASSES WITH THE BUG")
            return 1
        print("demo says:", (d1.stdout + d1.stderr).strip().splitlines()[-1:])
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + r).replace("PYTHONPATH=", f"PYTHONPATH={r}/src:")
        open(w + "/test.sh", "w").write(t)
        sh(f"bash {w}/test.sh {w}/o.json")
        o = json.load(open(w + "/o.json"))
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in set(o["passed"])]
        if miss:
            print("TESTS FAIL", miss[:5])
            return 1
        dst = f"{H}/seeded/{s['ID']}"
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        props = sys.argv[2:] or [s["PROPERTY"]]
        for p in props:
            c = sp.run([PY, H + "/vf/run.py", p, "--tier", "quick"], env=dict(os.environ, VF_REPO=r), capture_output=True, text=True)
            ls = c.stdout.strip().splitlines()
            print(f"{s['ID']} {p}: exit {c.returncode}", *ls[-8:], sep="\n   ")
        sh(f"git -C {H} checkout -- evidence 2>/dev/null")
    finally:
        shutil.rmtree(w)


sys.exit(main(sys.argv[1]))
