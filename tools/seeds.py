"""Plant, confirm and try bugs in scratch copies of /repo (development tool; no check uses it).

  seeds.py plant DEFS.py        write seeded/<id>/ for the BUGS defined in DEFS.py (old/new text pairs)
  seeds.py confirm [ID...]      build, stable tests, demo with and without the patch
  seeds.py check [-p C01,C02] [ID...]   run the quick check of the bug's property (or others) against it
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def scratch():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run(f"cp -a /repo {d}/repo", shell=True, check=True)
    return d


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", **env))


def plant(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        d = scratch()
        try:
            for f, old, new in b["edits"]:
                p = f"{d}/repo/src/trusspy/{f}"
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", f"{d}/repo").stdout
            t = os.path.join(SEEDED, b["id"])
            os.makedirs(t, exist_ok=True)
            open(t + "/patch.diff", "w").write(diff)
            open(t + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(t + "/demo.sh", "w").write(
                '#!/bin/bash\n'
                'here="$(cd "$(dirname "$0")" && pwd)"\n'
                'work="$(mktemp -d)"\n'
                'trap \'rm -rf "$work"\' EXIT\n'
                'repo="$PWD"\n'
                'cd "$work"\n'
                'export PYTHONPATH="$repo/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0\n'
                '/opt/venv/bin/python "$here/demo.py"\n')
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(t + "/meta.json", "w"), indent=1)
            print("planted", b["id"])
        finally:
            shutil.rmtree(d)


def confirm(i):
    d = scratch()
    t = os.path.join(SEEDED, i)
    out = []
    try:
        r = f"{d}/repo"
        a = sh(f"bash {t}/demo.sh", r)
        out.append(("demo clean", a.returncode == 0, a.stdout[-300:] + a.stderr[-500:]))
        p = sh(f"git apply {t}/patch.diff", r)
        out.append(("applies", p.returncode == 0, p.stderr))
        a = sh(f"bash {t}/demo.sh", r)
        out.append(("demo patched fails", a.returncode != 0, a.stdout[-300:] + a.stderr[-300:]))
        out.append(("(demo says)", True, (a.stdout + a.stderr).strip()[-160:]))
        os.makedirs(f"{d}/cwd")
        a = sh(f"{PY} -m pytest -q --rootdir={r} -p no:cacheprovider --timeout=600 {r}/tests", f"{d}/cwd",
               PYTHONPATH=f"{r}/src", PYTHONHASHSEED="0", MPLCONFIGDIR=f"{d}/mpl")
        out.append(("tests", "8 passed" in a.stdout, a.stdout[-600:]))
    finally:
        shutil.rmtree(d)
    return i, out


def check(i, props):
    d = scratch()
    t = os.path.join(SEEDED, i)
    res = []
    try:
        r = f"{d}/repo"
        p = sh(f"git apply {t}/patch.diff", r)
        if p.returncode:
            return i, [("apply", p.stderr, "")]
        meta = json.load(open(t + "/meta.json"))
        for c in props or [meta["property"]]:
            a = sh(f"{PY} -B -m trussmon {c} quick {os.environ.get('VERIF_SEED', '1')}", HERE, TRUSSMON_REPO=r, TRUSSMON_EVIDENCE=f"{d}/ev",
                   VERIF_TIER="quick", PYTHONHASHSEED="0")
            msg = [x for x in a.stdout.splitlines() if x.startswith(("  ", "VIOL", "INCON"))]
            res.append((c, a.returncode, (msg[1] if len(msg) > 1 else a.stdout[-300:] + a.stderr[-300:]).strip()[:230]))
    finally:
        shutil.rmtree(d)
    return i, res


def main():
    cmd, *args = sys.argv[1:]
    if cmd == "plant":
        return plant(args[0])
    props = None
    if args[:1] == ["-p"]:
        props = args[1].split(",")
        if props == ["all"]:
            props = [f"C{k:02d}" for k in range(1, 26)]
        args = args[2:]
    ids = args or sorted(os.listdir(SEEDED))
    if cmd == "confirm":
        with cf.ThreadPoolExecutor(8) as ex:
            for i, out in ex.map(confirm, ids):
                bad = [o for o in out if not o[1]]
                print(i, "OK" if not bad else "NOT CONFIRMED", [o[2] for o in out if o[0] == "(demo says)"], bad or "")
    elif cmd == "check":
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "1"))) as ex:
            for i, res in ex.map(lambda i: check(i, props), ids):
                for c, rc, msg in res:
                    print(f"{i:32s} {c} {'CAUGHT' if rc == 1 else 'missed rc=%s' % rc}  {msg if rc else ''}", flush=True)


if __name__ == "__main__":
    main()
