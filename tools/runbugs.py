#!/usr/bin/env python3
"""Runs checks against the changes of /verif/seeded (or other folders of patch.diff + meta.json), each applied to a scratch copy of /repo.
Usage: runbugs.py [-j N] [-all] [-d DIR] [id ...]    -all: every check, not only the property's own"""
import argparse, concurrent.futures, json, os, re, shutil, subprocess, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=2); ap.add_argument("-all", action="store_true"); ap.add_argument("-seed", default="1")
ap.add_argument("-d", default=os.path.join(HERE, "seeded")); ap.add_argument("ids", nargs="*"); a = ap.parse_args()
ALL = [f"C{i:02d}" for i in range(1, 27)]
def run(id):
    d = os.path.join(a.d, id); meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="runbug."); w = os.path.join(top, "repo"); v = os.path.join(top, "verif")
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, check=True)
        os.mkdir(v)
        for f in ("harness", "check.sh", "known-findings.txt"): subprocess.run(["cp", "-a", os.path.join(HERE, f), v], check=True)
        res = []
        for c in (ALL if a.all else [meta["property"]]):
            t = time.time()
            r = subprocess.run([os.path.join(v, "check.sh"), c, "quick"], cwd=v, capture_output=True, text=True, errors="replace", env=dict(os.environ, URN_REPO=w, VERIF_SEED=a.seed))
            hit = r.returncode == 1 and re.search(rf"^VIOLATION property={c} replay=", r.stdout, re.M)
            own = c == meta["property"]
            if own and not hit: res.append(f"{c}:MISSED rc={r.returncode} {r.stderr[-300:]}")
            elif hit:
                found = ""
                m = re.search(rf"^VIOLATION property={c} replay=(\S+)", r.stdout, re.M)
                rp = json.load(open(m.group(1))); found = rp["found"]
                rr = subprocess.run([os.path.join(v, "check.sh"), "replay", m.group(1)], cwd=v, capture_output=True, text=True, errors="replace", env=dict(os.environ, URN_REPO=w))
                ok = "" if rr.returncode == 1 else f" REPLAY rc={rr.returncode} {rr.stderr[-200:]}"
                rr = subprocess.run([os.path.join(v, "check.sh"), "replay", m.group(1)], cwd=v, capture_output=True, text=True, errors="replace")
                if rr.returncode != 0: ok += f" CLEANREPLAY rc={rr.returncode} {rr.stderr[-200:]}"
                shows = (rp.get("shows") or [""])[-1]
                res.append(f"{c}:caught {time.time()-t:.0f}s by {found}{ok}" + (f"  {shows[:150]!r}" if own else ""))
            elif r.returncode not in (0, 1): res.append(f"{c}:ERROR rc={r.returncode} {r.stderr[-300:]}")
        return id + "  " + "; ".join(res)
    finally: shutil.rmtree(top)
ids = a.ids or sorted(os.listdir(a.d))
with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    for l in ex.map(run, ids): print(l, flush=True)
