#!/usr/bin/env python3
"""Tries planted bugs (seeded/<id>) without touching /repo: a patched copy is mounted over /repo in a private namespace.

  seed.py new ID PROP      takes the difference of /tmp/seed/work to /repo as patch.diff of seeded/ID
  seed.py valid ID...      builds, runs the tests, runs the demonstration with and without the patch
  seed.py check ID[:PROP..]...  runs the quick check(s) of the property on the patched copy"""
import json, os, subprocess, sys, shutil, concurrent.futures
V = "/verif"
def sh(cmd, repo=None, timeout=900):
    if repo: cmd = "mount --bind %s /repo && cd /repo && %s" % (repo, cmd); args = ["unshare", "-Urm", "bash", "-c", cmd]
    else: args = ["bash", "-c", "cd /repo && " + cmd]
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def copy(id):
    d = "/tmp/seed/c-" + id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    p = subprocess.run(["git", "-C", d, "apply", "%s/seeded/%s/patch.diff" % (V, id)], stderr=subprocess.PIPE, text=True)
    assert p.returncode == 0, (id, p.stderr)
    return d
def valid(id):
    d = copy(id)
    out = []
    try:
        rc, o = sh("bash /opt/vp/build.sh", d)
        if rc: return id + " BUILD FAILS " + o[-800:]
        res = "/tmp/seed/%s.json" % id
        rc, o = sh("bash /opt/vp/test.sh " + res, d)
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        r = json.load(open(res))
        passed = set(r.get("passed", []))
        lost = [t for t in st if t not in passed]
        out.append("tests %s" % ("ok" if not lost else "LOST " + " ".join(lost)))
        rc, o = sh("bash %s/seeded/%s/demo.sh" % (V, id), d)
        out.append("demo patched %d%s" % (rc, "" if rc else " NOT DETECTED"))
        if rc: out.append("[" + o[-200:].replace("\n", "|") + "]")
        rc, o = sh("bash %s/seeded/%s/demo.sh" % (V, id))
        out.append("clean %d%s" % (rc, "" if not rc else " FAILS " + o[-500:]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return id + " " + "; ".join(out)
def check(arg):
    id, *props = arg.split(":")
    d = copy(id)
    if not props: props = [json.load(open("%s/seeded/%s/meta.json" % (V, id)))["property"]]
    out = []
    try:
        for p in props:
            rc, o = sh("cd %s && python3 run.py %s" % (V, p), d, 1800)
            w = [l for l in o.splitlines() if l.startswith(("reason:", "VIOL"))]
            out.append("%s %s %s" % (p, {1: "caught", 0: "MISSED"}.get(rc, "BROKEN %d" % rc), (w[0][:150] if w else o[-300:])))
    finally: shutil.rmtree(d, ignore_errors=True)
    return id + " " + " // ".join(out)
def new(id, prop, needs="", breaks=""):
    d = "%s/seeded/%s" % (V, id)
    os.makedirs(d, exist_ok=True)
    p = subprocess.run(["git", "-C", "/tmp/seed/work", "diff"], stdout=subprocess.PIPE, text=True)
    assert p.stdout
    open(d + "/patch.diff", "w").write(p.stdout)
    subprocess.run(["git", "-C", "/tmp/seed/work", "checkout", "-q", "--", "."], check=True)
if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    j = 1
    if args and args[0].startswith("-j"): j = int(args.pop(0)[2:])
    if cmd == "new": new(*args)
    else:
        with concurrent.futures.ThreadPoolExecutor(j) as ex:
            for r in ex.map({"valid": valid, "check": check}[cmd], args): print(r, flush=True)
