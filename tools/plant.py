#!/usr/bin/env python3
"""Makes and verifies planted changes in a scratch copy of /repo. Not used by any check.
usage: plant.py DEFS.py [ID...]   (DEFS.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo="...", kind="rust"|"files", files={...})])
Writes seeded/<id>/ for each change that builds, passes the stable tests and whose demo separates it from the base."""
import json, os, runpy, shutil, stat, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plantwork"
R = W + "/repo"
SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration's inputs; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
d=/tmp/demo-@ID@
mkdir -p "$d/src" || exit 3
cp "$here/demo.rs" "$d/src/main.rs" || exit 3
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
unicode-normalization = { path = "$repo" }
[workspace]
X
cd "$d" && @RUN@
rc=$?
rm -rf /tmp/demo-@ID@
exit $rc
'''
def run(cmd, cwd, timeout=400):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")
def reset():
    run(["git", "checkout", "-q", "--", "."], R)
def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", R])
        for f in ("build.sh", "test.sh"):
            open(W + "/" + f, "w").write(open("/opt/vp/" + f).read().replace("/repo", R))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for b in defs:
        if ids and b["id"] not in ids:
            continue
        out = os.path.join(HERE, "seeded", b["id"])
        new = W + "/new-" + b["id"]
        shutil.rmtree(new, ignore_errors=True)
        os.makedirs(new)
        reset()
        try:
            for f, old, nw in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                assert s.count(old) == 1, "%s: %d matches of %r" % (f, s.count(old), old[:80])
                open(p, "w").write(s.replace(old, nw))
            rc, diff = run(["git", "diff"], R)
            open(new + "/patch.diff", "w").write(diff)
            if b.get("files"):
                for n, t in b["files"].items():
                    open(new + "/" + n, "w").write(t.replace("@ID@", b["id"]))
            else:
                open(new + "/demo.sh", "w").write(SH.replace("@RUN@", b.get("run", "cargo run -q --offline")).replace("@ID@", b["id"]))
                open(new + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
            os.chmod(new + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(new + "/meta.json", "w"), indent=1)
            rc, o = run(["bash", W + "/build.sh"], R)
            if rc:
                print(b["id"], "DOES NOT BUILD\n", o[-1800:]); continue
            rc, d1 = run(["bash", new + "/demo.sh"], R)
            rc2, o = run(["bash", W + "/test.sh", W + "/out.json"], R)
            res = json.load(open(W + "/out.json"))
            passed = set(res.get("passed") or [k for k, v in res.items() if v in ("pass", "passed", True)])
            bad = [t for t in stable if t not in passed]
            reset()
            rc0, d0 = run(["bash", new + "/demo.sh"], R)
            if bad: print(b["id"], "TESTS CATCH IT:", bad[:4])
            elif rc == 0: print(b["id"], "DEMO DOES NOT FAIL WITH THE CHANGE\n", d1[-800:])
            elif rc0 != 0: print(b["id"], "DEMO FAILS ON THE BASE\n", d0[-1500:])
            else:
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(new, out)
                print(b["id"], "ok:", d1.strip().split("\n")[-1][:150] if d1.strip() else "", "|", [l for l in d1.split("\n") if "panicked" in l or "assert" in l][:1])
        except AssertionError as e:
            print(b["id"], "EDIT FAILS", e)
        finally:
            reset()
main()
