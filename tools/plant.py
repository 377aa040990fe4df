#!/usr/bin/env python3
"""plant.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=C++ text,
optional FEAT, LIBS, RUN), confirms the demonstration on an overlay of /repo with and without the change, and runs the property's check on it."""
import os, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/cfg/ftk"
sed -E -e 's/(#define FTK_HAVE_[A-Z0-9_]+) .*/\/\/ off/' _build/include/ftk/config.hh > "$T/cfg/ftk/config.hh"
sed -i '4i @FEAT@' "$T/cfg/ftk/config.hh"
@CXX@ -std=c++17 -w -O1 -I"$T/cfg" -Iinclude @INC@ "$D/demo.cc" -o "$T/demo" @LIBS@ -lgmpxx -lgmp -lpthread || exit 2
cd "$T" && timeout 250 @RUN@ ./demo
'''
def main():
    ns = {}
    for spec in sys.argv[1:]:
        if spec.startswith("--"): continue
        ns = {}; exec(open(spec).read(), ns); one(ns)
def one(s):
    d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    ov = tempfile.mkdtemp(prefix="ov.", dir="/tmp")
    shutil.copytree("/repo/include", ov + "/include", symlinks=True); shutil.copytree("/repo/src", ov + "/src", symlinks=True); os.symlink("/repo/_build", ov + "/_build")
    feat = s.get("FEAT", ["GMP"])
    sh = DEMO_SH.replace("@FEAT@", r"\n".join("#define FTK_HAVE_%s 1" % f for f in feat))
    inc, libs, cxx = "", s.get("LIBS", ""), "g++"
    if "HDF5" in feat: inc += " -I/usr/include/hdf5/serial"; libs += " -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_serial"
    if "NETCDF" in feat: libs += " -lnetcdf"
    if "TBB" in feat: libs += " -ltbb"
    if "MPI" in feat: cxx = "mpicxx"
    sh = sh.replace("@CXX@", cxx).replace("@INC@", inc).replace("@LIBS@", libs).replace("@RUN@", s.get("RUN", ""))
    if "SH" in s: sh = s["SH"]
    open(d + "/demo.sh", "w").write(sh); os.chmod(d + "/demo.sh", 0o755)
    if "DEMO" in s: open(d + "/demo.cc", "w").write(s["DEMO"])
    json.dump(dict(property=s["PROP"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=ov, capture_output=True, text=True)
    gt = tempfile.mkdtemp(prefix="gt.", dir="/tmp"); subprocess.run("git -C /repo worktree add -q --detach %s HEAD" % gt, shell=True, check=True)
    for f, o, n in s["EDITS"]:
        t = open(gt + "/" + f).read(); assert t.count(o) == 1, (s["ID"], f, t.count(o), o)
        t = t.replace(o, n); open(gt + "/" + f, "w").write(t); open(ov + "/" + f, "w").write(t)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", gt, "diff"], capture_output=True, text=True).stdout)
    subprocess.run("git -C /repo worktree remove --force %s" % gt, shell=True)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=ov, capture_output=True, text=True)
    print(s["ID"], "demo clean rc", r0.returncode, "patched rc", r1.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else "", (r1.stderr + r1.stdout)[-300:])
    if "--nocheck" not in sys.argv:
        c = subprocess.run(["python3", V + "/check.py", s["PROP"], "quick"], env=dict(os.environ, VERIF_REPO=ov, VERIF_SEED="1"), capture_output=True, text=True)
        print("   check", s["PROP"], "rc", c.returncode, c.stdout[:600])
        subprocess.run(["git", "-C", V, "status", "--short"])
    shutil.rmtree(ov)
main()
