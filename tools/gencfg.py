#!/usr/bin/env python3
"""gencfg.py OUT REPO LIST: config.hh from /repo's config.hh.in with the listed FTK_HAVE_* features on."""
import os, re, sys
def gen(out, repo, on):
    t = open(os.path.join(repo, "include/ftk/config.hh.in")).read()
    t = re.sub(r"#cmakedefine (\w+) 1", lambda m: "#define %s 1" % m.group(1) if m.group(1)[9:] in on else "/* #undef %s */" % m.group(1), t)
    for k, v in (("FTK_VERSION", "verif"), ("FTK_FP_PRECISION", "32768"), ("FTK_CP_MAX_NUM_VARS", "3")):
        t = t.replace("${%s}" % k, v)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    open(out, "w").write(t)
if __name__ == "__main__":
    gen(sys.argv[1], sys.argv[2], set(sys.argv[3].split(",")) if len(sys.argv) > 3 else set())
