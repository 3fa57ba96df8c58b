#!/usr/bin/env python3
"""Build a harness executable against /repo's current sources.

Library and harness translation units are compiled with -fsanitize=thread instrumentation whose
entry points are served by engine/vsched.cpp (libtsan is not linked).  Objects are cached by a hash
of the preprocessed input, so a changed tree is always rebuilt.
"""
import concurrent.futures as cf
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
CXX = "g++"
# the release build of the library (xmake "release"): -O3 -std=c++20 -fconcepts -DNDEBUG
BASE = ["-m64", "-std=c++20", "-fconcepts", "-DNDEBUG", "-fvisibility=hidden", "-fvisibility-inlines-hidden",
        "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "harness"),
        "-w", "-pthread"] + (["-g"] if os.environ.get("VERIF_G") else [])
TSAN = ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
# these two contain the context switch and the signal frame arithmetic and are built exactly as released
PLAIN = {"co_vos_gcc_x86_64.cpp", "co_exception.cpp"}


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-4000:]))
    return p.stdout


def compile_one(src, flags):
    pre = run([CXX, "-E", src] + flags)
    h = hashlib.sha256(pre)
    h.update(repr(flags).encode())
    key = h.hexdigest()[:32]
    obj = os.path.join(CACHE, "%s-%s.o" % (os.path.basename(src), key))
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp.o" % (obj, os.getpid())
        run([CXX, "-c", src, "-o", tmp] + flags)
        os.rename(tmp, obj)
    return obj, key


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "source", "cocpp")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return out


def build(prop, instrument=True):
    os.makedirs(CACHE, exist_ok=True)
    jobs = []
    for s in lib_sources():
        if os.path.basename(s) in PLAIN:
            jobs.append((s, BASE + ["-O3"]))
        else:
            jobs.append((s, BASE + ["-O1"] + (TSAN if instrument else [])))
    jobs.append((os.path.join(VERIF, "harness", prop + ".cpp"), BASE + ["-O1"] + (TSAN if instrument else [])))
    jobs.append((os.path.join(VERIF, "engine", "vsched.cpp"), BASE + ["-O2", "-fvisibility=default"]))
    jobs.append((os.path.join(VERIF, "engine", "pbt.cpp"), BASE + ["-O2", "-fvisibility=default"]))
    jobs.append((os.path.join(VERIF, "engine", "glue.cpp"), BASE + ["-O1"]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = hashlib.sha256("".join(k for _, k in objs).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, "%s-%s" % (prop, key))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        run([CXX, "-o", tmp] + [o for o, _ in objs] + ["-pthread", "-ldl", "-rdynamic"])
        os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        print(build(sys.argv[1]))
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
