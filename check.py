#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [engine options...]

Builds, from the current working tree of the repository, the library and the
harness of a property, then runs it. Exit 0: the property held on everything
explored. Exit 1 (with a VIOLATION line): it did not.
"""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EFG_REPO", "/repo")
BUILD = os.environ.get("EFG_PBT_BUILD", os.path.join(HERE, "build"))
HARNESS = os.path.join(HERE, "harness")

COMMON = ("-std=c++17 -g1 -fno-omit-frame-pointer -D_GLIBCXX_SANITIZE_VECTOR=1 "
          "-DEFG_JSON_IO=1 -pthread")
FLAVOURS = {
    "asan": ("g++", COMMON + " -O1 -fsanitize=address", "-fsanitize=address"),
    # statistical checks need long runs
    "fast": ("g++", COMMON + " -O2", ""),
    "tsan": ("g++", COMMON + " -O1 -fsanitize=thread", "-fsanitize=thread"),
}
# with what is compiled only when external libraries are there (stand-ins of
# their interfaces are in harness/stubs)
FLAVOURS["full"] = (
    "g++", FLAVOURS["asan"][1] + " -DEFG_XML_IO=1 -DEFG_LEARNING_ENABLED=1 "
    f"-I{HARNESS}/stubs", FLAVOURS["asan"][2])


def sources(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    h.update(repr((COMMON, FLAVOURS, REPO)).encode())
    for root in (os.path.join(REPO, "src"), HARNESS):
        for f in sources(root, (".cpp", ".h", ".hpp", ".c", ".inl", ".ipp")):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def ninja_file(path):
    lib = sources(os.path.join(REPO, "src", "src"), (".cpp",))
    base = [os.path.join(HARNESS, f) for f in
            ("engine.cpp", "ref.cpp", "world.cpp")]
    props = sources(os.path.join(HARNESS, "props"), (".cpp",))
    inc = f"-I{REPO}/src/header -I{HARNESS}"
    out = ["builddir = ."]
    for name, (cxx, cflags, ldflags) in FLAVOURS.items():
        out += [f"rule cxx_{name}",
                f"  command = {cxx} {cflags} {inc} $extra -MMD -MF $out.d -c $in -o $out",
                "  depfile = $out.d", "  deps = gcc",
                f"rule link_{name}",
                f"  command = {cxx} {ldflags} $in -lpthread -o $out"]
        objs = []
        for src in lib + base:
            o = f"{name}/" + src.strip("/").replace("/", "_") + ".o"
            out.append(f"build {o}: cxx_{name} {src}")
            objs.append(o)
        for p in props:
            if name not in flavours_of(os.path.basename(p)[:-4]):
                continue
            pid = os.path.basename(p)[:-4]
            o = f"{name}/{pid}.o"
            out.append(f"build {o}: cxx_{name} {p}")
            out.append(f"build {name}/{pid}: link_{name} {o} " + " ".join(objs))
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")


def prepare(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(BUILD, tree_hash())
        if not os.path.isdir(d):
            # keep only the most recent builds
            old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)
                          if os.path.isdir(os.path.join(BUILD, x))),
                         key=os.path.getmtime)
            for x in old[:-3]:
                shutil.rmtree(x, ignore_errors=True)
            os.makedirs(d)
        os.utime(d)
        ninja_file(os.path.join(d, "build.ninja"))
        r = subprocess.run(["ninja", "-C", d] + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            print("the harness does not build against the current tree")
            sys.exit(2)
        return d


def flavours_of(pid):
    if pid in FULL:
        return ["full"]
    if pid in FAST:
        return ["fast", "tsan"] if pid in TSAN_TOO else ["fast"]
    # what involves threads is checked a second time under ThreadSanitizer
    return ["asan", "tsan"] if pid in TSAN_TOO else ["asan"]


FAST = {"C11"}
FULL = {"C23", "C24"}
# sub checks, share of the cases
TSAN_TOO = {"C08": [], "C09": [], "C10": ["--only", "history", "--scale", "0.25"],
            "C11": ["--only", "dense,parallel", "--scale", "1"]}


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    pid = sys.argv[1]
    if pid == "--build-all":
        props = [os.path.basename(p)[:-4]
                 for p in sources(os.path.join(HARNESS, "props"), (".cpp",))]
        prepare([f"{fl}/{p}" for p in props for fl in flavours_of(p)])
        return 0
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(int(seed))
    except ValueError:
        seed = "1"
    t0 = time.time()
    d = prepare([f"{fl}/{pid}" for fl in flavours_of(pid)])
    print(f"built in {time.time() - t0:.1f} s", flush=True)
    replays = os.path.join(HERE, "replays")
    evidence = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    for fl in flavours_of(pid):
        env = dict(os.environ)
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:die_after_fork=0"
        exe = os.path.join(d, fl, pid)
        own = evidence if fl != "tsan" else os.path.join(d, pid + ".tsan.json")
        if fl == "tsan":
            # ThreadSanitizer does not start on some kernels
            if subprocess.run([exe, "--scale", "0"], env=env,
                              stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL).returncode != 0:
                print("note: ThreadSanitizer does not work here, skipped")
                continue
        cmd = [exe, "--tier", tier, "--seed", seed, "--out", replays,
               "--evidence", own] + args
        if fl == "tsan" and not args:
            cmd += TSAN_TOO[pid]
        r = subprocess.run(cmd, env=env)
        if fl == "tsan" and os.path.exists(own):
            with open(own) as f:
                extra = json.load(f)
            with open(evidence) as f:
                main_ = json.load(f)
            main_["coverage"]["thread_sanitizer"] = extra["coverage"]
            main_["wall_s"] += extra["wall_s"]
            main_["violations"] += extra["violations"]
            with open(evidence, "w") as f:
                json.dump(main_, f, indent=1)
        if r.returncode != 0:
            return r.returncode
    return 0


if __name__ == "__main__":
    sys.exit(main())
