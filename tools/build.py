#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into <out>/sim (incremental, ninja).

The repository's sources are compiled unmodified with clang and
-fsanitize-coverage=trace-pc-guard (the simulator's step counter / preemption
points).  Each command line tool's main() is renamed, and its other strong
symbols are made local, so that all the tools live in one simulator process.
"""
import os, sys, subprocess, glob, json, hashlib

REPO = os.environ.get("CG3_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TOOLS = {"vislcg3": "main.cpp", "cg-conv": "cg-conv.cpp", "cg-comp": "cg-comp.cpp",
         "cg-proc": "cg-proc.cpp", "cg-relabel": "cg-relabel.cpp", "cg-mwesplit": "cg-mwesplit.cpp",
         "cg-merge-annotations": "cg-merge-annotations.cpp", "cg-annotate": "cg-annotate.cpp"}
SKIP = {"icu_uoptions.cpp"}

WRAPS = ["fork", "pipe", "dup2", "close", "execv", "waitpid", "fdopen", "system", "kill", "time", "clock",
         "rand", "srand", "exit", "_exit", "remove", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]


def write_ninja(out):
    src = os.path.join(REPO, "src")
    sim = os.path.join(VERIF, "sim")
    defs = ("-DHAS_FS -DNDEBUG -D_GLIBCXX_ASSERTIONS -DBOOST_NO_CXX98_FUNCTION_BASE=1 -DUNISTR_FROM_CHAR_EXPLICIT=explicit "
            "-DUNISTR_FROM_STRING_EXPLICIT=explicit -DU_CHARSET_IS_UTF8=1 -D_POSIX_C_SOURCE=200112")
    inc = f"-I{REPO}/include/posix -I{REPO}/include -I{src}"
    base = "-std=c++23 -O1 -w -fno-pie -pthread"
    cov = "-fsanitize-coverage=trace-pc-guard,trace-stores"
    L = []
    L.append("rule cxx\n  command = clang++ -MD -MF $out.d $flags -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    L.append(f"rule tool\n  command = clang++ -MD -MF $out.d $flags -c $in -o $out.tmp.o && {sys.executable} {os.path.abspath(__file__)} localise $out.tmp.o $out $newmain && rm -f $out.tmp.o\n  depfile = $out.d\n  deps = gcc\n")
    L.append("rule link\n  command = clang++ -no-pie -pthread -o $out $in $libs\n")
    objs = []
    mains = set(TOOLS.values())
    for f in sorted(glob.glob(os.path.join(src, "*.cpp"))):
        b = os.path.basename(f)
        if b.startswith("all_") or b in mains or b in SKIP:
            continue
        o = f"obj/{b}.o"
        L.append(f"build {o}: cxx {f}\n  flags = {base} {cov} {defs} {inc}\n")
        objs.append(o)
    pp = os.path.join(REPO, "include/posix/popen_plus.cpp")
    L.append(f"build obj/popen_plus.o: cxx {pp}\n  flags = {base} {cov} {defs} {inc}\n")
    objs.append("obj/popen_plus.o")
    for t, f in sorted(TOOLS.items()):
        o = f"obj/tool_{t}.o"
        L.append(f"build {o}: tool {src}/{f}\n  flags = {base} {cov} {defs} {inc}\n  newmain = simtool_{t.replace('-', '_')}_main\n")
        objs.append(o)
    hobjs = []
    for f in sorted(glob.glob(os.path.join(sim, "*.cpp"))):
        o = f"obj/sim_{os.path.basename(f)}.o"
        L.append(f"build {o}: cxx {f}\n  flags = -std=c++20 -O1 -g -Wall -Wno-unused-function -fno-pie -pthread -I{src} -DVERIF_DIR_RAW={VERIF}\n")
        hobjs.append(o)
    wraps = " ".join(f"-Wl,--wrap={w}" for w in WRAPS)
    L.append(f"build sim: link {' '.join(hobjs + objs)}\n  libs = {wraps} -licui18n -licuio -licuuc -licudata -lsqlite3 -ldl\n")
    L.append("default sim\n")
    txt = "\n".join(L)
    p = os.path.join(out, "build.ninja")
    old = open(p).read() if os.path.exists(p) else None
    if old != txt:
        with open(p, "w") as fh:
            fh.write(txt)


def localise(tmp, out, newmain):
    """Rename main and localise every other strong definition of a tool object."""
    nm = subprocess.run(["nm", "--defined-only", tmp], check=True, capture_output=True, text=True).stdout
    args = ["objcopy"]
    for line in nm.splitlines():
        parts = line.split()
        if len(parts) < 3:
            continue
        kind, name = parts[-2], parts[-1]
        if name == "main":
            continue
        if kind in "TDBRGS":
            args.append(f"--localize-symbol={name}")
    args.append(f"--redefine-sym=main={newmain}")
    subprocess.run(args + [tmp, out], check=True)


def stale(out):
    """Content-based staleness on top of ninja's mtimes: a restored or copied tree
    may carry any timestamps, and the check must judge what is there now."""
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(VERIF, "sim")]
    cur, hh = {}, {"hdr": hashlib.sha256(), "shdr": hashlib.sha256()}
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(".cpp"):
                    cur[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
                elif f.endswith((".hpp", ".h", ".hh", ".c", ".ipp", ".inc")) or "." not in f:
                    hh["shdr" if r.startswith(VERIF) else "hdr"].update(p.encode() + b"\0" + open(p, "rb").read())
    cur.update({k: v.hexdigest() for k, v in hh.items()})
    cur["hdr"] += hashlib.sha256(open(os.path.abspath(__file__), "rb").read()).hexdigest()
    st = os.path.join(out, "stamp.json")
    try:
        old = json.load(open(st))
    except Exception:
        old = {}
    objs = os.path.join(out, "obj")
    if old.get("hdr") != cur["hdr"]:
        # a header changed: anything built in a previous session may be out of date,
        # unless ninja's own dependency information says so by newer timestamps
        for f in glob.glob(os.path.join(objs, "*.o")):
            os.remove(f)
    else:
        if old.get("shdr") != cur["shdr"]:
            for f in glob.glob(os.path.join(objs, "sim_*.o")):
                os.remove(f)
        for p, h in cur.items():
            if not p.endswith("hdr") and old.get(p) != h:
                b = os.path.basename(p)
                for f in glob.glob(os.path.join(objs, "*.o")):
                    n = os.path.basename(f)
                    tool = [f"tool_{t}.o" for t, m in TOOLS.items() if m == b]
                    if n in (b + ".o", f"sim_{b}.o", b.replace(".cpp", ".o")) or n in tool:
                        os.remove(f)
    return st, cur


def build(out, quiet=True):
    os.makedirs(os.path.join(out, "obj"), exist_ok=True)
    write_ninja(out)
    st, cur = stale(out)
    r = subprocess.run(["ninja", "-C", out], capture_output=quiet, text=True)
    if r.returncode != 0:
        if quiet:
            sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        return None
    json.dump(cur, open(st, "w"))
    return os.path.join(out, "sim")


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "localise":
        localise(*sys.argv[2:5])
        sys.exit(0)
    out = sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "build")
    sys.exit(0 if build(out, quiet=False) else 2)
