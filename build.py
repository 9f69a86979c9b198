#!/usr/bin/env python3
"""Builds Qrack from /repo's working tree, plus the harness in /verif/src, in one of several instrumented variants.

The list of library sources and the flags that are not ours (include paths, defines, -std) come from the project's own
CMake configuration (cmake -S /repo, compile_commands.json), so added or moved sources are picked up. Objects are cached
in /verif/build/cache under a hash of the preprocessed source and the command."""
import concurrent.futures, hashlib, json, os, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
SRC = os.path.join(VERIF, "src")

VARIANTS = {
    # name: (extra cmake options, compile flags, link flags)
    "plain": ([], ["-O1", "-g0"], []),
    "asan": ([], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                  "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"], ["-fsanitize=address,undefined"]),
    "tsan": ([], ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "double": (["-DFPPOW=6"], ["-O1", "-g0"], []),
    "cap6": (["-DQBCAPPOW=6"], ["-O1", "-g0"], []),
    "big": (["-DQBCAPPOW=8"], ["-O1", "-g0"], []),
    # only src/common, linked with the wide-integer monitor: widths and word sizes of BigInteger
    "int512": (["-DQBCAPPOW=9"], ["-O1", "-g0"], [], ["src/common/"]),
    "int1024": (["-DQBCAPPOW=10"], ["-O1", "-g0"], [], ["src/common/"]),
    "word64": (["-DQBCAPPOW=8"], ["-O1", "-g0", "-U__SIZEOF_INT128__"], [], ["src/common/"]),
    "word64x128": (["-DQBCAPPOW=7"], ["-O1", "-g0", "-U__SIZEOF_INT128__"], [], ["src/common/"]),
}
LITE_SOURCES = ["main.cpp", "mod_bigint.cpp"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def configure(variant):
    opts = VARIANTS[variant][0]
    bdir = os.path.join(BUILD, "cfg-" + hashlib.sha1((REPO + " ".join(opts)).encode()).hexdigest()[:10])
    env = dict(os.environ, CC="gcc", CXX="g++")
    os.makedirs(bdir, exist_ok=True)
    run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DENABLE_OPENCL=OFF",
         "-DENABLE_CUDA=OFF", "-DENABLE_EXAMPLES=OFF", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
         "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + opts, env=env)
    cc = json.load(open(os.path.join(bdir, "compile_commands.json")))
    srcs, flags = [], None
    seen = set()
    for e in cc:
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        if not f.startswith(os.path.join(REPO, "src") + os.sep) or f.endswith("qrack_cl_precompile.cpp") or f in seen:
            continue
        seen.add(f)
        a = shlex.split(e["command"]) if "command" in e else e["arguments"]
        fl, skip = [], False
        for x in a[1:]:
            if skip:
                skip = False
                continue
            if x in ("-o", "-c"):
                skip = x == "-o"
                continue
            if x == f or x == e["file"] or x.startswith("-O") or x in ("-Werror", "-g") or x.startswith("-Dqrack_pinvoke"):
                continue
            fl.append(x)
        srcs.append((f, fl))
        if flags is None:
            flags = fl
    if not srcs:
        raise BuildError("no library sources found in compile_commands.json")
    return srcs, flags


def compile_one(src, flags, tmp):
    """-> path of the object file"""
    cmd = ["g++"] + flags
    pre = subprocess.run(cmd + ["-E", "-P" if "-g0" in flags else "-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode:
        raise BuildError("cannot preprocess %s\n%s" % (src, pre.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256((" ".join(x for x in cmd if not x.startswith("-I"))).encode() + b"\0" + pre.stdout).hexdigest()
    obj = os.path.join(CACHE, h[:32] + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    t = os.path.join(tmp, h[:32] + ".o")
    c = subprocess.run(cmd + ["-c", src, "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if c.returncode:
        raise BuildError("cannot compile %s\n%s" % (src, c.stdout.decode(errors="replace")[-6000:]))
    os.replace(t, obj)
    return obj


def prune(limit=3 << 30):
    try:
        fs = sorted((os.stat(os.path.join(CACHE, f)).st_mtime, os.stat(os.path.join(CACHE, f)).st_size,
                     os.path.join(CACHE, f)) for f in os.listdir(CACHE))
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for m, s, p in fs:
        if tot <= limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s


def build(variant, harness, name=None, extra=()):
    """Compile library + the named harness sources; return path of the executable."""
    os.makedirs(CACHE, exist_ok=True)
    prune()
    srcs, base = configure(variant)
    vf, lf = VARIANTS[variant][1], VARIANTS[variant][2]
    if len(VARIANTS[variant]) > 3:
        srcs = [s for s in srcs if any(os.path.relpath(s[0], REPO).startswith(o) for o in VARIANTS[variant][3])]
        harness = LITE_SOURCES
    tmp = tempfile.mkdtemp(dir=BUILD)
    try:
        jobs = [(f, fl + vf) for f, fl in srcs]
        hs = [(os.path.join(SRC, h), base + ["-I" + SRC] + vf + ["-Wno-unused", "-DVF_VARIANT=\"%s\"" % variant]
               + list(extra)) for h in harness]
        # big ones first
        alls = sorted(hs + jobs, key=lambda j: -os.path.getsize(j[0]))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(lambda j: compile_one(j[0], j[1], tmp), alls))
        key = hashlib.sha256("\n".join(sorted(objs) + lf).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "%s-%s-%s" % (name or "qv", variant, key))
        if not os.path.exists(exe):
            t = os.path.join(tmp, "exe")
            run(["g++"] + objs + lf + ["-lpthread", "-ldl", "-o", t])
            for f in os.listdir(BUILD):
                if f.startswith("%s-%s-" % (name or "qv", variant)):
                    p = os.path.join(BUILD, f)
                    if time.time() - os.stat(p).st_mtime > 3600:
                        try:
                            os.unlink(p)
                        except OSError:
                            pass
            os.replace(t, exe)
        return exe
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    print(build(sys.argv[1], sys.argv[2].split(",") if len(sys.argv) > 2 else []), "%.1fs" % (time.time() - t))
