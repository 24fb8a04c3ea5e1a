#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree. Objects are cached by content in /verif/build."""
import hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
B = V + "/build"
SRC = R + "/libvoikko/src"
CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-pthread", "-w", "-fno-omit-frame-pointer"]
LIBF = BASE + ["-O2", "-fsanitize=thread", "-fno-builtin", "-DHAVE_CONFIG_H",
               "-I" + V + "/sim/cfg", "-I" + SRC]
SIMF = BASE + ["-O2", "-fno-builtin-malloc", "-I" + SRC, "-I" + V + "/sim", "-I" + V + "/sim/cfg"]
PATTERN = "-ftrivial-auto-var-init=pattern"
ZERO = "-ftrivial-auto-var-init=zero"
O1 = ["-O1", "-mllvm", "-disable-licm-promotion"]
WRAP = ("memcpy memmove memset memcmp bcmp memchr strlen strcpy strncpy strcat strcmp strncmp strchr wcslen wcscpy wcsncpy "
        "wcscat wcscmp wcsncmp wcschr wcsstr wmemchr wmemcpy wmemmove wmemset wmemcmp").split()

BUILD_VERSION = "5"
def sha(*parts):
    h = hashlib.sha256(BUILD_VERSION.encode())
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]
def read(p):
    with open(p, "rb") as f: return f.read()
def walk(d, ext):
    out = []
    for b, ds, fs in os.walk(d):
        ds.sort()
        out += [os.path.join(b, f) for f in sorted(fs) if f.endswith(ext)]
    return out

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stdout.write("build failed: " + " ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:] + "\n")
        sys.stdout.flush()
        os._exit(3)

def tool_flags(tool):
    return ["-DHAVE_PTHREAD"] if tool == "voikkospell" else []

def main(targets):
    os.makedirs(B + "/obj", exist_ok=True)
    hdr = sha(*[read(p) for p in walk(SRC, (".hpp", ".h"))], read(V + "/sim/cfg/config.h"))
    shdr = sha(*[read(p) for p in walk(V + "/sim", (".hpp", ".h"))], read(SRC + "/voikko.h"), read(SRC + "/voikko_defines.h"),
               read(SRC + "/voikko_deprecated.h"), read(SRC + "/voikko_enums.h"), read(SRC + "/voikko_structs.h"))
    jobs = {}
    pchs = {}
    def makepch(init):
        f = LIBF + [init] + (O1 if init == ZERO else [])
        pch = B + "/obj/" + sha("pch", read(V + "/sim/cfg/pch.hpp"), " ".join(f)) + ".pch"
        pchs[init] = pch
        if not os.path.exists(pch):
            run([CXX] + f + ["-x", "c++-header", V + "/sim/cfg/pch.hpp", "-o", pch + ".tmp"])
            os.rename(pch + ".tmp", pch)
    with ThreadPoolExecutor(2) as ex: list(ex.map(makepch, (PATTERN, ZERO)))
    def obj(src, flags, h, under_test=False):
        key = sha(src[len(V) if src.startswith(V) else len(R):], read(src), h, " ".join(flags))
        o = B + "/obj/" + key + ".o"
        pch = ["-include-pch", pchs[PATTERN if PATTERN in flags else ZERO]] if under_test else []
        jobs[o] = [CXX] + flags + pch + ["-c", src, "-o", o + ".tmp"]
        return o
    # The code under test is compiled twice. In the first copy uninitialised local variables hold 0xAA... (1 if they are one byte
    # long, so that a bool is true), in the second, which computes the reference answers, zeros.
    lib, second = [], []
    for s in walk(SRC, (".cpp",)):
        rel = s[len(SRC) + 1:]
        if rel.startswith("tools/") or os.path.basename(rel).startswith(("Cg", "Lttoolbox")): continue
        lib.append(obj(s, LIBF + [PATTERN], hdr, True))
        if "lib" in targets: second.append(obj(s, LIBF + [ZERO] + O1, hdr, True))
    rt = [obj(V + "/sim/" + f, SIMF, shdr) for f in ("rt.cpp", "sys.cpp", "case.cpp")]
    bins = {}
    for t in targets:
        if t == "lib":
            first, other = lib, []
            objs = rt + [obj(f, SIMF + ["-DSECOND"], shdr) for f in walk(V + "/sim/lib", (".cpp",))]
        else:
            fl = LIBF + tool_flags(t)
            # twice: what uninitialised local variables hold differs between the two
            first = lib + [obj(SRC + "/tools/" + t + ".cpp", fl + [PATTERN], hdr, True)]
            other = [obj(SRC + "/tools/" + t + ".cpp", fl + [ZERO, "-DSIM_SECOND"], hdr, True)]
            objs = rt + [obj(V + "/sim/lib/" + f, SIMF, shdr) for f in ("api.cpp", "hist.cpp", "world.cpp")] + [obj(V + "/sim/tool/tool.cpp", SIMF + ["-DTOOL=" + t], shdr)]
        bins["sim_" + t] = (first, second if t == "lib" else other, objs)
    todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
    def one(oc):
        if PATTERN in oc[1]:
            # clang's pattern for one byte is 0xAA, which is false in a bool
            c, ll = oc[1], oc[0] + ".ll"
            run(c[:-4] + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-S", c[-3], "-o", ll])
            with open(ll) as f: t = f.read()
            with open(ll, "w") as f: f.write(re.sub(r"store i8 -86, (ptr .*, !annotation )", r"store i8 1, \1", t))
            run([CXX] + BASE + ["-O2", "-fsanitize=thread", "-fno-builtin", "-x", "ir", "-c", ll, "-o", oc[0] + ".tmp"])
            os.remove(ll)
        else: run(oc[1])
        if PATTERN in oc[1] or ZERO in oc[1]:
            # library calls of the code under test go through the simulator (and only those)
            run(["objcopy"] + [x for w in WRAP for x in ("--redefine-sym", w + "=__wrap_" + w)] + ["--redefine-sym", "main=tool_main"] + [oc[0] + ".tmp"])
        os.rename(oc[0] + ".tmp", oc[0])
    # large files first
    todo.sort(key=lambda oc: -os.path.getsize(oc[1][-3]))
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        list(ex.map(one, todo))
    for b, (first, other, objs) in bins.items():
        out = B + "/" + b
        key = sha(*first, *other, *objs)
        kf = out + ".key"
        if os.path.exists(out) and os.path.exists(kf) and read(kf).decode() == key: continue
        # The templates of the standard library that the code under test uses are its own instrumented copies: the simulator and
        # libstdc++ must not get them. Everything in the second copy has another name.
        for kind, group in (("first", first), ("second", other)):
            r = out + "." + kind + ".o"
            run(["ld", "-r", "-o", r] + group)
            nm = subprocess.run(["nm", "-g", "--defined-only", "-f", "posix", r], stdout=subprocess.PIPE, check=True).stdout.decode()
            with open(r + ".map", "w") as f: f.write("".join("%s %s_%s\n" % (l.split()[0], l.split()[0], kind) for l in nm.splitlines() if kind == "second" or l.split()[1] in "WV"))
            run(["objcopy", "--redefine-syms=" + r + ".map", r])
            objs = objs + [r]
        rsp = out + ".rsp"
        with open(rsp, "w") as f: f.write("\n".join(objs))
        run([CXX, "-pthread", "-rdynamic", "-o", out + ".tmp", "@" + rsp] + ["-lhfstospell", "-ldl", "-lpthread"])
        os.rename(out + ".tmp", out)
        with open(kf, "w") as f: f.write(key)

if __name__ == "__main__":
    t0 = time.time()
    main(sys.argv[1:])
    print("build %.1f s" % (time.time() - t0))
