#!/usr/bin/env python3
"""C17: the dictionary source generators of voikko-fi on simulated files: seeded read, write, open and close errors, full disks, short
transfers, inputs that end early, hash seeds and locales. The real scripts run in forked children of interpreters started per hash seed
and locale; every file they open goes through SimRaw."""
import errno, gc, io, json, os, random, re, select, shutil, signal, struct, subprocess, sys, time, builtins
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FI = REPO + "/voikko-fi"
B = V + "/build/gen"

# ---------------------------------------------------------------- cases
WCLASS = {"noun": ["noun"], "adjective": ["adjective"], "verb": ["verb"]}
FLAGS = {"inflection": ["ei_vertm", "ei_yks", "yt", "ym3", "liitesana", "omistusliite", "required", "none", "ulkopaikallissijat_yks", "paikannimi_ulkopaikallissijat"],
         "compounding": ["ei_ys", "ei_ysj", "ei_ysa", "ysj", "eln", "ell", "elt", "eltj", "el_altark", "geo_suffix", "org_suffix", "free_suffix"],
         "derivation": ["inen", "ei_inen", "ei_mainen", "ei_lainen"], "application": ["not_voikko", "confusing"]}
words = json.load(open(V + "/py/words.json", encoding="utf-8")) if os.path.exists(V + "/py/words.json") else []
def vocabulary(r):
    s = '<?xml version="1.0" encoding="utf-8"?>\n<!-- sanasto -->\n<wordlist xml:lang="fi">\n'
    for i in range(r.choice([0, 1, 3, 10, 40])):
        w, inf, cls = r.choice(words)
        classes = [cls]
        if cls == "noun" and r.random() < .3: classes = r.choice([["pnoun_place"], ["pnoun_firstname"], ["pnoun_lastname"], ["pnoun_misc"], ["noun", "adjective"], ["noun"]])
        x = r.random()
        if x < .15: inf, classes, w = None, [r.choice(["interjection", "prefix", "abbreviation", "conjunction", "adverb"])], r.choice(["hei", "epä", "esim.", "vai", "alas", "ylä-", "jää"])
        form = w
        if r.random() < .3: form = r.choice(["yli=", "maa", "linja-", "ala|"]) + w
        s += '<word id="w%d">\n<forms>\n<form>%s</form>\n</forms>\n<classes>\n%s</classes>\n' % (500000 + i, form, "".join("<wclass>%s</wclass>\n" % c for c in classes))
        fl = {}
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            g = r.choice(sorted(FLAGS)); fl.setdefault(g, [])
            f = r.choice(FLAGS[g])
            if f not in fl[g]: fl[g].append(f)
        body = "".join("<flag>%s</flag>\n" % f for f in fl.pop("inflection", []))
        if inf: body = "<infclass>%s</infclass>\n" % inf + body
        if body: s += "<inflection>\n" + body + "</inflection>\n"
        for g, f in sorted(fl.items()): s += "<%s>\n%s</%s>\n" % (g, "".join("<flag>%s</flag>\n" % x for x in f), g)
        if r.random() < .2: s += "<style>\n<flag>%s</flag>\n</style>\n" % r.choice(["foreignloan", "dialect", "old", "incorrect"])
        if r.random() < .2: s += "<usage>\n<flag>%s</flag>\n</usage>\n" % r.choice(["it", "medicine", "science"])
        if r.random() < .2: s += "<frequency>\n<fclass>%d</fclass>\n</frequency>\n" % r.choice([5, 9, 10])
        s += "</word>\n"
    return s + "</wordlist>\n"
def sample(r, name, n):
    l = open(FI + "/" + name, encoding="utf-8").read().split("\n")
    k = r.randrange(max(1, len(l) - n))
    return "\n".join(l[k:k + n]) + "\n"
OPTS = ["--no-baseform", "--sourceid", "--vanhat", "--sukija", "--sukija-ys", "--min-frequency=8", "--extra-usage=it,medicine", "--style=dialect,foreign,old", "--style=old,international"]
READ = ["EIO", "EISDIR", "ESTALE"]; WRITE = ["ENOSPC", "EIO", "EDQUOT", "EFBIG"]; OPEN = ["EACCES", "EMFILE", "ENOENT", "EIO"]
def generate(seed):
    r = random.Random("C17 %d" % seed)
    c = {"seed": seed, "files": {}, "faults": []}
    c["script"] = s = r.choice(["lex", "lex", "lex", "taiv", "filter", "autocorr", "sukija"])
    o = r.sample(OPTS, r.choice([0, 0, 1, 2]))
    if s == "lex":
        c["files"]["vocabulary/joukahainen.xml"] = vocabulary(r)
        c["argv"] = ["vvfst/generate_lex.py"] + o + ["--destdir=out"]
    elif s == "taiv":
        c["files"]["vvfst/taivutuskaavat.lexc.in"] = "LEXICON Alku\n" + sample(r, "vvfst/taivutuskaavat.lexc.in", r.choice([5, 60, 400]))
        c["argv"] = ["vvfst/generate_taivutuskaavat.py"] + o + ["--destdir=out"]
    elif s == "filter":
        fs = []
        for n in r.sample(["root", "suomi", "olla-ei", "poikkeavat", "lukusanat", "asemosanat", "seikkasanat", "suhdesanat"], r.randint(1, 4)):
            f = "vvfst/%s.lexc" % n
            c["files"][f] = sample(r, f, r.choice([1, 10, 100])); fs.append(f)
        c["argv"] = ["vvfst/filter_lexc.py", "out/all.lexc"] + o + fs
    elif s == "autocorr":
        t = '<?xml version="1.0" encoding="UTF-8" ?>\n<autocorrect xml:lang="fi">\n'
        for i in range(r.choice([1, 5, 60, 400])): t += "<replacement>\n  <incorrect>%s=%d</incorrect>\n  <correct>%s ä%d</correct>\n</replacement>\n" % (r.choice(words)[0], i, r.choice(words)[0], i)
        c["files"]["vocabulary/autocorrect/fi.xml"] = t + "</autocorrect>\n"
        c["argv"] = ["vvfst/autocorrect_to_lexc.py", "vocabulary/autocorrect/fi.xml", "out/autocorrect.lexc"]
    else:
        t = "LEXICON Sanasto_n\n"
        for i in range(r.choice([1, 5, 40])):
            w = r.choice(words)[0]
            t += "[%s][Xp]%s[X]%s:%s %s_a ;\n" % (r.choice(["Ln", "Ll", "Lt"]), w, w[:-1], w[:-1], w.title())
        c["files"]["out/all.lexc"] = t + sample(r, "vvfst/poikkeavat.lexc", 20)
        c["files"]["out/poikkeavat-sukija.lexc"] = sample(r, "vvfst/poikkeavat-sukija.lexc", r.choice([1, 10, 60]))
        c["argv"] = ["vvfst/generate_sukija.py"] + o + ["--destdir=out"]
    c["short"] = r.choice([0, 0, 0, 1, 7, 100, 4096])
    x = r.random()
    if x < .25: pass
    elif x < .45: c["faults"].append(["full", r.choice(WRITE), r.choice([0, r.randrange(200), r.randrange(3000), r.randrange(20000)])])
    elif x < .6: c["faults"].append(["write", r.choice(WRITE), r.randint(1, 16)])
    elif x < .7: c["faults"].append(["close", r.choice(WRITE), r.randint(1, 16)])
    elif x < .82: c["faults"].append(["read", r.choice(READ), r.randint(1, 12)])
    elif x < .87: c["faults"].append(["open", r.choice(OPEN), r.randint(1, 17)])
    elif s in ("lex", "autocorr"):
        f = sorted(c["files"])[0]
        t = c["files"][f]
        y = r.random()
        k = r.randrange(len(t)) if y < .6 else t.rfind("\n", 0, r.randrange(len(t))) + 1 if y < .9 else len(t) - 1 - r.randrange(12)
        c["faults"].append(["cut", f, max(0, k)])
    return c
def text(c): return "property C17\nparam tool generator\ncase " + json.dumps(c, sort_keys=True) + "\n"
def parse(t): return json.loads([l for l in t.split("\n") if l.startswith("case ")][0][5:])

# ---------------------------------------------------------------- the simulated files, in the child
class Hang(BaseException): pass
class World:
    def __init__(self, c):
        self.c = c
        self.reads = self.writes = self.closes = self.opens = self.bytes = self.steps = self.idle = 0
        self.fired = []
        self.r = random.Random("io %d" % c["seed"])
    def hit(self, kind, n):
        for f in self.c["faults"]:
            if f[0] == kind and f[2] == n: self.fail(f)
    def fail(self, f):
        if f not in self.fired: self.fired.append(f)
        raise OSError(getattr(errno, f[1]), os.strerror(getattr(errno, f[1])))
    def step(self):
        self.steps += 1
    def progress(self, n):
        """Reading at the end of a file again and again is how these scripts fail to end."""
        self.idle = 0 if n else self.idle + 1
        if self.idle > 2000: raise Hang()
        return n
def make(world):
    class SimRaw(io.FileIO):
        def __init__(self, path, mode):
            world.opens += 1
            world.hit("open", world.opens)
            self.w = "r" not in mode or "+" in mode
            self.path = path
            super().__init__(path, mode)
        def readinto(self, b):
            world.step()
            world.reads += 1
            world.hit("read", world.reads)
            m = memoryview(b)
            s = world.c["short"]
            if s and len(m) > s: m = m[:1 + world.r.randrange(s)]
            return world.progress(super().readinto(m))
        def readall(self):
            out = b""
            while True:
                b = bytearray(8192)
                n = self.readinto(b)
                if not n: return out
                out += bytes(b[:n])
        def read(self, n=-1):
            if n is None or n < 0: return self.readall()
            b = bytearray(n)
            k = self.readinto(b)
            return bytes(b[:k])
        def write(self, b):
            world.step()
            world.writes += 1
            world.hit("write", world.writes)
            m = memoryview(b).cast("B")
            s = world.c["short"]
            if s and len(m) > s: m = m[:1 + world.r.randrange(s)]
            for f in world.c["faults"]:
                if f[0] == "full":
                    if world.bytes >= f[2]: world.fail(f)
                    m = m[:f[2] - world.bytes]
            n = super().write(m)
            world.bytes += n
            world.progress(n)
            return n
        def close(self):
            if self.closed: return
            if self.w:
                world.closes += 1
                try: world.hit("close", world.closes)
                except OSError:
                    super().close()
                    raise
            super().close()
    real = io.open
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int) or opener is not None: return real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = SimRaw(file, mode.replace("b", "").replace("t", ""))
        try:
            if buffering == 0:
                if "b" not in mode: raise ValueError("can't have unbuffered text I/O")
                return raw
            n = buffering if buffering > 1 else 8192
            buf = io.BufferedRandom(raw, n) if "+" in mode else io.BufferedReader(raw, n) if "r" in mode else io.BufferedWriter(raw, n)
            if "b" in mode: return buf
            t = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, buffering == 1)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise
    return sim_open
def execute(c, wd):
    """Runs in a process of its own; returns what the caller of the script sees."""
    os.chdir(wd)
    world = World(c)
    o = make(world)
    builtins.open = io.open = o
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(type(u.exc_value).__name__)
    sys.argv = list(c["argv"])
    sys.path.insert(0, wd + "/vvfst")
    err = io.StringIO()
    sys.stdout, sys.stderr = io.StringIO(), err
    status, hang = 0, False
    with os.fdopen(os.open(c["argv"][0], os.O_RDONLY), "rb") as f: src = f.read()
    ns = {"__name__": "__main__", "__file__": c["argv"][0], "__builtins__": builtins}
    try:
        exec(compile(src, c["argv"][0], "exec"), ns)
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except Hang: hang = True
    except BaseException as e:
        status = 1
        e.__traceback__ = None
        err.write("%s: %s\n" % (type(e).__name__, e))
    # what the interpreter does at exit: objects go away, errors while they do are only printed
    try:
        ns.clear()
        for k in [k for k, m in sys.modules.items() if getattr(m, "__file__", None) and "/common/" in (m.__file__ or "") or k in ("hfconv", "voikkoutils", "generate_lex_common")]: sys.modules[k].__dict__.clear(); del sys.modules[k]
        import fileinput
        fileinput._state = None
        gc.collect()
    except Hang: hang = True
    out = {}
    for n in sorted(os.listdir("out")):
        if "out/" + n in c["files"]: continue
        with os.fdopen(os.open("out/" + n, os.O_RDONLY), "rb") as f: out[n] = f.read().decode("utf-8", "backslashreplace")
    return {"status": status, "hang": hang, "out": out, "fired": world.fired, "steps": world.steps, "io": [world.opens, world.reads, world.writes, world.closes], "err": err.getvalue()[-300:], "unraisable": unraisable}
def lay(c, wd):
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd + "/out"); os.makedirs(wd + "/vocabulary/autocorrect"); os.makedirs(wd + "/vvfst")
    os.symlink(FI + "/common", wd + "/common")
    shutil.copy(FI + "/vocabulary/flags.txt", wd + "/vocabulary/flags.txt")
    for f in os.listdir(FI + "/vvfst"):
        if f.endswith(".py"): os.symlink(FI + "/vvfst/" + f, wd + "/vvfst/" + f)
    for f, t in c["files"].items():
        for x in c["faults"]:
            if x[0] == "cut" and x[1] == f: t = t[:x[2]]
        with os.fdopen(os.open(wd + "/" + f, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644), "wb") as g: g.write(t.encode("utf-8"))
def server():
    import xml.dom.minidom, codecs, fileinput, getopt, gzip, locale, tempfile # what the scripts import from the standard library
    import xml.dom.expatbuilder, xml.parsers.expat, encodings.utf_8, encodings.ascii, encodings.latin_1
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = inp.read(4)
        if len(h) < 4: return
        req = json.loads(inp.read(struct.unpack("<I", h)[0]))
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                b = json.dumps(execute(req["case"], req["wd"])).encode()
            except BaseException as e:
                b = json.dumps({"harness": repr(e)}).encode()
            k = 0
            while k < len(b): k += os.write(wr, b[k:])
            os._exit(0)
        os.close(wr)
        b = b""
        end = time.time() + 60
        while True:
            r, _, _ = select.select([rd], [], [], max(0, end - time.time()))
            if not r:
                os.kill(pid, signal.SIGKILL); b = b'{"harness": "timeout"}'; break
            x = os.read(rd, 65536)
            if not x: break
            b += x
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        if not b: b = json.dumps({"harness": "child ended with %d" % st}).encode()
        out.write(struct.pack("<I", len(b)) + b); out.flush()
class Server:
    def __init__(self, hashseed, loc):
        e = {k: v for k, v in os.environ.items() if not k.startswith("LC_") and k != "LANG"}
        e.update(PYTHONHASHSEED=str(hashseed), LC_ALL=loc, PYTHONDONTWRITEBYTECODE="1", PYTHONCOERCECLOCALE="0", PYTHONUTF8="0")
        self.p = subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), "server"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e)
    def run(self, c, wd):
        lay(c, wd)
        b = json.dumps({"case": c, "wd": wd}).encode()
        self.p.stdin.write(struct.pack("<I", len(b)) + b); self.p.stdin.flush()
        h = self.p.stdout.read(4)
        return json.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))
    def stop(self): self.p.stdin.close(); self.p.wait()
LOCALES = ["C.UTF-8", "C", "POSIX", "C.UTF-8"]
def servers(k):
    return Server(0, "C.UTF-8"), Server(1 + k * 7919 % 100000, LOCALES[k % 4])
def judge(c, ref, got):
    for x in (ref, got):
        if "harness" in x:
            if x["harness"] == "timeout": return "the script does not end"
            raise RuntimeError(x["harness"])
    if ref["hang"]: return None # a faultless input that does not end is not this property's business
    if got["hang"]: return "the script does not end" + why(c)
    if ref["status"] != 0: # the input itself is refused
        if got["status"] == 0: return "exit status 0 for an input that was refused" if not got["fired"] and not cut(c) else None
        return None
    if got["status"] == 0:
        if cut(c):
            if got["out"] == ref["out"]: return None
            f, k = cut(c)[0][1:]
            t = c["files"][f]
            end = max(t.rfind("</wordlist>") + 11, t.rfind("</autocorrect>") + 14)
            return "exit status 0 although the input ends early" if k < end else None
        lost = [f[0] for f in got["fired"] if f[0] != "open"] # a file that cannot be opened may be an optional one
        if lost and got["out"] == ref["out"]: return "exit status 0 although a %s error happened" % lost[0]
        if got["out"] != ref["out"]:
            if got["fired"]: return "exit status 0 although a %s error made the output wrong" % got["fired"][0][0]
            return "the output depends on the hash seed, the locale or the size of reads and writes"
        return None
    if not got["fired"] and not cut(c): return "exit status %d without any error: %s" % (got["status"], got["err"])
    return None
def cut(c): return [f for f in c["faults"] if f[0] == "cut"]
def why(c): return " when the input ends early" if cut(c) else " after a %s error" % c["faults"][0][0] if c["faults"] else ""
def clean(c): d = json.loads(json.dumps(c)); d["faults"] = []; d["short"] = 0; return d
def kind(v): return re.sub(r"[0-9]+", "N", re.sub(r":.*", "", v)) if v else None

def worker(seed, w, n, until, path):
    wd = "%s/w%d" % (B, w)
    t = dict(runs=0, steps=0, with_faults=0, replayed=0, distinct=0, violation=None, replay=None, sample="", fired={}, scripts={}, combos=0)
    seen = set()
    i, k = w, seed * 131 + w
    a, b = servers(k)
    while time.time() < until and not os.path.exists(B + "/found"):
        if t["runs"] and t["runs"] % 30 == 0:
            b.stop(); a.stop(); k += n; t["combos"] += 1
            a, b = servers(k)
        c = generate(seed * 1000003 + i)
        c["env"] = k
        ref, got = a.run(clean(c), wd), b.run(c, wd)
        t["runs"] += 1
        try: v = judge(c, ref, got)
        except RuntimeError as e: t["error"] = "seed %d: %s" % (c["seed"], e); break
        t["steps"] += got.get("steps", 0)
        t["scripts"][c["script"]] = t["scripts"].get(c["script"], 0) + 1
        if got.get("fired") or cut(c): t["with_faults"] += 1
        for f in got.get("fired", []) + cut(c):
            key = f[0] + ("" if f[0] == "cut" else " " + f[1]); t["fired"][key] = t["fired"].get(key, 0) + 1
        if got.get("fired") or cut(c) or c["short"]: seen.add(json.dumps([c["script"], got.get("io"), c["faults"], c["short"]]))
        if not t["sample"] and got.get("fired"): t["sample"] = text(dict(c, files={f: x[:200] for f, x in c["files"].items()}))
        if t["runs"] % 25 == 0 and not v:
            again = b.run(c, wd); t["replayed"] += 1
            if again != got: t["error"] = "seed %d is not repeatable" % c["seed"]; break
        if v:
            open(B + "/found", "w").close()
            again = judge(c, a.run(clean(c), wd), b.run(c, wd))
            if kind(again) != kind(v): t["error"] = "violation of seed %d is not repeatable" % c["seed"]; break
            end = time.time() + 15
            def attempt(d):
                nonlocal c, v
                x = judge(d, a.run(clean(d), wd), b.run(d, wd))
                if x and kind(x) == kind(v): c, v = d, x; return True
                return False
            for f in list(c["faults"]):
                d = json.loads(json.dumps(c)); d["faults"].remove(f); attempt(d)
            if c["short"]:
                d = json.loads(json.dumps(c)); d["short"] = 0; attempt(d)
            if not cut(c):
                for f in sorted(c["files"]): # fewer words
                    while time.time() < end:
                        parts = re.findall(r"<word id.*?</word>\n", c["files"][f], re.S)
                        for p in parts:
                            d = json.loads(json.dumps(c)); d["files"][f] = c["files"][f].replace(p, "", 1)
                            if attempt(d) or time.time() > end: break
                        else: break
            t["violation"], t["replay"] = v, text(c)
            break
        i += n
    a.stop(); b.stop()
    shutil.rmtree(wd, ignore_errors=True)
    t["distinct"] = len(seen)
    json.dump(t, open(path, "w"))

def opt(name, default=None): return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default
def check():
    seed, budget, tier, ev = int(opt("--seed", "1")), float(opt("--budget", "45")), opt("--tier", "quick"), opt("--evidence", V + "/evidence/C17.json")
    begin = time.time()
    os.makedirs(B, exist_ok=True)
    n = max(1, min(8, os.cpu_count() or 1))
    ps = []
    if os.path.exists(B + "/found"): os.unlink(B + "/found")
    for w in range(n):
        path = "%s/r%d.json" % (B, w)
        if os.path.exists(path): os.unlink(path)
        ps.append((subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), "worker", str(seed), str(w), str(n), str(begin + budget), path]), path))
    parts = []
    for p, path in ps:
        p.wait()
        if os.path.exists(path): parts.append(json.load(open(path)))
    err = [x["error"] for x in parts if x.get("error")]
    bad = [x for x in parts if x["violation"]]
    wall = time.time() - begin
    T = lambda k: sum(x[k] for x in parts)
    def merge(k):
        m = {}
        for x in parts:
            for a, b in x[k].items(): m[a] = m.get(a, 0) + b
        return m
    if parts:
        json.dump({"property": "C17", "tier": tier, "seed": seed, "level": "fault_enumeration", "wall_s": round(wall, 1), "violations": len(bad[:1]), "coverage": {
            "evaluations": T("runs"), "distinct_nontrivial": T("distinct"),
            "rule": "each run: one generator script with seeded inputs and options on simulated files with at most one seeded fault, in an interpreter with a seeded hash seed and locale, against a faultless run with hash seed 0; non-trivial: a fault fired, the input was cut or transfers were short; distinct by script, numbers of I/O calls, fault and transfer size",
            "samples": [x["sample"] for x in parts if x["sample"]][:2], "simulated_runs_per_hour": int(T("runs") / wall * 3600), "seeds_per_hour": int(T("runs") / wall * 3600),
            "io_steps": T("steps"), "simulated_time": "the code has no clock; simulated time is counted in I/O steps", "runs_with_injected_faults": T("with_faults"), "faults_injected": merge("fired"), "scripts": merge("scripts"),
            "interpreter_environments": T("combos") + len(parts), "runs_repeated_and_found_identical": T("replayed"),
            "components": "real: the generator scripts, their modules in voikko-fi/common, CPython's buffered and text I/O. stub: raw files (SimRaw), exit of the interpreter (module contents dropped, errors in finalisers ignored as CPython does), the vocabulary"}}, open(ev, "w"), indent=1)
    print("seed %d property C17 tier %s\n%d runs (%d distinct nontrivial), %d with faults, %.1f s" % (seed, tier, T("runs"), T("distinct"), T("with_faults"), wall))
    if bad:
        os.makedirs(V + "/replays", exist_ok=True)
        dst = "%s/replays/C17-%d.txt" % (V, seed)
        open(dst, "w").write(bad[0]["replay"] + "violation " + bad[0]["violation"].replace("\n", " ") + "\n")
        print("violation: " + bad[0]["violation"])
        print("VIOLATION property=C17 replay=" + dst)
        return 1
    for e in err: print(e)
    return 3 if err or len(parts) < n else 0
if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "server": server()
    elif cmd == "worker": worker(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), sys.argv[6])
    elif cmd == "check": sys.exit(check())
    elif cmd == "replay":
        os.makedirs(B, exist_ok=True)
        c = parse(open(sys.argv[2], encoding="utf-8").read())
        a, b = servers(c.get("env", 1))
        wd = "%s/replay%d" % (B, os.getpid())
        ref, got = a.run(clean(c), wd), b.run(c, wd)
        a.stop(); b.stop()
        shutil.rmtree(wd, ignore_errors=True)
        print("arguments %s\nfaults %s\nstatus %s hang %s fired %s" % (c["argv"], c["faults"], got.get("status"), got.get("hang"), got.get("fired")))
        print("output %s" % {k: len(v) for k, v in got.get("out", {}).items()}); print("wanted %s" % {k: len(v) for k, v in ref.get("out", {}).items()})
        if got.get("err"): print("stderr: " + got["err"].strip())
        v = judge(c, ref, got)
        print("violation: " + v if v else "no violation")
        sys.exit(1 if v else 0)
    elif cmd == "det":
        os.makedirs(B, exist_ok=True)
        a, b = servers(5)
        for i in range(int(sys.argv[3])):
            c = generate(int(sys.argv[2]) + i)
            g, r = b.run(c, B + "/det"), a.run(clean(c), B + "/det")
            print(i, c["script"], g.get("status"), g.get("io"), g.get("fired"), r.get("status"), r.get("err", "")[:150].strip(), judge(c, r, g), g.get("harness", ""))
        shutil.rmtree(B + "/det")
