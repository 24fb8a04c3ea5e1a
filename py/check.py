#!/usr/bin/env python3
"""C14: the Python class of /repo over a stub native library (stub.c, loaded through the class's own search path), under seeded
schedules of threads, garbage collections, interrupts and failing native calls."""
import ast, builtins, ctypes, gc, hashlib, json, os, random, select, shutil, signal, struct, subprocess, sys, threading, time, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = V + "/build/py"
SRC = REPO + "/libvoikko/python/libvoikko.py"
FILE = "libvoikko.py under simulation"

def build():
    os.makedirs(B, exist_ok=True)
    out = B + "/libvoikko.so.1"
    src = V + "/py/stub.c"
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", out + ".new", src])
        os.rename(out + ".new", out)

# ---------------------------------------------------------------- reference: what the stub answers
M32 = 0xffffffff
def mix(h, v):
    h = ((h ^ (v & M32)) * 16777619) & M32
    return h ^ (h >> 13)
class Model:
    def __init__(self, lang, path):
        self.lang, self.path, self.options = lang, path, [0] * 32
    def state(self):
        x = 2166136261
        for c in self.lang.encode(): x = mix(x, c)
        for c in self.path.encode(): x = mix(x, c)
        for o in self.options: x = mix(x, o)
        return x
    def hw(self, f, w):
        x = mix(self.state(), f)
        for c in w: x = mix(x, ord(c))
        return x
    def spell(self, w): return bool(self.hw(1, w) & 1)
    def suggest(self, w):
        x = self.hw(2, w)
        return ["%s\u00e4%d-%08x" % (w[:200], i, x) for i in range(x % 4)]
    def errors(self, t, lang):
        x = self.hw(3, t)
        r = []
        for k in range(x % 4 if t else 0):
            y = mix(x, k)
            code = 1 + y % 18
            r.append((code, k, 1 + (y >> 8) % 3, "" if code % 6 == 0 else "selitys %s %d \u00e4" % (lang or "(null)", code), ["ehdotus\u00f6%d-%08x" % (i, y) for i in range((y >> 16) % 3)]))
        return r
    def pattern(self, w):
        x = self.hw(4, w)
        s = ""
        for i in range(len(w)):
            x = mix(x, i)
            s += " " if x % 3 else "-"
        return s
    def hyphenate(self, w, sep, ctx):
        x = mix(self.hw(5, w), 1 if ctx else 0)
        s = ""
        for i, c in enumerate(w):
            x = mix(x, i)
            if i and x % 3 == 0: s += sep
            s += c
        return s
    def analyze(self, w):
        x = self.hw(6, w)
        return [{k: "%s=%d.%d" % (w[:200], i, j) if mix(x, i * 8 + j) % 6 else "" for j, k in enumerate(["CLASS", "STRUCTURE", "BASEFORM", "WEIGHT"][:mix(x, i) % 5])} for i in range(x % 3)]
    def tokens(self, t):
        r = []
        def cls(c): return 3 if c in " \n\t" else 2 if c in ".,-" else 4 if ord(c) > 0x2000 else 1
        i = 0
        while i < len(t):
            if t[i] == "\0":
                r.append(("\0", 4)); i += 1; continue
            c, j = cls(t[i]), i + 1
            if c in (1, 3):
                while j < len(t) and t[j] != "\0" and cls(t[j]) == c: j += 1
            r.append((t[i:j], c)); i = j
        return r
    def sentences(self, t):
        r = []
        while t:
            i = 0
            while i < len(t) and t[i] != ".": i += 1
            while i < len(t) and t[i] in ". ": i += 1
            if i >= len(t):
                r.append((t, 0)); break
            r.append((t[:i], 1 + self.hw(7, t) % 3)); t = t[i:]
        return r
    def attributeValues(self, n):
        return ["%s_\u00e4%d" % (n, i) for i in range(self.state() % 4)] if n in ("CLASS", "NUMBER") else None

# ---------------------------------------------------------------- cases
WORDS = ["koira", "kissa", "a", "yö", "auto-onnettomuus", "CLASS", "NUMBER", "ääni", "x\0y", "", "pitkä sana", "a\nb", "Koira juoksee.\nKissa ei. Hauva on.", "s\U0001f600t", "\u20ac5", "k" * 256, "ä" * 130,
         "a. b. c.", "\0", "s\0t u\0", "Ei. On. Voi\0 Se. Me", "\n\n"]
BADLANG = ["\ud800", 5, "fi\udcff"]
METHODS = ["spell", "suggest", "grammarErrors", "analyze", "tokens", "sentences", "getHyphenationPattern", "hyphenate", "hyphenate3", "attributeValues", "bool", "int", "strategy", "rawbool", "rawint",
           "terminate", "terminate", "drop", "cycle", "new", "listDicts", "listSpell", "listHyph", "listGram", "version"]
BOOLS = {"setIgnoreDot": 0, "setIgnoreNumbers": 1, "setIgnoreUppercase": 3, "setNoUglyHyphenation": 4, "setAcceptFirstUppercase": 6, "setAcceptAllUppercase": 7, "setIgnoreNonwords": 10,
         "setAcceptExtraHyphens": 11, "setAcceptMissingHyphens": 12, "setAcceptTitlesInGc": 13, "setAcceptUnfinishedParagraphsInGc": 14, "setHyphenateUnknownWords": 15, "setAcceptBulletedListsInGc": 16}
SEPARATORS = ["\u00ad", "-", "\u00ad\0-", "", "&shy;", "\u00e4", "="]
STATIC = {"listDicts", "listSpell", "listHyph", "listGram", "version"}

class Case: pass
def generate(seed):
    r = random.Random("C14 %d" % seed)
    c = Case()
    c.seed = seed
    c.threads = r.choice([1, 1, 2, 3])
    c.mean = r.choice([3, 6, 15, 40, 150])
    c.ops, c.faults, c.ints, c.gcs, c.sched = [], [], [], [], None
    k = 0
    for t in range(c.threads):
        slots = r.randint(1, 3)
        for s in range(slots if r.random() < .7 else 1): c.ops.append([k, t, s, "new", r.choice(["fi", "se", "xx", "fi", "fi"]) + r.choice(["", "", "@/p", "@/polku", "@b"])]); k += 1
        noTerm = r.random() < .3
        for i in range(r.randint(1, 9)):
            m = r.choice(METHODS)
            if m in ("terminate", "drop", "cycle") and (noTerm or r.random() < .4): m = "spell"
            a = r.choice(WORDS)
            if m == "new": a = r.choice(["fi", "se", "xx"])
            elif m == "bool": a = r.choice(sorted(BOOLS)) + "=" + r.choice(["0", "1"])
            elif m == "int": a = r.choice(["setMinHyphenatedWordLength=", "setSpellerCacheSize="]) + str(r.randint(-1, 5))
            elif m == "strategy": a = r.choice("019")
            elif m == "rawbool": a = "%d=%d" % (r.choice([0, 4, 16, 40, -1]), r.randint(0, 1))
            elif m == "rawint": a = "%d=%d" % (r.choice([9, 17, 3]), r.randint(0, 9))
            elif m in STATIC: a = r.choice(["", "/", "/p", "/po"])
            c.ops.append([k, t, r.randrange(slots), m, a]); k += 1
    n = 12 * k
    if r.random() < .5: c.faults = sorted({r.randint(1, n // 2 + 4) for _ in range(r.randint(1, 3))})
    if r.random() < .5: c.gcs = sorted({r.randint(1, 40 * k) for _ in range(r.randint(1, 4))})
    if r.random() < .25: c.ints = sorted({r.randint(1, 40 * k) for _ in range(r.randint(1, 2))})
    return c
def text(c):
    s = "property C14\nparam tool python\nseed %d\nthreads %d\nmean %d\n" % (c.seed, c.threads, c.mean)
    for f in c.faults: s += "fault native-call-fails %d\n" % f
    for f in c.gcs: s += "fault garbage-collection %d\n" % f
    for f in c.ints: s += "fault interrupt %d\n" % f
    if c.sched is not None: s += "sched " + " ".join("%d:%d" % x for x in sorted(c.sched.items())) + "\n"
    for o in c.ops: s += "op %d %d %d %s %s\n" % (o[0], o[1], o[2], o[3], json.dumps(o[4]))
    return s
def parse(t):
    c = Case()
    c.ops, c.faults, c.gcs, c.ints, c.sched = [], [], [], [], None
    for l in t.split("\n"):
        w = l.split(" ")
        if w[0] == "seed": c.seed = int(w[1])
        elif w[0] == "threads": c.threads = int(w[1])
        elif w[0] == "mean": c.mean = int(w[1])
        elif w[0] == "fault": {"native-call-fails": c.faults, "garbage-collection": c.gcs, "interrupt": c.ints}[w[1]].append(int(w[2]))
        elif w[0] == "sched": c.sched = {int(x.split(":")[0]): int(x.split(":")[1]) for x in w[1:] if x}
        elif w[0] == "op": c.ops.append([int(w[1]), int(w[2]), int(w[3]), w[4], json.loads(" ".join(w[5:]))])
    return c

# ---------------------------------------------------------------- simulator
class Violation(BaseException): pass
class Over(BaseException): pass
class Sim:
    """Threads pass a baton at the points where CPython lets other things happen: after calls, on backward jumps, at function entry."""
    def __init__(self, c):
        self.c = c
        self.r = random.Random("sched %d" % c.seed)
        self.step = self.switches = self.collections = self.interrupts = 0
        self.taken = {}
        self.locks = [threading.Semaphore(0) for _ in range(c.threads)]
        self.done = [False] * c.threads
        self.cur = 0
        self.violation = None
        self.over = False
        self.finished = threading.Semaphore(0)
        self.hash = hashlib.sha1()
        self.opOf = [0] * c.threads
        self.interrupted = set()
        self.active = [False] * c.threads
        self.blocked = {}
        self.inside = False
    def fail(self, m):
        if not self.violation: self.violation = m
        self.over = True
        raise Violation()
    def runnable(self): return [t for t in range(self.c.threads) if not self.done[t] and not (t in self.blocked and not self.blocked[t]())]
    def to(self, t):
        me = self.cur
        if t == me: return
        self.switches += 1
        self.cur = t
        lib.stub_op(self.opOf[t])
        self.locks[t].release()
        self.locks[me].acquire()
        if self.over: raise Over()
    def point(self, where):
        if self.over: raise Over()
        self.step += 1
        if self.step > 200000: self.fail("no end after %d steps" % self.step)
        self.hash.update(("%d %d;" % (self.cur, where)).encode())
        if self.step in self.c.gcs:
            self.collections += 1
            self.inside = True
            gc.collect()
            self.inside = False
        can = self.runnable()
        if self.c.sched is not None:
            t = self.c.sched.get(self.step)
            if t in can: self.taken[self.step] = t; self.to(t)
        elif len(can) > 1 and self.r.randrange(self.c.mean) == 0:
            t = self.r.choice([x for x in can if x != self.cur] or can)
            self.taken[self.step] = t
            self.to(t)
        if self.step in self.c.ints:
            self.interrupts += 1
            self.interrupted.add(self.opOf[self.cur])
            raise KeyboardInterrupt()
    def wait(self, ready):
        """Blocks the running thread in a lock of the code under test."""
        while not ready():
            me = self.cur
            self.blocked[me] = ready
            can = self.runnable()
            if not can: self.fail("deadlock")
            self.to(self.r.choice(can))
            self.blocked.pop(me, None)
class Points(ast.NodeTransformer):
    """Puts a point after every call, at the start of every function and in every loop: where CPython lets other things happen."""
    n = 0
    def pt(self, value):
        self.n += 1
        return ast.Call(func=ast.Name(id="sim_point", ctx=ast.Load()), args=[value, ast.Constant(self.n)], keywords=[])
    def visit_Call(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.pt(node), node)
    def stmt(self): return ast.Expr(value=self.pt(ast.Constant(None)))
    def visit_FunctionDef(self, node):
        node.body = [self.visit(x) for x in node.body]
        doc = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(doc, self.stmt())
        return node
    def loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, self.stmt())
        return node
    visit_While = visit_For = loop
def sim_point(value, n):
    s = current
    if s is not None and not s.inside and s.active[s.cur]: s.point(n)
    return value

class SimLock:
    reentrant = False
    def __init__(self): self.owner, self.n = None, 0
    def acquire(self, blocking=True, timeout=-1):
        s = current
        if s is None or s.inside: self.n += 1; return True
        me = s.cur
        free = lambda: self.n == 0 or (self.reentrant and self.owner == me)
        if not free():
            if not blocking: return False
            s.wait(free)
        self.owner = me; self.n += 1
        return True
    def release(self):
        if self.n == 0: raise RuntimeError("release unlocked lock")
        self.n -= 1
    def locked(self): return self.n > 0
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()
class SimRLock(SimLock): reentrant = True
shim = types.ModuleType("threading")
shim.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
shim.Lock, shim.RLock = SimLock, SimRLock

lib = None
code = None
current = None
def load():
    """A fresh copy of the module under test; only its import of threading is redirected."""
    global lib, code
    if lib is None:
        lib = ctypes.CDLL(B + "/libvoikko.so.1")
        lib.stub_violation.restype = lib.stub_fired_name.restype = lib.stub_kind.restype = ctypes.c_char_p
        tree = ast.parse(open(SRC, encoding="utf-8").read(), FILE)
        code = compile(ast.fix_missing_locations(Points().visit(tree)), FILE, "exec")
    m = types.ModuleType("libvoikko")
    real = builtins.__import__
    b = dict(builtins.__dict__)
    b["__import__"] = lambda name, *a: shim if name == "threading" else real(name, *a)
    m.__dict__["__builtins__"] = b
    m.__dict__["__file__"] = FILE
    m.__dict__["sim_point"] = sim_point
    exec(code, m.__dict__)
    m.Voikko.setLibrarySearchPath(B)
    return m

class Obj:
    def __init__(self, v, model): self.v, self.model, self.dead, self.leak = v, model, False, False
class Ring: pass

def run(c):
    global current
    gc.collect(); gc.disable()
    m = load()
    arr = (ctypes.c_int * max(1, len(c.faults)))(*c.faults)
    lib.stub_reset(arr, len(c.faults))
    s = Sim(c)
    slots = {}
    notes = []
    unraisable = []
    old = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append("%s in %s" % (type(u.exc_value).__name__, getattr(u.object, "__qualname__", "?")))

    def vcheck():
        v = lib.stub_violation().decode()
        if v: s.fail(v)
    def one(op):
        k, t, slot, what, arg = op
        key = (t, slot)
        o = slots.get(key)
        if what != "new" and what not in STATIC and o is None: return
        s.opOf[t] = k + 1
        lib.stub_op(k + 1)
        want, got, exc = None, None, None
        dead = o is not None and o.dead
        inval = what not in STATIC and ("\0" in arg or (what == "hyphenate3" and "\0" in SEPARATORS[k % 7]))
        s.active[t] = True
        try:
            try:
                if what == "new":
                    lang, _, path = arg.partition("@")
                    p = {"": None, "b": b"/b"}.get(path, path)
                    slots.pop(key, None)
                    o = None
                    v = m.Voikko(lang, p) if len(arg) % 2 else m.Voikko(language=lang, path=p)
                    slots[key] = Obj(v, Model(lang, "/b" if path == "b" else path or "(null)"))
                    v = None
                elif what == "terminate": o.v.terminate()
                elif what in ("drop", "cycle"):
                    if what == "cycle":
                        r = Ring(); r.me = r; r.v = o.v; r = None
                    slots.pop(key)
                    o.v = None
                elif what == "spell": got = o.v.spell(arg)
                elif what == "suggest": got = o.v.suggest(arg)
                elif what == "grammarErrors": got = [(e.errorCode, e.startPos, e.errorLen, e.shortDescription, list(e.suggestions)) for e in o.v.grammarErrors(arg, BADLANG[k % 3] if k % 7 == 3 else "fi" if k % 2 else "en")]
                elif what == "analyze": got = o.v.analyze(arg)
                elif what == "tokens": got = [(x.tokenText, x.tokenType) for x in o.v.tokens(arg)]
                elif what == "sentences": got = [(x.sentenceText, x.nextStartType) for x in o.v.sentences(arg)]
                elif what == "getHyphenationPattern": got = o.v.getHyphenationPattern(arg)
                elif what == "hyphenate": got = o.v.hyphenate(arg)
                elif what == "hyphenate3": got = o.v.hyphenate(arg, SEPARATORS[k % 7], k % 3 == 0)
                elif what == "attributeValues": got = o.v.attributeValues(arg)
                elif what == "bool": n, x = arg.split("="); getattr(o.v, n)(x == "1")
                elif what == "int": n, x = arg.split("="); getattr(o.v, n)(int(x))
                elif what == "strategy": o.v.setSuggestionStrategy(int(arg))
                elif what == "rawbool": n, x = arg.split("="); o.v.setBooleanOption(int(n), x == "1")
                elif what == "rawint": n, x = arg.split("="); o.v.setIntegerOption(int(n), int(x))
                elif what == "listDicts": got = [(d.language, d.script, d.variant, d.description) for d in m.Voikko.listDicts(arg or None)]
                elif what == "listSpell": got = m.Voikko.listSupportedSpellingLanguages(arg or None)
                elif what == "listHyph": got = m.Voikko.listSupportedHyphenationLanguages(arg or None)
                elif what == "listGram": got = m.Voikko.listSupportedGrammarCheckingLanguages(arg or None)
                elif what == "version": got = m.Voikko.getVersion()
            finally:
                s.active[t] = False
                if s.over: raise Over()
        except (Violation, Over): raise
        except BaseException as e:
            exc = e
            name, msg = type(e).__name__, str(e)
            e.__traceback__ = None
        vcheck()
        fault = lib.stub_faulted(k + 1) != 0
        inter = k + 1 in s.interrupted
        notes.append("op %d %s %s -> %s" % (k, what, json.dumps(arg), json.dumps(got) if exc is None else name + ": " + msg))
        label = "%s(%s)" % (what, json.dumps(arg))
        if inter:
            if what == "terminate": o.dead = None # either state is right, but it has to be one of the two
            elif what in ("bool", "rawbool", "int", "rawint", "strategy"): o.model = None
            exc = None
            return
        if what == "new":
            if exc is None and (fault or arg.startswith("xx")): s.fail("initialisation failed and no exception was raised")
            if exc is not None:
                if not fault and not arg.startswith("xx"): s.fail("initialisation raised %s: %s" % (name, msg))
                if name != "VoikkoException" or "Alustus ep\u00e4onnistui" not in msg: s.fail("failed initialisation raised %s: %s" % (name, msg))
            return
        if what == "terminate":
            if exc is not None and o.dead is not None: s.fail("terminate raised %s: %s" % (name, msg))
            o.dead = True
            return
        if what in ("drop", "cycle"):
            if exc is not None: s.fail("%s raised %s" % (what, name))
            return
        st = what in STATIC
        if not st and dead is None: # after an interrupted terminate
            if exc is not None and name == "VoikkoException": o.dead = True; return
            if exc is None and not inval and arg: o.dead = dead = False
        if what == "grammarErrors" and k % 7 == 3 and (exc is None and got == [] or exc is not None and name in ("UnicodeEncodeError", "ArgumentError", "TypeError", "ValueError")): return # an impossible language
        if not st and dead:
            if exc is None and (inval or (what in ("tokens", "sentences") and not arg)): return
            if exc is None and what == "strategy" and arg == "9": return
            if exc is None: s.fail("%s on a terminated object raised no exception" % label)
            if name != "VoikkoException": s.fail("%s on a terminated object raised %s: %s" % (label, name, msg))
            return
        if fault:
            if exc is not None and name not in ("VoikkoException",): s.fail("%s raised %s: %s when a native call failed" % (label, name, msg))
            if what in ("spell", "bool", "int", "rawbool", "rawint", "strategy") and exc is None: s.fail("%s raised no exception when the native call failed" % label)
            if what == "suggest" and exc is None and got != []: s.fail("%s returned %r when the native call failed" % (label, got))
            return
        mod = None if st else o.model
        if what in ("bool", "int", "rawbool", "rawint", "strategy"):
            if what == "strategy": no, x = 8, {"0": 1, "1": 2}.get(arg)
            else:
                n, x = arg.split("=")
                no = int(n) if what.startswith("raw") else BOOLS[n] if what == "bool" else 9 if n.startswith("setMin") else 17
                x = int(x) + (1 if what in ("bool", "rawbool") else 0)
            ok = x is not None and (no in (9, 17) if what in ("int", "rawint") else 0 <= no <= 16)
            if ok and exc is not None: s.fail("%s raised %s: %s" % (label, name, msg))
            if not ok and (exc is None or name != "VoikkoException"): s.fail("%s of an unknown option raised %s" % (label, name if exc else "nothing"))
            if ok and mod: mod.options[no] = x
            return
        long_ = what in ("hyphenate", "hyphenate3") and len(arg.encode()) > 255 # the native library refuses
        if exc is not None and not (long_ and name == "VoikkoException"): s.fail("%s raised %s: %s" % (label, name, msg))
        if long_ or (mod is None and not st): return
        if what == "spell": want = False if inval else mod.spell(arg)
        elif what == "suggest": want = [] if inval else mod.suggest(arg)
        elif what == "grammarErrors":
            want, off = [], 0
            for par in [] if inval else arg.split("\n"):
                want += [(e[0], e[1] + off) + e[2:] for e in mod.errors(par, "fi" if k % 2 else "en")]
                off += len(par) + 1
            if k % 7 == 3 and want: s.fail("%s in an impossible language returned %r" % (label, got))
        elif what == "analyze": want = [] if inval else mod.analyze(arg)
        elif what == "tokens": want = mod.tokens(arg)
        elif what == "sentences": want = [(arg, 0)] if inval else mod.sentences(arg)
        elif what == "getHyphenationPattern": want = " " * len(arg) if inval else mod.pattern(arg)
        elif what == "hyphenate": want = arg if inval else mod.hyphenate(arg, "-", True)
        elif what == "hyphenate3": want = arg if inval else mod.hyphenate(arg, SEPARATORS[k % 7], k % 3 == 0)
        elif what == "attributeValues": want = None if inval else mod.attributeValues(arg)
        elif what == "listDicts": want = [("lang-l%d" % i, "scr-l%d" % i, "var-l%d" % i, "\u00e4-l%d" % i) for i in range(len(arg) % 4)]
        elif what in ("listSpell", "listHyph", "listGram"): want = ["%s%d" % (what[4].lower(), i) for i in range(len(arg) % 4)]
        elif what == "version": want = "4.3-stub"
        if what == "attributeValues" and not got and not want: return # no list or an empty list
        if got != want: s.fail("%s returned %r and the native library answered %r" % (label, got, want))
    def body(t):
        s.locks[t].acquire()
        try:
            if not s.over:
                for op in c.ops:
                    if op[1] == t: one(op)
        except (Violation, Over): pass
        except BaseException as e:
            if not s.violation: s.violation = "harness: " + repr(e)
            s.over = True
        s.done[t] = True
        rest = [x for x in range(c.threads) if not s.done[x]]
        if s.over or not rest:
            s.over = s.over or False
            for x in rest: s.locks[x].release()
            if not rest: s.finished.release()
            return
        can = s.runnable()
        if not can:
            s.violation = s.violation or "deadlock"; s.over = True
            for x in rest: s.locks[x].release()
            return
        s.cur = can[0] if c.sched is None else can[0]
        lib.stub_op(s.opOf[s.cur])
        s.locks[s.cur].release()
    current = s
    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(c.threads)]
    for th in ths: th.start()
    s.locks[0].release()
    for th in ths: th.join()
    current = None
    if not s.violation:
        try:
            s.opOf = [0] * c.threads
            lib.stub_op(0)
            slots.clear()
            gc.collect()
            v = lib.stub_violation().decode()
            if v: s.fail(v)
            left = []
            i = 0
            kind, o = ctypes.c_int(), ctypes.c_int()
            while True:
                i = lib.stub_left(i, ctypes.byref(kind), ctypes.byref(o))
                if i < 0: break
                i += 1
                if o.value in s.interrupted: continue
                left.append(lib.stub_kind(kind.value).decode())
            if any(x == "handle" for x in left) and not s.interrupted: s.fail("a handle was never terminated although its object is gone")
            left = [x for x in left if x != "handle"]
            if left: s.fail("%s returned by the native library was never freed" % left[0])
            if unraisable and not s.interrupted: s.fail("deletion of an object raised " + unraisable[0])
        except Violation: pass
    sys.unraisablehook = old
    s.notes = notes
    return s

# ---------------------------------------------------------------- running in children, so that a crash is only a result
def summary(c, s):
    return {"violation": s.violation, "steps": s.step, "switches": s.switches, "collections": s.collections, "interrupts": s.interrupts, "fired": lib.stub_fired(), "calls": lib.stub_calls(),
            "taken": sorted(s.taken.items()), "hash": s.hash.hexdigest(), "notes": s.notes}
class Child:
    """Runs cases one after another; restarted after a crash."""
    def __init__(self): self.p = None
    def start(self):
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), "child"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED="0"))
    def run(self, c):
        if self.p is None: self.start()
        b = text(c).encode("utf-8", "surrogatepass")
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b); self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], 30)
            h = self.p.stdout.read(4) if r else None
            if h is None: self.p.kill(); self.p.wait(); self.p = None; return {"violation": "the run does not end", "taken": [], "steps": 0, "switches": 0, "collections": 0, "interrupts": 0, "fired": 0, "calls": 0, "hash": "", "notes": []}
            if len(h) == 4: return json.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))
        except BrokenPipeError: pass
        rc = self.p.wait(); self.p = None
        return {"violation": "the process crashed with signal %d" % -rc if rc < 0 else "the process ended with status %d" % rc, "taken": [], "steps": 0, "switches": 0, "collections": 0, "interrupts": 0, "fired": 0, "calls": 0, "hash": "", "notes": []}
    def stop(self):
        if self.p: self.p.stdin.close(); self.p.wait(); self.p = None
def child():
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = inp.read(4)
        if len(h) < 4: return
        c = parse(inp.read(struct.unpack("<I", h)[0]).decode("utf-8", "surrogatepass"))
        s = run(c)
        b = json.dumps(summary(c, s)).encode()
        out.write(struct.pack("<I", len(b)) + b); out.flush()

def kind(v):
    import re
    return None if v is None else re.sub(r"[0-9]+", "N", re.sub(r"\(.*", "", v))
def copy(c): return parse(text(c))
def minimise(ch, c, viol, until):
    k = kind(viol)
    again = True
    def attempt(d):
        nonlocal c, again
        r = ch.run(d)
        if r["violation"] and kind(r["violation"]) == k:
            if d.sched is None and r["taken"]: d.sched = dict(map(tuple, r["taken"]))
            c = d; again = True
            return True
        return False
    while again and time.time() < until:
        again = False
        for i in reversed(range(len(c.ops))):
            if time.time() > until or i >= len(c.ops): break
            d = copy(c); del d.ops[i]
            if not attempt(d):
                for a in range(4):
                    d = copy(c); del d.ops[i]; d.sched = None; d.seed = c.seed * 31 + a + 1
                    if attempt(d): break
        for name in ("faults", "gcs", "ints"):
            for f in list(getattr(c, name)):
                d = copy(c); getattr(d, name).remove(f)
                attempt(d)
        for st in list(c.sched or {}):
            if time.time() > until: break
            d = copy(c); d.sched.pop(st)
            attempt(d)
    return c

def worker(seed, w, n, until, path):
    ch = Child()
    t = dict(runs=0, steps=0, switches=0, collections=0, interrupts=0, fired=0, calls=0, with_faults=0, replayed=0, distinct=0, ops={}, violation=None, replay=None, sample="")
    seen = set()
    i = w
    while time.time() < until:
        c = generate(seed * 1000003 + i)
        r = ch.run(c)
        t["runs"] += 1
        for k in ("steps", "switches", "collections", "interrupts", "fired", "calls"): t[k] += r[k]
        if r["fired"] or r["interrupts"] or r["collections"]: t["with_faults"] += 1
        for o in c.ops: t["ops"][o[3]] = t["ops"].get(o[3], 0) + 1
        if r["calls"] > 1 and (r["switches"] or r["fired"] or r["interrupts"] or r["collections"]): seen.add(r["hash"] + str(c.faults))
        if not t["sample"] and r["switches"] > 1: t["sample"] = text(c)
        if t["runs"] % 40 == 0 and not r["violation"]:
            q = ch.run(copy(c)); t["replayed"] += 1
            if q["hash"] != r["hash"] or q["notes"] != r["notes"]: t["error"] = "seed %d is not repeatable" % c.seed; break
        if r["violation"]:
            ch.stop()
            d = copy(c)
            q = ch.run(d)
            if kind(q["violation"]) != kind(r["violation"]): t["error"] = "violation of seed %d is not repeatable: %s / %s" % (c.seed, r["violation"], q["violation"]); break
            d.sched = dict(map(tuple, r["taken"])) if r["taken"] else None
            if d.sched is not None and kind(ch.run(d)["violation"]) != kind(r["violation"]): d = copy(c)
            d = minimise(ch, d, r["violation"], time.time() + 20)
            ch.stop()
            q = ch.run(d)
            t["violation"], t["replay"] = q["violation"] or r["violation"], text(d)
            break
        i += n
    ch.stop()
    t["distinct"] = len(seen)
    json.dump(t, open(path, "w"))

def opt(name, default=None): return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default
def check():
    seed, budget, tier, ev = int(opt("--seed", "1")), float(opt("--budget", "45")), opt("--tier", "quick"), opt("--evidence", V + "/evidence/C14.json")
    begin = time.time()
    build()
    n = max(1, min(8, os.cpu_count() or 1))
    ps = []
    for w in range(n):
        path = "%s/r%d.json" % (B, w)
        if os.path.exists(path): os.unlink(path)
        ps.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), "worker", str(seed), str(w), str(n), str(begin + budget), path]), path))
    parts = []
    for p, path in ps:
        p.wait()
        if os.path.exists(path): parts.append(json.load(open(path)))
    err = [x["error"] for x in parts if x.get("error")]
    bad = [x for x in parts if x["violation"]]
    wall = time.time() - begin
    T = lambda k: sum(x[k] for x in parts)
    ops = {}
    for x in parts:
        for a, b in x["ops"].items(): ops[a] = ops.get(a, 0) + b
    if parts:
        json.dump({"property": "C14", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": len(bad[:1]), "coverage": {
            "evaluations": T("runs"), "distinct_nontrivial": T("distinct"),
            "rule": "each run: 1-3 threads, each with up to 3 Voikko objects of its own, do seeded histories of calls, terminations and deletions; seeded thread switches, garbage collections, interrupts and failing native calls; non-trivial: more than one native call and at least one switch, collection, interrupt or failing call; distinct by the sequence of points passed and the faults",
            "samples": [x["sample"] for x in parts if x["sample"]][:2],
            "simulated_runs_per_hour": int(T("runs") / wall * 3600), "seeds_per_hour": int(T("runs") / wall * 3600), "scheduling_steps": T("steps"),
            "simulated_time": "the code has no clock; simulated time is counted in scheduling steps", "context_switches": T("switches"), "native_calls": T("calls"), "runs_with_injected_faults": T("with_faults"),
            "faults_injected": {"failing native calls": T("fired"), "garbage collections": T("collections"), "interrupts (KeyboardInterrupt)": T("interrupts")},
            "operations": ops, "runs_repeated_and_found_identical": T("replayed"),
            "components": "real: libvoikko.py and ctypes, loaded through the class's own library search path. stub: the native library (py/stub.c), the moments of garbage collection, signals and thread switches, threading locks"}}, open(ev, "w"), indent=1)
    print("seed %d property C14 tier %s\n%d runs (%d distinct nontrivial), %d with faults, %d steps, %d switches, %.1f s" % (seed, tier, T("runs"), T("distinct"), T("with_faults"), T("steps"), T("switches"), wall))
    if bad:
        os.makedirs(V + "/replays", exist_ok=True)
        dst = "%s/replays/C14-%d.txt" % (V, seed)
        open(dst, "w").write(bad[0]["replay"] + "violation " + bad[0]["violation"].replace("\n", " ") + "\n")
        print("violation: " + bad[0]["violation"])
        print("VIOLATION property=C14 replay=" + dst)
        return 1
    for e in err: print(e)
    return 3 if err or len(parts) < n else 0

if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "build": build()
    elif cmd == "child": child()
    elif cmd == "worker": worker(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5]), sys.argv[6])
    elif cmd == "check": sys.exit(check())
    elif cmd == "replay":
        build()
        c = parse(open(sys.argv[2], encoding="utf-8").read())
        if not c.ops: c = generate(c.seed)
        ch = Child()
        r = ch.run(c)
        for l in r["notes"]: print(l)
        print("steps %d switches %d hash %s" % (r["steps"], r["switches"], r["hash"]))
        print("violation: " + r["violation"] if r["violation"] else "no violation")
        sys.exit(1 if r["violation"] else 0)
    elif cmd == "det":
        build()
        ch = Child()
        for i in range(int(sys.argv[3])):
            r = ch.run(generate(int(sys.argv[2]) + i)); print(i, r["hash"], r["steps"], r["calls"], r["violation"])
