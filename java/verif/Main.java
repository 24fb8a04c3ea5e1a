package verif;

import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Java part of the C12 check: generates cases from seeds, runs them under Sim, checks and minimises. */
public final class Main {
    static final String COMPILED_PKG = "org.puimula.libvoikko.";
    static Map<String, byte[]> classes = new HashMap<>();

    static final class Loader extends ClassLoader {
        Loader() { super(Main.class.getClassLoader()); }
        @Override protected Class<?> loadClass(String n, boolean r) throws ClassNotFoundException {
            synchronized (getClassLoadingLock(n)) {
                Class<?> c = findLoadedClass(n);
                if (c == null && classes.containsKey(n)) { byte[] b = classes.get(n); c = defineClass(n, b, 0, b.length); }
                if (c != null) return c;
                return super.loadClass(n, r);
            }
        }
    }
    static final class Op {
        int id, thread, obj;
        String what, arg;
        Op(int id, int thread, int obj, String what, String arg) { this.id = id; this.thread = thread; this.obj = obj; this.what = what; this.arg = arg; }
        // outcome
        List<String> notes; String result; Throwable thrown; boolean fault, deadBefore, started; Stub.Handle handle;
    }
    static final class Case {
        long seed;
        int threads, objects, mean;
        String libName;
        List<Op> ops = new ArrayList<>();
        TreeSet<Integer> faults = new TreeSet<>();
        TreeMap<Long, Integer> sched; // null: random from seed
        Case copy() { try { return parse(text()); } catch (Exception e) { throw new RuntimeException(e); } }
        String text() {
            StringBuilder s = new StringBuilder("property C12\nparam tool java\nseed " + seed + "\nthreads " + threads + "\nobjects " + objects + "\nmean " + mean + "\nlibrary " + libName + "\n");
            for (int f : faults) s.append("fault native-call-fails " + f + "\n");
            if (sched != null) { s.append("sched"); for (Map.Entry<Long, Integer> e : sched.entrySet()) s.append(" " + e.getKey() + ":" + e.getValue()); s.append("\n"); }
            for (Op o : ops) s.append("op " + o.id + " " + o.thread + " " + o.obj + " " + o.what + " " + esc(o.arg) + "\n");
            return s.toString();
        }
        static Case parse(String t) {
            Case c = new Case();
            for (String l : t.split("\n")) {
                String[] w = l.split(" ");
                switch (w[0]) {
                case "seed": c.seed = Long.parseLong(w[1]); break;
                case "threads": c.threads = Integer.parseInt(w[1]); break;
                case "objects": c.objects = Integer.parseInt(w[1]); break;
                case "mean": c.mean = Integer.parseInt(w[1]); break;
                case "library": c.libName = w[1]; break;
                case "fault": c.faults.add(Integer.parseInt(w[2])); break;
                case "sched": c.sched = new TreeMap<>(); for (int i = 1; i < w.length; i++) { String[] p = w[i].split(":"); c.sched.put(Long.parseLong(p[0]), Integer.parseInt(p[1])); } break;
                case "op": c.ops.add(new Op(Integer.parseInt(w[1]), Integer.parseInt(w[2]), Integer.parseInt(w[3]), w[4], unesc(w.length > 5 ? w[5] : "%"))); break;
                default:
                }
            }
            return c;
        }
    }
    static String esc(String s) {
        if (s.isEmpty()) return "%";
        StringBuilder b = new StringBuilder();
        for (char c : s.toCharArray()) if (c <= ' ' || c == '%' || c > 126) b.append(String.format("%%%04x", (int) c)); else b.append(c);
        return b.toString();
    }
    static String unesc(String s) {
        if (s.equals("%")) return "";
        StringBuilder b = new StringBuilder();
        for (int i = 0; i < s.length(); i++) if (s.charAt(i) == '%') { b.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16)); i += 4; } else b.append(s.charAt(i));
        return b.toString();
    }

    static final String[] METHODS = {"spell", "suggest", "grammarErrors", "analyze", "tokens", "sentences", "getHyphenationPattern", "hyphenate", "hyphenate3", "attributeValues",
        "bool", "int", "strategy", "terminate", "listDicts", "spell", "hyphenate3", "attributeValues", "terminate"};
    static final String[] BOOLS = {"setIgnoreDot", "setIgnoreNumbers", "setIgnoreUppercase", "setAcceptFirstUppercase", "setAcceptAllUppercase", "setIgnoreNonwords", "setAcceptExtraHyphens",
        "setAcceptMissingHyphens", "setAcceptTitlesInGc", "setAcceptUnfinishedParagraphsInGc", "setAcceptBulletedListsInGc", "setNoUglyHyphenation", "setHyphenateUnknownWords"};
    static final int[] BOOLNO = {0, 1, 3, 6, 7, 10, 11, 12, 13, 14, 16, 4, 15};
    static final String[] WORDS = {"koira", "kissa", "a", "yö", "auto-onnettomuus", "CLASS", "\u00e4\u00e4ni", "x\0y", "", "pitkä sana", "a\nb", "Koira juoksee.\nKissa ei.", "s\ud83d\ude00t", "\u20ac5"};

    static Case generate(long seed) {
        Random r = new Random(seed * 0x9E3779B97F4A7C15L + 12345);
        Case c = new Case();
        c.seed = seed;
        c.threads = 1 + r.nextInt(4);
        c.objects = 1 + (r.nextInt(3) == 0 ? 1 : 0);
        int[] means = {2, 3, 5, 10, 30, 100};
        c.mean = means[r.nextInt(means.length)];
        c.libName = new String[] {"libvoikko.so.1", "voikko-1", "voikko"}[r.nextInt(3)];
        int id = 1;
        boolean pro = r.nextInt(4) != 0;
        for (int o = 0; o < c.objects; o++) c.ops.add(new Op(id++, pro ? -1 : r.nextInt(c.threads), o, "new", r.nextBoolean() ? "fi" : "se"));
        boolean noTerm = r.nextInt(4) == 0;
        for (int t = 0; t < c.threads; t++) {
            int n = 1 + r.nextInt(5);
            for (int i = 0; i < n; i++) {
                String m = METHODS[r.nextInt(METHODS.length)];
                if (m.equals("terminate") && (noTerm || r.nextInt(2) == 0)) m = "spell";
                String arg = WORDS[r.nextInt(WORDS.length)];
                if (m.equals("bool")) arg = BOOLS[r.nextInt(BOOLS.length)] + (r.nextBoolean() ? "=1" : "=0");
                else if (m.equals("int")) arg = (r.nextBoolean() ? "setMinHyphenatedWordLength=" : "setSpellerCacheSize=") + r.nextInt(5);
                else if (m.equals("strategy")) arg = r.nextBoolean() ? "OCR" : "TYPO";
                c.ops.add(new Op(id++, t, r.nextInt(c.objects), m, arg));
            }
        }
        if (r.nextInt(2) == 0) for (int i = 0; i < 1 + r.nextInt(3); i++) c.faults.add(1 + r.nextInt(25));
        return c;
    }

    // ---- execution
    static final ThreadLocal<Op> cur = new ThreadLocal<>();
    static Object[] objs;
    static Stub.Handle[] objHandle;
    static boolean[] terminating; // a call of terminate has begun
    static int currentOp() { Op o = cur.get(); return o == null ? 0 : o.id; }
    static void faultInOp() { Op o = cur.get(); if (o != null) o.fault = true; }
    static void note(String s) { Op o = cur.get(); if (o != null) o.notes.add(s); }
    static void created(Stub.Handle h) { Op o = cur.get(); if (o != null) o.handle = h; }

    static final class Outcome { String violation; boolean complete; TreeMap<Long, Integer> taken; long steps, switches, hash; int fired, calls, blockedOps; }

    static Object call(Class<?> c, Object o, String n, Class<?>[] t, Object... a) throws Throwable {
        try { Method m = c.getMethod(n, t); return m.invoke(o, a); }
        catch (InvocationTargetException e) { throw e.getCause(); }
    }
    static void runOp(Class<?> vc, Op op) {
        op.notes = new ArrayList<>();
        if (!op.what.equals("new") && !op.what.equals("listDicts") && objs[op.obj] == null) return;
        op.started = true;
        cur.set(op);
        Object o = objs[op.obj];
        Stub.Handle h = objHandle[op.obj];
        op.deadBefore = h != null && h.dead;
        Class<?>[] S = {String.class};
        try {
            Object r = null;
            switch (op.what) {
            case "new":
                try {
                    Object n = op.id % 2 == 0 ? vc.getConstructor(String.class).newInstance(op.arg) : vc.getConstructor(String.class, String.class).newInstance(op.arg, "/p");
                    objHandle[op.obj] = op.handle;
                    objs[op.obj] = n;
                } catch (InvocationTargetException e) { throw e.getCause(); }
                r = "new";
                break;
            case "grammarErrors": r = call(vc, o, op.what, new Class<?>[] {String.class, String.class}, op.arg, "fi"); break;
            case "hyphenate3": r = call(vc, o, "hyphenate", new Class<?>[] {String.class, String.class, boolean.class}, op.arg, "-", op.id % 2 == 0); break;
            case "bool": { String[] p = op.arg.split("="); call(vc, o, p[0], new Class<?>[] {boolean.class}, p[1].equals("1")); r = "set"; break; }
            case "int": { String[] p = op.arg.split("="); call(vc, o, p[0], new Class<?>[] {int.class}, Integer.parseInt(p[1])); r = "set"; break; }
            case "strategy": {
                Class<?> e = vc.getClassLoader().loadClass(COMPILED_PKG + "SuggestionStrategy");
                @SuppressWarnings({"unchecked", "rawtypes"}) Object v = Enum.valueOf((Class) e, op.arg);
                call(vc, o, "setSuggestionStrategy", new Class<?>[] {e}, v);
                r = "set";
                break;
            }
            case "terminate": terminating[op.obj] = true; call(vc, o, "terminate", new Class<?>[0]); r = "terminated"; break;
            case "listDicts": r = call(vc, null, "listDicts", new Class<?>[0]); break;
            default: r = call(vc, o, op.what, S, op.arg);
            }
            op.result = render(op, r);
        } catch (Sim.Abort a) { throw a; }
        catch (Throwable t) { op.thrown = t; }
        if (Sim.over) throw new Sim.Abort();
        check(op, h);
        cur.set(null);
    }
    static Object get(Object o, String g) throws Throwable { Method m = o.getClass().getMethod(g); m.setAccessible(true); return m.invoke(o); }
    /** Turns a result into a string that can be compared with what the stub answered. */
    static String render(Op op, Object r) throws Throwable {
        if (r == null) return "null";
        StringBuilder sb = new StringBuilder();
        switch (op.what) {
        case "analyze": { List<TreeMap<?, ?>> l = new ArrayList<>(); for (Object o : (List<?>) r) l.add(new TreeMap<>((Map<?, ?>) o)); return l.toString(); }
        case "grammarErrors":
            for (Object o : (List<?>) r) sb.append(get(o, "getErrorCode") + " " + get(o, "getStartPos") + " " + get(o, "getErrorLen") + " " + get(o, "getSuggestions") + " " + get(o, "getShortDescription") + "\n");
            return sb.toString();
        case "tokens": {
            StringBuilder types = new StringBuilder();
            int pos = 0;
            for (Object o : (List<?>) r) {
                String t = (String) get(o, "getText");
                sb.append(t);
                if (!get(o, "getStartOffset").equals(pos)) Sim.fail("token at a wrong offset");
                pos += t.length();
                if (t.length() == 1 && (t.charAt(0) == 0 || Character.isSurrogate(t.charAt(0)))) continue;
                types.append("t" + ((Enum<?>) get(o, "getType")).ordinal());
            }
            if (!sb.toString().equals(op.arg)) Sim.fail("tokens do not make up the text");
            return types.toString();
        }
        case "sentences": {
            StringBuilder types = new StringBuilder();
            for (Object o : (List<?>) r) { sb.append(get(o, "getText")); types.append("t" + ((Enum<?>) get(o, "getNextStartType")).ordinal()); }
            if (!sb.toString().equals(op.arg)) Sim.fail("sentences do not make up the text");
            return types.toString();
        }
        case "listDicts":
            for (Object o : (List<?>) r) sb.append(get(o, "getLanguage") + " ");
            return sb.toString();
        default: return r.toString();
        }
    }
    static void check(Op op, Stub.Handle h) {
        boolean invalid = op.arg.indexOf('\0') >= 0;
        boolean deadNow = h != null && (h.dead || terminating[op.obj]);
        boolean voikkoEx = op.thrown != null && op.thrown.getClass().getSimpleName().equals("VoikkoException");
        String name = op.what.equals("bool") || op.what.equals("int") ? op.arg : op.what;
        if (op.what.equals("new")) {
            if (op.fault) {
                if (!voikkoEx) Sim.fail("failed initialisation did not throw VoikkoException but " + op.thrown);
                String m = op.notes.get(op.notes.size() - 1).substring(11);
                if (!m.equals(op.thrown.getMessage())) Sim.fail("failed initialisation reports '" + op.thrown.getMessage() + "' and not '" + m + "'");
            } else if (op.thrown != null) Sim.fail("initialisation threw " + op.thrown + Sim.at(op.thrown));
            return;
        }
        if (op.what.equals("terminate")) {
            if (op.thrown != null) Sim.fail("terminate threw " + op.thrown + Sim.at(op.thrown));
            return;
        }
        if (op.thrown != null) {
            if (op.fault) return;
            if (voikkoEx && deadNow && !op.what.equals("listDicts")) return;
            Sim.fail(name + " threw " + op.thrown + Sim.at(op.thrown) + (deadNow ? " on a terminated object" : ""));
        }
        if (op.deadBefore && !op.what.equals("listDicts")) {
            if (!invalid) Sim.fail(name + " on a terminated object did not throw an exception");
            return;
        }
        if (op.fault || invalid && !op.what.equals("tokens")) return;
        String want;
        switch (op.what) {
        case "bool": case "int": case "strategy": {
            if (op.notes.size() != 1) Sim.fail(name + " made " + op.notes.size() + " changes of options");
            String[] p = op.arg.split("=");
            if (op.what.equals("bool")) { int i = Arrays.asList(BOOLS).indexOf(p[0]); want = "set " + BOOLNO[i] + "=" + p[1]; }
            else if (op.what.equals("int")) want = "set " + (p[0].startsWith("setMin") ? 9 : 17) + "=" + p[1];
            else want = "set 8=" + (op.arg.equals("OCR") ? 1 : 0);
            if (!op.notes.get(0).equals(want)) Sim.fail(name + " did '" + op.notes.get(0) + "'");
            return;
        }
        case "tokens": case "sentences": want = String.join("", op.notes); break;
        case "grammarErrors": {
            StringBuilder sb = new StringBuilder();
            int off = 0, k = 0;
            for (String par : op.arg.replace("\r", "\n").split("\n")) {
                while (k < op.notes.size() && op.notes.get(k).startsWith("error " + par + "\1")) {
                    String[] p = op.notes.get(k).substring(op.notes.get(k).indexOf('\1') + 1).split(" ", 3);
                    sb.append(p[0] + " " + (Integer.parseInt(p[1]) + off) + " " + p[2] + "\n");
                    k++;
                }
                off += par.length() + 1;
            }
            want = sb.toString();
            break;
        }
        default: want = op.notes.isEmpty() ? null : op.notes.get(op.notes.size() - 1);
        }
        if (want == null) Sim.fail(name + " returned " + op.result + " without asking the native library");
        if (!want.equals(op.result)) Sim.fail(name + "(" + esc(op.arg) + ") returned " + esc(op.result) + " and the native library answered " + esc(want));
    }

    static Outcome execute(Case c) throws Exception {
        Outcome out = new Outcome();
        for (Op o : c.ops) { o.notes = null; o.result = null; o.thrown = null; o.fault = o.deadBefore = o.started = false; o.handle = null; }
        Sim.violation = null;
        Stub.reset(c.libName, c.faults);
        Loader ld = new Loader();
        for (String n : classes.keySet()) Class.forName(n, true, ld); // class initialisation blocks for real, so it happens before
        Class<?> vc = ld.loadClass(COMPILED_PKG + "Voikko");
        objs = new Object[c.objects];
        objHandle = new Stub.Handle[c.objects];
        terminating = new boolean[c.objects];
        final int[] left = {0};
        List<Runnable> bodies = new ArrayList<>();
        final boolean[] prologueDone = {false};
        for (int t = 0; t < c.threads; t++) {
            final int tid = t;
            bodies.add(() -> {
                if (!prologueDone[0]) { prologueDone[0] = true; }
                for (Op o : c.ops) if (o.thread == tid) { Sim.point(true); runOp(vc, o); }
            });
        }
        // objects made before the threads start
        List<Op> pro = new ArrayList<>();
        for (Op o : c.ops) if (o.thread < 0) pro.add(o);
        boolean ok = true;
        if (!pro.isEmpty()) {
            ok = Sim.run(Collections.singletonList(() -> { for (Op o : pro) runOp(vc, o); }), c.seed, 1000000, new TreeMap<>());
        }
        if (ok && Sim.violation == null) {
            ok = Sim.run(bodies, c.seed, c.mean, c.sched);
            out.taken = new TreeMap<>(Sim.taken);
            out.steps = Sim.step; out.switches = Sim.switches; out.hash = Sim.hash;
        }
        if (ok && Sim.violation == null) {
            // the objects become unreachable and are finalised
            String[] v = {null};
            ok = Sim.run(Collections.singletonList(() -> {
                for (Object o : objs) if (o != null) {
                    try {
                        Method f;
                        try { f = vc.getDeclaredMethod("simFinalize"); } catch (NoSuchMethodException e) { f = null; }
                        if (f != null) { f.setAccessible(true); f.invoke(o); }
                    } catch (InvocationTargetException e) {
                        if (e.getCause() instanceof Sim.Abort) throw (Sim.Abort) e.getCause();
                        Sim.fail("finalisation threw " + e.getCause());
                    } catch (IllegalAccessException e) { throw new RuntimeException(e); }
                }
                for (Stub.Handle h : Stub.handles.values()) if (!h.dead) Sim.fail("handle of a finalised object was never terminated");
                TreeSet<String> leaks = new TreeSet<>();
                for (Stub.Res r : Stub.results.values()) if (r.freed == 0) leaks.add(r.kind);
                if (!leaks.isEmpty()) Sim.fail("result of " + leaks.first() + " was never freed");
            }), c.seed, 1000000, new TreeMap<>());
        }
        out.complete = ok;
        out.violation = ok ? Sim.violation : null;
        out.fired = Stub.fired; out.calls = Stub.calls;
        return out;
    }
    static String kind(String v) { return v == null ? null : v.replaceAll("[0-9]+", "N").replaceAll("\\(.*", ""); }

    static Case minimise(Case c, String viol, long until) throws Exception {
        String k = kind(viol);
        boolean again = true;
        while (again && System.nanoTime() < until) {
            again = false;
            // with fewer operations the schedule moves, so keep it random first and explicit afterwards
            for (int i = c.ops.size() - 1; i >= 0 && System.nanoTime() < until; i--) {
                for (int attempt = 0; attempt < (c.sched == null ? 1 : 12); attempt++) {
                    Case d = c.copy();
                    d.ops.remove(i);
                    if (c.sched != null && attempt > 0) { d.sched = null; d.seed = c.seed * 31 + attempt; }
                    Outcome o = execute(d);
                    if (o.violation != null && kind(o.violation).equals(k)) { d.sched = o.taken == null ? new TreeMap<>() : o.taken; c = d; again = true; break; }
                }
            }
            for (int f : new ArrayList<>(c.faults)) {
                Case d = c.copy();
                d.faults.remove(f);
                Outcome o = execute(d);
                if (o.violation != null && kind(o.violation).equals(k)) { d.sched = o.taken == null ? new TreeMap<>() : o.taken; c = d; again = true; }
            }
            if (c.sched != null) for (long s : new ArrayList<>(c.sched.keySet())) {
                if (System.nanoTime() > until) break;
                Case d = c.copy();
                d.sched.remove(s);
                Outcome o = execute(d);
                if (o.violation != null && kind(o.violation).equals(k)) { c = d; }
            }
        }
        return c;
    }

    static String json(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (char ch : s.toCharArray()) { if (ch == '"' || ch == '\\') b.append('\\').append(ch); else if (ch == '\n') b.append("\\n"); else if (ch < 32 || ch > 126) b.append(String.format("\\u%04x", (int) ch)); else b.append(ch); }
        return b.append("\"").toString();
    }

    public static void main(String[] a) throws Exception {
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "UTF-8");
        try (java.util.stream.Stream<Path> s = Files.walk(Paths.get(a[1]))) {
            for (Path p : (Iterable<Path>) s::iterator) if (p.toString().endsWith(".class")) {
                String n = Paths.get(a[1]).relativize(p).toString().replace('/', '.').replaceAll("\\.class$", "");
                classes.put(n, Rewriter.rewrite(Files.readAllBytes(p)));
            }
        }
        if (a[0].equals("replay")) {
            Case c = Case.parse(new String(Files.readAllBytes(Paths.get(a[2])), StandardCharsets.UTF_8));
            if (c.sched == null && c.ops.isEmpty()) c = generate(c.seed);
            Outcome o = execute(c);
            for (Op op : c.ops) out.println("op " + op.id + " thread " + op.thread + " " + op.what + " " + esc(op.arg) + " -> " + (op.thrown != null ? op.thrown.toString() : String.valueOf(op.result)));
            out.println("steps " + o.steps + " switches " + o.switches + " hash " + Long.toHexString(o.hash));
            out.println(o.violation == null ? "no violation" : "violation: " + o.violation);
            System.exit(o.violation == null ? 0 : 1);
        }
        if (a[0].equals("one")) { // hash lines, for comparing two executions
            for (long i = 0; i < Long.parseLong(a[3]); i++) { Outcome o = execute(generate(Long.parseLong(a[2]) + i)); out.println(i + " " + Long.toHexString(o.hash) + " " + o.steps + " " + o.calls + " " + o.violation); }
            System.exit(0);
        }
        // check <classes> <seed> <worker> <workers> <seconds> <result.json> <replay>
        long seed = Long.parseLong(a[2]), worker = Long.parseLong(a[3]), workers = Long.parseLong(a[4]);
        long begin = System.nanoTime(), until = begin + (long) (Double.parseDouble(a[5]) * 1e9);
        long runs = 0, steps = 0, switches = 0, withFaults = 0, fired = 0, calls = 0, nontrivial = 0, incomplete = 0, replayed = 0;
        Map<String, Integer> opCount = new TreeMap<>();
        Set<Long> distinct = new HashSet<>();
        String sample = null, violation = null;
        Case bad = null;
        for (long i = worker; System.nanoTime() < until; i += workers) {
            Case c = generate(seed * 1000003L + i);
            Outcome o = execute(c);
            runs++;
            if (!o.complete) { incomplete++; if (incomplete > 20) break; continue; }
            steps += o.steps; switches += o.switches; fired += o.fired; calls += o.calls;
            if (o.fired > 0) withFaults++;
            for (Op op : c.ops) opCount.merge(op.what, 1, Integer::sum);
            if (o.calls > 1 && (o.switches > 0 || o.fired > 0)) { distinct.add(o.hash * 31 + c.text().replaceAll("seed.*", "").hashCode()); }
            if (sample == null && o.switches > 2) { Case d = c.copy(); d.sched = o.taken; sample = d.text(); }
            if (i % 64 == worker && o.violation == null) { // the same seed must give the same execution
                Outcome p = execute(generate(c.seed));
                replayed++;
                if (p.hash != o.hash || p.steps != o.steps || p.violation != null) { System.err.println("run of seed " + c.seed + " is not repeatable"); System.exit(3); }
            }
            if (o.violation != null) {
                Case d = c.copy();
                d.sched = o.taken == null ? new TreeMap<>() : o.taken;
                Outcome p = execute(d);
                if (p.violation == null) { System.err.println("violation of seed " + c.seed + " is not repeatable: " + o.violation); d = c.copy(); p = execute(d); if (p.violation == null) System.exit(3); }
                violation = o.violation;
                bad = minimise(d, violation, System.nanoTime() + 15_000_000_000L);
                Outcome q = execute(bad);
                if (q.violation != null) violation = q.violation;
                break;
            }
        }
        if (bad != null) Files.write(Paths.get(a[7]), (bad.text() + "violation " + violation + "\n").getBytes(StandardCharsets.UTF_8));
        StringBuilder j = new StringBuilder("{\"runs\":" + runs + ",\"steps\":" + steps + ",\"switches\":" + switches + ",\"with_faults\":" + withFaults + ",\"fired\":" + fired + ",\"calls\":" + calls
            + ",\"distinct\":" + distinct.size() + ",\"incomplete\":" + incomplete + ",\"replayed\":" + replayed + ",\"sample\":" + json(sample == null ? "" : sample) + ",\"violation\":" + (violation == null ? "null" : json(violation)));
        j.append(",\"ops\":{");
        String sep = "";
        for (Map.Entry<String, Integer> e : opCount.entrySet()) { j.append(sep + "\"" + e.getKey() + "\":" + e.getValue()); sep = ","; }
        j.append("},\"fired_by\":{");
        sep = "";
        for (Map.Entry<String, Integer> e : Stub.firedBy.entrySet()) { j.append(sep + "\"" + e.getKey() + "\":" + e.getValue()); sep = ","; }
        j.append("}}");
        Files.write(Paths.get(a[6]), j.toString().getBytes(StandardCharsets.UTF_8));
        System.exit(violation == null ? 0 : 1);
    }
}
