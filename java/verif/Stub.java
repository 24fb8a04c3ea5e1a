package verif;

import com.sun.jna.*;
import com.sun.jna.ptr.PointerByReference;
import java.lang.reflect.*;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.*;

/**
 * The native library as the Java code sees it. Answers are a function of the handle's options and the arguments; every use of a
 * handle and of a result is checked.
 */
final class Stub implements InvocationHandler {
    static final class Handle {
        final long id;
        boolean dead;
        Sim.T user;
        int terminated;
        final TreeMap<Integer, Integer> options = new TreeMap<>();
        final List<Integer> ops = new ArrayList<>(); // operations that used the handle, in order
        Handle(long id) { this.id = id; }
        int state() { return options.hashCode(); }
    }
    static final class Res {
        final String kind;
        final Object model;
        final List<Memory> mem = new ArrayList<>();
        int freed;
        Res(String kind, Object model) { this.kind = kind; this.model = model; }
    }
    static final class GErr { int code, pos, len; List<String> sugg; Pointer suggPtr; String desc; }

    static String libraryName;
    static Map<Long, Handle> handles;
    static Map<Long, Res> results;
    static Set<Integer> faults;       // numbers of native calls that fail
    static int calls, fired;
    static Map<String, Integer> firedBy = new TreeMap<>();
    static Object lib;
    static int loads;
    static List<Memory> keep;

    static void reset(String libName, Set<Integer> f) {
        libraryName = libName;
        handles = new HashMap<>();
        results = new HashMap<>();
        keep = new ArrayList<>();
        faults = f;
        calls = fired = loads = 0;
        lib = null;
    }
    static Object library(Class<?> itf) {
        loads++;
        return Proxy.newProxyInstance(itf.getClassLoader(), new Class<?>[] {itf}, new Stub());
    }

    static Memory cstr(String s) {
        byte[] b = s.getBytes(StandardCharsets.UTF_8);
        Memory m = new Memory(b.length + 9);
        m.clear();
        m.write(0, b, 0, b.length);
        keep.add(m);
        return m;
    }
    static String str(Object o) {
        byte[] b = (byte[]) o;
        int n = 0;
        while (n < b.length && b[n] != 0) n++;
        if (n == b.length) Sim.fail("string given to the native library is not terminated");
        return new String(b, 0, n, StandardCharsets.UTF_8);
    }
    static Res reg(String kind, Object model, Memory... mem) {
        Res r = new Res(kind, model);
        r.mem.addAll(Arrays.asList(mem));
        results.put(Pointer.nativeValue(mem[0]), r);
        return r;
    }
    static Memory array(List<? extends Pointer> l) {
        Memory m = new Memory((l.size() + 1) * 8L);
        m.clear();
        for (int i = 0; i < l.size(); i++) m.setPointer(i * 8L, l.get(i));
        keep.add(m);
        return m;
    }
    static Pointer strArray(String kind, List<String> l) {
        List<Memory> v = new ArrayList<>();
        for (String s : l) v.add(cstr(s));
        Memory a = array(v);
        Res r = reg(kind, l, a);
        r.mem.addAll(v);
        return a;
    }
    static Object wrap(Class<?> c, Pointer p) throws Exception {
        if (p == null) return null;
        Constructor<?> k = c.getDeclaredConstructor();
        k.setAccessible(true);
        PointerType t = (PointerType) k.newInstance();
        t.setPointer(p);
        return t;
    }
    static Pointer ptr(Object o) {
        if (o == null) return null;
        return o instanceof Pointer ? (Pointer) o : ((PointerType) o).getPointer();
    }
    static Res live(String f, Object o, String kind) {
        Pointer p = ptr(o);
        if (p == null) Sim.fail(f + " called with null");
        Res r = results.get(Pointer.nativeValue(p));
        if (r == null) Sim.fail(f + " called with a pointer that is not a result of the native library");
        if (!r.kind.equals(kind)) Sim.fail(f + " called with the result of " + r.kind);
        if (r.freed > 0) Sim.fail(f + " called with a freed result of " + r.kind);
        return r;
    }
    static void free(String f, Object o, String... kinds) {
        Pointer p = ptr(o);
        if (p == null) return;
        Res r = results.get(Pointer.nativeValue(p));
        if (r == null) Sim.fail(f + " called with a pointer that is not a result to free");
        if (!Arrays.asList(kinds).contains(r.kind)) Sim.fail(f + " frees the result of " + r.kind);
        if (r.freed++ > 0) Sim.fail(f + " frees the result of " + r.kind + " twice");
        for (Memory m : r.mem) m.clear();
    }

    static Handle use(String f, Object o) {
        if (o == null) Sim.fail(f + " called without a handle");
        Handle h = handles.get(Pointer.nativeValue(((PointerType) o).getPointer()));
        if (h == null) Sim.fail(f + " called with something that is not a handle");
        if (h.dead) Sim.fail(f + " called with a terminated handle");
        if (h.user != null) Sim.fail(f + " entered while another thread is inside the native library with the same handle");
        h.user = Sim.self();
        int op = Main.currentOp();
        if (h.ops.isEmpty() || h.ops.get(h.ops.size() - 1) != op) {
            if (h.ops.contains(op)) Sim.fail("native calls of one method were interleaved with those of another on the same handle");
            h.ops.add(op);
        }
        return h;
    }
    static boolean fault(String f) {
        if (!faults.contains(calls)) return false;
        fired++;
        firedBy.merge(f, 1, Integer::sum);
        Main.faultInOp();
        return true;
    }
    static int h(Object... a) { int x = Arrays.hashCode(a); x ^= x >>> 15; x *= 0x85ebca6b; x ^= x >>> 13; return x & 0x7fffffff; }

    @Override public Object invoke(Object self, Method m, Object[] a) throws Throwable {
        String f = m.getName();
        if (m.getDeclaringClass() == Object.class) {
            switch (f) {
            case "hashCode": return System.identityHashCode(self);
            case "equals": return self == a[0];
            default: return "stub";
            }
        }
        Sim.point(true);
        calls++;
        Handle hd = null;
        if (a != null && a.length > 0 && m.getParameterTypes()[0].getSimpleName().equals("VoikkoHandle")) {
            hd = use(f, a[0]);
            Sim.point(true);
            Sim.point(true);
        }
        Object r;
        try { r = call(f, m.getReturnType(), a, hd); }
        finally { if (hd != null && !Sim.over) hd.user = null; }
        Sim.point(true);
        return r;
    }
    static Object sizeT(Class<?> c, long v) throws Exception { return c.getConstructor(long.class).newInstance(v); }

    private Object call(String f, Class<?> ret, Object[] a, Handle hd) throws Exception {
        switch (f) {
        case "voikkoInit": {
            Sim.point(true);
            if (fault(f)) {
                String msg = "no dictionary " + calls;
                ((PointerByReference) a[0]).setValue(cstr(msg));
                Main.note("init-error " + msg);
                return null;
            }
            Memory mem = new Memory(16);
            keep.add(mem);
            Handle n = new Handle(Pointer.nativeValue(mem));
            handles.put(n.id, n);
            ((PointerByReference) a[0]).setValue(null);
            Main.created(n);
            return wrap(ret, mem);
        }
        case "voikkoTerminate":
            hd.dead = true;
            if (++hd.terminated > 1) Sim.fail("handle terminated twice");
            return null;
        case "voikkoSpellCstr": {
            int v = h(str(a[1]), hd.state()) % 4;
            if (fault(f)) v = 2;
            Main.note(v == 1 ? "true" : "false");
            return v;
        }
        case "voikkoSuggestCstr": {
            String w = str(a[1]);
            if (fault(f)) { Main.note("[]"); return null; }
            List<String> l = strings("s", w, hd);
            if (l.isEmpty()) { Main.note("[]"); return null; }
            Main.note(l.toString());
            return strArray(f, l);
        }
        case "voikkoGetAttributeValues": {
            String w = str(a[1]);
            List<String> l = strings("v", w, hd);
            if (fault(f) || l.isEmpty()) { Main.note("null"); return null; }
            Main.note(l.toString());
            return strArray(f, l);
        }
        case "voikkoHyphenateCstr": case "voikkoInsertHyphensCstr": {
            String w = str(a[1]);
            if (fault(f)) { Main.note("null"); return null; }
            String s = w + "/" + hd.state() + (f.equals("voikkoHyphenateCstr") ? "" : str(a[2]) + a[3]);
            Main.note(s);
            Memory mem = cstr(s);
            reg(f, s, mem);
            return wrap(ret, mem);
        }
        case "voikkoFreeCstr": free(f, a[0], "voikkoHyphenateCstr", "voikkoInsertHyphensCstr"); return null;
        case "voikkoFreeCstrArray": free(f, a[0], "voikkoSuggestCstr", "voikkoGetAttributeValues"); return null;
        case "voikkoSetBooleanOption": case "voikkoSetIntegerOption": {
            if (fault(f)) return 0;
            hd.options.put((Integer) a[1], (Integer) a[2]);
            Main.note("set " + a[1] + "=" + a[2]);
            return 1;
        }
        case "voikkoNextGrammarErrorCstr": {
            String w = str(a[1]);
            int skip = (Integer) a[4];
            if (((Number) a[2]).longValue() != w.getBytes(StandardCharsets.UTF_8).length) Sim.fail(f + " called with a wrong text length");
            int n = w.isEmpty() ? 0 : h(w, hd.state(), 7) % 4;
            if (fault(f) || skip >= n) return null;
            GErr e = new GErr();
            e.code = 1 + h(w, skip) % 18;
            e.pos = h(w, skip, 1) % w.length();
            e.len = 1 + h(w, skip, 2) % 5;
            e.sugg = h(w, skip, 3) % 3 == 0 ? null : strings("g" + skip, w, hd);
            e.desc = "d" + e.code + w.hashCode() + "/" + skip + "/" + hd.state();
            Memory mem = new Memory(16);
            keep.add(mem);
            Res r = reg(f, e, mem);
            if (e.sugg != null) { List<Memory> v = new ArrayList<>(); for (String s : e.sugg) v.add(cstr(s)); Memory arr = array(v); r.mem.addAll(v); r.mem.add(arr); e.suggPtr = arr; }
            Main.note("error " + w + "\1" + e.code + " " + e.pos + " " + e.len + " " + (e.sugg == null ? "[]" : e.sugg) + " " + e.desc);
            return wrap(ret, mem);
        }
        case "voikkoFreeGrammarError": free(f, a[0], "voikkoNextGrammarErrorCstr"); return null;
        case "voikkoGetGrammarErrorCode": return ((GErr) live(f, a[0], "voikkoNextGrammarErrorCstr").model).code;
        case "voikkoGetGrammarErrorStartPos": return sizeT(ret, ((GErr) live(f, a[0], "voikkoNextGrammarErrorCstr").model).pos);
        case "voikkoGetGrammarErrorLength": return sizeT(ret, ((GErr) live(f, a[0], "voikkoNextGrammarErrorCstr").model).len);
        case "voikkoGetGrammarErrorSuggestions": return ((GErr) live(f, a[0], "voikkoNextGrammarErrorCstr").model).suggPtr;
        case "voikkoGetGrammarErrorShortDescription": {
            Memory mem = cstr(((GErr) live(f, a[0], "voikkoNextGrammarErrorCstr").model).desc);
            reg(f, "", mem);
            return mem;
        }
        case "voikkoFreeErrorMessageCstr": free(f, a[0], "voikkoGetGrammarErrorShortDescription"); return null;
        case "voikkoAnalyzeWordCstr": {
            String w = str(a[1]);
            int n = h(w, hd.state(), 9) % 4;
            if (fault(f) || n == 0) { Main.note("[]"); return null; }
            List<Memory> v = new ArrayList<>();
            List<TreeMap<String, String>> all = new ArrayList<>();
            for (int i = 0; i < n; i++) {
                TreeMap<String, String> t = new TreeMap<>();
                for (int k = 0; k < 1 + h(w, i) % 3; k++) t.put("K" + k, w + i + "/" + hd.state());
                all.add(t);
                Memory mem = new Memory(16);
                keep.add(mem);
                v.add(mem);
            }
            Memory arr = array(v);
            reg(f, all, arr);
            for (int i = 0; i < n; i++) {
                Res e = reg("analysis", all.get(i), v.get(i));
                e.freed = -1000000; // freed with the whole
                List<Memory> ks = new ArrayList<>();
                for (String k : all.get(i).keySet()) ks.add(cstr(k));
                Memory ka = array(ks);
                e.mem.add(ka);
            }
            results.get(Pointer.nativeValue(arr)).mem.addAll(v);
            Main.note(all.toString());
            return arr;
        }
        case "voikko_free_mor_analysis": {
            Pointer p = ptr(a[0]);
            if (p == null) Sim.fail(f + " called with null");
            Res r = results.get(Pointer.nativeValue(p));
            free(f, a[0], "voikkoAnalyzeWordCstr");
            for (Memory x : r.mem) { Res e = results.get(Pointer.nativeValue(x)); if (e != null && e.kind.equals("analysis")) e.freed = 1; }
            return null;
        }
        case "voikko_mor_analysis_keys": return liveAnalysis(f, a[0]).mem.get(1);
        case "voikko_mor_analysis_value_cstr": {
            @SuppressWarnings("unchecked") Map<String, String> t = (Map<String, String>) liveAnalysis(f, a[0]).model;
            String v = t.get(str(a[1]));
            if (v == null) return null;
            Memory mem = cstr(v);
            reg(f, v, mem);
            return wrap(ret, mem);
        }
        case "voikko_free_mor_analysis_value_cstr": free(f, a[0], "voikko_mor_analysis_value_cstr"); return null;
        case "voikkoNextTokenCstr": {
            ByteBuffer b = (ByteBuffer) a[1];
            int n = ((Number) a[2]).intValue();
            if (b.remaining() < n) Sim.fail(f + " called with a length beyond the buffer");
            byte[] x = new byte[n];
            b.duplicate().get(x);
            String t = new String(x, StandardCharsets.UTF_8);
            int len = 1 + h(t, hd.state()) % Math.min(4, t.length());
            int type = 1 + h(t, 3) % 3;
            setLen(a[3], len);
            Main.note("t" + type);
            return type;
        }
        case "voikkoNextSentenceStartCstr": {
            String t = str(a[1]);
            if (((Number) a[2]).longValue() != t.getBytes(StandardCharsets.UTF_8).length) Sim.fail(f + " called with a wrong text length");
            int len = 1 + h(t, hd.state()) % t.length();
            int type = len == t.length() ? 1 : 2 + h(t, 3) % 2;
            setLen(a[3], len);
            Main.note("t" + type);
            return type;
        }
        case "voikko_list_dicts": {
            List<Memory> v = new ArrayList<>();
            int n = calls % 3;
            StringBuilder sb = new StringBuilder();
            for (int i = 0; i < n; i++) { Memory mem = new Memory(16); mem.setInt(0, i); keep.add(mem); v.add(mem); sb.append("l" + i + " "); }
            Memory arr = array(v);
            reg(f, "", arr);
            for (Memory x : v) { Res e = reg("dict", arr, x); e.freed = -1000000; }
            Main.note(sb.toString());
            return arr;
        }
        case "voikko_free_dicts": free(f, a[0], "voikko_list_dicts"); return null;
        case "voikko_dict_language": case "voikko_dict_script": case "voikko_dict_variant": case "voikko_dict_description": {
            Pointer p = ptr(a[0]);
            Res r = p == null ? null : results.get(Pointer.nativeValue(p));
            if (r == null || !r.kind.equals("dict")) Sim.fail(f + " called with something that is not a dictionary");
            if (results.get(Pointer.nativeValue((Pointer) r.model)).freed > 0) Sim.fail(f + " called with a freed dictionary list");
            return wrap(ret, cstr(f.substring(12, 13) + p.getInt(0)));
        }
        default:
            Class<?> t = ret;
            if (t == int.class) return 0;
            return null;
        }
    }
    static Res liveAnalysis(String f, Object o) {
        Pointer p = ptr(o);
        Res r = p == null ? null : results.get(Pointer.nativeValue(p));
        if (r == null || !r.kind.equals("analysis")) Sim.fail(f + " called with something that is not an analysis");
        if (r.freed > 0) Sim.fail(f + " called with a freed analysis");
        return r;
    }
    static void setLen(Object ref, long v) throws Exception {
        ((com.sun.jna.ptr.ByReference) ref).getPointer().setLong(0, v);
    }
    static List<String> strings(String p, String w, Handle hd) {
        List<String> l = new ArrayList<>();
        int n = h(p, w, hd.state()) % 4;
        for (int i = 0; i < n; i++) l.add(p + i + w + hd.state());
        return l;
    }
}
