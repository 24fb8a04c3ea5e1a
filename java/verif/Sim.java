package verif;

import java.util.*;
import java.util.concurrent.locks.LockSupport;

/** Seeded cooperative scheduler: of all simulated threads exactly one runs at a time. */
public final class Sim {
    public static final class Abort extends Error {
        Abort() { super("simulation over", null, false, false); }
    }
    static final class T extends Thread {
        final int id;
        final Runnable body;
        boolean done, waiting;
        Object blockedOn;
        volatile boolean go;
        T(int id, Runnable body) { this.id = id; this.body = body; setDaemon(true); }
        @Override public void run() {
            while (!go) LockSupport.park(this);
            try { if (!Sim.over) body.run(); }
            catch (Abort a) { }
            catch (Throwable t) { Sim.failNoThrow("unexpected " + t + at(t)); }
            Sim.finish(this);
        }
    }
    static final class Mon { T owner; int depth; }

    // one run at a time in this JVM
    static T[] threads;
    static T current;
    static volatile boolean over;
    static volatile String violation;
    static IdentityHashMap<Object, Mon> mons;
    static Random rnd;
    static int mean;
    static SortedMap<Long, Integer> explicit;  // not null: replay this
    static SortedMap<Long, Integer> taken;
    static long step, switches, stepLimit;
    static long hash;
    static Thread mainThread;
    static volatile int alive;
    static volatile int stuckRuns;

    static String at(Throwable t) {
        for (StackTraceElement e : t.getStackTrace()) if (e.getClassName().startsWith("org.puimula")) return " at " + e.getMethodName();
        return "";
    }
    /** Returns true if the run ended by itself. */
    static boolean run(List<Runnable> bodies, long seed, int meanSteps, SortedMap<Long, Integer> sched) {
        over = false;
        violation = null;
        mons = new IdentityHashMap<>();
        rnd = new Random(seed);
        mean = meanSteps;
        explicit = sched;
        taken = new TreeMap<>();
        step = switches = 0;
        stepLimit = 200000;
        hash = 1469598103934665603L;
        mainThread = Thread.currentThread();
        threads = new T[bodies.size()];
        for (int i = 0; i < threads.length; i++) threads[i] = new T(i, bodies.get(i));
        alive = threads.length;
        for (T t : threads) t.start();
        current = pickNext(null);
        current.go = true;
        LockSupport.unpark(current);
        long last = -1;
        int same = 0;
        while (alive > 0) {
            LockSupport.parkNanos(mainThread, 500_000_000L);
            long s = step;
            if (alive > 0 && s == last) {
                Thread.State st = current.getState();
                if (st != Thread.State.RUNNABLE && ++same >= 4) { stuckRuns++; over = true; return false; }
            } else { same = 0; last = s; }
        }
        return true;
    }
    static boolean runnable(T t) {
        if (t.done || t.waiting) return false;
        if (t.blockedOn == null) return true;
        Mon m = mons.get(t.blockedOn);
        return m == null || m.owner == null || m.owner == t;
    }
    static T pickNext(T except) {
        int n = 0;
        T[] c = new T[threads.length];
        for (T t : threads) if (t != except && runnable(t)) c[n++] = t;
        if (n == 0) return null;
        if (explicit != null) {
            Integer want = explicit.get(step);
            if (want != null) for (int i = 0; i < n; i++) if (c[i].id == want) return c[i];
            return c[0];
        }
        return c[n == 1 ? 0 : rnd.nextInt(n)];
    }
    static T self() {
        Thread t = Thread.currentThread();
        return t instanceof T ? (T) t : null;
    }
    static void handoff(T from, T to) {
        taken.put(step, to.id);
        switches++;
        hash = (hash ^ (step * 31 + to.id)) * 1099511628211L;
        current = to;
        from.go = false;
        to.go = true;
        LockSupport.unpark(to);
        while (!from.go) LockSupport.park(from);
        if (over) throw new Abort();
    }
    static void finish(T t) {
        t.done = true;
        for (Mon m : mons.values()) if (m.owner == t && !over) failNoThrow("thread ended while holding a monitor");
        T next = null;
        if (!over) {
            step++;
            next = pickNext(t);
            if (next == null) for (T o : threads) if (!o.done) { failNoThrow("deadlock: no thread can run"); break; }
        }
        if (over) for (T o : threads) if (!o.done) { next = o; break; }
        if (next != null) {
            if (!over) { taken.put(step, next.id); hash = (hash ^ (step * 31 + next.id)) * 1099511628211L; }
            current = next; next.go = true;
        }
        synchronized (Sim.class) { alive--; }
        if (next != null) LockSupport.unpark(next);
        LockSupport.unpark(mainThread);
    }
    public static void point() { point(false); }
    static void point(boolean hot) {
        T me = self();
        if (me == null) return;
        if (over) throw new Abort();
        if (++step > stepLimit) fail("no progress within " + stepLimit + " scheduling steps");
        T next = null;
        if (explicit != null) {
            Integer want = explicit.get(step);
            if (want != null && want != me.id && want < threads.length && runnable(threads[want])) next = threads[want];
        } else if (rnd.nextInt(hot ? Math.min(mean, 3) : mean) == 0) next = pickNext(me);
        if (next != null) handoff(me, next);
    }
    public static void enter(Object o) {
        T me = self();
        if (me == null) return;
        if (o == null) throw new NullPointerException();
        point();
        Mon m = mons.computeIfAbsent(o, k -> new Mon());
        while (m.owner != null && m.owner != me) {
            me.blockedOn = o;
            step++;
            T next = pickNext(me);
            if (next == null) fail("deadlock: no thread can run");
            handoff(me, next);
        }
        me.blockedOn = null;
        m.owner = me;
        m.depth++;
    }
    static boolean tryEnter(Object o) {
        T me = self();
        if (me == null) return true;
        point();
        Mon m = mons.computeIfAbsent(o, k -> new Mon());
        if (m.owner != null && m.owner != me) return false;
        m.owner = me;
        m.depth++;
        return true;
    }
    public static void exit(Object o) {
        T me = self();
        if (me == null || over) return;
        Mon m = mons.get(o);
        if (m == null || m.owner != me) throw new IllegalMonitorStateException();
        if (--m.depth == 0) m.owner = null;
        point();
    }
    public static void await(Object o) {
        T me = self();
        if (me == null) return;
        Mon m = mons.get(o);
        if (m == null || m.owner != me) throw new IllegalMonitorStateException();
        int d = m.depth;
        m.depth = 0; m.owner = null;
        me.waiting = true; me.blockedOn = o;
        step++;
        T next = pickNext(me);
        if (next == null) fail("deadlock: no thread can run");
        handoff(me, next);
        while (m.owner != null && m.owner != me) { step++; next = pickNext(me); if (next == null) fail("deadlock: no thread can run"); handoff(me, next); }
        me.blockedOn = null;
        m.owner = me; m.depth = d;
    }
    public static void notifyAll(Object o) { for (T t : threads) if (t.waiting && t.blockedOn == o) t.waiting = false; }
    public static void notifyOne(Object o) { for (T t : threads) if (t.waiting && t.blockedOn == o) { t.waiting = false; return; } }
    static void failNoThrow(String what) {
        if (violation == null && !over) violation = what;
        over = true;
    }
    static void fail(String what) {
        failNoThrow(what);
        throw new Abort();
    }
}
