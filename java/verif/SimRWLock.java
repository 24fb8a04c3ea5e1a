package verif;

import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.*;

/** Readers share, writers exclude; built on one simulated monitor and a wait set. */
public class SimRWLock implements ReadWriteLock {
    int readers;
    boolean writing;
    Object writer;
    int depth;
    final Object mon = new Object();
    public final ReadLock r = new ReadLock(this);
    public final WriteLock w = new WriteLock(this);
    public SimRWLock() { }
    public SimRWLock(boolean fair) { }
    public ReadLock readLock() { return r; }
    public WriteLock writeLock() { return w; }
    public static class ReadLock implements Lock {
        final SimRWLock l;
        ReadLock(SimRWLock l) { this.l = l; }
        public void lock() { Sim.enter(l.mon); while (l.writing && l.writer != Thread.currentThread()) Sim.await(l.mon); l.readers++; Sim.exit(l.mon); }
        public void lockInterruptibly() { lock(); }
        public boolean tryLock() { throw new UnsupportedOperationException(); }
        public boolean tryLock(long t, TimeUnit u) { throw new UnsupportedOperationException(); }
        public void unlock() { Sim.enter(l.mon); l.readers--; Sim.notifyAll(l.mon); Sim.exit(l.mon); }
        public Condition newCondition() { throw new UnsupportedOperationException(); }
    }
    public static class WriteLock implements Lock {
        final SimRWLock l;
        WriteLock(SimRWLock l) { this.l = l; }
        public void lock() {
            Sim.enter(l.mon);
            if (l.writer != Thread.currentThread()) while (l.writing || l.readers > 0) Sim.await(l.mon);
            l.writing = true; l.writer = Thread.currentThread(); l.depth++;
            Sim.exit(l.mon);
        }
        public void lockInterruptibly() { lock(); }
        public boolean tryLock() { throw new UnsupportedOperationException(); }
        public boolean tryLock(long t, TimeUnit u) { throw new UnsupportedOperationException(); }
        public void unlock() { Sim.enter(l.mon); if (--l.depth == 0) { l.writing = false; l.writer = null; } Sim.notifyAll(l.mon); Sim.exit(l.mon); }
        public Condition newCondition() { throw new UnsupportedOperationException(); }
    }
}
