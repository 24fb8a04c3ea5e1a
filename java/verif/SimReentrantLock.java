package verif;

import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.*;

public class SimReentrantLock implements Lock {
    public SimReentrantLock() { }
    public SimReentrantLock(boolean fair) { }
    public void lock() { Sim.enter(this); }
    public void lockInterruptibly() { Sim.enter(this); }
    public boolean tryLock() { return Sim.tryEnter(this); }
    public boolean tryLock(long t, TimeUnit u) { return Sim.tryEnter(this); }
    public void unlock() { Sim.exit(this); }
    public Condition newCondition() { throw new UnsupportedOperationException(); }
    public boolean isHeldByCurrentThread() { Sim.Mon m = Sim.mons.get(this); return m != null && m.owner == Sim.self(); }
    public boolean isLocked() { Sim.Mon m = Sim.mons.get(this); return m != null && m.owner != null; }
}
