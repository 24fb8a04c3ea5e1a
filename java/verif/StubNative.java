package verif;

import java.util.Map;

/** Stands for the load methods of com.sun.jna.Native in the rewritten classes. */
public class StubNative {
    public static com.sun.jna.Library load(String name, Class<?> c) { Sim.point(true); return (com.sun.jna.Library) Stub.library(c); }
    public static com.sun.jna.Library load(String name, Class<?> c, Map<?, ?> m) { return load(name, c); }
    public static com.sun.jna.Library load(Class<?> c) { return load(null, c); }
    public static Object loadLibrary(String name, Class<?> c) { return load(name, c); }
    public static Object loadLibrary(String name, Class<?> c, Map<?, ?> m) { return load(name, c); }
    public static com.sun.jna.Library synchronizedLibrary(com.sun.jna.Library l) { return l; }
}
