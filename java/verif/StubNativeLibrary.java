package verif;

import java.io.File;

/** Stands for com.sun.jna.NativeLibrary in the rewritten classes. */
public class StubNativeLibrary {
    final String name;
    StubNativeLibrary(String name) { this.name = name; }
    public static StubNativeLibrary getInstance(String name) {
        Sim.point(true);
        if (!name.equals(Stub.libraryName)) throw new UnsatisfiedLinkError(name);
        return new StubNativeLibrary(name);
    }
    public File getFile() { return new File("/sim/" + name); }
    public String getName() { return name; }
    public static void addSearchPath(String name, String path) { }
}
