package verif;

import jdk.internal.org.objectweb.asm.*;
import jdk.internal.org.objectweb.asm.commons.*;
import static jdk.internal.org.objectweb.asm.Opcodes.*;

/** Puts the seams into the compiled classes of the Java binding: simulated monitors, scheduling points, stub library loading. */
final class Rewriter {
    static final String PKG = "org/puimula/libvoikko/";
    static byte[] rewrite(byte[] in) {
        ClassReader cr = new ClassReader(in);
        ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
        Remapper map = new Remapper() {
            @Override public String map(String n) {
                switch (n) {
                case "com/sun/jna/NativeLibrary": return "verif/StubNativeLibrary";
                case "java/util/concurrent/locks/ReentrantLock": return "verif/SimReentrantLock";
                case "java/util/concurrent/locks/ReentrantReadWriteLock": return "verif/SimRWLock";
                case "java/util/concurrent/locks/ReentrantReadWriteLock$ReadLock": return "verif/SimRWLock$ReadLock";
                case "java/util/concurrent/locks/ReentrantReadWriteLock$WriteLock": return "verif/SimRWLock$WriteLock";
                default: return n;
                }
            }
        };
        ClassVisitor seams = new ClassVisitor(ASM8, cw) {
            String cls;
            @Override public void visit(int v, int a, String n, String s, String sup, String[] i) { cls = n; super.visit(v, a, n, s, sup, i); }
            @Override public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
                boolean sync = (acc & ACC_SYNCHRONIZED) != 0, stat = (acc & ACC_STATIC) != 0;
                String nn = name.equals("finalize") && desc.equals("()V") ? "simFinalize" : name;
                MethodVisitor mv = super.visitMethod(acc & ~ACC_SYNCHRONIZED, nn, desc, sig, ex);
                if (mv == null || name.equals("<clinit>")) return mv;
                return new MethodVisitor(ASM8, mv) {
                    final Label start = new Label(), end = new Label();
                    void lock() { if (stat) super.visitLdcInsn(Type.getObjectType(cls)); else super.visitVarInsn(ALOAD, 0); }
                    void call(String m, String d) { super.visitMethodInsn(INVOKESTATIC, "verif/Sim", m, d, false); }
                    @Override public void visitCode() {
                        super.visitCode();
                        if (sync) { lock(); call("enter", "(Ljava/lang/Object;)V"); super.visitLabel(start); }
                    }
                    @Override public void visitInsn(int op) {
                        if (op == MONITORENTER) { call("enter", "(Ljava/lang/Object;)V"); return; }
                        if (op == MONITOREXIT) { call("exit", "(Ljava/lang/Object;)V"); return; }
                        if (sync && op >= IRETURN && op <= RETURN) { lock(); call("exit", "(Ljava/lang/Object;)V"); }
                        super.visitInsn(op);
                    }
                    @Override public void visitFieldInsn(int op, String owner, String n, String d) {
                        if (owner.startsWith(PKG)) call("point", "()V");
                        super.visitFieldInsn(op, owner, n, d);
                    }
                    @Override public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
                        if (owner.equals("com/sun/jna/Native") && (n.equals("load") || n.equals("loadLibrary") || n.equals("synchronizedLibrary"))) owner = "verif/StubNative";
                        if (owner.equals("java/lang/Object") && op == INVOKEVIRTUAL && n.equals("wait") && d.equals("()V")) { call("await", "(Ljava/lang/Object;)V"); return; }
                        if (owner.equals("java/lang/Object") && op == INVOKEVIRTUAL && n.equals("notify")) { call("notifyOne", "(Ljava/lang/Object;)V"); return; }
                        if (owner.equals("java/lang/Object") && op == INVOKEVIRTUAL && n.equals("notifyAll")) { call("notifyAll", "(Ljava/lang/Object;)V"); return; }
                        if (owner.startsWith(PKG + "Voikko") && n.equals("finalize") && d.equals("()V")) n = "simFinalize";
                        super.visitMethodInsn(op, owner, n, d, itf);
                    }
                    @Override public void visitMaxs(int s, int l) {
                        if (sync) {
                            super.visitLabel(end);
                            Label h = new Label();
                            super.visitLabel(h);
                            lock();
                            call("exit", "(Ljava/lang/Object;)V");
                            super.visitInsn(ATHROW);
                            super.visitTryCatchBlock(start, end, h, null);
                        }
                        super.visitMaxs(s, l);
                    }
                };
            }
        };
        cr.accept(new ClassRemapper(seams, map), ClassReader.SKIP_FRAMES);
        return cw.toByteArray();
    }
}
