package sim;

import jdk.internal.org.objectweb.asm.*;
import java.nio.file.*;
import java.util.*;

/** Loads the contract classes, each contract its own copy (statics are per contract), with event methods made to log. */
public class Loader extends ClassLoader {
    static final Map<String, byte[]> code = new HashMap<>();
    static void init(String dir) throws Exception {
        Path root = Paths.get(dir);
        try (java.util.stream.Stream<Path> s = Files.walk(root)) {
            for (Path p : (Iterable<Path>) s.sorted()::iterator) {
                if (!p.toString().endsWith(".class")) continue;
                String n = root.relativize(p).toString().replace('/', '.');
                code.put(n.substring(0, n.length() - 6), transform(Files.readAllBytes(p)));
            }
        }
    }
    /** Packages of contracts that keep something in static fields: each contract gets its own copy of them. */
    static final Set<String> stateful = new HashSet<>();
    private static final Loader shared = new Loader(Loader.class.getClassLoader(), false);
    private final boolean own;
    private Loader(ClassLoader parent, boolean own) { super(parent); this.own = own; }
    static Class<?> load(String name) throws ClassNotFoundException {
        return stateful.contains(pkg(name)) ? new Loader(shared, true).loadClass(name) : shared.loadClass(name);
    }
    private static String pkg(String n) { return n.substring(0, n.lastIndexOf('.')); }
    @Override protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
        byte[] b = code.get(name);
        if (b == null || own && !stateful.contains(pkg(name))) return super.loadClass(name, resolve);
        Class<?> c = findLoadedClass(name);
        if (c == null) c = defineClass(name, b, 0, b.length);
        return c;
    }
    static byte[] transform(byte[] in) {
        ClassReader r = new ClassReader(in);
        ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
        r.accept(new ClassVisitor(Opcodes.ASM8, w) {
            @Override public FieldVisitor visitField(int acc, String name, String desc, String sig, Object v) {
                if ((acc & Opcodes.ACC_STATIC) != 0 && (acc & (Opcodes.ACC_SYNTHETIC | Opcodes.ACC_ENUM)) == 0 && !desc.endsWith("/Logger;") && !desc.equals("Lscore/Address;")
                    && (desc.startsWith("Ljava/util") || desc.startsWith("Lscore") || desc.startsWith("Lfoundation"))) stateful.add(pkg(r.getClassName().replace('/', '.')));
                return super.visitField(acc, name, desc, sig, v);
            }
            @Override public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
                MethodVisitor mv = super.visitMethod(acc, name, desc, sig, ex);
                if ((acc & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_BRIDGE)) != 0) return mv;
                return new MethodVisitor(Opcodes.ASM8, mv) {
                    boolean ev;
                    @Override public void visitFieldInsn(int op, String owner, String n, String d) {
                        if (op == Opcodes.PUTSTATIC && !name.equals("<clinit>")) stateful.add(pkg(r.getClassName().replace('/', '.')));
                        super.visitFieldInsn(op, owner, n, d);
                    }
                    @Override public AnnotationVisitor visitAnnotation(String d, boolean vis) {
                        if (d.equals("Lscore/annotation/EventLog;")) ev = true;
                        return super.visitAnnotation(d, vis);
                    }
                    @Override public void visitCode() {
                        super.visitCode();
                        if (!ev) return;
                        Type[] t = Type.getArgumentTypes(desc);
                        visitLdcInsn(name);
                        visitLdcInsn(t.length);
                        visitTypeInsn(Opcodes.ANEWARRAY, "java/lang/Object");
                        int slot = (acc & Opcodes.ACC_STATIC) != 0 ? 0 : 1;
                        for (int i = 0; i < t.length; i++) {
                            visitInsn(Opcodes.DUP);
                            visitLdcInsn(i);
                            visitVarInsn(t[i].getOpcode(Opcodes.ILOAD), slot);
                            slot += t[i].getSize();
                            String box = null;
                            switch (t[i].getSort()) {
                                case Type.INT: box = "Integer"; break;
                                case Type.LONG: box = "Long"; break;
                                case Type.BOOLEAN: box = "Boolean"; break;
                                case Type.SHORT: box = "Short"; break;
                                case Type.BYTE: box = "Byte"; break;
                                case Type.CHAR: box = "Character"; break;
                            }
                            if (box != null) visitMethodInsn(Opcodes.INVOKESTATIC, "java/lang/" + box, "valueOf", "(" + t[i].getDescriptor() + ")Ljava/lang/" + box + ";", false);
                            visitInsn(Opcodes.AASTORE);
                        }
                        visitMethodInsn(Opcodes.INVOKESTATIC, "sim/Chain", "event", "(Ljava/lang/String;[Ljava/lang/Object;)V", false);
                    }
                };
            }
        }, 0);
        return w.toByteArray();
    }
}
