package sim;

import score.*;
import score.annotation.*;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.*;

/** Executes contract calls: frames, atomic rollback, conversion of values, checks of the platform. */
public class Vm {
    public static class Frame {
        public Chain chain;
        public Address self, caller, owner;
        public BigInteger value;
        public boolean readonly;
    }
    /** An explicit revert; contracts cannot catch it. */
    public static class Revert extends Error {
        public final int code;
        public Revert(int code, String m) { super(m); this.code = code; }
    }
    static final ArrayDeque<Frame> stack = new ArrayDeque<>();
    public static Frame cur() { return stack.peek(); }
    public static Address origin() { return stack.peekLast().caller; }
    public static void println(String m) {}

    @SuppressWarnings("unchecked")
    static <E extends Throwable> RuntimeException sneak(Throwable t) throws E { throw (E) t; }

    static final MessageDigest sha;
    static { try { sha = MessageDigest.getInstance("SHA-256"); } catch (Exception e) { throw new Error(e); } }
    // the platform's functions: any collision free hash, any unforgeable signature does
    public static byte[] hash(byte[] m) { return sha.digest(m); }
    public static byte[] pubkey(int id) {
        byte[] r = new byte[65];
        r[0] = 4;
        System.arraycopy(hash(("key" + id).getBytes()), 0, r, 1, 32);
        System.arraycopy(hash(("yek" + id).getBytes()), 0, r, 33, 32);
        return r;
    }
    public static byte[] sign(int id, byte[] m) {
        byte[] r = new byte[65];
        System.arraycopy(pubkey(id), 1, r, 0, 32);
        System.arraycopy(hash(Rlp.cat(pubkey(id), m)), 0, r, 32, 32);
        r[64] = (byte) id;
        return r;
    }
    public static byte[] recover(byte[] m, byte[] sig) {
        if (sig.length != 65 || m.length != 32) throw new IllegalArgumentException();
        int id = sig[64] & 0xff;
        byte[] k = pubkey(id);
        if (Arrays.equals(sig, sign(id, m))) return k;
        byte[] r = new byte[65]; // a signature over something else recovers to some other key
        r[0] = 4;
        System.arraycopy(hash(Rlp.cat(m, sig)), 0, r, 1, 32);
        return r;
    }
    static String hex(byte[] b) {
        StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(Character.forDigit(x >> 4 & 15, 16)).append(Character.forDigit(x & 15, 16));
        return s.toString();
    }

    static Object convert(Object v, Class<?> t) {
        if (v == null) {
            if (!t.isPrimitive()) return null;
            if (t == boolean.class) return false;
            v = BigInteger.ZERO;
        }
        if (t.isInstance(v)) return v;
        if (v instanceof Number) {
            BigInteger n = v instanceof BigInteger ? (BigInteger) v : BigInteger.valueOf(((Number) v).longValue());
            if (t == BigInteger.class) return n;
            if (t == int.class || t == Integer.class) return n.intValueExact();
            if (t == long.class || t == Long.class) return n.longValueExact();
            if (t == short.class || t == Short.class) return n.shortValueExact();
            if (t == byte.class || t == Byte.class) return n.byteValueExact();
            if (t == char.class || t == Character.class) return (char) n.intValueExact();
            if (t == boolean.class || t == Boolean.class) return n.signum() != 0;
        }
        if (v instanceof Boolean && (t == boolean.class)) return v;
        throw new IllegalArgumentException("parameter " + t + " given " + v.getClass());
    }

    @SuppressWarnings("unchecked")
    public static <T> T call(Class<T> ret, BigInteger value, Address to, String method, Object... params) {
        Frame f = cur();
        Object r = f.chain.invoke(f.self, value == null ? BigInteger.ZERO : value, to, method, f.readonly, params);
        if (ret == null) return (T) r;
        if (ret == void.class || ret == Void.class) return null;
        return r == null ? null : (T) convert(r, ret);
    }
}
