package sim;

import score.*;
import java.io.ByteArrayOutputStream;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayDeque;
import java.util.Arrays;

/** The platform's RLPn codec, and the encoding of stored values. */
public class Rlp {
    static final byte[] NULL = {(byte) 0xf8, 0};

    static byte[] header(int len, int base) {
        if (len < 56) return new byte[]{(byte) (base + len)};
        byte[] l = BigInteger.valueOf(len).toByteArray();
        if (l[0] == 0) l = Arrays.copyOfRange(l, 1, l.length);
        byte[] r = new byte[1 + l.length];
        r[0] = (byte) (base + 55 + l.length);
        System.arraycopy(l, 0, r, 1, l.length);
        return r;
    }

    public static byte[] bytes(byte[] b) {
        if (b.length == 1 && (b[0] & 0xff) < 0x80) return b.clone();
        return cat(header(b.length, 0x80), b);
    }

    public static byte[] list(byte[]... e) {
        byte[] b = cat(e);
        return cat(header(b.length, 0xc0), b);
    }

    public static byte[] num(long v) { return bytes(BigInteger.valueOf(v).toByteArray()); }
    public static byte[] num(BigInteger v) { return bytes(v.toByteArray()); }
    public static byte[] str(String s) { return bytes(s.getBytes(StandardCharsets.UTF_8)); }
    public static byte[] nullable(byte[] b) { return b == null ? NULL : bytes(b); }

    public static byte[] cat(byte[]... e) {
        int n = 0;
        for (byte[] x : e) n += x.length;
        byte[] r = new byte[n];
        n = 0;
        for (byte[] x : e) { System.arraycopy(x, 0, r, n, x.length); n += x.length; }
        return r;
    }

    public static class Writer implements ByteArrayObjectWriter {
        private final ArrayDeque<ByteArrayOutputStream> stack = new ArrayDeque<>();
        public Writer() { stack.push(new ByteArrayOutputStream()); }
        private void put(byte[] b) { stack.peek().write(b, 0, b.length); }
        public void write(boolean v) { put(num(v ? 1 : 0)); }
        public void write(byte v) { put(num(v)); }
        public void write(short v) { put(num(v)); }
        public void write(char v) { put(num(v)); }
        public void write(int v) { put(num(v)); }
        public void write(long v) { put(num(v)); }
        public void write(BigInteger v) { put(num(v)); }
        public void write(String v) { put(str(v)); }
        public void write(byte[] v) { put(bytes(v)); }
        public void write(Address v) { put(bytes(v.toByteArray())); }
        public void write(Object v) {
            if (v == null) throw new NullPointerException();
            if (v instanceof Boolean) write((boolean) v);
            else if (v instanceof Byte || v instanceof Short || v instanceof Integer || v instanceof Long) put(num(((Number) v).longValue()));
            else if (v instanceof Character) write((char) v);
            else if (v instanceof BigInteger) write((BigInteger) v);
            else if (v instanceof String) write((String) v);
            else if (v instanceof byte[]) write((byte[]) v);
            else if (v instanceof Address) write((Address) v);
            else custom(v);
        }
        private void custom(Object v) {
            try {
                for (Method m : v.getClass().getDeclaredMethods()) {
                    Class<?>[] p = m.getParameterTypes();
                    if (m.getName().equals("writeObject") && p.length == 2 && p[0] == ObjectWriter.class && p[1].isInstance(v)) {
                        m.setAccessible(true);
                        m.invoke(null, this, v);
                        return;
                    }
                }
                throw new IllegalArgumentException("no writeObject in " + v.getClass());
            } catch (InvocationTargetException e) {
                throw Vm.sneak(e.getCause());
            } catch (IllegalAccessException e) {
                throw new IllegalStateException(e);
            }
        }
        public void writeNullable(Object v) { if (v == null) writeNull(); else write(v); }
        public void write(Object... v) { for (Object o : v) write(o); }
        public void writeNullable(Object... v) { for (Object o : v) writeNullable(o); }
        public void writeNull() { put(NULL); }
        public void beginList(int l) { stack.push(new ByteArrayOutputStream()); }
        public void beginNullableList(int l) { beginList(l); }
        public void writeListOf(Object... v) { beginList(v.length); write(v); end(); }
        public void writeListOfNullable(Object... v) { beginList(v.length); writeNullable(v); end(); }
        public void beginMap(int l) { beginList(l); }
        public void beginNullableMap(int l) { beginList(l); }
        public void end() {
            if (stack.size() < 2) throw new IllegalStateException("end without begin");
            byte[] b = stack.pop().toByteArray();
            put(header(b.length, 0xc0));
            put(b);
        }
        public byte[] toByteArray() {
            if (stack.size() != 1) throw new IllegalStateException("list not ended");
            return stack.peek().toByteArray();
        }
    }

    public static class Reader implements ObjectReader {
        private final byte[] b;
        private int pos, end;
        private final ArrayDeque<Integer> ends = new ArrayDeque<>();
        public Reader(byte[] b) {
            if (b == null) throw new NullPointerException();
            this.b = b;
            end = b.length;
        }
        private static RuntimeException bad() { return new IllegalStateException("malformed or missing item"); }
        // kind of the next item: 0 bytes, 1 list, 2 null; start and length of its content
        private int kind, start, len;
        private void peek() {
            if (pos >= end) throw new java.util.NoSuchElementException();
            int c = b[pos] & 0xff;
            long l;
            if (c < 0x80) { kind = 0; start = pos; len = 1; return; }
            if (c == 0xf8 && pos + 1 < end && b[pos + 1] == 0) { kind = 2; start = pos + 2; len = 0; return; }
            kind = c < 0xc0 ? 0 : 1;
            int base = c < 0xc0 ? 0x80 : 0xc0;
            if (c - base < 56) { start = pos + 1; l = c - base; }
            else {
                int n = c - base - 55;
                if (n > 4 || pos + 1 + n > end) throw bad();
                l = 0;
                for (int i = 0; i < n; i++) l = l << 8 | b[pos + 1 + i] & 0xff;
                start = pos + 1 + n;
            }
            if (start + l > end) throw bad();
            len = (int) l;
        }
        public byte[] readByteArray() {
            peek();
            if (kind != 0) throw bad();
            pos = start + len;
            return Arrays.copyOfRange(b, start, start + len);
        }
        private long fixed(int n) {
            byte[] r = readByteArray();
            if (r.length > n) throw bad();
            return r.length == 0 ? 0 : new BigInteger(r).longValue();
        }
        public boolean readBoolean() {
            long v = fixed(1);
            if (v != 0 && v != 1) throw bad();
            return v == 1;
        }
        public byte readByte() { return (byte) fixed(1); }
        public short readShort() { return (short) fixed(2); }
        public char readChar() { return (char) fixed(3); }
        public int readInt() { return (int) fixed(4); }
        public long readLong() { return fixed(8); }
        public BigInteger readBigInteger() {
            byte[] r = readByteArray();
            return r.length == 0 ? BigInteger.ZERO : new BigInteger(r);
        }
        public String readString() { return new String(readByteArray(), StandardCharsets.UTF_8); }
        public Address readAddress() { return new Address(readByteArray()); }
        @SuppressWarnings("unchecked")
        public <T> T read(Class<T> c) {
            if (c == Boolean.class) return (T) (Object) readBoolean();
            if (c == Byte.class) return (T) (Object) readByte();
            if (c == Short.class) return (T) (Object) readShort();
            if (c == Character.class) return (T) (Object) readChar();
            if (c == Integer.class) return (T) (Object) readInt();
            if (c == Long.class) return (T) (Object) readLong();
            if (c == BigInteger.class) return (T) readBigInteger();
            if (c == String.class) return (T) readString();
            if (c == byte[].class) return (T) readByteArray();
            if (c == Address.class) return (T) readAddress();
            try {
                Method m = c.getDeclaredMethod("readObject", ObjectReader.class);
                m.setAccessible(true);
                return (T) m.invoke(null, this);
            } catch (InvocationTargetException e) {
                throw Vm.sneak(e.getCause());
            } catch (ReflectiveOperationException e) {
                throw new IllegalArgumentException(e);
            }
        }
        public <T> T readOrDefault(Class<T> c, T d) { return hasNext() ? read(c) : d; }
        public <T> T readNullable(Class<T> c) {
            peek();
            if (kind == 2) { pos = start; return null; }
            return read(c);
        }
        public <T> T readNullableOrDefault(Class<T> c, T d) { return hasNext() ? readNullable(c) : d; }
        public void beginList() {
            peek();
            if (kind != 1) throw bad();
            ends.push(end);
            pos = start;
            end = start + len;
        }
        public boolean beginNullableList() {
            peek();
            if (kind == 2) { pos = start; return false; }
            beginList();
            return true;
        }
        public void beginMap() { beginList(); }
        public boolean beginNullableMap() { return beginNullableList(); }
        public boolean hasNext() { return pos < end; }
        public void end() {
            if (ends.isEmpty()) throw new IllegalStateException("end without begin");
            pos = end;
            end = ends.pop();
        }
        public void skip() { peek(); pos = start + len; }
        public void skip(int n) { for (int i = 0; i < n; i++) skip(); }
    }
}
