package sim;

import score.*;
import java.math.BigInteger;

/** State of a contract: handles bound to the contract that creates them, values kept in encoded form. */
public class Db {
    static class Ref { Chain chain; String id; Class<?> type;
        Ref(Chain c, String id, Class<?> t) { chain = c; this.id = id; type = t; }
        Object get(String k) {
            byte[] b = chain.load(id + k);
            return b == null ? null : new Rlp.Reader(b).read(type);
        }
        void put(String k, Object v) {
            if (Vm.cur().readonly) throw new IllegalStateException("write in a query");
            if (v == null) { chain.store(id + k, null); return; }
            Rlp.Writer w = new Rlp.Writer();
            w.write(v);
            chain.store(id + k, w.toByteArray());
        }
    }
    private static Ref ref(String id, Class<?> t) { return new Ref(Vm.cur().chain, Vm.cur().self + "/" + id, t); }
    static String key(Object k) {
        if (k == null) throw new NullPointerException();
        if (k instanceof byte[]) return "/" + Vm.hex((byte[]) k);
        if (k instanceof Number || k instanceof Character || k instanceof BigInteger || k instanceof Address || k instanceof String) {
            String s = k.toString();
            return "/" + s.length() + ":" + s;
        }
        throw new IllegalArgumentException("key of " + k.getClass());
    }
    @SuppressWarnings("unchecked")
    static class Var<E> implements VarDB<E> {
        final Ref r;
        Var(Ref r) { this.r = r; }
        public void set(E v) { r.put("", v); }
        public E get() { return (E) r.get(""); }
        public E getOrDefault(E d) { E v = get(); return v == null ? d : v; }
    }
    @SuppressWarnings("unchecked")
    static class Node<K, V> implements DictDB<K, V>, BranchDB<K, V>, ArrayDB<V> {
        final Ref r;
        Node(Ref r) { this.r = r; }
        public V at(K k) { return (V) new Node<Object, Object>(new Ref(r.chain, r.id + key(k), r.type)); }
        public void set(K k, V v) { r.put(key(k), v); }
        public V get(K k) { return (V) r.get(key(k)); }
        public V getOrDefault(K k, V d) { V v = get(k); return v == null ? d : v; }
        public int size() {
            byte[] b = r.chain.load(r.id + "#");
            return b == null ? 0 : new BigInteger(b).intValue();
        }
        private void resize(int n) {
            if (Vm.cur().readonly) throw new IllegalStateException("write in a query");
            r.chain.store(r.id + "#", n == 0 ? null : BigInteger.valueOf(n).toByteArray());
        }
        private void check(int i) { if (i < 0 || i >= size()) throw new IllegalArgumentException("index out of range"); }
        public void add(V v) { int n = size(); r.put("[" + n, v); resize(n + 1); }
        public void set(int i, V v) { check(i); r.put("[" + i, v); }
        public V get(int i) { check(i); return (V) r.get("[" + i); }
        public void removeLast() { pop(); }
        public V pop() {
            int n = size();
            if (n == 0) throw new IllegalStateException("empty");
            V v = (V) r.get("[" + (n - 1));
            r.put("[" + (n - 1), null);
            resize(n - 1);
            return v;
        }
    }
    public static <E> VarDB<E> var(String id, Class<?> c) { return new Var<>(ref("v" + id, c)); }
    public static <K, V> DictDB<K, V> dict(String id, Class<?> c) { return new Node<>(ref("d" + id, c)); }
    public static <K, V> BranchDB<K, V> branch(String id, Class<?> c) { return new Node<>(ref("d" + id, c)); }
    public static <E> ArrayDB<E> array(String id, Class<?> c) { return new Node<Object, E>(ref("a" + id, c)); }
}
