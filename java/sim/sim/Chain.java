package sim;

import score.*;
import score.annotation.*;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.util.*;

/** One chain: contracts with their state, balances and event logs; transactions are atomic. */
public class Chain {
    public final String net;
    public long height = 1;
    final Map<String, byte[]> state = new HashMap<>();
    final Map<Address, BigInteger> balances = new LinkedHashMap<>();
    final Map<Address, Object> contracts = new LinkedHashMap<>();
    final Map<Address, Address> owners = new HashMap<>();
    private final ArrayList<Runnable> undo = new ArrayList<>();
    final ArrayList<Ev> events = new ArrayList<>();
    private int created, txs;
    final Run run;

    public static class Ev { Address from; String name; Object[] args; long height;
        public String toString() {
            StringBuilder s = new StringBuilder(name);
            for (Object a : args) s.append(' ').append(a instanceof byte[] ? Vm.hex((byte[]) a) : String.valueOf(a));
            return s.toString();
        }
    }
    public static class Tx { public boolean ok; public int code = -1; public String err = ""; public Object ret; public List<Ev> events; }

    Chain(Run run, String net) { this.run = run; this.net = net; }

    public byte[] txHash() { return Vm.hash((net + txs).getBytes()); }
    byte[] load(String k) { return state.get(k); }
    void store(String k, byte[] v) {
        byte[] old = v == null ? state.remove(k) : state.put(k, v);
        undo.add(() -> { if (old == null) state.remove(k); else state.put(k, old); });
    }
    public BigInteger balance(Address a) { return balances.getOrDefault(a, BigInteger.ZERO); }
    void setBalance(Address a, BigInteger v) {
        BigInteger old = balances.put(a, v);
        undo.add(() -> { if (old == null) balances.remove(a); else balances.put(a, old); });
    }
    void credit(Address a, BigInteger v) { if (v.signum() != 0) balances.put(a, balance(a).add(v)); }
    void undoable(Runnable r) { undo.add(r); }
    private void rollback(int mark) {
        for (int i = undo.size() - 1; i >= mark; i--) undo.remove(i).run();
    }

    static Address addr(boolean contract, String seed) {
        byte[] h = Vm.hash(seed.getBytes());
        byte[] r = new byte[21];
        r[0] = (byte) (contract ? 1 : 0);
        System.arraycopy(h, 0, r, 1, 20);
        return new Address(r);
    }

    Address nextAddress() { return addr(true, net + "#" + created++); }

    /** Deploys a contract class of the repository or of the harness. */
    Address deploy(Address owner, Class<?> c, Object... args) throws Exception {
        Address a = nextAddress();
        owners.put(a, owner);
        Vm.Frame f = new Vm.Frame();
        f.chain = this; f.self = a; f.caller = owner; f.owner = owner; f.value = BigInteger.ZERO;
        Vm.stack.push(f);
        try {
            Constructor<?> k = c.getConstructors()[0];
            Object[] p = new Object[k.getParameterCount()];
            for (int i = 0; i < p.length; i++) p[i] = Vm.convert(i < args.length ? args[i] : null, k.getParameterTypes()[i]);
            contracts.put(a, k.newInstance(p));
        } finally {
            Vm.stack.pop();
        }
        undo.clear();
        return a;
    }
    void install(Address a, Object o) { contracts.put(a, o); owners.put(a, a); }

    private static final ClassValue<Map<String, Method>> methods = new ClassValue<Map<String, Method>>() {
        @Override protected Map<String, Method> computeValue(Class<?> x) {
            Map<String, Method> r = new HashMap<>();
            for (Method k : x.getMethods()) {
                if (k.isBridge()) continue;
                if (k.isAnnotationPresent(External.class) || k.getName().equals("fallback")) {
                    k.setAccessible(true);
                    r.put(k.getName(), k);
                }
            }
            return r;
        }
    };
    private static Method find(Class<?> c, String name) { return methods.get(c).get(name); }

    /** A call of one frame; a failure undoes everything the frame did. */
    Object invoke(Address caller, BigInteger value, Address to, String method, boolean readonly, Object... params) {
        int mark = undo.size(), evs = events.size();
        Object target = contracts.get(to);
        Object[] saved = null;
        List<Field> fields = null;
        if (Vm.stack.size() > 60) throw new RevertedException("too deep");
        Vm.Frame f = new Vm.Frame();
        f.chain = this; f.self = to; f.caller = caller; f.owner = owners.get(to); f.value = value;
        boolean pushed = false;
        try {
            if (value.signum() < 0) throw new IllegalArgumentException("negative value");
            if (value.signum() > 0) {
                if (readonly) throw new IllegalStateException("transfer in a query");
                if (balance(caller).compareTo(value) < 0) throw new RevertedException("out of balance");
                setBalance(caller, balance(caller).subtract(value));
                setBalance(to, balance(to).add(value));
            }
            if (target == null) {
                if (method.equals("fallback") && !to.isContract()) return null;
                throw new RevertedException("no contract at " + to);
            }
            Method m = find(target.getClass(), method);
            if (m == null) throw new RevertedException("no method " + method);
            External x = m.getAnnotation(External.class);
            f.readonly = readonly || x != null && x.readonly();
            if (value.signum() > 0 && !m.isAnnotationPresent(Payable.class)) throw new RevertedException("not payable: " + method);
            Class<?>[] t = m.getParameterTypes();
            if (params.length > t.length) throw new IllegalArgumentException("too many parameters");
            Object[] p = new Object[t.length];
            for (int i = 0; i < t.length; i++) p[i] = Vm.convert(i < params.length ? params[i] : null, t[i]);
            fields = fieldsOf(target.getClass());
            saved = new Object[fields.size()];
            for (int i = 0; i < saved.length; i++) saved[i] = fields.get(i).get(target);
            Vm.stack.push(f);
            pushed = true;
            return m.invoke(target, p);
        } catch (Throwable e) {
            if (e instanceof InvocationTargetException) e = e.getCause();
            if (e instanceof Run.Stop || e instanceof OutOfMemoryError) throw (Error) e;
            rollback(mark);
            while (events.size() > evs) events.remove(events.size() - 1);
            if (saved != null) for (int i = 0; i < saved.length; i++) try { fields.get(i).set(target, saved[i]); } catch (IllegalAccessException z) { throw new Error(z); }
            if (e instanceof Vm.Revert) throw new UserRevertedException(((Vm.Revert) e).code, e.getMessage());
            if (e instanceof UserRevertException) throw new UserRevertedException(((UserRevertException) e).getCode(), e.getMessage());
            if (e instanceof RevertedException && !pushed) throw (RevertedException) e;
            throw new RevertedException(e.toString(), e);
        } finally {
            if (pushed) Vm.stack.pop();
        }
    }
    // plain fields of a contract object are part of its state as well
    private static final ClassValue<List<Field>> plain = new ClassValue<List<Field>>() {
        @Override protected List<Field> computeValue(Class<?> x) {
            List<Field> r = new ArrayList<>();
            for (Class<?> k = x; k != null && k != Object.class; k = k.getSuperclass())
                for (Field f : k.getDeclaredFields())
                    if (!Modifier.isFinal(f.getModifiers()) && !Modifier.isStatic(f.getModifiers())) { f.setAccessible(true); r.add(f); }
            return r;
        }
    };
    private static List<Field> fieldsOf(Class<?> c) { return plain.get(c); }

    /** A transaction. */
    Tx exec(Address from, BigInteger value, Address to, String method, Object... params) {
        Tx t = new Tx();
        txs++;
        undo.clear();
        int evs = events.size();
        try {
            t.ret = invoke(from, value, to, method, false, params);
            t.ok = true;
        } catch (UserRevertedException e) {
            t.code = e.getCode();
            t.err = String.valueOf(e.getMessage());
        } catch (RevertedException e) {
            t.err = String.valueOf(e.getMessage());
            t.code = -2;
        }
        if (!Vm.stack.isEmpty()) throw new Error("frames left");
        undo.clear();
        t.events = new ArrayList<>(events.subList(evs, events.size()));
        return t;
    }
    /** A query. */
    Object query(Address to, String method, Object... params) {
        return invoke(to, BigInteger.ZERO, to, method, true, params);
    }

    /** Called by the transformed event methods of contracts. */
    public static void event(String name, Object[] args) {
        Vm.Frame f = Vm.cur();
        if (f.readonly) throw new IllegalStateException("event in a query");
        Ev e = new Ev();
        e.from = f.self; e.name = name; e.args = args; e.height = f.chain.height;
        f.chain.events.add(e);
    }
}
