package score;
import java.math.BigInteger;
import java.util.Map;
/** The platform's interface; everything is answered by the simulated chain. */
public final class Context {
    private Context() {}
    public static byte[] getTransactionHash() { return sim.Vm.cur().chain.txHash(); }
    public static int getTransactionIndex() { return 0; }
    public static long getTransactionTimestamp() { return sim.Vm.cur().chain.height * 2000000L; }
    public static BigInteger getTransactionNonce() { return BigInteger.ZERO; }
    public static Address getAddress() { return sim.Vm.cur().self; }
    public static Address getCaller() { return sim.Vm.cur().caller; }
    public static Address getOrigin() { return sim.Vm.origin(); }
    public static Address getOwner() { return sim.Vm.cur().owner; }
    public static BigInteger getValue() { return sim.Vm.cur().value; }
    public static long getBlockTimestamp() { return sim.Vm.cur().chain.height * 2000000L; }
    public static long getBlockHeight() { return sim.Vm.cur().chain.height; }
    public static BigInteger getBalance(Address a) { return sim.Vm.cur().chain.balance(a); }
    public static void transfer(Address to, BigInteger v) { sim.Vm.call(null, v, to, "fallback"); }
    public static <T> T call(Class<T> c, BigInteger v, Address to, String m, Object... p) { return sim.Vm.call(c, v, to, m, p); }
    public static Object call(BigInteger v, Address to, String m, Object... p) { return sim.Vm.call(null, v, to, m, p); }
    public static <T> T call(Class<T> c, Address to, String m, Object... p) { return sim.Vm.call(c, BigInteger.ZERO, to, m, p); }
    public static Object call(Address to, String m, Object... p) { return sim.Vm.call(null, BigInteger.ZERO, to, m, p); }
    public static void revert(int code, String m) { throw new sim.Vm.Revert(code, m); }
    public static void revert(int code) { throw new sim.Vm.Revert(code, null); }
    public static void revert(String m) { throw new sim.Vm.Revert(0, m); }
    public static void revert() { throw new sim.Vm.Revert(0, null); }
    public static void require(boolean c) { if (!c) throw new sim.Vm.Revert(0, null); }
    public static void require(boolean c, String m) { if (!c) throw new sim.Vm.Revert(0, m); }
    public static void println(String m) { sim.Vm.println(m); }
    public static byte[] hash(String alg, byte[] m) { return sim.Vm.hash(m); }
    public static boolean verifySignature(String alg, byte[] m, byte[] s, byte[] k) { throw new UnsupportedOperationException(); }
    public static byte[] recoverKey(String alg, byte[] m, byte[] s, boolean compressed) { return sim.Vm.recover(m, s); }
    public static Address getAddressFromKey(byte[] k) { throw new UnsupportedOperationException(); }
    public static int getFeeSharingProportion() { return 0; }
    public static void setFeeSharingProportion(int p) {}
    public static <K, V> BranchDB<K, V> newBranchDB(String id, Class<?> c) { return sim.Db.branch(id, c); }
    public static <K, V> DictDB<K, V> newDictDB(String id, Class<V> c) { return sim.Db.dict(id, c); }
    public static <E> ArrayDB<E> newArrayDB(String id, Class<E> c) { return sim.Db.array(id, c); }
    public static <E> VarDB<E> newVarDB(String id, Class<E> c) { return sim.Db.var(id, c); }
    public static void logEvent(Object[] indexed, Object[] data) {}
    public static ObjectReader newByteArrayObjectReader(String codec, byte[] b) { return new sim.Rlp.Reader(b); }
    public static ByteArrayObjectWriter newByteArrayObjectWriter(String codec) { return new sim.Rlp.Writer(); }
}
