package sim;

import score.*;
import java.math.BigInteger;
import java.util.*;

/** One network: chain, message center, services. */
public class Net {
    final Run run;
    final Chain ch;
    Address owner, bmc, xcall;
    String btp;
    final Map<String, Dir> out = new LinkedHashMap<>(), in = new LinkedHashMap<>();
    final Map<Long, Btp> btps = new LinkedHashMap<>();
    final Map<String, Model.Bsh> services = new LinkedHashMap<>();
    boolean xcallOn;
    String phantom;
    final List<Open> seen = new ArrayList<>();
    List<Address> phantomRelays = new ArrayList<>();
    final List<Model.Bsh> all = new ArrayList<>();
    final Set<Address> owners = new LinkedHashSet<>();
    BigInteger nsnActual = BigInteger.ZERO;
    String addr(Address a) { return "btp://" + ch.net + "/" + a; }
    List<String> links() { List<String> l = new ArrayList<>(out.keySet()); return l; }
    final Map<String, String> routes = new LinkedHashMap<>();
    final Map<String, Set<String>> reachable = new LinkedHashMap<>();
    final Map<String, BigInteger[]> fees = new LinkedHashMap<>();
    final Map<String, BigInteger> rewards = new TreeMap<>(); // "address net" -> amount
    final Map<String, Open> open = new LinkedHashMap<>(); // "src svc sn" -> response that may still be given
    final Map<BigInteger, Claim> claims = new LinkedHashMap<>();
    BigInteger nsn = BigInteger.ZERO;
    BigInteger bmcBalance = BigInteger.ZERO;
    final Set<Address> holders = new LinkedHashSet<>();
    Model.ChainScore score;
    Address feeHandler;
    // xcall
    final List<Model.App> apps = new ArrayList<>();
    BigInteger curReq, curSn, callSn = BigInteger.ZERO, protocolFee = BigInteger.ZERO, accrued = BigInteger.ZERO;
    Address xFeeHandler;
    final List<Run.XCall> arrived = new ArrayList<>(), answered = new ArrayList<>(), requests = new ArrayList<>();
    final List<BigInteger> reentered = new ArrayList<>();

    static class Open { BigInteger nsn; String feeNet; List<BigInteger> fees; byte[] payload; String from; BigInteger sn; String svc; }
    static class Claim { Address caller; String net; BigInteger amount; }

    Net(Run run, String name) { this.run = run; ch = new Chain(run, name); }

    /** Where a message for a network goes; null: nowhere. Several neighbours may announce it: any of them. */
    List<Dir> next(String net) {
        List<Dir> r = new ArrayList<>();
        if (out.containsKey(net)) { r.add(out.get(net)); return r; }
        if (routes.containsKey(net)) { r.add(out.get(routes.get(net))); return r; }
        for (String n : reachable.keySet()) if (reachable.get(n).contains(net)) r.add(out.get(n));
        return r;
    }
    void reward(Address a, String net, BigInteger v) {
        if (v.signum() == 0) return;
        String k = a + " " + net;
        rewards.merge(k, v, BigInteger::add);
        holders.add(a);
        run.touched.add(k);
    }
    List<BigInteger> feeList(String to, boolean both) {
        BigInteger[] f = fees.get(to);
        if (f == null) return new ArrayList<>();
        return new ArrayList<>(Arrays.asList(f).subList(0, both ? f.length : f.length / 2));
    }
}
