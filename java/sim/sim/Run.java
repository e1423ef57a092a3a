package sim;

import score.*;
import java.math.BigInteger;
import java.util.*;

/** One run: a network of chains with the repository's contracts, users, relays and faults, against a reference model. */
public class Run {
    static class Stop extends Error { Stop() { super(null, null, false, false); } }
    static final BigInteger ZERO = BigInteger.ZERO;

    final Chooser c;
    final String scenario, prop;
    final boolean deep;
    boolean tracing;
    String sig, msg;
    final List<String> trace = new ArrayList<>();
    final Map<String, Integer> faults = new TreeMap<>(), counts = new TreeMap<>();
    final Set<Long> states = new LinkedHashSet<>();
    final Set<String> touched = new LinkedHashSet<>();
    int steps;
    private long dig = 1469598103934665603L;
    final List<Net> nets = new ArrayList<>();
    final List<Dir> dirs = new ArrayList<>();
    final Map<String, BigInteger> floating = new HashMap<>(); // claims under way, by network
    final Map<String, BigInteger> lost = new HashMap<>(); // fees of messages to removed links
    int nextId = 1, nextSn = 1;
    final Map<String, Rec> recs = new LinkedHashMap<>(); // service messages by origin and network serial number
    final Map<String, XCall> calls = new LinkedHashMap<>();
    boolean quiet; // no more faults
    final List<Address> users = new ArrayList<>();
    Address stranger;

    static class Rec { M m; int handled, refused, errored, dropped; boolean lost; }
    static class XCall { Net src, dst; Address caller, to; byte[] data, rollback; BigInteger sn, nsn, reqId; int executed, failed, rolled; boolean arrived, done, enabled, lost; }

    Run(Chooser c, String scenario, boolean deep) {
        this.c = c; this.scenario = scenario; this.deep = deep;
        prop = scenario.equals("j-bmc") ? "C19" : scenario.equals("j-fee") ? "C20" : "C21";
    }
    String digest() { return Long.toHexString(dig); }
    long simMs() { long t = 0; for (Net n : nets) t = Math.max(t, n.ch.height * 2000); return t; }
    boolean nontrivial() { return counts.getOrDefault("delivered", 0) > 0; }
    void fault(String f) { faults.merge(f, 1, Integer::sum); }
    void count(String f) { counts.merge(f, 1, Integer::sum); }
    void note(String s) {
        for (int i = 0; i < s.length(); i++) { dig ^= s.charAt(i); dig *= 1099511628211L; }
        trace.add(s);
        if (trace.size() > 4000 && !tracing) trace.remove(0);
    }
    /** A violation of property p; of another property than this scenario's: the run ends without verdict. */
    Stop bad(String p, String sig, String m) {
        if (p.contains(prop)) { this.sig = prop + ":" + sig; this.msg = m; note("VIOLATION " + m); }
        else { count("ended-early"); note("run ends: " + m); }
        return new Stop();
    }
    void check(boolean ok, String p, String sig, String m) { if (!ok) throw bad(p, sig, m); }

    // ------------------------------------------------------------------ expectations of one transaction
    class Exp {
        final Map<Dir, List<M>> out = new LinkedHashMap<>();
        final Map<Model.Bsh, List<Model.Call>> calls = new LinkedHashMap<>();
        final List<M> drops = new ArrayList<>();
        void out(Dir d, M m) { out.computeIfAbsent(d, k -> new ArrayList<>()).add(m); }
    }
    Exp x;
    final Map<Dir, int[]> refuse = new HashMap<>(); // model's copy of how many sends are still refused
    boolean trySend(Dir d, M m) {
        if (d.net != null) {
            int[] k = refuse.get(d);
            if (k != null && k[0] > 0) { k[0]--; return false; }
        }
        x.out(d, m);
        if (d.dst == null) vanished(m); // a link without relays
        return true;
    }
    void vanished(M m) {
        Rec r = rec(m);
        if (r != null) r.lost = true;
        XCall k = calls.get(origin(m));
        if (k == null && m.nsn.signum() < 0) k = calls.get(m.dst + " " + m.nsn.negate());
        if (k != null) k.lost = true;
    }
    /** Some sends of the coming transaction will be refused by the chain. */
    void drawRefusal(Net n) {
        refuse.clear();
        for (Dir d : n.out.values()) {
            d.refuse = 0;
            if (d.net == null || quiet || !c.p(120)) continue;
            d.refuse = c.p(500) ? 1 : 1000;
            refuse.put(d, new int[]{d.refuse});
        }
    }
    void clearRefusal(Net n) { refuse.clear(); for (Dir d : n.out.values()) d.refuse = 0; }

    /** Runs a transaction and compares everything that can be observed with what the model expects. */
    Chain.Tx tx(Net n, String what, boolean expectOk, String p, Address from, BigInteger value, Address to, String method, Object... params) {
        steps++;
        Map<Dir, Integer> before = new HashMap<>();
        for (Dir d : n.out.values()) before.put(d, d.sent.size());
        Map<Model.Bsh, Integer> logs = new HashMap<>();
        for (Model.Bsh b : n.all) logs.put(b, b.log.size());
        BigInteger nsn0 = n.nsnActual;
        n.ch.credit(from, value);
        Chain.Tx t = n.ch.exec(from, value, to, method, params);
        if (!t.ok) n.ch.credit(from, value.negate());
        note(n.ch.net + " " + what + (t.ok ? " ok" : " failed (" + t.code + ")") + (refuse.isEmpty() ? "" : " sends refused"));
        if (tracing && !t.ok) trace.add("    " + t.err);
        clearRefusal(n);
        if (expectOk != t.ok)
            throw bad(p, expectOk ? "refused" : "accepted", n.ch.net + ": " + what + (expectOk ? " must succeed but failed: " + t.err : " must be refused but had effect"));
        // messages announced by events
        for (Chain.Ev e : t.events) {
            if (!e.from.equals(n.bmc) || !e.name.equals("Message")) continue;
            String net = M.net((String) e.args[0]);
            Dir d = n.out.get(net);
            check(d != null && d.net == null && d.pnid == 0 && d.dstBtp.equals(e.args[0]), "C19", "message-target", "message for " + e.args[0]);
            check(e.args[1].equals(BigInteger.valueOf(d.sent.size() + 1)), "C19", "tx-seq", "message " + e.args[1] + " of " + d + " follows " + d.sent.size());
            d.sent.add((byte[]) e.args[2]);
            d.heights.add(n.ch.height);
        }
        Set<BigInteger> used = new HashSet<>();
        for (Dir d : n.out.values()) {
            List<M> want = x.out.getOrDefault(d, Collections.emptyList());
            int b = before.getOrDefault(d, 0);
            for (int i = 0; i < Math.max(want.size(), d.sent.size() - b); i++) {
                check(i < want.size(), "C19", "extra-message", d + ": message that nobody sent: " + (b + i < d.sent.size() ? M.dec(d.sent.get(b + i)) : ""));
                check(b + i < d.sent.size(), "C19", "missing-message", d + ": message missing: " + want.get(i));
                compare(d, M.dec(d.sent.get(b + i)), want.get(i), used, nsn0, n);
            }
        }
        for (Model.Bsh s : n.all) {
            List<Model.Call> want = x.calls.getOrDefault(s, Collections.emptyList());
            int b = logs.get(s);
            for (int i = 0; i < Math.max(want.size(), s.log.size() - b); i++) {
                check(i < want.size(), "C19", "extra-call", n.ch.net + ": service got " + (b + i < s.log.size() ? s.log.get(b + i) : "") + ", not expected");
                check(b + i < s.log.size(), "C19", "missing-call", n.ch.net + ": service did not get " + want.get(i));
                String g = s.log.get(b + i).toString(), w = want.get(i).toString();
                check(g.equals(w), "C19", "call", n.ch.net + ": service got " + g + ", expected " + w);
            }
        }
        int k = 0;
        for (Chain.Ev e : t.events) {
            if (!e.from.equals(n.bmc) || !e.name.equals("MessageDropped")) continue;
            M m = M.dec((byte[]) e.args[2]);
            check(k < x.drops.size(), "C19", "extra-drop", n.ch.net + ": dropped " + m);
            M w = x.drops.get(k++);
            check(m.src.equals(w.src) && m.sn.equals(w.sn) && m.nsn.equals(w.nsn) && m.svc.equals(w.svc), "C19", "drop", n.ch.net + ": reported " + m + " as dropped, expected " + w);
        }
        check(k == x.drops.size(), "C19", "missing-drop", n.ch.net + ": a message vanished: " + (k < x.drops.size() ? x.drops.get(k) : ""));
        state(n, t.ok);
        return t;
    }
    void compare(Dir d, M g, M w, Set<BigInteger> used, BigInteger nsn0, Net n) {
        boolean ok = g.src.equals(w.src) && g.dst.equals(w.dst) && g.svc.equals(w.svc) && g.sn.equals(w.sn);
        if (w.nsn != null) ok &= g.nsn.equals(w.nsn);
        else ok &= g.nsn.signum() > 0 && g.nsn.compareTo(nsn0) > 0 && g.nsn.compareTo(n.nsn) <= 0 && used.add(g.nsn);
        if (w.code >= 0) check(!ok || g.code == w.code, "C19", "error-code", d + ": error " + g + ", expected code " + w.code);
        if (w.kind != null) {
            String wk = w.kind + w.nets, gk = g.kind + g.nets;
            if (w.kind.equals("Claim")) check(!ok || wk.equals(gk), "C20", "claim", d + ": " + g + ", expected " + w);
            else ok &= wk.equals(gk);
        }
        if (w.payload != null) ok &= Arrays.equals(g.payload, w.payload);
        check(ok, "C19", "message", d + ": sent " + g + ", expected " + w);
        check(String.valueOf(g.feeNet).equals(String.valueOf(w.feeNet)) && g.fees.equals(w.fees), "C20", "fees", d + ": sent " + g + ", expected fees " + w.feeNet + w.fees);
    }
    /** What can be asked of the contracts after a transaction. */
    void state(Net n, boolean changed) {
        n.nsnActual = (BigInteger) n.ch.query(n.bmc, "getNetworkSn");
        check(n.nsnActual.equals(n.nsn), "C19", "nsn", n.ch.net + ": network serial number " + n.nsnActual + ", expected " + n.nsn);
        for (Dir d : n.in.values()) seqs(n, d.src.ch.net, d);
        if (prop.equals("C20")) {
            for (String k : touched) {
                String[] p = k.split(" ");
                BigInteger g = (BigInteger) n.ch.query(n.bmc, "getReward", p[1], Address.fromString(p[0]));
                BigInteger w = n.rewards.getOrDefault(k, ZERO);
                check(g.equals(w), "C20", "reward", n.ch.net + ": reward of " + p[0] + " for " + p[1] + " is " + g + ", expected " + w);
            }
            check(n.ch.balance(n.bmc).equals(n.bmcBalance), "C20", "balance", n.ch.net + ": message center holds " + n.ch.balance(n.bmc) + ", expected " + n.bmcBalance);
        }
        touched.clear();
        if (changed) {
            long h = 17;
            for (Dir d : dirs) h = h * 31 + (d.rx * 7 + d.sent.size()) * 13 + d.blk;
            for (Net m : nets) h = h * 31 + m.open.size() * 5 + m.claims.size() * 3 + m.services.size() + m.rewards.size() * 11;
            states.add(h * 0x9E3779B97F4A7C15L);
        }
    }
    void seqs(Net n, String net, Dir d) {
        Object s = n.ch.query(n.bmc, "getStatus", n.out.get(net).dstBtp);
        BigInteger rx = field(s, "getRx_seq"), tx = field(s, "getTx_seq");
        Object v = get(s, "getVerifier");
        long h = (Long) get(v, "getHeight"), wh = d.net == null ? d.vh : d.net.blocks.get(d.blk - 1).height;
        check(h == wh, "C19", "status", d + ": the verifier's height is " + h + ", expected " + wh);
        check(get(s, "getCur_height").equals(n.ch.height), "C19", "status", n.ch.net + ": height " + get(s, "getCur_height") + ", expected " + n.ch.height);
        if (d.net != null) {
            Btp.Block b = d.net.blocks.get(d.blk - 1);
            byte[] e = (byte[]) get(v, "getExtra"), w = Rlp.list(Rlp.num(0), Rlp.num(b.first), Rlp.num(b.msgs.size()));
            check(Arrays.equals(e, w), "C19", "status", d + ": the verifier's state is " + Vm.hex(e) + ", expected " + Vm.hex(w));
        }
        check(rx.equals(BigInteger.valueOf(d.rx)), "C19", "rx-seq", d + ": rx " + rx + ", taken " + d.rx);
        check(tx.equals(BigInteger.valueOf(n.out.get(net).sent.size())), "C19", "tx-seq", n.out.get(net) + ": tx " + tx + ", sent " + n.out.get(net).sent.size());
    }
    static Object get(Object o, String getter) {
        try { return o.getClass().getMethod(getter).invoke(o); } catch (ReflectiveOperationException e) { throw new Error(e); }
    }
    static BigInteger field(Object o, String getter) {
        try { return (BigInteger) o.getClass().getMethod(getter).invoke(o); } catch (ReflectiveOperationException e) { throw new Error(e); }
    }

    // ------------------------------------------------------------------ the reference model of a message center
    void collect(Net n, String net, List<BigInteger> f) {
        for (BigInteger v : f) n.reward(n.bmc, net, v);
    }
    M originate(Net n, String to, String svc, BigInteger sn, byte[] payload) {
        M m = new M();
        m.src = n.ch.net; m.dst = to; m.svc = svc; m.sn = sn; m.payload = payload;
        n.nsn = n.nsn.add(BigInteger.ONE);
        m.nsn = n.nsn;
        m.feeNet = n.ch.net;
        m.fees = n.feeList(to, sn == null || sn.signum() > 0);
        if (sn == null) m.sn = m.nsn;
        return m;
    }
    BigInteger feeOf(Net n, String to, boolean both) {
        BigInteger s = ZERO;
        for (BigInteger v : n.feeList(to, both)) s = s.add(v);
        return s;
    }
    Dir next(Net n, String net) {
        List<Dir> l = n.next(net);
        return l.isEmpty() ? null : l.get(0);
    }
    static String key(String a, String b, BigInteger c) { return a + " " + b + " " + c; }

    /** A response of a service; false if it cannot be given. */
    boolean reply(Net n, String to, String svc, BigInteger sn, byte[] payload, BigInteger value, String kind) {
        Dir d = next(n, to);
        Net.Open o = n.open.get(key(to, svc, sn));
        if (d == null || o == null) return false;
        M m = new M();
        m.src = n.ch.net; m.dst = to; m.svc = svc; m.sn = ZERO; m.payload = payload; m.nsn = o.nsn.negate(); m.feeNet = o.feeNet; m.fees = new ArrayList<>(o.fees);
        if (kind != null) { m.kind = kind; m.nets = new TreeSet<>(Collections.singleton("0")); }
        if (!trySend(d, m)) return false;
        n.open.remove(key(to, svc, sn));
        n.reward(n.bmc, n.ch.net, value);
        return true;
    }
    static final int OK = -1, UNKNOWN = 1, NO_ROUTE = 2, NO_BSH = 3, BSH_REVERT = 4;

    void process(Dir d, Address relay, byte[] raw) {
        Net n = d.dst;
        M m = M.dec(raw);
        count("delivered");
        if (m.feeNet != null && !m.fees.isEmpty()) n.reward(relay, m.feeNet, m.fees.remove(0));
        settle(n, d, m, m.dst.equals(n.ch.net) ? handle(n, m) : route(n, m));
    }
    int route(Net n, M m) {
        Dir next = next(n, m.dst);
        if (next == null) return NO_ROUTE;
        if (m.payload != null) m.kind = null;
        if (!trySend(next, m)) return UNKNOWN;
        count("routed");
        return OK;
    }
    void settle(Net n, Dir d, M m, int code) {
        if (code == OK) return;
        Dir back = n.out.get(d.src.ch.net);
        if (m.sn.signum() > 0) {
            M e = new M();
            e.src = n.ch.net; e.dst = m.src; e.svc = m.svc; e.sn = m.sn.negate(); e.nsn = m.nsn.negate(); e.code = code; e.feeNet = m.feeNet;
            e.fees = new ArrayList<>(m.fees);
            int hop = n.feeList(m.src, false).size();
            if (hop > 0 && e.fees.size() > hop) Collections.rotate(e.fees, hop); // the way back is paid with the last fees
            Rec r = rec(m);
            if (trySend(back, e)) { count("error-sent"); if (r != null) r.refused++; return; }
        }
        collect(n, m.feeNet, m.fees);
        x.drops.add(m);
        count("dropped");
        Rec r = rec(m);
        if (r != null) if (m.code >= 0) r.lost = true; else r.dropped++;
        XCall k = calls.get(origin(m));
        if (k == null && m.nsn.signum() < 0) k = calls.get(m.dst + " " + m.nsn.negate());
        if (k != null) k.lost = true;
    }
    /** The request that a message or the error for it belongs to. */
    static String origin(M m) { return m.code >= 0 ? m.dst + " " + m.nsn.negate() : m.src + " " + m.nsn; }
    Rec rec(M m) { return recs.get(origin(m)); }

    int handle(Net n, M m) {
        if (m.sn.signum() < 0) {
            BigInteger sn = m.sn.negate();
            int code = OK;
            if (m.svc.equals("bmc")) code = response(n, m.nsn.negate(), m.code);
            else if (m.svc.equals("xcall") && n.xcallOn) xcallAnswer(n, m);
            else {
                Model.Bsh b = n.services.get(m.svc);
                if (b == null) code = NO_BSH;
                else if (b.refuseErrors) { code = BSH_REVERT; fault("service-refuses-error"); }
                else {
                    Model.Call k = new Model.Call();
                    k.error = true; k.from = m.src; k.svc = m.svc; k.sn = sn; k.code = m.code;
                    x.calls.computeIfAbsent(b, z -> new ArrayList<>()).add(k);
                    count("error-delivered");
                    Rec r = rec(m);
                    if (r != null) r.errored++;
                }
            }
            if (code == OK) collect(n, m.feeNet, m.fees);
            return code;
        }
        String k = key(m.src, m.svc, m.sn);
        boolean keep = m.feeNet != null && m.sn.signum() > 0;
        if (keep) {
            Net.Open old = n.open.get(k);
            if (old != null) collect(n, old.feeNet, old.fees);
            Net.Open o = new Net.Open();
            o.nsn = m.nsn; o.feeNet = m.feeNet; o.fees = m.fees; o.payload = m.payload; o.from = m.src; o.sn = m.sn; o.svc = m.svc;
            n.open.put(k, o);
            if (!m.svc.equals("bmc") && !m.svc.equals("xcall")) n.seen.add(o);
        }
        int code = deliver(n, m);
        if (code != OK) { if (keep) n.open.remove(k); }
        else if (m.feeNet != null && !keep) collect(n, m.feeNet, m.fees);
        return code;
    }
    int deliver(Net n, M m) {
        if (m.svc.equals("bmc")) {
            switch (m.kind) {
                case "Claim": {
                    Iterator<String> i = m.nets.iterator();
                    BigInteger amount = new BigInteger(i.next());
                    String to = i.next().substring(3);
                    Address a;
                    try { a = Address.fromString(to); } catch (RuntimeException e) { return UNKNOWN; }
                    touched.add(a + " " + n.ch.net);
                    n.holders.add(a);
                    if (next(n, m.src) == null) return NO_ROUTE;
                    if (!reply(n, m.src, "bmc", m.sn, null, ZERO, "Response")) return UNKNOWN;
                    n.reward(a, n.ch.net, amount);
                    floating.merge(n.ch.net, amount.negate(), BigInteger::add);
                    count("claim-honoured");
                    return OK;
                }
                case "Response": return response(n, m.nsn.negate(), Long.parseLong(m.nets.iterator().next()));
                default: {
                    if (!n.out.containsKey(m.src)) return UNKNOWN;
                    Set<String> r = n.reachable.computeIfAbsent(m.src, z -> new TreeSet<>());
                    if (m.kind.equals("Unlink")) r.removeAll(m.nets); else r.addAll(m.nets);
                    return OK;
                }
            }
        }
        if (m.svc.equals("xcall") && n.xcallOn) { xcallIn(n, m); return OK; }
        Model.Bsh b = n.services.get(m.svc);
        if (b == null) return NO_BSH;
        byte[] p = m.payload;
        int mode = p.length < 6 ? Model.ACCEPT : p[0];
        switch (mode) {
            case Model.REVERT: case Model.RESPONSE_REVERT: case Model.CRASH: fault("service-reverts"); return BSH_REVERT;
            case Model.SENDREVERT: {
                fault("service-reverts");
                if (m.sn.signum() > 0) { // an attempt that is undone
                    Exp keep = x;
                    Net.Open o = n.open.get(key(m.src, m.svc, m.sn));
                    x = new Exp();
                    Map<String, BigInteger> rw = new TreeMap<>(n.rewards);
                    reply(n, m.src, m.svc, m.sn, p, ZERO, null);
                    n.rewards.clear();
                    n.rewards.putAll(rw);
                    if (o != null) n.open.put(key(m.src, m.svc, m.sn), o);
                    x = keep;
                }
                return BSH_REVERT;
            }
            case Model.REPLY:
                if (m.sn.signum() > 0 && !reply(n, m.src, m.svc, m.sn, Model.response(p, Model.RESPONSE), ZERO, null)) return BSH_REVERT;
                break;
            case Model.FORWARD: {
                Dir d = next(n, m.src);
                if (d == null || feeOf(n, m.src, false).signum() > 0) return BSH_REVERT;
                BigInteger keep = n.nsn;
                if (!trySend(d, originate(n, m.src, m.svc, ZERO, Model.response(p, Model.RESPONSE)))) { n.nsn = keep; return BSH_REVERT; }
            }
        }
        Model.Call k = new Model.Call();
        k.from = m.src; k.svc = m.svc; k.sn = m.sn; k.payload = p;
        x.calls.computeIfAbsent(b, z -> new ArrayList<>()).add(k);
        Rec r = rec(m);
        if (r != null) r.handled++;
        count("handled");
        return OK;
    }
    int response(Net n, BigInteger nsn, long code) {
        Net.Claim k = n.claims.remove(nsn);
        if (k == null) return UNKNOWN;
        if (code != 0) { n.reward(k.caller, k.net, k.amount); floating.merge(k.net, k.amount.negate(), BigInteger::add); count("claim-restored"); }
        return OK;
    }

    // ------------------------------------------------------------------ xcall
    void xcallIn(Net n, M m) {
        XCall k = m.nsn.signum() > 0 ? calls.get(m.src + " " + m.nsn) : null;
        if (k != null) { k.arrived = true; n.arrived.add(k); } else xcallAnswer(n, m);
    }
    void xcallAnswer(Net n, M m) {
        XCall k = calls.get(n.ch.net + " " + m.nsn.negate());
        if (k == null) return;
        n.answered.add(k);
        if (m.code >= 0 || k.failed > 0) k.enabled = true; else k.done = true;
    }
    /** What xcall reported in a transaction: new requests and rollbacks. */
    void xcallEvents(Net n, Chain.Tx t) {
        int a = 0, b = 0;
        for (Chain.Ev e : t.events) {
            if (!e.from.equals(n.xcall)) continue;
            if (e.name.equals("CallMessage")) {
                check(a < n.arrived.size(), "C21", "extra-request", n.ch.net + ": request nobody made: " + e);
                XCall k = n.arrived.get(a++);
                check(e.args[0].equals(k.src.addr(k.caller)) && e.args[1].equals(k.to.toString()) && e.args[2].equals(k.sn), "C21", "request", n.ch.net + ": reported request " + e + " for call " + k.sn + " of " + k.src.addr(k.caller) + " to " + k.to);
                BigInteger id = (BigInteger) e.args[3];
                for (XCall o : n.requests) check(!o.reqId.equals(id), "C21", "request-id", n.ch.net + ": request id " + id + " used twice");
                k.reqId = id;
                n.requests.add(k);
            } else if (e.name.equals("RollbackMessage")) {
                check(b < n.answered.size(), "C21", "extra-rollback", n.ch.net + ": rollback for no answer: " + e);
                while (b < n.answered.size() && !n.answered.get(b).enabled) b++;
                check(b < n.answered.size() && n.answered.get(b).sn.equals(e.args[0]), "C21", "rollback", n.ch.net + ": rollback offered for " + e.args[0]);
                b++;
            }
        }
        check(a == n.arrived.size(), "C21", "missing-request", n.ch.net + ": a delivered call was not offered for execution");
        while (b < n.answered.size()) check(!n.answered.get(b++).enabled, "C21", "missing-rollback", n.ch.net + ": no rollback offered for a failed call");
        n.arrived.clear();
        n.answered.clear();
    }
    Chain.Tx relayTx(Net n, String what, boolean ok, Address from, String method, Object... params) {
        Chain.Tx t = tx(n, what, ok, "C19", from, ZERO, n.bmc, method, params);
        if (ok && n.xcallOn) xcallEvents(n, t);
        return t;
    }

    void xcallSend() {
        Net n = c.of(nets);
        if (!n.xcallOn) return;
        Net to = c.of(nets);
        if (to == n || to.apps.isEmpty()) return;
        Model.App app = c.of(n.apps), dst = c.of(to.apps);
        boolean eoa = c.p(150), rb = c.p(650) && !eoa, badEoa = eoa && c.p(200);
        byte[] data = load(c.pick(50, 20, 8, 0, 10, 8));
        byte[] back = rb || badEoa ? load(c.pick(60, 20, 10, 0, 15)) : null;
        boolean big = false;
        if (c.p(60)) { int z = c.of(Arrays.asList(2047, 2048, 2049, 4000)); data = Arrays.copyOf(data, z); big = z > 2048; }
        if (back != null && c.p(60)) { int z = c.of(Arrays.asList(1023, 1024, 1025, 2048)); back = Arrays.copyOf(back, z); big |= z > 1024; }
        Address target = c.p(60) ? Chain.addr(true, "nobody") : dst.self;
        BigInteger fee = n.protocolFee.add(next(n, to.ch.net) == null ? ZERO : feeOf(n, to.ch.net, back != null));
        BigInteger value = fee;
        if (next(n, to.ch.net) != null && c.p(100)) { Object g = n.ch.query(n.xcall, "getFee", to.ch.net, back != null); check(fee.equals(g), "C21", "fee", n.ch.net + ": fee for a call to " + to.ch.net + " is " + g + ", expected " + fee); }
        if (c.p(120) && fee.signum() > 0) value = value.subtract(BigInteger.ONE); else if (c.p(120)) value = value.add(BigInteger.valueOf(c.range(1, 50)));
        x = new Exp();
        drawRefusal(n);
        boolean ok = !badEoa && !big && next(n, to.ch.net) != null && value.compareTo(fee) >= 0;
        Address caller = eoa ? c.of(users) : app.self;
        XCall k = new XCall();
        if (ok) {
            BigInteger keep = n.nsn, sn = n.callSn.add(BigInteger.ONE);
            M m = originate(n, to.ch.net, "xcall", back != null ? sn : ZERO, null);
            if (trySend(next(n, to.ch.net), m)) {
                n.callSn = sn;
                BigInteger relayFee = value.subtract(n.protocolFee);
                n.reward(n.bmc, n.ch.net, relayFee.subtract(m.feeSum()));
                n.bmcBalance = n.bmcBalance.add(relayFee);
                k.src = n; k.dst = to; k.caller = caller; k.to = target; k.data = data; k.rollback = back; k.sn = sn; k.nsn = m.nsn;
                calls.put(n.ch.net + " " + m.nsn, k);
                if (next(n, to.ch.net).dst == null) k.lost = true;
            } else { n.nsn = keep; ok = false; }
        }
        BigInteger fh = n.xFeeHandler == null ? null : n.ch.balance(n.xFeeHandler);
        String what = "call of " + (eoa ? "user" : "application") + " to " + to.ch.net + (back == null ? "" : " with rollback") + " value " + value + " " + Vm.hex(data);
        Chain.Tx t = eoa ? tx(n, what, ok, "C21", caller, value, n.xcall, "sendCallMessage", to.addr(target), data, back)
            : tx(n, what, ok, "C21", c.of(users), value, app.self, "call", to.addr(target), data, back);
        if (ok) {
            check(k.sn.equals(t.ret), "C21", "sn", n.ch.net + ": call got serial number " + t.ret + ", expected " + k.sn);
            if (fh != null) check(n.ch.balance(n.xFeeHandler).equals(fh.add(n.protocolFee)), "C21", "protocol-fee", n.ch.net + ": fee handler got " + n.ch.balance(n.xFeeHandler).subtract(fh) + " of " + n.protocolFee);
            else n.accrued = n.accrued.add(n.protocolFee);
            check(n.ch.balance(n.xcall).equals(n.accrued), "C21", "protocol-fee", n.ch.net + ": xcall holds " + n.ch.balance(n.xcall) + ", expected " + n.accrued);
            count("called");
        }
    }
    byte[] load(int mode) {
        byte[] d = new byte[8 + c.n(8)];
        int id = nextId++;
        d[0] = (byte) mode; d[1] = (byte) c.range(1, 60);
        d[2] = (byte) (id >> 24); d[3] = (byte) (id >> 16); d[4] = (byte) (id >> 8); d[5] = (byte) id;
        return d;
    }
    /** Executes a request; id may be used, unknown or open. */
    void execute(Net n, XCall k) {
        x = new Exp();
        drawRefusal(n);
        boolean open = k.executed + k.failed == 0, ok = open;
        int mode = k.data[0];
        boolean works = k.to != null && n.ch.contracts.containsKey(k.to) && (mode == Model.APP_OK || mode == Model.APP_REENTER);
        Model.App target = null;
        for (Model.App a : n.apps) if (a.self.equals(k.to)) target = a;
        if (ok && k.rollback != null) ok = reply(n, k.src.ch.net, "xcall", k.sn, null, ZERO, null);
        int before = 0;
        for (Model.App a : n.apps) before += a.log.size();
        n.curReq = k.reqId;
        n.curSn = null;
        n.reentered.clear();
        tx(n, "executeCall " + k.reqId + " " + Vm.hex(k.data), ok, "C21", c.of(users), ZERO, n.xcall, "executeCall", k.reqId);
        n.curReq = null;
        check(n.reentered.isEmpty(), "C21", "reentered", n.ch.net + ": request " + k.reqId + " was executed again from inside");
        int after = 0;
        for (Model.App a : n.apps) after += a.log.size();
        if (ok && works) {
            check(after == before + 1 && !target.log.isEmpty(), "C21", "executed", n.ch.net + ": request " + k.reqId + " reached " + (after - before) + " applications");
            Model.AppCall g = target.log.get(target.log.size() - 1);
            check(g.from.equals(k.src.addr(k.caller)) && Arrays.equals(g.data, k.data), "C21", "call-data", n.ch.net + ": application got " + Vm.hex(g.data) + " from " + g.from + ", sent " + Vm.hex(k.data) + " from " + k.src.addr(k.caller));
            k.executed++;
            count("executed");
        } else {
            check(after == before, "C21", "executed", n.ch.net + ": application ran although request " + k.reqId + " was not to be executed");
            if (ok) { k.failed++; fault("application-fails"); }
        }
    }
    void rollback(Net n, XCall k) {
        x = new Exp();
        boolean ok = k.enabled && k.rolled == 0;
        boolean works = ok && (k.rollback[0] == Model.APP_OK || k.rollback[0] == Model.APP_REENTER);
        Model.App target = null;
        for (Model.App a : n.apps) if (a.self.equals(k.caller)) target = a;
        int before = 0, after = 0;
        for (Model.App a : n.apps) before += a.log.size();
        n.curSn = k.sn;
        n.curReq = null;
        n.reentered.clear();
        tx(n, "executeRollback " + k.sn, ok, "C21", c.of(users), ZERO, n.xcall, "executeRollback", k.sn);
        n.curSn = null;
        check(n.reentered.isEmpty(), "C21", "reentered", n.ch.net + ": rollback " + k.sn + " was executed again from inside");
        for (Model.App a : n.apps) after += a.log.size();
        if (works) {
            check(after == before + 1, "C21", "rolled-back", n.ch.net + ": rollback " + k.sn + " reached " + (after - before) + " applications");
            Model.AppCall g = target.log.get(target.log.size() - 1);
            check(g.from.equals(n.addr(n.xcall)) && Arrays.equals(g.data, k.rollback), "C21", "rollback-data", n.ch.net + ": application got rollback " + Vm.hex(g.data) + " from " + g.from + ", expected " + Vm.hex(k.rollback));
        } else check(after == before, "C21", "rolled-back", n.ch.net + ": application ran although rollback " + k.sn + " was not to be executed");
        if (ok) { k.rolled++; count("rolled-back"); }
    }
    void xcallStep() {
        Net n = c.of(nets);
        if (!n.xcallOn) return;
        switch (c.pick(60, 30, 5, 5)) {
            case 0: if (!n.requests.isEmpty()) execute(n, pickOpen(n.requests, true)); break;
            case 1: {
                List<XCall> l = new ArrayList<>();
                for (XCall k : calls.values()) if (k.src == n && k.rollback != null) l.add(k);
                if (!l.isEmpty()) rollback(n, pickOpen(l, false));
                break;
            }
            case 2: // somebody poses as the message center or as the owner
                x = new Exp();
                fault("forged-call");
                if (c.p(500)) tx(n, "forged message", false, "C21", c.of(users), ZERO, n.xcall, "handleBTPMessage", nets.get(0).ch.net, "xcall", BigInteger.ONE, Rlp.list(Rlp.num(1), Rlp.bytes(Rlp.list(Rlp.str("hx0000000000000000000000000000000000000001"), Rlp.str(n.apps.get(0).self.toString()), Rlp.num(1), Rlp.num(0), Rlp.bytes(new byte[]{0, 0, 0, 0, 0, 0})))));
                else tx(n, "forged error", false, "C21", c.of(users), ZERO, n.xcall, "handleBTPError", nets.get(0).ch.net, "xcall", n.callSn, BigInteger.ONE, "x");
                break;
            default: {
                boolean owner = c.p(800);
                Address by = owner ? n.owner : stranger;
                x = new Exp();
                if (c.p(500)) {
                    BigInteger v = BigInteger.valueOf(c.n(3) * 7);
                    tx(n, "setProtocolFee " + v, owner, "C21", by, ZERO, n.xcall, "setProtocolFee", v);
                    if (owner) n.protocolFee = v;
                } else {
                    Address h = c.p(300) ? null : Chain.addr(false, "xfee" + n.ch.net);
                    BigInteger had = h == null ? null : n.ch.balance(h);
                    tx(n, "setProtocolFeeHandler " + h, owner, "C21", by, ZERO, n.xcall, "setProtocolFeeHandler", h);
                    if (owner) {
                        n.xFeeHandler = h;
                        if (h != null) {
                            check(n.ch.balance(h).equals(had.add(n.accrued)), "C21", "protocol-fee", n.ch.net + ": accrued fees " + n.accrued + ", handler got " + n.ch.balance(h).subtract(had));
                            n.accrued = ZERO;
                        }
                    }
                }
            }
        }
    }
    XCall pickOpen(List<XCall> l, boolean exec) {
        List<XCall> o = new ArrayList<>();
        for (XCall k : l) if (exec ? k.executed + k.failed == 0 : k.enabled && k.rolled == 0) o.add(k);
        return o.isEmpty() || c.p(150) ? c.of(l) : c.of(o);
    }

    // ------------------------------------------------------------------ relays
    static byte[] b64(byte[] b) { return java.util.Base64.getUrlEncoder().encode(b); }

    /** What a relay would submit that saw the destination at the given state. */
    Dir.Sub build(Dir d, int rx, int blk, int bad, int limit) {
        Dir.Sub s = new Dir.Sub();
        s.d = d; s.from = rx; s.blkFrom = blk;
        if (d.net == null) {
            int to = Math.min(d.sent.size(), rx + limit);
            List<byte[]> proofs = new ArrayList<>();
            for (int i = rx; i < to; ) {
                List<byte[]> ev = new ArrayList<>();
                long h = d.heights.get(i);
                int parts = c.range(1, 4);
                for (; i < to && d.heights.get(i) == h && parts-- > 0; i++) ev.add(Rlp.list(Rlp.str(d.dstBtp), Rlp.num(i + 1), Rlp.bytes(d.sent.get(i))));
                proofs.add(Rlp.bytes(Rlp.list(Rlp.num(0), Rlp.bytes(Rlp.list(ev.toArray(new byte[0][]))), Rlp.num(h))));
            }
            s.to = to;
            s.bytes = Rlp.list(Rlp.list(proofs.toArray(new byte[0][])));
            s.what = "messages " + (rx + 1) + ".." + to;
            if (proofs.isEmpty()) return null;
            return s;
        }
        List<byte[]> parts = new ArrayList<>();
        int left = limit, k = blk, pos = rx;
        boolean update = false;
        Btp.Block b = d.net.blocks.get(k - 1);
        int end = b.first + b.msgs.size();
        boolean garble = bad == 5, twice = bad == 9, lie = bad == 10, hollow = bad == 13, forgedUpdate = false;
        if (pos < end && bad == 7) { pos = s.from = rx = end; fault("rest-of-block-skipped"); } // good once the rest of the block has been taken, and only then
        if (pos < end) {
            int to = Math.min(end, pos + left);
            if (lie && to + 1 <= end) { // the messages after the next one, with numbers of leaves that hide it
                parts.add(Rlp.list(Rlp.num(2), Rlp.bytes(Btp.lie(b, pos - b.first, c.range(1, 2)))));
                s.garbled = true;
            } else if (hollow && pos + 1 < end) {
                parts.add(Rlp.list(Rlp.num(2), Rlp.bytes(Btp.hollow(b, pos - b.first, 1, fake(d.net)))));
                s.garbled = true;
                to = pos + 1;
                hollow = false;
            } else {
                byte[] p = Btp.proof(b, pos - b.first, to - b.first, garble ? c.range(1, 3) : 0);
                if (bad == 14) { byte[] w = Btp.warped(b, pos - b.first, to - b.first, c); if (!Arrays.equals(p, w)) { p = w; s.garbled = true; } }
                parts.add(Rlp.list(Rlp.num(2), Rlp.bytes(p)));
            }
            if (twice) { parts.add(parts.get(parts.size() - 1)); s.garbled = true; twice = false; }
            if (garble) { s.garbled = true; garble = false; }
            left -= to - pos;
            pos = to;
        }
        if (pos == end)
            for (; k < d.net.blocks.size() && left > 0; ) {
                b = d.net.blocks.get(k++);
                int badHere = bad >= 1 && bad <= 4 && !update ? bad : 0;
                if (bad >= 11 && bad <= 12 && !update) badHere = bad - 6;
                if (badHere == 0 && bad == 6 && !update) { b = forge(d.net, b); s.garbled = true; }
                if (bad == 8 && b.ctx != null && !forgedUpdate) { b = usurp(d.net, b); s.garbled = true; forgedUpdate = true; }
                if (badHere > 0) s.bad = badHere;
                parts.add(Rlp.list(Rlp.num(1), Rlp.bytes(Btp.update(b, badHere))));
                update = true;
                left--;
                if (!b.msgs.isEmpty()) {
                    if (left <= 0 && c.p(500)) break;
                    int n = Math.min(b.msgs.size(), Math.max(1, left));
                    if (hollow && b.msgs.size() > 1) {
                        parts.add(Rlp.list(Rlp.num(2), Rlp.bytes(Btp.hollow(b, 0, 1, fake(d.net)))));
                        s.garbled = true;
                        hollow = false;
                        pos++;
                        break;
                    }
                    byte[] p = Btp.proof(b, 0, n, garble ? c.range(1, 3) : 0);
                    if (bad == 14 && !s.garbled) { byte[] w = Btp.warped(b, 0, n, c); if (!Arrays.equals(p, w)) { p = w; s.garbled = true; } }
                    parts.add(Rlp.list(Rlp.num(2), Rlp.bytes(p)));
                    if (twice) { parts.add(parts.get(parts.size() - 1)); s.garbled = true; twice = false; }
                    if (garble) { s.garbled = true; garble = false; }
                    pos += n;
                    left -= n;
                    if (n < b.msgs.size()) break;
                }
            }
        if (parts.isEmpty()) return null;
        s.to = pos;
        s.blkTo = k;
        s.bytes = Rlp.list(Rlp.list(parts.toArray(new byte[0][])));
        s.what = "messages " + (rx + 1) + ".." + pos + " blocks " + blk + ".." + k + (s.bad > 0 ? " bad signatures " + s.bad : "") + (s.garbled ? " forged" : "");
        return s;
    }
    byte[] fake(Btp n) {
        return Rlp.list(Rlp.str(n.net.ch.net), Rlp.str("0x1.icon"), Rlp.str("svcA"), Rlp.num(0), Rlp.bytes(new byte[]{0, 0, 0, 0, 0, 0}), Rlp.num(999), Rlp.NULL);
    }
    /** A block with a message nobody sent, with the signatures of the real one. */
    Btp.Block forge(Btp n, Btp.Block b) {
        Btp.Block f = new Btp.Block();
        f.height = b.height; f.first = b.first; f.signers = b.signers; f.decision = b.decision;
        f.msgs = new ArrayList<>(b.msgs);
        f.msgs.add(fake(n));
        f.header = n.header(f, b);
        return f;
    }
    /** A real block whose next validators are exchanged for others. */
    Btp.Block usurp(Btp n, Btp.Block b) {
        Btp.Block f = new Btp.Block();
        f.height = b.height; f.first = b.first; f.signers = b.signers; f.decision = b.decision; f.msgs = b.msgs;
        Btp.Block k = new Btp.Block();
        k.height = b.height; k.upd = b.upd; k.prev = b.prev; k.nextHash = b.nextHash;
        k.ctx = Rlp.list(Rlp.list(Rlp.bytes(Btp.address(200))));
        f.header = n.header(f, k);
        return f;
    }
    boolean acceptable(Dir.Sub s) {
        if (s.bad > 0 || s.garbled) return false;
        if (s.d.net == null) return s.from <= s.d.rx;
        return s.from == s.d.rx && s.blkFrom == s.d.blk;
    }
    void apply(Dir.Sub s, Address relay) {
        Dir d = s.d;
        int from = d.rx;
        d.rx = Math.max(d.rx, s.to);
        if (d.net == null) d.vh = Math.max(d.vh, d.heights.get(s.to - 1));
        if (d.net != null) d.blk = s.blkTo;
        for (int i = from; i < d.rx; i++) process(d, relay, d.sent.get(i));
    }
    /** How many messages of the block at hand the destination has not taken yet. */
    int left(Dir d) {
        Btp.Block b = d.net.blocks.get(d.blk - 1);
        return b.first + b.msgs.size() - d.rx;
    }
    void relayStep(Dir d) {
        Net n = d.dst;
        if (d.net != null && !quiet) maybeBlock(d.net);
        // what the relay knows may be old, and it may take a part only
        int rx = d.rx, blk = d.blk, bad = 0;
        if (!quiet && d.past.size() > 1 && c.p(120)) {
            int[] o = d.past.get(d.past.size() - 1 - c.n(Math.min(5, d.past.size())));
            rx = o[0]; blk = o[1];
            fault("stale-relay");
        } else if (!quiet && d.net == null && c.p(40) && rx < d.sent.size()) { rx++; fault("gap"); }
        if (!quiet && d.net != null && c.p(200)) { bad = c.range(1, 14); }
        if (!quiet && d.net != null && rx == d.rx && left(d) > 0 && c.p(150)) { // the rest of the block is to be passed over
            if (blk == d.net.blocks.size()) { d.net.net.ch.height++; d.net.produce(null); d.net.net.ch.height++; }
            bad = 7;
        }
        else if (!quiet && d.net != null && left(d) > 1 && c.p(200)) bad = new int[]{5, 9, 10, 13, 14}[c.n(5)];
        int limit = quiet || c.p(400) ? 1000 : c.range(1, 6);
        if (!quiet && d.net != null && left(d) > 1 && c.p(200)) limit = left(d) - 1; // all but the last message of the block
        Dir.Sub s = build(d, rx, blk, bad, limit);
        if (!quiet && !d.kept.isEmpty() && c.p(80)) { s = c.of(d.kept); fault("replayed-submission"); }
        if (s == null) return;
        if (s.bad > 0) fault("bad-signatures");
        if (s.garbled) fault("forged-proof");
        if (d.kept.size() < 12 && !s.garbled && s.bad == 0) d.kept.add(s);
        Address relay = d.relays.isEmpty() ? stranger : d.relays.get(quiet ? 0 : c.n(d.relays.size()));
        boolean registered = !d.relays.isEmpty();
        if (!quiet && c.p(60)) {
            List<Address> l = new ArrayList<>(d.all);
            l.add(stranger);
            l.add(n.owner);
            l.removeAll(d.relays);
            relay = c.of(l);
            registered = false;
            fault("unregistered-relay");
        }
        if (!quiet && c.p(40)) { fault("lost-submission"); note("submission lost"); return; }
        if (!quiet && s.bytes.length > 10 && c.p(280)) { fragments(s, relay, registered); return; }
        submit(s, relay, registered, null);
    }
    void submit(Dir.Sub s, Address relay, boolean registered, Object[] frag) {
        Dir d = s.d;
        Net n = d.dst;
        bump(n);
        x = new Exp();
        drawRefusal(n);
        boolean ok = registered && acceptable(s);
        if (ok) apply(s, relay);
        String prev = d.srcBtp, what = d + " " + s.what + " by " + relay.toString().substring(0, 8) + (registered ? "" : " (unregistered)");
        int rx0 = d.rx;
        if (frag == null) relayTx(n, what, ok, relay, "handleRelayMessage", prev, new String(b64(s.bytes)));
        else relayTx(n, what + " last fragment", ok, relay, "handleFragment", prev, new String(b64((byte[]) frag[0])), 0);
        d.past.add(new int[]{d.rx, d.blk});
        if (c.p(30) && !quiet) { // the same transaction once more
            fault("duplicate-submission");
            x = new Exp();
            boolean again = registered && acceptable(s);
            if (again) apply(s, relay);
            relayTx(n, "again " + what, again, relay, "handleRelayMessage", prev, new String(b64(s.bytes)));
        }
    }
    void fragments(Dir.Sub s, Address relay, boolean registered) {
        int k = c.range(2, 5);
        List<byte[]> parts = new ArrayList<>();
        int pos = 0;
        for (int i = 0; i < k; i++) {
            int to = i == k - 1 ? s.bytes.length : Math.min(s.bytes.length, pos + c.range(0, 2 * s.bytes.length / k));
            parts.add(Arrays.copyOfRange(s.bytes, pos, to));
            pos = to;
        }
        Dir.Frag f = new Dir.Frag();
        f.sub = s; f.relay = relay; f.registered = registered; f.parts = parts; f.next = k - 1;
        s.d.pending.add(f);
        count("fragmented");
    }
    /** Sends the next piece of a fragmented submission; pieces of several relays interleave. */
    void fragmentStep(Dir d) {
        Dir.Frag f = c.of(d.pending);
        Net n = d.dst;
        int k = f.parts.size(), at = k - 1 - f.next;
        boolean reg = d.relays.contains(f.relay);
        byte[] p = f.parts.get(at);
        if (!quiet && c.p(80)) { fault("lost-fragment"); f.next--; if (f.next < 0) d.pending.remove(f); return; }
        x = new Exp();
        int idx = f.next;
        Dir.FragState st = d.frags.get(f.relay);
        boolean ok = reg && (at == 0 || st != null && st.next == idx);
        if (idx == 0 && ok) {
            // complete: is it still this submission that is assembled there?
            byte[][] all = new byte[st.last + 1][];
            for (int i = 0; i < st.last; i++) all[i] = st.parts.get(i);
            all[st.last] = p;
            boolean same = Arrays.equals(Rlp.cat(all), f.sub.bytes);
            d.pending.remove(f);
            if (same) { submit(f.sub, f.relay, true, new Object[]{p}); return; }
            // pieces of two submissions were mixed: nothing can be said but that the verifier decides; do not send
            return;
        }
        bump(n);
        relayTx(n, d + " fragment " + (at == 0 ? -idx : idx) + " of " + k + " by " + f.relay.toString().substring(0, 8), ok, f.relay, "handleFragment", d.srcBtp, new String(b64(p)), at == 0 ? -idx : idx);
        if (ok) {
            if (at == 0) { st = new Dir.FragState(); st.last = k - 1; d.frags.put(f.relay, st); st.parts.add(p); }
            else st.parts.add(p);
            st.next = idx - 1;
        }
        f.next--;
        if (f.next < 0 || !ok) d.pending.remove(f);
    }
    void maybeBlock(Btp b) {
        if (b.taken == b.dir.sent.size() && !c.p(60)) return;
        if (!quiet && c.p(b.lazy)) return;
        List<Integer> next = null;
        if (!quiet && c.p(120)) {
            next = new ArrayList<>();
            int n = c.range(1, 5), base = c.n(40);
            for (int i = 0; i < n; i++) next.add(base + i);
            if (!b.sets.isEmpty() && c.p(300)) next = c.of(b.sets);
            if (next.equals(b.validators)) next = null; else { fault("validator-change"); b.sets.add(b.validators); }
        }
        b.net.ch.height++;
        b.produce(next);
        note(b.net.ch.net + " BTP block " + b.blocks.size() + " with " + b.blocks.get(b.blocks.size() - 1).msgs.size() + " messages");
        b.net.ch.height++;
    }
    void bump(Net n) { if (c.p(400)) n.ch.height += c.range(1, 3); }

    // ------------------------------------------------------------------ users
    byte[] payload() {
        byte[] p = load(new int[]{Model.ACCEPT, Model.REVERT, Model.REPLY, Model.LATER, Model.CRASH, Model.SENDREVERT, Model.FORWARD}[c.pick(40, 12, 15, 15, 4, 6, 5)]);
        if (c.p(100)) return Arrays.copyOf(p, p.length + c.n(300));
        return p;
    }
    String anyNet(Net n) {
        int k = c.n(nets.size() + 2);
        if (k < nets.size()) return nets.get(k).ch.net;
        if (k == nets.size()) return "0x99.none";
        return "0x9.ph" + c.n(nets.size());
    }
    void userSend() {
        Net n = c.of(nets);
        Model.Bsh b = c.of(n.all);
        String to = anyNet(n);
        for (int i = 0; i < 3 && (to.equals(n.ch.net) || next(n, to) == null || next(n, to).dst == null); i++) to = anyNet(n);
        if (n.services.get(b.svc) != b && c.p(600)) b = c.of(n.all);
        BigInteger sn = c.p(300) ? ZERO : BigInteger.valueOf(c.p(180) ? c.range(1, 2) : 100 + nextSn++);
        byte[] p = payload();
        BigInteger need = feeOf(n, to, sn.signum() > 0), value = need;
        if (c.p(100)) value = need.add(BigInteger.valueOf(c.range(1, 40)));
        else if (c.p(80) && need.signum() > 0) value = need.subtract(BigInteger.ONE);
        bump(n);
        x = new Exp();
        drawRefusal(n);
        Dir d = next(n, to);
        boolean ok = n.services.get(b.svc) == b && d != null && value.compareTo(need) >= 0;
        if (ok) {
            BigInteger keep = n.nsn;
            M m = originate(n, to, b.svc, sn, p);
            if (trySend(d, m)) {
                n.bmcBalance = n.bmcBalance.add(value);
                n.reward(n.bmc, n.ch.net, value.subtract(need));
                Rec r = new Rec();
                r.m = m;
                recs.put(n.ch.net + " " + m.nsn, r);
                if (d.dst == null) r.lost = true;
                count("sent");
            } else { n.nsn = keep; ok = false; }
        }
        Chain.Tx t = tx(n, "send to " + to + " " + b.svc + " sn " + sn + " value " + value + " " + Vm.hex(Arrays.copyOf(p, 6)), ok, "C19", c.of(users), value, b.self, "send", to, sn, p);
        if (ok) check(n.nsn.equals(t.ret), "C19", "nsn", n.ch.net + ": send returned " + t.ret + ", expected " + n.nsn);
    }
    void userReply() {
        Net n = c.of(nets);
        List<Net.Open> l = new ArrayList<>();
        for (Net.Open o : n.open.values()) if (!o.svc.equals("bmc") && !o.svc.equals("xcall")) l.add(o);
        if (!n.seen.isEmpty() && c.p(250)) { l.clear(); l.add(c.of(n.seen)); } // perhaps answered or refused already
        if (l.isEmpty()) return;
        Net.Open o = c.of(l);
        Model.Bsh b = null;
        for (Model.Bsh s : n.all) if (s.svc.equals(o.svc) && n.services.get(o.svc) == s) b = s;
        BigInteger sn = c.p(60) ? o.sn.add(BigInteger.valueOf(5000)) : o.sn;
        BigInteger value = c.p(100) ? BigInteger.valueOf(c.range(1, 9)) : ZERO;
        byte[] p = Model.response(load(0), Model.RESPONSE);
        if (b == null) return;
        x = new Exp();
        drawRefusal(n);
        boolean ok = reply(n, o.from, o.svc, sn, p, value, null);
        if (ok) { n.bmcBalance = n.bmcBalance.add(value); count("replied"); }
        tx(n, "reply to " + o.from + " " + o.svc + " sn " + sn, ok, "C19", c.of(users), value, b.self, "send", o.from, sn.negate(), p);
    }
    void forged() {
        Net n = c.of(nets);
        x = new Exp();
        if (c.p(500)) { // straight to the verifier, past the message center
            Dir d = c.of(new ArrayList<>(n.in.values()));
            Dir.Sub s = build(d, d.rx, d.blk, 0, 3);
            if (s == null) return;
            fault("forged-verify");
            tx(n, d + " verifier called directly", false, "C19", c.p(500) || d.relays.isEmpty() ? stranger : d.relays.get(0), ZERO, d.verifier, "handleRelayMessage", n.btp, d.srcBtp, BigInteger.valueOf(d.rx), s.bytes);
            return;
        }
        fault("forged-send");
        tx(n, "message of somebody who is no service", false, "C19", stranger, BigInteger.valueOf(1000), n.bmc, "sendMessage", c.of(nets).ch.net, "svcA", BigInteger.ONE, new byte[8]);
    }
    void claim() {
        Net n = c.of(nets);
        List<String> l = new ArrayList<>();
        for (String k : n.rewards.keySet()) if (n.rewards.get(k).signum() > 0 || c.p(50)) l.add(k);
        if (l.isEmpty()) return;
        String k = c.of(l);
        Address a = Address.fromString(k.split(" ")[0]);
        String net = k.split(" ")[1];
        Address by = a;
        if (a.equals(n.bmc)) by = n.feeHandler != null && c.p(900) ? n.feeHandler : stranger;
        if (by.equals(n.feeHandler)) k = n.bmc + " " + net;
        else k = by + " " + net;
        String receiver = c.p(100) ? "nonsense" : Chain.addr(false, "recv" + c.n(3)).toString();
        BigInteger amount = n.rewards.getOrDefault(k, ZERO);
        boolean ok = amount.signum() > 0, local = net.equals(n.ch.net);
        BigInteger value = ZERO, need = feeOf(n, net, true);
        if (!local) { value = need; if (c.p(80) && need.signum() > 0) value = need.subtract(BigInteger.ONE); else if (c.p(80)) value = need.add(BigInteger.TEN); }
        x = new Exp();
        drawRefusal(n);
        Address recv = null;
        BigInteger had = null;
        if (ok && local) {
            ok = !receiver.equals("nonsense");
            if (ok) {
                recv = Address.fromString(receiver);
                had = n.ch.balance(recv);
                n.rewards.put(k, ZERO);
                n.bmcBalance = n.bmcBalance.subtract(amount);
            }
        } else if (ok) {
            Dir d = next(n, net);
            ok = d != null && value.compareTo(need) >= 0;
            if (ok) {
                BigInteger keep = n.nsn;
                M m = originate(n, net, "bmc", null, null);
                m.kind = "Claim";
                m.nets = new TreeSet<>(Arrays.asList(amount.toString(), "to " + receiver));
                if (trySend(d, m)) {
                    Net.Claim q = new Net.Claim();
                    q.caller = Address.fromString(k.split(" ")[0]); q.net = net; q.amount = amount;
                    n.claims.put(m.nsn, q);
                    n.rewards.put(k, ZERO);
                    n.bmcBalance = n.bmcBalance.add(value);
                    n.reward(n.bmc, n.ch.net, value.subtract(need));
                    floating.merge(net, amount, BigInteger::add);
                    count("claim-sent");
                } else { n.nsn = keep; ok = false; }
            }
        }
        touched.add(k);
        tx(n, "claim of " + by.toString().substring(0, 8) + " for " + net + " to " + receiver.substring(0, 8) + " amount " + amount + " value " + value, ok, "C20", by, value, n.bmc, "claimReward", net, receiver);
        if (recv != null) {
            check(n.ch.balance(recv).equals(had.add(amount)), "C20", "payout", n.ch.net + ": receiver got " + n.ch.balance(recv).subtract(had) + " of " + amount);
            count("claim-paid");
        }
    }

    // ------------------------------------------------------------------ owners
    void admin() {
        Net n = c.of(nets);
        boolean owner = c.p(800);
        Address by = owner ? c.of(new ArrayList<>(n.owners)) : stranger;
        if (!owner) fault("not-owner");
        x = new Exp();
        switch (c.pick(20, 15, 15, 15, 8, 8, 20, 10)) {
            case 0: { // fees
                List<String> to = new ArrayList<>(n.out.keySet());
                for (String k : n.reachable.keySet()) to.addAll(n.reachable.get(k));
                to.addAll(n.routes.keySet());
                String dst = c.p(50) ? "0x99.none" : c.of(to);
                int hop = n.out.containsKey(dst) ? 1 : 2;
                if (c.p(150)) hop++;
                int len = c.p(50) ? 0 : c.p(40) ? 3 : 2 * hop;
                BigInteger[] v = new BigInteger[len];
                for (int i = 0; i < len; i++) v[i] = BigInteger.valueOf(c.p(100) ? 0 : c.range(1, 30));
                boolean ok = owner && (len == 0 || len % 2 == 0 && (len == 2 ? n.out.containsKey(dst) : next(n, dst) != null));
                tx(n, "setFeeTable " + dst + " " + Arrays.toString(v), ok, "C19C20", by, ZERO, n.bmc, "setFeeTable", new String[]{dst}, new BigInteger[][]{v});
                if (ok) if (len == 0) n.fees.remove(dst); else n.fees.put(dst, v);
                feeQuery(n, dst);
                break;
            }
            case 1: { // routes
                String dst = anyNet(n), via = c.p(60) ? "0x99.none" : c.of(new ArrayList<>(n.out.keySet()));
                if (n.out.containsKey(dst) || dst.equals(n.ch.net)) return;
                if (n.routes.containsKey(dst)) {
                    tx(n, "removeRoute " + dst, owner, "C19", by, ZERO, n.bmc, "removeRoute", dst);
                    if (owner) { n.routes.remove(dst); n.fees.remove(dst); }
                } else {
                    if (loops(n, dst, via)) return;
                    boolean ok = owner && !dst.equals(via) && n.out.containsKey(via);
                    tx(n, "addRoute " + dst + " via " + via, ok, "C19", by, ZERO, n.bmc, "addRoute", dst, via);
                    if (ok) n.routes.put(dst, via);
                }
                feeQuery(n, dst);
                break;
            }
            case 2: { // services
                Model.Bsh b = c.of(n.all);
                if (n.services.get(b.svc) == null) {
                    tx(n, "addService " + b.svc, owner, "C19", by, ZERO, n.bmc, "addService", b.svc, b.self);
                    if (owner) n.services.put(b.svc, b);
                } else if (c.p(400)) {
                    tx(n, "removeService " + b.svc, owner, "C19", by, ZERO, n.bmc, "removeService", b.svc);
                    if (owner) n.services.remove(b.svc);
                } else tx(n, "addService twice", false, "C19", by, ZERO, n.bmc, "addService", b.svc, b.self);
                break;
            }
            case 3: { // relays
                Dir d = c.of(new ArrayList<>(n.in.values()));
                Address r = c.of(d.all);
                boolean has = d.relays.contains(r);
                if (c.p(150)) has = !has; // the wrong way round
                boolean ok = owner && has == d.relays.contains(r);
                tx(n, (has ? "removeRelay " : "addRelay ") + d + " " + r.toString().substring(0, 8), ok, "C19", by, ZERO, n.bmc, has ? "removeRelay" : "addRelay", d.srcBtp, r);
                if (ok) if (has) d.relays.remove(r); else d.relays.add(r);
                relaysOf(n, d.srcBtp, d.relays);
                break;
            }
            case 4: { // owners
                Address o = Chain.addr(false, "owner" + n.ch.net + c.n(2));
                boolean has = n.owners.contains(o), ok = owner && !by.equals(o);
                if (by.equals(o)) return;
                tx(n, (has ? "removeOwner " : "addOwner ") + o.toString().substring(0, 8), ok, "C19", by, ZERO, n.bmc, has ? "removeOwner" : "addOwner", o);
                if (ok) if (has) n.owners.remove(o); else n.owners.add(o);
                break;
            }
            case 5: {
                Address h = Chain.addr(false, "fees" + n.ch.net);
                tx(n, "setFeeHandler", owner, "C20", by, ZERO, n.bmc, "setFeeHandler", h);
                if (owner) n.feeHandler = h;
                break;
            }
            case 6: phantom(n, owner, by); break;
            default: drop(n, owner, by);
        }
        feeQuery(n, anyNet(n));
    }
    void feeQuery(Net n, String dst) {
        if (next(n, dst) == null) return;
        BigInteger g = (BigInteger) n.ch.query(n.bmc, "getFee", dst, true), h = (BigInteger) n.ch.query(n.bmc, "getFee", dst, false);
        check(g.equals(feeOf(n, dst, true)) && h.equals(feeOf(n, dst, false)), "C20", "fee-table", n.ch.net + ": fee for " + dst + " " + h + "/" + g + ", expected " + feeOf(n, dst, false) + "/" + feeOf(n, dst, true));
    }
    // would a message for dst go round in circles?
    boolean loops(Net n, String dst, String via) {
        n.routes.put(dst, via);
        boolean loop = false;
        for (Net s : nets) {
            Net at = s;
            for (int i = 0; at != null && !at.ch.net.equals(dst); i++) {
                if (i > 6) { loop = true; break; }
                Net y = null;
                if (at.out.containsKey(dst)) y = at.out.get(dst).dst;
                else if (at.routes.containsKey(dst)) { Dir d = at.out.get(at.routes.get(dst)); y = d == null ? null : d.dst; }
                else for (Dir d : at.out.values()) if (d.dst != null && (d.dst.out.containsKey(dst) || dst.startsWith("0x9.ph") && d.dst.phantom.equals(dst))) { y = d.dst; break; }
                at = y;
            }
        }
        n.routes.remove(dst);
        return loop;
    }
    void relaysOf(Net n, String link, List<Address> want) {
        Address[] g = (Address[]) n.ch.query(n.bmc, "getRelays", link);
        check(new HashSet<>(Arrays.asList(g)).equals(new HashSet<>(want)) && g.length == want.size(), "C19", "relays", n.ch.net + ": relays of " + link + " are " + Arrays.toString(g) + ", registered were " + want);
    }
    void networkOf(Net n, Dir d, String link, int offset) {
        Object g = n.ch.query(n.bmc, "getBTPLinkNetworkId", link);
        check(g.equals(d.pnid), "C19", "network-id", n.ch.net + ": network of " + link + " is " + g + ", expected " + d.pnid);
        if (d.pnid == 0) return;
        g = n.ch.query(n.bmc, "getBTPLinkOffset", link);
        check(g.equals((long) offset), "C19", "network-id", n.ch.net + ": offset of " + link + " is " + g + ", expected " + offset);
    }
    /** A link to a network without relays comes and goes. */
    void phantom(Net n, boolean owner, Address by) {
        String net = n.phantom, btp = "btp://" + net + "/cx00000000000000000000000000000000000000ff";
        Dir d = n.out.get(net);
        if (d == null) {
            clearRefusal(n);
            if (owner) {
                addLink(n, net);
                Dir p = new Dir();
                p.src = n; p.dstBtp = btp;
                x.out(p, internal(n, net, "Init", n.links()));
                n.out.put(net, p);
                if (c.p(500)) p.pnid = 50;
            }
            if (owner && n.out.get(net).pnid > 0) tx(n, "addBTPLink " + net, true, "C19", by, ZERO, n.bmc, "addBTPLink", btp, 50L);
            else tx(n, "addLink " + net, owner, "C19", by, ZERO, n.bmc, "addLink", btp);
            feeQuery(n, net);
            if (owner && c.p(300)) {
                x = new Exp();
                BigInteger[] v = {BigInteger.valueOf(c.range(1, 30)), BigInteger.valueOf(c.range(1, 30))};
                tx(n, "setFeeTable " + net, true, "C19C20", by, ZERO, n.bmc, "setFeeTable", new String[]{net}, new BigInteger[][]{v});
                n.fees.put(net, v);
            }
            if (owner) { relaysOf(n, btp, n.phantomRelays); networkOf(n, n.out.get(net), btp, 0); }
        } else if (d.pnid == 0 && c.p(250)) {
            long nid = !n.btps.isEmpty() && c.p(300) ? n.btps.keySet().iterator().next() : 50;
            boolean used = false;
            for (Dir o : n.out.values()) used |= o.net != null && o.net.nid == nid;
            tx(n, "setBTPLinkNetworkId " + net + " " + nid, owner && !used, "C19", by, ZERO, n.bmc, "setBTPLinkNetworkId", btp, nid);
            if (owner && !used) { d.pnid = nid; networkOf(n, d, btp, d.sent.size()); }
        } else if (c.p(500)) {
            Address r = Chain.addr(false, "phr" + c.n(4));
            boolean ok = owner && !n.phantomRelays.contains(r);
            tx(n, "addRelay " + net, ok, "C19", by, ZERO, n.bmc, "addRelay", btp, r);
            if (ok) n.phantomRelays.add(r);
            relaysOf(n, btp, n.phantomRelays);
        } else {
            clearRefusal(n);
            boolean ok = owner && !n.routes.containsValue(net);
            if (ok) {
                n.out.remove(net);
                for (byte[] b : d.sent) { M m = M.dec(b); if (m.feeNet != null) lost.merge(m.feeNet, m.feeSum(), BigInteger::add); }
                n.phantomRelays.clear();
                n.fees.remove(net);
                for (Dir o : n.out.values()) x.out(o, internal(n, M.net(o.dstBtp), "Unlink", Collections.singleton(net)));
            }
            tx(n, "removeLink " + net, ok, "C19", by, ZERO, n.bmc, "removeLink", btp);
        }
    }
    M internal(Net n, String to, String kind, Collection<String> names) {
        M m = new M();
        m.src = n.ch.net; m.dst = to; m.svc = "bmc"; m.sn = ZERO; m.kind = kind; m.nets = new TreeSet<>(names);
        n.nsn = n.nsn.add(BigInteger.ONE);
        return m;
    }
    void addLink(Net n, String net) {
        for (Dir o : n.out.values()) x.out(o, internal(n, M.net(o.dstBtp), "Link", Collections.singleton(net)));
    }
    /** The owner gives up the next message of a link. */
    void drop(Net n, boolean owner, Address by) {
        Dir d = c.of(new ArrayList<>(n.in.values()));
        if (d.net != null || d.rx >= d.sent.size()) return;
        M m = M.dec(d.sent.get(d.rx));
        if (!n.services.containsKey(m.svc) || next(n, m.src) != n.out.get(d.src.ch.net) || m.svc.equals("xcall")) return;
        int seq = d.rx + 1;
        if (c.p(150)) seq += c.p(500) ? 1 : -1;
        boolean ok = owner && seq == d.rx + 1;
        drawRefusal(n);
        if (ok && m.sn.signum() > 0) { int[] k = refuse.get(n.out.get(d.src.ch.net)); ok = k == null || k[0] == 0; }
        M keep = M.dec(d.sent.get(d.rx));
        if (ok) {
            fault("owner-drops");
            d.rx++;
            if (m.feeNet != null && !m.fees.isEmpty()) n.reward(n.bmc, m.feeNet, m.fees.remove(0));
            if (m.sn.signum() > 0) settle(n, d, m, UNKNOWN);
            else {
                x.drops.add(m);
                if (m.feeNet != null) lost.merge(m.feeNet, m.feeSum(), BigInteger::add);
                Rec r = rec(m);
                if (r != null) if (m.code >= 0) r.lost = true; else r.dropped++;
            }
        }
        tx(n, "dropMessage " + d + " " + seq, ok, "C19", by, ZERO, n.bmc, "dropMessage", m.src, BigInteger.valueOf(seq), m.svc, m.sn, m.nsn, keep.feeNet == null ? "" : keep.feeNet, keep.fees.toArray(new BigInteger[0]));
        if (ok) d.past.add(new int[]{d.rx, d.blk});
    }

    // ------------------------------------------------------------------ a run
    void go() throws Exception {
        setup();
        int n = deep ? c.range(60, 300) : c.range(30, 150);
        boolean xc = prop.equals("C21"), burst = c.p(350);
        for (int i = 0; i < n; i++) {
            switch (c.pick(10, xc ? 6 : 22, 10, xc ? 3 : 10, 2, xc ? 3 : prop.equals("C20") ? 14 : 6, prop.equals("C19") ? 12 : 6, xc ? 20 : 0, xc ? 16 : 0, 26)) {
                case 0: { Dir d = c.of(dirs); if (d.net != null) maybeBlock(d.net); break; }
                case 1: userSend(); for (int k = 0; burst && k < 12 && c.p(750); k++) userSend(); break;
                case 2: { Dir d = c.of(dirs); for (int k = 0; k < 8 && !d.pending.isEmpty() && (k == 0 || c.p(800)); k++) fragmentStep(d); break; }
                case 3: userReply(); break;
                case 4: forged(); break;
                case 5: claim(); break;
                case 6: admin(); break;
                case 7: xcallSend(); break;
                case 8: xcallStep(); break;
                default: relayStep(c.of(dirs));
            }
            if (c.p(30)) for (Net k : nets) for (Model.Bsh b : k.all) b.refuseErrors = c.p(350);
        }
        drain();
        ends();
    }
    void setup() throws Exception {
        int n = c.pick(45, 40, 15) + 2;
        stranger = Chain.addr(false, "stranger");
        for (int i = 0; i < 2; i++) users.add(Chain.addr(false, "user" + i));
        for (int i = 0; i < n; i++) {
            Net k = new Net(this, "0x" + (i + 1) + ".icon");
            nets.add(k);
            k.phantom = "0x9.ph" + i;
            k.owner = Chain.addr(false, "owner" + i);
            k.owners.add(k.owner);
            k.bmc = k.ch.deploy(k.owner, Loader.load("foundation.icon.btp.bmc.BTPMessageCenter"), k.ch.net);
            k.btp = "btp://" + k.ch.net + "/" + k.bmc;
            check(k.btp.equals(k.ch.query(k.bmc, "getBtpAddress")), "C19", "address", "address of the message center");
            k.score = new Model.ChainScore(k);
            k.ch.install(Model.CHAIN, k.score);
            k.phantomRelays = new ArrayList<>();
            x = new Exp();
            Address nv = k.ch.nextAddress();
            k.ch.install(nv, new Model.NoVerifier());
            tx(k, "addVerifier phantom", true, "C19", k.owner, ZERO, k.bmc, "addVerifier", k.phantom, nv);
            for (String s : new String[]{"svcA", "svcB"}) {
                Model.Bsh b = new Model.Bsh(k, s);
                b.self = k.ch.nextAddress();
                k.ch.install(b.self, b);
                k.all.add(b);
                if (c.p(150)) continue;
                tx(k, "addService " + s, true, "C19", k.owner, ZERO, k.bmc, "addService", s, b.self);
                k.services.put(s, b);
            }
            if (prop.equals("C21")) {
                k.xcall = k.ch.deploy(k.owner, Loader.load("foundation.icon.btp.xcall.CallServiceImpl"), k.bmc);
                k.xcallOn = true;
                tx(k, "addService xcall", true, "C19", k.owner, ZERO, k.bmc, "addService", "xcall", k.xcall);
                for (int j = 0; j < 2; j++) {
                    Model.App a = new Model.App(k);
                    a.self = k.ch.nextAddress();
                    k.ch.install(a.self, a);
                    k.apps.add(a);
                }
            }
        }
        // a tree, or a triangle
        for (int i = 1; i < n; i++) connect(nets.get(i), nets.get(c.n(i)));
        if (n == 3 && c.p(250)) for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (!nets.get(i).out.containsKey(nets.get(j).ch.net)) connect(nets.get(i), nets.get(j));
        if (c.p(500)) { quiet = true; pump(); quiet = false; }
        for (int i = 0; i < 2 * n; i++) fees();
        for (Net k : nets) if (c.p(600)) { x = new Exp(); k.feeHandler = Chain.addr(false, "fees" + k.ch.net); tx(k, "setFeeHandler", true, "C20", k.owner, ZERO, k.bmc, "setFeeHandler", k.feeHandler); }
    }
    void fees() {
        Net n = c.of(nets), t = c.of(nets);
        if (n == t || next(n, t.ch.net) == null) return;
        int hop = n.out.containsKey(t.ch.net) ? 1 : 2;
        if (c.p(150)) hop++;
        BigInteger[] v = new BigInteger[2 * hop];
        for (int i = 0; i < v.length; i++) v[i] = BigInteger.valueOf(c.range(1, 30));
        x = new Exp();
        tx(n, "setFeeTable " + t.ch.net, true, "C19C20", n.owner, ZERO, n.bmc, "setFeeTable", new String[]{t.ch.net}, new BigInteger[][]{v});
        n.fees.put(t.ch.net, v);
    }
    void connect(Net a, Net b) throws Exception {
        Dir ab = dir(a, b), ba = dir(b, a);
        verifier(ab);
        verifier(ba);
        link(a, ab, ba);
        link(b, ba, ab);
    }
    Dir dir(Net a, Net b) {
        Dir d = new Dir();
        d.src = a; d.dst = b; d.srcBtp = a.btp; d.dstBtp = b.btp;
        dirs.add(d);
        if (c.p(500)) {
            Btp t = new Btp(a, a.btps.size() + 1, c.pick(50, 20, 20, 10));
            t.validators = new ArrayList<>();
            int k = c.range(1, 5);
            for (int i = 0; i < k; i++) t.validators.add(50 + i);
            t.dir = d;
            t.lazy = c.p(200) ? 900 : 250;
            d.net = t;
            a.btps.put(t.nid, t);
            t.produce(null);
            d.blk = 1;
        }
        d.past.add(new int[]{0, d.blk});
        for (int i = 0; i < 3; i++) d.all.add(Chain.addr(false, "relay" + i + (c.p(300) ? "" : d.toString())));
        return d;
    }
    void verifier(Dir d) throws Exception {
        Net n = d.dst;
        if (d.net == null) d.verifier = n.ch.deploy(n.owner, Loader.load("foundation.icon.btp.bmv.bridge.BTPMessageVerifier"), n.bmc, d.src.ch.net, ZERO);
        else d.verifier = n.ch.deploy(n.owner, Loader.load("foundation.icon.btp.bmv.btpblock.BTPMessageVerifier"), new String(d.net.srcId()), d.net.type, n.bmc, d.net.blocks.get(0).header, ZERO);
        x = new Exp();
        tx(n, "addVerifier " + d.src.ch.net, true, "C19", n.owner, ZERO, n.bmc, "addVerifier", d.src.ch.net, d.verifier);
    }
    void link(Net n, Dir out, Dir in) {
        x = new Exp();
        String to = out.dst.ch.net;
        addLink(n, to);
        x.out(out, internal(n, to, "Init", n.links()));
        n.out.put(to, out);
        n.in.put(to, in);
        if (out.net == null) tx(n, "addLink " + out.dstBtp, true, "C19", n.owner, ZERO, n.bmc, "addLink", out.dstBtp);
        else tx(n, "addBTPLink " + out.dstBtp, true, "C19", n.owner, ZERO, n.bmc, "addBTPLink", out.dstBtp, out.net.nid);
        for (Address r : in.all) {
            if (!in.relays.isEmpty() && c.p(300) || in.relays.contains(r)) continue;
            x = new Exp();
            tx(n, "addRelay " + in, true, "C19", n.owner, ZERO, n.bmc, "addRelay", in.srcBtp, r);
            in.relays.add(r);
        }
    }
    /** Relays everything that waits; true if there was something. */
    boolean pump() {
        boolean any = false;
        for (Dir d : dirs) {
            if (d.net != null) while (d.net.taken < d.sent.size()) maybeBlock(d.net);
            if (d.rx == d.sent.size()) continue;
            any = true;
            if (d.relays.isEmpty()) {
                x = new Exp();
                tx(d.dst, "addRelay", true, "C19", d.dst.owner, ZERO, d.dst.bmc, "addRelay", d.srcBtp, d.all.get(0));
                d.relays.add(d.all.get(0));
            }
            int rx = d.rx;
            relayStep(d);
            check(d.rx > rx, "C19", "stuck", d + ": messages wait and are not taken");
        }
        return any;
    }
    void drain() {
        quiet = true;
        note("faults end");
        for (int i = 0; ; i++) {
            boolean any = pump();
            for (Net n : nets) {
                if (!n.xcallOn) continue;
                for (XCall k : new ArrayList<>(n.requests)) if (k.executed + k.failed == 0 && (k.rollback == null || next(n, k.src.ch.net) != null)) { execute(n, k); any = true; }
                for (XCall k : calls.values()) if (k.src == n && k.enabled && k.rolled == 0) { rollback(n, k); any = true; }
            }
            if (!any) break;
            check(i < 300, "C19", "endless", "messages go on for ever");
        }
    }
    void ends() {
        for (Rec r : recs.values()) {
            if (r.lost) continue;
            boolean phantom = false;
            for (Net n : nets) phantom |= n.phantom.equals(r.m.dst);
            if (phantom) continue;
            check(r.handled + r.errored + r.dropped == 1, "C19", "outcome", "message " + r.m + " handled " + r.handled + " times, error reported " + r.errored + " times, dropped " + r.dropped + " times");
        }
        for (XCall k : calls.values()) {
            if (k.lost) continue;
            if (k.arrived && k.rollback == null) check(k.executed + k.failed == 1, "C21", "outcome", "call " + k.sn + " of " + k.src.ch.net + " executed " + k.executed + " times, failed " + k.failed + " times");
            if (k.rollback != null && (k.reqId == null || k.executed + k.failed > 0)) {
                check((k.executed == 1 && k.done ? 1 : 0) + (k.rolled == 1 ? 1 : 0) == 1 && k.executed + k.rolled == 1, "C21", "outcome", "call " + k.sn + " of " + k.src.ch.net + " executed " + k.executed + " times, failed " + k.failed + " times, rolled back " + k.rolled + " times, answered " + k.done);
            }
        }
        if (!prop.equals("C20")) return;
        for (Net n : nets) {
            for (Address a : n.holders) for (Net m : nets) {
                BigInteger g = (BigInteger) n.ch.query(n.bmc, "getReward", m.ch.net, a), w = n.rewards.getOrDefault(a + " " + m.ch.net, ZERO);
                check(g.equals(w), "C20", "reward", n.ch.net + ": reward of " + a + " for " + m.ch.net + " is " + g + ", expected " + w);
            }
        }
        for (Net n : nets) {
            BigInteger sum = floating.getOrDefault(n.ch.net, ZERO).add(lost.getOrDefault(n.ch.net, ZERO));
            for (Net m : nets) {
                for (Address a : m.holders) sum = sum.add((BigInteger) m.ch.query(m.bmc, "getReward", n.ch.net, a));
                for (Net.Open o : m.open.values()) if (n.ch.net.equals(o.feeNet)) for (BigInteger v : o.fees) sum = sum.add(v);
                Dir p = m.out.get(m.phantom);
                if (p != null) for (byte[] b : p.sent) { M q = M.dec(b); if (n.ch.net.equals(q.feeNet)) sum = sum.add(q.feeSum()); }
            }
            check(sum.equals(n.ch.balance(n.bmc)), "C20", "conservation", n.ch.net + ": message center holds " + n.ch.balance(n.bmc) + ", owed are " + sum);
        }
        count("conserved");
    }
}
