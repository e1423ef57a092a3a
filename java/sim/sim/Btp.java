package sim;

import java.math.BigInteger;
import java.util.*;

/** A BTP network of a chain: blocks of messages with Merkle roots and signatures of the validators. */
public class Btp {
    final Net net;
    final long nid;
    final int type = 1;
    Dir dir;
    int taken; // messages that are in blocks
    List<Integer> validators;
    final List<List<Integer>> sets = new ArrayList<>();
    int lazy = 250;
    final List<Block> blocks = new ArrayList<>();
    byte[] lastHash, ctxHash;
    final int siblings; // other networks of the same type on the chain
    final Run run;

    static class Block { long height; int first; List<byte[]> msgs; byte[] header; byte[] decision; List<Integer> signers; BigInteger upd; byte[] prev, ctx, nextHash, section, computed; }

    Btp(Net n, long nid, int siblings) { net = n; run = n.run; this.nid = nid; this.siblings = siblings; }

    static byte[] h(byte[]... b) { return Vm.hash(Rlp.cat(b)); }
    static byte[] address(int v) { byte[] k = Vm.pubkey(v); return Arrays.copyOfRange(Vm.hash(Arrays.copyOfRange(k, 1, 65)), 12, 32); }
    byte[] context() {
        byte[][] a = new byte[validators.size()][];
        for (int i = 0; i < a.length; i++) a[i] = Rlp.bytes(address(validators.get(i)));
        return Rlp.list(Rlp.list(a));
    }
    byte[] srcId() { return ("btp://" + net.ch.net).replace("btp://", "x/").getBytes(); }

    /** Puts the waiting messages into a block; nextValidators, if given, take over after it. */
    Block produce(List<Integer> next) {
        Block b = new Block();
        b.height = net.ch.height;
        b.first = taken;
        b.msgs = new ArrayList<>(dir.sent.subList(taken, dir.sent.size()));
        List<Integer> signers = validators;
        boolean first = blocks.isEmpty();
        boolean update = first || next != null;
        if (next != null) validators = next;
        byte[] ctx = update ? context() : null;
        if (update) ctxHash = Vm.hash(ctx);
        b.upd = BigInteger.valueOf(b.first).shiftLeft(1).add(update ? BigInteger.ONE : BigInteger.ZERO);
        b.prev = first ? null : lastHash;
        b.ctx = ctx;
        b.nextHash = ctxHash;
        b.header = header(b, b);
        b.decision = b.computed;
        b.signers = signers;
        lastHash = b.section;
        taken = dir.sent.size();
        blocks.add(b);
        return b;
    }

    /** The header of f, everything but its messages as in b. */
    byte[] header(Block f, Block b) {
        byte[] root = f.msgs.isEmpty() ? null : root(hashes(f.msgs), 0, f.msgs.size());
        f.section = Vm.hash(Rlp.list(Rlp.num(nid), Rlp.num(b.upd), Rlp.nullable(b.prev), Rlp.num(f.msgs.size()), Rlp.nullable(root)));
        // the path from this network's section to the root over all networks of the type
        List<byte[]> path = new ArrayList<>();
        byte[] r = f.section;
        for (int i = 0; i < siblings; i++) {
            byte[] s = Vm.hash(("sibling" + i + nid + b.height).getBytes());
            boolean left = (nid + i) % 2 == 0;
            path.add(Rlp.list(Rlp.num(left ? 0 : 1), Rlp.bytes(s)));
            r = left ? h(s, r) : h(r, s);
        }
        byte[] nts = Vm.hash(Rlp.list(Rlp.nullable(b.nextHash), Rlp.bytes(r)));
        int round = (int) (b.height % 3);
        f.computed = Vm.hash(Rlp.list(Rlp.bytes(srcId()), Rlp.num(type), Rlp.num(b.height), Rlp.num(round), Rlp.bytes(nts)));
        return Rlp.list(Rlp.num(b.height), Rlp.num(round), Rlp.nullable(b.nextHash), Rlp.list(path.toArray(new byte[0][])), Rlp.num(nid), Rlp.num(b.upd),
            Rlp.nullable(b.prev), Rlp.num(f.msgs.size()), Rlp.nullable(root), Rlp.nullable(b.ctx));
    }

    static byte[][] hashes(List<byte[]> m) {
        byte[][] r = new byte[m.size()][];
        for (int i = 0; i < r.length; i++) r[i] = Vm.hash(m.get(i));
        return r;
    }
    static int split(int n) { int k = 1; while (k * 2 < n) k *= 2; return k; }
    static byte[] root(byte[][] l, int lo, int hi) {
        if (hi - lo == 1) return l[lo];
        int k = lo + split(hi - lo);
        return h(root(l, lo, k), root(l, k, hi));
    }
    static void nodes(byte[][] l, int lo, int hi, int from, int to, List<byte[]> left, List<byte[]> right) {
        if (hi <= from) { left.add(Rlp.list(Rlp.num(hi - lo), Rlp.bytes(root(l, lo, hi)))); return; }
        if (lo >= to) { right.add(Rlp.list(Rlp.num(hi - lo), Rlp.bytes(root(l, lo, hi)))); return; }
        if (hi - lo == 1) return;
        int k = lo + split(hi - lo);
        nodes(l, lo, k, from, to, left, right);
        nodes(l, k, hi, from, to, left, right);
    }
    /** Proof of the messages from (inclusive) to (exclusive) of a block. */
    static byte[] proof(Block b, int from, int to, int forge) {
        List<byte[]> left = new ArrayList<>(), right = new ArrayList<>();
        nodes(hashes(b.msgs), 0, b.msgs.size(), from, to, left, right);
        byte[][] m = new byte[to - from][];
        for (int i = 0; i < m.length; i++) m[i] = Rlp.bytes(b.msgs.get(from + i));
        if (forge == 1) { byte[] q = b.msgs.get(to - 1).clone(); q[q.length / 2] ^= 1; m[m.length - 1] = Rlp.bytes(q); }
        else if (forge == 2) { m = Arrays.copyOf(m, m.length + 1); m[m.length - 1] = m[0]; }
        else if (forge == 3) { m = Arrays.copyOf(m, m.length - 1); }
        return Rlp.list(Rlp.list(left.toArray(new byte[0][])), Rlp.list(m), Rlp.list(right.toArray(new byte[0][])));
    }
    /** Proof of messages after pos that passes over the one at pos: the nodes' numbers of leaves are made to fit. */
    static byte[] lie(Block b, int pos, int skip) {
        int n = b.msgs.size(), from = Math.min(pos + skip, n - 1), to = Math.min(n, from + 1 + (n - from) / 2);
        if (from <= pos) from = pos;
        byte[][] l = hashes(b.msgs);
        List<int[]> lc = new ArrayList<>(), rc = new ArrayList<>();
        List<byte[]> lv = new ArrayList<>(), rv = new ArrayList<>();
        walk(l, 0, n, from, to, lc, lv, rc, rv);
        int d = from - pos;
        if (!lc.isEmpty()) lc.get(lc.size() - 1)[0] -= d;
        if (!rc.isEmpty()) rc.get(rc.size() - 1)[0] += d;
        byte[][] m = new byte[to - from][];
        for (int i = 0; i < m.length; i++) m[i] = Rlp.bytes(b.msgs.get(from + i));
        return Rlp.list(list(lc, lv), Rlp.list(m), list(rc, rv));
    }
    /** Proof of a message nobody sent in place of the one at pos: a node below zero leaves makes room for it beside the real ones. */
    static byte[] hollow(Block b, int pos, int room, byte[] fake) {
        int n = b.msgs.size(), j = pos + room;
        byte[][] l = hashes(b.msgs);
        List<int[]> lc = new ArrayList<>(), rc = new ArrayList<>();
        List<byte[]> lv = new ArrayList<>(), rv = new ArrayList<>();
        walk(l, 0, n, j, n, lc, lv, rc, rv);
        lc.add(new int[]{-room});
        lv.add(l[pos]);
        rc.add(new int[]{1});
        rv.add(l[j]);
        List<int[]> zc = new ArrayList<>();
        List<byte[]> zv = new ArrayList<>();
        walk(l, 0, n, 0, j + 1, zc, zv, rc, rv);
        return Rlp.list(list(lc, lv), Rlp.list(Rlp.bytes(fake)), list(rc, rv));
    }
    /** Proof of the messages from (inclusive) to (exclusive), with the nodes changed: numbers of leaves, nodes twice, nodes left out, nodes that stand for nothing. */
    static byte[] warped(Block b, int from, int to, Chooser c) {
        List<int[]> lc = new ArrayList<>(), rc = new ArrayList<>();
        List<byte[]> lv = new ArrayList<>(), rv = new ArrayList<>();
        byte[][] l = hashes(b.msgs);
        walk(l, 0, b.msgs.size(), from, to, lc, lv, rc, rv);
        for (int k = c.range(1, 2); k > 0; k--) {
            boolean left = c.p(500);
            List<int[]> nc = left ? lc : rc;
            List<byte[]> nv = left ? lv : rv;
            int at = c.n(nc.size() + 1);
            int what = nc.isEmpty() || at == nc.size() ? 0 : c.n(4);
            if (what == 0) { nc.add(at, new int[]{c.range(1, 4)}); nv.add(at, c.of(Arrays.asList(l))); }
            else if (what == 1) nc.get(at)[0] += c.p(500) ? 1 : -1;
            else if (what == 2) { nc.remove(at); nv.remove(at); }
            else { nc.add(at, nc.get(at).clone()); nv.add(at, nv.get(at)); }
        }
        byte[][] m = new byte[to - from][];
        for (int i = 0; i < m.length; i++) m[i] = Rlp.bytes(b.msgs.get(from + i));
        return Rlp.list(list(lc, lv), Rlp.list(m), list(rc, rv));
    }
    static byte[] list(List<int[]> c, List<byte[]> v) {
        byte[][] r = new byte[c.size()][];
        for (int i = 0; i < r.length; i++) r[i] = Rlp.list(Rlp.num(c.get(i)[0]), Rlp.bytes(v.get(i)));
        return Rlp.list(r);
    }
    static void walk(byte[][] l, int lo, int hi, int from, int to, List<int[]> lc, List<byte[]> lv, List<int[]> rc, List<byte[]> rv) {
        if (hi <= from) { lc.add(new int[]{hi - lo}); lv.add(root(l, lo, hi)); return; }
        if (lo >= to) { rc.add(new int[]{hi - lo}); rv.add(root(l, lo, hi)); return; }
        if (hi - lo == 1) return;
        int k = lo + split(hi - lo);
        walk(l, lo, k, from, to, lc, lv, rc, rv);
        walk(l, k, hi, from, to, lc, lv, rc, rv);
    }
    /** Block update; bad: 0 good, 1 too few signatures, 2 one of them twice, 3 one of a stranger, 4 one over something else; 5, 6: enough, and one of a stranger or one twice. */
    static byte[] update(Block b, int bad) {
        List<byte[]> s = new ArrayList<>();
        int n = b.signers.size(), need = n * 2 / 3 + 1;
        if (bad == 1) need = n * 2 / 3;
        if (bad >= 2 && bad <= 4) need--;
        for (int i = 0; i < need; i++) s.add(Rlp.bytes(Vm.sign(b.signers.get((int) ((i + b.height) % n)), b.decision)));
        if (bad == 2 && need > 0) s.add(s.get(0));
        if (bad == 6) s.add(s.get(0));
        if (bad == 3 || bad == 5) s.add(Rlp.bytes(Vm.sign(200, b.decision)));
        if (bad == 4) s.add(Rlp.bytes(Vm.sign(b.signers.get((int) ((need + b.height) % n)), Vm.hash(b.decision))));
        return Rlp.list(Rlp.bytes(b.header), Rlp.bytes(Rlp.list(Rlp.list(s.toArray(new byte[0][])))));
    }
}
