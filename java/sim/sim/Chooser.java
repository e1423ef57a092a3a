package sim;

import java.util.*;

/** Every decision of a run, recorded; replayed from a list (0, the benign default, past its end). */
public class Chooser {
    private final SplittableRandom rng;
    private final int[] replay;
    private int pos;
    final ArrayList<Integer> rec = new ArrayList<>();
    Chooser(long seed) { rng = new SplittableRandom(seed); replay = null; }
    Chooser(int[] r) { rng = null; replay = r; }
    int n(int n) {
        if (n <= 1) return 0;
        int v = 0;
        if (rng != null) v = rng.nextInt(n);
        else if (pos < replay.length) v = Integer.remainderUnsigned(replay[pos], n);
        pos++;
        rec.add(v);
        return v;
    }
    int range(int lo, int hi) { return lo + n(hi - lo + 1); }
    boolean p(int permille) { return permille > 0 && n(1000) >= 1000 - permille; }
    int pick(int... w) {
        int t = 0;
        for (int x : w) t += x;
        int v = n(t);
        for (int i = 0; i < w.length; i++) { if (v < w[i]) return i; v -= w[i]; }
        return 0;
    }
    <T> T of(List<T> l) { return l.get(n(l.size())); }
    byte[] bytes(int len) {
        byte[] b = new byte[len];
        long s = n(1 << 30) + 1L;
        for (int i = 0; i < len; i++) { s ^= s << 13; s ^= s >>> 7; s ^= s << 17; b[i] = (byte) s; }
        return b;
    }
}
