package sim;

import score.*;
import java.util.*;

/** One direction of a link. */
public class Dir {
    Net src, dst;
    boolean btp;
    Btp net;
    final List<byte[]> sent = new ArrayList<>();
    final List<Long> heights = new ArrayList<>();
    int rx; // messages the destination has taken
    int blk; // blocks its verifier knows (btp)
    Address verifier;
    final List<Address> relays = new ArrayList<>();
    final List<Address> all = new ArrayList<>();
    final Map<Address, FragState> frags = new LinkedHashMap<>();
    final List<Frag> pending = new ArrayList<>();
    final List<int[]> past = new ArrayList<>();
    final List<Sub> kept = new ArrayList<>();
    String srcBtp, dstBtp;
    int refuse;
    long vh; // height its verifier knows (bridge)
    long pnid; // BTP network of a link without relays
    static class Frag { Sub sub; Address relay; boolean registered; List<byte[]> parts; int next; }
    static class FragState { int last, next; List<byte[]> parts = new ArrayList<>(); }
    /** What a relay submits. */
    static class Sub {
        Dir d; byte[] bytes; int from, to; // messages from (exclusive) to (inclusive)
        int blkFrom, blkTo; // btp: blocks known before and after
        int bad; boolean garbled;
        String what = "";
    }
    public String toString() { return src.ch.net + ">" + (dst == null ? dstBtp : dst.ch.net); }
}
