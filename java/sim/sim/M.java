package sim;

import java.math.BigInteger;
import java.util.*;

/** A message between message centers. */
class M {
    String src, dst, svc;
    BigInteger sn, nsn; // nsn null: any that was not used yet
    byte[] payload; // null: not predicted
    String feeNet; // null: no fees
    List<BigInteger> fees = new ArrayList<>();
    long code = -1; // of an error
    String kind; // internal messages: what kind
    Set<String> nets; // and the networks it names

    static M dec(byte[] b) {
        M m = new M();
        Rlp.Reader r = new Rlp.Reader(b);
        r.beginList();
        m.src = r.readString();
        m.dst = r.readString();
        m.svc = r.readString();
        m.sn = r.readBigInteger();
        m.payload = r.readByteArray();
        m.nsn = r.readBigInteger();
        if (r.beginNullableList()) {
            m.feeNet = r.readString();
            r.beginList();
            while (r.hasNext()) m.fees.add(r.readBigInteger());
            r.end();
            r.end();
        }
        r.end();
        if (m.payload.length == 0) {
            m.code = m.sn.signum() < 0 ? 0 : -1;
        } else if (m.sn.signum() < 0) {
            r = new Rlp.Reader(m.payload);
            r.beginList();
            m.code = r.readLong();
        } else if (m.svc.equals("bmc")) {
            r = new Rlp.Reader(m.payload);
            r.beginList();
            m.kind = r.readString();
            m.nets = new TreeSet<>();
            byte[] p = r.readByteArray();
            r = new Rlp.Reader(p);
            r.beginList();
            if (m.kind.equals("Init")) {
                r.beginList();
                while (r.hasNext()) m.nets.add(net(r.readString()));
            } else if (m.kind.equals("Link") || m.kind.equals("Unlink")) m.nets.add(net(r.readString()));
            else if (m.kind.equals("Response")) m.nets.add("" + r.readLong());
            else if (m.kind.equals("Claim")) { m.nets.add(r.readBigInteger().toString()); m.nets.add("to " + r.readString()); }
        }
        return m;
    }
    static String net(String btp) { return btp.substring(6, btp.indexOf('/', 6)); }
    BigInteger feeSum() {
        BigInteger s = BigInteger.ZERO;
        for (BigInteger f : fees) s = s.add(f);
        return s;
    }
    public String toString() {
        return src + ">" + dst + " " + svc + " sn " + sn + " nsn " + nsn + (code >= 0 ? " error " + code : kind != null ? " " + kind + nets : payload == null ? "" : " " + Vm.hex(payload)) + " fees " + feeNet + fees;
    }
}
