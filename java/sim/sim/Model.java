package sim;

import score.*;
import score.annotation.*;
import java.math.BigInteger;
import java.util.*;

/** Contracts of the harness: the platform's chain contract, services, applications. */
public class Model {
    static final Address CHAIN = Address.fromString("cx0000000000000000000000000000000000000000");

    /** The chain's own contract: keeps the messages of BTP networks. */
    public static class ChainScore {
        final Net net;
        ChainScore(Net n) { net = n; }
        @External public void sendBTPMessage(BigInteger networkId, byte[] msg) {
            Btp b = net.btps.get(networkId.longValueExact());
            Dir ph = net.out.get(net.phantom);
            if (b == null && ph != null && ph.pnid == networkId.longValueExact() && Context.getCaller().equals(net.bmc)) {
                ph.sent.add(msg);
                net.ch.undoable(() -> ph.sent.remove(ph.sent.size() - 1));
                return;
            }
            if (b == null || !Context.getCaller().equals(net.bmc)) throw new Vm.Revert(1, "no such network of the caller");
            if (b.dir.refuse > 0) { b.dir.refuse--; net.run.fault("send-refused"); throw new Vm.Revert(2, "network refuses messages"); }
            b.dir.sent.add(msg);
            b.dir.heights.add(net.ch.height);
            List<byte[]> l = b.dir.sent;
            List<Long> h = b.dir.heights;
            net.ch.undoable(() -> { l.remove(l.size() - 1); h.remove(h.size() - 1); });
        }
    }

    static class Call { boolean error; String from, svc; BigInteger sn; byte[] payload; long code;
        public String toString() { return (error ? "error " + code : "message") + " from " + from + " svc " + svc + " sn " + sn + (payload == null ? "" : " payload " + Vm.hex(payload)); }
    }

    // what a service does with a message is in its payload: mode, code, id (4 bytes), filler
    static final int ACCEPT = 0, REVERT = 1, REPLY = 2, LATER = 3, CRASH = 4, SENDREVERT = 5, FORWARD = 6, RESPONSE = 7, RESPONSE_REVERT = 8;

    public static class Bsh {
        final Net net;
        final String svc;
        Address self;
        boolean refuseErrors;
        final List<Call> log = new ArrayList<>();
        Bsh(Net n, String svc) { net = n; this.svc = svc; }
        private void record(Call c) {
            log.add(c);
            net.ch.undoable(() -> log.remove(log.size() - 1));
        }
        @Payable @External public BigInteger send(String to, BigInteger sn, byte[] payload) {
            return (BigInteger) Context.call(Context.getValue(), net.bmc, "sendMessage", to, svc, sn, payload);
        }
        @External public void handleBTPMessage(String _from, String _svc, BigInteger _sn, byte[] _msg) {
            if (!Context.getCaller().equals(net.bmc)) throw new Vm.Revert(99, "only bmc");
            Call c = new Call();
            c.from = _from; c.svc = _svc; c.sn = _sn; c.payload = _msg;
            record(c);
            if (_msg.length < 6) return;
            switch (_msg[0]) {
                case REVERT: case RESPONSE_REVERT: throw new Vm.Revert(_msg[1] & 0xff, "refused by the service");
                case CRASH: throw new NullPointerException("service fails");
                case SENDREVERT:
                    if (_sn.signum() > 0) Context.call(net.bmc, "sendMessage", _from, _svc, _sn.negate(), response(_msg, RESPONSE));
                    throw new Vm.Revert(_msg[1] & 0xff, "refused after the reply");
                case REPLY:
                    if (_sn.signum() > 0) Context.call(net.bmc, "sendMessage", _from, _svc, _sn.negate(), response(_msg, RESPONSE));
                    break;
                case FORWARD:
                    Context.call(net.bmc, "sendMessage", _from, _svc, BigInteger.ZERO, response(_msg, RESPONSE));
                    break;
            }
        }
        @External public void handleBTPError(String _src, String _svc, BigInteger _sn, long _code, String _msg) {
            if (!Context.getCaller().equals(net.bmc)) throw new Vm.Revert(99, "only bmc");
            if (refuseErrors) throw new Vm.Revert(7, "service does not want errors");
            Call c = new Call();
            c.error = true; c.from = _src; c.svc = _svc; c.sn = _sn; c.code = _code;
            record(c);
        }
        @Payable public void fallback() {}
    }
    static byte[] response(byte[] m, int mode) {
        byte[] r = Arrays.copyOf(m, 8);
        r[0] = (byte) mode;
        r[6] = 'r';
        return r;
    }

    /** A verifier that belongs to a link that is only set up and removed. */
    public static class NoVerifier {
        @External public byte[][] handleRelayMessage(String a, String b, BigInteger c, byte[] d) { throw new Vm.Revert(25, "nothing"); }
    }

    static class AppCall { String from; byte[] data; }
    static final int APP_OK = 0, APP_REVERT = 1, APP_CRASH = 2, APP_AGAIN = 3, APP_REENTER = 4, APP_REVERT0 = 5;

    /** An application on top of xcall. */
    public static class App {
        final Net net;
        Address self;
        final List<AppCall> log = new ArrayList<>();
        App(Net n) { net = n; }
        @Payable @External public BigInteger call(String to, byte[] data, byte[] rollback) {
            return (BigInteger) Context.call(Context.getValue(), net.xcall, "sendCallMessage", to, data, rollback);
        }
        @External public void handleCallMessage(String _from, byte[] _data) {
            if (!Context.getCaller().equals(net.xcall)) throw new Vm.Revert(98, "only xcall");
            AppCall c = new AppCall();
            c.from = _from; c.data = _data;
            log.add(c);
            net.ch.undoable(() -> log.remove(log.size() - 1));
            switch (_data[0]) {
                case APP_REVERT: throw new Vm.Revert(_data[1] & 0xff, "application refuses");
                case APP_REVERT0: throw new Vm.Revert(0, "application refuses");
                case APP_CRASH: throw new NullPointerException("application fails");
                case APP_REENTER: // tries to have it once more from inside
                    BigInteger req = net.curReq, sn = net.curSn;
                    net.curReq = net.curSn = null;
                    try {
                        if (req != null) Context.call(net.xcall, "executeCall", req);
                        else if (sn != null) Context.call(net.xcall, "executeRollback", sn);
                        else break;
                    } catch (RevertedException e) { break; }
                    net.reentered.add(BigInteger.ONE);
                    break;
            }
        }
        @Payable public void fallback() {}
    }
}
