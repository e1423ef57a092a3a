package sim;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Worker: a job per line on standard input, a result per line on file descriptor 3. */
public class Main {
    public static void main(String[] a) throws Exception {
        Loader.init(a[0]);
        OutputStream out = new FileOutputStream(a.length > 1 ? a[1] : "/dev/fd/3");
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        for (String l; (l = in.readLine()) != null; ) {
            Map<String, Object> job = parse(l);
            String r = run(job);
            out.write((r + "\n").getBytes(StandardCharsets.UTF_8));
            out.flush();
        }
    }

    static String run(Map<String, Object> job) {
        String sc = (String) job.get("scenario");
        long seed = job.get("seed") == null ? 0 : ((Number) job.get("seed")).longValue();
        boolean replay = Boolean.TRUE.equals(job.get("replay")), trace = Boolean.TRUE.equals(job.get("trace"));
        Chooser c;
        if (replay) {
            @SuppressWarnings("unchecked") List<Object> l = (List<Object>) job.getOrDefault("choices", new ArrayList<>());
            int[] r = new int[l == null ? 0 : l.size()];
            for (int i = 0; i < r.length; i++) r[i] = ((Number) l.get(i)).intValue();
            c = new Chooser(r);
        } else c = new Chooser(seed * 0x9E3779B97F4A7C15L + sc.hashCode());
        Run run = new Run(c, sc, "thorough".equals(job.get("tier")));
        run.tracing = trace;
        String infra = "";
        try {
            run.go();
        } catch (Run.Stop e) {
        } catch (Throwable e) {
            StringWriter w = new StringWriter();
            e.printStackTrace(new PrintWriter(w));
            infra = w.toString();
            Vm.stack.clear();
        }
        Vm.stack.clear();
        boolean ok = run.sig == null && infra.isEmpty();
        StringBuilder s = new StringBuilder("{\"scenario\":").append(q(sc)).append(",\"seed\":").append(Long.toUnsignedString(seed)).append(",\"ok\":").append(ok);
        if (run.sig != null) s.append(",\"sig\":").append(q(run.sig)).append(",\"msg\":").append(q(run.msg));
        if (!infra.isEmpty()) s.append(",\"infra\":").append(q(infra));
        s.append(",\"digest\":").append(q(run.digest())).append(",\"steps\":").append(run.steps).append(",\"sim_ms\":").append(run.simMs());
        s.append(",\"faults\":").append(map(run.faults)).append(",\"counts\":").append(map(run.counts));
        if (!ok || trace) s.append(",\"choices\":").append(c.rec.toString());
        if (trace || !ok) {
            s.append(",\"trace\":[");
            for (int i = 0; i < run.trace.size(); i++) s.append(i > 0 ? "," : "").append(q(run.trace.get(i)));
            s.append("]");
        }
        s.append(",\"states\":[");
        int i = 0;
        for (long h : run.states) s.append(i++ > 0 ? "," : "").append(h & Long.MAX_VALUE);
        s.append("],\"nchoices\":").append(c.rec.size()).append(",\"nontrivial\":").append(run.nontrivial());
        s.append(",\"heap\":0}");
        return s.toString();
    }
    static String map(Map<String, Integer> m) {
        StringBuilder s = new StringBuilder("{");
        for (String k : m.keySet()) s.append(s.length() > 1 ? "," : "").append(q(k)).append(":").append(m.get(k));
        return s.append("}").toString();
    }
    static String q(String v) {
        StringBuilder s = new StringBuilder("\"");
        for (char ch : String.valueOf(v).toCharArray()) {
            if (ch == '"' || ch == '\\') s.append('\\').append(ch);
            else if (ch < 32 || ch > 126) s.append(String.format("\\u%04x", (int) ch));
            else s.append(ch);
        }
        return s.append('"').toString();
    }

    // a small JSON reader
    static String t; static int p;
    @SuppressWarnings("unchecked") static Map<String, Object> parse(String s) { t = s; p = 0; return (Map<String, Object>) value(); }
    static void ws() { while (p < t.length() && t.charAt(p) <= ' ') p++; }
    static Object value() {
        ws();
        char ch = t.charAt(p);
        if (ch == '{') {
            Map<String, Object> m = new LinkedHashMap<>();
            p++;
            for (ws(); t.charAt(p) != '}'; ws()) {
                if (t.charAt(p) == ',') { p++; continue; }
                String k = (String) value();
                ws();
                p++; // :
                m.put(k, value());
            }
            p++;
            return m;
        }
        if (ch == '[') {
            List<Object> l = new ArrayList<>();
            p++;
            for (ws(); t.charAt(p) != ']'; ws()) {
                if (t.charAt(p) == ',') { p++; continue; }
                l.add(value());
            }
            p++;
            return l;
        }
        if (ch == '"') {
            StringBuilder b = new StringBuilder();
            for (p++; t.charAt(p) != '"'; p++) {
                if (t.charAt(p) == '\\') {
                    char e = t.charAt(++p);
                    if (e == 'u') { b.append((char) Integer.parseInt(t.substring(p + 1, p + 5), 16)); p += 4; }
                    else b.append(e == 'n' ? '\n' : e == 't' ? '\t' : e);
                } else b.append(t.charAt(p));
            }
            p++;
            return b.toString();
        }
        int s = p;
        while (p < t.length() && ",]} ".indexOf(t.charAt(p)) < 0) p++;
        String w = t.substring(s, p);
        if (w.equals("true")) return true;
        if (w.equals("false")) return false;
        if (w.equals("null")) return null;
        return new java.math.BigDecimal(w).toBigInteger();
    }
}
