package scorex.util;
import java.util.Map;
// insertion order, so that no result depends on hash codes
public class HashMap<K, V> extends java.util.LinkedHashMap<K, V> {
    public HashMap() {}
    public HashMap(int n) { super(n); }
    public HashMap(Map<? extends K, ? extends V> m) { super(m); }
}
