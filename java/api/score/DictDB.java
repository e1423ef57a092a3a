package score;
public interface DictDB<K, V> { void set(K k, V v); V get(K k); V getOrDefault(K k, V d); }
