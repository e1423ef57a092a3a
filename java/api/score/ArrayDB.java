package score;
public interface ArrayDB<E> { void add(E v); void set(int i, E v); void removeLast(); E get(int i); int size(); E pop(); }
