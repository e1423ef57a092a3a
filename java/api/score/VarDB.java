package score;
public interface VarDB<E> { void set(E v); E get(); E getOrDefault(E d); }
