package score;
import java.math.BigInteger;
public interface ObjectReader {
    boolean readBoolean(); byte readByte(); short readShort(); char readChar(); int readInt(); long readLong();
    BigInteger readBigInteger(); String readString(); byte[] readByteArray(); Address readAddress();
    <T> T read(Class<T> c);
    <T> T readOrDefault(Class<T> c, T d);
    <T> T readNullable(Class<T> c);
    <T> T readNullableOrDefault(Class<T> c, T d);
    void beginList();
    boolean beginNullableList();
    void beginMap();
    boolean beginNullableMap();
    boolean hasNext();
    void end();
    void skip();
    void skip(int n);
}
