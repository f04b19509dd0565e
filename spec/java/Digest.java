import java.security.MessageDigest;
import java.util.zip.CRC32;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java overrides of the operators at the end of Digest.tla. */
public class Digest {
    static byte[] bytes(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        byte[] b = new byte[e.length];
        for (int i = 0; i < e.length; i++) b[i] = (byte) ((IntValue) e[i]).val;
        return b;
    }
    static Value tuple(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 0xff);
        return new TupleValue(e);
    }
    public static Value CRC32(Value s) {
        CRC32 c = new CRC32();
        c.update(bytes(s));
        long x = c.getValue();
        return tuple(new byte[] {(byte) (x >> 24), (byte) (x >> 16), (byte) (x >> 8), (byte) x});
    }
    public static Value SHA1(Value s) throws Exception {
        return tuple(MessageDigest.getInstance("SHA-1").digest(bytes(s)));
    }
    public static Value MD5(Value s) throws Exception {
        return tuple(MessageDigest.getInstance("MD5").digest(bytes(s)));
    }
    public static Value HmacSha1(Value k, Value s) throws Exception {
        byte[] kb = bytes(k);
        // An empty key is the 64 zero bytes it is padded to (SecretKeySpec refuses empty keys).
        if (kb.length == 0) kb = new byte[1];
        Mac m = Mac.getInstance("HmacSHA1");
        m.init(new SecretKeySpec(kb, "HmacSHA1"));
        return tuple(m.doFinal(bytes(s)));
    }
}
