import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java override of CharCountFrom in Bytes.tla. */
public class Bytes {
    public static Value CharCountFrom(Value v, Value from) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int i = ((IntValue) from).val - 1;
        int n = 0;
        while (i < e.length) {
            int b = at(e, i), k;
            if (b < 0x80) k = 1;
            else if (b < 0xC2 || b > 0xF4) return IntValue.gen(-1);
            else if (b < 0xE0) k = 2;
            else if (b < 0xF0) k = 3;
            else k = 4;
            if (i + k > e.length) return IntValue.gen(-1);
            for (int j = 1; j < k; j++) {
                int c = at(e, i + j);
                int lo = 0x80, hi = 0xBF;
                if (j == 1) {
                    if (b == 0xE0) lo = 0xA0;
                    if (b == 0xED) hi = 0x9F;
                    if (b == 0xF0) lo = 0x90;
                    if (b == 0xF4) hi = 0x8F;
                }
                if (c < lo || c > hi) return IntValue.gen(-1);
            }
            i += k;
            n++;
        }
        return IntValue.gen(n);
    }
    private static int at(Value[] e, int i) {
        return ((IntValue) e[i]).val;
    }
}
