import java.math.BigInteger;
import java.util.ArrayList;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC evaluates the operators of BigInt.tla and Rat.tla named here with java.math.BigInteger
 * instead of with their TLA+ definitions.  SelfTest.tla compares the two.
 */
public class BigIntOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { BigIntOverrides.class };
    }

    static final BigInteger B = BigInteger.valueOf(10000);

    static Value[] elems(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("not a BigInt/Rat tuple: " + v);
        return ((TupleValue) t).elems;
    }

    static BigInteger dec(Value v) {
        Value[] e = elems(v);
        int s = ((IntValue) e[0]).val;
        if (e.length <= 5) {
            long r = 0;
            for (int i = e.length - 1; i >= 1; i--) r = r * 10000 + ((IntValue) e[i]).val;
            return BigInteger.valueOf(s * r);
        }
        BigInteger r = BigInteger.ZERO;
        for (int i = e.length - 1; i >= 1; i--)
            r = r.multiply(B).add(BigInteger.valueOf(((IntValue) e[i]).val));
        return s < 0 ? r.negate() : r;
    }

    static Value enc(BigInteger x) {
        ArrayList<Value> l = new ArrayList<>();
        l.add(IntValue.gen(x.signum()));
        x = x.abs();
        if (x.bitLength() < 63) {
            long r = x.longValue();
            while (r != 0) {
                l.add(IntValue.gen((int) (r % 10000)));
                r /= 10000;
            }
        } else {
            while (x.signum() != 0) {
                BigInteger[] qr = x.divideAndRemainder(B);
                l.add(IntValue.gen(qr[1].intValue()));
                x = qr[0];
            }
        }
        return new TupleValue(l.toArray(new Value[0]));
    }

    static Value q(BigInteger n, BigInteger d) {
        BigInteger g = n.gcd(d);
        if (d.signum() < 0) g = g.negate();
        return new TupleValue(new Value[] { enc(n.divide(g)), enc(d.divide(g)) });
    }

    static BigInteger num(Value a) { return dec(elems(a)[0]); }
    static BigInteger den(Value a) { return dec(elems(a)[1]); }

    @TLAPlusOperator(identifier = "ZAdd", module = "BigInt", warn = false)
    public static Value ZAdd(Value a, Value b) { return enc(dec(a).add(dec(b))); }

    @TLAPlusOperator(identifier = "ZSub", module = "BigInt", warn = false)
    public static Value ZSub(Value a, Value b) { return enc(dec(a).subtract(dec(b))); }

    @TLAPlusOperator(identifier = "ZMul", module = "BigInt", warn = false)
    public static Value ZMul(Value a, Value b) { return enc(dec(a).multiply(dec(b))); }

    @TLAPlusOperator(identifier = "ZCmp", module = "BigInt", warn = false)
    public static Value ZCmp(Value a, Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }

    @TLAPlusOperator(identifier = "ZQuo", module = "BigInt", warn = false)
    public static Value ZQuo(Value a, Value b) { return enc(dec(a).divide(dec(b))); }

    @TLAPlusOperator(identifier = "ZRem", module = "BigInt", warn = false)
    public static Value ZRem(Value a, Value b) { return enc(dec(a).remainder(dec(b))); }

    @TLAPlusOperator(identifier = "ZGcd", module = "BigInt", warn = false)
    public static Value ZGcd(Value a, Value b) { return enc(dec(a).gcd(dec(b))); }

    @TLAPlusOperator(identifier = "ZPow", module = "BigInt", warn = false)
    public static Value ZPow(Value a, Value n) { return enc(dec(a).pow(((IntValue) n).val)); }

    @TLAPlusOperator(identifier = "QNorm", module = "Rat", warn = false)
    public static Value QNorm(Value n, Value d) { return q(dec(n), dec(d)); }

    @TLAPlusOperator(identifier = "QAdd", module = "Rat", warn = false)
    public static Value QAdd(Value a, Value b) {
        BigInteger da = den(a), db = den(b);
        return q(num(a).multiply(db).add(num(b).multiply(da)), da.multiply(db));
    }

    @TLAPlusOperator(identifier = "QSub", module = "Rat", warn = false)
    public static Value QSub(Value a, Value b) {
        BigInteger da = den(a), db = den(b);
        return q(num(a).multiply(db).subtract(num(b).multiply(da)), da.multiply(db));
    }

    @TLAPlusOperator(identifier = "QMul", module = "Rat", warn = false)
    public static Value QMul(Value a, Value b) {
        return q(num(a).multiply(num(b)), den(a).multiply(den(b)));
    }

    @TLAPlusOperator(identifier = "QDiv", module = "Rat", warn = false)
    public static Value QDiv(Value a, Value b) {
        return q(num(a).multiply(den(b)), den(a).multiply(num(b)));
    }

    @TLAPlusOperator(identifier = "QInv", module = "Rat", warn = false)
    public static Value QInv(Value a) { return q(den(a), num(a)); }

    @TLAPlusOperator(identifier = "QCmp", module = "Rat", warn = false)
    public static Value QCmp(Value a, Value b) {
        return IntValue.gen(num(a).multiply(den(b)).compareTo(num(b).multiply(den(a))));
    }
}
