// Accelerators for Ed25519.tla. Each method computes what the TLA+ definition of
// the same name says; Ed25519_selftest.tla is run without this class and
// compares both (through the vectors it prints) with known answers.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Ed25519 {
  static final BigInteger P = BigInteger.TWO.pow(255).subtract(BigInteger.valueOf(19));
  static final BigInteger D = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(P)).mod(P);
  // points in extended coordinates X,Y,Z,T given as a 4-tuple of byte sequences
  static BigInteger[] pt(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return new BigInteger[] {Prim.big(e[0]), Prim.big(e[1]), Prim.big(e[2]), Prim.big(e[3])};
  }
  static Value unpt(BigInteger[] p) {
    return new TupleValue(new Value[] {Prim.unbig(p[0]), Prim.unbig(p[1]), Prim.unbig(p[2]), Prim.unbig(p[3])});
  }
  static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
    BigInteger a = p[1].subtract(p[0]).multiply(q[1].subtract(q[0])).mod(P);
    BigInteger b = p[1].add(p[0]).multiply(q[1].add(q[0])).mod(P);
    BigInteger c = p[3].multiply(q[3]).mod(P).multiply(D).mod(P).shiftLeft(1);
    BigInteger d = p[2].multiply(q[2]).shiftLeft(1).mod(P);
    BigInteger e = b.subtract(a), f = d.subtract(c), g = d.add(c), h = b.add(a);
    return new BigInteger[] {e.multiply(f).mod(P), g.multiply(h).mod(P), f.multiply(g).mod(P), e.multiply(h).mod(P)};
  }
  // ScalarMul(n, p): n a big-endian byte sequence
  // results are kept: the same keys come up again and again
  static final java.util.concurrent.ConcurrentHashMap<java.util.List<BigInteger>, Value> KNOWN = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value ScalarMul(Value n, Value p) {
    BigInteger k = Prim.big(n);
    BigInteger[] b = pt(p);
    java.util.List<BigInteger> key = java.util.List.of(k, b[0], b[1], b[2], b[3]);
    Value v = KNOWN.get(key);
    if (v == null) {
      v = mul(k, b);
      v.deepNormalize();
      if (KNOWN.size() > 50000) KNOWN.clear();
      KNOWN.put(key, v);
    }
    return v;
  }
  static Value mul(BigInteger k, BigInteger[] b) {
    BigInteger[] r = {BigInteger.ZERO, BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO};
    for (int i = k.bitLength() - 1; i >= 0; i--) { r = add(r, r); if (k.testBit(i)) r = add(r, b); }
    return unpt(r);
  }
}
