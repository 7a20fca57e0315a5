// TLC operator overrides for module Prim: cryptographic hash functions and
// big-integer modular arithmetic on byte sequences. This is the trusted base of
// the specification; Prim_selftest.tla checks it against published vectors.
import java.math.BigInteger;
import java.security.MessageDigest;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Prim {
  static byte[] bytes(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Prim: not a byte sequence: " + v);
    byte[] b = new byte[t.elems.length];
    for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
    return b;
  }
  static Value tuple(byte[] r) {
    Value[] o = new Value[r.length];
    for (int i = 0; i < r.length; i++) o[i] = IntValue.gen(r[i] & 255);
    return new TupleValue(o);
  }
  static BigInteger big(Value v) { return new BigInteger(1, bytes(v)); }
  // normalised: no leading zero, zero is the empty sequence
  static Value unbig(BigInteger n) {
    if (n.signum() == 0) return tuple(new byte[0]);
    byte[] b = n.toByteArray();
    if (b[0] == 0) b = java.util.Arrays.copyOfRange(b, 1, b.length);
    return tuple(b);
  }

  public static Value Ascii(Value s) throws Exception { return tuple(((tlc2.value.impl.StringValue) s).val.toString().getBytes("US-ASCII")); }
  public static Value SHA256(Value m) throws Exception { return tuple(MessageDigest.getInstance("SHA-256").digest(bytes(m))); }
  public static Value SHA512(Value m) throws Exception { return tuple(MessageDigest.getInstance("SHA-512").digest(bytes(m))); }

  static final class Hmac {
    final MessageDigest in, out;
    Hmac(byte[] key) throws Exception {
      if (key.length > 128) key = MessageDigest.getInstance("SHA-512").digest(key);
      byte[] i = new byte[128], o = new byte[128];
      for (int k = 0; k < 128; k++) { int x = k < key.length ? key[k] : 0; i[k] = (byte) (x ^ 0x36); o[k] = (byte) (x ^ 0x5c); }
      in = MessageDigest.getInstance("SHA-512"); in.update(i);
      out = MessageDigest.getInstance("SHA-512"); out.update(o);
    }
    byte[] mac(byte[] m) throws Exception {
      MessageDigest a = (MessageDigest) in.clone(), b = (MessageDigest) out.clone();
      return b.digest(a.digest(m));
    }
  }
  public static Value HMAC512(Value k, Value m) throws Exception { return tuple(new Hmac(bytes(k)).mac(bytes(m))); }
  static final java.util.concurrent.ConcurrentHashMap<String, byte[]> PBKDF = new java.util.concurrent.ConcurrentHashMap<>();
  public static Value PBKDF512(Value pw, Value salt, Value iter, Value len) throws Exception {
    Hmac h = new Hmac(bytes(pw));
    byte[] s = bytes(salt);
    int n = ((IntValue) len).val, it = ((IntValue) iter).val;
    String key = java.util.Arrays.toString(bytes(pw)) + java.util.Arrays.toString(s) + n + "," + it;
    byte[] known = PBKDF.get(key);
    if (known != null) return tuple(known);
    byte[] out = new byte[n];
    for (int blk = 1, off = 0; off < n; blk++, off += 64) {
      byte[] m = java.util.Arrays.copyOf(s, s.length + 4);
      m[s.length] = (byte) (blk >> 24); m[s.length + 1] = (byte) (blk >> 16); m[s.length + 2] = (byte) (blk >> 8); m[s.length + 3] = (byte) blk;
      byte[] u = h.mac(m), t = u.clone();
      for (int i = 1; i < it; i++) { u = h.mac(u); for (int j = 0; j < 64; j++) t[j] ^= u[j]; }
      System.arraycopy(t, 0, out, off, Math.min(64, n - off));
    }
    if (PBKDF.size() > 10000) PBKDF.clear();
    PBKDF.put(key, out);
    return tuple(out);
  }

  // ---- BLAKE2b (RFC 7693), unkeyed
  static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
    0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  static final byte[][] SIGMA = {
    {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
    {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
    {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
    {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
    {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
  static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] += v[d]; v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static byte[] blake2b(int n, byte[] msg) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L ^ n;
    int blocks = Math.max(1, (msg.length + 127) / 128);
    for (int k = 0; k < blocks; k++) {
      byte[] blk = new byte[128];
      int len = Math.min(128, msg.length - k * 128);
      if (len > 0) System.arraycopy(msg, k * 128, blk, 0, len);
      boolean last = k == blocks - 1;
      long t = last ? msg.length : (k + 1) * 128L;
      long[] m = new long[16], v = new long[16];
      for (int i = 0; i < 16; i++) for (int j = 7; j >= 0; j--) m[i] = m[i] << 8 | (blk[i * 8 + j] & 255);
      for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
      v[12] ^= t;
      if (last) v[14] = ~v[14];
      for (int r = 0; r < 12; r++) {
        byte[] s = SIGMA[r % 10];
        g(v,0,4,8,12,m[s[0]],m[s[1]]); g(v,1,5,9,13,m[s[2]],m[s[3]]); g(v,2,6,10,14,m[s[4]],m[s[5]]); g(v,3,7,11,15,m[s[6]],m[s[7]]);
        g(v,0,5,10,15,m[s[8]],m[s[9]]); g(v,1,6,11,12,m[s[10]],m[s[11]]); g(v,2,7,8,13,m[s[12]],m[s[13]]); g(v,3,4,9,14,m[s[14]],m[s[15]]);
      }
      for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }
    byte[] out = new byte[n];
    for (int i = 0; i < n; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    return out;
  }
  public static Value Blake2b(Value n, Value m) { return tuple(blake2b(((IntValue) n).val, bytes(m))); }

  // ---- CRC-32 (IEEE 802.3), as four big-endian bytes
  public static Value CRC32(Value m) {
    java.util.zip.CRC32 c = new java.util.zip.CRC32();
    c.update(bytes(m));
    long v = c.getValue();
    return tuple(new byte[] {(byte) (v >> 24), (byte) (v >> 16), (byte) (v >> 8), (byte) v});
  }

  // ---- arithmetic modulo m on big-endian byte sequences
  public static Value MMod(Value a, Value m) { return unbig(big(a).mod(big(m))); }
  public static Value MAdd(Value a, Value b, Value m) { return unbig(big(a).add(big(b)).mod(big(m))); }
  public static Value MSub(Value a, Value b, Value m) { return unbig(big(a).subtract(big(b)).mod(big(m))); }
  public static Value MMul(Value a, Value b, Value m) { return unbig(big(a).multiply(big(b)).mod(big(m))); }
  public static Value MPow(Value a, Value e, Value m) { return unbig(big(a).modPow(big(e), big(m))); }

  // ---- the JDK's own Ed25519 verifier, an oracle independent of Ed25519.tla
  public static Value JdkEdVerify(Value pk, Value msg, Value sig) throws Exception {
    try {
      byte[] p = bytes(pk);
      byte[] hdr = {0x30,0x2a,0x30,0x05,0x06,0x03,0x2b,0x65,0x70,0x03,0x21,0x00};
      byte[] der = new byte[44];
      System.arraycopy(hdr, 0, der, 0, 12); System.arraycopy(p, 0, der, 12, 32);
      java.security.Signature s = java.security.Signature.getInstance("Ed25519");
      s.initVerify(java.security.KeyFactory.getInstance("Ed25519").generatePublic(new java.security.spec.X509EncodedKeySpec(der)));
      s.update(bytes(msg));
      return s.verify(bytes(sig)) ? BoolValue.ValTrue : BoolValue.ValFalse;
    } catch (java.security.GeneralSecurityException e) { return BoolValue.ValFalse; }
  }
}
