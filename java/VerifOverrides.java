import java.math.BigInteger;
import java.security.MessageDigest;
import java.util.concurrent.ConcurrentHashMap;

import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Evaluation of the operators of BigNat.tla, Hash.tla and (as an accelerator)
 * PMul of Curve.tla.  Nothing here looks at the code under test.
 */
public class VerifOverrides implements ITLCOverrides {
	@Override
	public Class[] get() {
		return new Class[] { VerifOverrides.class };
	}

	private static BigInteger n(Value v) {
		return new BigInteger(((StringValue) v).val.toString(), 16);
	}

	private static Value s(BigInteger b) {
		return new StringValue(b.toString(16));
	}

	@TLAPlusOperator(identifier = "BOfInt", module = "BigNat", warn = false)
	public static Value bOfInt(final IntValue a) {
		return s(BigInteger.valueOf(a.val));
	}

	@TLAPlusOperator(identifier = "BToInt", module = "BigNat", warn = false)
	public static Value bToInt(final StringValue a) {
		return IntValue.gen(n(a).intValueExact());
	}

	@TLAPlusOperator(identifier = "BWF", module = "BigNat", warn = false)
	public static Value bWF(final Value a) {
		if (!(a instanceof StringValue)) {
			return BoolValue.ValFalse;
		}
		try {
			return new BigInteger(((StringValue) a).val.toString(), 16).toString(16)
					.equals(((StringValue) a).val.toString()) ? BoolValue.ValTrue : BoolValue.ValFalse;
		} catch (NumberFormatException e) {
			return BoolValue.ValFalse;
		}
	}

	@TLAPlusOperator(identifier = "BAdd", module = "BigNat", warn = false)
	public static Value bAdd(final StringValue a, final StringValue b) {
		return s(n(a).add(n(b)));
	}

	@TLAPlusOperator(identifier = "BSub", module = "BigNat", warn = false)
	public static Value bSub(final StringValue a, final StringValue b) {
		return s(n(a).subtract(n(b)));
	}

	@TLAPlusOperator(identifier = "BMul", module = "BigNat", warn = false)
	public static Value bMul(final StringValue a, final StringValue b) {
		return s(n(a).multiply(n(b)));
	}

	@TLAPlusOperator(identifier = "BDiv", module = "BigNat", warn = false)
	public static Value bDiv(final StringValue a, final StringValue b) {
		BigInteger[] qr = n(a).divideAndRemainder(n(b));
		BigInteger q = qr[0];
		if (qr[1].signum() < 0) {
			q = q.subtract(BigInteger.ONE);
		}
		return s(q);
	}

	@TLAPlusOperator(identifier = "BMod", module = "BigNat", warn = false)
	public static Value bMod(final StringValue a, final StringValue b) {
		return s(n(a).mod(n(b)));
	}

	@TLAPlusOperator(identifier = "BInv", module = "BigNat", warn = false)
	public static Value bInv(final StringValue a, final StringValue b) {
		BigInteger m = n(b), x = n(a).mod(m);
		if (x.gcd(m).compareTo(BigInteger.ONE) != 0) {
			return s(BigInteger.ZERO);
		}
		return s(x.modInverse(m));
	}

	@TLAPlusOperator(identifier = "BPow", module = "BigNat", warn = false)
	public static Value bPow(final StringValue a, final StringValue e, final StringValue m) {
		return s(n(a).modPow(n(e), n(m)));
	}

	@TLAPlusOperator(identifier = "BCmp", module = "BigNat", warn = false)
	public static Value bCmp(final StringValue a, final StringValue b) {
		return IntValue.gen(n(a).compareTo(n(b)));
	}

	@TLAPlusOperator(identifier = "BBitLen", module = "BigNat", warn = false)
	public static Value bBitLen(final StringValue a) {
		return IntValue.gen(n(a).bitLength());
	}

	@TLAPlusOperator(identifier = "BBit", module = "BigNat", warn = false)
	public static Value bBit(final StringValue a, final IntValue i) {
		return IntValue.gen(n(a).testBit(i.val) ? 1 : 0);
	}

	/** minimal big-endian bytes of |a|, as a hexadecimal byte string ("" for 0) */
	private static String hexBytes(BigInteger a) {
		a = a.abs();
		if (a.signum() == 0) {
			return "";
		}
		String h = a.toString(16);
		return h.length() % 2 == 0 ? h : "0" + h;
	}

	@TLAPlusOperator(identifier = "BHex", module = "BigNat", warn = false)
	public static Value bHex(final StringValue a) {
		return new StringValue(hexBytes(n(a)));
	}

	@TLAPlusOperator(identifier = "BHexPad", module = "BigNat", warn = false)
	public static Value bHexPad(final StringValue a, final IntValue len) {
		StringBuilder h = new StringBuilder(hexBytes(n(a)));
		while (h.length() < 2 * len.val) {
			h.insert(0, "0");
		}
		return new StringValue(h.toString());
	}

	@TLAPlusOperator(identifier = "BOfHex", module = "BigNat", warn = false)
	public static Value bOfHex(final StringValue a) {
		String h = a.val.toString();
		return s(h.isEmpty() ? BigInteger.ZERO : new BigInteger(h, 16));
	}

	@TLAPlusOperator(identifier = "HexLen", module = "BigNat", warn = false)
	public static Value hexLen(final StringValue a) {
		return IntValue.gen(a.val.toString().length() / 2);
	}

	@TLAPlusOperator(identifier = "HexSub", module = "BigNat", warn = false)
	public static Value hexSub(final StringValue a, final IntValue from, final IntValue to) {
		String h = a.val.toString();
		if (from.val > to.val) {
			return new StringValue("");
		}
		return new StringValue(h.substring(2 * (from.val - 1), 2 * to.val));
	}

	@TLAPlusOperator(identifier = "HexByte", module = "BigNat", warn = false)
	public static Value hexByte(final StringValue a, final IntValue i) {
		String h = a.val.toString();
		return IntValue.gen(Integer.parseInt(h.substring(2 * (i.val - 1), 2 * i.val), 16));
	}

	@TLAPlusOperator(identifier = "HexOf", module = "BigNat", warn = false)
	public static Value hexOf(final IntValue b) {
		return new StringValue(String.format("%02x", b.val));
	}

	private static byte[] raw(String h) {
		byte[] r = new byte[h.length() / 2];
		for (int i = 0; i < r.length; i++) {
			r[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
		}
		return r;
	}

	private static Value unraw(byte[] b) {
		StringBuilder sb = new StringBuilder();
		for (byte x : b) {
			sb.append(String.format("%02x", x & 0xff));
		}
		return new StringValue(sb.toString());
	}

	@TLAPlusOperator(identifier = "SHA256", module = "BigNat", warn = false)
	public static Value sha256(final StringValue a) throws Exception {
		return unraw(MessageDigest.getInstance("SHA-256").digest(raw(a.val.toString())));
	}

	@TLAPlusOperator(identifier = "HMAC256", module = "BigNat", warn = false)
	public static Value hmac256(final StringValue k, final StringValue m) throws Exception {
		Mac mac = Mac.getInstance("HmacSHA256");
		byte[] key = raw(k.val.toString());
		mac.init(new SecretKeySpec(key.length == 0 ? new byte[1] : key, "HmacSHA256"));
		return unraw(mac.doFinal(raw(m.val.toString())));
	}

	@TLAPlusOperator(identifier = "SHA512", module = "BigNat", warn = false)
	public static Value sha512(final StringValue a) throws Exception {
		return unraw(MessageDigest.getInstance("SHA-512").digest(raw(a.val.toString())));
	}

	@TLAPlusOperator(identifier = "AESCBCDec", module = "BigNat", warn = false)
	public static Value aesDec(final StringValue k, final StringValue iv, final StringValue m) throws Exception {
		javax.crypto.Cipher c = javax.crypto.Cipher.getInstance("AES/CBC/NoPadding");
		c.init(javax.crypto.Cipher.DECRYPT_MODE, new SecretKeySpec(raw(k.val.toString()), "AES"),
				new javax.crypto.spec.IvParameterSpec(raw(iv.val.toString())));
		return unraw(c.doFinal(raw(m.val.toString())));
	}

	// ---- accelerator for Curve!PMul (its definition there is PMulDef) ----

	private static final UniqueString P_ = UniqueString.of("p"), A_ = UniqueString.of("a");
	private static final ConcurrentHashMap<String, Value> memo = new ConcurrentHashMap<>();

	@TLAPlusOperator(identifier = "PMul", module = "Curve", warn = false)
	public static Value pMul(final Value c, final StringValue k, final Value pt) {
		RecordValue r = (RecordValue) c.toRcd();
		String key = r.select(new StringValue(P_)).toString() + r.select(new StringValue(A_)) + k.val + pt;
		Value m = memo.get(key);
		if (m != null) {
			return m;
		}
		BigInteger p = n(r.select(new StringValue(P_))), a = n(r.select(new StringValue(A_)));
		TupleValue t = (TupleValue) pt.toTuple();
		BigInteger x = n(t.elems[0]), y = n(t.elems[1]), kk = n(k);
		if (kk.signum() < 0) {
			kk = kk.negate();
			y = y.negate().mod(p);
		}
		BigInteger[] res = mul(p, a, kk, x, y);
		m = new TupleValue(new Value[] { s(res[0]), s(res[1]) });
		if (memo.size() < 200000) {
			memo.put(key, m);
		}
		return m;
	}

	@TLAPlusOperator(identifier = "PAdd", module = "Curve", warn = false)
	public static Value pAdd(final Value c, final Value pt, final Value qt) {
		RecordValue r = (RecordValue) c.toRcd();
		TupleValue t = (TupleValue) pt.toTuple(), u = (TupleValue) qt.toTuple();
		BigInteger x1 = n(t.elems[0]), y1 = n(t.elems[1]), x2 = n(u.elems[0]), y2 = n(u.elems[1]);
		if (x1.signum() == 0 && y1.signum() == 0) {
			return u;
		}
		if (x2.signum() == 0 && y2.signum() == 0) {
			return t;
		}
		BigInteger p = n(r.select(new StringValue(P_))), num, den;
		if (x1.equals(x2)) {
			if (y1.add(y2).mod(p).signum() == 0) {
				return new TupleValue(new Value[] { s(BigInteger.ZERO), s(BigInteger.ZERO) });
			}
			num = x1.multiply(x1).multiply(BigInteger.valueOf(3)).add(n(r.select(new StringValue(A_))));
			den = y1.shiftLeft(1);
		} else {
			num = y2.subtract(y1);
			den = x2.subtract(x1);
		}
		BigInteger l = num.multiply(den.modInverse(p)).mod(p);
		BigInteger x = l.multiply(l).subtract(x1).subtract(x2).mod(p);
		return new TupleValue(new Value[] { s(x), s(l.multiply(x1.subtract(x)).subtract(y1).mod(p)) });
	}

	private static BigInteger[] dbl(BigInteger p, BigInteger a, BigInteger[] q) {
		BigInteger X = q[0], Y = q[1], Z = q[2];
		if (Z.signum() == 0 || Y.signum() == 0) {
			return new BigInteger[] { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
		}
		BigInteger yy = Y.multiply(Y).mod(p);
		BigInteger s4 = X.multiply(yy).shiftLeft(2).mod(p);
		BigInteger m = X.multiply(X).multiply(BigInteger.valueOf(3));
		if (a.signum() != 0) {
			BigInteger z2 = Z.multiply(Z).mod(p);
			m = m.add(a.multiply(z2.multiply(z2)));
		}
		m = m.mod(p);
		BigInteger x3 = m.multiply(m).subtract(s4.shiftLeft(1)).mod(p);
		BigInteger y3 = m.multiply(s4.subtract(x3)).subtract(yy.multiply(yy).shiftLeft(3)).mod(p);
		BigInteger z3 = Y.multiply(Z).shiftLeft(1).mod(p);
		return new BigInteger[] { x3, y3, z3 };
	}

	private static BigInteger[] mul(BigInteger p, BigInteger a, BigInteger k, BigInteger x, BigInteger y) {
		BigInteger[] inf = { BigInteger.ONE, BigInteger.ONE, BigInteger.ZERO };
		BigInteger[] r = inf;
		if (!(x.signum() == 0 && y.signum() == 0)) {
			for (int i = k.bitLength() - 1; i >= 0; i--) {
				r = dbl(p, a, r);
				if (!k.testBit(i)) {
					continue;
				}
				if (r[2].signum() == 0) {
					r = new BigInteger[] { x, y, BigInteger.ONE };
					continue;
				}
				BigInteger z2 = r[2].multiply(r[2]).mod(p);
				BigInteger u2 = x.multiply(z2).mod(p);
				BigInteger s2 = y.multiply(z2).multiply(r[2]).mod(p);
				BigInteger h = u2.subtract(r[0]).mod(p), rr = s2.subtract(r[1]).mod(p);
				if (h.signum() == 0) {
					r = rr.signum() == 0 ? dbl(p, a, r) : inf;
					continue;
				}
				BigInteger h2 = h.multiply(h).mod(p), h3 = h2.multiply(h).mod(p), v = r[0].multiply(h2).mod(p);
				BigInteger x3 = rr.multiply(rr).subtract(h3).subtract(v.shiftLeft(1)).mod(p);
				BigInteger y3 = rr.multiply(v.subtract(x3)).subtract(r[1].multiply(h3)).mod(p);
				BigInteger z3 = r[2].multiply(h).mod(p);
				r = new BigInteger[] { x3, y3, z3 };
			}
		}
		if (r[2].signum() == 0) {
			return new BigInteger[] { BigInteger.ZERO, BigInteger.ZERO };
		}
		BigInteger zi = r[2].modInverse(p), zi2 = zi.multiply(zi).mod(p);
		return new BigInteger[] { r[0].multiply(zi2).mod(p), r[1].multiply(zi2).multiply(zi).mod(p) };
	}
}
