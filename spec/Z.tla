---------------------------------- MODULE Z ----------------------------------
(* The operators of ZDef.  When java/Z.class is on TLC's class path TLC       *)
(* evaluates them with java.math.BigInteger; without it, by definition.       *)
LOCAL D == INSTANCE ZDef
ZAdd(x, y) == D!ZAdd(x, y)
ZSub(x, y) == D!ZSub(x, y)
ZMul(x, y) == D!ZMul(x, y)
ZQuo(x, y) == D!ZQuo(x, y)
ZRem(x, y) == D!ZRem(x, y)
ZAnd(x, y) == D!ZAnd(x, y)
ZOr(x, y) == D!ZOr(x, y)
ZXor(x, y) == D!ZXor(x, y)
ZNot(x) == D!ZNot(x)
ZNeg(x) == D!ZNeg(x)
ZAbs(x) == D!ZAbs(x)
ZShl(x, n) == D!ZShl(x, n)
ZShr(x, n) == D!ZShr(x, n)
ZPow(x, n) == D!ZPow(x, n)
ZGcd(x, y) == D!ZGcd(x, y)
ZCmp(x, y) == D!ZCmp(x, y)
ZOfInt(n) == D!ZOfInt(n)
ZToInt(x) == D!ZToInt(x)
ZFact(x) == D!ZFact(x)
ZBitLen(x) == D!ZBitLen(x)
ZIsCanonical(x) == D!ZIsCanonical(x)
ZLow(x, n, signed) == D!ZLow(x, n, signed)
ZWord(x, k) == D!ZWord(x, k)
ZNotBits(x) == D!ZNotBits(x)
ZParse(t, radix) == D!ZParse(t, radix)
ZFormat(x, radix) == D!ZFormat(x, radix)
ZOfBytes(h, little) == D!ZOfBytes(h, little)
ZMagBytes(x, max) == D!ZMagBytes(x, max)
StrLen(t) == D!StrLen(t)
Chars(t) == D!Chars(t)
==============================================================================
