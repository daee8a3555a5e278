From 2f03b7f72950999b9d0c6b0867294d0e8ecff818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 01/37] fix: assign(int64) keeps the magnitude canonical for
 +-0xffffffff and negates INT64_MIN without overflow

---
 src/BigIntegerImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 1aca459..86f2f1b 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -489,11 +489,10 @@ BigIntegerImpl & BigIntegerImpl::assign(std::int64_t i64) {
     }
 
     m_flags = i64 > 0 ? BNFlag::POSITIVE : BNFlag::NEGATIVE;
-    if (i64 < 0) i64 = -i64;
-
     std::uint64_t u64 = i64;
+    if (i64 < 0) u64 = -u64; // INT64_MIN has no negation in int64
 
-    int u32s = u64 < std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
+    int u32s = u64 <= std::numeric_limits<std::uint32_t>::max() ? 1 : 2;
     m_mag.slice(0, u32s);
 
     std::uint32_t * p = reinterpret_cast<std::uint32_t*>(&u64);
-- 
2.43.0


From 94964b5da031c84afb4ff301a9a0e27972ba3827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 02/37] fix: fromString reports success when the text denotes
 zero

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 86f2f1b..6ec3fc3 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -556,6 +556,8 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     pos = str.find_first_not_of('0', pos);
     if (pos == StringArg::npos) { // 没有非0位, 就是0
         beZero();
+        PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+        ok && (*ok = true);
         return *this;
     }
 
-- 
2.43.0


From 4412a457d10ce4549bee1d0efc14b19053fb0cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 03/37] fix: fromString rejects text with an invalid digit
 behind valid ones

---
 src/BigIntegerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 6ec3fc3..adfa502 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -579,7 +579,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     
     std::uint32_t mag0;
     auto fistCov2U32Result = std::from_chars(cStr + pos, cStr + pos + fistBlockDigitCnt, mag0, radix);
-    if (fistCov2U32Result.ec != std::errc{}) { // to uint32_t出错
+    if (fistCov2U32Result.ec != std::errc{} || fistCov2U32Result.ptr != cStr + pos + fistBlockDigitCnt) { // to uint32_t出错
         PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
         ok && (*ok = false);
         return *this;
@@ -592,7 +592,7 @@ BigIntegerImpl & BigIntegerImpl::fromString(const StringArg & str, int radix, bo
     std::uint32_t blockValue = 0;
     while (pos < slen) {
         auto toU32Result = std::from_chars(cStr + pos, cStr + pos + blockSize, blockValue, radix);
-        if (toU32Result.ec != std::errc{}) {
+        if (toU32Result.ec != std::errc{} || toU32Result.ptr != cStr + pos + blockSize) {
             PGBN_GetGlobalStatus() = ErrCode::NUMBER_STRING_PARSE2NUM_ERROR;
             ok && (*ok = false);
             return *this;
-- 
2.43.0


From 5ac043ff54ddd5c93cb3e1bd6bf0601f55c3b673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 04/37] fix: Slice::slice value-initializes the elements it
 grows by

---
 src/Slice.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 788ea54..88a780c 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -113,7 +113,10 @@ public:
             m_hi = m_lo;
             return *this;
         }
-        if (hi > count()) m_data->resize(m_lo + hi);
+        if (hi > count()) {
+            m_data->resize(m_hi); // drop what was left behind by a shrink, grow with T{}
+            m_data->resize(m_lo + hi);
+        }
         m_lo = m_lo + lo;
         m_hi = m_lo - lo + hi;
 
-- 
2.43.0


From e3fedef3193688f7aad7f6266117694a18cf158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 05/37] fix: notBits strips leading zero words and normalizes
 zero

---
 src/BigIntegerImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index adfa502..3ab2358 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1204,6 +1204,9 @@ void BigIntegerImpl::notBits() {
     auto & last = m_mag[len - 1];
     int leadingZeroCnt = util::clz(last);
     last = ~last & (MASK >> leadingZeroCnt);
+
+    detail::eraseZerosSuffix(m_mag); // 去除前导零
+    if (m_mag.count() == 0) beZero();
 }
 
 void BigIntegerImpl::shiftLeftAssign(std::uint64_t u64) {
-- 
2.43.0


From 21e0ac404d6a4c4e2f53e7b036bb2a1394b4b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 06/37] fix: importing a negative power of two whose magnitude
 does not start a new word

---
 src/BigIntegerImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 3ab2358..b5b0dc0 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -719,7 +719,8 @@ BigIntegerImpl & BigIntegerImpl::assign(const void * bin, SizeType len, bool lit
         for (; i < len && bytes[i] == 0; ++i);
 
         if (i == len) { // - pow2
-            m_mag.append(1);
+            if (len % 4 == 0) m_mag.append(1);
+            else m_mag[len / 4] = std::uint32_t(1) << (len % 4 * 8);
             return *this;
         }          
 
-- 
2.43.0


From bf7dc0c3a16ddecb28e881001772dfe13f5ef548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 07/37] fix: int64 > BigInteger compared the wrong way round

---
 src/BigInteger.cpp | 678 ++++++++++++++++++++++-----------------------
 1 file changed, 339 insertions(+), 339 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 6ee4f47..8e65de7 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1,339 +1,339 @@
-//
-// Created by 42025 on 2021/4/10.
-//
-#include "BigInteger.h"
-#include "Status.h"
-#include "BigIntegerImpl.h"
-#include "errInfos.h"
-
-// using namespace pgbn;
-
-PGBN_NAMESPACE_START namespace detail {
-
-static inline BigInteger getU64Max() {
-    BigInteger res;
-
-    res.assign(std::numeric_limits<std::int64_t>::max());
-    res <<= 1;
-    res |= 0x1;
-
-    return res;
-}
-
-} PGBN_NAMESPACE_END
-
-// default
-pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
-
-// construct from BigIntegerImpl
-pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
-
-}
-
-// copy, only copy ptr-to-impl, copy base-data on write
-pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
-
-// move
-pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
-    other.m_pImpl = nullptr;
-}
-
-// from POD-integer : only for int64_t
-pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
-
-// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
-pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
-    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
-
-// from binary, 2's complement, default little endian
-pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
-    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
-
-// destructor
-pgbn::BigInteger::~BigInteger() = default;
-
-// copy assignment, only copy pImpl, using COW
-pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
-    if (this == &other) return *this;
-
-    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
-    return *this;
-}
-
-// move assignment
-pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
-    if (this == &other) return *this;
-
-    m_pImpl = std::move(other.m_pImpl);
-    other.m_pImpl = nullptr;
-
-    return *this;
-}
-
-// assign from other types
-pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
-    m_pImpl->fromString(str, radix, ok);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
-    m_pImpl->assign(bin, len, little);
-    return *this;
-}
-
-// to POD-integer
-std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
-    if (
-        *this > std::numeric_limits<std::int64_t>::max() ||
-        *this < std::numeric_limits<std::int64_t>::min()
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::int64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
-    bool ok = true;
-    result = getInt64(&ok);
-    return ok;
-}
-
-std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
-    static const BigInteger MAXU64 = detail::getU64Max();
-
-    if (
-        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
-        *this > MAXU64
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::uint64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
-    bool ok = true;
-    result = getUInt64(&ok);
-    return ok;
-}
-
-std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
-    return m_pImpl->getU32(i);
-}
-
-template <>
-std::string pgbn::BigInteger::as<std::string>() const {
-    return this->toString();
-}
-
-#define DEFINE_AS_INTEGER(type) \
-    template <> \
-    type pgbn::BigInteger::as<type>() const { \
-        return static_cast<type>(this->m_pImpl->toU64()); \
-    }
-
-template <>
-bool pgbn::BigInteger::as<bool>() const {
-    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
-}
-
-DEFINE_AS_INTEGER( char               );
-DEFINE_AS_INTEGER( unsigned char      );
-DEFINE_AS_INTEGER( int                );
-DEFINE_AS_INTEGER( unsigned int       );
-DEFINE_AS_INTEGER( short              );
-DEFINE_AS_INTEGER( unsigned short     );
-DEFINE_AS_INTEGER( long               );
-DEFINE_AS_INTEGER( unsigned long      );
-DEFINE_AS_INTEGER( long long          );
-DEFINE_AS_INTEGER( unsigned long long );
-
-// to string
-std::string pgbn::BigInteger::toString(int radix) const {
-    return m_pImpl->toString(radix);
-}
-
-// to binary
-pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
-    return m_pImpl->copyMagDataTo(dest, maxlen);
-}
-
-// is-
-bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
-bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
-bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
-bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
-bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
-bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
-bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
-
-// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
-pgbn::BigInteger & pgbn::BigInteger::operator++ () {
-    m_pImpl->inc();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
-    BigInteger temp = *this;
-    ++*this;
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator-- () {
-    m_pImpl->dec();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
-    BigInteger temp = *this;
-    --*this;
-    return temp;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator~ () const {
-    BigInteger temp = *this;
-    temp.m_pImpl->notSelf();
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
-
-pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(i64, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
-
-pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
-pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
-
-pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
-pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
-
-pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
-
-pgbn::BigInteger & pgbn::BigInteger::notSelf() {
-    m_pImpl->notSelf();
-    return *this;
-}
-pgbn::BigInteger & pgbn::BigInteger::notBits() {
-    m_pImpl->notBits();
-    return *this;
-}
-
-int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
-int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
-
-// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
-
-// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
-// FIXME: Can Be Better(mul and div)
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
-
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
-
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
-
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
-
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
-
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
-
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
-
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
-
-pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
-pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
-
-// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
-bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
-bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
-bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
-
-bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
-bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
-bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
-
-bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
-
-bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
-
-bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
-
-bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
+//
+// Created by 42025 on 2021/4/10.
+//
+#include "BigInteger.h"
+#include "Status.h"
+#include "BigIntegerImpl.h"
+#include "errInfos.h"
+
+// using namespace pgbn;
+
+PGBN_NAMESPACE_START namespace detail {
+
+static inline BigInteger getU64Max() {
+    BigInteger res;
+
+    res.assign(std::numeric_limits<std::int64_t>::max());
+    res <<= 1;
+    res |= 0x1;
+
+    return res;
+}
+
+} PGBN_NAMESPACE_END
+
+// default
+pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
+
+// construct from BigIntegerImpl
+pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
+
+}
+
+// copy, only copy ptr-to-impl, copy base-data on write
+pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
+
+// move
+pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
+    other.m_pImpl = nullptr;
+}
+
+// from POD-integer : only for int64_t
+pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
+
+// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
+pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
+    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
+
+// from binary, 2's complement, default little endian
+pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
+    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
+
+// destructor
+pgbn::BigInteger::~BigInteger() = default;
+
+// copy assignment, only copy pImpl, using COW
+pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
+    if (this == &other) return *this;
+
+    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
+    return *this;
+}
+
+// move assignment
+pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
+    if (this == &other) return *this;
+
+    m_pImpl = std::move(other.m_pImpl);
+    other.m_pImpl = nullptr;
+
+    return *this;
+}
+
+// assign from other types
+pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    m_pImpl->fromString(str, radix, ok);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    m_pImpl->assign(bin, len, little);
+    return *this;
+}
+
+// to POD-integer
+std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
+    if (
+        *this > std::numeric_limits<std::int64_t>::max() ||
+        *this < std::numeric_limits<std::int64_t>::min()
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::int64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
+    bool ok = true;
+    result = getInt64(&ok);
+    return ok;
+}
+
+std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
+    static const BigInteger MAXU64 = detail::getU64Max();
+
+    if (
+        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
+        *this > MAXU64
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::uint64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
+    bool ok = true;
+    result = getUInt64(&ok);
+    return ok;
+}
+
+std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
+    return m_pImpl->getU32(i);
+}
+
+template <>
+std::string pgbn::BigInteger::as<std::string>() const {
+    return this->toString();
+}
+
+#define DEFINE_AS_INTEGER(type) \
+    template <> \
+    type pgbn::BigInteger::as<type>() const { \
+        return static_cast<type>(this->m_pImpl->toU64()); \
+    }
+
+template <>
+bool pgbn::BigInteger::as<bool>() const {
+    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
+}
+
+DEFINE_AS_INTEGER( char               );
+DEFINE_AS_INTEGER( unsigned char      );
+DEFINE_AS_INTEGER( int                );
+DEFINE_AS_INTEGER( unsigned int       );
+DEFINE_AS_INTEGER( short              );
+DEFINE_AS_INTEGER( unsigned short     );
+DEFINE_AS_INTEGER( long               );
+DEFINE_AS_INTEGER( unsigned long      );
+DEFINE_AS_INTEGER( long long          );
+DEFINE_AS_INTEGER( unsigned long long );
+
+// to string
+std::string pgbn::BigInteger::toString(int radix) const {
+    return m_pImpl->toString(radix);
+}
+
+// to binary
+pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
+    return m_pImpl->copyMagDataTo(dest, maxlen);
+}
+
+// is-
+bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
+bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
+bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
+bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
+bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
+bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
+bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
+
+// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
+pgbn::BigInteger & pgbn::BigInteger::operator++ () {
+    m_pImpl->inc();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
+    BigInteger temp = *this;
+    ++*this;
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator-- () {
+    m_pImpl->dec();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
+    BigInteger temp = *this;
+    --*this;
+    return temp;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator~ () const {
+    BigInteger temp = *this;
+    temp.m_pImpl->notSelf();
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
+
+pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(i64, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
+
+pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
+pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
+
+pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
+pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
+
+pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
+
+pgbn::BigInteger & pgbn::BigInteger::notSelf() {
+    m_pImpl->notSelf();
+    return *this;
+}
+pgbn::BigInteger & pgbn::BigInteger::notBits() {
+    m_pImpl->notBits();
+    return *this;
+}
+
+int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
+int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
+
+// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
+
+// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
+// FIXME: Can Be Better(mul and div)
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
+
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
+
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
+
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
+
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
+
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
+
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
+
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
+
+pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
+pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
+
+// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
+bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
+bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
+bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
+
+bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
+bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
+bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
+
+bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+
+bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
+
+bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
+
+bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
-- 
2.43.0


From ee9c30b44c6e48f0666c0abeba89dc5089743086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:47 +0000
Subject: [PATCH 08/37] fix: C GetUInt64 no longer compares with UINT64_MAX
 converted to int64

---
 c/src/pgbn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ef690e8..ba2c867 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -169,8 +169,8 @@ uint64_t pgbn_BigInteger_GetUInt64(pgbn_BigInteger_t * b) {
 
 uint64_t pgbn_BigInteger_GetUInt64WithChecking(pgbn_BigInteger_t * b, bool * ok) {
     if (
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::max()) > 0 ||
-        pgbn_BigInteger_CmpWithI64(b, std::numeric_limits<std::uint64_t>::min()) < 0
+        pgbn_BigInteger_IsNegative(b) ||
+        b->impl->getMagU32Count() > 2
     ) {
         *pgbn::Status::getInstance() = pgbn::ErrCode::ARITHMETIC_OVERFLOW;
         ok && (*ok = false);
-- 
2.43.0


From 8f705ae5feb140a3e9dec463a2734b3bf4182108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 09/37] fix: <=, > and >= were parsed as <

---
 src/infixExpr/ExprParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a26097f..1b13dc6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -83,11 +83,11 @@ ExprNode * ExprParser::parseCmp() {
         if (consumeToken(TokenType::LT))
             node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
         else if (consumeToken(TokenType::LE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::LE, node, parseShift());
         else if (consumeToken(TokenType::GT))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GT, node, parseShift());
         else if (consumeToken(TokenType::GE))
-            node = m_pNodePool->newBinOpNode(TokenType::LT, node, parseShift());
+            node = m_pNodePool->newBinOpNode(TokenType::GE, node, parseShift());
         else return node;
     }
     return nullptr;
-- 
2.43.0


From 9974e01bbc9a9cbd6fb5a1577d7e45e4d1211d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 10/37] fix: a chain of == and != was parsed only up to its
 first operator

---
 src/infixExpr/ExprParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 1b13dc6..4f820d6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -72,7 +72,7 @@ ExprNode * ExprParser::parseEqu() {
             node = m_pNodePool->newBinOpNode(TokenType::EQU, node, parseCmp());
         else if (consumeToken(TokenType::NEQU))
             node = m_pNodePool->newBinOpNode(TokenType::NEQU, node, parseCmp());
-        return node;
+        else return node;
     }
     return nullptr;
 }
-- 
2.43.0


From 70273462525eafe64502749cff93870c29cec750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 11/37] fix: evaluate the modulo operator of infix expressions

---
 src/infixExpr/ExprTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 5697f2f..4482011 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -52,6 +52,11 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         lOpAssRAndReturn(mul);
     case TokenType::DIV :
         lOpAssRAndReturn(div);
+    case TokenType::MOD : {
+        Value quotient;
+        left.modAssignAndQuotient(right, quotient);
+        return left;
+    }
     case TokenType::SHIFTLEFT :
         left.shiftLeftAssign(right.toU64());
         return left;
-- 
2.43.0


From e4f51ceac52b41f6a94ad2635b70af04be18b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 12/37] fix: x ** 0 evaluates to 1

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 4482011..bcaf4a2 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -66,7 +66,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
     case TokenType::POW :
         // TODO: Opt it
         if (right.isZero()) {
-            return Value(0);
+            return Value(1);
         }
         {
             auto res = Value(1);
-- 
2.43.0


From ed41560865e50f0ce67628345909532c1f9cfea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 13/37] fix: the tokenizer never returned on an expression that
 ends in white space

---
 src/infixExpr/Token.h | 1 +
 src/infixExpr/fwd.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 680c650..2182bf4 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -59,6 +59,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
+        if (stream.eof()) break;
 
         // 解析
         char ch = stream.get();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 5661529..177b329 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -113,7 +113,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
@@ -127,7 +127,7 @@ template<typename STREAM>
 void skipWhiteChar(STREAM & stream) {
     // ' ' '\n' '\r' '\t'
     char ch = stream.peek();
-    while (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t') {
+    while (!stream.eof() && (ch == 0 || ch == ' ' || ch == '\r' || ch == '\n' || ch == '\t')) {
         stream.get();
         ch = stream.peek();
     }
-- 
2.43.0


From 39c7d586b239e54f3700acdd5985b7783eaecd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 14/37] fix: the tokenizer swallowed characters behind the
 decimal point and upper-case digits

---
 src/infixExpr/Token.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 2182bf4..99a82e3 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -222,7 +222,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
 
                     if (!onlyZero) {
-                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
                             PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
@@ -231,11 +231,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     }
                 } else {
                     literalBeforeDot.push_back(ch);
-                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                    for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                         literalBeforeDot.push_back(ch);
                     if (ch == '.') {
                         stream.get();
-                        for (ch = std::tolower(stream.get()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = stream.peek())
+                        for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalAfterDot.push_back(ch);
                     }
 
-- 
2.43.0


From 70426e174a98002a637046e49b19c1a603fdcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 15/37] fix: eval reads no further than the end of the given
 string_view

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 434c1dd..487b1b3 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -11,7 +11,8 @@ using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
 static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
-    StringReadStream testSrc1Stream(str.data());
+    const std::string src(str); // str need not end in NUL
+    StringReadStream testSrc1Stream(src);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
     return parser.parse();
 }
-- 
2.43.0


From 6a1a2ac11823c2b7322408c9f72d3a6d2522f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 16/37] fix: malformed expressions are reported instead of
 crashing or being evaluated in part

---
 src/eval.cpp                 | 22 ++++++++++------------
 src/infixExpr/ExprParser.cpp | 10 +++++++---
 src/infixExpr/ExprParser.h   |  8 ++++++--
 src/infixExpr/Token.h        | 33 ++++++++++++++++++---------------
 4 files changed, 41 insertions(+), 32 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 487b1b3..039aacc 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -10,21 +10,22 @@ using namespace pg::base;
 using namespace pgbn::expr;
 using namespace pgbn::infixExpr;
 
-static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool) {
+static inline ExprNode * parseString(const StringArg &str, NodePool *nodePool, Status *status) {
     const std::string src(str); // str need not end in NUL
     StringReadStream testSrc1Stream(src);
     ExprParser parser(testSrc1Stream, *Hooks::getInstance(), nodePool);
-    return parser.parse();
+    auto *root = parser.parse();
+    if (!root && status != Status::getInstance()) {
+        (*status) = parser.getErrCode(); // the global status has been set by the parser
+    }
+    return root;
 }
 
 Int pgbn::expr::eval(const StringArg &expr, Status *status) {
     if (!status) status = Status::getInstance();
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
-    if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
-        return Int{};
-    }
+    auto *root = parseString(expr, &nodePool, status);
+    if (!root) return Int{};
     return BigInteger(std::make_unique<BigIntegerImpl>(root->evalCallback(root, false)));
 }
 
@@ -34,11 +35,8 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     if (!status) status = Status::getInstance();
 
     NodePool nodePool;
-    auto *root = parseString(expr, &nodePool);
-    if (!root) {
-        (*status) = ~ErrCode::SUCCESS; // FIXME: Temp
-        return Int{};
-    }
+    auto *root = parseString(expr, &nodePool, status);
+    if (!root) return Int{};
 
     // Topological sort tasks & Async run tasks
     parallel::ThreadPool threadPool(threads);
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 4f820d6..a3ae8fe 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -23,7 +23,10 @@ ExprParser::ExprParser() = default;
 
 // public functions
 ExprNode * ExprParser::parse() {
-    return parseExpr();
+    CKERR();
+    Node * root = parseExpr(); CKERR();
+    if (!consumeToken(TokenType::INVALID)) BADTOK(TokenType::INVALID, "expected end of expression");
+    return root;
 }
 
 // private functions
@@ -176,14 +179,14 @@ ExprNode * ExprParser::parsePrim() {
         if (!consumeToken(TokenType::LEFTBRACKET)) BADTOK(TokenType::LEFTBRACKET, "Expected '()' To Call Function");
         return parseFuncCall(temp.pSymbol);
     }
-    return nullptr;
+    BADTOK(TokenType::INVALID, "expected an operand");
 }
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
     std::vector<Node*> argNodes;
     while (!consumeToken(TokenType::RIGHTBRACKET)) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
-        argNodes.push_back(parseExpr());
+        argNodes.push_back(parseExpr()); CKERR();
     }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
@@ -205,6 +208,7 @@ bool ExprParser::hasNextToken() const {
 }
 
 void ExprParser::badToken(TokenType type, const StringArg & msg) const {
+    if (m_errCode != ErrCode::SUCCESS) return; // report the first error only
     m_errCode = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
     PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BAD_TOKEN;
     std::any context = std::make_tuple(type, std::string(msg.data(), msg.size()));
diff --git a/src/infixExpr/ExprParser.h b/src/infixExpr/ExprParser.h
index 85f554e..7ea57d9 100644
--- a/src/infixExpr/ExprParser.h
+++ b/src/infixExpr/ExprParser.h
@@ -28,6 +28,8 @@ public:
 
     Node * parse();
 
+    Enum getErrCode() const { return m_errCode; }
+
 private:
     Node * parseExpr();
     Node * parseConditional();
@@ -60,13 +62,15 @@ private:
 template <typename S>
 inline ExprParser::ExprParser(
     S & stream, const Hooks & hooks, NodePool * pNodePool
-) : m_tokens(tokenizer(stream, hooks)), m_pNodePool(pNodePool) {
+) : m_pNodePool(pNodePool) {
+    m_tokens = tokenizer(stream, hooks, &m_errCode);
 
 }
 
 template <typename S>
 void ExprParser::init(S & stream, const Hooks & hooks, NodePool * pNodePool) {
-    m_tokens = tokenizer(stream, hooks);
+    m_errCode = ErrCode::SUCCESS;
+    m_tokens = tokenizer(stream, hooks, &m_errCode);
     m_currTokenIndex = 0;
     m_pNodePool = pNodePool;
 }
diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 99a82e3..5e7578d 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -53,9 +53,19 @@ struct Token {
 
 // FIXME: Support SelfDefined-Hooks
 template<typename STREAM>
-inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
+inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks, Enum * errCode = nullptr) { // FIXME: vector<Token> -> Lazy-Calcu(getNextToken)
     std::vector<Token> res;
 
+    // report code, the result is just the tail token
+    auto fail = [&res, errCode](Enum code) {
+        PGBN_GetGlobalStatus() = code;
+        if (errCode) *errCode = code;
+        res.clear();
+        res.emplace_back();
+        res.back().type = TokenType::INVALID;
+        return std::move(res);
+    };
+
     while (!stream.eof()) {
         // 跳过空白符
         utils::skipWhiteChar(stream);
@@ -162,8 +172,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 tokenType = TokenType::EQU;
                 SET_TOKEN_DEBUG_INFO("==");
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_EQU_INVALID;
-                return res;
+                return fail(ErrCode::PARSE_INFIXEXPR_EQU_INVALID);
             }
             break;
         case '(' :
@@ -225,8 +234,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                         for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
                             literalBeforeDot.push_back(ch);
                         if (ch == '.') {
-                            PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL;
-                            return res;
+                            return fail(ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL);
                         }
                     }
                 } else {
@@ -242,15 +250,13 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                 }
 
                 if (!(radix >= 2 && radix <= 36)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_RADIX_INVALID;
-                    return res;
+                    return fail(ErrCode::PARSE_INFIXEXPR_RADIX_INVALID);
                 }
 
                 tokenType = TokenType::LITERAL;
                 tokenVal = Value{};
                 if (!hooks.literal2Value || !hooks.literal2Value(tokenVal, radix, literalBeforeDot, literalAfterDot)) {
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR;
-                    return res;
+                    return fail(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
                 }
                 SET_TOKEN_DEBUG_INFO(pgfmt::format("Literval(Base {0}) : {1}.{2} (Value : {3})", radix, literalBeforeDot, literalAfterDot, tokenVal));
             } else if (std::isalpha(ch) || ch == '_') { // 内建常量或内建函数
@@ -262,14 +268,12 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
 
                 SymbolTable::Symbol * pSymbol = SymbolTable::getInstance()->get(symbolName);
                 if (pSymbol == nullptr) { // UndefinedSymbol
-                    PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED;
-                    return res;
+                    return fail(ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED);
                 } else {
                     if (pSymbol->is<Func>()) tokenType = TokenType::BUILTINFUNC;
                     else if (pSymbol->is<Value>()) tokenType = TokenType::BUILTINCONSTANT;
                     else { // InvalidBuiltinSymbol
-                        PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID;
-                        return res;
+                        return fail(ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID);
                     }
                     tokenPSymbol = pSymbol;
                 }
@@ -279,8 +283,7 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks) { // F
                     *tokenPSymbol
                 ));
             } else {
-                PGBN_GetGlobalStatus() = ErrCode::PARSE_INFIXEXPR_CHAR_INVALID;
-                return res;
+                return fail(ErrCode::PARSE_INFIXEXPR_CHAR_INVALID);
             }
             break;
         }
-- 
2.43.0


From 3e971339398de58ee5a3529bafd5aa4847a7f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 17/37] fix: literals like 0.5 were rejected while 1.5 is
 accepted

---
 src/infixExpr/Token.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infixExpr/Token.h b/src/infixExpr/Token.h
index 5e7578d..7946a1b 100644
--- a/src/infixExpr/Token.h
+++ b/src/infixExpr/Token.h
@@ -228,6 +228,11 @@ inline std::vector<Token> tokenizer(STREAM & stream, const Hooks & hooks, Enum *
                     } else {
                         literalBeforeDot = "0";
                         onlyZero = true;
+                        if (stream.peek() == '.') { // 0.<digits> is decimal
+                            stream.get();
+                            for (ch = std::tolower(stream.peek()); std::isdigit(ch) || (ch >= 'a' && ch <= 'z'); stream.get(), ch = std::tolower(stream.peek()))
+                                literalAfterDot.push_back(ch);
+                        }
                     }
 
                     if (!onlyZero) {
-- 
2.43.0


From d49c627e26295aa17b71a80d2a5f7f9235acfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 18/37] fix: a builtin function called with the wrong number of
 arguments is an error of the expression

---
 src/errInfos.cpp             | 3 ++-
 src/infixExpr/ExprParser.cpp | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/errInfos.cpp b/src/errInfos.cpp
index 24c02c7..92f8900 100644
--- a/src/errInfos.cpp
+++ b/src/errInfos.cpp
@@ -45,7 +45,8 @@ const ErrInfo errInfos[] = {
     { ErrCode::PARSE_INFIXEXPR_RADIX_INVALID          , "[PGBN-Status: Error]Radix Invalid(Requires 2~36)"           , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR      , "[PGBN-Status: Error]Parse Literal To Number Error"          , pgbn::detail::debugPrint        },
     { ErrCode::PARSE_INFIXEXPR_EQU_INVALID            , "[PGBN-Status: Error]Expected =="                            , pgbn::detail::debugPrint        },
-    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        }
+    { ErrCode::PARSE_INFIXEXPR_BAD_TOKEN              , "[PGBN-Status: Error]Bad Token"                              , pgbn::detail::debugPrint        },
+    { ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH, "[PGBN-Status: Error]Builtin Function Called With A Wrong Number Of Arguments", pgbn::detail::debugPrint }
 }; 
 const SizeType errInfoCount = sizeof(errInfos) / sizeof(*errInfos);
 
diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index a3ae8fe..66c6bb6 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -188,6 +188,11 @@ ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
         argNodes.push_back(parseExpr()); CKERR();
     }
+    if (const int argCount = symbol->as<Func>().argCount; argCount != -1 && static_cast<SizeType>(argCount) != argNodes.size()) {
+        m_errCode = ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH;
+        PGBN_GetGlobalStatus() = m_errCode;
+        return nullptr;
+    }
     return m_pNodePool->newFunctionCallNode(symbol, std::move(argNodes));
 }
 
-- 
2.43.0


From 01722332f05be6b7330ef6dafa80455f29f08c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 19/37] fix: the default error codes are registered once per
 process and never replace a registration of the user

---
 src/Status.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index b94f570..0de200b 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -9,6 +9,7 @@ using namespace pgbn;
 static bool pgbn_reg() {
     for (SizeType i = 0; i < errInfoCount; ++i) {
         auto & errInfo = errInfos[i];
+        if (Status::find(errInfo.code)) continue; // registered by the user before the first use
         Status::registe(
             errInfo.code,
             errInfo.info,
@@ -18,17 +19,24 @@ static bool pgbn_reg() {
     return errInfoCount % 2 == 0;
 }
 
+static void pgbn_ensureReg() { // once per process, not once per thread
+    static const bool h = pgbn_reg();
+    PGZXB_UNUSED(h);
+}
+
 // static member
 std::unordered_map<Enum, std::tuple<std::string, Callback>> Status::s_mp;
 
 // member functions
 Status::Status(Enum no) noexcept : m_errno(no) {
+    pgbn_ensureReg();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     callback(no);
 }
 
 Status & Status::operator= (Enum no) noexcept {
+    pgbn_ensureReg();
     PGZXB_DEBUG_ASSERT_EX("no not exsits", s_mp.find(no) != s_mp.end());
 
     m_errno = no;
@@ -52,8 +60,7 @@ void Status::setContext(const std::any & context) {
 // static functions
 Status * Status::getInstance() {
     static thread_local Status s_ins;
-    static thread_local bool h = pgbn_reg();
-    PGZXB_UNUSED(h);
+    pgbn_ensureReg();
 
     return &s_ins;
 }
-- 
2.43.0


From ff43e3b092484b4da49c125a6a652057f312fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 20/37] fix: the global status handle of the C binding is per
 thread, as the status it refers to is

---
 c/src/pgbn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/pgbn.cpp b/c/src/pgbn.cpp
index ba2c867..e4f7d5f 100644
--- a/c/src/pgbn.cpp
+++ b/c/src/pgbn.cpp
@@ -19,7 +19,7 @@ struct pgbn_BigInteger_t {
 
 // pgbn::Status
 pgbn_Status_t * pgbn_Status_GetGlobalInstance() {
-    static pgbn_Status_t ins;
+    static thread_local pgbn_Status_t ins;
     ins.status = pgbn::Status::getInstance();
     return &ins; 
 }
-- 
2.43.0


From ea45518282655d918485d41c30388540d4ebf518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 21/37] fix: lost wakeup in the shutdown of the task queue

---
 src/parallel/SimpleConcurrenceQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parallel/SimpleConcurrenceQueue.h b/src/parallel/SimpleConcurrenceQueue.h
index f5d8c49..d9047c1 100644
--- a/src/parallel/SimpleConcurrenceQueue.h
+++ b/src/parallel/SimpleConcurrenceQueue.h
@@ -72,6 +72,7 @@ public:
     }
 
     void notifyAllPop() {
+        std::lock_guard<std::mutex> _(m_mutex); // or a popper that has just seen false misses the notification
         m_alwaysPop = true;
         m_cond.notify_all();
     }
-- 
2.43.0


From 6fecd1e3db479fe1dccf3d53f6ef0dc106de1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 22/37] fix: Fraction::toDecimal drops neither leading zeros
 nor the sign, reciprocal of zero is a division by zero

---
 src/Fraction.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index cfad1c6..ea19e05 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -73,17 +73,18 @@ public:
         std::string digitalDigitsStr;
         if(maxDecimalDigitCount > 0) {
             auto mul = BigInteger("1" + std::string(maxDecimalDigitCount, '0'));
+            auto digits = (q * mul / m_den.absoluted()).toString();
             digitalDigitsStr.append(".")
-                .append((q * mul / m_den).toString());
-            if (maxDecimalDigitCount > digitalDigitsStr.size()) {
-                digitalDigitsStr.append(std::string(maxDecimalDigitCount - digitalDigitsStr.size(), '0'));
-            }
+                .append(std::string(maxDecimalDigitCount - digits.size(), '0')) // zeros behind the point
+                .append(digits);
         }
-        return (m_num / m_den).toString(10) + digitalDigitsStr;
+        auto res = (m_num / m_den).absoluted().toString(10) + digitalDigitsStr;
+        bool negative = m_num.cmp(0) * m_den.cmp(0) < 0 && res.find_first_not_of("0.") != std::string::npos;
+        return negative ? "-" + res : res;
     }
 
     Fraction reciprocal(bool *ok = nullptr) const {
-        if (m_den == 0) {
+        if (m_num == 0) {
             if (ok) *ok = false;
             PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
             return {};
-- 
2.43.0


From 54ef26829bffb16e09c017087788225241053fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 23/37] fix: the operators of the header-only Fraction are
 inline

---
 src/Fraction.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fraction.h b/src/Fraction.h
index ea19e05..156d18c 100644
--- a/src/Fraction.h
+++ b/src/Fraction.h
@@ -112,7 +112,7 @@ private:
     BigInteger m_den{1}; // denominator
 };
 
-Fraction operator+(const Fraction &left, const Fraction &right) {
+inline Fraction operator+(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den + right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -122,7 +122,7 @@ Fraction operator+(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator-(const Fraction &left, const Fraction &right) {
+inline Fraction operator-(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_den - right.m_num * left.m_den;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -132,7 +132,7 @@ Fraction operator-(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator*(const Fraction &left, const Fraction &right) {
+inline Fraction operator*(const Fraction &left, const Fraction &right) {
     auto new_num = left.m_num * right.m_num;
     auto new_den = left.m_den * right.m_den;
     Fraction result;
@@ -142,7 +142,7 @@ Fraction operator*(const Fraction &left, const Fraction &right) {
     return result;
 }
 
-Fraction operator/(const Fraction &left, const Fraction &right) {
+inline Fraction operator/(const Fraction &left, const Fraction &right) {
     if (right.m_num == 0) {
         PGBN_GetGlobalStatus() = ErrCode::DIVBY0;
         return {};
-- 
2.43.0


From 2e18f24f925ce5a6a8c223ae6b5620c014352d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 24/37] fix: gcd of negative arguments

---
 src/algorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index d0307f0..8c2af23 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -5,8 +5,8 @@ PGBN_NAMESPACE_START
 namespace algo {
 
 BigInteger gcd(const BigInteger &x, const BigInteger &y) {
-    BigInteger a = x;
-    BigInteger b = y;
+    BigInteger a = x.absoluted();
+    BigInteger b = y.absoluted();
 
     if(a > b) std::swap(a, b);
     while(a > 0) {
-- 
2.43.0


From 9f2db40d896b8707b42097a66a72a7a313b5835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 25/37] fix: long division left a stale cache in a reused
 quotient or remainder

---
 src/BigIntegerImpl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index b5b0dc0..35f06e5 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1556,6 +1556,8 @@ void BigIntegerImpl::knuthDivImpl(BigIntegerImpl & q, BigIntegerImpl & r, const
     }
 
     // init result-q, result-r
+    q.beginWrite(); // free-cache
+    r.beginWrite();
     q.setFlagsToPositive();
     r.setFlagsToPositive();
 
-- 
2.43.0


From 43fd0c7db8d0ffc0303aacd189e551a2e49ae92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 26/37] fix: division by one word when the quotient replaces
 the divisor

---
 src/BigIntegerImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigIntegerImpl.cpp b/src/BigIntegerImpl.cpp
index 35f06e5..346aeb1 100644
--- a/src/BigIntegerImpl.cpp
+++ b/src/BigIntegerImpl.cpp
@@ -1379,7 +1379,7 @@ void BigIntegerImpl::div(BigIntegerImpl & q, BigIntegerImpl & r, const BigIntege
     if (b.m_mag.count() == 1) { // 转发到 a/<int64_t>
 
         q.assign(a);
-        q.divideAssignAndReminderByU32(b.m_mag[0], r);
+        q.divideAssignAndReminderByU32(divisor.m_mag[0], r); // q may be b
         if (!q.flagsContains(BNFlag::ZERO)) {
             if (aSigNum == bSigNum) q.setFlagsToPositive();
             else q.setFlagsToNegative();
-- 
2.43.0


From 9c2c7616df944cac71ba34816e104e406386a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 27/37] fix: assigning to a moved-from BigInteger

---
 src/BigInteger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 8e65de7..3f97bff 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -72,21 +72,25 @@ pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
 
 // assign from other types
 pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(i);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(i);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->fromString(str, radix, ok);
     return *this;
 }
 
 pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
     m_pImpl->assign(bin, len, little);
     return *this;
 }
-- 
2.43.0


From 27794b834adf02007e5d32eb02161fb0604d5ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 28/37] fix: peval evaluated the branch of a conditional that
 is not taken

---
 src/eval.cpp               | 16 +++++++++++-----
 src/infixExpr/ExprTree.cpp |  2 +-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 039aacc..d468d48 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -45,20 +45,26 @@ Int pgbn::expr::peval(const StringArg &expr, int threads, Status *status) {
     std::vector<std::uint32_t> parents(N);
     std::vector<std::uint32_t> childCnt(N);
 
-    for (std::uint32_t i = 0; i < N; ++i) {
+    // The branches of a conditional are left to the node itself: only one of them may be evaluated
+    std::vector<std::uint32_t> scheduled{root->indexInPool};
+    for (SizeType k = 0; k < scheduled.size(); ++k) {
+        const auto i = scheduled[k];
         auto * node = nodePool.get(i);
         const auto & children = node->children;
-        if (children.size() == 0) q.push(i);
-        childCnt[i] = children.size();
-        for (const auto * child : children) {
+        const SizeType count = node->nodeType == TokenType::QMARK ? 1 : children.size();
+        if (count == 0) q.push(i);
+        childCnt[i] = count;
+        for (SizeType c = 0; c < count; ++c) {
+            const auto * child = children[c];
             PGZXB_DEBUG_ASSERT(child->indexInPool < N);
             parents[child->indexInPool] = i;
+            scheduled.push_back(child->indexInPool);
         }
     }
 
     std::uint32_t cnt = 0;
     std::vector<std::future<void>> currLevelFu;
-    while (cnt != N) {
+    while (cnt != scheduled.size()) {
         const std::uint32_t cntInQueue = q.size();
         for (std::uint32_t i = 0; i < cntInQueue; ++i, ++cnt) {
             auto childIndex = q.front();
diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index bcaf4a2..0aa777a 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -14,7 +14,7 @@ inline static Value eval(ExprNode * node, bool peval) {
 static Value ifElseNodeEvalCallback(ExprNode * node, bool peval) {
     PGZXB_DEBUG_ASSERT(node->children.size() == 3);
     auto & ch = node->children;
-    return !eval(ch[0], peval).isZero() ? eval(ch[1], peval) : eval(ch[2], peval);
+    return !eval(ch[0], peval).isZero() ? eval(ch[1], false) : eval(ch[2], false); // the branches are not scheduled
 }
 
 static Value binOpEvalCallback(ExprNode * node, bool peval) {
-- 
2.43.0


From c95533ed613ea5137dd8b04a29bbe52f61604a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 29/37] fix: Slice::preExtend with an element of the slice
 itself

---
 src/Slice.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Slice.h b/src/Slice.h
index 88a780c..1b0a64d 100644
--- a/src/Slice.h
+++ b/src/Slice.h
@@ -123,7 +123,8 @@ public:
         return *this;
     }
 
-    Slice & preExtend(SizeType n, const T & value = T{}) {
+    Slice & preExtend(SizeType n, const T & init = T{}) {
+        const T value = init; // init may be an element of this slice
         if (m_lo >= n) m_lo = m_lo - n;
         else {
             SizeType exlen = n - m_lo + DEFAULT_PRE_SPACE;
-- 
2.43.0


From 7ee3b1267e3e37480fdf717ee046dddbc4c2f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 30/37] fix: a malformed literal or a call in a malformed
 expression was reported twice

The literal hook let BigIntegerImpl::fromString report its own error before
the tokenizer reported PARSE_INFIXEXPR_LITERAL2NUM_ERROR, and the argument
count of a call was checked although an error had been reported already.
---
 src/infixExpr/ExprParser.cpp | 1 +
 src/infixExpr/fwd.h          | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/infixExpr/ExprParser.cpp b/src/infixExpr/ExprParser.cpp
index 66c6bb6..64d452a 100644
--- a/src/infixExpr/ExprParser.cpp
+++ b/src/infixExpr/ExprParser.cpp
@@ -184,6 +184,7 @@ ExprNode * ExprParser::parsePrim() {
 
 ExprNode * ExprParser::parseFuncCall(SymbolTable::Symbol * symbol) {
     std::vector<Node*> argNodes;
+    CKERR(); // report the first error only
     while (!consumeToken(TokenType::RIGHTBRACKET)) {
         if (argNodes.size() > 0 && !consumeToken(TokenType::COMMA)) BADTOK(TokenType::COMMA, "Expected ','");
         argNodes.push_back(parseExpr()); CKERR();
diff --git a/src/infixExpr/fwd.h b/src/infixExpr/fwd.h
index 177b329..cb9227c 100644
--- a/src/infixExpr/fwd.h
+++ b/src/infixExpr/fwd.h
@@ -91,6 +91,11 @@ struct Hooks {
     std::function<bool(Value &, int radix, const std::string &, const std::string &)> literal2Value = 
         [] (Value & result, int radix, const std::string & literalBeforeDot, const std::string &) -> bool {
             static_assert(std::is_same_v<Value, BigIntegerImpl>);
+            if (literalBeforeDot.empty()) return false; // the tokenizer reports the error, and only once
+            for (const char ch : literalBeforeDot) {
+                const int digit = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : radix;
+                if (digit >= radix) return false;
+            }
             bool ok = true;
             result.fromString(literalBeforeDot, radix, &ok);
             return ok;
-- 
2.43.0


From 935b1ea3464d288b755935811b173f3af8f47577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 31/37] fix: a status callback that registers its own code
 again was destroyed while running

---
 src/Status.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Status.cpp b/src/Status.cpp
index 0de200b..2ba4b0f 100644
--- a/src/Status.cpp
+++ b/src/Status.cpp
@@ -71,8 +71,9 @@ void Status::registeImpl(Enum no, const StringArg & info, Callback callback) {
 
 void Status::callback(Enum no) {
     auto iter = s_mp.find(no); // no不存在的情况已被上层劫持
-    if (!!std::get<1>(iter->second)) {
-        std::get<1>(iter->second)(); // call
+    const Callback func = std::get<1>(iter->second); // the callback may register no anew
+    if (!!func) {
+        func(); // call
     }
 }
 
-- 
2.43.0


From a489d1a7afc722a9d88cbb4b6cc0dfb61488c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:27 +0000
Subject: [PATCH 32/37] fix: peval never returned when a builtin function threw

---
 src/infixExpr/ExprTree.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 0aa777a..70e6090 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -138,8 +138,12 @@ static void pevalTask(ExprNode * node) {
     // std::ostringstream oss;
     // oss << std::this_thread::get_id();
     // std::cerr << pgfmt::format("Thread#{0} node#{1} start\n", oss.str(), (std::uint64_t)node );
-    auto temp = node->evalCallback(node, true);
-    node->valPromise.set_value(temp);
+    try {
+        auto temp = node->evalCallback(node, true);
+        node->valPromise.set_value(temp);
+    } catch (...) {
+        node->valPromise.set_exception(std::current_exception()); // thrown by a builtin function; eval throws it, too
+    }
     // std::cerr << pgfmt::format("Thread#{0} node#{1}: peval = {2}\n", oss.str(),
     //     (std::uint64_t)node, temp.cmp(INT64_MAX) == 1 ? temp.toString(10).substr(0, 50).append("...") : temp.toString(10));
 }
-- 
2.43.0


From 6f99e380a073feab22b3d740d9c407182a25d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 33/37] fix: BigInteger.cpp keeps its CRLF line endings
 (bf7dc0c had converted them)

---
 src/BigInteger.cpp | 686 ++++++++++++++++++++++-----------------------
 1 file changed, 343 insertions(+), 343 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 3f97bff..929f2f5 100755
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1,343 +1,343 @@
-//
-// Created by 42025 on 2021/4/10.
-//
-#include "BigInteger.h"
-#include "Status.h"
-#include "BigIntegerImpl.h"
-#include "errInfos.h"
-
-// using namespace pgbn;
-
-PGBN_NAMESPACE_START namespace detail {
-
-static inline BigInteger getU64Max() {
-    BigInteger res;
-
-    res.assign(std::numeric_limits<std::int64_t>::max());
-    res <<= 1;
-    res |= 0x1;
-
-    return res;
-}
-
-} PGBN_NAMESPACE_END
-
-// default
-pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
-
-// construct from BigIntegerImpl
-pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
-
-}
-
-// copy, only copy ptr-to-impl, copy base-data on write
-pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
-
-// move
-pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
-    other.m_pImpl = nullptr;
-}
-
-// from POD-integer : only for int64_t
-pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
-
-// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
-pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
-    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
-
-// from binary, 2's complement, default little endian
-pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
-    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
-
-// destructor
-pgbn::BigInteger::~BigInteger() = default;
-
-// copy assignment, only copy pImpl, using COW
-pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
-    if (this == &other) return *this;
-
-    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
-    return *this;
-}
-
-// move assignment
-pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
-    if (this == &other) return *this;
-
-    m_pImpl = std::move(other.m_pImpl);
-    other.m_pImpl = nullptr;
-
-    return *this;
-}
-
-// assign from other types
-pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
-    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
-    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
-    m_pImpl->assign(i);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
-    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
-    m_pImpl->fromString(str, radix, ok);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
-    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
-    m_pImpl->assign(bin, len, little);
-    return *this;
-}
-
-// to POD-integer
-std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
-    if (
-        *this > std::numeric_limits<std::int64_t>::max() ||
-        *this < std::numeric_limits<std::int64_t>::min()
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::int64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
-    bool ok = true;
-    result = getInt64(&ok);
-    return ok;
-}
-
-std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
-    static const BigInteger MAXU64 = detail::getU64Max();
-
-    if (
-        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
-        *this > MAXU64
-    ) {
-        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
-        ok && (*ok = false);
-        return std::numeric_limits<std::uint64_t>::max();
-    }
-
-    auto u64 = m_pImpl->toU64();
-    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
-    ok && (*ok = true);
-    return static_cast<std::int64_t>(u64);
-}
-
-bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
-    bool ok = true;
-    result = getUInt64(&ok);
-    return ok;
-}
-
-std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
-    return m_pImpl->getU32(i);
-}
-
-template <>
-std::string pgbn::BigInteger::as<std::string>() const {
-    return this->toString();
-}
-
-#define DEFINE_AS_INTEGER(type) \
-    template <> \
-    type pgbn::BigInteger::as<type>() const { \
-        return static_cast<type>(this->m_pImpl->toU64()); \
-    }
-
-template <>
-bool pgbn::BigInteger::as<bool>() const {
-    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
-}
-
-DEFINE_AS_INTEGER( char               );
-DEFINE_AS_INTEGER( unsigned char      );
-DEFINE_AS_INTEGER( int                );
-DEFINE_AS_INTEGER( unsigned int       );
-DEFINE_AS_INTEGER( short              );
-DEFINE_AS_INTEGER( unsigned short     );
-DEFINE_AS_INTEGER( long               );
-DEFINE_AS_INTEGER( unsigned long      );
-DEFINE_AS_INTEGER( long long          );
-DEFINE_AS_INTEGER( unsigned long long );
-
-// to string
-std::string pgbn::BigInteger::toString(int radix) const {
-    return m_pImpl->toString(radix);
-}
-
-// to binary
-pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
-    return m_pImpl->copyMagDataTo(dest, maxlen);
-}
-
-// is-
-bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
-bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
-bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
-bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
-bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
-bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
-bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
-
-// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
-pgbn::BigInteger & pgbn::BigInteger::operator++ () {
-    m_pImpl->inc();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
-    BigInteger temp = *this;
-    ++*this;
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator-- () {
-    m_pImpl->dec();
-    return *this;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
-    BigInteger temp = *this;
-    --*this;
-    return temp;
-}
-
-pgbn::BigInteger pgbn::BigInteger::operator~ () const {
-    BigInteger temp = *this;
-    temp.m_pImpl->notSelf();
-    return temp;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
-
-pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
-    BigIntegerImpl q;
-    m_pImpl->modAssignAndQuotient(i64, q);
-    return *this;
-}
-
-pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
-pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
-
-pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
-pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
-
-pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
-pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
-
-pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
-pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
-
-pgbn::BigInteger & pgbn::BigInteger::notSelf() {
-    m_pImpl->notSelf();
-    return *this;
-}
-pgbn::BigInteger & pgbn::BigInteger::notBits() {
-    m_pImpl->notBits();
-    return *this;
-}
-
-int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
-int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
-
-// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
-
-// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
-// FIXME: Can Be Better(mul and div)
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
-pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
-
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
-pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
-
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
-pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
-
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
-pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
-
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
-pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
-
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
-pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
-
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
-pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
-
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
-pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
-
-pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
-pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
-
-// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
-bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
-bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
-bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
-
-bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
-bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
-bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
-
-bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
-bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
-
-bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
-bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
-
-bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
-bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
-
-bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
-bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
+//
+// Created by 42025 on 2021/4/10.
+//
+#include "BigInteger.h"
+#include "Status.h"
+#include "BigIntegerImpl.h"
+#include "errInfos.h"
+
+// using namespace pgbn;
+
+PGBN_NAMESPACE_START namespace detail {
+
+static inline BigInteger getU64Max() {
+    BigInteger res;
+
+    res.assign(std::numeric_limits<std::int64_t>::max());
+    res <<= 1;
+    res |= 0x1;
+
+    return res;
+}
+
+} PGBN_NAMESPACE_END
+
+// default
+pgbn::BigInteger::BigInteger() noexcept : m_pImpl(new BigIntegerImpl{}) { }
+
+// construct from BigIntegerImpl
+pgbn::BigInteger::BigInteger(std::unique_ptr<BigIntegerImpl>&& impl) : m_pImpl(std::move(impl)) {
+
+}
+
+// copy, only copy ptr-to-impl, copy base-data on write
+pgbn::BigInteger::BigInteger(const BigInteger & other) : m_pImpl(new BigIntegerImpl{*other.m_pImpl}) { }
+
+// move
+pgbn::BigInteger::BigInteger(BigInteger && other) noexcept : m_pImpl(std::move(other.m_pImpl)) {
+    other.m_pImpl = nullptr;
+}
+
+// from POD-integer : only for int64_t
+pgbn::BigInteger::BigInteger(std::int64_t i) : m_pImpl(new BigIntegerImpl{i}) { }
+
+// from Human-String, don't support 'E', like 0|[1-9|A-Z|a-z][0-9|A-Z|a-z]*
+pgbn::BigInteger::BigInteger(const pgbn::StringArg & str, int radix, bool * ok)
+    : m_pImpl(new BigIntegerImpl{str, radix, ok}) { }
+
+// from binary, 2's complement, default little endian
+pgbn::BigInteger::BigInteger(SizeType len, const void * bin, bool little)
+    : m_pImpl(new BigIntegerImpl{bin, len, little}) { }
+
+// destructor
+pgbn::BigInteger::~BigInteger() = default;
+
+// copy assignment, only copy pImpl, using COW
+pgbn::BigInteger & pgbn::BigInteger::operator= (const BigInteger & other) {
+    if (this == &other) return *this;
+
+    m_pImpl.reset(new BigIntegerImpl{*other.m_pImpl});
+    return *this;
+}
+
+// move assignment
+pgbn::BigInteger & pgbn::BigInteger::operator= (BigInteger && other) noexcept {
+    if (this == &other) return *this;
+
+    m_pImpl = std::move(other.m_pImpl);
+    other.m_pImpl = nullptr;
+
+    return *this;
+}
+
+// assign from other types
+pgbn::BigInteger & pgbn::BigInteger::operator= (std::int64_t i) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(std::int64_t i) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
+    m_pImpl->assign(i);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::assign(const StringArg & str, int radix, bool * ok) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
+    m_pImpl->fromString(str, radix, ok);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::fromBinary(const void * bin, SizeType len, bool little) {
+    if (!m_pImpl) m_pImpl.reset(new BigIntegerImpl{}); // moved-from
+    m_pImpl->assign(bin, len, little);
+    return *this;
+}
+
+// to POD-integer
+std::int64_t pgbn::BigInteger::getInt64(bool * ok) const {
+    if (
+        *this > std::numeric_limits<std::int64_t>::max() ||
+        *this < std::numeric_limits<std::int64_t>::min()
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::int64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetInt64(std::int64_t & result) const {
+    bool ok = true;
+    result = getInt64(&ok);
+    return ok;
+}
+
+std::uint64_t pgbn::BigInteger::getUInt64(bool * ok) const {
+    static const BigInteger MAXU64 = detail::getU64Max();
+
+    if (
+        m_pImpl->flagsContains(BNFlag::NEGATIVE) ||
+        *this > MAXU64
+    ) {
+        PGBN_GetGlobalStatus() = ErrCode::ARITHMETIC_OVERFLOW;
+        ok && (*ok = false);
+        return std::numeric_limits<std::uint64_t>::max();
+    }
+
+    auto u64 = m_pImpl->toU64();
+    PGBN_GetGlobalStatus() = ErrCode::SUCCESS;
+    ok && (*ok = true);
+    return static_cast<std::int64_t>(u64);
+}
+
+bool pgbn::BigInteger::tryGetUInt64(std::uint64_t & result) const {
+    bool ok = true;
+    result = getUInt64(&ok);
+    return ok;
+}
+
+std::uint32_t pgbn::BigInteger::get2sComplement(SizeType i) const {
+    return m_pImpl->getU32(i);
+}
+
+template <>
+std::string pgbn::BigInteger::as<std::string>() const {
+    return this->toString();
+}
+
+#define DEFINE_AS_INTEGER(type) \
+    template <> \
+    type pgbn::BigInteger::as<type>() const { \
+        return static_cast<type>(this->m_pImpl->toU64()); \
+    }
+
+template <>
+bool pgbn::BigInteger::as<bool>() const {
+    return !this->m_pImpl->flagsContains(BNFlag::ZERO);
+}
+
+DEFINE_AS_INTEGER( char               );
+DEFINE_AS_INTEGER( unsigned char      );
+DEFINE_AS_INTEGER( int                );
+DEFINE_AS_INTEGER( unsigned int       );
+DEFINE_AS_INTEGER( short              );
+DEFINE_AS_INTEGER( unsigned short     );
+DEFINE_AS_INTEGER( long               );
+DEFINE_AS_INTEGER( unsigned long      );
+DEFINE_AS_INTEGER( long long          );
+DEFINE_AS_INTEGER( unsigned long long );
+
+// to string
+std::string pgbn::BigInteger::toString(int radix) const {
+    return m_pImpl->toString(radix);
+}
+
+// to binary
+pgbn::SizeType pgbn::BigInteger::copyMagDataTo(void * dest, SizeType maxlen) const {
+    return m_pImpl->copyMagDataTo(dest, maxlen);
+}
+
+// is-
+bool pgbn::BigInteger::isZero() const { return m_pImpl->flagsContains(BNFlag::ZERO); }
+bool pgbn::BigInteger::isOne() const { return m_pImpl->isOne(); }
+bool pgbn::BigInteger::isNegOne() const { return m_pImpl->isNegOne(); }
+bool pgbn::BigInteger::isPositive() const { return m_pImpl->flagsContains(BNFlag::POSITIVE); }
+bool pgbn::BigInteger::isNegative() const { return m_pImpl->flagsContains(BNFlag::NEGATIVE); }
+bool pgbn::BigInteger::isEven() const { return m_pImpl->isEven(); }
+bool pgbn::BigInteger::isOdd() const { return m_pImpl->isOdd(); }
+
+// ++, --, ~, +=, -=, *=, /=, %=, &=, |=, ^=, bool, -(negative), +(positive) : member-functions
+pgbn::BigInteger & pgbn::BigInteger::operator++ () {
+    m_pImpl->inc();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator++ (int) {
+    BigInteger temp = *this;
+    ++*this;
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator-- () {
+    m_pImpl->dec();
+    return *this;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator-- (int) {
+    BigInteger temp = *this;
+    --*this;
+    return temp;
+}
+
+pgbn::BigInteger pgbn::BigInteger::operator~ () const {
+    BigInteger temp = *this;
+    temp.m_pImpl->notSelf();
+    return temp;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator+= (const BigInteger & other) { m_pImpl->addAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator+= (std::int64_t i64)         { m_pImpl->addAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator-= (const BigInteger & other) { m_pImpl->subAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator-= (std::int64_t i64)         { m_pImpl->subAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator*= (const BigInteger & other) { m_pImpl->mulAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator*= (std::int64_t i64)         { m_pImpl->mulAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator/= (const BigInteger & other) { m_pImpl->divAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator/= (std::int64_t i64)         { m_pImpl->divAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator&= (const BigInteger & other) { m_pImpl->andAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator&= (std::int64_t i64)         { m_pImpl->andAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator|= (const BigInteger & other) { m_pImpl->orAssign(*other.m_pImpl); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator|= (std::int64_t i64)         { m_pImpl->orAssign(i64); return *this;    }
+
+pgbn::BigInteger & pgbn::BigInteger::operator^= (const BigInteger & other) { m_pImpl->xorAssign(*other.m_pImpl); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::operator^= (std::int64_t i64)         { m_pImpl->xorAssign(i64); return *this;   }
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (const BigInteger & other) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(*other.m_pImpl, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator%= (std::int64_t i64) {
+    BigIntegerImpl q;
+    m_pImpl->modAssignAndQuotient(i64, q);
+    return *this;
+}
+
+pgbn::BigInteger & pgbn::BigInteger::operator<<= (std::uint64_t u64) { m_pImpl->shiftLeftAssign(u64); return *this;  }
+pgbn::BigInteger & pgbn::BigInteger::operator>>= (std::uint64_t u64) { m_pImpl->shiftRightAssign(u64); return *this; }
+
+pgbn::BigInteger pgbn::BigInteger::operator+ () const { return *this; }
+pgbn::BigInteger pgbn::BigInteger::operator- () const { return BigInteger(*this).negate(); }
+
+pgbn::BigInteger pgbn::BigInteger::negated() const { return -*this; }
+pgbn::BigInteger pgbn::BigInteger::absoluted() const { return BigInteger{*this}.abs(); }
+
+pgbn::BigInteger & pgbn::BigInteger::negate() { m_pImpl->negate(); return *this; }
+pgbn::BigInteger & pgbn::BigInteger::abs()    { m_pImpl->abs();    return *this; }
+
+pgbn::BigInteger & pgbn::BigInteger::notSelf() {
+    m_pImpl->notSelf();
+    return *this;
+}
+pgbn::BigInteger & pgbn::BigInteger::notBits() {
+    m_pImpl->notBits();
+    return *this;
+}
+
+int pgbn::BigInteger::cmp(std::int64_t other) const       { return m_pImpl->cmp(BigIntegerImpl{other}); }
+int pgbn::BigInteger::cmp(const BigInteger & other) const { return m_pImpl->cmp(*(other.m_pImpl));      }
+
+// pgbn::BigInteger::operator bool() const { return !m_pImpl->flagsContains(BNFlag::ZERO); }
+
+// +, -, *, /, %, &, |, ^ : friend-functions, make from op-ass operators
+// FIXME: Can Be Better(mul and div)
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) += right; }
+pgbn::BigInteger pgbn::operator+ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) += right; }
+
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, const BigInteger & right) { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (const BigInteger & left, std::int64_t right)       { return BigInteger(left) -= right; }
+pgbn::BigInteger pgbn::operator- (std::int64_t left, const BigInteger & right)       { return BigInteger(left) -= right; }
+
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, const BigInteger & right) { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (const BigInteger & left, std::int64_t right)       { return BigInteger(left) *= right; }
+pgbn::BigInteger pgbn::operator* (std::int64_t left, const BigInteger & right)       { return BigInteger(left) *= right; }
+
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) /= right; }
+pgbn::BigInteger pgbn::operator/ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) /= right; }
+
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, const BigInteger & right) { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (const BigInteger & left, std::int64_t right)       { return BigInteger(left) %= right; }
+pgbn::BigInteger pgbn::operator% (std::int64_t left, const BigInteger & right)       { return BigInteger(left) %= right; }
+
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, const BigInteger & right) { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (const BigInteger & left, std::int64_t right)       { return BigInteger(left) &= right; }
+pgbn::BigInteger pgbn::operator& (std::int64_t left, const BigInteger & right)       { return BigInteger(left) &= right; }
+
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, const BigInteger & right) { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (const BigInteger & left, std::int64_t right)       { return BigInteger(left) |= right; }
+pgbn::BigInteger pgbn::operator| (std::int64_t left, const BigInteger & right)       { return BigInteger(left) |= right; }
+
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, const BigInteger & right) { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (const BigInteger & left, std::int64_t right)       { return BigInteger(left) ^= right; }
+pgbn::BigInteger pgbn::operator^ (std::int64_t left, const BigInteger & right)       { return BigInteger(left) ^= right; }
+
+pgbn::BigInteger pgbn::operator<< (const BigInteger & left, std::int64_t right)      { return BigInteger(left) <<= right; }
+pgbn::BigInteger pgbn::operator>> (const BigInteger & left, std::int64_t right)      { return BigInteger(left) >>= right; }
+
+// ==, !=, <, <=, >, >= : friend-functions, from cmp-algorithm
+bool pgbn::operator== (const BigInteger & left, const BigInteger & right) { return left.cmp(right) == 0; }
+bool pgbn::operator== (const BigInteger & left, std::int64_t right)       { return left.cmp(right) == 0; }
+bool pgbn::operator== (std::int64_t left, const BigInteger & right)       { return right.cmp(left) == 0; }
+
+bool pgbn::operator!= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) != 0; }
+bool pgbn::operator!= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) != 0; }
+bool pgbn::operator!= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) != 0; }
+
+bool pgbn::operator<  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) < 0;  }
+bool pgbn::operator<  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) > 0;  }
+
+bool pgbn::operator<= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) <= 0; }
+bool pgbn::operator<= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) >= 0; }
+
+bool pgbn::operator>  (const BigInteger & left, const BigInteger & right) { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (const BigInteger & left, std::int64_t right)       { return left.cmp(right) > 0;  }
+bool pgbn::operator>  (std::int64_t left, const BigInteger & right)       { return right.cmp(left) < 0;  }
+
+bool pgbn::operator>= (const BigInteger & left, const BigInteger & right) { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (const BigInteger & left, std::int64_t right)       { return left.cmp(right) >= 0; }
+bool pgbn::operator>= (std::int64_t left, const BigInteger & right)       { return right.cmp(left) <= 0; }
-- 
2.43.0


From 4cc015def1d239a4e0c7cd1c87502d62677832f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 34/37] fix: formatAppend replaced the text it should append to
 when the format has no placeholder

---
 src/pgdebug.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index df36470..08392af 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -371,7 +371,7 @@ namespace pg::util::stringUtil {
         
         std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>>
             contentRangeInBracket = __IN_fmtUtil::parseBracket(fmt, "{", "}");
-        if (contentRangeInBracket.empty()) { res = fmt; return; }
+        if (contentRangeInBracket.empty()) { res.append(fmt); return; }
 
         std::vector<std::string> limits;
         std::vector<int> nos;
-- 
2.43.0


From 66355f55d5246d604a4f4acec9c783ef0aea5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 35/37] fix: a placeholder {n:limit} refers to argument n, with
 its own limit, however many placeholders there are

---
 src/pgdebug.h | 84 ++++++++++++++++-----------------------------------
 1 file changed, 26 insertions(+), 58 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 08392af..3649579 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -237,52 +237,27 @@ namespace pg::util::stringUtil {
             parseBracket(
                 const std::string & str, const char * leftBracket, const char * rightBracket);
         
+        // res[i] <- the text of argument no, with the limit of bracket i, for each bracket i that refers to it
+        template<typename _Arg>
+        void __IN_parseArg(
+            std::vector<std::string> & res,
+            const std::vector<std::string> & limits,
+            const std::vector<int> & nos,
+            int no, const _Arg & arg) {
+            for (std::size_t i = 0; i < nos.size(); ++i)
+                if (nos[i] == no) res[i] = transToString(arg, limits[i]);
+        }
+
+        // the text for each bracket, empty if there is no such argument
         template<typename..._Args>
         std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args);
-
-        template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
-            const _First& fArg, const _Args&... args);
-
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string> & limits, 
-            std::vector<std::string>::const_iterator & limStrIter);
-        
-        // function-definitions
-        template<typename..._Args>
-        std::vector<std::string> parseArgs(
-            const std::vector<std::string>& limits, const _Args&... args) {
-            std::vector<std::string> res;
-            std::vector<std::string>::const_iterator iter = limits.begin();
-            __IN_parseArgs(res, limits, iter, args...);
-
+            const std::vector<std::string> & limits, const std::vector<int> & nos, const _Args&... args) {
+            std::vector<std::string> res(nos.size());
+            [[maybe_unused]] int no = 0;
+            (__IN_parseArg(res, limits, nos, no++, args), ...);
             return res;
         }
 
-        template<typename _First, typename..._Args>
-        void __IN_parseArgs(
-            std::vector<std::string> & res, 
-            const std::vector<std::string>& limits, 
-            std::vector<std::string>::const_iterator & limStrIter,
-            const _First& fArg, const _Args&... args
-            ) {
-            res.push_back(transToString(fArg, *limStrIter));
-            ++limStrIter;
-            if (limStrIter == limits.end()) return;
-            __IN_parseArgs(res, limits, limStrIter, args...);
-        }
-
-        inline void __IN_parseArgs(
-            std::vector<std::string> & res,
-            const std::vector<std::string>& limits,
-            std::vector<std::string>::const_iterator & limStrIter
-            ) { }
-
         inline std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> 
             parseBracket(
                 const std::string & str, const char * leftBracket, const char * rightBracket) {
@@ -308,18 +283,14 @@ namespace pg::util::stringUtil {
             _Res & res,
             const std::string & fmt,
             const std::vector<std::string> & contents,
-            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges,
-            const std::vector<int> & nos) {
+            const std::vector<std::pair<std::string::const_iterator, std::string::const_iterator>> & ranges) {
             res.append(fmt.begin(), ranges.front().first - 1);
             const std::size_t cSize = contents.size();
-            const std::size_t nosSize = nos.size();
-            std::size_t idx = 0;
-            for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-                idx = nos.at(i);
-                if (idx < cSize) res.append(contents.at(idx));
+            for (std::size_t i = 0; i + 1 < cSize; ++i) {
+                res.append(contents.at(i));
                 res.append(ranges.at(i).second + 1, ranges.at(i + 1).first - 1);
             }
-            if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+            res.append(contents.back());
             res.append(ranges.back().second + 1, fmt.end());
         }
 
@@ -348,18 +319,15 @@ namespace pg::util::stringUtil {
             else limits.emplace_back();
         }
         
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, nos, args...);
 
         std::string res; res.append(fmt.begin(), contentRangeInBracket.front().first - 1);
         const std::size_t cSize = contents.size();
-        const std::size_t nosSize = nos.size();
-        std::size_t idx = 0;
-        for (std::size_t i = 0; i + 1 < nosSize; ++i) {
-            idx = nos.at(i);
-            if (idx < cSize) res.append(contents.at(idx));
+        for (std::size_t i = 0; i + 1 < cSize; ++i) {
+            res.append(contents.at(i));
             res.append(contentRangeInBracket.at(i).second + 1, contentRangeInBracket.at(i + 1).first - 1);
         }
-        if ((idx = nos.back()) < cSize) res.append(contents.at(idx));
+        res.append(contents.back());
         res.append(contentRangeInBracket.back().second + 1, fmt.end());
 
         return res;
@@ -387,9 +355,9 @@ namespace pg::util::stringUtil {
             else limits.emplace_back();
         }
         
-        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, args...);
+        std::vector<std::string> contents =  __IN_fmtUtil::parseArgs(limits, nos, args...);
 
-        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket, nos);
+        __IN_fmtUtil::pushStringIntoBracket(res, fmt, contents, contentRangeInBracket);
     }
 
 } // namespace pg::util::stringUtil
-- 
2.43.0


From a9b2e7cd727542f28e06f55af0bc68bfeb99e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 36/37] fix: formatting wrote beyond its buffers (wide limits,
 large floating point numbers, short C strings) and cut texts at a null
 character

---
 src/pgdebug.h | 95 ++++++++++++++-------------------------------------
 1 file changed, 25 insertions(+), 70 deletions(-)

diff --git a/src/pgdebug.h b/src/pgdebug.h
index 3649579..caffb95 100755
--- a/src/pgdebug.h
+++ b/src/pgdebug.h
@@ -32,6 +32,7 @@
 #ifndef __TOSTRING_UTIL_H__
 #define __TOSTRING_UTIL_H__
 
+#include <cstdio>
 #include <cstring>
 #include <string>
 #include <type_traits>
@@ -65,6 +66,18 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     std::enable_if_t<!has_iterator<_Type>::value, std::string> transToString(const _Type& ele, const std::string &);
 
     // function-definitions
+    // printf of one value with the conversion %<limit><conv>
+    template<typename _Arg>
+    std::string sprintfToString(const std::string & limit, const char * conv, _Arg ele) {
+        const std::string fmt = "%" + limit + conv;
+        const int len = std::snprintf(nullptr, 0, fmt.c_str(), ele);
+        if (len < 0) return std::string();
+        std::string res(len + 1, '\0');
+        std::snprintf(&res[0], res.size(), fmt.c_str(), ele);
+        res.pop_back();
+        return res;
+    }
+
     inline std::string transToString(const bool & ele, const std::string &) {
         return ele ? "true" : "false";
     }
@@ -74,19 +87,11 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, PRId16, ele);
     }
 
     inline std::string transToString(const std::uint16_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu16 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, PRIu16, ele);
     }
 
     inline std::string transToString(const std::uint8_t & ele, const std::string &) {
@@ -94,90 +99,40 @@ namespace pg::util::stringUtil::__IN_fmtUtil {
     }
 
     inline std::string transToString(const std::int32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRId32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, PRId32, ele);
     }
 
     inline std::string transToString(const std::uint32_t & ele, const std::string & limit) {
-        char buf[20] = { 0 };
-        char fmt[10] = { 0 };
-        sprintf(fmt, "%%%s" PRIu32 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, PRIu32, ele);
     }
 
     inline std::string transToString(const std::int64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRId64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, PRId64, ele);
     }
 
     inline std::string transToString(const std::uint64_t & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%s" PRIu64 "", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, PRIu64, ele);
     }
 
     inline std::string transToString(const float & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%sf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, "f", ele);
     }
 
     inline std::string transToString(const double & ele, const std::string & limit) {
-        char buf[40] = { 0 };
-        char fmt[20] = { 0 };
-        sprintf(fmt, "%%%slf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, "lf", ele);
     }
 
     inline std::string transToString(const long double & ele, const std::string & limit) {
-        char buf[50] = { 0 };
-        char fmt[30] = { 0 };
-        sprintf(fmt, "%%%sllf", limit.c_str());
-        int len = sprintf(buf, fmt, ele);
-        return std::string().assign(buf, len);
+        return sprintfToString(limit, "llf", ele);
     }
 
     inline std::string transToString(const std::string & ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        HeapCharArrayWrapper buf(new char[(ele.size() + 1) * 2]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele.c_str());
-        return std::string(buf.ptr);
+        if (limit.empty()) return ele;
+        return sprintfToString(limit, "s", ele.c_str());
     }
 
     inline std::string transToString(const char * ele, const std::string & limit) {
-        struct HeapCharArrayWrapper {  // temp-tool
-            HeapCharArrayWrapper(char * arr) : ptr(arr) { }
-            ~HeapCharArrayWrapper() { if (ptr != nullptr) delete [] ptr; }
-            char * ptr = nullptr;
-        };
-
-        const size_t len = std::strlen(ele);
-        HeapCharArrayWrapper buf(new char[len << 1]);  // temp-processing ==> Buffer
-        char fmt[50] = { 0 };
-
-        sprintf(fmt, "%%%ss", limit.c_str());
-        sprintf(buf.ptr, fmt, ele);
-        return std::string(buf.ptr);
+        return sprintfToString(limit, "s", ele);
     }
 
     template <typename _First, typename _Second>
-- 
2.43.0


From 86cdaa824081ff27fbcdc4dba60c841feaa63cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 37/37] fix: a right shift by 2^64 or more in an expression
 shifted by the count modulo 2^64

---
 src/infixExpr/ExprTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infixExpr/ExprTree.cpp b/src/infixExpr/ExprTree.cpp
index 70e6090..d7d2e45 100644
--- a/src/infixExpr/ExprTree.cpp
+++ b/src/infixExpr/ExprTree.cpp
@@ -61,7 +61,7 @@ static Value binOpEvalCallback(ExprNode * node, bool peval) {
         left.shiftLeftAssign(right.toU64());
         return left;
     case TokenType::SHIFTRIGHT :
-        left.shiftRightAssign(right.toU64());
+        left.shiftRightAssign(right.getMagU32Count() > 2 ? ~std::uint64_t{0} : right.toU64()); // 2^64 and above: all bits
         return left;
     case TokenType::POW :
         // TODO: Opt it
-- 
2.43.0

