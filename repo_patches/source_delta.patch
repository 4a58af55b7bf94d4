From a2d4c0f17c3b89755d95616e9cfce6be6280cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 01/20] fix: keep the carry when adding a 64-bit integer to Aeu

Aeu += uint64_t added the whole addendum to a block in 64-bit arithmetic, so
the carry was lost when the sum passed 2^64 (Aeu(1) + UINT64_MAX gave 0).
---
 include/AesiMultiprecision/Aeu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..5a766b2 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,10 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            auto rest = static_cast<uint64_t>(addendum);
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + rest % blockBase;
+                rest = rest / blockBase + currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
-- 
2.43.0


From d47e2f267773b03cf846911ddcc6ea39d58c20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 02/20] fix: multiply Aeu by every 64-bit unsigned type without
 overflow

unsigned long long (where it is not uint64_t) took the path for narrow factors
and lost the high half of each block product.
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5a766b2..cccef4d 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -437,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) == sizeof(uint64_t)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From eb4d812ec1660502b0c5ab2a27f2ddb4ff7b6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 03/20] fix: compare the extra high blocks first in
 Aeu::compareTo

With different precisions the common low blocks decided before the high blocks
that only one of the numbers has were looked at.
---
 include/AesiMultiprecision/Aeu.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index cccef4d..ff63bb8 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,12 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
-
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
                 if (other.totalBlocksNumber() > blocksNumber) {
@@ -826,6 +820,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 376c5c3481b884555b9ac088a76d3a2f808bc2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 04/20] fix: ignore byte index N/8 in Aeu::setByte and getByte

The index just past the last byte passed the range check and accessed memory
after the blocks.
---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index ff63bb8..d55d17e 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 53564ae0bb3ee51f58deba3a8af9aa2c373503d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 05/20] fix: reduce trivial powm results by the modulus

powm returned 1 modulo 1 for power 0, and the overload for powers of another
precision returned 1 for base 0 (whatever the power) and 1 for base 1 modulo 1.
---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index d55d17e..20d9532 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1200,13 +1200,8 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
         auto [_, b] = divide(base, modulo);
+        Aeu output = divide(Aeu { 1u }, modulo).second;
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
             if(power.getBit(iteration)) {
@@ -1223,8 +1218,8 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
         auto [_, b] = divide(base, mod);
+        Aeu output = divide(Aeu { 1u }, mod).second;
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
             if(power.getBit(iteration)) {
-- 
2.43.0


From 427bf8a5abbb99c06265bf8095ba3e2bf6c01dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 06/20] fix: keep getString inside its buffer and count what it
 writes

The hexadecimal path advanced by the length snprintf would have liked to write,
so remaining space underflowed; the others stored the terminator one past a full
buffer. Zero was written without terminator, for Aesi without regard to the
buffer size, and the minus sign was not counted.
---
 include/AesiMultiprecision/Aesi.h | 45 ++++---------------------------
 include/AesiMultiprecision/Aeu.h  | 30 ++++-----------------
 2 files changed, 10 insertions(+), 65 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..80515f9 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1061,47 +1061,12 @@ public:
     gpu constexpr auto getString(Char* buffer, std::size_t bufferSize, bool showBase = false) const noexcept -> std::size_t {
         using enum Sign;
 
-        if(sign != Zero) {
-            if(sign == Negative && bufferSize > 0) {
-                *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-                --bufferSize;
-            }
-            return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
-        }
-
-        if(showBase) {
-            switch(notation) {
-                case 2: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 8: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                case 16: {
-                    if(bufferSize < 3) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
-                    buffer[2] = buffer[0];
-                    return 3;
-                }
-                default: {
-                    if(bufferSize < 1) return 0;
-                    buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    return 1;
-                }
-            }
+        if(sign == Negative && bufferSize > 0) {
+            *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
+            const auto written = base.template getString<notation, hexUppercase, Char>(buffer, bufferSize - 1, showBase);
+            return written + 1;
         }
-
-        buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-        return 1;
+        return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
     }
 
     /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 20d9532..0e1ff3f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1306,40 +1306,20 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            buffer[position++] = Char {};
             return position;
         }
 
         if constexpr (base == 16) {
-            std::size_t iter = blocks.size() - 1;
-            for (; iter > 0 && blocks[iter] == 0; --iter)
-                ;
-
-            if constexpr (std::is_same_v<Char, char>) {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
-                }
-            } else {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
-                }
+            for(std::size_t digits = (bitCount() + 3) / 4; digits-- > 0 && position + 1 < bufferSize;) {
+                const auto digit = (blocks[digits / 8] >> (digits % 8 * 4)) & 0xfu;
+                buffer[position++] = static_cast<Char>(digit < 10 ? '0' + digit : (hexUppercase ? 'A' : 'a') + digit - 10);
             }
         } else {
             const auto startPosition = position;
 
             Aeu copy = *this;
-            while (!copy.isZero() && position < bufferSize) {
+            while (!copy.isZero() && position + 1 < bufferSize) {
                 auto [quotient, remainder] = divide(copy, base);
                 if constexpr (std::is_same_v<Char, char>) {
                     buffer[position++] = static_cast<Char>('0' + remainder.template integralCast<byte>());
-- 
2.43.0


From 7d3094b068e508be77ecbffa1f11035b965c9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 07/20] fix: compare Aesi of different precision without
 truncation

Both operands were cast to the precision of the right one, so the high blocks of
a wider left operand were ignored.
---
 include/AesiMultiprecision/Aesi.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 80515f9..4716bd3 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -617,11 +617,7 @@ public:
          */
         template <std::size_t otherBitness>
         gpu constexpr friend auto operator==(const Aesi& our, const Aesi<otherBitness>& other) noexcept -> bool {
-            if constexpr (bitness == otherBitness) {
-                return our.compareTo(other) == Comparison::equal;
-            } else {
-                return our.precisionCast<otherBitness>() == other;
-            }
+            return our.compareTo(other) == Comparison::equal;
         }
 
 #ifdef AESI_GMP_INTEGRATION
@@ -683,7 +679,10 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness > bitness)
+                return precisionCast<otherBitness>().compareTo(value);
+            else
+                return compareTo(value.template precisionCast<bitness>());
         }
 
         /**
-- 
2.43.0


From 2a0a7845a71722e6e052c3574edb6e2fb339098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 08/20] fix: give an Aesi built from an unsigned zero the sign
 of zero

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 4716bd3..5fcd7f3 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -148,7 +148,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
-- 
2.43.0


From eca4637367280c60666ca6c91aeba459ba460a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:58 +0000
Subject: [PATCH 09/20] fix: give an Aesi the sign of zero when a narrowing
 precisionCast leaves nothing

---
 include/AesiMultiprecision/Aesi.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 5fcd7f3..62a87c2 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1030,6 +1030,8 @@ public:
             for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
                 result.setBlock(blockIdx, getBlock(blockIdx));
 
+            if(result.filledBlocksNumber() == 0)
+                return Aesi<newBitness> {};
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From 2097ed66db5683f1e5405130433c9e325538f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 10/20] fix: give Aesi remainders the sign of the dividend

A negative modulus inverted the sign of the remainder, so that n != n/d*d + n%d and
operator% disagreed with divide(). The most negative value of a built-in type as
modulus was sign-extended.
---
 include/AesiMultiprecision/Aesi.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 62a87c2..46b7687 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -564,11 +564,7 @@ public:
             if(modulo == 0) {
                 modulation.sign = Zero;
             } else {
-                if(modulo < 0) {
-                    modulation.inverse();
-                    modulo = static_cast<Integral>(-modulo);
-                }
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                modulation.base %= (modulo < 0 ? 0ULL - static_cast<unsigned long long>(modulo) : static_cast<unsigned long long>(modulo));
             }
             return modulation;
         }
@@ -585,8 +581,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From eb8ae6d096b285991d079440be645ebf13672cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 11/20] fix: give Aesi the sign of zero when a built-in modulus
 divides it

---
 include/AesiMultiprecision/Aesi.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 46b7687..ae1b5f0 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -565,6 +565,7 @@ public:
                 modulation.sign = Zero;
             } else {
                 modulation.base %= (modulo < 0 ? 0ULL - static_cast<unsigned long long>(modulo) : static_cast<unsigned long long>(modulo));
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
-- 
2.43.0


From e85ea687122374a830d65bc075275748161dc845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 12/20] fix: construct Aesi from the most negative built-in
 values

-value overflowed for INT_MIN and LLONG_MIN; Aesi(INT_MIN) was -(2^64 - 2^31).
---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index ae1b5f0..08be7f1 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -100,7 +100,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(0ULL - static_cast<unsigned long long>(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
-- 
2.43.0


From 426d8464607e850d39e3a6108dbeb25f79752bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 13/20] fix: multiply Aesi by the most negative built-in values

Negating the factor in its own type left it negative, and it was sign-extended.
---
 include/AesiMultiprecision/Aesi.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 08be7f1..cc842be 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -430,9 +430,9 @@ public:
             } else {
                 if(factor < 0) {
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
-                }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                    multiplication.base *= 0ULL - static_cast<unsigned long long>(factor);
+                } else
+                    multiplication.base *= static_cast<unsigned long long>(factor);
             }
             return multiplication;
         }
-- 
2.43.0


From c4a698597c9ebeb0c4964c8290f20cb6ab7c4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 14/20] fix: divide Aesi by the most negative built-in values

Negating the divisor in its own type left it negative, and it was sign-extended.
---
 include/AesiMultiprecision/Aesi.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index cc842be..e1b73fb 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -496,9 +496,9 @@ public:
             } else {
                 if(divisor < 0) {
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
-                }
-                division.base /= static_cast<unsigned long long>(divisor);
+                    division.base /= 0ULL - static_cast<unsigned long long>(divisor);
+                } else
+                    division.base /= static_cast<unsigned long long>(divisor);
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
-- 
2.43.0


From 5dbf8e15c5602a826e1bc46f7bb737dde81957fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 15/20] fix: compare Aesi with INT64_MIN without signed
 overflow

The comparison could not be evaluated in a constant expression.
---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index e1b73fb..d31deae 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -650,7 +650,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(uint64_t { 0 } - static_cast<uint64_t>(integral))) {
                         using enum Comparison;
                         case greater:
                             return less;
-- 
2.43.0


From 663c2fd54fa5318cf154e5fb9ec98032814f75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:59 +0000
Subject: [PATCH 16/20] fix: clear the magnitude of Aesi results that become
 zero

Cancelling sums, products with zero and divide() only set the sign, so the result
kept bits of the operand: it had a bit length, could be odd, its unsigned value
was not zero and narrowing or later conversions brought the bits back.
---
 include/AesiMultiprecision/Aesi.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index d31deae..9e5445a 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -289,8 +289,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
-                        return addition;
+                        return addition = Aesi {};
                     }
                 }
             } else {
@@ -306,8 +305,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
-                        return addition;
+                        return addition = Aesi {};
                     }
                 }
             }
@@ -359,8 +357,7 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
-                            return subtraction;
+                            return subtraction = Aesi {};
                         }
                     }
                 } else {
@@ -381,8 +378,7 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
-                            return subtraction;
+                            return subtraction = Aesi {};
                         }
                     }
                 } else {
@@ -426,7 +422,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, Integral factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor == 0) {
-                multiplication.sign = Zero;
+                multiplication = Aesi {};
             } else {
                 if(factor < 0) {
                     multiplication.inverse();
@@ -446,7 +442,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, const Aesi& factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor.isZero()) {
-                multiplication.sign = Zero;
+                multiplication = Aesi {};
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
@@ -492,7 +488,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, Integral divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor == 0) {
-                division.sign = Zero;
+                division = Aesi {};
             } else {
                 if(divisor < 0) {
                     division.inverse();
@@ -514,7 +510,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, const Aesi& divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor.isZero()) {
-                division.sign = Zero;
+                division = Aesi {};
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -562,7 +558,7 @@ public:
         gpu constexpr friend auto operator%=(Aesi& modulation, Integral modulo) noexcept -> Aesi& {
             using enum Sign;
             if(modulo == 0) {
-                modulation.sign = Zero;
+                modulation = Aesi {};
             } else {
                 modulation.base %= (modulo < 0 ? 0ULL - static_cast<unsigned long long>(modulo) : static_cast<unsigned long long>(modulo));
                 if(modulation.base.isZero()) modulation.sign = Zero;
@@ -936,8 +932,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi {};
+            remainder = Aesi {};
             return;
         }
 
-- 
2.43.0


From 80d560533fc654c3a14d36ebd019177a40a42aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 17/20] fix: negate in unsigned arithmetic in
 Aesi::integralCast

The most negative values overflowed, and could not be evaluated in a constant
expression.
---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 9e5445a..7205ea6 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1001,7 +1001,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(0ULL - static_cast<unsigned long long>(base.template integralCast<Integral>()));
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From 146d433c123d3a428f4bebaff36b3b69cee78c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 18/20] fix: leave the stream's format flags and fill as they
 were in operator<<

Printing cleared std::showbase for good, and hexadecimal printing also left the
fill character '0' and right adjustment behind.
---
 include/AesiMultiprecision/Aeu.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 0e1ff3f..d1a7443 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1363,7 +1363,7 @@ public:
                     } else {
                         return tBase == 8 ? L"0o" : L"0x";
                     }
-                } () << std::noshowbase ;
+                } ();
             return tBase;
         } (flags & std::ios::basefield, os, flags & std::ios::showbase);
 
@@ -1375,11 +1375,12 @@ public:
             for(; iter > 0 && number.blocks[iter] == 0; --iter)
                 ;
 
-            os << number.blocks[iter];
+            os << std::noshowbase << number.blocks[iter] << std::right;
+            const auto fill = os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
             for (; iter-- > 0;) {
-                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
-                os.width(8); os << std::right << number.blocks[iter];
+                os.width(8); os << number.blocks[iter];
             }
+            os.fill(fill); os.flags(flags);
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 43b9cd4c63a30b9b1c4a331f8b5305db0d39a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 19/20] fix: do not read the block behind a number of one block

Comparison with 64-bit integers and integralCast read blocks[1], which does not exist at precision 32.
---
 include/AesiMultiprecision/Aeu.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index d1a7443..847db36 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -729,7 +729,7 @@ public:
             return our.filledBlocksNumber() <= 1 && static_cast<block>(other) == our.blocks[0];
         }
         gpu constexpr friend auto operator==(const Aeu& our, uint64_t other) noexcept -> bool {
-            return our.filledBlocksNumber() <= 2 && (static_cast<uint64_t>(our.blocks[1]) << blockBitLength | static_cast<uint64_t>(our.blocks[0])) == other;
+            return our.filledBlocksNumber() <= 2 && (static_cast<uint64_t>(our.getBlock(1)) << blockBitLength | static_cast<uint64_t>(our.blocks[0])) == other;
         }
 
         /**
@@ -791,7 +791,7 @@ public:
         gpu constexpr auto compareTo(uint64_t other) const noexcept -> Comparison {
             using enum Comparison;
             if(filledBlocksNumber() > 2) return greater;
-            const auto base = (static_cast<uint64_t>(blocks[1]) << blockBitLength) | static_cast<uint64_t>(blocks[0]);
+            const auto base = (static_cast<uint64_t>(getBlock(1)) << blockBitLength) | static_cast<uint64_t>(blocks[0]);
             if(base > other)
                 return greater; else if(base < other) return less; else return equal;
         }
@@ -1450,7 +1450,7 @@ public:
      */
     template <typename Integral> requires (std::is_integral_v<Integral>) [[nodiscard]]
     gpu constexpr auto integralCast() const noexcept -> Integral {
-        const uint64_t value = (static_cast<uint64_t>(blocks[1]) << blockBitLength) | static_cast<uint64_t>(blocks[0]);
+        const uint64_t value = (static_cast<uint64_t>(getBlock(1)) << blockBitLength) | static_cast<uint64_t>(blocks[0]);
         return static_cast<Integral>(value);
     }
 
-- 
2.43.0


From a82dabc301fa74de7e3f3d008b477df2355354f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:17 +0000
Subject: [PATCH 20/20] fix: make room for the leading octal digit at
 precisions 32 and 64

bitness / 2.95 is less than the 11 and 22 digits those need, so the leading digit was not printed.
---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 847db36..a5e5e42 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1384,7 +1384,7 @@ public:
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-            constexpr auto bufferSize = static_cast<std::size_t>(static_cast<double>(bitness) / 2.95);
+            constexpr auto bufferSize = static_cast<std::size_t>(static_cast<double>(bitness) / 2.95) + 1;
             Char buffer [bufferSize] {}; std::size_t filled = 0;
 
             Aeu copy = number;
-- 
2.43.0

