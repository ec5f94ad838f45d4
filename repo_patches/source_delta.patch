From edc301025f69dfad26e6968cae7da9ad7cb5495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 01/14] fix: order gray_code_iterators by their position
 instead of by their Gray code

---
 include/fiction/algorithms/iter/gray_code_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/iter/gray_code_iterator.hpp b/include/fiction/algorithms/iter/gray_code_iterator.hpp
index a60260a..b08608b 100644
--- a/include/fiction/algorithms/iter/gray_code_iterator.hpp
+++ b/include/fiction/algorithms/iter/gray_code_iterator.hpp
@@ -85,7 +85,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code < other.current_gray_code;
+        return current_iteration < other.current_iteration;
     }
     /**
      * Less-than or equal-to comparison operator. Compares the current iterator with another iterator.
@@ -95,7 +95,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<=(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code <= other.current_gray_code;
+        return current_iteration <= other.current_iteration;
     }
     /**
      * Subtraction operator to calculate the difference between two gray_code_iterators.
-- 
2.43.0


From 6d91980ec547111dc6799452396a155564dc9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 02/14] fix: aspect_ratio_iterator's <= no longer holds for
 larger factors of the same number

---
 include/fiction/algorithms/iter/aspect_ratio_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..5094cc2 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -117,7 +117,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num < other.num) || (num == other.num && *it <= *(other.it));
     }
 
   private:
-- 
2.43.0


From f60ed8192b4d4e1af43ce37b3a7e53b8f7fd10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 03/14] fix: copies of aspect_ratio_iterator no longer refer to
 the factors of the original

---
 .../algorithms/iter/aspect_ratio_iterator.hpp | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 5094cc2..e7e96dd 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -48,10 +49,10 @@ class aspect_ratio_iterator
      */
     aspect_ratio_iterator& operator++() noexcept
     {
-        ++it;
+        ++pos;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (pos == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[pos];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (**this == *other);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && **this < *other);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it <= *(other.it));
+        return (num < other.num) || (num == other.num && **this <= *other);
     }
 
   private:
@@ -130,9 +131,9 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Position of the current factor in `factors`. An index remains valid for copies of this iterator.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t pos{};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -157,8 +158,8 @@ class aspect_ratio_iterator
             }
         }
 
-        // let it point to the first element of the sequence
-        it = factors.begin();
+        // start with the first element of the sequence
+        pos = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From 5c76c72ef2f0e506a49bb010c2142147005f3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 04/14] fix: binomial_coefficient no longer overflows in
 intermediate values while its result is representable

---
 include/fiction/utils/math_utils.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..dc98c7f 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -65,14 +65,16 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        // equal to result * (n + 1 - i) / i, but the intermediate values do not overflow before the result itself does
+        const auto factor = n + 1 - i;
+        result            = ((result / i) * factor) + (((result % i) * factor) / i);
     }
 
     return result;
-- 
2.43.0


From 565552930561ac77f2cb92723d8ade4ac2cad43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 05/14] fix: find_first_two_of no longer reads past ranges of
 fewer than two elements

---
 include/fiction/utils/stl_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..eb64390 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,6 +39,12 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
+    // ranges of fewer than two elements do not share any 2-element sub-sequence
+    if (last - first < 2 || s_last - s_first < 2)
+    {
+        return last;
+    }
+
     for (; first != last - 1; ++first)
     {
         for (ForwardIt it = s_first; it != s_last - 1; ++it)
-- 
2.43.0


From d1919b0fb092b584d5a31ec80517244ffbc25ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 06/14] fix: annealing instances running concurrently no longer
 share one random number generator

---
 .../fiction/algorithms/optimization/simulated_annealing.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..96e191d 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,10 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    // one generator per thread because annealing instances may run concurrently
+    static thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    static thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From d195aea491948026daf7f05b1d4c2fffeb46ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 07/14] fix: decayed and_xor gate with its first input at 1 is
 a NAND

---
 include/fiction/technology/technology_mapping_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/technology_mapping_library.hpp b/include/fiction/technology/technology_mapping_library.hpp
index 3fe8145..f3632cb 100644
--- a/include/fiction/technology/technology_mapping_library.hpp
+++ b/include/fiction/technology/technology_mapping_library.hpp
@@ -91,7 +91,7 @@ inline constexpr const char* DECAY_MUX = "GATE  d1_mux  1 O=a*b;           PIN *
 
 inline constexpr const char* GATE_AND_XOR  = "GATE  and_xor     1 O=a^(b*c);  PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n";
 inline constexpr const char* DECAY_AND_XOR = "GATE  d1_and_xor  1 O=a*b;      PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
-                                             "GATE  d2_and_xor  1 O=!a*b;     PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
+                                             "GATE  d2_and_xor  1 O=!(a*b);   PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n"
                                              "GATE  d3_and_xor  1 O=a^b;      PIN * NONINV 1 999 1.0 1.0 1.0 1.0\n";
 
 }  // namespace fiction
-- 
2.43.0


From b6827c163dc2b8b41b39ba4f11d41198512c70e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 08/14] fix: repeat 3-phase clocking cutouts seamlessly across
 negative coordinates

The modulo operation of a negative 32-bit component and an unsigned divisor wraps around 2^64, which is no multiple of 3.
Hence, all schemes with 3 or 6 rows or columns (COLUMNAR3, ROW3, 2DDWAVE3, 2DDWAVEHEX3, and BANCS) were shifted for
negative coordinates of signed types.
---
 include/fiction/layouts/clocking_scheme.hpp | 40 ++++++++++++++++-----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/fiction/layouts/clocking_scheme.hpp b/include/fiction/layouts/clocking_scheme.hpp
index 90c5296..783bf8b 100644
--- a/include/fiction/layouts/clocking_scheme.hpp
+++ b/include/fiction/layouts/clocking_scheme.hpp
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <array>
 #include <cctype>
+#include <cstddef>
 #include <cstdint>
 #include <exception>
 #include <functional>
@@ -184,6 +185,25 @@ enum class num_clks : uint8_t
      */
     FOUR
 };
+namespace detail
+{
+
+/**
+ * Wraps a coordinate component into a cutout of `Size` elements. In contrast to the modulo operator, negative components
+ * of signed coordinate types are wrapped such that the cutout repeats seamlessly across the origin.
+ *
+ * @tparam Size Number of elements of the cutout in the respective dimension.
+ * @param component Coordinate component.
+ * @return Index into the cutout, i.e., a number in the range from 0 to `Size - 1`.
+ */
+template <int64_t Size>
+[[nodiscard]] constexpr std::size_t cutout_index(const int64_t component) noexcept
+{
+    return static_cast<std::size_t>(((component % Size) + Size) % Size);
+}
+
+}  // namespace detail
+
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wsign-conversion"
 /**
@@ -234,7 +254,7 @@ static auto columnar_clocking(const num_clks& n = num_clks::FOUR) noexcept
         static constexpr std::array<std::array<typename clocking_scheme<clock_zone<Lyt>>::clock_number, 3u>, 3u> cutout{
             {{{0, 1, 2}}, {{0, 1, 2}}, {{0, 1, 2}}}};
 
-        return cutout[cz.y % 3ul][cz.x % 3ul];
+        return cutout[detail::cutout_index<3>(cz.y)][detail::cutout_index<3>(cz.x)];
     };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function columnar_4_clock_function =
@@ -281,7 +301,7 @@ static auto row_clocking(const num_clks& n = num_clks::FOUR) noexcept
         static constexpr std::array<std::array<typename clocking_scheme<clock_zone<Lyt>>::clock_number, 3u>, 3u> cutout{
             {{{0, 0, 0}}, {{1, 1, 1}}, {{2, 2, 2}}}};
 
-        return cutout[cz.y % 3ul][cz.x % 3ul];
+        return cutout[detail::cutout_index<3>(cz.y)][detail::cutout_index<3>(cz.x)];
     };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function row_4_clock_function =
@@ -327,7 +347,7 @@ static auto twoddwave_clocking(const num_clks& n = num_clks::FOUR) noexcept
         static constexpr std::array<std::array<typename clocking_scheme<clock_zone<Lyt>>::clock_number, 3u>, 3u> cutout{
             {{{0, 1, 2}}, {{1, 2, 0}}, {{2, 0, 1}}}};
 
-        return cutout[cz.y % 3ul][cz.x % 3ul];
+        return cutout[detail::cutout_index<3>(cz.y)][detail::cutout_index<3>(cz.x)];
     };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function twoddwave_4_clock_function =
@@ -409,25 +429,29 @@ static auto twoddwave_hex_clocking(const num_clks& n = num_clks::FOUR) noexcept
     // clang-format on
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function odd_row_twoddwave_hex_3_clock_function =
-        [](const clock_zone<Lyt>& cz) noexcept { return odd_3_cutout[cz.y % 6ul][cz.x % 3ul]; };
+        [](const clock_zone<Lyt>& cz) noexcept
+    { return odd_3_cutout[detail::cutout_index<6>(cz.y)][detail::cutout_index<3>(cz.x)]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function odd_row_twoddwave_hex_4_clock_function =
         [](const clock_zone<Lyt>& cz) noexcept { return odd_4_cutout[cz.y % 8ul][cz.x % 4ul]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function even_row_twoddwave_hex_3_clock_function =
-        [](const clock_zone<Lyt>& cz) noexcept { return even_3_cutout[cz.y % 6ul][cz.x % 3ul]; };
+        [](const clock_zone<Lyt>& cz) noexcept
+    { return even_3_cutout[detail::cutout_index<6>(cz.y)][detail::cutout_index<3>(cz.x)]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function even_row_twoddwave_hex_4_clock_function =
         [](const clock_zone<Lyt>& cz) noexcept { return even_4_cutout[cz.y % 8ul][cz.x % 4ul]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function odd_column_twoddwave_hex_3_clock_function =
-        [](const clock_zone<Lyt>& cz) noexcept { return odd_3_cutout[cz.x % 6ul][cz.y % 3ul]; };
+        [](const clock_zone<Lyt>& cz) noexcept
+    { return odd_3_cutout[detail::cutout_index<6>(cz.x)][detail::cutout_index<3>(cz.y)]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function odd_column_twoddwave_hex_4_clock_function =
         [](const clock_zone<Lyt>& cz) noexcept { return odd_4_cutout[cz.x % 8ul][cz.y % 4ul]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function even_column_twoddwave_hex_3_clock_function =
-        [](const clock_zone<Lyt>& cz) noexcept { return even_3_cutout[cz.x % 6ul][cz.y % 3ul]; };
+        [](const clock_zone<Lyt>& cz) noexcept
+    { return even_3_cutout[detail::cutout_index<6>(cz.x)][detail::cutout_index<3>(cz.y)]; };
 
     static const typename clocking_scheme<clock_zone<Lyt>>::clock_function even_column_twoddwave_hex_4_clock_function =
         [](const clock_zone<Lyt>& cz) noexcept { return even_4_cutout[cz.x % 8ul][cz.y % 4ul]; };
@@ -734,7 +758,7 @@ static auto bancs_clocking() noexcept
              {{1, 2, 0}},
              {{0, 2, 1}}}};
 
-        return cutout[cz.y % 6ul][cz.x % 3ul];
+        return cutout[detail::cutout_index<6>(cz.y)][detail::cutout_index<3>(cz.x)];
     };
 
     return clocking_scheme{clock_name::BANCS, bancs_clock_function, std::min(Lyt::max_fanin_size, 2u), 2u, 3u, true};
-- 
2.43.0


From 655b00cc70e23e11e597be4c4c37671f53beb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 09/14] fix: clones of clocked layouts own their clocking
 scheme

clocked_layout::clone() copied the storage object, which merely holds a shared pointer to the clocking scheme. Thus,
assigning a clock number in a clone changed the original layout, too, and vice versa.
---
 include/fiction/layouts/clocked_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..db3ac13 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,7 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From 1115c4e463b783b92996f7ef57869c6f7085e2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 10/14] fix: compare clocking scheme names by their extent

is_clocking_scheme() passed on the character pointer of the given string view, i.e., compared everything up to the next
null character, which is not part of the view and does not even have to exist.
---
 include/fiction/layouts/clocked_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index db3ac13..73e0f20 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -178,7 +178,7 @@ class clocked_layout : public CoordinateLayout
      */
     [[nodiscard]] bool is_clocking_scheme(const std::string_view& name) const noexcept
     {
-        return *strg->clocking == name.data();
+        return strg->clocking->name == name;
     }
     /**
      * Returns a copy of the stored clocking scheme object.
-- 
2.43.0


From b6e20914355bdda9284c1421de3ae9e50f4e0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 11/14] fix: truth tables of less-than-or-equal and
 greater-than-or-equal

The literals 0x11 and 0x13 are the decimal numbers 11 and 13 written with a
hexadecimal prefix. As truth tables over two variables they lose their fifth
bit and denote NOR and the negation of the second variable instead of <= and >=.
---
 include/fiction/utils/truth_table_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/truth_table_utils.hpp b/include/fiction/utils/truth_table_utils.hpp
index 1ec2733..406df2a 100644
--- a/include/fiction/utils/truth_table_utils.hpp
+++ b/include/fiction/utils/truth_table_utils.hpp
@@ -166,7 +166,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_le_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x11;
+    constexpr const uint64_t lit = 0xb;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -180,7 +180,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_ge_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x13;
+    constexpr const uint64_t lit = 0xd;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
-- 
2.43.0


From 0d8091b66ff5d721358dfb66e092da294e4a35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 12/14] fix: port lists of the Bestagon wires and inverters

One pair of braces too many made the two port lists of a wire or an inverter be
read as the input and output sets of a single one, with a default-constructed
(northern) direction among them, e.g. {N, SW} -> {NW, SW} for the straight wire
instead of {} -> {SW} and {NW} -> {SW}.
---
 .../technology/sidb_bestagon_library.hpp      | 36 +++++++++----------
 .../sidb_skeleton_bestagon_library.hpp        | 18 +++++-----
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/fiction/technology/sidb_bestagon_library.hpp b/include/fiction/technology/sidb_bestagon_library.hpp
index e30a430..f8ff796 100644
--- a/include/fiction/technology/sidb_bestagon_library.hpp
+++ b/include/fiction/technology/sidb_bestagon_library.hpp
@@ -183,17 +183,17 @@ class sidb_bestagon_library : public fcn_gate_library<sidb_technology, 60, 46>
     {
         static const gate_ports<port_direction> ports{{// wires
                                                        {STRAIGHT_WIRE,
-                                                        {{{{}, {port_direction(port_direction::cardinal::SOUTH_WEST)}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_WEST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_WEST)}}}}}},
+                                                        {{{}, {port_direction(port_direction::cardinal::SOUTH_WEST)}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_WEST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_WEST)}}}},
                                                        {MIRRORED_STRAIGHT_WIRE,
-                                                        {{{{port_direction(port_direction::cardinal::NORTH_EAST)}, {}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_EAST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_EAST)}}}}}},
+                                                        {{{port_direction(port_direction::cardinal::NORTH_EAST)}, {}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_EAST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_EAST)}}}},
                                                        {DIAGONAL_WIRE,
-                                                        {{{{port_direction(port_direction::cardinal::NORTH_WEST)}, {}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_WEST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_EAST)}}}}}},
+                                                        {{{port_direction(port_direction::cardinal::NORTH_WEST)}, {}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_WEST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_EAST)}}}},
                                                        {MIRRORED_DIAGONAL_WIRE,
                                                         {{{{port_direction(port_direction::cardinal::NORTH_EAST)},
                                                            {port_direction(port_direction::cardinal::SOUTH_WEST)}}}}},
@@ -209,17 +209,17 @@ class sidb_bestagon_library : public fcn_gate_library<sidb_technology, 60, 46>
                                                             port_direction(port_direction::cardinal::SOUTH_WEST)}}}}},
                                                        // inverters
                                                        {STRAIGHT_INVERTER,
-                                                        {{{{}, {port_direction(port_direction::cardinal::SOUTH_WEST)}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_WEST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_WEST)}}}}}},
+                                                        {{{}, {port_direction(port_direction::cardinal::SOUTH_WEST)}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_WEST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_WEST)}}}},
                                                        {MIRRORED_STRAIGHT_INVERTER,
-                                                        {{{{port_direction(port_direction::cardinal::NORTH_EAST)}, {}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_EAST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_EAST)}}}}}},
+                                                        {{{port_direction(port_direction::cardinal::NORTH_EAST)}, {}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_EAST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_EAST)}}}},
                                                        {DIAGONAL_INVERTER,
-                                                        {{{{port_direction(port_direction::cardinal::NORTH_WEST)}, {}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_WEST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_EAST)}}}}}},
+                                                        {{{port_direction(port_direction::cardinal::NORTH_WEST)}, {}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_WEST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_EAST)}}}},
                                                        {MIRRORED_DIAGONAL_INVERTER,
                                                         {{{{port_direction(port_direction::cardinal::NORTH_EAST)},
                                                            {port_direction(port_direction::cardinal::SOUTH_WEST)}}}}},
diff --git a/include/fiction/technology/sidb_skeleton_bestagon_library.hpp b/include/fiction/technology/sidb_skeleton_bestagon_library.hpp
index 64843ac..24214a3 100644
--- a/include/fiction/technology/sidb_skeleton_bestagon_library.hpp
+++ b/include/fiction/technology/sidb_skeleton_bestagon_library.hpp
@@ -61,17 +61,17 @@ class sidb_skeleton_bestagon_library
     static gate_ports<port_direction> get_gate_ports() noexcept
     {
         static const gate_ports<port_direction> ports{{{STRAIGHT_WIRE,
-                                                        {{{{}, {port_direction(port_direction::cardinal::SOUTH_WEST)}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_WEST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_WEST)}}}}}},
+                                                        {{{}, {port_direction(port_direction::cardinal::SOUTH_WEST)}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_WEST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_WEST)}}}},
                                                        {MIRRORED_STRAIGHT_WIRE,
-                                                        {{{{port_direction(port_direction::cardinal::NORTH_EAST)}, {}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_EAST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_EAST)}}}}}},
+                                                        {{{port_direction(port_direction::cardinal::NORTH_EAST)}, {}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_EAST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_EAST)}}}},
                                                        {DIAGONAL_WIRE,
-                                                        {{{{port_direction(port_direction::cardinal::NORTH_WEST)}, {}},
-                                                          {{{port_direction(port_direction::cardinal::NORTH_WEST)},
-                                                            {port_direction(port_direction::cardinal::SOUTH_EAST)}}}}}},
+                                                        {{{port_direction(port_direction::cardinal::NORTH_WEST)}, {}},
+                                                         {{port_direction(port_direction::cardinal::NORTH_WEST)},
+                                                          {port_direction(port_direction::cardinal::SOUTH_EAST)}}}},
                                                        {MIRRORED_DIAGONAL_WIRE,
                                                         {{{{port_direction(port_direction::cardinal::NORTH_EAST)},
                                                            {port_direction(port_direction::cardinal::SOUTH_WEST)}}}}},
-- 
2.43.0


From 51ed7948c0ee44fd29df14a244963e2e3e9a86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 13/14] fix: compute charge indices of charge distributions
 with exact integer powers

---
 .../charge_distribution_surface.hpp           | 80 ++++++++++++-------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..05b5ed7 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -521,7 +521,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         strg->simulation_parameters        = params;
         strg->charge_index_and_base.second = params.base;
         strg->max_charge_index =
-            static_cast<uint64_t>(std::pow(strg->simulation_parameters.base, this->num_cells())) - 1;
+            power(strg->simulation_parameters.base, this->num_cells()) - 1;
         this->initialize_potential_matrix();
         this->update_local_internal_potential();
         this->recompute_electrostatic_potential_energy();
@@ -629,8 +629,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         assert(cell_to_index(c) != -1 && "dependent cell is not part of the layout");
         strg->dependent_cell   = c;
-        strg->max_charge_index = static_cast<uint64_t>(
-            std::pow(static_cast<double>(strg->simulation_parameters.base), this->num_cells() - 1) - 1);
+        strg->max_charge_index = power(strg->simulation_parameters.base, this->num_cells() - 1) - 1;
         strg->dependent_cell_index = static_cast<uint64_t>(cell_to_index(strg->dependent_cell));
     }
     /**
@@ -645,11 +644,11 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         if (!strg->dependent_cell.is_dead())
         {
             strg->max_charge_index =
-                static_cast<uint64_t>(std::pow(static_cast<double>(base), this->num_cells() - 1) - 1);
+                power(base, this->num_cells() - 1) - 1;
         }
         else
         {
-            strg->max_charge_index = static_cast<uint64_t>(std::pow(static_cast<double>(base), this->num_cells()) - 1);
+            strg->max_charge_index = power(base, this->num_cells()) - 1;
         }
     }
     /**
@@ -1370,7 +1369,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             chargeindex +=
                 static_cast<uint64_t>(charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) +
                                       int8_t{1}) *
-                static_cast<uint64_t>(std::pow(base, this->num_cells() - 1u - counter));
+                power(base, this->num_cells() - 1u - counter);
             counter += 1;
         }
 
@@ -1400,7 +1399,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
                         static_cast<uint64_t>(
                             charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) +
                             int8_t{1}) *
-                        static_cast<uint64_t>(std::pow(3, strg->three_state_cells.size() - counter_sub_layout - 1));
+                        power(3, strg->three_state_cells.size() - counter_sub_layout - 1);
                     counter_sub_layout += 1;
                 }
                 for (const auto& c : strg->sidb_order_without_three_state_cells)
@@ -1411,7 +1410,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
                             static_cast<uint64_t>(
                                 (charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) +
                                  int8_t{1})) *
-                            static_cast<uint64_t>(std::pow(2, this->num_cells() - 1 - counter - 1));
+                            power(2, this->num_cells() - 1 - counter - 1);
                         counter += 1;
                     }
                 }
@@ -1423,8 +1422,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
                 {
                     if (c != static_cast<uint64_t>(cell_to_index(strg->dependent_cell)))
                     {
-                        chargeindex += static_cast<uint64_t>((charge_state_to_sign(strg->cell_charge[c]) + 1) *
-                                                             std::pow(base, this->num_cells() - 1 - counter - 1));
+                        chargeindex += static_cast<uint64_t>(charge_state_to_sign(strg->cell_charge[c]) + 1) *
+                                       power(base, this->num_cells() - 1 - counter - 1);
                         counter += 1;
                     }
                 }
@@ -1440,17 +1439,19 @@ class charge_distribution_surface<Lyt, false> : public Lyt
                 for (const auto& c : strg->three_state_cells)
                 {
 
-                    chargeindex_sub_layout += static_cast<uint64_t>(
-                        (charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) + 1) *
-                        std::pow(3, strg->three_state_cells.size() - 1 - counter_sub_layout));
+                    chargeindex_sub_layout +=
+                        static_cast<uint64_t>(
+                            charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) + 1) *
+                        power(3, strg->three_state_cells.size() - 1 - counter_sub_layout);
                     counter_sub_layout += 1;
                 }
                 // iterate through SiDBs that cannot be positively charged
                 for (const auto& c : strg->sidb_order_without_three_state_cells)
                 {
-                    chargeindex += static_cast<uint64_t>(
-                        (charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) + 1) *
-                        std::pow(2, this->num_cells() - 1 - counter));
+                    chargeindex +=
+                        static_cast<uint64_t>(
+                            charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) + 1) *
+                        power(2, this->num_cells() - 1 - counter);
                     counter += 1;
                 }
             }
@@ -1459,9 +1460,10 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             {
                 for (const auto& c : strg->sidb_order)
                 {
-                    chargeindex += static_cast<uint64_t>(
-                        (charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) + 1) *
-                        std::pow(base, this->num_cells() - 1 - counter));
+                    chargeindex +=
+                        static_cast<uint64_t>(
+                            charge_state_to_sign(strg->cell_charge[static_cast<uint64_t>(cell_to_index(c))]) + 1) *
+                        power(base, this->num_cells() - 1 - counter);
                     counter += 1;
                 }
             }
@@ -2197,6 +2199,31 @@ class charge_distribution_surface<Lyt, false> : public Lyt
   private:
     storage strg;
 
+    /**
+     * Integer power. In contrast to `std::pow`, the result is exact even if it exceeds the precision of `double`, e.g.,
+     * \f$3^{34}\f$. It is reduced modulo \f$2^{64}\f$ if it does not fit 64 bits.
+     *
+     * @param base Base.
+     * @param exponent Exponent.
+     * @return `base` to the power of `exponent`.
+     */
+    [[nodiscard]] static constexpr uint64_t power(uint64_t base, uint64_t exponent) noexcept
+    {
+        uint64_t result = 1;
+
+        for (; exponent > 0; exponent /= 2)
+        {
+            if (exponent % 2 == 1)
+            {
+                result *= base;
+            }
+
+            base *= base;
+        }
+
+        return result;
+    }
+
     /**
      * Initialization function used for the construction of the charge distribution surface.
      *
@@ -2218,11 +2245,9 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         std::ranges::sort(strg->sidb_order);
         this->foreach_cell([this, &cs](const auto&) { strg->cell_charge.push_back(cs); });
 
-        strg->max_charge_index = static_cast<uint64_t>(
-            std::pow(static_cast<double>(strg->simulation_parameters.base), this->num_cells()) - 1);
+        strg->max_charge_index = power(strg->simulation_parameters.base, this->num_cells()) - 1;
         this->charge_distribution_to_index();
-        strg->max_charge_index = static_cast<uint64_t>(
-            std::pow(static_cast<double>(strg->simulation_parameters.base), this->num_cells()) - 1);
+        strg->max_charge_index = power(strg->simulation_parameters.base, this->num_cells()) - 1;
 
         if (configuration == cds_configuration::CHARGE_LOCATION_ONLY)
         {
@@ -2259,15 +2284,14 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             {
 
                 strg->max_charge_index =
-                    static_cast<uint64_t>(std::pow(2, this->num_cells() - 1 - strg->three_state_cells.size()) - 1);
-                strg->max_charge_index_sulayout =
-                    static_cast<uint64_t>(std::pow(3, strg->three_state_cells.size()) - 1);
+                    power(2, this->num_cells() - 1 - strg->three_state_cells.size()) - 1;
+                strg->max_charge_index_sulayout = power(3, strg->three_state_cells.size()) - 1;
             }
         }
         else
         {
-            strg->max_charge_index          = static_cast<uint64_t>(std::pow(3, this->num_cells()) - 1);
-            strg->max_charge_index_sulayout = static_cast<uint64_t>(std::pow(3, strg->three_state_cells.size()) - 1);
+            strg->max_charge_index          = power(3, this->num_cells()) - 1;
+            strg->max_charge_index_sulayout = power(3, strg->three_state_cells.size()) - 1;
         }
         if (strg->max_charge_index == 0)
         {
-- 
2.43.0


From 4f036809cb823b2ad478935c434ec369c96f3620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 14/14] fix: copy the underlying layout when assigning charge
 distribution surfaces

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 05b5ed7..525e55c 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0

