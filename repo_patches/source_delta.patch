From c6406a6f430d5caa0666b1762c97eb1a4b0f1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 1/5] fix: String: do not pass negative char values to
 std::toupper

Passing a value, which is neither representable as unsigned char nor EOF, is undefined behaviour.
---
 include/mimic++/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index 2656fdc..f3af18c 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -418,7 +418,7 @@ struct mimicpp::string_case_fold_converter<char>
 						// see notes of https://en.cppreference.com/w/cpp/string/byte/toupper
 						// This approach will fail, if str actually contains an utf8-encoded string.
 						return static_cast<char>(
-							static_cast<unsigned char>(std::toupper(c)));
+							std::toupper(static_cast<unsigned char>(c)));
 					});
 	}
 };
-- 
2.43.0


From f5dc55f59007243dfd04d0abdac823ca678bb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 2/5] fix: Matcher: each_element and any_element do not move
 from lvalue matchers

The given matcher was cast to an rvalue, regardless of its actual value category.
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..58459ed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0


From 5e1106a08476a047730a301bccc1441ba762f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 3/5] fix: Expectation: move-assignment of ScopedExpectation
 may report the replaced expectation by throwing

---
 include/mimic++/Expectation.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..95abeee 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -698,9 +698,17 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator, which removes the previously owned expectation and checks, whether it's satisfied.
+		 * \throws In cases of an unsatisfied expectation, the assignment is expected to throw or terminate otherwise.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other) noexcept(false)
+		{
+			// the previously owned expectation must be destroyed by our own dtor, because std::unique_ptr's assignment mustn't throw.
+			ScopedExpectation previous{std::move(other)};
+			m_Inner.swap(previous.m_Inner);
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From 72bbba3f861634e6ce6b97b65fe14ceee7bb41cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 4/5] fix: Printer: print null character pointers instead of
 dereferencing them

---
 include/mimic++/Printer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index fb21304..1a56799 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -478,6 +478,15 @@ namespace mimicpp::detail
 		template <std::common_reference_with<String> T, print_iterator OutIter>
 		static OutIter print(OutIter out, T&& str)
 		{
+			if constexpr (std::is_pointer_v<String>)
+			{
+				// null is a valid pointer value, but not a valid string
+				if (!str)
+				{
+					return Printer<const void*>::print(std::move(out), nullptr);
+				}
+			}
+
 			if constexpr (constexpr auto prefix = string_literal_prefix<string_char_t<String>>;
 				!std::ranges::empty(prefix))
 			{
-- 
2.43.0


From 6c7e3fc2a34e8eb5d54a39701d5a3d6abd03c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 5/5] fix: Printer: do not print self-containing ranges
 element-wise

---
 include/mimic++/Printer.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 1a56799..043e295 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -13,6 +13,7 @@
 #include "mimic++/TypeTraits.hpp"
 #include "mimic++/Utility.hpp"
 
+#include <concepts>
 #include <cstdint>
 #include <functional>
 #include <iterator>
@@ -22,6 +23,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <utility>
 
 #ifndef MIMICPP_CONFIG_USE_FMT
@@ -266,7 +268,15 @@ namespace mimicpp::detail
 			std::forward<T>(value));
 	}
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	// Ranges, whose elements are of the very same type (e.g. std::filesystem::path), must not be printed element-wise,
+	// because that may never come to an end.
+	template <typename Range>
+	concept printable_range = std::ranges::forward_range<Range>
+							&& !std::same_as<
+								std::remove_cvref_t<Range>,
+								std::remove_cvref_t<std::ranges::range_reference_t<Range>>>;
+
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,
@@ -332,7 +342,7 @@ namespace mimicpp::detail
 		}
 	};
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,  // NOLINT(cppcoreguidelines-missing-std-forward)
-- 
2.43.0

