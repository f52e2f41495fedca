From edd42bbab419e601eb235f41843ebe588e68822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 01/53] fix: cons* no longer modifies its argument list

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 898916c..d6bae3b 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -271,7 +271,7 @@ namespace meevax::inline kernel
       { "not-pair?",                     [](let const& xs) { return make<bool>(not car(xs).is<pair>()); } },
       { "cons",                          [](let const& xs) { return cons(car(xs), cadr(xs)); } },
       { "xcons",                         [](let const& xs) { return cons(cadr(xs), car(xs)); } },
-      { "cons*",                         [](let const& xs) { if (xs.is<null>()) { throw error(make<string>("procedure cons* takes at least one arugments, but got"), xs); } else if (cdr(xs).is<null>()) { return car(xs); } else { auto node = xs.get(); while (not cdr(node->second).is<null>()) { node = node->second.get(); } node->second = car(node->second); return xs; } } },
+      { "cons*",                         [](let const& xs) { if (xs.is<null>()) { throw error(make<string>("procedure cons* takes at least one arugments, but got"), xs); } auto cons_star = [](auto cons_star, let const& xs) -> object { return cdr(xs).is<null>() ? car(xs) : cons(car(xs), cons_star(cons_star, cdr(xs))); }; return cons_star(cons_star, xs); } },
       { "car",                           [](let const& xs) { return car(car(xs)); } },
       { "cdr",                           [](let const& xs) { return cdr(car(xs)); } },
       { "caar",                          [](let const& xs) { return caar(car(xs)); } },
-- 
2.43.0


From 8e31ccb9e158746837b1f3e0ec5b96c8be986e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 02/53] =?UTF-8?q?fix:=20string-ci=3D=3F=20string-ci>=3F=20?=
 =?UTF-8?q?string-ci<=3D=3F=20string-ci>=3D=3F=20compare=20lexicographical?=
 =?UTF-8?q?ly?=

---
 src/kernel/boot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d6bae3b..4c3284c 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -356,11 +356,11 @@ namespace meevax::inline kernel
       { "string>?",                      [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >  b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string<=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() <= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string>=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::equal(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s2.as<string>().characters.begin(), s2.as<string>().characters.end(), s1.as<string>().characters.begin(), s1.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return std::lexicographical_compare(s2.as<string>().characters.begin(), s2.as<string>().characters.end(), s1.as<string>().characters.begin(), s1.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-append",                 [](let const& xs) { let s = make<string>(); for (let const& x : xs | as_proper_list) { s.as<string>().characters.insert(s.as<string>().characters.end(), x.as<string>().characters.begin(), x.as<string>().characters.end()); } return s; } },
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
-- 
2.43.0


From 3fedbbacd51dd5773336a5e0fa42bec8f79d2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:39 +0000
Subject: [PATCH 03/53] fix: vector-ref, vector-set! and the homogeneous vector
 accessors check the index

---
 src/kernel/boot.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 4c3284c..df47689 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -389,8 +389,8 @@ namespace meevax::inline kernel
       { "vector",                        [](let const& xs) { return make<vector>(xs | as_proper_list); } },
       { "make-vector",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(exact_integer_cast<std::size_t>(car(xs)), unspecified); case 2: return make<vector>(exact_integer_cast<std::size_t>(car(xs)), cadr(xs)); default: throw error(make<string>("procedure make-vector takes one or two arugments, but got"), xs); } } },
       { "vector-length",                 [](let const& xs) { return make<small_integer>(static_cast<small_integer>(car(xs).as<vector>().objects.size())); } },
-      { "vector-ref",                    [](let const& xs) { return car(xs).as<vector>().objects[exact_integer_cast<std::size_t>(cadr(xs))]; } },
-      { "vector-set!",                   [](let const& xs) { car(xs).as_mutable<vector>().objects[exact_integer_cast<std::size_t>(cadr(xs))] = caddr(xs); return unspecified; } },
+      { "vector-ref",                    [](let const& xs) { return car(xs).as<vector>().objects.at(exact_integer_cast<std::size_t>(cadr(xs))); } },
+      { "vector-set!",                   [](let const& xs) { car(xs).as_mutable<vector>().objects.at(exact_integer_cast<std::size_t>(cadr(xs))) = caddr(xs); return unspecified; } },
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
@@ -405,8 +405,8 @@ namespace meevax::inline kernel
       { "make-" #TAG "vector",           [](let const& xs) { switch (length(xs)) { case 1: return make<TAG##vector>(static_cast<TAG##vector::values_type::value_type>(0), exact_integer_cast<std::size_t>(car(xs))); case 2: return make<TAG##vector>(TAG##vector::input_cast(cadr(xs)), exact_integer_cast<std::size_t>(car(xs))); default: throw error(make<string>("procedure make-" #TAG "vector takes one or two arguments, but got"), xs); } } }, \
       { #TAG "vector",                   [](let const& xs) { return make<TAG##vector>(xs | as_proper_list); } }, \
       { #TAG "vector-length",            [](let const& xs) { return make<small_integer>(static_cast<small_integer>(car(xs).as<TAG##vector>().values.size())); } }, \
-      { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))]); } }, \
-      { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
+      { #TAG "vector-ref",               [](let const& xs) { auto const& values = car(xs).as<TAG##vector>().values; if (auto k = exact_integer_cast<std::size_t>(cadr(xs)); k < values.size()) { return TAG##vector::output_cast(values[k]); } else { throw error(make<string>("procedure " #TAG "vector-ref takes a valid index, but got"), xs); } } }, \
+      { #TAG "vector-set!",              [](let const& xs) { auto & values = car(xs).as_mutable<TAG##vector>().values; if (auto k = exact_integer_cast<std::size_t>(cadr(xs)); k < values.size()) { values[k] = TAG##vector::input_cast(caddr(xs)); return unspecified; } else { throw error(make<string>("procedure " #TAG "vector-set! takes a valid index, but got"), xs); } } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
       { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
-- 
2.43.0


From 71c0db855f7c33f96126d0c2d86c0d680aa29ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 04/53] fix: string-copy! and vector-copy! copy overlapping
 ranges correctly

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index df47689..677b7e8 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -365,7 +365,7 @@ namespace meevax::inline kernel
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
       { "string-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<string>(car(xs).as<string>().characters.begin(), car(xs).as<string>().characters.end()); case 2: return make<string>(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end()); case 3: return make<string>(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure string-copy takes one to three arugments, but got"), xs); } } },
-      { "string-copy!",                  [](let const& xs) { car(xs).as<string>().characters.reserve(car(xs).as<string>().characters.size() + caddr(xs).as<string>().characters.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<string>().characters.begin(), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<string>().characters.end(), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure string-copy takes three to five arugments, but got"), xs); } } },
+      { "string-copy!",                  [](let const& xs) { car(xs).as<string>().characters.reserve(car(xs).as<string>().characters.size() + caddr(xs).as<string>().characters.size()); auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto & to = car(xs).as_mutable<string>().characters; auto const& from = caddr(xs).as<string>().characters; if (at <= begin) { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } else { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + (end - begin))); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<string>().characters.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<string>().characters.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure string-copy takes three to five arugments, but got"), xs); } } },
       { "string-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<string>().characters.begin(), car(xs).as_mutable<string>().characters.end(), cadr(xs).as<character>()); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<string>().characters.end(), cadr(xs).as<character>()); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<string>().characters.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs).as<character>()); return unspecified; default: throw error(make<string>("procedure string-fill! takes one to three arugments, but got"), xs); } } },
 
       { "symbol?",                       [](let const& xs) { return make<bool>(car(xs).is<symbol>()); } },
@@ -396,7 +396,7 @@ namespace meevax::inline kernel
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
-      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
+      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto & to = car(xs).as_mutable<vector>().objects; auto const& from = caddr(xs).as<vector>().objects; if (at <= begin) { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } else { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + (end - begin))); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<vector>().objects.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<vector>().objects.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
       { "vector-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<vector>().objects.begin(), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs)); return unspecified; default: return unspecified; } } },
 
-- 
2.43.0


From 014840b392f2449b2baf9a332681e7fec7916698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 05/53] fix: bytevector-append and the homogeneous vector
 appends take any number of arguments

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 677b7e8..d91a068 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -409,7 +409,7 @@ namespace meevax::inline kernel
       { #TAG "vector-set!",              [](let const& xs) { auto & values = car(xs).as_mutable<TAG##vector>().values; if (auto k = exact_integer_cast<std::size_t>(cadr(xs)); k < values.size()) { values[k] = TAG##vector::input_cast(caddr(xs)); return unspecified; } else { throw error(make<string>("procedure " #TAG "vector-set! takes a valid index, but got"), xs); } } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
-      { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
+      { #TAG "vector-append",            [](let const& xs) { auto size = std::size_t(0); for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const v = make<TAG##vector>(size); auto at = std::size_t(0); for (let const& x : xs | as_proper_list) { auto const& values = x.as<TAG##vector>().values; v.as<TAG##vector>().values[std::slice(at, values.size(), 1)] = values; at += values.size(); } return v; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
 
-- 
2.43.0


From 1203cb60802d82c0dba81f44d31b97988863762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 06/53] fix: string->vector and string->utf8 respect their
 start and end arguments

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d91a068..3787a66 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -394,7 +394,7 @@ namespace meevax::inline kernel
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-      { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
+      { "string->vector",                [](let const& xs) { let v = make<vector>(); auto push_back = [&](auto const& c) { v.as<vector>().objects.push_back(make<character>(c)); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<string>().characters.begin(), car(xs).as<string>().characters.end(), push_back); return v; case 2: std::for_each(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<string>().characters.end(), push_back); return v; case 3: std::for_each(std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<string>().characters.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return v; default: throw error(make<string>("procedure string->vector takes one to three arugments, but got"), xs); } } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
       { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto & to = car(xs).as_mutable<vector>().objects; auto const& from = caddr(xs).as<vector>().objects; if (at <= begin) { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } else { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + (end - begin))); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<vector>().objects.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<vector>().objects.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
@@ -418,7 +418,7 @@ namespace meevax::inline kernel
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
       { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
-      { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
+      { "string->u8vector",              [](let const& xs) { auto convert = [](auto begin, auto end) { auto s = string(begin, end).utf8(); return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; auto const& characters = car(xs).as<string>().characters; switch (length(xs)) { case 1: return convert(characters.begin(), characters.end()); case 2: return convert(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), characters.end()); case 3: return convert(std::next(characters.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(characters.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure string->u8vector takes one to three arguments, but got"), xs); } } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
       { "put-string",                    [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<string>()); return unspecified; } },
-- 
2.43.0


From 9cf1abc6d2842697796fc133dac22f045ac1abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 07/53] fix: equal? distinguishes homogeneous vectors of
 different lengths

---
 include/meevax/kernel/homogeneous_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 99eeeae..67f5306 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       return std::all_of(std::begin(xs), std::end(xs), [](auto x) { return x; });
     };
 
-    return check(a.values == b.values);
+    return a.values.size() == b.values.size() and check(a.values == b.values);
   }
 
   #define FOR_EACH_BITS(F) F(8) F(16) F(32) F(64)
-- 
2.43.0


From 632090b649a4acee5e6f96819e7c9e3efd80d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 08/53] fix: floor, ceiling, truncate and round are exact on
 ratios and round ties to even

---
 src/kernel/number/nearest_integer.cpp | 46 +++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number/nearest_integer.cpp b/src/kernel/number/nearest_integer.cpp
index 9d2e5d7..342321d 100644
--- a/src/kernel/number/nearest_integer.cpp
+++ b/src/kernel/number/nearest_integer.cpp
@@ -18,6 +18,48 @@
 
 namespace meevax::inline kernel::number
 {
+  auto floor_quotient(large_integer const& n, large_integer const& d) -> large_integer
+  {
+    large_integer q {};
+    mpz_fdiv_q(q.value, n.value, d.value);
+    return q;
+  }
+
+  auto floor_ratio(ratio const& x) -> large_integer
+  {
+    return floor_quotient(x.numerator(), x.denominator());
+  }
+
+  auto ceiling_ratio(ratio const& x) -> large_integer
+  {
+    large_integer q {};
+    mpz_cdiv_q(q.value, x.numerator().value, x.denominator().value);
+    return q;
+  }
+
+  auto truncate_ratio(ratio const& x) -> large_integer
+  {
+    large_integer q {};
+    mpz_tdiv_q(q.value, x.numerator().value, x.denominator().value);
+    return q;
+  }
+
+  auto round_ratio(ratio const& x) -> large_integer // R7RS 6.2.6. Round to even when x is halfway between two integers.
+  {
+    auto const n = x.numerator();
+    auto const d = x.denominator();
+    auto const q = floor_quotient(n, d);
+
+    if (auto const fraction = 2_i64 * (n - q * d); fraction == d)
+    {
+      return q % 2_i64 == 0_i64 ? q : q + 1_i64;
+    }
+    else
+    {
+      return fraction < d ? q : q + 1_i64;
+    }
+  }
+
   #define DEFINE(NAME, CMATH)                                                  \
   auto NAME(object const& x) -> object                                         \
   {                                                                            \
@@ -29,7 +71,7 @@ namespace meevax::inline kernel::number
       }                                                                        \
       else if constexpr (std::is_same_v<T, ratio>)                             \
       {                                                                        \
-        return large_integer(CMATH(static_cast<double>(x)));                   \
+        return NAME##_ratio(x);                                                \
       }                                                                        \
       else if constexpr (std::is_same_v<T, large_integer> or std::is_integral_v<T>) \
       {                                                                        \
@@ -48,5 +90,5 @@ namespace meevax::inline kernel::number
   DEFINE(floor,    std::floor)
   DEFINE(ceiling,  std::ceil)
   DEFINE(truncate, std::trunc)
-  DEFINE(round,    std::round)
+  DEFINE(round,    std::nearbyint)
 } // namespace meevax::kernel::number
-- 
2.43.0


From 188658cf43029ce20b9982acc22fab5c82d55a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 09/53] fix: expt is exact for exact bases and exact integer
 exponents, sqrt of a non-square large integer is inexact

---
 src/kernel/number/power.cpp | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 0953a43..d617ec4 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -43,25 +43,42 @@ namespace meevax::inline kernel::number
         return complex(make<double>(z.real()),
                        make<double>(z.imag()));
       }
-      else if constexpr (std::is_same_v<T, widen_integer> and
-                         std::is_same_v<U, widen_integer>)
+      else if constexpr (not std::is_floating_point_v<T> and
+                         (std::is_same_v<U, widen_integer> or
+                          std::is_same_v<U, large_integer>))
       {
-        if (auto result = std::pow(x, y); std::numeric_limits<small_integer>::min() <= result and result <= std::numeric_limits<small_integer>::max())
+        auto const base = ratio(x);
+
+        auto const exponent = y < 0_i64 ? large_integer(0_i64 - y) : large_integer(y);
+
+        if (not mpz_fits_ulong_p(exponent.value))
         {
-          return make<small_integer>(static_cast<small_integer>(result));
+          throw error(make<string>("too large exponent"), make<large_integer>(exponent));
+        }
+
+        auto power = [&](large_integer const& b)
+        {
+          large_integer result {};
+          mpz_pow_ui(result.value, b.value, static_cast<unsigned long>(exponent));
+          return result;
+        };
+
+        auto const n = power(base.numerator());
+        auto const d = power(base.denominator());
+
+        if (y < 0_i64 and n == 0_i64)
+        {
+          throw error(make<string>("division by zero"), unit);
+        }
+        else if (auto const result = y < 0_i64 ? ratio(d, n) : ratio(n, d); result.denominator() == 1_i64 and mpz_fits_sint_p(result.numerator().value))
+        {
+          return make<small_integer>(static_cast<small_integer>(result.numerator()));
         }
         else
         {
-          return make<large_integer>(result);
+          return canonicalize(result);
         }
       }
-      else if constexpr (std::is_same_v<T, large_integer> and
-                         std::is_same_v<U, large_integer>)
-      {
-        large_integer result {};
-        mpz_pow_ui(result.value, x.value, static_cast<unsigned long>(y));
-        return result;
-      }
       else
       {
         return std::pow(static_cast<double>(std::forward<decltype(x)>(x)),
@@ -104,7 +121,7 @@ namespace meevax::inline kernel::number
           {
             auto const [s, r] = x.sqrt();
 
-            return r == 0_i64 ? make<large_integer>(s) : make<large_integer>(std::sqrt(static_cast<double>(x)));
+            return r == 0_i64 ? make<large_integer>(s) : make<double>(std::sqrt(static_cast<double>(x)));
           }
           else
           {
-- 
2.43.0


From b87970b4cd120095081151bf7f40ca48966a0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 10/53] fix: exact division by zero raises an error

---
 src/kernel/number.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 78f6b73..0cf6d86 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -316,12 +316,23 @@ namespace meevax::inline kernel
     return apply_to<complex_numbers>(std::multiplies(), x, y);
   }
 
+  template <typename T>
+  inline constexpr auto is_exact_real = std::is_same_v<T, widen_integer> or std::is_same_v<T, large_integer> or std::is_same_v<T, ratio>;
+
   auto operator /(object const& x, object const& y) -> object
   {
     using namespace number;
 
     auto f = []<typename T, typename U>(T const& x, U const& y)
     {
+      if constexpr (is_exact_real<T> and is_exact_real<U>)
+      {
+        if (y == 0_i64)
+        {
+          throw error(make<string>("division by zero"), unit);
+        }
+      }
+
       if constexpr (std::is_same_v<T, widen_integer> and
                     std::is_same_v<U, widen_integer>)
       {
@@ -348,6 +359,15 @@ namespace meevax::inline kernel
       {
         return std::fmod(x, y);
       }
+      else if constexpr (is_exact_real<T> and is_exact_real<U>)
+      {
+        if (y == 0_i64)
+        {
+          throw error(make<string>("division by zero"), unit);
+        }
+
+        return x % y;
+      }
       else
       {
         return x % y;
@@ -803,7 +823,7 @@ namespace number
 
   auto lcm(object const& x, object const& y) -> object
   {
-    return abs(quotient(x * y, gcd(x, y)));
+    return is_zero(x) or is_zero(y) ? abs(x * y) : abs(quotient(x * y, gcd(x, y)));
   }
 
   auto real(object const& x) -> object
-- 
2.43.0


From 7389ea7f4bf9277167c4aa50ebaed1fc541abdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 11/53] fix: comparing a large integer with NaN does not trap

---
 src/kernel/number.cpp | 48 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 0cf6d86..f9255ec 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -101,24 +101,24 @@ namespace meevax::inline kernel
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
   auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
-  auto operator ==(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
+  auto operator !=(large_integer const& a, float b) -> bool  { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
+  auto operator < (large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
+  auto operator <=(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) <= 0; }
+  auto operator > (large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) >  0; }
+  auto operator >=(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) >= 0; }
 
   auto operator + (large_integer const& a, double b) -> double { return static_cast<double>(a) +  b; }
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
   auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
-  auto operator ==(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
+  auto operator !=(large_integer const& a, double b) -> bool   { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
+  auto operator < (large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
+  auto operator <=(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) <= 0; }
+  auto operator > (large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) >  0; }
+  auto operator >=(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) >= 0; }
 
   auto operator + (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) +  b; }
   auto operator - (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) -  b; }
@@ -199,12 +199,12 @@ namespace meevax::inline kernel
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
   auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
-  auto operator ==(float a, large_integer const& b) -> bool  { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(float a, large_integer const& b) -> bool  { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (float a, large_integer const& b) -> bool  { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(float a, large_integer const& b) -> bool  { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (float a, large_integer const& b) -> bool  { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(float a, large_integer const& b) -> bool  { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
+  auto operator !=(float a, large_integer const& b) -> bool  { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
+  auto operator < (float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
+  auto operator <=(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 <= mpz_cmp_d(b.value, a); }
+  auto operator > (float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 >  mpz_cmp_d(b.value, a); }
+  auto operator >=(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 >= mpz_cmp_d(b.value, a); }
 
   auto operator + (float a, ratio const& b) -> float { return a +  static_cast<float>(b); }
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
@@ -230,12 +230,12 @@ namespace meevax::inline kernel
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
   auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
-  auto operator ==(double a, large_integer const& b) -> bool   { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(double a, large_integer const& b) -> bool   { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (double a, large_integer const& b) -> bool   { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(double a, large_integer const& b) -> bool   { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (double a, large_integer const& b) -> bool   { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(double a, large_integer const& b) -> bool   { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
+  auto operator !=(double a, large_integer const& b) -> bool   { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
+  auto operator < (double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
+  auto operator <=(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 <= mpz_cmp_d(b.value, a); }
+  auto operator > (double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 >  mpz_cmp_d(b.value, a); }
+  auto operator >=(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 >= mpz_cmp_d(b.value, a); }
 
   auto operator + (double a, ratio const& b) -> double { return a +  static_cast<double>(b); }
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
-- 
2.43.0


From 494c68811ef47abec39612c2cf2c73bccb57b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 12/53] fix: exact raises an error for numbers that are not
 finite

---
 src/kernel/number.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index f9255ec..3ff3cba 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -562,6 +562,11 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
+        if (not std::isfinite(x))
+        {
+          throw error(make<string>("no exact number is equal to a number that is not finite"), make<double>(x));
+        }
+
         return ratio(std::forward<decltype(x)>(x));
       }
       else
-- 
2.43.0


From fc979a9599dcee8c84cb899df0ff31df7a7139dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 13/53] fix: finite? is false for NaN

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 3ff3cba..cd88a17 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -703,7 +703,7 @@ namespace number
 
   auto is_finite(object const& x) -> bool
   {
-    return not is_infinite(x);
+    return not is_infinite(x) and not is_nan(x);
   }
 
   auto is_infinite(object const& x) -> bool
-- 
2.43.0


From 2ce34cd84d4ca95bea02a34c0fac6c26f017f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 14/53] fix: angle and magnitude of real numbers

---
 src/kernel/number.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index cd88a17..db6b1d7 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -867,24 +867,12 @@ namespace number
 
   auto magnitude(object const& x) -> object
   {
-    auto f = []<typename T>(T const& x)
-    {
-      if constexpr (std::is_same_v<T, complex>)
-      {
-        return sqrt(x.real() * x.real() + x.imag() * x.imag());
-      }
-      else
-      {
-        return x;
-      }
-    };
-
-    return apply_to<complex_number>(f, x);
+    return abs(x);
   }
 
   auto angle(object const& x) -> object
   {
-    return atan2(real(x), imag(x));
+    return atan2(imag(x), real(x));
   }
 
   auto numerator(object const& x) -> object
-- 
2.43.0


From f58355e1cc30dea0a2d30b931a74585a20b3aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 15/53] fix: remainder and modulo of a large integer or ratio
 and an inexact number truncate the quotient

---
 src/kernel/number.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index db6b1d7..be467df 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (large_integer const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, float b) -> bool  { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
   auto operator < (large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
@@ -112,7 +112,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (large_integer const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, double b) -> bool   { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
   auto operator < (large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
@@ -167,7 +167,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (ratio const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (ratio const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (ratio const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
   auto operator < (ratio const& a, float b) -> bool  { return static_cast<float>(a) <  b; }
@@ -179,7 +179,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (ratio const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (ratio const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (ratio const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
   auto operator < (ratio const& a, double b) -> bool   { return static_cast<double>(a) <  b; }
@@ -198,7 +198,7 @@ namespace meevax::inline kernel
   auto operator - (float a, large_integer const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, large_integer const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(float a, large_integer const& b) -> bool  { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
   auto operator < (float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
@@ -210,7 +210,7 @@ namespace meevax::inline kernel
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, ratio const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, ratio const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, ratio const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
   auto operator < (float a, ratio const& b) -> bool  { return a <  static_cast<float>(b); }
@@ -229,7 +229,7 @@ namespace meevax::inline kernel
   auto operator - (double a, large_integer const& b) -> double { return a - static_cast<double>(b); }
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
-  auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, large_integer const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(double a, large_integer const& b) -> bool   { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
   auto operator < (double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
@@ -241,7 +241,7 @@ namespace meevax::inline kernel
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
   auto operator * (double a, ratio const& b) -> double { return a *  static_cast<double>(b); }
   auto operator / (double a, ratio const& b) -> double { return a /  static_cast<double>(b); }
-  auto operator % (double a, ratio const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
   auto operator < (double a, ratio const& b) -> bool   { return a <  static_cast<double>(b); }
-- 
2.43.0


From c6384ce4485040bb7b53e5740ecfd97bc2e61176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 16/53] fix: gcd and lcm of one negative number are not
 negative

---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 3787a66..e3fab59 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -213,8 +213,8 @@ namespace meevax::inline kernel
       { "quotient",                      [](let const& xs) { return quotient(car(xs), cadr(xs)); } },
       { "remainder",                     [](let const& xs) { return remainder(car(xs), cadr(xs)); } },
       { "modulo",                        [](let const& xs) { return modulo(car(xs), cadr(xs)); } },
-      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
-      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
+      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
+      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
       { "numerator",                     [](let const& xs) { return numerator(car(xs)); } },
       { "denominator",                   [](let const& xs) { return denominator(car(xs)); } },
       { "floor",                         [](let const& xs) { return floor(car(xs)); } },
-- 
2.43.0


From e82b217c02232e7e18ec868c769f2741dc60b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 17/53] fix: bit-shift by more than the width of a word

---
 src/kernel/number/bitwise.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number/bitwise.cpp b/src/kernel/number/bitwise.cpp
index 0179196..a406b2b 100644
--- a/src/kernel/number/bitwise.cpp
+++ b/src/kernel/number/bitwise.cpp
@@ -88,7 +88,7 @@ namespace meevax::inline kernel::number
         if (c < 0)
         {
           auto i = large_integer();
-          mpz_fdiv_q_2exp(i.value, x.value, -c);
+          mpz_fdiv_q_2exp(i.value, x.value, -static_cast<widen_integer>(c));
           return i;
         }
         else if (c == 0)
@@ -106,7 +106,7 @@ namespace meevax::inline kernel::number
       {
         if (c < 0)
         {
-          return canonicalize(x >> -c);
+          return canonicalize(x >> std::min(-static_cast<widen_integer>(c), 63_i64));
         }
         else if (c == 0)
         {
-- 
2.43.0


From dd7bcec80651bee8a18d774687680510721d2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 18/53] fix: number->string of ratios, complex and inexact
 numbers reads back as the same number

---
 src/kernel/number.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index be467df..ae17c78 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -15,6 +15,7 @@
 */
 
 #include <charconv>
+#include <cstring> // std::strcat, std::strpbrk
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/ghost.hpp>
 #include <meevax/kernel/number.hpp>
@@ -925,10 +926,19 @@ namespace number
 
         default:
         case 10:
+          if (std::isnan(x))
+          {
+            return string("+nan.0");
+          }
+          else if (std::isinf(x))
+          {
+            return string(0 < x ? "+inf.0" : "-inf.0");
+          }
+          else
           {
             char buffer[48] = {};
-            std::to_chars(buffer, buffer + sizeof(buffer), x, std::chars_format::general);
-            return string(buffer);
+            std::to_chars(buffer, buffer + sizeof(buffer) - 2, x, std::chars_format::general);
+            return string(std::strpbrk(buffer, ".e") ? buffer : std::strcat(buffer, ".0"));
           }
 
         case 16:
@@ -941,7 +951,7 @@ namespace number
       }
       else if constexpr (std::is_same_v<T, widen_integer>)
       {
-        char buffer[33] = {};
+        char buffer[66] = {};
         std::to_chars(buffer, buffer + sizeof(buffer), x, radix);
         return string(buffer);
       }
@@ -949,9 +959,15 @@ namespace number
       {
         return string(std::unique_ptr<char, gmp_free>(mpz_get_str(nullptr, radix, x.value)).get());
       }
+      else if constexpr (std::is_same_v<T, ratio>)
+      {
+        return string(std::unique_ptr<char, gmp_free>(mpq_get_str(nullptr, radix, x.value)).get());
+      }
       else
       {
-        return string("TODO");
+        auto const re = number_to_string(x.real(), radix).template as<string>().utf8();
+        auto const im = number_to_string(x.imag(), radix).template as<string>().utf8();
+        return string(re + (im[0] == '+' or im[0] == '-' ? "" : "+") + im + "i");
       }
     };
 
-- 
2.43.0


From 772a4f00a66d115d6fae9e4661476ae1fdd3b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 19/53] fix: integer? is false for infinities

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index ae17c78..7f59689 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -654,7 +654,7 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
-        return x == std::trunc(x);
+        return std::isfinite(x) and x == std::trunc(x);
       }
       else if constexpr (std::is_same_v<T, ratio>)
       {
-- 
2.43.0


From 3033cb0d354dad58c75ea7522890e9b1cc9bcb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 20/53] fix: exact-integer-square-root of a negative integer
 raises an error

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index e3fab59..da2df23 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -236,7 +236,7 @@ namespace meevax::inline kernel
       { "acosh",                         [](let const& xs) { return acosh(car(xs)); } },
       { "atanh",                         [](let const& xs) { return atanh(car(xs)); } },
       { "sqrt",                          [](let const& xs) { return sqrt(car(xs)); } },
-      { "exact-integer-square-root",     [](let const& xs) { auto sqrt = [](let const& x) { if (x.is<small_integer>()) { return large_integer(x.as<small_integer>()).sqrt(); } else { return x.as<large_integer>().sqrt(); } }; auto&& [s, r] = sqrt(car(xs)); return cons(make<large_integer>(std::forward<decltype(s)>(s)), make<large_integer>(std::forward<decltype(r)>(r))); } },
+      { "exact-integer-square-root",     [](let const& xs) { if (is_negative(car(xs))) { throw error(make<string>("procedure exact-integer-square-root takes a non-negative exact integer, but got"), car(xs)); } auto sqrt = [](let const& x) { if (x.is<small_integer>()) { return large_integer(x.as<small_integer>()).sqrt(); } else { return x.as<large_integer>().sqrt(); } }; auto&& [s, r] = sqrt(car(xs)); return cons(make<large_integer>(std::forward<decltype(s)>(s)), make<large_integer>(std::forward<decltype(r)>(r))); } },
       { "expt",                          [](let const& xs) { return pow(car(xs), cadr(xs)); } },
       { "make-rectangular",              [](let const& xs) { return make<complex>(car(xs), cadr(xs)); } },
       { "make-polar",                    [](let const& xs) { let const& radius = car(xs), angle = cadr(xs); return make<complex>(radius * cos(angle), radius * sin(angle)); } },
-- 
2.43.0


From 1761e7f51b596d825d8d0cfe9698a71a5ab21260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 21/53] fix: share the promise an iterative force chains to

---
 library/srfi-45.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-45.ss b/library/srfi-45.ss
index 5a550fe..3666edb 100644
--- a/library/srfi-45.ss
+++ b/library/srfi-45.ss
@@ -25,7 +25,7 @@
          (define (promise-update! new old)
            (set-car! (cdr old) (promise-done? new))
            (set-cdr! (cdr old) (promise-value new))
-           (set-car! new (cdr old)))
+           (set-cdr! new (cdr old)))
 
          (define (force promise)
            (if (promise-done? promise)
-- 
2.43.0


From 5949185bde165934ed70dae384a1b3119b32e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 22/53] fix: evaluate the initial values of a named let outside
 of its scope

---
 library/r4rs.ss | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index f607d3e..2bc2958 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -188,9 +188,10 @@
            (er-macro-transformer
              (lambda (form rename compare)
                (if (identifier? (cadr form))
-                   `(,(rename 'letrec) ((,(cadr form)
-                                          (,(rename 'lambda) ,(map car (caddr form)) ,@(cdddr form))))
-                                       (,(cadr form) ,@(map cadr (caddr form))))
+                   `((,(rename 'letrec) ((,(cadr form)
+                                           (,(rename 'lambda) ,(map car (caddr form)) ,@(cdddr form))))
+                                        ,(cadr form))
+                     ,@(map cadr (caddr form)))
                    `((,(rename 'lambda) ,(map car (cadr form)) ,@(cddr form))
                      ,@(map cadr (cadr form)))))))
 
-- 
2.43.0


From f7cd7e8bbc7cd5f9ce0f84633b72e32b2df2722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 23/53] fix: run the outstanding after thunks on exit

---
 library/meevax.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 81460e6..65cb8e9 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -43,7 +43,7 @@
 (define-library (meevax continuation)
   (import (only (meevax context) emergency-exit)
           (only (meevax comparator) eq?)
-          (only (meevax core) begin call-with-current-continuation! current define if install lambda)
+          (only (meevax core) begin call-with-current-continuation! current define if install lambda letrec)
           (only (meevax pair) caar car cdar cdr cons pair?)
           (only (meevax list) null?))
 
-- 
2.43.0


From d15f1764bafa814725a32a5445af29c6bf95b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 24/53] fix: wind continuations through the common dynamic
 extent

---
 library/meevax.ss | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 65cb8e9..11a5d30 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -67,20 +67,21 @@
 
          (define (call-with-current-continuation procedure)
            (define (windup! from to)
-             (install-dynamic-extents! from)
+             (define (find-tail xs)
+               (if (eq? xs from)
+                   #t
+                   (if (null? xs)
+                       #f
+                       (find-tail (cdr xs)))))
              (if (eq? from to)
                  #t
-                 (if (null? from)
+                 (if (find-tail to)
                      (begin (windup! from (cdr to))
-                            ((caar to)))
-                     (if (null? to)
-                         (begin ((cdar from))
-                                (windup! (cdr from) to))
-                         (begin ((cdar from))
-                                (windup! (cdr from)
-                                         (cdr to))
-                                ((caar to))))))
-             (install-dynamic-extents! to))
+                            ((caar to))
+                            (install-dynamic-extents! to))
+                     (begin (install-dynamic-extents! (cdr from))
+                            ((cdar from))
+                            (windup! (cdr from) to)))))
            ((lambda (dynamic-extents)
               (call-with-current-continuation!
                 (lambda (continue)
-- 
2.43.0


From 898a9d65213e83e17dd0cf12c87eae0b7ba074dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 25/53] fix: pass any number of values to a continuation

---
 library/r5rs.ss | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/r5rs.ss b/library/r5rs.ss
index 1fd994c..d7f7573 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -2,7 +2,7 @@
   (import (only (meevax continuation) dynamic-wind)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
           (only (meevax environment) environment eval)
-          (scheme r4rs)
+          (rename (scheme r4rs) (call-with-current-continuation call/cc))
           (srfi 149))
 
   (export quote lambda if set! cond case and or let let* letrec begin do delay
@@ -98,6 +98,11 @@
                  (apply consume (cdr vs))
                  (consume vs))))
 
+         (define (call-with-current-continuation procedure)
+           (call/cc (lambda (continue)
+                      (procedure (lambda xs
+                                   (continue (apply values xs)))))))
+
          (define (scheme-report-environment version)
            (environment `(scheme ,(string->symbol (string-append "r" (number->string version) "rs")))))
 
-- 
2.43.0


From 8ab9d265a20d02b586c827a3cfd84e53a06abf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 26/53] fix: raise the secondary exception of raise in the
 outer handler

---
 library/srfi-34.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-34.ss b/library/srfi-34.ss
index 19cf15a..8f71a7a 100644
--- a/library/srfi-34.ss
+++ b/library/srfi-34.ss
@@ -52,7 +52,7 @@
                      (if (procedure? inner)
                          (inner x)
                          (throw x))
-                     (throw x))))
+                     (raise x))))
                (throw x)))
 
          (define (raise-continuable x)
-- 
2.43.0


From 12ef5268c716bde901ce1da9351a416e53da078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 27/53] fix: repeat a template followed by several ellipses at
 each level

---
 library/srfi-149.ss | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index aae4b25..84f4a82 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -259,13 +259,13 @@
                             (lp (car t) ell-dim))
                            (else
                              (let* ((once (lp (car t) ell-dim))
-                                    (nest (if (and (null? (cdr ell-vars))
-                                                   (identifier? once)
-                                                   (eq? once (car vars)))
-                                              once ;; shortcut
-                                              (cons _map
-                                                    (cons (list _lambda ell-vars once)
-                                                          ell-vars))))
+                                    (nest (do ((d depth (- d 1))
+                                               (nest once
+                                                     (let ((vars (free-vars (car t) vars (+ dim d))))
+                                                       (cons _map
+                                                             (cons (list _lambda vars nest)
+                                                                   vars)))))
+                                              ((= d 0) nest)))
                                     (many (do ((d depth (- d 1))
                                                (many nest
                                                      (list _apply _append many)))
-- 
2.43.0


From 01f704be7f6caaeb2d3769b7878fd6818cb0ecc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 28/53] fix: match a literal followed by an ellipsis

---
 library/srfi-149.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index 84f4a82..b64f59c 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -144,7 +144,8 @@
                                                                    (,_cons3 (,_car ,_ls)
                                                                             ,_res
                                                                             ,_ls))))))))))
-                          ((identifier? (car p))
+                          ((and (identifier? (car p))
+                                (not (any (lambda (l) (compare (car p) l)) lits)))
                            (list _and (list _list? v)
                                  (list _let (list (list (car p) v))
                                        (k (cons (cons (car p) (+ 1 dim)) vars)))))
-- 
2.43.0


From dcd45b78e744b0fdd2e31de6a1f8d83f99126445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:54 +0000
Subject: [PATCH 29/53] fix: substitute pattern variables in an escaped
 template

---
 library/srfi-149.ss | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index b64f59c..3630e0e 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -230,7 +230,7 @@
                    ((vector? x) (lp (vector->list x) free))
                    (else free))))
              (define (expand-template tmpl vars)
-               (let lp ((t tmpl) (dim 0))
+               (let lp ((t tmpl) (dim 0) (ellipsis ellipsis))
                  (cond
                    ((identifier? t)
                     (cond
@@ -243,12 +243,14 @@
                         (list _rename (list _quote t)))))
                    ((pair? t)
                     (cond
-                      ((ellipsis-escape? t)
-                       (list _quote
-                             (if (pair? (cdr t))
-                                 (if (pair? (cddr t)) (cddr t) (cadr t))
-                                 (cdr t))))
-                      ((ellipsis? t)
+                      ((and ellipsis (ellipsis-escape? t))
+                       (lp (if (and (pair? (cdr t))
+                                    (null? (cddr t)))
+                               (cadr t)
+                               (cdr t))
+                           dim
+                           #f))
+                      ((and ellipsis (ellipsis? t))
                        (let* ((depth (ellipsis-depth t))
                               (ell-dim (+ dim depth))
                               (ell-vars (free-vars (car t) vars ell-dim)))
@@ -257,9 +259,9 @@
                             (error "too many ...'s"))
                            ((and (null? (cdr (cdr t))) (identifier? (car t)))
                             ;; shortcut for (var ...)
-                            (lp (car t) ell-dim))
+                            (lp (car t) ell-dim ellipsis))
                            (else
-                             (let* ((once (lp (car t) ell-dim))
+                             (let* ((once (lp (car t) ell-dim ellipsis))
                                     (nest (do ((d depth (- d 1))
                                                (nest once
                                                      (let ((vars (free-vars (car t) vars (+ dim d))))
@@ -273,9 +275,9 @@
                                             ((= d 1) many))))
                                (if (null? (ellipsis-tail t))
                                    many ;; shortcut
-                                   (list _append many (lp (ellipsis-tail t) dim))))))))
-                      (else (list _cons3 (lp (car t) dim) (lp (cdr t) dim) (list _quote t)))))
-                   ((vector? t) (list _list->vector (lp (vector->list t) dim)))
+                                   (list _append many (lp (ellipsis-tail t) dim ellipsis))))))))
+                      (else (list _cons3 (lp (car t) dim ellipsis) (lp (cdr t) dim ellipsis) (list _quote t)))))
+                   ((vector? t) (list _list->vector (lp (vector->list t) dim ellipsis)))
                    ((null? t) (list _quote '()))
                    (else t))))
              (list
-- 
2.43.0


From 697fcfc9401cf5a4a1c7a0722a5435ff7943283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 30/53] fix: pass both values to the continuation when a list
 of SRFI 1 ends

---
 library/srfi-1.ss | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/srfi-1.ss b/library/srfi-1.ss
index c7e791b..0a43d3e 100644
--- a/library/srfi-1.ss
+++ b/library/srfi-1.ss
@@ -860,8 +860,8 @@
                  (if (pair? xss)
                      (receive (xs xss) (car+cdr xss)
                        (if (null-list? xs)
-                           (abort '()
-                                  '())
+                           (abort (values '()
+                                          '()))
                            (receive (a d) (car+cdr xs)
                              (receive (cars cdrs) (recur xss)
                                (values (cons a cars)
@@ -876,8 +876,8 @@
                  (if (pair? xss)
                      (receive (xs xss) (car+cdr xss)
                        (if (null-list? xs)
-                           (abort '()
-                                  '())
+                           (abort (values '()
+                                          '()))
                            (receive (a d) (car+cdr xs)
                              (receive (cars cdrs) (recur xss)
                                (values (cons a cars)
-- 
2.43.0


From 245bd09ff0e496862f6759e5e7ed64d09c79c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 31/53] fix: return the number of bytes read from
 read-bytevector!

---
 library/r7rs.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 209a5bf..4a51f30 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -311,7 +311,8 @@
                                           (current-input-port)))))
              (if (eof-object? v)
                  (eof-object)
-                 (bytevector-copy! x start v))))
+                 (begin (bytevector-copy! x start v)
+                        (bytevector-length v)))))
 
          (define (write-char x . xs)
            (%put-char x (if (pair? xs)
-- 
2.43.0


From 3e46266405b797d202d4ad6cbf6c5a30c6038c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 32/53] fix: load a file into the interaction environment by
 default

---
 library/r4rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index 2bc2958..58ec8a3 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -53,7 +53,7 @@
           (only (meevax vector) vector? make-vector vector vector-length vector-ref vector-set! vector->list list->vector vector-fill!)
           (prefix (meevax read) %)
           (prefix (meevax write) %)
-          (prefix (only (meevax environment) load) %)
+          (prefix (only (meevax environment) interaction-environment load) %)
           (only (srfi 39) make-parameter parameterize)
           (only (srfi 45) delay force))
 
-- 
2.43.0


From ded780d5484e4e089651987ff81358b98bdfd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 33/53] fix: provide the interaction environment exported by
 (scheme r5rs)

---
 library/r5rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r5rs.ss b/library/r5rs.ss
index d7f7573..ae79c08 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -1,7 +1,7 @@
 (define-library (scheme r5rs)
   (import (only (meevax continuation) dynamic-wind)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
-          (only (meevax environment) environment eval)
+          (only (meevax environment) environment eval interaction-environment)
           (rename (scheme r4rs) (call-with-current-continuation call/cc))
           (srfi 149))
 
-- 
2.43.0


From 46fc7c0c33cc30342abdba7d30a5fc52f5cea1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:16 +0000
Subject: [PATCH 34/53] =?UTF-8?q?fix:=20compare=20all=20arguments=20of=20b?=
 =?UTF-8?q?oolean=3D=3F=20and=20symbol=3D=3F?=

---
 library/r7rs.ss | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 4a51f30..e0a29f2 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -170,12 +170,18 @@
 
          (define exact inexact->exact)
 
-         (define boolean=? eqv?)
+         (define (boolean=? x y . xs)
+           (and (eqv? x y)
+                (or (null? xs)
+                    (apply boolean=? y xs))))
 
          (define (list-set! xs k x)
            (set-car! (list-tail xs k) x))
 
-         (define symbol=? eqv?)
+         (define (symbol=? x y . xs)
+           (and (eqv? x y)
+                (or (null? xs)
+                    (apply symbol=? y xs))))
 
          (define bytevector? u8vector?)
 
-- 
2.43.0


From 795dc51f081ca92057074021edd8daf903acfae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 35/53] fix: import error into the record library

---
 library/srfi-9.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/srfi-9.ss b/library/srfi-9.ss
index 136d905..d8a0736 100644
--- a/library/srfi-9.ss
+++ b/library/srfi-9.ss
@@ -21,7 +21,8 @@
 |#
 
 (define-library (srfi 9)
-  (import (scheme r5rs))
+  (import (scheme r5rs)
+          (only (srfi 23) error))
 
   (export define-record-type)
 
-- 
2.43.0


From 744c380c8f2c93ab2e97b5c628031f87dfe4a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 36/53] fix: define the error procedure used by syntax-rules

---
 library/srfi-149.ss | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index 3630e0e..175200c 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -25,13 +25,17 @@
 
 (define-library (srfi 149)
   (import (only (meevax core) define-syntax quote-syntax)
+          (only (meevax error) error-object throw)
           (only (meevax macro-transformer) er-macro-transformer identifier?)
           (only (meevax symbol) identifier->symbol)
           (scheme r4rs))
 
   (export syntax-rules)
 
-  (begin (define %number->string number->string)
+  (begin (define (error . xs)
+           (throw (apply error-object xs)))
+
+         (define %number->string number->string)
 
          (define (length* ls1) ; Chibi-Scheme's sexp_length_op (sexp.c)
            (if (not (pair? ls1))
-- 
2.43.0


From 51b0823133718d40acff281bc05a00a3a2c19aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 37/53] fix: include every file an include expression names

---
 src/kernel/expander.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index f043d3c..c3dc154 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -166,7 +166,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include(cadr(form))),
+                                meevax::include(cdr(form))),
                            bound_variables,
                            alpha);
   }
@@ -174,7 +174,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include_case_insensitive)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include<case_insensitive>(cadr(form))),
+                                meevax::include<case_insensitive>(cdr(form))),
                            bound_variables,
                            alpha);
   }
-- 
2.43.0


From c088835ad5bbb8ca9b6b7bfabb51174e8fc5ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 38/53] fix: let a cond-expand that selects nothing have no
 effect

---
 src/kernel/conditional_expand.cpp | 2 +-
 src/kernel/generator.cpp          | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kernel/conditional_expand.cpp b/src/kernel/conditional_expand.cpp
index b55d2fb..0011e0d 100644
--- a/src/kernel/conditional_expand.cpp
+++ b/src/kernel/conditional_expand.cpp
@@ -69,6 +69,6 @@ namespace meevax::inline kernel
       }
     }
 
-    throw error(make<string>("no matching clauses were found"), clauses);
+    return unit;
   }
 } // namespace meevax::kernel
diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 54869fb..176ed29 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -188,7 +188,11 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::sequence)
   {
-    if (cdr(form).is<null>()) // is tail sequence
+    if (form.is<null>()) // (begin)
+    {
+      return cons(make<instruction>(instruction::secd_load_constant), unspecified, continuation);
+    }
+    else if (cdr(form).is<null>()) // is tail sequence
     {
       return generator.generate(car(form),
                                 bound_variables,
-- 
2.43.0


From 2ca07f110b276e33c462692a84b8b774bb200193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:59 +0000
Subject: [PATCH 39/53] fix: find the definitions that cond-expand and include
 splice into a body

---
 src/kernel/syntactic_environment.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 5ba72f1..bbf1da8 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -17,11 +17,13 @@
 #include <algorithm>
 #include <meevax/kernel/boolean.hpp>
 #include <meevax/kernel/environment.hpp>
+#include <meevax/kernel/conditional_expand.hpp>
 #include <meevax/kernel/expander.hpp>
 #include <meevax/kernel/generator.hpp>
 #include <meevax/kernel/identity.hpp>
 #include <meevax/kernel/proper_list.hpp>
 #include <meevax/kernel/symbol.hpp>
+#include <meevax/kernel/include.hpp>
 #include <meevax/kernel/syntactic_environment.hpp>
 #include <meevax/kernel/syntax.hpp>
 #include <meevax/kernel/transformer.hpp>
@@ -258,6 +260,18 @@ namespace meevax::inline kernel
                            formals,
                            reversed_binding_specs);
             }
+            else if (name == "conditional-expand" or name == "include" or name == "include-case-insensitive")
+            {
+              return sweep(form,
+                           append(name == "conditional-expand" ? conditional_expand(cdar(sequence)) :
+                                  name == "include" ? include(cdar(sequence)) : include<case_insensitive>(cdar(sequence)),
+                                  cdr(sequence)),
+                           bound_variables,
+                           current_environment,
+                           alpha,
+                           formals,
+                           reversed_binding_specs);
+            }
             else if (name == "define") // <form> = ((define ...) <definition or expression>*)
             {
               if (cadar(sequence).is<pair>()) // <form> = ((define (<variable> . <formals>) <body>) <definition or expression>*)
-- 
2.43.0


From de46423f24902b0a361311f348c9c1876682ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:12 +0000
Subject: [PATCH 40/53] fix: compile a body that cond-expand leaves empty

---
 src/kernel/generator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 176ed29..87a5a98 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -83,7 +83,11 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::body)
   {
-    if (cdr(form).template is<null>())
+    if (form.template is<null>())
+    {
+      return cons(make<instruction>(instruction::secd_load_constant), unspecified, continuation);
+    }
+    else if (cdr(form).template is<null>())
     {
       return generator.generate(car(form),
                                 bound_variables,
-- 
2.43.0


From b020d7fea43d8dab77176f935d0023e35fb5f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 41/53] fix: allow importing the same binding again after
 renaming

---
 src/kernel/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index 30b5608..b982a39 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -177,7 +177,7 @@ namespace meevax::inline kernel
       {
         second = cons(x, second);
       }
-      else if (x != y)
+      else if (cdr(x) != cdr(y))
       {
         throw error(make<string>("in a program or library declaration, it is an error to import the same identifier more than once with different bindings"), x);
       }
-- 
2.43.0


From b81f13c47f10acf2a86292b3771cabdf4ea9e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:13 +0000
Subject: [PATCH 42/53] fix: call the operand of
 call-with-current-continuation! with the continuation when it is itself a
 call in tail position

---
 src/kernel/generator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 87a5a98..337cbf3 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -270,8 +270,7 @@ namespace meevax::inline kernel
                 continuation,
                 generator.generate(car(form),
                                    bound_variables,
-                                   list(make<instruction>(instruction::secd_tail_call)), // The first argument passed to call-with-current-continuation must be called via a tail call.
-                                   tail));
+                                   list(make<instruction>(instruction::secd_tail_call)))); // The first argument passed to call-with-current-continuation must be called via a tail call.
   }
 
   GENERATOR(generator::current)
-- 
2.43.0


From fb1eeaf5ea2fb21a94d83e09fa498e42b3bd92f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:13 +0000
Subject: [PATCH 43/53] fix: give a continuation captured by a command of a
 sequence the rest of that sequence

---
 src/kernel/generator.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 337cbf3..472466f 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -211,19 +211,20 @@ namespace meevax::inline kernel
          macro is used (the evaluation order of function arguments in C++
          is not specified, but in most environments they are evaluated from
          right to left). Therefore, the first expression is compiled
-         separately and then combined with the compiled result of the
-         remaining expressions by append.
+         separately, before a code whose rest is filled with the compiled
+         result of the remaining expressions.
       */
-      let const& head = generator.generate(car(form), // Head expression or definition
-                                           bound_variables,
-                                           unit);
-      return append(head,
-                    cons(make<instruction>(instruction::secd_drop), // Pop result of head expression
-                         sequence(generator,
-                                  cdr(form), // Rest expression or definitions
-                                  bound_variables,
-                                  continuation,
-                                  tail)));
+      let rest = list(make<instruction>(instruction::secd_drop)); // Pop result of head expression
+
+      let const head = generator.generate(car(form), // Head expression or definition
+                                          bound_variables,
+                                          rest);
+      cdr(rest) = sequence(generator,
+                           cdr(form), // Rest expression or definitions
+                           bound_variables,
+                           continuation,
+                           tail);
+      return head;
     }
   }
 
-- 
2.43.0


From 7a568d847dac57d79a2fa1d3365bb36cb94cdb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:13 +0000
Subject: [PATCH 44/53] fix: bind the renamed variables in letrec when they
 shadow variables of the same name

---
 src/kernel/expander.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index c3dc154..a7237fd 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -189,22 +189,27 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::letrec)
   {
-    let const extended_bound_variables = cons(alpha.convert_formals(map(car, cadr(form)), bound_variables),
+    auto scoped_alpha = alpha;
+
+    let const extended_bound_variables = cons(scoped_alpha.convert_formals(map(car, cadr(form)), bound_variables),
                                               bound_variables);
 
-    return cons(car(form),
-                map([&](let const& binding)
-                    {
-                      return list(car(binding),
-                                  expander.expand(cadr(binding),
-                                                  extended_bound_variables,
-                                                  alpha));
-                    },
-                    cadr(form)),
+    auto bindings = [&](auto bindings, let const& variables, let const& specs) -> object
+    {
+      return specs.is<pair>() ? cons(list(car(variables),
+                                          expander.expand(cadar(specs),
+                                                          extended_bound_variables,
+                                                          scoped_alpha)),
+                                     bindings(bindings, cdr(variables), cdr(specs)))
+                              : unit;
+    };
+
+    return cons(alpha.convert(car(form)),
+                bindings(bindings, car(extended_bound_variables), cadr(form)),
                 body(expander,
                      cddr(form),
                      extended_bound_variables,
-                     alpha));
+                     scoped_alpha));
   }
 
   EXPANDER(expander::sequence)
-- 
2.43.0


From d411badb506851a26039a5b0e912585187789516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 45/53] fix: keep what the macro uses of a body expanded to
 when a definition is found, and expand the macros it defines

---
 src/kernel/expander.cpp              | 11 +----------
 src/kernel/syntactic_environment.cpp | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index a7237fd..917c767 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -103,7 +103,7 @@ namespace meevax::inline kernel
          where <binding specs> = ((<variable 1> <initial 1>) ...
                                   (<variable n> <initial n>))
       */
-      let & formals = caar(current_environment);
+      let const& formals = caar(current_environment);
 
       for (let const& binding_spec : reversed_binding_specs | as_proper_list)
       {
@@ -113,15 +113,6 @@ namespace meevax::inline kernel
         }
       }
 
-      for (let & formal : formals | as_proper_list)
-      {
-        if (formal.is<macro>()) // is internal-sytnax-definition
-        {
-          cdr(formal) = make<transformer>(environment().execute(current_environment.template as<syntactic_environment>().compile(cdr(formal) /* <transformer spec> */)),
-                                          current_environment);
-        }
-      }
-
       return expander.expand(list(cons(cons(default_rename("lambda"),
                                             formals,
                                             sequence),
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index bbf1da8..1b7ea83 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -210,14 +210,22 @@ namespace meevax::inline kernel
                                     let const& formals,
                                     let const& reversed_binding_specs) const -> std::tuple<object, object, object>
   {
-    auto reset = [&](let const& formals)
+    auto extend = [&](let const& formals)
     {
+      /*
+         The environment is extended in place, so that the syntactic closures
+         made by the macro uses that have already been expanded refer to the
+         variables defined after them.
+      */
+      current_environment.as<syntactic_environment>().first = cons(formals, bound_variables);
+
       return sweep(form,
-                   form,
+                   sequence,
                    bound_variables,
-                   make<syntactic_environment>(cons(formals, bound_variables), second),
+                   current_environment,
                    alpha,
-                   formals);
+                   formals,
+                   reversed_binding_specs);
     };
 
     if (sequence.is<pair>())
@@ -235,7 +243,7 @@ namespace meevax::inline kernel
       }
       else if (car(sequence).is<pair>() and caar(sequence).is_also<identifier>())
       {
-        if (let const& identity = identify(caar(sequence), bound_variables); identity.is_also<absolute>())
+        if (let const& identity = identify(caar(sequence), car(current_environment)); identity.is_also<absolute>())
         {
           if (let const& value = cdr(identity); value.is<transformer>())
           {
@@ -292,7 +300,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return extend(append(formals, list(variable)));
                 }
               }
               else // <form> = ((define <variable> <expression>) <definition or expression>*)
@@ -310,7 +318,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return extend(append(formals, list(variable)));
                 }
               }
             }
@@ -333,7 +341,9 @@ namespace meevax::inline kernel
               }
               else
               {
-                return reset(append(formals, list(make<macro>(cadar(sequence), caddar(sequence)))));
+                return extend(append(formals, list(make<macro>(cadar(sequence),
+                                                               make<transformer>(environment().execute(current_environment.as<syntactic_environment>().compile(caddar(sequence) /* <transformer spec> */)),
+                                                                                 current_environment)))));
               }
             }
           }
-- 
2.43.0


From 831409e43ebc96851fa44d5f9febc0b34778e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 46/53] fix: do not expand an unbound identifier of a macro for
 ever

---
 src/kernel/syntactic_environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 1b7ea83..faa26cf 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -57,7 +57,7 @@ namespace meevax::inline kernel
   {
     if (not form.is<pair>())
     {
-      if (form.is<syntactic_closure>() and identify(form, bound_variables) == f)
+      if (form.is<syntactic_closure>() and not form.as<syntactic_closure>().form.is<symbol>() and identify(form, bound_variables) == f)
       {
         return form.as<syntactic_closure>().expand(bound_variables, alpha);
       }
@@ -230,7 +230,7 @@ namespace meevax::inline kernel
 
     if (sequence.is<pair>())
     {
-      if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
+      if (car(sequence).is<syntactic_closure>() and not car(sequence).as<syntactic_closure>().form.is<symbol>() and identify(car(sequence), car(current_environment)) == f)
       {
         return sweep(form,
                      cons(car(sequence).as<syntactic_closure>().expand(car(current_environment), alpha),
-- 
2.43.0


From 90c2500c9a3eba78bc29e8fbd72eeb5cdcb5597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 47/53] fix: let a macro refer to a variable that is defined
 after the macro

---
 src/kernel/syntactic_environment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index faa26cf..7f1fb04 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -196,7 +196,10 @@ namespace meevax::inline kernel
          <variable> to a new location before performing the assignment, whereas
          it would be an error to perform a set! on an unbound variable.
       */
-      assert(not variable.is<syntactic_closure>());
+      if (variable.is<syntactic_closure>()) // A macro refers to a variable not defined yet.
+      {
+        return identify(variable.as<syntactic_closure>().form, unit);
+      }
 
       return car(second = cons(make<absolute>(variable, undefined), second));
     }
-- 
2.43.0


From 613b319f71625d92b43a97e7aadfa07530967fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 48/53] fix: resolve what a macro closes in the environment of
 its use by the bindings of the use, and never capture its unbound identifiers

---
 include/meevax/kernel/syntactic_closure.hpp | 10 ++++
 src/kernel/expander.cpp                     | 14 +++--
 src/kernel/syntactic_closure.cpp            | 65 ++++++++++++++-------
 src/kernel/syntactic_environment.cpp        | 49 +++++++++++++---
 4 files changed, 105 insertions(+), 33 deletions(-)

diff --git a/include/meevax/kernel/syntactic_closure.hpp b/include/meevax/kernel/syntactic_closure.hpp
index e8ecbac..e8e58f6 100644
--- a/include/meevax/kernel/syntactic_closure.hpp
+++ b/include/meevax/kernel/syntactic_closure.hpp
@@ -32,8 +32,18 @@ namespace meevax::inline kernel
 
       let dictionary;
 
+      let use_environment; // The environment of the macro use this scope expands.
+
+      alpha * previous = nullptr;
+
+      alpha * user = nullptr; // The scope the form closed in its environment is written in.
+
       explicit alpha(syntactic_closure const* enclosure, alpha * outer);
 
+      auto use(let const& environment) -> alpha;
+
+      auto find(let const& environment) -> alpha *;
+
       auto convert(let const& form) -> object;
 
       auto convert_formals(let const& formals, let const& bound_variables) -> object;
diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index 917c767..0331c98 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -85,13 +85,17 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::body)
   {
+    let const use_environment = make<syntactic_environment>(bound_variables, expander.second);
+
+    auto use = alpha.use(use_environment);
+
     if (auto [reversed_binding_specs,
               sequence,
               current_environment] = expander.sweep(form,
                                                     form,
                                                     bound_variables,
                                                     make<syntactic_environment>(bound_variables, expander.second),
-                                                    alpha);
+                                                    use);
         reversed_binding_specs)
     {
       /*
@@ -118,21 +122,21 @@ namespace meevax::inline kernel
                                             sequence),
                                        make_list(length(formals), unit))),
                              bound_variables,
-                             alpha);
+                             use);
     }
     else if (sequence.template is<pair>())
     {
       return cons(expander.expand(car(sequence),
                                   bound_variables,
-                                  alpha),
+                                  use),
                   body(expander,
                        cdr(sequence),
                        bound_variables,
-                       alpha));
+                       use));
     }
     else
     {
-      return expander.expand(sequence, bound_variables, alpha);
+      return expander.expand(sequence, bound_variables, use);
     }
   }
 
diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 62c319c..4105de4 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -31,6 +31,27 @@ namespace meevax::inline kernel
     assert(enclosure);
   }
 
+  auto syntactic_closure::alpha::use(let const& environment) -> alpha
+  {
+    auto scope = *this;
+    scope.use_environment = environment;
+    scope.previous = this;
+    return scope;
+  }
+
+  auto syntactic_closure::alpha::find(let const& environment) -> alpha *
+  {
+    for (auto scope = this; scope; scope = scope->previous ? scope->previous : scope->outer)
+    {
+      if (eq(scope->use_environment, environment))
+      {
+        return scope;
+      }
+    }
+
+    return nullptr;
+  }
+
   auto syntactic_closure::alpha::convert(let const& form) -> object
   {
     assert(form.is_also<identifier>() or form.is<macro>() or form.is<null>());
@@ -45,6 +66,10 @@ namespace meevax::inline kernel
       {
         return cdr(renaming);
       }
+      else if (let const& renaming = user ? user->convert(form) : form; renaming.is<syntactic_closure>())
+      {
+        return renaming;
+      }
       else
       {
         return outer ? make_syntactic_closure(form, -1) : form;
@@ -62,10 +87,10 @@ namespace meevax::inline kernel
     {
       assert(form.is_also<identifier>() or form.is<macro>() or form.is<null>());
 
-      if (form.is<symbol>() and std::ranges::any_of(bound_variables | as_proper_list, [&](let const& formals)
-                                                    {
-                                                      return memq(form, formals) != f; // TODO variadic arguments
-                                                    }))
+      if (form.is<symbol>() and (outer or std::ranges::any_of(bound_variables | as_proper_list, [&](let const& formals)
+                                                              {
+                                                                return memq(form, formals) != f; // TODO variadic arguments
+                                                              })))
       {
         return make_syntactic_closure(form, length(bound_variables));
       }
@@ -107,7 +132,15 @@ namespace meevax::inline kernel
 
   auto syntactic_closure::expand(let const& bound_variables, alpha & outer) -> object
   {
+    auto const scope = outer.find(syntactic_environment);
+
     if (eq(syntactic_environment.as<struct syntactic_environment>().first, bound_variables))
+    {
+      auto closed = scope ? *scope : outer.use(unit);
+
+      return syntactic_environment.as<struct syntactic_environment>().expand(form, bound_variables, closed);
+    }
+    else if (scope == &outer and free_names.is<null>())
     {
       return syntactic_environment.as<struct syntactic_environment>().expand(form, bound_variables, outer);
     }
@@ -115,32 +148,22 @@ namespace meevax::inline kernel
     {
       auto inner = alpha(this, &outer);
 
+      inner.user = scope;
+
       return syntactic_environment.as<struct syntactic_environment>().expand(form, bound_variables, inner);
     }
   }
 
   auto syntactic_closure::identify(let const& bound_variables) -> object
   {
-    auto identify = [&]()
-    {
-      let xs = syntactic_environment.as<struct syntactic_environment>().first;
-
-      for (auto offset = length(bound_variables) - length(xs); 0 < offset; --offset)
-      {
-        xs = cons(unit, xs);
-      }
-
-      return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs);
-    };
+    let xs = syntactic_environment.as<struct syntactic_environment>().first;
 
-    if (let const& identity = identify(); identity != f)
+    for (auto offset = length(bound_variables) - length(xs); 0 < offset; --offset)
     {
-      return identity;
-    }
-    else
-    {
-      return syntactic_environment.as<struct syntactic_environment const>().identify(form, bound_variables);
+      xs = cons(unit, xs);
     }
+
+    return syntactic_environment.as<struct syntactic_environment const>().identify(form, xs);
   }
 
   auto operator ==(syntactic_closure const& x,
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 7f1fb04..27b3a36 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -43,6 +43,36 @@ namespace meevax::inline kernel
     return variable;
   }
 
+  auto convert(object const& identifier, object const& bound_variables, syntactic_closure::alpha & alpha) -> object
+  {
+    auto bound = [&](let formals)
+    {
+      for (; formals.is<pair>(); formals = cdr(formals))
+      {
+        if (eq(car(formals), identifier))
+        {
+          return true;
+        }
+      }
+
+      return eq(formals, identifier);
+    };
+
+    if (identifier.is<syntactic_closure>() and
+        identifier.as<syntactic_closure>().form.template is<symbol>() and
+        std::ranges::none_of(bound_variables | as_proper_list, bound))
+    {
+      if (auto scope = alpha.find(identifier.as<syntactic_closure>().syntactic_environment); scope)
+      {
+        let const renaming = scope->convert(identifier.as<syntactic_closure>().form);
+
+        return renaming.is<syntactic_closure>() ? renaming : identifier;
+      }
+    }
+
+    return alpha.convert(identifier);
+  }
+
   auto syntactic_environment::expand(object const& form,
                                      object const& bound_variables) const -> object
   {
@@ -63,22 +93,25 @@ namespace meevax::inline kernel
       }
       else
       {
-        return form.is_also<identifier>() ? alpha.convert(form) : form;
+        return form.is_also<identifier>() ? convert(form, bound_variables, alpha) : form;
       }
     }
     else if (car(form).is_also<identifier>())
     {
-      let const identifier = alpha.convert(car(form));
+      let const identifier = convert(car(form), bound_variables, alpha);
 
-      if (let const& identity = identifier.is<syntactic_closure>() ? identifier.as<syntactic_closure>().identify(bound_variables)
-                                                                   : identify(car(form), bound_variables);
+      if (let const& identity = identify(identifier, bound_variables);
           identity.is_also<absolute>())
       {
         if (let const& value = cdr(identity); value.is<transformer>())
         {
-          return expand(value.as<transformer>().transform(form, make<syntactic_environment>(bound_variables, second)),
+          let const use_environment = make<syntactic_environment>(bound_variables, second);
+
+          auto use = alpha.use(use_environment);
+
+          return expand(value.as<transformer>().transform(form, use_environment),
                         bound_variables,
-                        alpha);
+                        use);
         }
         else if (value.is<syntax>())
         {
@@ -222,6 +255,8 @@ namespace meevax::inline kernel
       */
       current_environment.as<syntactic_environment>().first = cons(formals, bound_variables);
 
+      alpha.use_environment.as<syntactic_environment>().first = car(current_environment);
+
       return sweep(form,
                    sequence,
                    bound_variables,
@@ -251,7 +286,7 @@ namespace meevax::inline kernel
           if (let const& value = cdr(identity); value.is<transformer>())
           {
             return sweep(form,
-                         cons(value.as<transformer>().transform(car(sequence), current_environment),
+                         cons(value.as<transformer>().transform(car(sequence), alpha.use_environment),
                               cdr(sequence)),
                          bound_variables,
                          current_environment,
-- 
2.43.0


From efdd1daaaa842dc54b6a768bfbde1f995b7cbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:38 +0000
Subject: [PATCH 49/53] fix: encode the null character as a zero byte

---
 src/kernel/character.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 9914347..3c4c6c9 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -55,7 +55,11 @@ namespace meevax::inline kernel
       chars[0] = std::char_traits<char_type>::to_char_type(0xBD);
     }
 
-    return chars.data();
+    /*
+       The null character is the only one whose UTF-8 representation contains
+       (and is) a zero byte.
+    */
+    return codepoint ? std::string(chars.data()) : std::string(1, '\0');
   }
 
   auto operator <<(std::ostream & os, character const& datum) -> std::ostream &
-- 
2.43.0


From 542a70e5121f688747a72ea414ab98ac33c49d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:38 +0000
Subject: [PATCH 50/53] fix: read-bytevector from a bytevector port returns
 what remains when less than asked for remains

---
 include/meevax/kernel/input_homogeneous_vector_port.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index e3e86e7..e5d7c51 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -53,12 +53,13 @@ namespace meevax::inline kernel
 
     auto get(std::size_t size) -> object override
     {
-      if (deque.size() < size)
+      if (deque.empty())
       {
         return eof_object;
       }
       else
       {
+        size = std::min(size, deque.size());
         let const v =  make<homogeneous_vector<T>>(size);
         std::copy(deque.begin(), std::next(deque.begin(), size), std::begin(v.as<homogeneous_vector<T>>().values));
         deque.erase(deque.begin(), std::next(deque.begin(), size));
-- 
2.43.0


From 2112da4a3a5e6d9f026cd614339353b4c49fd9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:38 +0000
Subject: [PATCH 51/53] fix: peek-u8 and read-bytevector on a binary file
 return the end-of-file object at the end of the file

---
 src/kernel/binary_input_file_port.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kernel/binary_input_file_port.cpp b/src/kernel/binary_input_file_port.cpp
index de8c9e5..4c8e7b2 100644
--- a/src/kernel/binary_input_file_port.cpp
+++ b/src/kernel/binary_input_file_port.cpp
@@ -48,11 +48,15 @@ namespace meevax::inline kernel
     {
       return make<u8vector>(buffer.data(), buffer.size());
     }
-    else
+    else if (0 < ifstream.gcount())
     {
       buffer.resize(ifstream.gcount());
       return make<u8vector>(buffer.data(), buffer.size());
     }
+    else
+    {
+      return eof_object;
+    }
   }
 
   auto binary_input_file_port::get_ready() const -> bool
@@ -62,9 +66,9 @@ namespace meevax::inline kernel
 
   auto binary_input_file_port::peek() -> object
   {
-    if (get_ready())
+    if (auto const c = ifstream.peek(); c != std::char_traits<char>::eof())
     {
-      return make<small_integer>(ifstream.peek());
+      return make<small_integer>(c);
     }
     else
     {
-- 
2.43.0


From 5d7784d4183c3be41b7df397c9b101a5417647b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:38 +0000
Subject: [PATCH 52/53] fix: read-line returns the last line even if no newline
 ends it, and keeps non-ASCII characters

---
 include/meevax/kernel/textual_input_port.hpp | 10 +++++-----
 src/kernel/textual_input_port.cpp            | 11 +++++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 0b06064..eb8d644 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -87,11 +87,11 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_until(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
-      while (get_ready() and not satisfy(c = take_character()))
+      while (get_ready() and not satisfy(c = take_character()) and not c.is_eof())
       {
-        s += c;
+        s += c.utf8();
       }
 
       return s;
@@ -100,11 +100,11 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_while(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and satisfy(peek_character()))
       {
-        s += take_character();
+        s += take_character().utf8();
       }
 
       return s;
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index fb3681e..b7cd9c9 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -155,13 +155,20 @@ namespace meevax::inline kernel
 
   auto textual_input_port::get_line() -> object
   {
-    if (auto s = take_character_until([](auto c) { return c == '\n'; }); at_end_of_file())
+    if (peek_character().is_eof())
     {
       return eof_object;
     }
     else
     {
-      return make<string>(s);
+      let s = make<string>();
+
+      for (auto c = take_character(); not c.is_eof() and c != '\n'; c = take_character())
+      {
+        s.as<string>().characters.push_back(c);
+      }
+
+      return s;
     }
   }
 
-- 
2.43.0


From 921fc330d36b80ceced17121ec58a0907880a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:23 +0000
Subject: [PATCH 53/53] fix: opening a file that cannot be opened signals a
 file error

---
 src/kernel/boot.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index da2df23..a7b502e 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -56,6 +56,22 @@ extern char ** environ; // for procedure get-environment-variables
 
 namespace meevax::inline kernel
 {
+  template <typename T>
+  auto open(object const& name) -> object
+  {
+    try
+    {
+      if (let const port = make<T>(name.as<string>().utf8()); port.as<T>().is_open())
+      {
+        return port;
+      }
+    }
+    catch (std::filesystem::filesystem_error const&)
+    {}
+
+    throw file_error(make<string>("failed to open file"), name);
+  }
+
   auto resolve(char const* name) -> void *
   {
     using namespace number;
@@ -314,10 +330,10 @@ namespace meevax::inline kernel
       { "standard-input-port",           [](let const&   ) { return make<standard_input_port>(); } },
       { "standard-output-port",          [](let const&   ) { return make<standard_output_port>(); } },
       { "standard-error-port",           [](let const&   ) { return make<standard_error_port>(); } },
-      { "open-input-file",               [](let const& xs) { return make<input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-output-file",              [](let const& xs) { return make<output_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-input-file",        [](let const& xs) { return make<binary_input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-output-file",       [](let const& xs) { return make<binary_output_file_port>(car(xs).as<string>().utf8()); } },
+      { "open-input-file",               [](let const& xs) { return open<input_file_port>(car(xs)); } },
+      { "open-output-file",              [](let const& xs) { return open<output_file_port>(car(xs)); } },
+      { "open-binary-input-file",        [](let const& xs) { return open<binary_input_file_port>(car(xs)); } },
+      { "open-binary-output-file",       [](let const& xs) { return open<binary_output_file_port>(car(xs)); } },
       { "close",                         [](let const& xs) { car(xs).as<port>().close(); return unspecified; } },
       { "open-input-string",             [](let const& xs) { return make<input_string_port>(car(xs).as<string>().utf8()); } },
       { "open-output-string",            [](let const&   ) { return make<output_string_port>(); } },
-- 
2.43.0

