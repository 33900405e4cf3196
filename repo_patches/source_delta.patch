From 9a498c64b541859744dc2d53b8ddd14741cffd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:43 +0000
Subject: [PATCH 01/26] fix: encode U+0800-U+0FFF and U+10000-U+3FFFF with the
 right number of UTF-8 octets

---
 libs/utils/utf8.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index b425738..146ef3f 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -987,13 +987,8 @@ size_t utf8_to_string(char *const buffer, const char32_t symbol)
 		return 1;
 	}
 
-	char32_t mask = 0x00FC0000;
-	size_t octets = 4;
-	while ((symbol & mask) == 0 && octets > 1)
-	{
-		mask >>= 6;
-		octets--;
-	}
+	const size_t octets = utf8_size(symbol);
+	char32_t mask = (char32_t)0x3F << (6 * (octets - 1));
 
 	for (size_t i = 0; i < octets; i++)
 	{
-- 
2.43.0


From b3b67cceeb0a9ccc0c77521c4e674fbad6705d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 02/26] fix: reject out-of-range indexes of wide values in
 vector without size_t wrap-around

---
 libs/utils/vector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/utils/vector.c b/libs/utils/vector.c
index 2633b7f..67f5e27 100644
--- a/libs/utils/vector.c
+++ b/libs/utils/vector.c
@@ -112,7 +112,7 @@ int vector_set(vector *const vec, const size_t index, const item_t value)
 
 size_t vector_set_double(vector *const vec, const size_t index, const double value)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < DOUBLE_SIZE || index > vec->size - DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -122,7 +122,7 @@ size_t vector_set_double(vector *const vec, const size_t index, const double val
 
 size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < INT64_SIZE || index > vec->size - INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -143,7 +143,7 @@ item_t vector_get(const vector *const vec, const size_t index)
 
 double vector_get_double(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < DOUBLE_SIZE || index > vec->size - DOUBLE_SIZE)
 	{
 		return DBL_MAX;
 	}
@@ -153,7 +153,7 @@ double vector_get_double(const vector *const vec, const size_t index)
 
 int64_t vector_get_int64(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || vec->size < INT64_SIZE || index > vec->size - INT64_SIZE)
 	{
 		return LLONG_MAX;
 	}
-- 
2.43.0


From 13c64ba181debdfb17cd631f29000e315426f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 03/26] fix: do not shift by the full width when storing a
 64-bit value for a 64-bit target

---
 libs/utils/item.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/utils/item.c b/libs/utils/item.c
index 6e46422..7357055 100644
--- a/libs/utils/item.c
+++ b/libs/utils/item.c
@@ -278,16 +278,13 @@ size_t item_store_int64_for_target(const item_status status, const int64_t value
 							|| status == item_int16 || status == item_int8
 								? (~mask >> 1) & mask  : 0;
 
-	uint64_t temp = mask;
 	for (size_t i = 0; i < size; i++)
 	{
-		stg[i] = (item_t)(((uint64_t)value & temp) >> (shift * i));
+		stg[i] = (item_t)(((uint64_t)value >> (shift * i)) & mask);
 		if ((uint64_t)stg[i] & sign)
 		{
 			stg[i] |= ~mask;
 		}
-
-		temp <<= shift;
 	}
 
 	return size;
-- 
2.43.0


From 0a0ef3ebc36abf1f6cf6dd31b705f6ff06419474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 04/26] fix: convert the letter yo to upper case like the other
 russian letters

---
 libs/utils/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index 146ef3f..59f609f 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -1066,7 +1066,7 @@ char32_t utf8_to_upper(const char32_t symbol)
 		return symbol + (U'А' - U'а');
 	}
 
-	return symbol;
+	return symbol == U'ё' ? U'Ё' : symbol;
 }
 
 uint8_t utf8_to_number(const char32_t symbol)
-- 
2.43.0


From a7be41ecc9928bd9f09e2d89d2d8975cf7344f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:33 +0000
Subject: [PATCH 05/26] fix: report failed hash_set_double and hash_set_int64
 instead of an index

---
 libs/utils/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/utils/hash.c b/libs/utils/hash.c
index 769a008..3f33b6f 100644
--- a/libs/utils/hash.c
+++ b/libs/utils/hash.c
@@ -168,13 +168,13 @@ size_t hash_set(hash *const hs, const item_t key, const size_t num, const item_t
 size_t hash_set_double(hash *const hs, const item_t key, const size_t num, const double value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != DBL_MAX ? index : SIZE_MAX;
+	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 size_t hash_set_int64(hash *const hs, const item_t key, const size_t num, const int64_t value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != LLONG_MAX ? index : SIZE_MAX;
+	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 
-- 
2.43.0


From b66d39d984a096e3ed901dbb98ae0ec4ebf60dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:33 +0000
Subject: [PATCH 06/26] fix: reject out-of-range positions of wide hash values
 without size_t wrap-around

---
 libs/utils/hash.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/utils/hash.h b/libs/utils/hash.h
index 625ddbf..d82a4fb 100644
--- a/libs/utils/hash.h
+++ b/libs/utils/hash.h
@@ -198,7 +198,8 @@ inline item_t hash_get_by_index(const hash *const hs, const size_t index, const
  */
 inline double hash_get_double_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
+	return DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) && num <= hash_get_amount_by_index(hs, index) - DOUBLE_SIZE
+		? vector_get_double(hs, index + 3 + num) : DBL_MAX;
 }
 
 /**
@@ -212,7 +213,8 @@ inline double hash_get_double_by_index(const hash *const hs, const size_t index,
  */
 inline int64_t hash_get_int64_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
+	return INT64_SIZE <= hash_get_amount_by_index(hs, index) && num <= hash_get_amount_by_index(hs, index) - INT64_SIZE
+		? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
 }
 
 
@@ -243,7 +245,8 @@ inline int hash_set_by_index(hash *const hs, const size_t index, const size_t nu
  */
 inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const size_t num, const double value)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
+	return DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) && num <= hash_get_amount_by_index(hs, index) - DOUBLE_SIZE
+		? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 /**
@@ -258,7 +261,8 @@ inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const
  */
 inline size_t hash_set_int64_by_index(hash *const hs, const size_t index, const size_t num, const int64_t value)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
+	return INT64_SIZE <= hash_get_amount_by_index(hs, index) && num <= hash_get_amount_by_index(hs, index) - INT64_SIZE
+		? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 
-- 
2.43.0


From 56044c86c5559eed4da8931838e802d0e17c46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:10 +0000
Subject: [PATCH 07/26] fix: a map that has not read a key yet has no last read
 key

map_create left keys_next uninitialised, so that map_last_read on a new map
compared garbage and could return a pointer to uninitialised storage.
---
 libs/utils/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/utils/map.c b/libs/utils/map.c
index d3e03fb..f289f98 100644
--- a/libs/utils/map.c
+++ b/libs/utils/map.c
@@ -281,6 +281,7 @@ map map_create(const size_t alloc)
 	}
 
 	as.keys_size = 0;
+	as.keys_next = 0;
 	as.keys_alloc = as.values_alloc * MAP_KEY_SIZE;
 
 	as.keys = malloc(as.keys_alloc * sizeof(char));
-- 
2.43.0


From 4d7ccd06e97feca06ee5e332c1dc4699f11f002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:17 +0000
Subject: [PATCH 08/26] fix: string literals that are empty or begin with NUL
 are stored

An empty literal was stored without its terminator, so it named whatever the
storage held; a literal beginning with NUL was refused, and the compiler
crashed on the missing string (printf("\0")).
---
 libs/utils/strings.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 111d0cd..065c38a 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -138,11 +138,17 @@ size_t strings_add_by_utf8(strings *const vec, const char32_t *const str)
 
 size_t strings_add_by_vector(strings *const vec, const vector *const str)
 {
-	if (!strings_is_correct(vec) || !vector_is_correct(str) || vector_get(str, 0) == '\0' || strings_add_index(vec))
+	if (!strings_is_correct(vec) || !vector_is_correct(str) || strings_add_index(vec))
 	{
 		return SIZE_MAX;
 	}
 
+	if (strings_increase(vec, 1))
+	{
+		return SIZE_MAX;
+	}
+
+	vec->all_strings[vec->all_strings_size] = '\0';
 	for (size_t i = 0; i < vector_size(str); i++)
 	{
 		const char32_t ch = (char32_t)vector_get(str, i);
-- 
2.43.0


From a922c4d3231b09e865feae800ef7fcfc41bd452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:17 +0000
Subject: [PATCH 09/26] fix: a failed strings_add leaves the strings as they
 were

Without memory for the rest of a string its beginning stayed behind and was
counted to the length of the last string.
---
 libs/utils/strings.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 065c38a..016720c 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -105,6 +105,7 @@ size_t strings_add(strings *const vec, const char *const str)
 	{
 		if (strings_increase(vec, 2))
 		{
+			vec->all_strings_size = vec->indexes[vec->indexes_size];
 			return SIZE_MAX;
 		}
 
@@ -126,6 +127,7 @@ size_t strings_add_by_utf8(strings *const vec, const char32_t *const str)
 	{
 		if (strings_increase(vec, utf8_size(str[i]) + 1))
 		{
+			vec->all_strings_size = vec->indexes[vec->indexes_size];
 			return SIZE_MAX;
 		}
 
@@ -159,6 +161,7 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 
 		if (strings_increase(vec, utf8_size(ch) + 1))
 		{
+			vec->all_strings_size = vec->indexes[vec->indexes_size];
 			return SIZE_MAX;
 		}
 
-- 
2.43.0


From 791b30cb3bc340d8204af0445dc7928a7f95a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:21 +0000
Subject: [PATCH 10/26] fix: reject out-of-range positions of wide node
 arguments without size_t wrap-around

---
 libs/utils/tree.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index ec61993..45c828a 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -180,12 +180,16 @@ item_t node_get_arg(const node *const nd, const size_t index)
 
 double node_get_arg_double(const node *const nd, const size_t index)
 {
-	return index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
+	return DOUBLE_SIZE <= node_get_argc(nd) && index <= node_get_argc(nd) - DOUBLE_SIZE
+		? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index)
+		: DBL_MAX;
 }
 
 int64_t node_get_arg_int64(const node *const nd, const size_t index)
 {
-	return index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
+	return INT64_SIZE <= node_get_argc(nd) && index <= node_get_argc(nd) - INT64_SIZE
+		? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index)
+		: LLONG_MAX;
 }
 
 size_t node_get_amount(const node *const nd)
@@ -340,7 +344,7 @@ int node_set_arg(const node *const nd, const size_t index, const item_t arg)
 
 size_t node_set_arg_double(const node *const nd, const size_t index, const double arg)
 {
-	if (index + DOUBLE_SIZE > node_get_argc(nd))
+	if (DOUBLE_SIZE > node_get_argc(nd) || index > node_get_argc(nd) - DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -350,7 +354,7 @@ size_t node_set_arg_double(const node *const nd, const size_t index, const doubl
 
 size_t node_set_arg_int64(const node *const nd, const size_t index, const int64_t arg)
 {
-	if (index + INT64_SIZE > node_get_argc(nd))
+	if (INT64_SIZE > node_get_argc(nd) || index > node_get_argc(nd) - INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
-- 
2.43.0


From 785b17021cfcc336178dfaffad4c7d165a21ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:44 +0000
Subject: [PATCH 11/26] fix: there is no next node after the root of an empty
 tree

The root keeps no reference to a next node, so the reference was read outside
of the table and a correct looking node with index ITEM_MAX was returned.
---
 libs/utils/tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index 45c828a..9a95ec8 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -209,7 +209,7 @@ node node_get_next(const node *const nd)
 
 	if (node_get_amount(nd) == 0)
 	{
-		item_t index = vector_get(nd->tree, ref_get_next(nd));
+		item_t index = nd->index != 0 ? vector_get(nd->tree, ref_get_next(nd)) : 0;
 		while (is_negative(index))
 		{
 			// Get next reference from parent
-- 
2.43.0


From 50c27ddc3e87e2c979a63558dc92cee01b90c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:21 +0000
Subject: [PATCH 12/26] fix: a block comment ends at the first '*/' after its
 opening

---
 libs/compiler/lexer.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 28167ed..1fee1f2 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -101,18 +101,20 @@ static inline void skip_line_comment(lexer *const lxr)
  */
 static inline void skip_block_comment(lexer *const lxr)
 {
-	while (lxr->character != '*' || scan(lxr) != '/')
+	// Открывающая '*' не может быть частью закрывающей пары
+	scan(lxr);
+
+	while (lxr->character != (char32_t)EOF)
 	{
-		if (lxr->character == (char32_t)EOF)
+		const bool is_star = lxr->character == '*';
+		if (scan(lxr) == '/' && is_star)
 		{
-			lexer_error(lxr, unterminated_block_comment);
+			scan(lxr);
 			return;
 		}
-
-		scan(lxr);
 	}
 
-	scan(lxr);
+	lexer_error(lxr, unterminated_block_comment);
 }
 
 /**
-- 
2.43.0


From ea02c2c1a3993cf2f330a2540d067b40d5757b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:21 +0000
Subject: [PATCH 13/26] fix: an integer literal too long for 64 bits keeps all
 of its digits

---
 libs/compiler/lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 1fee1f2..81cd4c7 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -223,9 +223,9 @@ static token lex_numeric_literal(lexer *const lxr)
 			return token_int_literal((location){ loc_begin, loc_end }, int_value);
 		}
 
-		if ((base == 2 && int_value >= 0x8000000000000000)
+		if (is_integer && ((base == 2 && int_value >= 0x8000000000000000)
 			|| (base == 8 && int_value >= 0x2000000000000000)
-			|| (int_value >= 0x1000000000000000))
+			|| (int_value >= 0x1000000000000000)))
 		{
 			// Переполнение хранилища - конвертируем в double
 			float_value = (double)int_value;
-- 
2.43.0


From ee88d5a5c913fc9521b13e39aa954cc0166768fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:21 +0000
Subject: [PATCH 14/26] fix: a string literal without closing quote at the end
 of file is reported instead of read forever

---
 libs/compiler/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 81cd4c7..231b358 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -420,7 +420,7 @@ static token lex_string_literal(lexer *const lxr)
 	while (lxr->character == '"')
 	{
 		scan(lxr);
-		while (lxr->character != '"' && lxr->character != '\n')
+		while (lxr->character != '"' && lxr->character != '\n' && lxr->character != (char32_t)EOF)
 		{
 			vector_add(&lxr->lexstr, get_next_string_elem(lxr));
 			scan(lxr);
-- 
2.43.0


From 307bb2aa636e1c150f74d57a7e640da6d8c7e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:18 +0000
Subject: [PATCH 15/26] fix: an integer literal with an exponent beyond 64 bits
 becomes a floating literal

---
 libs/compiler/lexer.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 231b358..7bc7e9c 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -304,14 +304,28 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		while (utf8_is_digit(lxr->character))
 		{
-			power = power * 10 + utf8_to_number(lxr->character);
+			// Большие показатели неотличимы: результат в любом случае вне диапазона
+			if (power < 100000)
+			{
+				power = power * 10 + utf8_to_number(lxr->character);
+			}
 			scan(lxr);
 		}
 
 		if (is_integer)
 		{
-			for (int64_t i = 0; i < power; i++)
+			const double mantissa = (double)int_value;
+			for (int64_t i = 0; i < power && int_value != 0; i++)
 			{
+				if (int_value >= 0x1000000000000000)
+				{
+					// Переполнение хранилища - конвертируем в double
+					float_value = mantissa;
+					is_in_range = false;
+					is_integer = false;
+					break;
+				}
+
 				int_value *= 10;
 			}
 		}
-- 
2.43.0


From f0a5f0d4ee0b54ff090c559bc2b8accd6482680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 16/26] fix: const versions of different types are different
 types

---
 libs/compiler/syntax.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index d49c94a..0900191 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -128,11 +128,6 @@ static inline bool type_is_equal(const syntax *const sx, const size_t first, con
 	size_t length = 1;
 	const item_t type = vector_get(&sx->types, first);
 
-	if (type == TYPE_CONST)
-	{
-		return type_is_equal(sx, type_const_get_unqualified_type(sx, first), type_const_get_unqualified_type(sx, second));
-	}
-
 	// Определяем, сколько полей надо сравнивать для различных типов записей
 	if (type == TYPE_STRUCTURE || type == TYPE_FUNCTION)
 	{
-- 
2.43.0


From 6a8a9a2e96a68576eb4beff5e819be059cb2e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:04 +0000
Subject: [PATCH 17/26] fix: constant folding never traps and treats null as
 false

---
 libs/compiler/builder.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56c5d7..fa73706 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -102,13 +102,13 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 			switch (op)
 			{
 				case UN_MINUS:
-					return build_integer_literal_expression(bldr, -value, loc);
+					return build_integer_literal_expression(bldr, (item_t)(0 - (uint64_t)value), loc);
 				case UN_NOT:
 					return build_integer_literal_expression(bldr, ~value, loc);
 				case UN_LOGNOT:
 					return build_boolean_literal_expression(bldr, value == 0, loc);
 				case UN_ABS:
-					return build_integer_literal_expression(bldr, value >= 0 ? value : -value, loc);
+					return build_integer_literal_expression(bldr, value >= 0 ? value : (item_t)(0 - (uint64_t)value), loc);
 				default:
 					return node_broken();
 			}
@@ -150,24 +150,32 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 		case TYPE_BOOLEAN:
 		{
 			const item_t left_value = expression_literal_get_integer(LHS);
-			const item_t right_value = expression_literal_get_integer(RHS);
+			const item_t right_value = type_is_null_pointer(expression_get_type(RHS)) ? 0 : expression_literal_get_integer(RHS);
+
+			// Операции с неопределённым результатом не вычисляются при компиляции
+			if (((op == BIN_DIV || op == BIN_REM) && (right_value == 0 || (right_value == -1 && left_value == INT64_MIN)))
+				|| ((op == BIN_SHL || op == BIN_SHR) && (right_value < 0 || right_value > 63)))
+			{
+				return expression_binary(type, LHS, RHS, op, loc);
+			}
+
 			node_remove(LHS);
 			node_remove(RHS);
 
 			switch (op)
 			{
 				case BIN_MUL:
-					return build_integer_literal_expression(bldr, left_value * right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value * (uint64_t)right_value), loc);
 				case BIN_DIV:
 					return build_integer_literal_expression(bldr, left_value / right_value, loc);
 				case BIN_REM:
 					return build_integer_literal_expression(bldr, left_value % right_value, loc);
 				case BIN_ADD:
-					return build_integer_literal_expression(bldr, left_value + right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value + (uint64_t)right_value), loc);
 				case BIN_SUB:
-					return build_integer_literal_expression(bldr, left_value - right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value - (uint64_t)right_value), loc);
 				case BIN_SHL:
-					return build_integer_literal_expression(bldr, left_value << right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value << right_value), loc);
 				case BIN_SHR:
 					return build_integer_literal_expression(bldr, left_value >> right_value, loc);
 				case BIN_LT:
-- 
2.43.0


From 0006b691ee14f6f503a75e558ac5e435cc99773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 18/26] fix: logical negation in directive expressions negates

---
 libs/macro/computer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index d345b9d..109691f 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -277,7 +277,7 @@ static inline int computer_const_number(computer *const comp, const item_t pos,
 			case TK_NOT:
 				stack_pop(&comp->operators);
 				stack_pop(&comp->operators);
-				num = num != 0 ? 1 : 0;
+				num = num == 0 ? 1 : 0;
 				break;
 			case TK_U_NEGATION:
 				stack_pop(&comp->operators);
-- 
2.43.0


From d5761cd16222018b3a475ac30e53f8803ffa8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 19/26] fix: unary operators before a parenthesised directive
 expression apply to it

---
 libs/macro/computer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 109691f..2d3ec99 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -345,7 +345,10 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	{
 		stack_pop(&comp->operators);
 		stack_pop(&comp->operators);
-		return 0;
+
+		// Унарные операторы перед скобкой применяются ко всему выражению в ней
+		comp->was_number = false;
+		return computer_const_number(comp, (item_t)pos, stack_pop(&comp->numbers), ")");
 	}
 
 	const int priority = computer_compare_priority(previous, tk);
-- 
2.43.0


From 39fc3ea94073585cdc57083b58f0106e394e2b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:21 +0000
Subject: [PATCH 20/26] fix: division by zero in a directive expression is
 reported instead of trapping

---
 libs/macro/computer.c | 25 +++++++++++++++++--------
 libs/macro/error.c    |  3 +++
 libs/macro/error.h    |  1 +
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 2d3ec99..091c3e1 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -166,19 +166,25 @@ static inline int computer_token_without_number(computer *const comp, const item
 static int computer_select_three(computer *const comp)
 {
 	const token_t operator = stack_pop(&comp->operators);
-	stack_pop(&comp->operators);
+	const item_t pos = stack_pop(&comp->operators);
 
 	const item_t second = stack_pop(&comp->numbers);
 	const item_t first = stack_pop(&comp->numbers);
 
+	if ((operator == TK_DIV || operator == TK_MOD) && second == 0)
+	{
+		computer_error(comp, pos, EXPR_DIVISION_BY_ZERO);
+		return -1;
+	}
+
 	switch(operator)
 	{
 		case TK_MULT:
 			return stack_push(&comp->numbers, first * second);
 		case TK_DIV:
-			return stack_push(&comp->numbers, first / second);
+			return stack_push(&comp->numbers, second == -1 ? (item_t)(0 - (uint64_t)first) : first / second);
 		case TK_MOD:
-			return stack_push(&comp->numbers, first % second);
+			return stack_push(&comp->numbers, second == -1 ? 0 : first % second);
 		case TK_ADD:
 			return stack_push(&comp->numbers, first + second);
 		case TK_SUB:
@@ -354,13 +360,12 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	const int priority = computer_compare_priority(previous, tk);
 	if (priority > 0)
 	{
-		computer_select_three(comp);
-		return computer_push_token(comp, pos, tk);
+		return computer_select_three(comp) == 0 ? computer_push_token(comp, pos, tk) : -1;
 	}
 
-	if (priority == 0)
+	if (priority == 0 && computer_select_three(comp) != 0)
 	{
-		computer_select_three(comp);
+		return -1;
 	}
 
 	stack_push(&comp->operators, (item_t)pos);
@@ -423,7 +428,11 @@ item_t computer_pop_result(computer *const comp)
 			return 0;
 		}
 
-		computer_select_three(comp);
+		if (computer_select_three(comp) != 0)
+		{
+			return 0;
+		}
+
 		operator = stack_peek(&comp->operators);
 	}
 
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 24f53b2..eba335e 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -287,6 +287,9 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
+		case EXPR_DIVISION_BY_ZERO:
+			sprintf(msg, "деление на ноль в выражении");
+			break;
 
 		default:
 			sprintf(msg, "неизвестная ошибка");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 1c281e6..eb6a852 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -73,6 +73,7 @@ typedef enum ERROR
 	EXPR_MISSING_BETWEEN,
 	EXPR_NO_LEFT_OPERAND,
 	EXPR_NO_RIGHT_OPERAND,
+	EXPR_DIVISION_BY_ZERO,
 } error_t;
 
 /** Warning codes */
-- 
2.43.0


From ec087fd26b82cf45da11c0280cbd665e07a06572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:01 +0000
Subject: [PATCH 21/26] fix: integer compound assignments have a version
 without result, like the others

---
 libs/compiler/instructions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index 764cdaf..f52e03b 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -166,7 +166,7 @@ instruction_t instruction_to_floating_ver(const instruction_t instruction)
 
 instruction_t instruction_to_void_ver(const instruction_t instruction)
 {
-	return (instruction >= IC_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
+	return (instruction >= IC_REM_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
 		|| (instruction >= IC_POST_INC && instruction <= IC_PRE_DEC_AT)
 		|| (instruction >= IC_ASSIGN_R && instruction <= IC_DIV_ASSIGN_AT_R)
 		|| (instruction >= IC_POST_INC_R && instruction <= IC_PRE_DEC_AT_R)
-- 
2.43.0


From 96c60153a77fd5dc2681e0815c3260486ccd4b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 22/26] fix: over-long, empty and root paths of the workspace
 are handled within its buffers

---
 libs/utils/workspace.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 452f63d..9665ac8 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -70,10 +70,15 @@ static void ws_unix_path(const char *const path, char *const buffer)
 
 		if (buffer[j - 1] == '/')
 		{
-			if (j - last == 2 && buffer[last] == '.')
+			if ((j - last == 2 && buffer[last] == '.') || (j - last == 1 && last > 1))
 			{
 				j = last;
 			}
+			else if (last == 1 && buffer[0] == '/' && j == 4 && buffer[1] == '.' && buffer[2] == '.')
+			{
+				// Корневая директория совпадает со своей родительской
+				j = last;
+			}
 			else if (last != 0 && j - last == 3 && buffer[last] == '.' && buffer[last + 1] == '.'
 				&& !((last > 3 && buffer[last - 2] == '.' && buffer[last - 3] == '.' && buffer[last - 4] == '/')
 					|| (last == 3 && buffer[last - 2] == '.' && buffer[last - 3] == '.')))
@@ -91,7 +96,12 @@ static void ws_unix_path(const char *const path, char *const buffer)
 		i++;
 	}
 
-	buffer[buffer[j - 1] == '/' ? j - 1 : j] = '\0';
+	if (j == 0)
+	{
+		buffer[j++] = '.';
+	}
+
+	buffer[j > 1 && buffer[j - 1] == '/' ? j - 1 : j] = '\0';
 }
 
 static size_t ws_exists(const char *const element, const strings *const vec)
@@ -120,7 +130,7 @@ static inline size_t ws_add_string(strings *const vec, const char *const str)
 
 static inline size_t ws_add_path(workspace *const ws, strings *const vec, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || path[0] == '\0' || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return SIZE_MAX;
@@ -261,7 +271,7 @@ int ws_add_flags(workspace *const ws, const char *const *const flags, const size
 
 int ws_set_output(workspace *const ws, const char *const path)
 {
-	if (!ws_is_correct(ws) || path == NULL)
+	if (!ws_is_correct(ws) || path == NULL || strlen(path) >= MAX_ARG_SIZE)
 	{
 		ws_add_error(ws);
 		return -1;
-- 
2.43.0


From b95a7e4598c34665af5e80a4fd74d19052ed1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:40 +0000
Subject: [PATCH 23/26] fix: the linker accepts indexes of its files only and
 releases its memory

---
 libs/macro/linker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index 3e89f65..6dc12b8 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -175,7 +175,7 @@ size_t linker_get_index(const linker *const lk)
 
 int linker_set_index(linker *const lk, const size_t index)
 {
-	if (!linker_is_correct(lk) && index >= ws_get_files_num(lk->ws))
+	if (!linker_is_correct(lk) || index >= ws_get_files_num(lk->ws))
 	{
 		return -1;
 	}
@@ -203,7 +203,7 @@ bool linker_is_correct(const linker *const lk)
 
 int linker_clear(linker *const lk)
 {
-	if (lk != NULL)
+	if (lk == NULL)
 	{
 		return -1;
 	}
-- 
2.43.0


From b6e8a9ae8b504ea932ae2592f6553c29ba8f0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 24/26] fix: arithmetic of directive expressions wraps at 64
 bits and shifts by the count modulo 64

---
 libs/macro/computer.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 091c3e1..8d357a7 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -180,19 +180,19 @@ static int computer_select_three(computer *const comp)
 	switch(operator)
 	{
 		case TK_MULT:
-			return stack_push(&comp->numbers, first * second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first * (uint64_t)second));
 		case TK_DIV:
 			return stack_push(&comp->numbers, second == -1 ? (item_t)(0 - (uint64_t)first) : first / second);
 		case TK_MOD:
 			return stack_push(&comp->numbers, second == -1 ? 0 : first % second);
 		case TK_ADD:
-			return stack_push(&comp->numbers, first + second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first + (uint64_t)second));
 		case TK_SUB:
-			return stack_push(&comp->numbers, first - second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first - (uint64_t)second));
 		case TK_L_SHIFT:
-			return stack_push(&comp->numbers, first << second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first << (second & 63)));
 		case TK_R_SHIFT:
-			return stack_push(&comp->numbers, first >> second);
+			return stack_push(&comp->numbers, first >> (second & 63));
 		case TK_LESS:
 			return stack_push(&comp->numbers, first < second ? 1 : 0);
 		case TK_GREATER:
@@ -288,7 +288,7 @@ static inline int computer_const_number(computer *const comp, const item_t pos,
 			case TK_U_NEGATION:
 				stack_pop(&comp->operators);
 				stack_pop(&comp->operators);
-				num = -num;
+				num = (item_t)(0 - (uint64_t)num);
 				break;
 			case TK_U_PLUS:
 				stack_pop(&comp->operators);
-- 
2.43.0


From 1223285c4c3e8ea8d9fe40ef5bd25cf95d52e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 25/26] fix: types with many members, enumerators or parameters
 do not overrun their buffers

---
 libs/compiler/parser.c | 37 +++++++++++++++++++++++--------------
 libs/compiler/syntax.c | 21 ++++++++++++---------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9b6f1a5..fadb623 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1070,9 +1070,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		return TYPE_UNDEFINED;
 	}
 
-	size_t local_md = 2;
 	item_t field_value = 0;
-	item_t local_modetab[100];
+	vector record = vector_create(2);
+	vector_increase(&record, 2);
 
 	const item_t type = type_add(prs->sx, (item_t[]){ TYPE_ENUM }, 1);
 
@@ -1105,6 +1105,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
@@ -1114,8 +1115,8 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
 		}
 
-		local_modetab[local_md++] = field_value - 1;
-		local_modetab[local_md++] = (item_t)name;
+		vector_add(&record, field_value - 1);
+		vector_add(&record, (item_t)name);
 		if (token_is(&prs->tk, TK_R_BRACE))
 		{
 			continue;
@@ -1123,10 +1124,11 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		expect_and_consume(prs, TK_COMMA, no_comma_in_enum);
 	} while (!try_consume_token(prs, TK_R_BRACE));
 
-	local_modetab[1] = (item_t)(local_md - 2);
-	local_modetab[0] = local_modetab[2] / 2;
+	vector_set(&record, 1, (item_t)vector_size(&record) - 2);
+	vector_set(&record, 0, vector_get(&record, 2) / 2);
 
-	type_enum_add_fields(prs->sx, local_modetab, local_md);
+	type_enum_add_fields(prs->sx, record.array, vector_size(&record));
+	vector_clear(&record);
 	return type;
 }
 
@@ -1869,9 +1871,9 @@ static node parse_statement(parser *const prs)
  */
 static item_t parse_function_declarator(parser *const prs, const int level, int func_def, const item_t return_type)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
 	size_t args = 0;
+	vector record = vector_create(3);
+	vector_increase(&record, 3);
 
 	if (try_consume_token(prs, TK_R_PAREN))
 	{
@@ -1914,6 +1916,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 				parser_error(prs, ident_in_declarator);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
 				try_consume_token(prs, TK_R_PAREN);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 
@@ -1956,6 +1959,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 						else
 						{
 							parser_error(prs, two_idents_for_1_declarer);
+							vector_clear(&record);
 							return TYPE_UNDEFINED;
 						}
 						func_add(prs->sx, -((item_t)token_get_ident_name(&prs->tk)));
@@ -1964,6 +1968,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					else
 					{
 						parser_error(prs, ident_in_declarator);
+						vector_clear(&record);
 						return TYPE_UNDEFINED;
 					}
 				}
@@ -1999,28 +2004,32 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					skip_until(prs, TK_R_BRACE);
 					try_consume_token(prs, TK_R_BRACE);
 				}
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 			else if (func_def == 1 && !was_ident)
 			{
 				parser_error(prs, wait_definition);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
+				vector_clear(&record);
 				return TYPE_UNDEFINED;
 			}
 
 			args++;
-			local_modetab[local_md++] = type;
+			vector_add(&record, type);
 		} while (try_consume_token(prs, TK_COMMA));
 
 		expect_and_consume(prs, TK_R_PAREN, wrong_param_list);
 		prs->func_def = func_def;
 	}
 
-	local_modetab[0] = TYPE_FUNCTION;
-	local_modetab[1] = return_type;
-	local_modetab[2] = (item_t)args;
+	vector_set(&record, 0, TYPE_FUNCTION);
+	vector_set(&record, 1, return_type);
+	vector_set(&record, 2, (item_t)args);
 
-	return type_add(prs->sx, local_modetab, local_md);
+	const item_t result = type_add(prs->sx, record.array, vector_size(&record));
+	vector_clear(&record);
+	return result;
 }
 
 /**
diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 0900191..9fb6e65 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -715,25 +715,28 @@ item_t type_array_get_element_type(const syntax *const sx, const item_t type)
 
 item_t type_structure(syntax *const sx, vector *const types, vector *const names)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
-
 	const size_t members = vector_size(types);
+	vector record = vector_create(3 + 2 * members);
+	vector_increase(&record, 3);
+
 	item_t displ = 0;
 	for (size_t i = 0; i < members; i++)
 	{
 		const item_t type = vector_get(types, i);
 		const item_t name = vector_get(names, i);
 
-		local_modetab[local_md++] = type;
-		local_modetab[local_md++] = name;
+		vector_add(&record, type);
+		vector_add(&record, name);
 		displ += type_size(sx, type);
 	}
 
-	local_modetab[0] = TYPE_STRUCTURE;
-	local_modetab[1] = (item_t)displ;
-	local_modetab[2] = (item_t)members * 2;
-	return type_add(sx, local_modetab, local_md);
+	vector_set(&record, 0, TYPE_STRUCTURE);
+	vector_set(&record, 1, displ);
+	vector_set(&record, 2, (item_t)members * 2);
+
+	const item_t result = type_add(sx, record.array, vector_size(&record));
+	vector_clear(&record);
+	return result;
 }
 
 size_t type_structure_get_member_amount(const syntax *const sx, const item_t type)
-- 
2.43.0


From 137650e55ce441b59b818be9306a9dd29acd4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:25 +0000
Subject: [PATCH 26/26] fix: reject ++ and -- on constants, and assignments to
 elements of arrays in constant structures

---
 libs/compiler/builder.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index fa73706..478bff0 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -638,9 +638,12 @@ node build_subscript_expression(builder *const bldr, node *const base, node *con
 	}
 
 	const item_t element_type = type_array_get_element_type(bldr->sx, base_type);
+	const item_t type = type_is_const(bldr->sx, base_type) && !type_is_const(bldr->sx, element_type)
+		? type_const(bldr->sx, element_type)
+		: element_type;
 
 	const location loc = { node_get_location(base).begin, r_loc.end };
-	return expression_subscript(element_type, base, index, loc);
+	return expression_subscript(type, base, index, loc);
 }
 
 node build_call_expression(builder *const bldr, node *const callee
@@ -821,6 +824,12 @@ node build_unary_expression(builder *const bldr, node *const operand, const unar
 				return node_broken();
 			}
 
+			if (type_is_const(bldr->sx, operand_type))
+			{
+				semantic_error(bldr, op_loc, assign_to_const);
+				return node_broken();
+			}
+
 			return expression_unary(operand_type, RVALUE, operand, op_kind, loc);
 		}
 
-- 
2.43.0

