From de8563acceefc000774da9a6dcc2d7691ce9230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 01/41] fix: import is_slinkuhi in jvozba (get_lujvo always
 raised NameError)

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From a365933cb57a6c02d0cc2433592a7821d66419c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 02/41] fix: normalise no longer raises IndexError on an empty
 string

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..75c205a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word[:1] == ".":
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
-- 
2.43.0


From 020019bd28acc3fb6bb7d569da8296b094126d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 03/41] fix: analyse_brivla reports a bad vowel sequence after
 y' as NotBrivlaError

---
 py/latkerlo_jvotci/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 75c205a..13d50b2 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,8 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
-                raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            try:
+                if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+                    raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            except DecompositionError as e:
+                raise NotBrivlaError(f"bad vowel sequence after ': {{{part}}}") from e
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
         if next_hyphen:
-- 
2.43.0


From db8257d13507030d1e603dc850dbc34e05046da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 04/41] fix: analyse_brivla no longer raises IndexError on 'yy

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 13d50b2..a4dc09b 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -351,7 +351,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][:1] != "'":
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From 96c7dc07220d56e4b3b0ca479a9bb9f493421c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 05/41] fix: score_lujvo charges hyphens as
 get_lujvo_with_analytics does

---
 py/latkerlo_jvotci/katna.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..25ecb56 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,12 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
-        for r in decomp
-    ) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak(lujvo)
 
 
 def get_veljvo(
-- 
2.43.0


From c38f8fcf839f154800cd95248ff9d1ffbe33a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 06/41] fix: apply the two-rafsi tiebreak to two-component
 tanru only, as score_lujvo does

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..472b9f7 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -395,7 +395,7 @@ def combine(
     return (
         tosmabru_type,
         total_consonants,
-        lujvo_score + score(hyphen) + score(rafsi) - tiebreak(res),
+        lujvo_score + score(hyphen) + score(rafsi) - (tiebreak(res) if tanru_len == 2 else 0),
         res,
         index_list
     )
-- 
2.43.0


From 2be87c731b6108ca5ad3a7dea3788e703240ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:36 +0000
Subject: [PATCH 07/41] fix: combine checks the previous rafsi before a final
 vowel-only rafsi, as in JS and Rust

---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 472b9f7..f1ad7ff 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From 69bfbe40ba854551549cd88774c2358e592ec271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 08/41] fix: is_valid_rafsi accepts only the four diphthongs in
 CVV rafsi

---
 py/latkerlo_jvotci/tarmi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 7558bb5..069c35b 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -263,6 +263,8 @@ def is_valid_rafsi(rafsi: str, allow_mz: bool = False) -> bool:
         return rafsi[2:4] in (MZ_VALID if allow_mz else VALID)
     if raftai in [CCVCV, CCVC, CCV]:
         return rafsi[:2] in INITIAL
+    if raftai == CVV:
+        return rafsi[1:] in ["ai", "ei", "oi", "au"]
     return 1 <= raftai <= 8
 
 
-- 
2.43.0


From 85b37c38cd80219774f48ff366c087646123cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 09/41] fix: analyse_brivla applies the tosmabru test to brivla
 only, so cmevla from get_lujvo decompose

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index a4dc09b..4733c67 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -414,7 +414,7 @@ def analyse_brivla(
                     to_part = part[:2]
                     smabru_part = part[2:]
 
-                if smabru_part:
+                if smabru_part and not is_cmevlatai:
                     if did_add_a:
                         smabru_part = smabru_part[:-1]
                     else:
-- 
2.43.0


From f6c3434c4dca2936650ce32c7aef3d2234f3991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 10/41] fix: zi'evla falling-apart test honours allow_mz

---
 py/latkerlo_jvotci/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 4733c67..79181fd 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -185,12 +185,12 @@ def check_zihevla_or_rafsi(
 
     elif num_syllables > 2:
         if cluster_pos and cluster_pos > 0:
-            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens):
+            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                 raise NotZihevlaError(f"falls apart at cluster: {{{valsi_copy[0:cluster_pos]}_{valsi_copy[cluster_pos:]}}}")
 
             for i in range(1, cluster_pos):
                 if is_consonant(valsi_copy[cluster_pos - i]) or is_glide(valsi_copy[cluster_pos - i:]):
-                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens):
+                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
-- 
2.43.0


From aa1c3150387bc9ef1f5b5b259ae6f107cdcc8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 11/41] fix: jvokaha_2 no longer raises IndexError on a final r
 after a CVV rafsi

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 25ecb56..c2101ac 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or lujvo[0] == "r" and len(lujvo) > 1 and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
-- 
2.43.0


From b1007a5482d2fa3a92e597c3737ac689c5aebdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 12/41] fix: is_slinkuhi recognises extended lujvo
 (klingonygu'e)

---
 py/latkerlo_jvotci/tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 79181fd..5fb6594 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -72,7 +72,12 @@ def is_slinkuhi(string: str, y_hyphens: str = STANDARD, allow_mz: bool = False)
         jvokaha("to" + string, y_hyphens=y_hyphens, allow_mz=allow_mz)
         return True
     except (DecompositionError, InvalidClusterError):
-        return False
+        # the lujvo may also be an extended one (klingonygu'e)
+        return (
+            "y" in string
+            and is_consonant(string[1])
+            and is_brivla("to" + string, y_hyphens=y_hyphens, allow_mz=allow_mz)
+        )
 
 
 def check_zihevla_or_rafsi(
-- 
2.43.0


From ad2a32432a3f03830d93bbb5687e1adf19e5155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 13/41] fix: analyse_brivla tosmabru test also tries dropping
 more than one leading CVV rafsi

---
 py/latkerlo_jvotci/tools.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 5fb6594..93f7659 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -419,12 +419,12 @@ def analyse_brivla(
                     to_part = part[:2]
                     smabru_part = part[2:]
 
-                if smabru_part and not is_cmevlatai:
-                    if did_add_a:
-                        smabru_part = smabru_part[:-1]
-                    else:
-                        smabru_part = strip_hyphens(smabru_part)
+                if did_add_a:
+                    smabru_part = smabru_part[:-1]
+                else:
+                    smabru_part = strip_hyphens(smabru_part)
 
+                while smabru_part and not is_cmevlatai:
                     if is_valid_rafsi(smabru_part) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
@@ -433,6 +433,16 @@ def analyse_brivla(
                         raise NotBrivlaError("tosmabru")
                     except (DecompositionError, InvalidClusterError, TypeError):
                         pass
+
+                    # the next rafsi might fall off too (moi bau tuzla'yjelfi)
+                    if rafsi_tarmi(smabru_part[:4]) == CVhV:
+                        to_length = 4
+                    elif rafsi_tarmi(smabru_part[:3]) == CVV:
+                        to_length = 3
+                    else:
+                        break
+                    to_part += smabru_part[:to_length]
+                    smabru_part = smabru_part[to_length:]
         else:
             require_zihevla = require_cluster or not exp_rafsi_shapes
             try:
-- 
2.43.0


From ef41853494f973095eb960b4a009d367544f3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 14/41] fix: tosmabru test honours allow_mz for 5-letter rafsi

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 93f7659..5da0dcf 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -425,7 +425,7 @@ def analyse_brivla(
                     smabru_part = strip_hyphens(smabru_part)
 
                 while smabru_part and not is_cmevlatai:
-                    if is_valid_rafsi(smabru_part) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
+                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
                     try:
-- 
2.43.0


From 9ef0230b8bacc1b1f5664119391cf6de3c3391cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 15/41] fix: get_lujvo reports a tanru of fewer than two
 components or with an empty one instead of IndexError

---
 py/latkerlo_jvotci/jvozba.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index f1ad7ff..32018df 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -167,7 +167,7 @@ def get_rafsi_list_list(
         rafsi_list: list[tuple[str, int]] = []
         is_first = i == 0
         is_last = i == len(valsi_list) - 1
-        if valsi[-1] == "-":
+        if valsi[-1:] == "-":
             is_short_brivla = valsi[0] != "-"
             valsi = valsi.strip('-')
             if not is_only_lojban_characters(valsi):
@@ -442,6 +442,8 @@ def get_lujvo_from_list(
     :return: The best lujvo, its score, and list of rafsi start/end indices.
     """
     rafsi_list_list = get_rafsi_list_list(valsi_list, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
+    if len(rafsi_list_list) < 2:
+        raise NoLujvoFoundError(f"a lujvo needs at least two components: {{{' '.join(valsi_list)}}}")
     current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
-- 
2.43.0


From d8301274f81f8f8a52b9ee0a61365647d97872bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 16/41] fix: score_lujvo applies the tiebreak to the normalised
 word

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index c2101ac..fdbaba8 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,7 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(score(r) for r in decomp) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak("".join(decomp))
 
 
 def get_veljvo(
-- 
2.43.0


From d5ed208ee8b591eccceb07e9b7fc33ac9945660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 17/41] fix: JavaScript reports a tanru of fewer than two
 components instead of TypeError, as in Python

---
 js/docs/jvozba.js | 2 ++
 js/docs/katna.js  | 2 +-
 js/src/jvozba.ts  | 2 ++
 js/src/katna.ts   | 2 +-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 0cb9709..d6cf595 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -392,6 +392,8 @@ function updateCurrentBest(candidate, currentBest) {
  */
 function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphenSetting.STANDARD, expRafsiShapes = false, consonants = ConsonantSetting.CLUSTER, glides = false, allowMZ = false } = {}) {
     const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+    if (rafsiListList.length < 2)
+        throw new NoLujvoFoundError("a lujvo needs at least two components: {" + valsiList.join(" ") + "}");
     let currentBest = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
     rafsiListList[0].forEach((rafsi0) => {
         rafsiListList[1].forEach((rafsi1) => {
diff --git a/js/docs/katna.js b/js/docs/katna.js
index 54883e5..f55563b 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -100,7 +100,7 @@ function jvokaha(lujvo, { yHyphens = YHyphenSetting.STANDARD, consonants = Conso
     const arr = jvokaha2(lujvo, { yHyphens: yHyphens, allowMZ: allowMZ });
     const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
     if (rafsiTanru.length == 1) {
-        throw new TypeError("not enough rafsi");
+        throw new DecompositionError("not enough rafsi");
     }
     let correctLujvo;
     try {
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 10f67b8..e4c80b9 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -481,6 +481,8 @@ function getLujvoFromList(
   } = {}
 ): [string, number, [number, number][]] {
   const rafsiListList = getRafsiListList(valsiList, { yHyphens, expRafsiShapes, consonants, glides, allowMZ });
+  if (rafsiListList.length < 2)
+    throw new NoLujvoFoundError("a lujvo needs at least two components: {" + valsiList.join(" ") + "}");
   let currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][] = [[new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()], [new Map(), new Map(), new Map()]];
   rafsiListList[0].forEach((rafsi0) => {
     rafsiListList[1].forEach((rafsi1) => {
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 7f0abbe..d053ffb 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -125,7 +125,7 @@ function jvokaha(
 
   const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
   if (rafsiTanru.length == 1) {
-    throw new TypeError("not enough rafsi");
+    throw new DecompositionError("not enough rafsi");
   }
   let correctLujvo: string;
   try {
-- 
2.43.0


From 69a094ef2fe8dd6b084e94901a87cbc970a124c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 18/41] fix: JavaScript scoreLujvo and getLujvoWithAnalytics
 agree on hyphens and tiebreak, as in Python

---
 js/docs/jvozba.js | 2 +-
 js/docs/katna.js  | 2 +-
 js/src/jvozba.ts  | 2 +-
 js/src/katna.ts   | 4 +---
 4 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index d6cf595..dd278d5 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -355,7 +355,7 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     return [
         tosmabruType,
         totalConsonants,
-        lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+        lujvoScore + score(hyphen) + score(rafsi) - (tanruLen === 2 ? tiebreak(lujvo + hyphen + rafsi) : 0),
         lujvo + hyphen + rafsi,
         indexList
     ];
diff --git a/js/docs/katna.js b/js/docs/katna.js
index f55563b..488a894 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,7 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(r => ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+    return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(decomp.join(""));
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index e4c80b9..a240115 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -429,7 +429,7 @@ function combine(
   return [
     tosmabruType,
     totalConsonants,
-    lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+    lujvoScore + score(hyphen) + score(rafsi) - (tanruLen === 2 ? tiebreak(lujvo + hyphen + rafsi) : 0),
     lujvo + hyphen + rafsi,
     indexList
   ];
diff --git a/js/src/katna.ts b/js/src/katna.ts
index d053ffb..8049fec 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,9 +300,7 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(r =>
-    ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)
-  ).reduce((a, b) => a + b) - tiebreak(lujvo);
+  return decomp.map(r => score(r)).reduce((a, b) => a + b) - tiebreak(decomp.join(""));
 }
 
 /**
-- 
2.43.0


From f1be73bb1a776cecf8bfee4ea8fc6447377b46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 19/41] fix: JavaScript isValidRafsi accepts only the four
 diphthongs in CVV rafsi, as in Python

---
 js/docs/tarmi.js | 2 ++
 js/src/tarmi.ts  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index d30af4e..94ec62d 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -266,6 +266,8 @@ function isValidRafsi(rafsi, allowMZ = false) {
         return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
     if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
         return INITIAL.includes(rafsi.slice(0, 2));
+    if (raftai === Tarmi.CVV)
+        return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
     return 1 <= raftai && raftai <= 8;
 }
 /**
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 3f2814d..dc2d56c 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -279,6 +279,8 @@ function isValidRafsi(rafsi: string, allowMZ = false): boolean {
     return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
   if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
     return INITIAL.includes(rafsi.slice(0, 2));
+  if (raftai === Tarmi.CVV)
+    return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
   return 1 <= raftai && raftai <= 8;
 }
 
-- 
2.43.0


From 1f438ba1385c7563acc21a0201d0a863c2d56639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 20/41] fix: JavaScript zi'evla falling-apart test honours
 allowMZ, as in Python

---
 js/docs/tools.js | 4 ++--
 js/src/tools.ts  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4ee6fe0..aaa3bae 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -177,11 +177,11 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
     }
     else if (numSyllables > 2) {
         if (clusterPos !== null && clusterPos > 0) {
-            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
                 throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
             for (let i = 1; i < clusterPos; i++) {
                 if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
                         throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
                 }
             }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 48a32f5..3c8fbf3 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -216,12 +216,12 @@ function checkZihevlaOrRafsi(
 
   } else if (numSyllables > 2) {
     if (clusterPos !== null && clusterPos > 0) {
-      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
         throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
 
       for (let i = 1; i < clusterPos; i++) {
         if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
         }
       }
-- 
2.43.0


From 7650c17c2485043771e9effb0c645610102a7a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 21/41] fix: JavaScript analyseBrivla reports a bad vowel
 sequence after y' as NotBrivlaError, as in Python

---
 js/docs/tools.js | 11 ++++++++++-
 js/src/tools.ts  | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index aaa3bae..1ab3b88 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -305,7 +305,16 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 throw new NotBrivlaError("that was only a '");
             let firstCons = [...part].findIndex(c => !isVowel(c));
             let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-            if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+            let startsWithGlide;
+            try {
+                startsWithGlide = isVowel(part[0]) && FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+            }
+            catch (e) {
+                if (e instanceof DecompositionError)
+                    throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+                throw e;
+            }
+            if (!isVowel(part[0]) || startsWithGlide)
                 throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
         }
         else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 3c8fbf3..de81855 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -375,7 +375,15 @@ function analyseBrivla(
         throw new NotBrivlaError("that was only a '");
       let firstCons = [...part].findIndex(c => !isVowel(c));
       let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-      if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+      let startsWithGlide: boolean;
+      try {
+        startsWithGlide = isVowel(part[0]) && FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]);
+      } catch (e) {
+        if (e instanceof DecompositionError)
+          throw new NotBrivlaError(`bad vowel sequence after ': {${part}}`);
+        throw e;
+      }
+      if (!isVowel(part[0]) || startsWithGlide)
         throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
     } else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
       throw new NotBrivlaError(`non-glide vowel after y: {${part}}`);
-- 
2.43.0


From fb3219ff9b969fe8795727b224e86a61084aa927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 22/41] fix: JavaScript tosmabru test tries every leading CVV
 rafsi, honours allowMZ and spares cmevla, as in Python

---
 js/docs/tools.js | 22 ++++++++++++++++------
 js/src/tools.ts  | 23 +++++++++++++++++------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 1ab3b88..34de1a5 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -414,12 +414,12 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                     toPart = part.slice(0, 2);
                     smabruPart = part.slice(2);
                 }
-                if (smabruPart.length > 0) {
-                    if (didAddA)
-                        smabruPart = smabruPart.slice(0, -1);
-                    else
-                        smabruPart = stripHyphens(smabruPart);
-                    if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+                if (didAddA)
+                    smabruPart = smabruPart.slice(0, -1);
+                else
+                    smabruPart = stripHyphens(smabruPart);
+                while (smabruPart.length > 0 && !isCmevlatai) {
+                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
@@ -429,6 +429,16 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                             throw e;
                     }
+                    // the next rafsi might fall off too (moi bau tuzla'yjelfi)
+                    let toLength;
+                    if (rafsiTarmi(smabruPart.slice(0, 4)) === Tarmi.CVhV)
+                        toLength = 4;
+                    else if (rafsiTarmi(smabruPart.slice(0, 3)) === Tarmi.CVV)
+                        toLength = 3;
+                    else
+                        break;
+                    toPart += smabruPart.slice(0, toLength);
+                    smabruPart = smabruPart.slice(toLength);
                 }
             }
         }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index de81855..2de4c6b 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -488,13 +488,13 @@ function analyseBrivla(
           smabruPart = part.slice(2);
         }
 
-        if (smabruPart.length > 0) {
-          if (didAddA)
-            smabruPart = smabruPart.slice(0, -1);
-          else
-            smabruPart = stripHyphens(smabruPart);
+        if (didAddA)
+          smabruPart = smabruPart.slice(0, -1);
+        else
+          smabruPart = stripHyphens(smabruPart);
 
-          if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+        while (smabruPart.length > 0 && !isCmevlatai) {
+          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
           try {
@@ -504,6 +504,17 @@ function analyseBrivla(
             if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
               throw e;
           }
+
+          // the next rafsi might fall off too (moi bau tuzla'yjelfi)
+          let toLength: number;
+          if (rafsiTarmi(smabruPart.slice(0, 4)) === Tarmi.CVhV)
+            toLength = 4;
+          else if (rafsiTarmi(smabruPart.slice(0, 3)) === Tarmi.CVV)
+            toLength = 3;
+          else
+            break;
+          toPart += smabruPart.slice(0, toLength);
+          smabruPart = smabruPart.slice(toLength);
         }
       }
 
-- 
2.43.0


From 515728d32e8639ee378fd71397ea4bc6f438117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 23/41] fix: JavaScript isSlinkuhi recognises extended lujvo,
 as in Python

---
 js/docs/tools.js | 5 ++++-
 js/src/tools.ts  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 34de1a5..0374730 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -70,7 +70,10 @@ function isSlinkuhi(aString, { yHyphens = YHyphenSetting.STANDARD, allowMZ = fal
     }
     catch (e) {
         if (e instanceof DecompositionError || e instanceof InvalidClusterError)
-            return false;
+            // the lujvo may also be an extended one (klingonygu'e)
+            return aString.includes("y")
+                && isConsonant(aString[1])
+                && isBrivla("to" + aString, { yHyphens: yHyphens, allowMZ: allowMZ });
         else
             throw e;
     }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 2de4c6b..6f9862a 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -88,7 +88,10 @@ function isSlinkuhi(
     return true;
   } catch (e) {
     if (e instanceof DecompositionError || e instanceof InvalidClusterError)
-      return false;
+      // the lujvo may also be an extended one (klingonygu'e)
+      return aString.includes("y")
+        && isConsonant(aString[1])
+        && isBrivla("to" + aString, { yHyphens: yHyphens, allowMZ: allowMZ });
     else
       throw e;
   }
-- 
2.43.0


From 18ead9b9f23d62ef5269ac95a596506464590666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 24/41] fix: JavaScript jvokaha decomposes the correct lujvo
 under the same y-hyphen rules, as in Python

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 488a894..9a39dda 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -122,7 +122,7 @@ function jvokaha(lujvo, { yHyphens = YHyphenSetting.STANDARD, consonants = Conso
     if (yHyphens == YHyphenSetting.FORCE_Y)
         coolAndGood = correctLujvo === lujvo;
     else
-        coolAndGood = compareLujvoPieces(jvokaha2(correctLujvo, { yHyphens: YHyphenSetting.STANDARD, allowMZ: allowMZ }), arr);
+        coolAndGood = compareLujvoPieces(jvokaha2(correctLujvo, { yHyphens: yHyphens, allowMZ: allowMZ }), arr);
     if (coolAndGood)
         return arr;
     else
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 8049fec..ba15b38 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -150,7 +150,7 @@ function jvokaha(
   if (yHyphens == YHyphenSetting.FORCE_Y)
     coolAndGood = correctLujvo === lujvo;
   else
-    coolAndGood = compareLujvoPieces(jvokaha2(correctLujvo, { yHyphens: YHyphenSetting.STANDARD, allowMZ: allowMZ }), arr);
+    coolAndGood = compareLujvoPieces(jvokaha2(correctLujvo, { yHyphens: yHyphens, allowMZ: allowMZ }), arr);
 
   if (coolAndGood)
     return arr;
-- 
2.43.0


From 61d166675b610b5cab347add822fab28d9a7555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 25/41] fix: js/docs/rafsi.js has the rafsi of fizbu and jicfo,
 as its TypeScript source and Python

---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..549e4f6 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ["zbu"]],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ["cfo"]],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0


From aa572ff2b85ebfb81a3f8d6afa2f4843e50f217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 26/41] fix: Rust score_lujvo and get_lujvo_with_analytics
 agree on hyphens and tiebreak, as in Python

---
 rs/src/jvozba.rs | 4 +++-
 rs/src/katna.rs  | 8 +-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 56a2b3f..2c36ad9 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -469,7 +469,9 @@ pub fn combine(
         total_c = 2;
     }
     let res = format!("{lujvo}{hyphen}{rafsi}");
-    let score = lujvo_score + score(hyphen) + score(rafsi) - tiebreak(&res);
+    // only two-component lujvo get the tiebreak
+    let tie = if tanru_len == 2 { tiebreak(&res) } else { 0 };
+    let score = lujvo_score + score(hyphen) + score(rafsi) - tie;
     Some((tosmabru_type, total_c, score, res, indices))
 }
 
diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 518efcf..6fe4fa0 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -256,13 +256,7 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp
-        .iter()
-        .map(|r| {
-            if ["y", "n", "r", ""].contains(&r.as_str()) { 1100 * r.len() as i32 } else { score(r) }
-        })
-        .sum::<i32>()
-        - tiebreak(lujvo))
+    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(&decomp.concat()))
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From 55803c88d70c86c7aab08a31761516a633c6520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 27/41] fix: Rust is_valid_rafsi accepts only the four
 diphthongs in CVV rafsi, as in Python

---
 rs/src/tarmi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index b574f09..209f670 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -361,6 +361,8 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
         if settings.allow_mz { &MZ_VALID } else { &VALID }.contains(&strsl!(r, 2..4))
     } else if [Ccvcv, Ccvc, Ccv].contains(&t) {
         INITIAL.contains(&strsl!(r, 0..2))
+    } else if t == Cvv {
+        ["ai", "ei", "oi", "au"].contains(&strsl!(r, 1..))
     } else {
         1 <= t as i8 && t as i8 <= 8
     }
-- 
2.43.0


From 33323635e4a322b76f3a510c03e538baa960de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 28/41] fix: Rust zi'evla falling-apart test honours allow_mz,
 as in Python

---
 rs/src/tools.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 34aac62..e03ee7a 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -289,7 +289,10 @@ pub fn check_zihevla_or_rafsi(
         return Err(NotZihevlaError(format!("{{{valsi_}}} doesn't have enough syllables")));
     }
     if num_syllables > 2 && cluster_pos > Some(0) {
-        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens)) {
+        if is_brivla(
+            strsl!(valsi_, cluster_pos.unwrap()..),
+            &extract!(settings; y_hyphens, allow_mz),
+        ) {
             return Err(NotZihevlaError(format!(
                 "{{{valsi_}}} is a tosmabru: {{{} {}}}",
                 strsl!(valsi_, 0..cluster_pos.unwrap()),
@@ -301,7 +304,7 @@ pub fn check_zihevla_or_rafsi(
                 || is_glide(strsl!(valsi_, cluster_pos.unwrap() - i..)))
                 && is_brivla(
                     strsl!(valsi_, cluster_pos.unwrap() - i..),
-                    &extract!(settings; y_hyphens),
+                    &extract!(settings; y_hyphens, allow_mz),
                 )
             {
                 return Err(NotZihevlaError(format!(
-- 
2.43.0


From d4d8f2198d4e37de438ced3617b2821864e9d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:11 +0000
Subject: [PATCH 29/41] fix: Rust analyze_brivla reports a bad vowel sequence
 after y' as NotBrivlaError instead of panicking

---
 rs/src/tools.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index e03ee7a..6f6415f 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -450,14 +450,14 @@ pub fn analyze_brivla(
                     "{{{valsi}}} has a part consisting of just an apostrophe"
                 )));
             }
-            if !is_vowel(strin!(part, 0))
-                || FOLLOW_VOWEL_CLUSTERS.contains(
-                    &split_vowel_cluster(
-                        &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
-                    )
-                    .unwrap()[0]
-                        .as_str(),
-                )
+            let vowels = part.chars().take_while(|c| is_vowel(*c)).collect::<String>();
+            if vowels.is_empty()
+                || split_vowel_cluster(&vowels)
+                    .map_err(|_| {
+                        NotBrivlaError(format!("{{{valsi}}} contains a bad vowel sequence"))
+                    })?
+                    .first()
+                    .is_some_and(|v| FOLLOW_VOWEL_CLUSTERS.contains(&v.as_str()))
             {
                 return Err(NotBrivlaError(format!(
                     "{{{valsi}}} contains an apostrophe not followed by a non-glide vowel"
-- 
2.43.0


From 06fa3a67238ad016a946be8c65006b31b09c7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 30/41] fix: Rust tosmabru test tries every leading CVV rafsi,
 honours allow_mz and spares cmevla, as in Python

---
 rs/src/tools.rs | 53 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 6f6415f..758302a 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -580,25 +580,42 @@ pub fn analyze_brivla(
                     } else {
                         smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &Settings::default())
-                        && !(rafsi_tarmi(smabru_part) == Ccv
-                            && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
-                    {
-                        return Err(NotBrivlaError(format!(
-                            "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
-                            if added_a { "a" } else { "" }
-                        )));
-                    }
-                    if let Err(e) = jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz)) {
-                        match e {
-                            DecompositionError(_) | InvalidClusterError(_) | FakeTypeError(_) => (),
-                            _ => return Err(e),
+                    let mut to_part = to_part.to_string();
+                    while !smabru_part.is_empty() && !is_cmetai {
+                        if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
+                            && !(rafsi_tarmi(smabru_part) == Ccv
+                                && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
+                        {
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
+                                if added_a { "a" } else { "" }
+                            )));
                         }
-                    } else {
-                        return Err(NotBrivlaError(format!(
-                            "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
-                            if added_a { "a" } else { "" }
-                        )));
+                        if let Err(e) =
+                            jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz))
+                        {
+                            match e {
+                                DecompositionError(_)
+                                | InvalidClusterError(_)
+                                | FakeTypeError(_) => (),
+                                _ => return Err(e),
+                            }
+                        } else {
+                            return Err(NotBrivlaError(format!(
+                                "{{{part}}} is a tosmabru: {{{to_part} {smabru_part}{}}}",
+                                if added_a { "a" } else { "" }
+                            )));
+                        }
+                        // the next rafsi might fall off too (moi bau tuzla'yjelfi)
+                        let to_length = if rafsi_tarmi(strsl!(smabru_part, 0..4)) == Cvhv {
+                            4
+                        } else if rafsi_tarmi(strsl!(smabru_part, 0..3)) == Cvv {
+                            3
+                        } else {
+                            break;
+                        };
+                        to_part += strsl!(smabru_part, 0..to_length);
+                        smabru_part = strsl!(smabru_part, to_length..);
                     }
                 } else if settings.y_hyphens == Standard
                     && !is_cmetai
-- 
2.43.0


From 02db09846bdc25abdc2bf65daecf92cea240e782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 31/41] fix: Rust is_slinkuhi recognises extended lujvo, as in
 Python

---
 rs/src/tools.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 758302a..cc10eb5 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -120,7 +120,10 @@ pub fn is_slinkuhi(s: &str, settings: &Settings) -> Result<bool, Jvonunfli> {
         Ok(false)
     } else if let Err(e) = jvokaha(&format!("pa{s}"), &extract!(settings; y_hyphens, allow_mz)) {
         match e {
-            DecompositionError(_) | InvalidClusterError(_) => Ok(false),
+            // the lujvo may also be an extended one (klingonygu'e)
+            DecompositionError(_) | InvalidClusterError(_) => Ok(s.contains('y')
+                && is_consonant(strin!(s, 1))
+                && is_brivla(&format!("pa{s}"), &extract!(settings; y_hyphens, allow_mz))),
             _ => Err(e),
         }
     } else {
-- 
2.43.0


From ee63886224e2423d8d874d977d8211344d9119ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 32/41] fix: Rust jvokaha decomposes the correct lujvo under
 the same y-hyphen rules, as in Python

---
 rs/src/katna.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 6fe4fa0..9468eaa 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -131,7 +131,10 @@ pub fn jvokaha(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunfl
     let cool_and_good = if settings.y_hyphens == ForceY {
         correct_lujvo == lujvo
     } else {
-        compare_lujvo_pieces(&jvokaha2(&correct_lujvo, &extract!(settings; allow_mz))?, &arr)
+        compare_lujvo_pieces(
+            &jvokaha2(&correct_lujvo, &extract!(settings; y_hyphens, allow_mz))?,
+            &arr,
+        )
     };
     if cool_and_good {
         Ok(arr)
-- 
2.43.0


From 78e70c8a44442a801af2cfa3f9d74a2171388e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 33/41] fix: Rust analyze_brivla rejects a zi'evla rafsi that
 is a lujvo (xazdymruzdymru), as in Python

---
 rs/src/tools.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index cc10eb5..2612424 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -656,6 +656,9 @@ pub fn analyze_brivla(
             }
             let shape_type = shape_type.unwrap();
             if shape_type == Zihevla {
+                if added_a && jvokaha2(part, &extract!(settings; y_hyphens, allow_mz)).is_ok() {
+                    return Err(NotBrivlaError(format!("{{{part}}} is a lujvo")));
+                }
                 has_cluster = true;
             }
             if is_consonant(strin!(part, 0)) || settings.glides && is_glide(part) {
-- 
2.43.0


From 28031ed76766b6ed1a976ded4f2a777192fb5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 34/41] fix: zi'evla with mzm or mzb style clusters are
 recognised when allow_mz, as in Rust

---
 py/latkerlo_jvotci/tarmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 069c35b..36700f1 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -221,7 +221,7 @@ def is_zihevla_middle_cluster(cluster: str) -> bool:
     if len(cluster) == 3:
         if cluster[1] in SONORANT_CONSONANTS:
             return True
-        return cluster[:2] in VALID and cluster[1:] in INITIAL
+        return cluster[:2] in MZ_VALID and cluster[1:] in INITIAL
     elif len(cluster) < 3:
         return True  # Pairs are already checked outside this function
 
-- 
2.43.0


From 02957d64d1bf5022514ad281fa04c0932e4c2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 35/41] fix: JavaScript zi'evla with mzm or mzb style clusters
 are recognised when allowMZ, as in Rust

---
 js/docs/tarmi.js | 2 +-
 js/src/tarmi.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index 94ec62d..cc3239b 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -226,7 +226,7 @@ function isZihevlaMiddleCluster(cluster) {
     if (cluster.length === 3) {
         if (SONORANT_CONSONANTS.includes(cluster[1]))
             return true;
-        return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+        return MZ_VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
     }
     else if (cluster.length < 3) {
         return true; // Pairs are already checked outside this function
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index dc2d56c..7b8f922 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -237,7 +237,7 @@ function isZihevlaMiddleCluster(cluster: string): boolean {
   if (cluster.length === 3) {
     if (SONORANT_CONSONANTS.includes(cluster[1]))
       return true;
-    return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+    return MZ_VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
   } else if (cluster.length < 3) {
     return true;  // Pairs are already checked outside this function
   }
-- 
2.43.0


From 25352278e9a81609e018e4dc88924913df84d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 36/41] fix: Rust rafsi_tarmi counts only consonants as C, as
 in Python

---
 rs/src/tarmi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index 209f670..9d6fd6f 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -379,14 +379,18 @@ pub fn rafsi_tarmi(r: &str) -> Tarmi {
         3 => match (is_vowel(strin!(r, 1)), is_vowel(strin!(r, 2))) {
             (true, false) if is_consonant(strin!(r, 2)) => Cvc,
             (true, true) => Cvv,
-            (false, true) => Ccv,
+            (false, true) if is_consonant(strin!(r, 1)) => Ccv,
             _ => OtherRafsi,
         },
         4 if strin!(r, 3) != '\'' => {
             match (is_vowel(strin!(r, 1)), strin!(r, 2), is_vowel(strin!(r, 3))) {
                 (true, '\'', true) => Cvhv,
-                (true, _, false) if is_consonant(strin!(r, 3)) => Cvcc,
-                (false, v, false) if is_vowel(v) => Ccvc,
+                (true, c, false) if is_consonant(c) && is_consonant(strin!(r, 3)) => Cvcc,
+                (false, v, false)
+                    if is_consonant(strin!(r, 1)) && is_vowel(v) && is_consonant(strin!(r, 3)) =>
+                {
+                    Ccvc
+                }
                 _ => OtherRafsi,
             }
         }
-- 
2.43.0


From 77e593fc1acf98f519047bb895e46d878618cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 37/41] fix: the jvozba prompt survives an invalid cluster

---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 32018df..e8a2054 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -621,5 +621,5 @@ if __name__ == "__main__":
             print(get_lujvo_with_analytics(string,
                             generate_cmevla=cmevla_setting, y_hyphens=y_setting,
                             exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
-        except (NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError) as e:
+        except (NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError) as e:
             print(e)
-- 
2.43.0


From fa2a5809c0bf2eef0435530f7c93b9d7beaac3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:44 +0000
Subject: [PATCH 38/41] fix: the Rust prompt ends at the end of input

---
 rs/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 712fb31..6d2f341 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -72,7 +72,10 @@ fn main() {
                 if used_cli { input.clone() + "\n" } else { String::new() }
             );
             stdout().flush().unwrap();
-            stdin().read_line(&mut input).expect("failed to read stdin");
+            if stdin().read_line(&mut input).expect("failed to read stdin") == 0 {
+                println!("{RESET}");
+                return;
+            }
         }
         print!("{RESET}");
         stdout().flush().unwrap();
-- 
2.43.0


From ae65da1a3acd5df78a9f5525ac28177f45220ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:30 +0000
Subject: [PATCH 39/41] fix: the Rust program does not compare the scores of a
 brivla and a cmevla

---
 rs/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 6d2f341..8b8a0eb 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -12,6 +12,7 @@ use latkerlo_jvotci::{
     get_lujvo, get_lujvo_with_analytics, get_veljvo,
     katna::{search_selrafsi_from_rafsi, selrafsi_list_from_rafsi_list},
     normalize, score_lujvo,
+    tarmi::BrivlaType,
 };
 
 #[allow(clippy::too_many_lines)]
@@ -180,7 +181,10 @@ fn main() {
                     b += 1;
                 }
                 println!("{RESET} {CYAN}({best_score}){RESET}");
-                if score_lujvo(&input, &settings).unwrap() < best_score {
+                // a brivla and a cmevla are not comparable
+                if (analysis == BrivlaType::Cmevla) == settings.generate_cmevla
+                    && score_lujvo(&input, &settings).unwrap() < best_score
+                {
                     println!(
                         "{RED}hm, the 'best' lujvo actually has a higher score? that can't be \
                          good...{RESET}"
-- 
2.43.0


From 2d7ef706a703989323e87a1d0b8c1747b12c1b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 40/41] fix: the Rust program refuses an argument with spaces
 before / instead of looping

---
 rs/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 8b8a0eb..573f31a 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -40,7 +40,7 @@ fn main() {
                 exit(1);
             }
         } else {
-            if arg.starts_with('/') {
+            if arg.trim_start().starts_with('/') {
                 println!(
                     "{RED}flags starting with {BOLD}/{RESET}{RED} can only be used in interactive \
                      mode{RESET}"
-- 
2.43.0


From 0ed83fd97b0eec2fd735b6d60798998ddae49d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 41/41] fix: / alone returns the Rust prompt to the default
 settings, as its help says

---
 rs/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 573f31a..c35e2b5 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -90,6 +90,10 @@ fn main() {
                 println!("{}", *TUI_INSTRUCTIONS);
                 continue;
             }
+            if arg.is_empty() {
+                settings = Settings::default();
+                continue;
+            }
             if settings.apply_flags(arg).is_none() {
                 println!("{RED}invalid flags, see {BOLD}/h{RESET}");
             };
-- 
2.43.0

