From fc1861858146bc4551b6a6613e2acad0d7782ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 01/13] fix: import is_slinkuhi in jvozba.py

get_lujvo_from_list calls is_slinkuhi, which was never imported, so making or
decomposing nearly every lujvo raised NameError.
---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From 51843732dba2437c123275ab5ffd4f6648acf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 02/13] fix: keep the interactive loops alive on lines that
 make no word

A one-word tanru, a bad cluster or a double y raised an exception the
loops did not expect and ended the session.
---
 py/latkerlo_jvotci/jvozba.py | 5 +++--
 py/latkerlo_jvotci/katna.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..a44e3a0 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -9,7 +9,7 @@ from latkerlo_jvotci.tarmi import *
 from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
-from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
+from latkerlo_jvotci.exceptions import DecompositionError, NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
 
 TOSYNONE = 0
 TOSMABRU = 1
@@ -619,5 +619,6 @@ if __name__ == "__main__":
             print(get_lujvo_with_analytics(string,
                             generate_cmevla=cmevla_setting, y_hyphens=y_setting,
                             exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
-        except (NoLujvoFoundError, NonLojbanCharacterError, NotZihevlaError) as e:
+        except (NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError,
+                DecompositionError, NotBrivlaError, IndexError) as e:
             print(e)
diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..3027445 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -342,5 +342,5 @@ if __name__ == "__main__":
         try:
             print(analyse_brivla(string, y_hyphens=y_setting, exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
             print(get_veljvo(string, y_hyphens=y_setting, exp_rafsi_shapes=raf_setting, consonants=con_setting, glides=glide_setting, allow_mz=mz_setting))
-        except (DecompositionError, NotBrivlaError) as e:
+        except (DecompositionError, InvalidClusterError, NotBrivlaError, IndexError) as e:
             print(f"Error: {e}")
-- 
2.43.0


From e769f5b5839c74f09d4ebeb68cb40998bf13e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 03/13] fix: make the order of same-shape rafsi in the
 generated lists deterministic

Ties between rafsi of one shape were left in set order, which depends on
the interpreter's hash seed.
---
 make_rafsi_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/make_rafsi_list.py b/make_rafsi_list.py
index d628d49..be68edc 100644
--- a/make_rafsi_list.py
+++ b/make_rafsi_list.py
@@ -94,7 +94,7 @@ for selrafsi, proposed_rafsi_list in exp_rafsi_list.items():
                 rafsi_list[selrafsi] = {rafsi}
 
 # .u'u abhorrently long dictionary comprehension
-rafsi_list = {selrafsi: sorted(list(rafsi), key=lambda x: rafsi_tarmi(x) % 9) for selrafsi, rafsi in rafsi_list.items()}
+rafsi_list = {selrafsi: sorted(list(rafsi), key=lambda x: (rafsi_tarmi(x) % 9, x)) for selrafsi, rafsi in rafsi_list.items()}
 
 # py
 with open("py/latkerlo_jvotci/rafsi.py", "w") as opf:
-- 
2.43.0


From dc100b99f4f96b8f3c400541e62fd25e0a91dcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 04/13] fix: never leave a half-written generated file behind

The generator scripts truncated their output files before they had read
their input or knew that the new content could be written. Write to a
temporary file and put it in place once it is complete.
---
 make_dictionary_test_list.py |  5 ++++-
 make_js_tests.py             |  6 +++++-
 make_rafsi_list.py           | 14 ++++++++++----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/make_dictionary_test_list.py b/make_dictionary_test_list.py
index 0fce5ae..8a6d78f 100644
--- a/make_dictionary_test_list.py
+++ b/make_dictionary_test_list.py
@@ -6,6 +6,7 @@ Licensed under the MIT License
 import urllib.request
 import xml.etree.ElementTree as ET
 import json
+import os
 
 all_words = {
     "GISMU": [],
@@ -31,5 +32,7 @@ for valsi in root.iter("valsi"):
             key = "OTHER"
     all_words[key].append(word)
 
-with open("tests/jvs_words.json", "w") as opf:
+# written in full before it takes the place of the old file
+with open("tests/jvs_words.json.tmp", "w") as opf:
     json.dump(all_words, opf)
+os.replace("tests/jvs_words.json.tmp", "tests/jvs_words.json")
diff --git a/make_js_tests.py b/make_js_tests.py
index 04035fc..c7af24f 100644
--- a/make_js_tests.py
+++ b/make_js_tests.py
@@ -5,6 +5,7 @@ Licensed under the MIT License
 
 import csv
 import json
+import os
 
 TEST_LISTS = [
     "basic_test_list",
@@ -12,7 +13,8 @@ TEST_LISTS = [
     "katna_test_list",
 ]
 
-with open(f"tests/js_tests.js", "w", encoding="utf-8") as opf:
+# written in full before it takes the place of the old file
+with open(f"tests/js_tests.js.tmp", "w", encoding="utf-8") as opf:
     for test_name in TEST_LISTS:
         with open(f"tests/{test_name}.tsv", encoding="utf-8") as ipf:
             opf.write(f"const {test_name.upper()} = [\n")
@@ -37,3 +39,5 @@ with open(f"tests/js_tests.js", "w", encoding="utf-8") as opf:
             opf.write(f'    "{word}",\n')
         opf.write(f'  ]],\n')
     opf.write("])\n")
+
+os.replace("tests/js_tests.js.tmp", "tests/js_tests.js")
diff --git a/make_rafsi_list.py b/make_rafsi_list.py
index be68edc..90391dd 100644
--- a/make_rafsi_list.py
+++ b/make_rafsi_list.py
@@ -6,6 +6,7 @@ Licensed under the MIT License
 import sys
 sys.path.append("py")
 
+import os
 import xml.etree.ElementTree as ET
 import urllib.request
 from latkerlo_jvotci.tarmi import *
@@ -96,31 +97,36 @@ for selrafsi, proposed_rafsi_list in exp_rafsi_list.items():
 # .u'u abhorrently long dictionary comprehension
 rafsi_list = {selrafsi: sorted(list(rafsi), key=lambda x: (rafsi_tarmi(x) % 9, x)) for selrafsi, rafsi in rafsi_list.items()}
 
+# each file is written in full before it takes the place of the old one
 # py
-with open("py/latkerlo_jvotci/rafsi.py", "w") as opf:
+with open("py/latkerlo_jvotci/rafsi.py.tmp", "w") as opf:
     opf.write("RAFSI_LIST = {\n")
     for selrafsi, rafsi in rafsi_list.items():
         opf.write(f'    "{selrafsi}": {str(rafsi)},\n')
     opf.write("}\n")
+os.replace("py/latkerlo_jvotci/rafsi.py.tmp", "py/latkerlo_jvotci/rafsi.py")
 
 # ts
-with open("js/src/rafsi.ts", "w") as opf:
+with open("js/src/rafsi.ts.tmp", "w") as opf:
     opf.write("const RAFSI_LIST: Map<string, string[]> = new Map([\n")
     for selrafsi, rafsi in rafsi_list.items():
         opf.write(f'  ["{selrafsi}", {str(rafsi)}],\n')
     opf.write("]);\n")
+os.replace("js/src/rafsi.ts.tmp", "js/src/rafsi.ts")
 
 # js
-with open("js/docs/rafsi.js", "w") as opf:
+with open("js/docs/rafsi.js.tmp", "w") as opf:
     opf.write("const RAFSI_LIST = new Map([\n")
     for selrafsi, rafsi in rafsi_list.items():
         opf.write(f'    ["{selrafsi}", {str(rafsi)}],\n')
     opf.write("]);\n")
+os.replace("js/docs/rafsi.js.tmp", "js/docs/rafsi.js")
 
 # rs
-with open("rs/src/rafsi.rs", "w") as opf:
+with open("rs/src/rafsi.rs.tmp", "w") as opf:
     opf.write("//! Contains the static RAFSI, a map from words to their affixes.")
     opf.write("\nuse std::{" + "collections::HashMap, sync::LazyLock};\n/// Big giant rafsi list.\npub static RAFSI: LazyLock<HashMap<&'static str, Vec<&'static str>>> = LazyLock::new(|| {\n    HashMap::from([\n")
     for selrafsi, rafsi in rafsi_list.items():
         opf.write('        ("' + selrafsi + '", vec![' + ('"' if len(rafsi) else "") + '", "'.join(rafsi) + ('"' if len(rafsi) else "") + "]" + "),\n")
     opf.write("    ])\n});\n")
+os.replace("rs/src/rafsi.rs.tmp", "rs/src/rafsi.rs")
-- 
2.43.0


From c9bba708d84f481d8f4d00f7b7f1b4eaa4570746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 05/13] fix: do not overwrite the word lists from a page that
 is not an export

A maintenance or redirect page that happens to be well-formed XML emptied
every list.
---
 make_dictionary_test_list.py | 2 ++
 make_rafsi_list.py           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/make_dictionary_test_list.py b/make_dictionary_test_list.py
index 8a6d78f..1b9bb0d 100644
--- a/make_dictionary_test_list.py
+++ b/make_dictionary_test_list.py
@@ -17,6 +17,8 @@ all_words = {
 URL = "https://jbovlaste.lojban.org/export/xml-export.html?lang=en&positive_scores_only=0&bot_key=z2BsnKYJhAB0VNsl"
 with urllib.request.urlopen(URL) as response:
     root = ET.fromstring(response.read())
+if root.find(".//valsi") is None:
+    raise ValueError("not a dictionary export: it has no entries")
 for valsi in root.iter("valsi"):
     word = valsi.get("word")
     match valsi.get("type"):
diff --git a/make_rafsi_list.py b/make_rafsi_list.py
index 90391dd..4c0a389 100644
--- a/make_rafsi_list.py
+++ b/make_rafsi_list.py
@@ -18,6 +18,8 @@ GIMSTE = set()
 URL = "https://jbovlaste.lojban.org/export/xml-export.html?lang=en&positive_scores_only=0&bot_key=z2BsnKYJhAB0VNsl"
 with urllib.request.urlopen(URL) as response:
     root = ET.fromstring(response.read())
+if root.find(".//valsi") is None:
+    raise ValueError("not a dictionary export: it has no entries")
 for valsi in root.iter("valsi"):
     if valsi.get("type") == "gismu":
         word = valsi.get("word")
-- 
2.43.0


From 3781e5e190781c9d62326f62ea5dfda028b4b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 06/13] fix: end the Rust interactive loop at end of input

read_line returns Ok(0) there, and the loop printed its prompt forever.
---
 rs/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index 712fb31..f2f26af 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -72,7 +72,9 @@ fn main() {
                 if used_cli { input.clone() + "\n" } else { String::new() }
             );
             stdout().flush().unwrap();
-            stdin().read_line(&mut input).expect("failed to read stdin");
+            if stdin().read_line(&mut input).expect("failed to read stdin") == 0 {
+                return;
+            }
         }
         print!("{RESET}");
         stdout().flush().unwrap();
-- 
2.43.0


From 10590cd7249d1490fe5ad059621abcd77bcebdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 07/13] fix: bring js/docs/rafsi.js in line with the other
 rafsi lists

---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..b115d2d 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ['zbu']],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ['cfo']],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0


From efdea8d4fd508a35e02f703574c3c731cc9b0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 08/13] fix: let threads race the first import through any
 module

The package's __init__ imported its own modules, so two threads that first
import different modules could wait for each other's import locks in a cycle.
CPython breaks the cycle by exposing half-initialised modules: imports failed
with ImportError, or a module's star import silently missed names for good.
---
 py/latkerlo_jvotci/__init__.py | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/py/latkerlo_jvotci/__init__.py b/py/latkerlo_jvotci/__init__.py
index 68f6748..e9edd56 100644
--- a/py/latkerlo_jvotci/__init__.py
+++ b/py/latkerlo_jvotci/__init__.py
@@ -3,8 +3,42 @@ Copyright (c) 2023-2024 latkerlo (https://github.com/latkerlo)
 Licensed under the MIT License
 """
 
-from latkerlo_jvotci.exceptions import (DecompositionError, InvalidClusterError, NoLujvoFoundError,
-                                        NonLojbanCharacterError, NotBrivlaError, NotZihevlaError)
-from latkerlo_jvotci.katna import get_veljvo, score_lujvo
-from latkerlo_jvotci.jvozba import get_lujvo, get_lujvo_with_analytics
-from latkerlo_jvotci.tools import is_brivla, analyse_brivla, get_rafsi_indices
+from importlib import import_module
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from latkerlo_jvotci.exceptions import (DecompositionError, InvalidClusterError, NoLujvoFoundError,
+                                            NonLojbanCharacterError, NotBrivlaError, NotZihevlaError)
+    from latkerlo_jvotci.katna import get_veljvo, score_lujvo
+    from latkerlo_jvotci.jvozba import get_lujvo, get_lujvo_with_analytics
+    from latkerlo_jvotci.tools import is_brivla, analyse_brivla, get_rafsi_indices
+
+# The names are looked up on first use. If this file imported the modules itself, threads that first
+# import different modules of the package could wait for each other's import locks in a cycle, which
+# Python breaks by letting them see half-initialised modules.
+_EXPORTS = {
+    "exceptions": ["DecompositionError", "InvalidClusterError", "NoLujvoFoundError",
+                   "NonLojbanCharacterError", "NotBrivlaError", "NotZihevlaError"],
+    "katna": ["get_veljvo", "score_lujvo"],
+    "jvozba": ["get_lujvo", "get_lujvo_with_analytics"],
+    "tools": ["is_brivla", "analyse_brivla", "get_rafsi_indices"],
+    "tarmi": [],
+    "data": [],
+    "rafsi": [],
+}
+__all__ = [name for module, names in _EXPORTS.items() for name in [module] + names]
+
+
+def __getattr__(name):
+    for module, names in _EXPORTS.items():
+        if name == module:
+            return import_module(f"{__name__}.{module}")
+        if name in names:
+            value = getattr(import_module(f"{__name__}.{module}"), name)
+            globals()[name] = value
+            return value
+    raise AttributeError(f"module {__name__!r} has no attribute {name!r}")
+
+
+def __dir__():
+    return sorted(set(globals()) | set(__all__))
-- 
2.43.0


From aededc8f1945c6be1675712891e0ef35dbea9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 09/13] fix: do not end an interactive Rust session over a
 worse best lujvo

---
 rs/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index f2f26af..b570098 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -184,7 +184,9 @@ fn main() {
                         "{RED}hm, the 'best' lujvo actually has a higher score? that can't be \
                          good...{RESET}"
                     );
-                    exit(1);
+                    if used_cli {
+                        exit(1);
+                    }
                 }
             }
         } else {
-- 
2.43.0


From 1912c7b12efffd059a349f8d88cecd94661e5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 10/13] fix: make / restore the default settings, as the Rust
 program's help says

---
 rs/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index b570098..f64134a 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -88,6 +88,10 @@ fn main() {
                 println!("{}", *TUI_INSTRUCTIONS);
                 continue;
             }
+            if arg.is_empty() {
+                settings = Settings::default();
+                continue;
+            }
             if settings.apply_flags(arg).is_none() {
                 println!("{RED}invalid flags, see {BOLD}/h{RESET}");
             };
-- 
2.43.0


From 3e1d1f8065dbc67291787e32ea57e15705c72d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 11/13] fix: refuse / flags in Rust arguments also after white
 space

---
 rs/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/main.rs b/rs/src/main.rs
index f64134a..96aebfc 100644
--- a/rs/src/main.rs
+++ b/rs/src/main.rs
@@ -39,7 +39,7 @@ fn main() {
                 exit(1);
             }
         } else {
-            if arg.starts_with('/') {
+            if arg.trim_start().starts_with('/') {
                 println!(
                     "{RED}flags starting with {BOLD}/{RESET}{RED} can only be used in interactive \
                      mode{RESET}"
-- 
2.43.0


From f330c1e6e79e5e512c9e3003cb2fb23442467493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:02 +0000
Subject: [PATCH 12/13] fix: slice strings by character in Rust, so that no
 input panics

---
 rs/src/tools.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 34aac62..0828632 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -73,14 +73,15 @@ where
 /// Pythonic `str`ing `sl`icing.
 macro_rules! strsl {
     ($s:expr, $r:expr) => {{
-        let len = ($s).len();
+        let len = ($s).chars().count();
         let (start, end) = $crate::tools::bounds($s, $r);
         let positive = |i: isize| -> usize {
             if i < 0 { len.saturating_sub((-i) as usize) } else { i as usize }.min(len)
         };
         let (start, end) = (positive(start), positive(end));
         assert!(start <= end, "slice attempt problem: s={start} > e={end}");
-        &$s[start..end]
+        let byte = |i: usize| ($s).char_indices().nth(i).map_or(($s).len(), |(b, _)| b);
+        &$s[byte(start)..byte(end)]
     }};
 }
 
-- 
2.43.0


From eff9cc51f789b2ec1819832c7ecdd5e1f1743bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 13/13] fix: report a bad vowel sequence after 'y' in Rust
 instead of panicking

---
 rs/src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 0828632..e3bd593 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -453,7 +453,7 @@ pub fn analyze_brivla(
                     &split_vowel_cluster(
                         &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
                     )
-                    .unwrap()[0]
+                    .map_err(|e| NotBrivlaError(e.text()))?[0]
                         .as_str(),
                 )
             {
-- 
2.43.0

