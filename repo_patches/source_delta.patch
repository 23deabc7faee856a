From 9f03cedc284cacb01222e1abd5ee2073f70ff359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 01/63] fix: determine_type must judge the whole string, not a
 numeric prefix

---
 castep_outputs/utilities/type_conv.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index f18b914..3b0a083 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -87,15 +87,14 @@ def determine_type(data: str) -> type:
     if data.title() in {"T", "True", "F", "False"}:
         return bool
 
-    if re.match(rf"(?:\s*{REs.EXPFNUMBER_RE})+", data):
-        return float
-
-    if re.match(rf"(?:\s*{REs.RATIONAL_RE})+", data):
-        return float
+    words = data.split()
 
-    if re.match(rf"(?:\s*{REs.INTNUMBER_RE})+", data):
+    if words and all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return int
 
+    if words and all(REs.FLOAT_RAT_RE.fullmatch(word) for word in words):
+        return float
+
     return str
 
 
-- 
2.43.0


From 6f9fab8f19c7baf1b90ced83554efc1f226df681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:05 +0000
Subject: [PATCH 02/63] fix: keep the sign of rational numbers

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..437249d 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,7 +209,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?:\b|(?=[+-])){INTNUMBER_RE}/{INTNUMBER_RE}\b"
 
 #: Generalised number.
 #:
-- 
2.43.0


From fe9114940d4d49ccdda0ee891a709a4ec1f2dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 03/63] fix: keyword lines with digits in the name or text
 values starting with a digit or sign were dropped

---
 castep_outputs/utilities/castep_res.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 437249d..183fde5 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -599,13 +599,13 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-^\s*(?P<key>[a-z_]+)
+^\s*(?P<key>[a-z_][a-z0-9_]*)
 \s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
-    # String starts with anything which is NOT digit,+,-,. or space.
-    (?P<str>[^-+\d\s.](?:\s*\S+)*))
+    (?:(?P<val>{FLOAT_RAT_RE.pattern}(?:\s+{FLOAT_RAT_RE.pattern})*)
     # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+    (?P<unit>\s+\S+)?|
+    # Anything else is a string.
+    (?P<str>\S(?:.*\S)?))
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
-- 
2.43.0


From a76a6ce56f6967674293ed6a5b512e82e2c6cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 04/63] fix: tab separated vectors in cell/param files

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..620badf 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -160,7 +160,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
+            if len(val.split()) > 1:
                 val = to_type(val.split(), determine_type(val))
             else:
                 val = to_type(val, determine_type(val))
-- 
2.43.0


From 68f8cadab6f6059e324f4c6b5a7062a0dfc16b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 05/63] fix: accept any whitespace between %block and its title

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 620badf..9cb8427 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -138,7 +138,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         if block := Block.from_re(
             line,
             cell_param_file,
-            re.compile(r"^\s*%block ", re.IGNORECASE),
+            re.compile(r"^\s*%block\s", re.IGNORECASE),
             re.compile(r"^\s*%endblock", re.IGNORECASE),
         ):
             block_title = next(block).split()[1].lower()
-- 
2.43.0


From 3261deeaa07ceb44241d6841855936fd60d1dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 06/63] fix: ionic constraints beyond the ninth were dropped

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 183fde5..bf4ee98 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -611,7 +611,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{SPECIES_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From 562d219ca395f76c36166a06670da016f7ed4c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 07/63] fix: positions of tagged atoms were dropped from cell
 files

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index bf4ee98..0abcedf 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -613,7 +613,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{ATOM_NAME_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
-- 
2.43.0


From 0f540ffa12afdf9c414ecf67926a10fb69d8ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 08/63] fix: units containing a digit are not a row of data in
 general cell blocks

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 9cb8427..aea9c45 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -689,8 +689,9 @@ def _parse_general(block: Block) -> GeneralBlock:
 
             block_data["data"][spec] = val
 
-        elif numbers := REs.FLOAT_RAT_RE.findall(line):
+        elif line.strip() and REs.FLOAT_RAT_RE.fullmatch(line.split()[0]):
             assert isinstance(block_data["data"], list)
+            numbers = REs.FLOAT_RAT_RE.findall(line)
             block_data["data"].append(to_type(numbers, float))
 
         elif re.match(r"^\s*%endblock", line, re.IGNORECASE):
-- 
2.43.0


From 3900d25980079812b453811e0c8708459804b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 09/63] fix: keep the sign of beta energies in pseudopotential
 strings

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 0abcedf..205845a 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -322,7 +322,7 @@ PSPOT_PROJ_RE = re.compile(
     rf"""
     (?P<type>[{PROJ_TYPES}])
     (?P<beta_rc> {FP_NUM_RE})?
-    (?:(?:=[+-]?|[+-]) (?P<beta_e> {FP_NUM_RE}))?
+    (?:(?:=|(?=[+-])) (?P<beta_e> [+-]?{FP_NUM_RE}))?
     (?:@(?P<beta_delta>{FP_NUM_RE}))?
     """,
     re.VERBOSE,
-- 
2.43.0


From ae9961b9891e44a48884166868e6338d101f0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 10/63] fix: devel_code blocks: repeated blocks, ':' separated
 values and text values with punctuation

---
 castep_outputs/parsers/cell_param_file_parser.py | 8 ++++++--
 castep_outputs/utilities/castep_res.py           | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index aea9c45..885c801 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -349,14 +349,16 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     # Get groups
     for blk in matches:
         block_title = normalise_key(blk.group(1))
-        block_str = blk.group(0).split(":")[1]
+        block_str = blk.group(2)
         block: DevelBlock = {}
         for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
             key, val = re.split(r"[:=]", par.group(0))
             key = normalise_key(key)
             typ = determine_type(val)
             block[key] = to_type(val, typ)
-            block_str = block_str.replace(par.group(0), "")
+
+        # Remove matched to get remainder
+        block_str = re.sub(REs.DEVEL_CODE_VAL_RE, "", block_str)
 
         if block_str.strip():
             block["data"] = []
@@ -383,6 +385,8 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
         devel_code_parsed[key] = to_type(val, typ)
 
+    main_block = re.sub(REs.DEVEL_CODE_VAL_RE, "", main_block)
+
     # Catch present components
     present_code_re = re.compile(r"""
         (?<![:=])        # Does not follow : or =
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 205845a..6f0f06e 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -595,7 +595,7 @@ BANDS_FERMI_RE = re.compile(
 
 DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
 DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0


From 6e055b214ab70c4bd180ecfd7fdae3ebb76f4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 11/63] fix: per-spin counts and Fermi energies in .bands
 headers

---
 castep_outputs/parsers/bands_file_parser.py | 2 +-
 castep_outputs/parsers/parse_utilities.py   | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 930dc5e..9efee9b 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -63,7 +63,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     current: Literal["band", "band_up", "band_down"] = "band"
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
-    data = parse_regular_header(block, ("Fermi energy",))
+    data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
     bands_info.update(data)
 
     for line in bands_file:
diff --git a/castep_outputs/parsers/parse_utilities.py b/castep_outputs/parsers/parse_utilities.py
index ea2ab3c..bb665e7 100644
--- a/castep_outputs/parsers/parse_utilities.py
+++ b/castep_outputs/parsers/parse_utilities.py
@@ -38,8 +38,13 @@ def parse_regular_header(block: Block,
     coords = defaultdict(list)
     for line in block:
         if line.strip().startswith("Number of"):
-            _, _, *key, val = line.split()
-            data[" ".join(key)] = int(float(val))
+            _, _, *key = line.split()
+            vals = []
+            # One value per spin for spin-polarised calculations
+            while key and re.fullmatch(REs.NUMBER_RE, key[-1]):
+                val = float(key.pop())
+                vals.insert(0, int(val) if val.is_integer() else val)
+            data[" ".join(key)] = vals[0] if len(vals) == 1 else tuple(vals)
         elif "Unit cell vectors" in line:
             data["unit_cell"] = [to_type(next(block).split(), float)
                                  for _ in range(3)]
-- 
2.43.0


From e0fb9a19cb73059fcf2f3a7fce52d7883d8d0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 12/63] fix: .ts search types other than TSConfirmation crashed
 the parser

---
 castep_outputs/parsers/ts_file_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..321e1a7 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,9 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(
+            line, ts_file, r"\b(REA|PRO|TST)\b", r"^\s*$", eof_possible=True,
+        ):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From c8a6f85e3b87914223028fe7d5be7ea786752f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 13/63] fix: .md/.geom frames separated by lines of spaces were
 merged into one

---
 castep_outputs/parsers/md_geom_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..31082fb 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
-from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
+from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, EMPTY, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
 from castep_outputs.utilities.filewrapper import Block, FileWrapper
@@ -171,7 +171,7 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
+    while block := Block.from_re("", md_geom_file, "", EMPTY, eof_possible=True):
         steps.append(parse_md_geom_frame(block))
 
     if not steps:
-- 
2.43.0


From cf25fe40b9ecb47bcbcdbdf33106738832883c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 14/63] fix: list k-points beyond the ninth of a k-point path

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..ca253e8 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2109,7 +2109,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From 19e802dd82f41e4819499761eccdc6bcfc1b64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 15/63] fix: symmetry related atoms of tagged species crashed
 the parser

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ca253e8..39a3c63 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2177,7 +2177,7 @@ def _process_symmetry(block: Block) -> tuple[SymmetryReport, ConstraintsReport]:
             next(block)  # elif "symmetry related atoms:" in line:
 
             while line := next(block).strip():
-                key, val = line.split(":")
+                key, val = line.rsplit(":", 1)
                 curr_sym["symmetry_related"].extend((key, int(ind))
                                                     for ind in val.split())
 
-- 
2.43.0


From fa66317cde92735b56f1a59921a1ecdc83621f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 16/63] fix: unitless pair parameters lost their last digit

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 6f0f06e..ad38475 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -422,8 +422,8 @@ PAIR_POT_RES = {
         rf"""
         ^(?P<tag>\w+)?\s*\*\s*
         (?P<label>\w+)\s*
-        {labelled_floats(("params",))}\s*
-        [\w^/*]+\s* \* \s*
+        {labelled_floats(("params",))}\s+
+        (?:[\w^/*]+\s+)?\*\s*
         <--\s*(?P<type>\w+)
         """,
         re.VERBOSE,
-- 
2.43.0


From f5e7231c9f44ce8e43ced10ac9fcec5347cf689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 17/63] fix: DFT-D parameters of tagged species were reported
 as a setting

---
 castep_outputs/parsers/castep_file_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 39a3c63..2df99eb 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2301,7 +2301,12 @@ def _process_dftd(block: Block) -> dict[str, Any]:
     val: Any
 
     for line in block:
-        if len(match := line.split(":")) == 2:
+        if match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
+                             labelled_floats(("C6", "R0")), line):
+            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
+                                              "r0": float(match["R0"])}
+
+        elif len(match := line.split(":")) == 2:
             key, val = match
             val = normalise_string(val)
             if "Parameter" in key:
@@ -2309,11 +2314,6 @@ def _process_dftd(block: Block) -> dict[str, Any]:
 
             dftd[normalise_key(key)] = val
 
-        elif match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
-                               labelled_floats(("C6", "R0")), line):
-            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
-                                              "r0": float(match["R0"])}
-
     return dftd
 
 
-- 
2.43.0


From 7bfed6ef62d6e1f1f1f22cf9040d57ede4636799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 18/63] fix: a bond spin of zero was taken for a missing one

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 2df99eb..8495fcb 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2273,7 +2273,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From dbe5943ffdde4248f3744164cbfbbe84510e488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 19/63] fix: d and f orbitals were dropped from orbital
 populations

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index ad38475..039fd1e 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -432,7 +432,7 @@ PAIR_POT_RES = {
 
 # Orbital population
 ORBITAL_POPN_RE = re.compile(
-    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz]?)"
+    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][\w()+-]*)"
     rf"\s*{labelled_floats(('charge',))}",
 )
 
-- 
2.43.0


From 99cd704d719d6d29a9dccd12a2e4917b1b48bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 20/63] fix: SCF cycles of fixed occupancy calculations

---
 castep_outputs/parsers/castep_file_parser.py | 8 ++++++--
 castep_outputs/utilities/castep_res.py       | 7 +++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 8495fcb..93b1b31 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1709,12 +1709,16 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+    has_fermi = True
     for line in block:
-        if match := REs.SCF_LOOP_RE.match(line):
+        if "SCF loop" in line:  # No Fermi energy column with fixed occupancies
+            has_fermi = "Fermi" in line
+
+        elif match := (REs.SCF_LOOP_RE if has_fermi else REs.SCF_LOOP_FIXED_RE).match(line):
             if curr:
                 scf.append(curr)
 
-            curr = match.groupdict()
+            curr = {"fermi_energy": None, **match.groupdict()}
             if debug_info:  # Debug info refers to next cycle
                 curr["debug_info"] = debug_info
             debug_info = {}
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 039fd1e..ec8377d 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -299,6 +299,13 @@ SCF_LOOP_RE = re.compile(
     f"{labelled_floats(('time',))}",
 )
 
+# Regexp to identify SCF loop lines without Fermi energy
+SCF_LOOP_FIXED_RE = re.compile(
+    r"\s*(?:Initial|\d+)\s*"
+    rf"{labelled_floats(('energy', 'energy_gain'))}?\s*"
+    f"{labelled_floats(('time',))}",
+)
+
 # Spin density
 INTEGRATED_SPIN_DENSITY_RE = re.compile(
     r"(?P<vec>2\*)?Integrated \|?Spin Density\|?[^=]+=\s*"
-- 
2.43.0


From eb70f9a00a0a8852cff66f02373b3340eaa5eb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 21/63] fix: finite basis set corrections with ten or more
 cut-offs

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 93b1b31..8f16773 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -476,7 +476,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["occupancies"].append(_process_occupancies(block))
 
         # SCF Basis set
-        elif match := re.search(r" with +(\d) +cut-off energies.", line):
+        elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
             if Filters.SCF not in to_parse:
                 continue
-- 
2.43.0


From 88f3609b88b203ea74725c74d30534f6357a53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 22/63] fix: the line after a one line warning was swallowed

---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 8f16773..3165542 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -280,10 +280,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From 6af80c72ecab84d228f060d236fad8239099b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 23/63] fix: geometry optimisations could not be read with
 Filters.LOW

---
 castep_outputs/parsers/castep_file_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 3165542..689bc04 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1050,6 +1050,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
-- 
2.43.0


From 67b6e1d246663b161024a1b099f26742c377f734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 24/63] fix: three body parameters of tagged potentials

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 689bc04..2edd3f4 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2481,7 +2481,7 @@ def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
                     labels = ((match["spec"],),)
 
         # Three-body
-        elif block := Block.from_re(line, block_in, "Three Body", r"^\s*\*+\s*$"):
+        elif block := Block.from_re(line, block_in, "Three Body", r"^\w*\s*\*+\s*$"):
             for blk_line in block:
                 if match := REs.PAIR_POT_RES["three_body_spec"].match(blk_line):
                     labels = (tuple(match["spec"].split()),)
-- 
2.43.0


From c9900dc570fb44d7316b14a01d1b0f93fdd8f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:46 +0000
Subject: [PATCH 25/63] fix: unitless two body parameters lost their last digit

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index ec8377d..e712b1f 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -412,8 +412,8 @@ PAIR_POT_RES = {
         rf"""
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
-            {labelled_floats(("params",), counts=("1,4",))}\s*
-            [\w^/*]+\s* \* \s*
+            {labelled_floats(("params",), counts=("1,4",))}\s+
+            (?:[\w^/*]+\s+)?\*\s*
             <--\s*(?P<type>\w+)
             """,
         re.ASCII | re.VERBOSE,
-- 
2.43.0


From 1bc64bd9ab2ed9732821efda55d28e06a23e36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 26/63] fix: iterations ignored the caller's filters

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 2edd3f4..6432955 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1018,7 +1018,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, to_parse) or [{}])
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
@@ -1080,7 +1080,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found geom block (iteration %d)", len(curr_run["geom_opt"]["iterations"]) + 1)
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = get_only(parse_castep_file(block, to_parse) or [{}])
 
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
-- 
2.43.0


From 902518fccc9621f893ec04fd262d5a5f00b8579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 27/63] fix: energies of a finite basis set correction joined
 the final ones when SCF was not selected

---
 castep_outputs/parsers/castep_file_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 6432955..f0e9865 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -477,15 +477,16 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
         # SCF Basis set
         elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
-            if Filters.SCF not in to_parse:
-                continue
-
             ncut = int(match.group(1))
             line = ""
             next(castep_file)
             block = Block.from_re(line, castep_file,
                                   "",
                                   "^-+ <-- SCF", n_end=ncut * 3)
+
+            if Filters.SCF not in to_parse:
+                continue
+
             data = get_only(parse_castep_file(block, Filters.HIGH | Filters.SCF))
 
             scf = data.pop("scf")
-- 
2.43.0


From 6e07066df363bb5c7462a1977eba41f9e0537396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 28/63] fix: warnings during a finite basis set correction
 replaced earlier ones

---
 castep_outputs/parsers/castep_file_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index f0e9865..ab8197e 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -487,14 +487,18 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             if Filters.SCF not in to_parse:
                 continue
 
-            data = get_only(parse_castep_file(block, Filters.HIGH | Filters.SCF))
+            data = get_only(parse_castep_file(block, to_parse))
 
             scf = data.pop("scf")
             curr_run["bsc_energies"] = data.pop("energies")
 
             curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
 
-            curr_run.update(data)
+            for key, val in data.items():
+                if isinstance(val, list):
+                    curr_run[key].extend(val)
+                else:
+                    curr_run[key] = val
 
         # Energies
         elif line.startswith("Final energy"):
-- 
2.43.0


From 7fbbbed930d8309d29ad83bbca4b8c7a4eca9c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 29/63] fix: other data of a finite basis set correction when
 SCF is not selected

---
 castep_outputs/parsers/castep_file_parser.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ab8197e..1d7229d 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -483,16 +483,14 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             block = Block.from_re(line, castep_file,
                                   "",
                                   "^-+ <-- SCF", n_end=ncut * 3)
-
-            if Filters.SCF not in to_parse:
-                continue
-
-            data = get_only(parse_castep_file(block, to_parse))
+            data = get_only(parse_castep_file(block, to_parse | Filters.SCF))
 
             scf = data.pop("scf")
-            curr_run["bsc_energies"] = data.pop("energies")
+            energies = data.pop("energies")
 
-            curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
+            if Filters.SCF in to_parse:
+                curr_run["bsc_energies"] = energies
+                curr_run["scf"], curr_run["bsc_scf"] = scf[-1], scf[:-1]
 
             for key, val in data.items():
                 if isinstance(val, list):
-- 
2.43.0


From ef3410a0a28452a5f80e133c34d61394066f51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 30/63] fix: MODOS files with 'spin' or 'nr.' in their name

---
 castep_outputs/parsers/castep_file_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 1d7229d..4951655 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2742,6 +2742,13 @@ def _process_delta_scf(block: Block) -> DeltaSCFReport:
     for line in block:
         if line.startswith("Taking band from"):
             accum["file"] = line.split()[-1]
+
+        elif "Writing file" in line:
+            band, spin = map(int, get_numbers(line)[-2:])
+            for state in accum["states"]:
+                if state["band"] == band and state["spin"] == spin:
+                    state["file"] = line.split()[-1]
+
         elif "MODOS state" in line:
             accum["states"].append({})
         elif "nr." in line:
@@ -2756,10 +2763,4 @@ def _process_delta_scf(block: Block) -> DeltaSCFReport:
                 if state["band"] == band and state["spin"] == spin:
                     state["pop"] = pop
 
-        elif "Writing file" in line:
-            band, spin = map(int, get_numbers(line)[-2:])
-            for state in accum["states"]:
-                if state["band"] == band and state["spin"] == spin:
-                    state["file"] = line.split()[-1]
-
     return accum
-- 
2.43.0


From e79df3e221157b47217921aa1a21c20e4e908415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:07 +0000
Subject: [PATCH 31/63] fix: parser names for binary files, and unknown ones,
 were ignored by parse_single

---
 castep_outputs/cli/castep_outputs_main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..a1388fb 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,10 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        if parser not in ALL_PARSERS:
+            raise ValueError(f"Parser {parser!r} not found.")
+
+        parser = ALL_PARSERS[parser]
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From 484eef55a48c6a03cbf84cb8318a48fe98435f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 32/63] fix: several files given as paths could not be dumped
 as JSON

---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index a1388fb..1191bfc 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -128,7 +128,7 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From cc33d379e82d6f60acb2b253a7929aa67078cf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 33/63] fix: documented output format yaml was refused on the
 command line

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..d904d72 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -39,7 +39,7 @@ def get_parser() -> argparse.ArgumentParser:
                             default="WARNING")
     arg_parser.add_argument("-o", "--output", help="File to write output, default: screen",
                             default=None)
-    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=SUPPORTED_FORMATS,
+    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=(*SUPPORTED_FORMATS, "yaml"),
                             default="json")
 
     arg_parser.add_argument("-t", "--testing", action="store_true",
-- 
2.43.0


From 60dca4dfbe18da6ed50d3e03502d64ee5113c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 34/63] fix: seed names containing a dot selected another
 calculation's files

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index d904d72..6d8fb3e 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -98,7 +98,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
             getattr(args, ext).append(str(seed))
         else:
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = seed.with_name(f"{seed.name}.{typ}")
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-- 
2.43.0


From 6d0a0bb4033beaa2ec0f636a63f2ea6a4a6cc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 35/63] fix: error files of seeds in another directory were not
 found

---
 castep_outputs/cli/args.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 6d8fb3e..612ffef 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import argparse
 from collections.abc import Sequence
+from glob import escape
 from pathlib import Path
 
 from castep_outputs import __version__
@@ -102,7 +103,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
+            if args.inc_err and (err_files := seed.parent.glob(f"{escape(seed.name)}.*.err")):
                 args.err.extend(map(str, err_files))
 
     return args
-- 
2.43.0


From c8bc01f20ebc811667c9303fd76bd1674bd7796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 36/63] fix: predicted pseudopotential names of mixed
 functionals depended on the hash seed

---
 castep_outputs/tools/get_generated_files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..737af21 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,9 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            # Sorted as the order of a set is arbitrary.
+            theory = next((XC_TO_PS_THEORY[key] for key in sorted(xc) if key in XC_TO_PS_THEORY),
+                          "lda").upper()
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From 4af3825b534276fc2281a4d8475f70bdb43b989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 37/63] fix: pair potential files were not predicted for
 absolute positions

---
 castep_outputs/tools/get_generated_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 737af21..69d53c6 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -441,7 +441,8 @@ def _get_generated_files(
     if devel_code.get("_pp") and (pp := devel_code.get("pp")):
         if pp.get("pot_print"):
             if cell_data:
-                spec = {spec: None for spec, _ind in cell_data.get("positions_frac", {})}
+                positions = cell_data.get("positions_frac", cell_data.get("positions_abs", {}))
+                spec = {spec: None for spec, _ind in positions}
                 out_files |= {
                     f"{seedname}_{a}_{b}.pot" for a, b in combinations_with_replacement(spec, 2)
                 }
-- 
2.43.0


From 21be92057ed6ad4bd8b382878ffefb549c2ecd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:52 +0000
Subject: [PATCH 38/63] fix: files of seeds with a dot in their name were
 predicted from another seed

---
 castep_outputs/tools/get_generated_files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 69d53c6..934998c 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -288,17 +288,19 @@ def get_generated_files(
     May struggle to get exact information from complex xc_definitions.
     """
     seedname = Path(seedname)
+    if seedname.suffix in {".cell", ".param"}:
+        seedname = seedname.with_suffix("")
     if param_file is None:
-        param_file = seedname.with_suffix(".param")
+        param_file = seedname.with_name(f"{seedname.name}.param")
     if cell_file is None:
-        cell_file = seedname.with_suffix(".cell")
+        cell_file = seedname.with_name(f"{seedname.name}.cell")
 
     if param_data is None:
         param_data = parse_cell_param_file(param_file)[0] if param_file.exists() else {}
     if cell_data is None:
         cell_data = parse_cell_param_file(cell_file)[0] if cell_file.exists() else {}
 
-    return _get_generated_files(param_data, cell_data, seedname.with_suffix(""))
+    return _get_generated_files(param_data, cell_data, seedname)
 
 
 def _get_generated_files(
@@ -309,7 +311,7 @@ def _get_generated_files(
     if cell_data is None:
         cell_data = {}
 
-    seedname = Path(src).stem
+    seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
     raw_task = param_data.get("task", "SINGLEPOINT").upper()
-- 
2.43.0


From 6345057986d40ec60bf5814fbe74909b61c1431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 39/63] fix: predicted files depended on the letter case of
 md_ensemble and geom_method

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 934998c..bdebd24 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -527,7 +527,7 @@ def _get_generated_files(
     elif task is Task.GEOMOPT:
         if param_data.get("write_geom", True):
             out_files.add(f"{seedname}.geom")
-        if param_data.get("geom_method") == "pes":
+        if param_data.get("geom_method", "lbfgs").lower() == "pes":
             out_files.add(f"{seedname}.pes")
     elif task is Task.SPECTRAL:
         out_files |= get_spectral_files(
@@ -538,7 +538,7 @@ def _get_generated_files(
     elif task is Task.MD:
         if param_data.get("write_md", True):
             out_files.add(f"{seedname}.md")
-        if param_data.get("md_ensemble") in {"nvhug", "nphug"}:
+        if param_data.get("md_ensemble", "nve").lower() in {"nvhug", "nphug"}:
             out_files.add(f"{seedname}.hug")
 
         extrap = param_data.get("md_extrap", "first").lower()
-- 
2.43.0


From 90a5bc9eda2ba58c9ce8e9a367b41e270a670315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 40/63] fix: bands of an incomplete spin-polarised k-point were
 reported as not spin-polarised

---
 castep_outputs/parsers/bands_file_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 9efee9b..3a1e6b5 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -65,15 +65,17 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
     data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
     bands_info.update(data)
+    first: Literal["band", "band_up"] = "band_up" if data.get("spin components") == 2 else "band"
+    current = first
 
     for line in bands_file:
         if line.startswith("K-point"):
             if qdata:
                 qdata[current] = to_type(accum, float)
-                qdata["spin_comp"] = "band_down" in qdata
+                qdata["spin_comp"] = current != "band"
                 bands_info["bands"].append(qdata)
                 accum = []
-                current = "band"
+                current = first
             _, _, *qpt, weight = line.split()
             qdata = {"qpt": to_type(qpt, float), "weight": float(weight)}
 
@@ -89,7 +91,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
 
     if qdata:
         qdata[current] = to_type(accum, float)
-        qdata["spin_comp"] = "band_down" in qdata
+        qdata["spin_comp"] = current != "band"
         bands_info["bands"].append(qdata)
 
     return bands_info
-- 
2.43.0


From c9bf29534215cd02610df3d34607f1e8e6f94c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 41/63] fix: read tagged species in the headers of .phonon,
 .efield, .elastic and .phonon_dos files

---
 castep_outputs/parsers/phonon_dos_file_parser.py | 5 +++--
 castep_outputs/utilities/castep_res.py           | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/phonon_dos_file_parser.py b/castep_outputs/parsers/phonon_dos_file_parser.py
index e3ae6ca..0939080 100644
--- a/castep_outputs/parsers/phonon_dos_file_parser.py
+++ b/castep_outputs/parsers/phonon_dos_file_parser.py
@@ -123,13 +123,14 @@ def parse_phonon_dos_file(phonon_dos_file: TextIO) -> PhononDosFileInfo:
             # First chunk is " BEGIN DOS   Freq (cm-1)  g(f)", thus need the 5th on
             species = block[0].split()[5:]
             headers = ("freq", "g", *species)
-            rows = re.compile(labelled_floats(headers))
+            # Tagged species (e.g. "H:1") are not valid group names
+            rows = re.compile(labelled_floats([f"col_{i}" for i, _ in enumerate(headers)]))
 
             block.remove_bounds(1, 2)
 
             for line in block:
                 match = rows.match(line)
-                stack_dict(dos, match.groupdict())
+                stack_dict(dos, dict(zip(headers, match.groups())))
 
             if dos:
                 fix_data_types(dos, dict.fromkeys(headers, float))
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index e712b1f..ec51bd5 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -577,7 +577,7 @@ MAGRES_TASK = (
 # Regexp to identify block in .phonon or .phonon_dos file
 FRACCOORDS_RE = re.compile(
     rf"\s*(?P<index>{INTNUMBER_RE}){labelled_floats(('u', 'v', 'w'))}"
-    rf"\s*(?P<spec>{SPECIES_RE}){labelled_floats(('mass',))}",
+    rf"\s*(?P<spec>{ATOM_NAME_RE}){labelled_floats(('mass',))}",
 )
 
 PHONON_PHONON_RE = re.compile(
-- 
2.43.0


From 5c4b5c2407295e433191228fd3407e4abc5edeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 42/63] fix: digits in species tags are not internal strain
 values

---
 castep_outputs/parsers/elastic_file_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/elastic_file_parser.py b/castep_outputs/parsers/elastic_file_parser.py
index f4cd45e..7f57e5a 100644
--- a/castep_outputs/parsers/elastic_file_parser.py
+++ b/castep_outputs/parsers/elastic_file_parser.py
@@ -48,9 +48,11 @@ def parse_elastic_file(elastic_file: TextIO) -> dict[str, list[list[float]]]:
 
             block.remove_bounds(fore=0, back=1)
             for blk_line in block:
-                match = ELASTIC_INTERNAL_STRAIN_RE.match(blk_line).groupdict()
-                atom = atreg_to_index(match)
-                accum[key][atom].append(to_type(get_numbers(blk_line), float))
+                match = ELASTIC_INTERNAL_STRAIN_RE.match(blk_line)
+                # Digits in the tag of the species are not values
+                numbers = [match["index"], *get_numbers(blk_line[match.end("dir"):])]
+                atom = atreg_to_index(match.groupdict())
+                accum[key][atom].append(to_type(numbers, float))
 
         elif block := Block.from_re(line, elastic_file,
                                     "BEGIN", "END"):
-- 
2.43.0


From 4a635f1bdb9a9babe55c36ea037d5b91b471b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 43/63] fix: do not count the end of a file as a line

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..2139a0b 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -33,11 +33,11 @@ class FileWrapper:
         return self
 
     def __next__(self) -> str:
-        self._lineno += 1
         self._pos = self.file.tell()
         nextline = self.file.readline()
         if not nextline:
             raise StopIteration
+        self._lineno += 1
         return nextline
 
     def rewind(self) -> None:
-- 
2.43.0


From 803daac2f9a5020bc0736450c216723aa1b96f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 44/63] fix: comment characters are not regular expressions

---
 castep_outputs/utilities/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..9e8d06d 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -479,7 +479,7 @@ def _strip_inline_comments(
     >>> '|'.join(_strip_inline_comments(inp, comment_char={"#",}))
     'Hello|End of line'
     """
-    comment_re = re.compile(f"({'|'.join(comment_char)})")
+    comment_re = re.compile(f"({'|'.join(map(re.escape, comment_char))})")
 
     for line in data:
         line = comment_re.split(line)[0].rstrip()
@@ -526,7 +526,7 @@ def _strip_initial_comments(
     >>> '|'.join(_strip_initial_comments(inp, comment_char={"#",}))
     'Hello|End of line # comment'
     """
-    comment_re = re.compile(rf"^\s*({'|'.join(comment_char)})")
+    comment_re = re.compile(rf"^\s*({'|'.join(map(re.escape, comment_char))})")
     out = cast("Iterable[str]", filterfalse(comment_re.match, data))
     out = map(str.rstrip, out)
     out = filter(None, out)
-- 
2.43.0


From ba406e77e710ee3cb6cf93bc6c96c57213c635a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 45/63] fix: Block.asstringio does not double line ends

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 2139a0b..0c37d2e 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -308,7 +308,7 @@ class Block:
         :
             Block data as StringIO
         """
-        return StringIO(str(self))
+        return StringIO("".join(line if line.endswith("\n") else f"{line}\n" for line in self._data))
 
     def aslist(self) -> list[str]:
         """
-- 
2.43.0


From 44249b60c6940123a0b3a99c6e5a8d18fd11f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 46/63] fix: Block.get_lines reads the lines it returns and no
 more

---
 castep_outputs/tools/md_geom_parser.py  |  7 ++++---
 castep_outputs/utilities/filewrapper.py | 18 ++++++++----------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..29a4b6c 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -45,9 +45,10 @@ class MDGeomParser:
         self._start = self._handle.tell()
         self._start_line = self._handle.lineno
 
-        while next(self._handle).strip():
-            pass
-        self._frame_lines = self._handle.lineno - self._start_line - 1
+        for line in self._handle:
+            if not line.strip():
+                break
+        self._frame_lines = self._handle.lineno - self._start_line
 
         self._frame_bytes = self._handle.tell() - self._start
         stat = self.file.stat()
diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 0c37d2e..452b85c 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 
 import re
 from io import StringIO
+from itertools import islice
 from typing import TYPE_CHECKING, NoReturn, TextIO, TypeVar, overload
 
 if TYPE_CHECKING:
@@ -169,16 +170,13 @@ class Block:
         """
         block = cls(in_file)
 
-        data: list[str] = []
-        for i, line in enumerate(in_file, 1):
-            if i > n_lines:
-                break
-            data.append(line)
-        else:
-            if not eof_possible:
-                if hasattr(in_file, "name"):
-                    raise OSError(f"Unexpected end of file in {in_file.name}.")
-                raise OSError("Unexpected end of file.")
+        # Read no further than the last line wanted
+        data = list(islice(in_file, n_lines))
+
+        if len(data) < n_lines and not eof_possible:
+            if hasattr(in_file, "name"):
+                raise OSError(f"Unexpected end of file in {in_file.name}.")
+            raise OSError("Unexpected end of file.")
 
         block._data = tuple(data)
         return block
-- 
2.43.0


From c5ab9faae4dedbc2fad55fbaa6e4e7fa5dbecc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 47/63] fix: flatten_dict uses its separator within sequences
 too

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 9e8d06d..2b12bbb 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -325,7 +325,7 @@ def flatten_dict(
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
             for keyx, val in enumerate(value):
-                items.extend(flatten_dict({str(keyx): val}, new_key).items())
+                items.extend(flatten_dict({str(keyx): val}, new_key, separator).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 4aaa7c50a06fc9e54a494c6ef224d8c8c3e8e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 48/63] fix: parse_int_or_float knows negative integers

---
 castep_outputs/utilities/type_conv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index 3b0a083..7b11da8 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -123,7 +123,12 @@ def parse_int_or_float(numbers):
     >>> parse_int_or_float("7")
     7
     """
-    if all(x.isdigit() for x in numbers):
+    if not isinstance(numbers, str):
+        numbers = tuple(numbers)
+
+    words = (numbers,) if isinstance(numbers, str) else numbers
+
+    if all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return to_type(numbers, int)
 
     return to_type(numbers, float)
-- 
2.43.0


From 9c240e2045479885b32664fabb6649ffa6c76616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 49/63] fix: json_safe looks into sequences

---
 castep_outputs/utilities/utility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 2b12bbb..3eea594 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -279,6 +279,8 @@ def json_safe(obj):
             obj_out[key] = json_safe(val)
 
         obj = obj_out
+    elif isinstance(obj, (list, tuple)):
+        obj = [json_safe(val) for val in obj]
     elif isinstance(obj, complex):
         obj: ComplexDict = {"real": obj.real, "imag": obj.imag}
     return obj
-- 
2.43.0


From 82ca8a3b984fa0b42890d58139e926cbe38b69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 50/63] fix: structure factors are reported in the order of the
 file

---
 castep_outputs/parsers/xrd_sf_file_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/xrd_sf_file_parser.py b/castep_outputs/parsers/xrd_sf_file_parser.py
index e30999f..52e9e79 100644
--- a/castep_outputs/parsers/xrd_sf_file_parser.py
+++ b/castep_outputs/parsers/xrd_sf_file_parser.py
@@ -55,7 +55,8 @@ def parse_xrd_sf_file(xrd_sf_file: TextIO) -> XRDSFFileInfo:
     headers = next(xrd_sf_file).split()[3:]
     # Turn Re(x) into x_re
     headers = [f"{head[3:-1]}_{head[0:2]}".lower() for head in headers]
-    headers_wo = {head[:-3] for head in headers}
+    # Keep the order of the file (that of a set changes from run to run)
+    headers_wo = tuple(dict.fromkeys(head[:-3] for head in headers))
 
     xrd_re = re.compile(rf"(?P<qvec>(?:\s*{REs.INTNUMBER_RE}){{3}})" +
                         labelled_floats(headers))
-- 
2.43.0


From 1acbab99b49d9ca7e342b4ca3d315d7bb0d53d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 51/63] fix: leave a handle given to a parser open

---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 452b85c..b82d18f 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -107,9 +107,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From 066c8b241a958d28895abe7b7c33355a27e5c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 52/63] fix: keep the units of absolute positions of product
 and intermediate

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 885c801..9f955c1 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -719,8 +719,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
-- 
2.43.0


From 92260878c222df8f7b6096600e4ab1cb0f4eee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:41 +0000
Subject: [PATCH 53/63] fix: accept devel_code values which contain a separator

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 9f955c1..e89b8f2 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -352,7 +352,7 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
         block_str = blk.group(2)
         block: DevelBlock = {}
         for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
-            key, val = re.split(r"[:=]", par.group(0))
+            key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
             key = normalise_key(key)
             typ = determine_type(val)
             block[key] = to_type(val, typ)
@@ -376,7 +376,7 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
     # Catch remainder
     for par in re.finditer(REs.DEVEL_CODE_VAL_RE, main_block):
-        key, val = re.split(r"[:=]", par.group(0))
+        key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
         key = normalise_key(key)
         typ = determine_type(val)
 
-- 
2.43.0


From da4330978ff8e3dc97f4e12669a679f649aae1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 54/63] fix: report devel_code flags with digits in their name

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index e89b8f2..1f41774 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -390,7 +390,7 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     # Catch present components
     present_code_re = re.compile(r"""
         (?<![:=])        # Does not follow : or =
-        \b[A-Za-z_-]+\b  # One "word"
+        \b[A-Za-z_][\w-]*\b  # One "word"
         (?![:=])         # Not followed by : or =
     """, re.VERBOSE)
 
-- 
2.43.0


From a6b4f95e3dc98f01017e3960c626df8db4c373d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 55/63] fix: match devel_code blocks by their whole name

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index ec51bd5..0b4b1d5 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -602,7 +602,7 @@ BANDS_FERMI_RE = re.compile(
 
 DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
 DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(.*?):end\1\b"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"\b([A-Za-z0-9_]+):(.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0


From 33a22f288d997813b3799b20fbc94bb5b7002186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 56/63] fix: don't raise on deleting an MDGeomParser whose file
 could not be opened

---
 castep_outputs/tools/md_geom_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index 29a4b6c..3cbf6c0 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -208,7 +208,8 @@ While iteration should work, extracting particular frames may not.
 
     def __del__(self) -> None:
         """Close file before deletion."""
-        self._handle.close()
+        if hasattr(self, "_handle"):
+            self._handle.close()
 
     def __str__(self) -> str:
         return f"""\
-- 
2.43.0


From b0394ed9632e83a7fb6c764aafad420a031dd252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 57/63] fix: keep the meta-GGA part of a cst_esp file whose
 grid has one point along x apart

---
 castep_outputs/bin_parsers/cst_esp_file_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/bin_parsers/cst_esp_file_parser.py b/castep_outputs/bin_parsers/cst_esp_file_parser.py
index 374ac38..e2f281d 100644
--- a/castep_outputs/bin_parsers/cst_esp_file_parser.py
+++ b/castep_outputs/bin_parsers/cst_esp_file_parser.py
@@ -42,16 +42,16 @@ def parse_cst_esp_file(cst_esp_file: BinaryIO) -> ESPData:
     reader = FortranBinaryReader(cst_esp_file)
     accum: dict[str, Any] = reader.get_dtype_dict(dtypes)
 
-    prev_nx = None
+    prev_nx = prev_ny = None
     curr = []
     accum["esp"] = []
     for datum in reader:
-        nx, _ny = parse_bytes(datum[:8], (int, ...))
-        if prev_nx != nx and curr:
+        nx, ny = parse_bytes(datum[:8], (int, ...))
+        if curr and (prev_nx != nx or prev_ny >= ny):
             accum["esp"].append(curr)
             curr = []
         curr.append(parse_bytes(datum[8:], (complex, ...)))
-        prev_nx = nx
+        prev_nx, prev_ny = nx, ny
 
     accum["esp"].append(curr)
 
-- 
2.43.0


From 09fbbc66afd7bc4725cd7ed0d034533f1531dda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 58/63] fix: Table regular expressions do not repeat optional
 space

---
 castep_outputs/utilities/castep_res.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 0b4b1d5..aaa8a32 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -94,7 +94,7 @@ def labelled_floats(
 
 def gen_table_re(
     content: str,
-    border: str = r"\s*",
+    border: str = "",
     *,
     pre: str = "",
     post: str = "",
@@ -141,9 +141,10 @@ def gen_table_re(
        gen_table_re("-+", "\+")
 
     """
-    tab_re = rf"\s*{border}\s*{content}\s*{border}\s*" if content else rf"\s*{border}\s*"
+    parts = (pre, border, content, border, post) if content else (pre, border, post)
 
-    tab_re = rf"\s*{pre}{tab_re}{post}\s*"
+    # Only one optional space between parts, as time to match grows with each repeat.
+    tab_re = r"\s*".join(("", *filter(None, parts), ""))
 
     if whole_line:
         tab_re = f"^{tab_re}$"
-- 
2.43.0


From 180d5b01972cd258c62cc8233dcaf385efac061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 59/63] fix: make log messages for files with a percent sign in
 their names

---
 castep_outputs/utilities/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 3eea594..4378f82 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -411,7 +411,7 @@ def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
     if hasattr(file, "name"):
 
         def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-            getattr(logging, level)(f"[{file.name}] {message}", *args)
+            getattr(logging, level)(f"[%s] {message}", file.name, *args)
     else:
 
         def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
@@ -423,7 +423,7 @@ def log_factory(file: TextIO | fileinput.FileInput | FileWrapper) -> Logger:
 @log_factory.register
 def _(file: fileinput.FileInput) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.filename()}:{file.lineno()}] {message}", *args)
+        getattr(logging, level)(f"[%s:%d] {message}", file.filename(), file.lineno(), *args)
 
     return log_file
 
@@ -431,7 +431,7 @@ def _(file: fileinput.FileInput) -> Logger:
 @log_factory.register
 def _(file: FileWrapper) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.name}:{file.lineno}] {message}", *args)
+        getattr(logging, level)(f"[%s:%d] {message}", file.name, file.lineno, *args)
 
     return log_file
 
@@ -439,7 +439,7 @@ def _(file: FileWrapper) -> Logger:
 @log_factory.register
 def _(file: Block) -> Logger:
     def log_file(message: str, *args: Any, level: LoggingLevels = "info") -> None:
-        getattr(logging, level)(f"[{file.name}:{file.lineno}] {message}", *args)
+        getattr(logging, level)(f"[%s:%d] {message}", file.name, file.lineno, *args)
 
     return log_file
 
-- 
2.43.0


From 8f27ec676ae2f61d36c20efb304eb8d1fefd058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:37 +0000
Subject: [PATCH 60/63] fix: read mixtures of .cell files with any spacing

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index aaa8a32..ec84c1f 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -629,7 +629,7 @@ POSITIONS_SPIN_RE = re.compile(
     re.IGNORECASE,
 )
 POSITIONS_MIXTURE_RE = re.compile(
-    rf"mixture[= :\t]\(\s*{labelled_floats(('mix', 'ratio'))}\)",
+    rf"mixture\s*[= :\t]\s*\(\s*(?P<mix>{INTNUMBER_RE})\s+(?P<ratio>{FLOAT_RAT_RE.pattern})\s*\)",
     re.IGNORECASE,
 )
 SPEC_PROP_RE = re.compile(rf"\s*{ATOM_NAME_RE}\s+(?P<val>.*)")
-- 
2.43.0


From a0325cd8297acd34794762d8e7622908b088eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 61/63] fix: don't take the parameter of the first species in
 sedc_custom_params for units

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 1f41774..76319fa 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -554,7 +554,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and ":" not in test:
         units = tuple(units)
     else:
         block.rewind()
-- 
2.43.0


From 80a311c06204104b5132e2608351200d41b05b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:55 +0000
Subject: [PATCH 62/63] fix: a keyword standing alone in a .cell or .param file
 is true

---
 castep_outputs/parsers/cell_param_file_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 76319fa..fec0f84 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -171,6 +171,11 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             else:
                 curr[key] = val
 
+        elif match := re.match(r"^\s*([a-z_][a-z0-9_]*)\s*$", line, re.IGNORECASE):
+            # A logical keyword standing alone is switched on
+            logger("Found param %s", match[1])
+            curr[match[1].lower()] = True
+
     return [curr]
 
 
-- 
2.43.0


From c48dbe63a4bb79a5d3ef241df5d356650ebf25ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:59 +0000
Subject: [PATCH 63/63] fix: pair potential files of unknown species are named
 like those of known species

---
 castep_outputs/tools/get_generated_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index bdebd24..c99fa6a 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -450,7 +450,7 @@ def _get_generated_files(
                 }
 
             else:
-                out_files.add(f"{seedname}_*_.pot")
+                out_files.add(f"{seedname}_*_*.pot")
 
         if pp.get("fd_check"):
             out_files.add(f"{seedname}.fd")
-- 
2.43.0

