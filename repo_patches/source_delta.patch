From a569e1b46048f234d1240433d231552ab7e091e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 01/51] fix: folding a shift or rotation by the most negative
 number recursed forever

---
 pico_constfold.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7699120..fd9a418 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -286,7 +286,13 @@ def lua_bin_xor(lang, a, b):
     elif a.is_integer_cvt and b.is_integer_cvt:
         return LuaInteger(a.uint_value ^ b.uint_value)
 
+def _is_min_number(a):
+    # the only kind of number whose negation overflows back to itself
+    return a.value == (0x80000000 if a.is_fixnum else -0x8000000000000000)
+
 def lua_shl(lang, a, b):
+    if _is_min_number(b): # avoid negating it
+        return
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             if not fixnum_is_negative(a.value): # avoid relying on questionable shift-left-neg-by-neg behaviour
@@ -301,6 +307,8 @@ def lua_shl(lang, a, b):
             return LuaInteger(a.uint_value << min(b.uint_value, 64))
 
 def lua_shr(lang, a, b):
+    if _is_min_number(b): # avoid negating it
+        return
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             return lua_shl(lang, a, lua_neg(lang, b))
@@ -314,6 +322,8 @@ def lua_shr(lang, a, b):
             return LuaInteger(a.uint_value >> min(b.uint_value, 64))
 
 def lua_lshr(lang, a, b):
+    if _is_min_number(b): # avoid negating it
+        return
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             return lua_shl(lang, a, lua_neg(lang, b))
@@ -322,6 +332,8 @@ def lua_lshr(lang, a, b):
     # not yet(?) impl. for picotron?
 
 def lua_rotl(lang, a, b):
+    if _is_min_number(b): # avoid negating it
+        return
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             return lua_rotr(lang, a, lua_neg(lang, b))
@@ -330,6 +342,8 @@ def lua_rotl(lang, a, b):
     # not yet(?) impl. for picotron?
 
 def lua_rotr(lang, a, b):
+    if _is_min_number(b): # avoid negating it
+        return
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             return lua_rotl(lang, a, lua_neg(lang, b))
-- 
2.43.0


From aab96f5cbb8a7dc0b4cb86ad7260ff995da52274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 02/51] fix: folding a division with a result of -0x8000
 differed from pico8's clamping

---
 pico_constfold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index fd9a418..916526b 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -178,7 +178,7 @@ def _div_trunc(a, b):
 def lua_div(lang, a, b):
     if a.is_fixnum and b.is_fixnum and b.value != 0: # avoid relying on div-by-0 behavior
         result = _div_trunc(a.signed_value << 16, b.signed_value)
-        if is_signed_fixnum_in_range(result): # avoid relying on clamping overflow behavior
+        if is_signed_fixnum_in_range(result) and result != -0x80000000: # avoid relying on clamping overflow behavior (which clamps to -0x7fffffff)
             return LuaFixnum(result)
     
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-- 
2.43.0


From 8a9179cc44dc6a6cbfd71215113b36bedfddb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 03/51] fix: folding picotron's floor-division of floats
 rounded differently than lua

---
 pico_constfold.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 916526b..97f01f1 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -195,7 +195,9 @@ def lua_idiv(lang, a, b):
     elif a.is_integer and b.is_integer and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
         return LuaInteger(a.value // b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-        result = a.float_value // b.float_value
+        result = a.float_value / b.float_value
+        if math.isfinite(result):
+            result = math.copysign(math.floor(result), result) # (python's // rounds differently than lua's, and floor loses -0)
         if not math.isnan(result):
             return LuaFloat(result)
 
-- 
2.43.0


From 3349c8d2742c56832b84016926d2ba719d6da3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 04/51] fix: folding 'true and f()' or 'false or ...' kept
 extra values of the multi-value operand

---
 pico_constfold.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index 97f01f1..3fbaa35 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -548,6 +548,11 @@ def erase_assign_targets(node, indices):
 def create_const_node(token):
     return Node(NodeType.const, [token], token=token)
 
+def create_group_node(node):
+    open_token = Token.synthetic(TokenType.punct, "(", node, prepend=True)
+    close_token = Token.synthetic(TokenType.punct, ")", node, append=True)
+    return Node(NodeType.group, [open_token, node, close_token], child=node)
+
 def create_do_node_if_needed(node):
     needed = False
 
@@ -628,6 +633,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
                     
                     if constval:
                         if constval is node.right:
+                            if is_vararg_expr(node.right): # must still evaluate to a single value
+                                node.right.replace_with(create_group_node(node.right.move()))
                             node.replace_with(node.right)
                         else:
                             set_const(node, constval, ctxt, focus, in_const_ctxt)
-- 
2.43.0


From fe58fe9c792434e03cd12c94af5263b012d74b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 05/51] fix: reading old-compressed code failed when nothing
 follows it, as in a tiny-rom

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 88eb30e..729f1ba 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -109,7 +109,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
         if debug_handler: debug_handler.init(r, str)
 
         code = []
-        while True:
+        while len(code) < unc_size: # (there isn't necessarily anything after the code)
             ch = r.u8()
             if ch == 0x00:
                 ch2 = r.u8()
-- 
2.43.0


From 7c27f296b2fb4e61a235cc87eb0209a45c15dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 06/51] fix: merging a meta section crashed

---
 pico_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index c4a6682..192954b 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -768,7 +768,7 @@ def merge_cart(dest, src, sections):
             dest.label = src.label
         elif section.startswith(k_meta_prefix):
             meta_name = section[len(k_meta_prefix):]
-            dest.meta[meta_name] = src.name[meta_name]
+            dest.meta[meta_name] = src.meta[meta_name]
         else:
             throw(f"unknown cart section: '{section}'")
 
-- 
2.43.0


From 7a18e8d54c9b65f3bc95cac49e3d4830aad85929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 07/51] fix: preprocessing code with an unterminated long
 string never ended

---
 pico_preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 1194164..0fd04f3 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -38,7 +38,8 @@ def preprocess_code(path, code, start_line=0, **opts):
                     i += 1
 
         elif ch == '[' and list_get(code, i + 1) == '[': # long string
-            skip_long_brackets()
+            if not skip_long_brackets(): # (unterminated)
+                i += 1
 
         elif ch in ('"', "'"): # string
             i += 1
-- 
2.43.0


From 024553fcb17e43fb1db91d48b4a79b7bf3662894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:29 +0000
Subject: [PATCH 08/51] fix: inserting a palette into a pod recorded it at the
 wrong index

---
 pico_export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 2930738..d93eb0c 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -371,8 +371,8 @@ class PodFile:
 
                 w.str(header)
                 w.u32(3 * m.k_num_colors)
-                for i in range(m.k_num_colors):
-                    r, g, b, _ = content[i]
+                for color_i in range(m.k_num_colors):
+                    r, g, b, _ = content[color_i]
                     w.u8(r); w.u8(g); w.u8(b)
             
             else:
-- 
2.43.0


From af043d6b8162ce71edda7580d18db20d3a78c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 09/51] fix: fast old-format compression could emit a match
 shorter than the format allows

---
 pico_compress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 729f1ba..dc08c38 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -204,6 +204,7 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
                                     # as either a list or a SubMatchDict
     next_litblock = litblock_idxs.popleft() if litblock_idxs else len(code)
     empty_code = type(code)() # e.g. "" if code is an str
+    base_min_c = min_c
 
     def get_match_length(left, left_i, right, right_i, min_c):
         c = min_c
@@ -226,7 +227,7 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
                     if no_repeat:
                         c = min(c, i - j)
                     
-                    if not (max_o != None and j < i - max_o):
+                    if c >= base_min_c and not (max_o != None and j < i - max_o):
                         best_c, best_j = c, j
                 
             return best_c, best_j
-- 
2.43.0


From efee7f4ec0bb35fad7ea28bd67414eda00e70f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:59 +0000
Subject: [PATCH 10/51] fix: underscores in picotron numbers were silently
 accepted

---
 pico_tokenize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 99ad0d9..33cc96a 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -784,6 +784,9 @@ def parse_luanum(origstr):
         str = str[1:]
         neg = True
 
+    if "_" in str: # accepted by python, but not by lua
+        throw(f"Invalid lua number: {origstr}")
+
     try:
         if str.startswith("0x"):
             if "." in str or "p" in str:
-- 
2.43.0


From bb5f5d5a16a9fc6a4199031c73fe82e2fd266a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 11/51] fix: large negative integers were written to pods as
 literals that are read as floats

---
 pico_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_output.py b/pico_output.py
index d02e13c..20f62fb 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -125,6 +125,8 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
             decvalue = "%d" % value
             if base:
                 minvalue = decvalue
+                if not sign and value >= 0x8000000000000000:
+                    minvalue = "0x%x" % value # else, it won't be parsed as an integer
 
         if not base:
             if value >= 0x8000000000000000:
-- 
2.43.0


From 3d640ba2164a3083c78c657985853a55de8b4998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:24 +0000
Subject: [PATCH 12/51] fix: pod tables with a 'true' key were written as lists

---
 picotron_fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index e0664ca..5644c2e 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -138,7 +138,7 @@ def format_pod(value, ud_handler=None):
         index = 1
         parts = []
         for key, child in value.items():
-            if key == index:
+            if key == index and not isinstance(key, bool):
                 parts.append(format_pod(child, ud_handler))
                 index += 1
             elif isinstance(key, str) and is_identifier(key, Language.picotron):
-- 
2.43.0


From 25f925a5713009e6f680bbc9ebaec11d992adfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 13/51] fix: long strings ending in ']' could be written with a
 closing bracket that ends them early

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 20f62fb..455ced3 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -216,7 +216,7 @@ k_char_escapes_rev_min = {k: v for k, v in k_char_escapes_rev.items() if k in "\
 def get_long_brackets_equals(value):
     for i in itertools.count():
         eqs = "=" * i
-        if f"]{eqs}]" not in value:
+        if f"]{eqs}]" not in value + "]": # (the value's end can also combine with the closing bracket)
             return eqs
 
 def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, long=None, quote=None):
-- 
2.43.0


From 4f570cd1f38604732a4e0c7d1d3a9c6fd57f6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:49 +0000
Subject: [PATCH 14/51] fix: strings ending with a \z escape crashed, or never
 ended when unterminated

---
 pico_tokenize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 33cc96a..4094d24 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -636,7 +636,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 break
             elif ch == '\\':
                 if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
+                    while peek() and peek() in k_wspace:
                         take()
                 else:
                     take() # at least
@@ -862,7 +862,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while str_get(str, end) in k_wspace:
+        while end < len(str) and str[end] in k_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From 8fba86f92186cf629da5844178966a3e320a9fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 15/51] fix: print() without arguments became a '?' that took
 the next statement as its argument

---
 pico_minify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..d5f4224 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -119,7 +119,8 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
         # note: could support calls to something other than the print builtin, but not sure it's safe...
         elif (node.type == NodeType.call and node.func.type == NodeType.var and is_root_global_or_builtin_local(node.func) and
                 node.func.name == "print" and node.func.var.name == "print" and # both before and after any rename
-                not node.func.var.reassigned and (not root.has_env or not safe_builtins)):
+                not node.func.var.reassigned and (not root.has_env or not safe_builtins) and
+                node.args): # (the shorthand requires arguments)
 
             # note: could support expressions, but only in non-vararg contexts, which mostly defeats the purpose
             if not node.short and node.parent.type == NodeType.block and allow_parent_shorthands(node) and allow_child_shorthands(node, node):
-- 
2.43.0


From 300c2f00ef1fb4eb1cc0067f45711848f2ad1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:09 +0000
Subject: [PATCH 16/51] fix: bodies that start with ';' or '(' were turned into
 shorthands that mean something else

---
 pico_minify.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index d5f4224..0711160 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -87,7 +87,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
 
             # can the node be converted to shorthand?
             if not to_short and not has_elseif:
-                has_empties, starts_with_do = False, False
+                has_empties, bad_start = False, False
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
@@ -102,11 +102,12 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                         has_empties = True
                     
                     if i == 0:
-                        # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = body.first_token().value == "do"
+                        # a shorthand cannot begin with a do block (would be a longhand) or with parens (would be part of the condition)
+                        first_stmt = list_get(body.stmts, 0) # (semicolons before it may get removed)
+                        bad_start = bool(first_stmt) and first_stmt.first_token().value in ("do", "(")
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
-                to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
+                to_short = allow_shorthand and not (has_empties and not focus.chars) and not bad_start
                 if to_short:
                     allowed_shorts.add(node)
             
-- 
2.43.0


From dcfbcd1550e3d3c7b854a31c6f1d9864ba983edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:25 +0000
Subject: [PATCH 17/51] fix: a body of nothing but ';' was turned into a
 shorthand without a body

---
 pico_minify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 0711160..b73784b 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -175,7 +175,7 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not body.children:
+            if not body.get_tokens(): # (semicolons may have been erased)
                 body.append_token(TokenType.punct, ";")
         
         on_enable_shorthand(node)
-- 
2.43.0


From bc1bfd6e2f76f414a7aef25fbbce09c67a672130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:57 +0000
Subject: [PATCH 18/51] fix: merging assignments changed the order in which
 calls, targets and stores happen

---
 pico_minify.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index b73784b..dd10be7 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -298,6 +298,24 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
         if require_trivial and not expr_is_trivial(node, ctxt, safe_only, allow_member, allow_index, allow_call=False, has_env=has_env):
             return
     
+    # lua evaluates all targets' sub-expressions before any of the sources, and assigns to the targets last-to-first
+    # check if this changes anything for next's targets
+
+    def is_fixed_var(node): # no other code can reassign it
+        return node.type == NodeType.var and node.kind == VarKind.local and not node.var.captured
+
+    for node in next.targets:
+        if node.type != NodeType.var:
+            subexprs = (node.child, node.key) if node.type == NodeType.index else (node.child,)
+            if not all(is_fixed_var(expr) or expr.type == NodeType.const for expr in subexprs):
+                allow_call = all(expr.type in (NodeType.var, NodeType.const) for expr in subexprs)
+                for expr in itertools.chain(subexprs, prev.sources):
+                    if not expr_is_trivial(expr, ctxt, safe_only, allow_call=allow_call, has_env=has_env):
+                        return
+
+        if safe_only and not is_fixed_var(node) and any(target.type != NodeType.var for target in prev.targets):
+            return
+
     # when reordering local declarations, ensure we don't change which local wins out among identically-named locals
     # (this relies on rename being done already!)
         
-- 
2.43.0


From 074312d2f1a09ca91a4b3d7dfabe5cf022c81c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 19/51] fix: a line starting with '(' after a shorthand was
 read as a call of what the shorthand ended with

---
 pico_parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pico_parse.py b/pico_parse.py
index 4d0f0e3..6e2afa0 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -306,6 +306,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     labelscope = LabelScope(None, funcdepth)
     curr_compiler = None
     unresolved_labels = None
+    short_vline = None # set when within a shorthand that ends with the line
     errors = []
     if lang is None:
         lang = ctxt.lang if ctxt else Language.pico8
@@ -654,7 +655,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
                 index = parse_expr()
                 close = require("]")
                 expr = Node(NodeType.index, [expr, token, index, close], key=index, child=expr)
-            elif value == "(" and expr.type in k_prefix_types:
+            elif value == "(" and expr.type in k_prefix_types and not (e(short_vline) and token.vline > short_vline):
                 expr = parse_call(expr)
             elif (value == "{" or peek(-1).type == TokenType.string) and expr.type in k_prefix_types:
                 idx -= 1
@@ -832,8 +833,11 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return Node(NodeType.return_, tokens, items=rets)
         
     def parse_print():
+        nonlocal short_vline
         tokens = [peek(-1)]
+        old_short_vline, short_vline = short_vline, tokens[0].vline
         args = parse_list(tokens, parse_expr)
+        short_vline = old_short_vline
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
         func = parse_var(token=print_token, implicit=True)
@@ -955,7 +959,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return parse_misc_stmt()
 
     def parse_block(vline=None, with_until=False, inline=False):
-        nonlocal scope, labelscope, depth
+        nonlocal scope, labelscope, depth, short_vline
+        old_short_vline, short_vline = short_vline, vline
         if not inline:
             oldscope = scope
             labelscope = LabelScope(labelscope, funcdepth)
@@ -977,6 +982,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             else:
                 tokens.append(peek(-1))
 
+        short_vline = old_short_vline
         if with_until:
             until = parse_until()
 
-- 
2.43.0


From 94d75a2c2cb593cf4106d47bab039b7da4877fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 20/51] fix: moving a folded constant after it was minified
 recursed forever

---
 pico_tokenize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 4094d24..dda294a 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -272,7 +272,8 @@ class ConstToken(Token):
 
     @post_property_change
     def parent(m, old, new):
-        lazy_property.clear(m, "value")
+        if lazy_property.is_set(m, "parsed_value"): # (else, the token was modified since)
+            lazy_property.clear(m, "value")
 
 class CommentHint(Enum):
     none = auto = preserve = lint = keep = ...
-- 
2.43.0


From c891bea29faf805929f5936a4a6b52962c3725d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 21/51] fix: folding an 'if' away could join the statements
 around it into a call

---
 pico_constfold.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 3fbaa35..7af32ba 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -492,7 +492,7 @@ def fixup_syntax_between(parent, prev, next):
     nextt = next.first_token()
     if nextt and nextt.value == "(":
         prevt = prev.last_token()
-        if prevt.value in (")", "]") or prevt.type == TokenType.ident:
+        if prevt.value in (")", "]", "}") or prevt.type in (TokenType.ident, TokenType.string):
             i = parent.children.index(prev)
             parent.insert_token(i+1, TokenType.punct, ";", near_next=True)
 
@@ -669,6 +669,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
         elif node.type in (NodeType.if_, NodeType.elseif):
             constval = get_const(node.cond)
             if constval:
+                is_stmt = node.type == NodeType.if_
                 if constval.is_truthy:
                     if node.else_:
                         node.else_.erase(KeepCommentFlags.first)
@@ -696,6 +697,9 @@ def fold_consts(ctxt, minify_opts, root, errors):
                             remove_else_node(node.parent)
                         else:
                             node.replace_with(node.else_)
+
+                if is_stmt:
+                    fixup_syntax_after_remove(node)
     
         # store which node was expected to be const but isn't
         if in_const_ctxt and node.type != NodeType.const and const_ctxt_fail is None:
-- 
2.43.0


From 6a239a12ceb749c58702e33775d27abffc012663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:33 +0000
Subject: [PATCH 22/51] fix: folding a constant that's called or indexed
 produced invalid code

---
 pico_constfold.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7af32ba..fa8d42d 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -467,6 +467,11 @@ def get_const(node):
     else:
         return getattr(node, "worse_const", None)
 
+def is_prefix(node):
+    parent = node.parent
+    return parent and ((parent.type in (NodeType.member, NodeType.index) and parent.child is node) or
+                       (parent.type == NodeType.call and parent.func is node))
+
 def set_const(node, value, ctxt, focus, force):
     if value.is_number:
         token = ConstToken(TokenType.number, value.value, node)
@@ -486,7 +491,18 @@ def set_const(node, value, ctxt, focus, force):
             node.worse_const = value
             return
 
-    node.replace_with(create_const_node(token))
+    const_node = create_const_node(token)
+    if is_prefix(node): # only parenthesized consts can be called/indexed
+        const_node = create_group_node(const_node)
+        node.replace_with(const_node)
+
+        stmt = node
+        while stmt.parent and stmt.parent.type != NodeType.block:
+            stmt = stmt.parent
+        if stmt.parent and stmt.first_token() is node.first_token():
+            fixup_syntax_after_remove(stmt)
+    else:
+        node.replace_with(const_node)
 
 def fixup_syntax_between(parent, prev, next):
     nextt = next.first_token()
-- 
2.43.0


From 40b892a06b89ce72b32a530ab0315a4a8585ef52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 23/51] fix: parentheses kept when a call could supply
 picotron's fourth for-in value

---
 pico_minify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index dd10be7..e5eaba8 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -417,7 +417,7 @@ def minify_code(ctxt, root, minify_opts):
                     remove = node in outer.args[:-1] or (outer.args and node == outer.args[-1] and not is_vararg_expr(inner))
                 elif outer.type in (NodeType.assign, NodeType.local, NodeType.for_in):
                     remove = (node in outer.sources[:-1] or (outer.sources and node == outer.sources[-1] and 
-                        (not is_vararg_expr(inner) or (3 if outer.type == NodeType.for_in else len(outer.targets)) <= len(outer.sources))))
+                        (not is_vararg_expr(inner) or ((4 if ctxt.lang == Language.picotron else 3) if outer.type == NodeType.for_in else len(outer.targets)) <= len(outer.sources))))
                 elif outer.type in (NodeType.return_, NodeType.table):
                     remove = (node in outer.items[:-1] or (outer.items and node == outer.items[-1] and not is_vararg_expr(inner)))
                 elif outer.type in (NodeType.if_, NodeType.elseif, NodeType.while_, NodeType.until, NodeType.for_) and not outer.short:
-- 
2.43.0


From 9912b5c54991b52f12f749106e0d9939c9222525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 24/51] fix: names preserved as members are preserved as
 globals too under *=*.*

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 5975849..7ab9e43 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -248,7 +248,7 @@ def rename_tokens(ctxt, root, rename_opts):
                 if env_var and env_var.keys_kind != None:
                     return compute_effective_kind(node, env_var.keys_kind, explicit=True)
 
-            if node.var.implicit or node.name in preserved_globals:
+            if node.var.implicit or node.name in preserved_globals or (members_as_globals and node.name in preserved_members):
                 global_excludes.add(node.name)
                 return None
 
@@ -309,7 +309,7 @@ def rename_tokens(ctxt, root, rename_opts):
         elif node.type == NodeType.sublang:
             for name, count in node.sublang.get_global_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_globals:
+                    if name in preserved_globals or (members_as_globals and name in preserved_members):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
-- 
2.43.0


From 4d32927ceeab34c4dc6568d5233445fde584d955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 25/51] fix: keep the line break after a short-hand whose line
 ends with a kept comment

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 455ced3..8dc8a55 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -314,7 +314,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
+            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
-- 
2.43.0


From a5435bef2ab9987ee9815b28572f3f726bd825b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:40 +0000
Subject: [PATCH 26/51] fix: no comment fuses with an operator before it

---
 pico_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_output.py b/pico_output.py
index 8dc8a55..44ac356 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -259,6 +259,8 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
     return strlong if len(strlong) < len(strlit) else strlit
 
 def need_whitespace_between(ctxt, prev, next):
+    if isinstance(next, Comment) and not isinstance(prev, Comment):
+        return prev.value.endswith(next.value[0]) # e.g. '-' followed by '--'
     if isinstance(prev, Comment) or isinstance(next, Comment):
         return False
 
-- 
2.43.0


From fbc28d04369980a7502e63c95a5407a17478cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 27/51] fix: unminify keeps repeated unary minus apart

---
 pico_unminify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index e17dff4..d204ca5 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -55,7 +55,7 @@ def unminify_code(root, unminify_opts):
                 token.value not in k_tight_suffix_tokens and \
                 not (token.value in ("(", "[") and (prev_token.type == TokenType.ident or 
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
-                not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op):
+                not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op and prev_token.value != value):
             output.append(" ")
 
         output.append(value)
-- 
2.43.0


From feaf5cfe0de105fa58277b9884a588ff00fab2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 28/51] fix: unminify keeps an index apart from a long string
 key

---
 pico_unminify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index d204ca5..586367d 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -51,7 +51,7 @@ def unminify_code(root, unminify_opts):
         if token.value == "do" and token.parent.type in (NodeType.if_, NodeType.elseif):
             value = "then"
 
-        if prev_tight and prev_token.value not in k_tight_prefix_tokens and \
+        if prev_tight and (prev_token.value not in k_tight_prefix_tokens or prev_token.value == value[0] == "[") and \
                 token.value not in k_tight_suffix_tokens and \
                 not (token.value in ("(", "[") and (prev_token.type == TokenType.ident or 
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
-- 
2.43.0


From 5be8776e480e39c10697e8e83328b1bd0c4368f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:41 +0000
Subject: [PATCH 29/51] fix: unminify keeps a semicolon that separates a
 statement starting with a parenthesis

---
 pico_unminify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_unminify.py b/pico_unminify.py
index 586367d..e90907d 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -85,6 +85,9 @@ def unminify_code(root, unminify_opts):
 
             curr_stmt = node
             output.append(indent_str * indent)
+            # (unless the statement would otherwise continue the previous one)
+            if node.prev_token().value == ";" and node.first_token().value == "(":
+                output.append(";")
             prev_tight = False
 
     def end_visit_node(node):
-- 
2.43.0


From 055560edee41d1673fe5caf896835cc3bc2e12dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:53 +0000
Subject: [PATCH 30/51] fix: keep the line break after a short-hand followed by
 a multi-line comment

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 44ac356..dcdb859 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -359,7 +359,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
 
-        if need_linebreak and "\n" in comment_out:
+        if need_linebreak and "\n" in comment_out and not comment.isblock: # (block comments don't end shorthands)
             need_linebreak = False
 
     def token_output(token):
-- 
2.43.0


From b76a9d577f1ea185f30d02280e4896154c064fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 31/51] fix: no name takes that of a preserved member under
 *=*.*

---
 pico_rename.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_rename.py b/pico_rename.py
index 7ab9e43..4e7a64f 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -194,6 +194,9 @@ def rename_tokens(ctxt, root, rename_opts):
     members_after_zero = set()
     locals_after_zero = set()
 
+    if members_as_globals: # they're all in the same namespace then
+        member_excludes = global_excludes
+
     renamed_vars = set()
 
     def compute_effective_kind(node, kind, explicit):
-- 
2.43.0


From 6fc305da9564919ded8afdbba214aae3df9000ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 32/51] fix: places in an included tab that includes other
 files were reported elsewhere

---
 pico_preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 0fd04f3..dfb477e 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -139,7 +139,7 @@ def trim_cart_to_tab(cart, target_tab):
             new_code_map.clear()
         
         new_idx = max(map.idx - start, 0)
-        new_src_idx = map.src_idx + (start if map.src_path == cart.path else 0)
+        new_src_idx = map.src_idx + max(start - map.idx, 0)
 
         new_code_map.append(CodeMapping(new_idx, map.src_path, map.src_code, new_src_idx, map.src_line))
     cart.code_map = new_code_map
-- 
2.43.0


From a3254487d0667b22a18482e2975464618dceb9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:20 +0000
Subject: [PATCH 33/51] fix: the token count reported for minified code is that
 of the output

---
 pico_process.py  |  5 ++++-
 pico_tokenize.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index b12336b..ee63145 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -385,6 +385,9 @@ def process_code(ctxt, source, input_count=False, count=False, lint=False, minif
             if count:
                 assert not source.is_super
                 new_tokens = root.get_tokens() if need_parse else tokens
+                if (need_minify or need_unminify) and not has_count_stop(new_tokens):
+                    # the count depends on the whitespace that was output (e.g. '-1' vs '- 1')
+                    new_tokens, _ = tokenize(Source(source.path, source.text), ctxt)
                 print_token_count(count_tokens(new_tokens), handler=count)
 
     return True, errors
@@ -413,7 +416,7 @@ def echo_code(code, ctxt, echo=True):
     else:
         file_write_maybe_text(echo, code)    
 
-from pico_tokenize import tokenize, count_tokens
+from pico_tokenize import tokenize, count_tokens, has_count_stop
 from pico_parse import parse, create_super_root, get_sub_root
 from pico_lint import lint_code
 from pico_minify import minify_code, Focus
diff --git a/pico_tokenize.py b/pico_tokenize.py
index dda294a..b5c74a2 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -709,13 +709,17 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
     return tokens, errors
     
 
+def is_count_stop(token):
+    return any(comment.hint == CommentHint.lint and "count::stop" in comment.hintdata for comment in token.children or ())
+
+def has_count_stop(tokens):
+    return any(is_count_stop(token) for token in tokens)
+
 def count_tokens(tokens):
     count = 0
     for i, token in enumerate(tokens):
-        if token.children:
-            for comment in token.children:
-                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
-                    return count
+        if is_count_stop(token):
+            return count
 
         if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
             continue
-- 
2.43.0


From f2fa4636a2424e0ce2d42a9ad27551af0a541626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 34/51] fix: files that start with b64$ were read back as
 something else from a p64

---
 picotron_cart.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index c56d85a..711b666 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -480,8 +480,10 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     return cart
 
-k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix
-k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix
+# (things that would be read back differently - unlike chars, these can't be allowed)
+k_bad_p64_seq_re = b"^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
+k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|" + k_bad_p64_seq_re
+k_min_bad_p64_char_re = b"\x00|" + k_bad_p64_seq_re
 
 def preview_order_key(pair):
     # we prefer to sort p64 files for better visibility of code, e.g. in the webapp's preview
-- 
2.43.0


From aede4982e112985cef7c3d23bb5c2fe6b66b9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 35/51] fix: lone carriage returns in files of a p64 were read
 back as line ends

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 711b666..2030ddd 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -481,7 +481,7 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
     return cart
 
 # (things that would be read back differently - unlike chars, these can't be allowed)
-k_bad_p64_seq_re = b"^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
+k_bad_p64_seq_re = b"^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix) + b"|\r(?!\n)"
 k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|" + k_bad_p64_seq_re
 k_min_bad_p64_char_re = b"\x00|" + k_bad_p64_seq_re
 
-- 
2.43.0


From fd73e0975df65eff6243dfb5a12b5e564fb8bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 36/51] fix: tiny roms shorter than three bytes could not be
 read

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 2030ddd..a1fbadc 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -167,7 +167,7 @@ def read_cart64_from_rom(buffer, path=None, allow_tiny=False, size_handler=None,
     cart = Cart64(path=path)
     
     with BinaryReader(BytesIO(buffer)) as r:
-        if r.bytes(3) == k_rom_header_sig:
+        if r.bytes(3, allow_eof=True) == k_rom_header_sig:
             cart.version_id = r.u8()
             size = r.u32()
             if size_handler:
-- 
2.43.0


From e5106ecf014367e5609118f461d00372b13d06d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 37/51] fix: tiny roms with code too long for pxa could not be
 written

---
 picotron_cart.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index a1fbadc..74fc92b 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -271,11 +271,14 @@ def write_cart64_to_tiny_rom(cart, size_handler=None, debug_handler=None, **opts
 
     io = BytesIO()
     with BinaryWriter(io, big_end = True) as w:
-        compress_code(w, decode_p8str(data), force_compress=True)
-        compressed_pxa = io.getvalue()
+        try:
+            compress_code(w, decode_p8str(data), force_compress=True)
+            compressed_pxa = io.getvalue()
+        except CheckError: # too large for this format
+            compressed_pxa = None
 
     result = data
-    if len(compressed_pxa) < len(result):
+    if e(compressed_pxa) and len(compressed_pxa) < len(result):
         result = compressed_pxa
     if len(compressed_lz4) < len(result):
         result = compressed_lz4
-- 
2.43.0


From 33313bcfb1150d99261384516fac3b76b2c403f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 38/51] fix: tiny roms of incompressible code with a zero byte
 or a header were read back as something else

---
 picotron_cart.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 74fc92b..e51e1d9 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -5,6 +5,7 @@ from pico_cart import k_png_header, k_qoi_header
 from pico_export import lz4_uncompress, lz4_compress
 from pico_defs import decode_luastr, encode_luastr
 from pico_compress import print_size, compress_code, uncompress_code, encode_p8str, decode_p8str
+from pico_compress import k_new_compressed_code_header, k_old_compressed_code_header
 from picotron_defs import get_default_picotron_runtime, get_picotron_version_id, Cart64Glob, k_palette_64
 from picotron_fs import PicotronFile, PicotronDir, k_pod, k_pod_prefix_strs, UserData
 
@@ -260,6 +261,8 @@ def write_cart64_to_rom(cart, size_handler=None, debug_handler=None, padding=0,
 
         return io.getvalue()
 
+k_tiny_rom_headers = (k_rom_header_sig, k_new_compressed_code_header, k_old_compressed_code_header)
+
 def write_cart64_to_tiny_rom(cart, size_handler=None, debug_handler=None, **opts):
     main = cart.files.get(k_p64_main_path)
     check(main, f"{k_p64_main_path} not found in cart")
@@ -277,11 +280,12 @@ def write_cart64_to_tiny_rom(cart, size_handler=None, debug_handler=None, **opts
         except CheckError: # too large for this format
             compressed_pxa = None
 
-    result = data
-    if e(compressed_pxa) and len(compressed_pxa) < len(result):
-        result = compressed_pxa
-    if len(compressed_lz4) < len(result):
-        result = compressed_lz4
+    results = [compressed_lz4]
+    if e(compressed_pxa):
+        results.append(compressed_pxa)
+    if not data.startswith(k_tiny_rom_headers) and b"\0" not in data: # else, would be read as compressed/terminated
+        results.append(data)
+    result = min(reversed(results), key=len)
 
     if size_handler:
         print_rom_compressed_size(len(result), handler=size_handler)
-- 
2.43.0


From c7cd1be7177cfa011512e5dda23516d6b0573140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 39/51] fix: extracting a directory whose name is given without
 the slash failed

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index e51e1d9..1d274bb 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -589,7 +589,7 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
     
     if is_dir is None:
         file = cart.files.get(fspath)
-        is_dir = file.is_dir if file else False
+        is_dir = file.is_dir if file else fspath + "/" in cart.files
 
     if is_dir:
         if fspath and not fspath.endswith("/"):
-- 
2.43.0


From 4dae1bcabc876cd66f7fe9ddcfaca2b60a210d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 40/51] fix: filtering files dropped the directories they are
 in

---
 picotron_cart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 1d274bb..2d87485 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -679,7 +679,11 @@ def write_cart64(path, cart, format, **opts):
 
 def filter_cart64(cart, sections):
     glob = Cart64Glob(sections)
-    to_delete = [path for path in cart.files if not glob.matches(path)]
+    to_keep = set(path for path in cart.files if glob.matches(path))
+    for path in tuple(to_keep): # keep the parent directories as well
+        to_keep.update(path[:i+1] for i, ch in enumerate(path) if ch == "/")
+
+    to_delete = [path for path in cart.files if path not in to_keep]
     for path in to_delete:
         del cart.files[path]
 
-- 
2.43.0


From c3775d53561c5ddb9a634f530133a8a0c4d36382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:13 +0000
Subject: [PATCH 41/51] fix: a return without values at the very end of the
 code was a syntax error

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 6e2afa0..f834941 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -826,7 +826,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_return(vline):
         tokens = [peek(-1)]
-        if peek().value in k_block_ends + (";",) or (e(vline) and peek().vline > vline):
+        if peek().type is None or peek().value in k_block_ends + (";",) or (e(vline) and peek().vline > vline):
             return Node(NodeType.return_, tokens, items=[])
         else:
             rets = parse_list(tokens, parse_expr)
-- 
2.43.0


From 63d8149870fa963ec3d05728f6402ca45745d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:13 +0000
Subject: [PATCH 42/51] fix: places of lint warnings were wrong when the code
 was minified too

---
 pico_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index ee63145..495bcf7 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -275,15 +275,15 @@ class Error:
     """An error (or warning) to be reported together with where in the source it occured"""
     def __init__(m, msg, token):
         m.msg, m.token = msg, token
+        m.source, m.idx = token.source, token.idx # (the token may be moved by minification)
 
     def __lt__(m, other):
-        return m.token.idx < other.token.idx
+        return m.idx < other.idx
 
     def format(m, fmt=None):
         fmt = default(fmt, ErrorFormat.common)
         tabbed = fmt == ErrorFormat.tabbed
-        token = m.token
-        loc = token.source.get_location(token.idx, tabs=tabbed) if token.source else SourceLocation("???", 0, 0, 0)
+        loc = m.source.get_location(m.idx, tabs=tabbed) if m.source else SourceLocation("???", 0, 0, 0)
         path = path_absolute(loc.path) if fmt == ErrorFormat.absolute else path_relative(loc.path)
         if tabbed:
             return f"{path} (tab {loc.tab:X}, line {loc.line + 1}, col {loc.col + 1}): {m.msg}"
-- 
2.43.0


From 1bfaa68952b1cf0a2ca4efe703e783d63d238984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:34 +0000
Subject: [PATCH 43/51] fix: --extra-output, --extra-input and --merge did not
 know the format tiny-rom by its name

---
 run_shrinko.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 5e035ae..618680e 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -541,7 +541,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     extra_inputs.append(InputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif 3 >= len(extra) >= 2:
-                    extra_inputs.append(InputDef(extra[0], CartFormatCls(extra[1]), name=list_get(extra, 2)))
+                    extra_inputs.append(InputDef(extra[0], EnumFromStr(CartFormatCls)(extra[1]), name=list_get(extra, 2)))
                 else:
                     throw("too many arguments to --extra-output")
         
@@ -561,7 +561,7 @@ def create_main(lang):
                 if len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
-                    extra_inputs.append(InputDef(merge[0], CartFormatCls(merge[2]), sections=SplitBySeps(merge[1])))
+                    extra_inputs.append(InputDef(merge[0], EnumFromStr(CartFormatCls)(merge[2]), sections=SplitBySeps(merge[1])))
                 else:
                     throw("too many or few arguments to --merge (must be 2 or 3)")
         
@@ -697,7 +697,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     all_outputs.append(OutputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif len(extra) == 2:
-                    all_outputs.append(OutputDef(extra[0], CartFormatCls(extra[1])))
+                    all_outputs.append(OutputDef(extra[0], EnumFromStr(CartFormatCls)(extra[1])))
                 else:
                     throw("too many arguments to --extra-output (must be 1 or 2)")
         
-- 
2.43.0


From 4052909b3c0e57a52b424a68b5ed56ec34ad75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:12 +0000
Subject: [PATCH 44/51] fix: include() without arguments crashed shrinkotron's
 minification

---
 picotron_defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_defs.py b/picotron_defs.py
index bce30db..75e82e5 100644
--- a/picotron_defs.py
+++ b/picotron_defs.py
@@ -256,7 +256,7 @@ class Cart64Source(Source):
                 # since this is best-effort, we don't check var.reassigned/etc
                 if node.type == NodeType.call and node.func.type == NodeType.var and is_root_global_or_builtin_local(node.func) and node.func.var.name == "include":
                     arg = list_get(node.args, 0)
-                    if arg.type == NodeType.const and arg.token.type == TokenType.string:
+                    if arg and arg.type == NodeType.const and arg.token.type == TokenType.string:
                         include = arg.token.parsed_value
                         # we assume include is an absolute path in the cart (we can't deal with much else)
                         # TODO: could handle . and .. and //, though?
-- 
2.43.0


From cccbb89cb781501130d5dd882459e79bd1d0701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:17 +0000
Subject: [PATCH 45/51] fix: Picotron mac export named directories in the zip
 with two slashes

---
 picotron_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_export.py b/picotron_export.py
index 3f6a845..d83aa9e 100644
--- a/picotron_export.py
+++ b/picotron_export.py
@@ -172,7 +172,7 @@ class FullExport64(Cart64Export, FullExportBase):
                     continue
 
                 exec = "." not in path_basename(name) # ???
-                m.zip_write(zip, dir, name, default(file.data, b""), exec=exec, is_dir=file.is_dir)
+                m.zip_write(zip, dir, name.rstrip("/"), default(file.data, b""), exec=exec, is_dir=file.is_dir)
 
     def save(m, path, delete_existing=False):
         dir_create(path, delete_existing=delete_existing)
-- 
2.43.0


From aa92fd98e855c1a91230b644e3fd450a5a3e8ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:45 +0000
Subject: [PATCH 46/51] fix: strings that are renamed, or replaced by
 sub-languages and placeholders, were folded as constants

---
 pico_constfold.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index fa8d42d..dc73c67 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -456,9 +456,15 @@ def const_from_token(token):
     else:
         return None
 
+def is_changed_later(token):
+    """whether the token's value is yet to be changed, by renaming, by a sub-language or by a placeholder"""
+    return getattr(token, "var_kind", None) or hasattr(token, "sublang") or hasattr(token, "placeholder_name")
+
 def get_const(node):
     if node.type == NodeType.const:
         token = node.token
+        if is_changed_later(token):
+            return None
         constval = const_from_token(token)
         assert constval, "unexpected const token: %s" % token
         return constval
-- 
2.43.0


From 60007329fe101a398b6bbcaabca7af9ee0daf374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:10 +0000
Subject: [PATCH 47/51] fix: an expression put in place of a placeholder could
 be split by the operators around it

---
 pico_process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index 495bcf7..54628a7 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -318,6 +318,9 @@ def process_placeholder(ctxt, token, errors):
             if not ph_errors:
                 ph_root, ph_errors = parse(ph_source, ph_tokens, ctxt, for_expr=token.placeholder_expr)
                 if not ph_errors:
+                    operators = (NodeType.binary_op, NodeType.unary_op)
+                    if ph_root.type in operators and token.parent.parent.type in operators:
+                        ph_root = create_group_node(ph_root)
                     token.parent.replace_with(ph_root)
                     return
             errors += ph_errors
@@ -417,11 +420,11 @@ def echo_code(code, ctxt, echo=True):
         file_write_maybe_text(echo, code)    
 
 from pico_tokenize import tokenize, count_tokens, has_count_stop
-from pico_parse import parse, create_super_root, get_sub_root
+from pico_parse import parse, create_super_root, get_sub_root, NodeType
 from pico_lint import lint_code
 from pico_minify import minify_code, Focus
 from pico_unminify import unminify_code
-from pico_constfold import fold_consts
+from pico_constfold import fold_consts, create_group_node
 from pico_output import output_code, output_needs_comments
 from pico_rename import rename_tokens
 
-- 
2.43.0


From 0ed2352c09e05f01911a1d9efae41969a92f342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:40 +0000
Subject: [PATCH 48/51] fix: statements put in place of a placeholder could be
 joined with the ones around them

---
 pico_process.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_process.py b/pico_process.py
index 54628a7..e8b578e 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -322,6 +322,8 @@ def process_placeholder(ctxt, token, errors):
                     if ph_root.type in operators and token.parent.parent.type in operators:
                         ph_root = create_group_node(ph_root)
                     token.parent.replace_with(ph_root)
+                    if not token.placeholder_expr:
+                        fixup_syntax_after_remove(token.parent)
                     return
             errors += ph_errors
     
@@ -424,7 +426,7 @@ from pico_parse import parse, create_super_root, get_sub_root, NodeType
 from pico_lint import lint_code
 from pico_minify import minify_code, Focus
 from pico_unminify import unminify_code
-from pico_constfold import fold_consts, create_group_node
+from pico_constfold import fold_consts, create_group_node, fixup_syntax_after_remove
 from pico_output import output_code, output_needs_comments
 from pico_rename import rename_tokens
 
-- 
2.43.0


From 06d0ac5f68429edf1f8ff0fe9af29491fc705f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:40 +0000
Subject: [PATCH 49/51] fix: strings ending with ] broke out of a non-leveled
 long bracket

For versions without leveled long brackets, ']]' is checked for, but a
trailing ']' together with the closing ']]' also closes the string early.
---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index dcdb859..20cda5e 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -223,7 +223,7 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
     """format a pico8 string to a pico8 string literal"""
 
     if long != False:
-        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value):
+        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value + "]"):
             newline = "\n" if value.startswith("\n") else ""
 
             eqs = get_long_brackets_equals(value)
-- 
2.43.0


From 269edefa8eaab0beff70f741887ddd868a8be8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:52 +0000
Subject: [PATCH 50/51] fix: Picotron's --label was ignored when the label is a
 qoi

The label section was fixed to label.png, so a qoi label cart was silently
ignored, and a cart with a label.qoi kept it alongside the new label.png.
---
 pico_cart.py     |  3 +++
 picotron_cart.py |  5 +++++
 run_shrinko.py   | 13 +++++++------
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index 192954b..0c88b68 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -772,6 +772,9 @@ def merge_cart(dest, src, sections):
         else:
             throw(f"unknown cart section: '{section}'")
 
+def merge_cart_label(dest, src):
+    merge_cart(dest, src, ("label",))
+
 def write_cart_version(cart):
     if cart.default_version:
         print("no version info")
diff --git a/picotron_cart.py b/picotron_cart.py
index 2d87485..769d1a3 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -756,6 +756,11 @@ def merge_cart64(dest, src, sections=None):
                 dest.files[parent] = PicotronDir()
                 parent = str_before_last(parent[:-1], "/") + "/"
 
+def merge_cart64_label(dest, src):
+    for label_file in k_label_files: # the label may be in another image format
+        dest.files.pop(label_file, None)
+    merge_cart64(dest, src)
+
 def write_cart64_compressed_size(cart, handler=True, **opts):
     write_cart64_to_rom(cart, size_handler=handler, **opts)
 
diff --git a/run_shrinko.py b/run_shrinko.py
index 618680e..282e54c 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -1,14 +1,14 @@
 from utils import *
 from pico_process import PicoContext, process_code, CartSource, ErrorFormat
 from pico_compress import write_code_size, write_compressed_size, CompressionTracer
-from pico_cart import CartFormat, read_cart, write_cart, get_bbs_cart_url, merge_cart, write_cart_version
+from pico_cart import CartFormat, read_cart, write_cart, get_bbs_cart_url, merge_cart, merge_cart_label, write_cart_version
 from pico_export import read_cart_export, read_pod_file, ListOp
 from pico_tokenize import k_hint_split_re
 from pico_constfold import parse_constant
 from pico_defs import Language, get_latest_pico8_version, parse_pico8_version
 from pico_preprocess import IncludeNotFoundError
 from picotron_defs import PicotronContext, Cart64Source, get_latest_picotron_runtime
-from picotron_cart import Cart64Format, read_cart64, write_cart64, merge_cart64, filter_cart64, preproc_cart64
+from picotron_cart import Cart64Format, read_cart64, write_cart64, merge_cart64, merge_cart64_label, filter_cart64, preproc_cart64
 from picotron_cart import write_cart64_compressed_size, write_cart64_version
 from picotron_export import read_cart64_export, read_sysrom_file
 import argparse
@@ -93,7 +93,7 @@ def create_main(lang):
 
         shrinko_name = "shrinko8"
         pico_name = "pico8"
-        label_section = "label"
+        merge_label_func = merge_cart_label
 
     elif is_picotron:
         CartFormatCls = Cart64Format
@@ -115,7 +115,7 @@ def create_main(lang):
         
         shrinko_name = "shrinkotron"
         pico_name = "picotron"
-        label_section = "label.png"
+        merge_label_func = merge_cart64_label
         default_keep_meta_keys = ("runtime",)
     
     else:
@@ -565,8 +565,6 @@ def create_main(lang):
                 else:
                     throw("too many or few arguments to --merge (must be 2 or 3)")
         
-        if args.label:
-            extra_inputs.append(InputDef(args.label, CartFormatCls.label, sections=(label_section,)))
         if args.title:
             main_cart.set_raw_title(args.title)
 
@@ -583,6 +581,9 @@ def create_main(lang):
             else:
                 extra_carts.append(cart)
         
+        if args.label:
+            merge_label_func(main_cart, read_cart_func(args.label, CartFormatCls.label))
+        
         if is_picotron and args.list:
             for path in main_cart.files:
                 print(path)
-- 
2.43.0


From 3f390e83fa48f5bb3116af3d88a22e68a15ae409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:52 +0000
Subject: [PATCH 51/51] fix: --script-args passed options the script's
 arguments resembled to argparse

argparse classified (and abbreviation-matched) the arguments meant for the
script, so e.g. '--script-args a --b' or '-o' could fail as ambiguous.
---
 run_shrinko.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/run_shrinko.py b/run_shrinko.py
index 282e54c..e6d16fd 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -752,7 +752,15 @@ def create_main(lang):
                 parser.print_help(sys.stderr)
                 return ErrCodes.err
 
+            # the script's arguments aren't ours to parse (argparse would abbreviation-match them)
+            script_args = ()
+            if "--script-args" in raw_args:
+                script_args_i = raw_args.index("--script-args")
+                raw_args, script_args = raw_args[:script_args_i], raw_args[script_args_i + 1:]
+
             args = parser.parse_intermixed_args(raw_args)
+            if script_args:
+                args.script_args = script_args
             return main_inner(args)
         except CheckError as err:
             sys.stdout.flush()
-- 
2.43.0

