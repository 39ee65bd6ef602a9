From 3dec24161dca9aa577a297810ea1e3bbceef3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 01/73] fix: keep prepended list items in front when the source
 repeats one

Prepending a list with a repeated single-instance item removed the copy
that the same merge had just inserted without moving the insertion point
back, so the repeat landed behind items of the destination.
---
 gyp/pylib/gyp/input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..bc4fa17 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2268,7 +2268,10 @@ def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
         else:
             # If prepending a singleton that's already in the list, remove the
             # existing instance and proceed with the prepend.  This ensures that the
-            # item appears at the earliest possible position in the list.
+            # item appears at the earliest possible position in the list.  One that
+            # this merge has already prepended stays where it is.
+            if singleton and to_item in to[:prepend_index]:
+                continue
             while singleton and to_item in to:
                 to.remove(to_item)
 
-- 
2.43.0


From c63682d5b98adc0a9f4b10dad8b908df22c5b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 02/73] fix: relativize pathnames that look like integers

A pathname such as '7' is an int after the first expansion phase, so
moving it into another build file's directory raised a TypeError.
---
 gyp/pylib/gyp/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index bc4fa17..215e12e 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2191,6 +2191,10 @@ def MakePathRelative(to_file, fro_file, item):
     #   "/' Used when a value is quoted.  If these are present, then we
     #       check the second character instead.
     #
+    # A path such as "7" has been turned into an int by an earlier phase; it is
+    # a path all the same.
+    if to_file != fro_file:
+        item = str(item)
     if to_file == fro_file or exception_re.match(item):
         return item
     else:
-- 
2.43.0


From 836a082de541264a2b4552f7f79603f826630f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 03/73] fix: do not take non-ASCII digits for integers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.isdigit() accepts characters such as superscripts that int() does
not, so a value such as '1²' raised a ValueError.
---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 215e12e..cdee808 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -706,7 +706,7 @@ def IsStrCanonicalInt(string):
                 if not string:
                     return False
             if "1" <= string[0] <= "9":
-                return string.isdigit()
+                return string.isdigit() and string.isascii()
 
     return False
 
-- 
2.43.0


From 54e54298da3581a8e600c4ae3cf9650ea8faccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 04/73] fix: expanding a list variable must not change its
 definition

The references inside a list variable were expanded in place, in the
scope of whoever read it first, so an inner scope's variables leaked into
the list as seen by its own and other scopes.
---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index cdee808..496d54c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1026,7 +1026,9 @@ def ExpandVariables(input, phase, variables, build_file):
                     )
             # Run through the list and handle variable expansions in it.  Since
             # the list is guaranteed not to contain dicts, this won't do anything
-            # with conditions sections.
+            # with conditions sections.  Work on a copy: the list still has to be
+            # expanded in the scope that defines it.
+            replacement = gyp.simple_copy.deepcopy(replacement)
             ProcessVariablesAndConditionsInList(
                 replacement, phase, variables, build_file
             )
-- 
2.43.0


From ee87a44937ff2851693f175aa44770e47e943f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:49 +0000
Subject: [PATCH 05/73] fix: accept a condition that expands to an integer

['<(flag)', {...}] raised a TypeError from compile(), although the check
above explicitly admits an integer.
---
 gyp/pylib/gyp/input.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 496d54c..b760cac 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1175,6 +1175,9 @@ def EvalSingleCondition(cond_expr, true_dict, false_dict, phase, variables, buil
             + cond_expr_expanded.__class__.__name__
         )
 
+    # An expression that expands to a bare integer is as good as any other.
+    cond_expr_expanded = str(cond_expr_expanded)
+
     try:
         if cond_expr_expanded in cached_conditions_asts:
             ast_code = cached_conditions_asts[cond_expr_expanded]
-- 
2.43.0


From f8d2689077005ff019f3a63e2813783d674c7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 06/73] fix: filter lists whose items or patterns look like
 integers

The loader turns items such as '1' into integers, which the regular
expression filters then refused with a TypeError.
---
 gyp/pylib/gyp/input.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index b760cac..15367dc 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2614,7 +2614,8 @@ def ProcessListFiltersInDict(name, the_dict):
         if regex_key in the_dict:
             for regex_item in the_dict[regex_key]:
                 [action, pattern] = regex_item
-                pattern_re = re.compile(pattern)
+                # Items and patterns that look like integers have become integers.
+                pattern_re = re.compile(str(pattern))
 
                 if action == "exclude":
                     # This item matches an exclude regex, set its value to 0 (exclude).
@@ -2638,7 +2639,7 @@ def ProcessListFiltersInDict(name, the_dict):
                         # Even if the regex matches, nothing will change so continue
                         # (regex searches are expensive).
                         continue
-                    if pattern_re.search(list_item):
+                    if pattern_re.search(str(list_item)):
                         # Regular expression match.
                         list_actions[index] = action_value
 
-- 
2.43.0


From 9fafdd657d0ea416a05542e305d3dd401887735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 07/73] fix: late expansions of DEPTH lead from the file that
 uses them

They used the value of whichever file was loaded last, or found none at
all when files were loaded in parallel.
---
 gyp/pylib/gyp/input.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 15367dc..9db5d8c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -356,6 +356,20 @@ def ProcessToolsetsInDict(data):
                         ProcessToolsetsInDict(condition_dict)
 
 
+def SetDepthVariable(variables, depth, build_file_path):
+    """If depth is set, predefines the DEPTH variable to be a relative path from
+  the build file's directory to the directory identified by depth."""
+    if depth:
+        # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
+        # temporary measure. This should really be addressed by keeping all paths
+        # in POSIX until actual project generation.
+        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))
+        if d == "":
+            variables["DEPTH"] = "."
+        else:
+            variables["DEPTH"] = d.replace("\\", "/")
+
+
 # TODO(mark): I don't love this name.  It just means that it's going to load
 # a build file that contains targets and is expected to provide a targets dict
 # that contains the targets...
@@ -369,17 +383,7 @@ def LoadTargetBuildFile(
     check,
     load_dependencies,
 ):
-    # If depth is set, predefine the DEPTH variable to be a relative path from
-    # this build file's directory to the directory identified by depth.
-    if depth:
-        # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
-        # temporary measure. This should really be addressed by keeping all paths
-        # in POSIX until actual project generation.
-        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))
-        if d == "":
-            variables["DEPTH"] = "."
-        else:
-            variables["DEPTH"] = d.replace("\\", "/")
+    SetDepthVariable(variables, depth, build_file_path)
 
     # The 'target_build_files' key is only set when loading target build files in
     # the non-parallel code path, where LoadTargetBuildFile is called
@@ -3083,6 +3087,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(variables, depth, build_file)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATE, variables, build_file
         )
@@ -3101,6 +3106,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(variables, depth, build_file)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATELATE, variables, build_file
         )
-- 
2.43.0


From 4298bd0e32669316975a7fed09e8fdf7a383fa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 08/73] fix: parallel loading hung when a loaded Python module
 called sys.exit()

The worker process ended without answering and the main process waited
for its result for ever.
---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 9db5d8c..b8314ff 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -550,7 +550,7 @@ def CallLoadTargetBuildFile(
     except GypError as e:
         sys.stderr.write("gyp: %s\n" % e)
         return None
-    except Exception as e:
+    except (Exception, SystemExit) as e:
         print("Exception:", e, file=sys.stderr)
         print(traceback.format_exc(), file=sys.stderr)
         return None
-- 
2.43.0


From ad819908f24d511639375e72100d7e64746c9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 09/73] fix: make: keep a backslash that precedes '#' in a
 define

---
 gyp/pylib/gyp/generator/make.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..35d7282 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -717,13 +717,18 @@ def EscapeMakeVariableExpansion(s):
     return s.replace("$", "$$")
 
 
+def EscapeMakeComment(s):
+    """'#' characters must be escaped even embedded in a string, else Make will
+    treat it as the start of a comment. Backslashes right before a '#' are
+    unescaped along with it, so they must be doubled."""
+    return re.sub(r"(\\*)#", r"\1\1\\#", s)
+
+
 def EscapeCppDefine(s):
     """Escapes a CPP define so that it will reach the compiler unaltered."""
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
-    # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment.
-    return s.replace("#", r"\#")
+    return EscapeMakeComment(s)
 
 
 def QuoteIfNecessary(string):
-- 
2.43.0


From 236beee0bb526badec7fbf413c0df4484213397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 10/73] fix: make: escape '#' in action and rule commands

---
 gyp/pylib/gyp/generator/make.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 35d7282..592e6b6 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1057,7 +1057,9 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     gyp.xcode_emulation.ExpandEnvVars(command, env)
                     for command in action_commands
                 ]
-            command = gyp.common.EncodePOSIXShellList(action_commands)
+            command = EscapeMakeComment(
+                gyp.common.EncodePOSIXShellList(action_commands)
+            )
             if "message" in action:
                 self.WriteLn(
                     "quiet_cmd_{} = ACTION {} $@".format(name, action["message"])
@@ -1241,7 +1243,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         gyp.xcode_emulation.ExpandEnvVars(command, env)
                         for command in action
                     ]
-                action = gyp.common.EncodePOSIXShellList(action)
+                action = EscapeMakeComment(gyp.common.EncodePOSIXShellList(action))
                 action = action.replace("$(TARGET)", self.target)
                 cd_action = cd_action.replace("$(TARGET)", self.target)
                 mkdirs = mkdirs.replace("$(TARGET)", self.target)
-- 
2.43.0


From 5f7f9d051bbb0b4c6f1a1326c85d2632f650194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 11/73] fix: ninja: quote backslashes for POSIX shells

---
 gyp/pylib/gyp/generator/ninja.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..eba0e22 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -76,9 +76,11 @@ def QuoteShellArgument(arg, flavor):
     by the shell."""
     # Rather than attempting to enumerate the bad shell characters, just
     # allow common OK ones and quote anything else.
-    if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+    if re.match(r"^[a-zA-Z0-9_=./-]+$", arg):
         return arg  # No quoting necessary.
     if flavor == "win":
+        if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+            return arg  # A backslash is an ordinary character here.
         return gyp.msvs_emulation.QuoteForRspFile(arg)
     return "'" + arg.replace("'", "'" + '"\'"' + "'") + "'"
 
-- 
2.43.0


From e01f3475c62e6654a0bd73d72839260864c449f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 12/73] fix: ninja: keep consecutive spaces where a long line
 is wrapped

---
 gyp/pylib/gyp/ninja_syntax.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/ninja_syntax.py b/gyp/pylib/gyp/ninja_syntax.py
index 0e3e86c..104ccc9 100644
--- a/gyp/pylib/gyp/ninja_syntax.py
+++ b/gyp/pylib/gyp/ninja_syntax.py
@@ -121,6 +121,14 @@ class Writer:
             dollar_index -= 1
         return dollar_count
 
+    def _can_wrap_at(self, s, i):
+        """Returns whether the space s[i] may be replaced by a line break: it must
+        not be escaped, and as leading spaces of a continuation line are ignored,
+        another space must not follow it."""
+        return (
+            self._count_dollars_before_index(s, i) % 2 == 0 and s[i + 1 : i + 2] != " "
+        )
+
     def _line(self, text, indent=0):
         """Write 'text' word-wrapped at self.width characters."""
         leading_space = "  " * indent
@@ -133,7 +141,7 @@ class Writer:
             space = available_space
             while True:
                 space = text.rfind(" ", 0, space)
-                if space < 0 or self._count_dollars_before_index(text, space) % 2 == 0:
+                if space < 0 or self._can_wrap_at(text, space):
                     break
 
             if space < 0:
@@ -141,10 +149,7 @@ class Writer:
                 space = available_space - 1
                 while True:
                     space = text.find(" ", space + 1)
-                    if (
-                        space < 0
-                        or self._count_dollars_before_index(text, space) % 2 == 0
-                    ):
+                    if space < 0 or self._can_wrap_at(text, space):
                         break
             if space < 0:
                 # Give up on breaking.
-- 
2.43.0


From 4fde85bf8da385a9fb08059046ce1ad021cff592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 13/73] fix: make: keep '#' of a command in its depfile

---
 gyp/pylib/gyp/generator/make.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 592e6b6..c4a9aaf 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -493,10 +493,11 @@ cmd_symlink = ln -sf "$<" "$@"
 # use single quotes and escape_quotes.
 escape_quotes = $(subst ','\'',$(1))
 # This comment is here just to include a ' to unconfuse syntax highlighting.
-# Define an escape_vars function to escape '$' variable syntax.
+# Define an escape_vars function to escape '$' variable syntax and '#' comments.
 # This allows us to read/write command lines with shell variables (e.g.
 # $LD_LIBRARY_PATH), without triggering make substitution.
-escape_vars = $(subst $$,$$$$,$(1))
+hash := \#
+escape_vars = $(subst $(hash),$$(hash),$(subst $$,$$$$,$(1)))
 # Helper that expands to a shell command to echo a string exactly as it is in
 # make. This uses printf instead of echo because printf's behaviour with respect
 # to escape sequences is more portable than echo's across different shells
-- 
2.43.0


From 9c63c3573390636bf9b35b87bf754750e83cf9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 14/73] fix: make generator deletes the half-written output of
 a failed command

---
 gyp/pylib/gyp/generator/make.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index c4a9aaf..f6aca51 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -586,6 +586,10 @@ endef
 .PHONY: FORCE_DO_CMD
 FORCE_DO_CMD:
 
+# When a command fails, delete the output it may have left half-written, which
+# would look up to date to the next build.
+.DELETE_ON_ERROR:
+
 """  # noqa: E501
 )
 
-- 
2.43.0


From 7ee21430c0be41b6e0a43357eebdf9249b890ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 15/73] fix: make generator reruns a rule whose command line
 changed

---
 gyp/pylib/gyp/generator/make.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index f6aca51..7c14168 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1216,8 +1216,15 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # accidentally writing duplicate dummy rules for those outputs.
                 self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
                 self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
+                # Rerun the rule when its command line changes. The intermediate file
+                # of a rule with several outputs can't be forced: it never exists, so
+                # the rule would be rerun by every build.
                 self.WriteMakeRule(
-                    outputs, inputs, actions, command="%s_%d" % (name, count)
+                    outputs,
+                    inputs,
+                    actions,
+                    command="%s_%d" % (name, count),
+                    force=len(outputs) == 1,
                 )
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
-- 
2.43.0


From 47ed222435a403649bc5be0f84900bb5481fa61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 16/73] fix: make generator re-creates a deleted output that
 has no inputs

---
 gyp/pylib/gyp/generator/make.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 7c14168..f2df7ce 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -528,6 +528,10 @@ command_changed = $(or $(subst $(cmd_$(1)),,$(cmd_$(call replace_spaces,$@))),\\
 #   $| -- order-only dependencies
 prereq_changed = $(filter-out FORCE_DO_CMD,$(filter-out $|,$?))
 
+# Helper that is non-empty when the output does not exist: without any
+# prerequisites, that is not seen by prereq_changed.
+output_missing = $(if $(wildcard $(call replace_spaces,$@)),,$@)
+
 # Helper that executes all postbuilds until one fails.
 define do_postbuilds
   @E=0;\\
@@ -555,7 +559,7 @@ endef
     + SPACE_REPLACEMENT
     + """ characters.
 define do_cmd
-$(if $(or $(command_changed),$(prereq_changed)),
+$(if $(or $(command_changed),$(prereq_changed),$(output_missing)),
   @$(call exact_echo,  $($(quiet)cmd_$(1)))
   @mkdir -p "$(call dirx,$@)" "$(dir $(depfile))"
   $(if $(findstring flock,$(word %(flock_index)d,$(cmd_$1))),
-- 
2.43.0


From 03a021b3089a018675150ede3ab63a106502d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 17/73] fix: ninja rules after one with collapsed inputs kept
 no dependency on the target's dependencies

---
 gyp/pylib/gyp/generator/ninja.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index eba0e22..91eb10b 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -747,6 +747,7 @@ class NinjaWriter:
             # write m * n inputs. Collapsing reduces this to m + n.
             sources = rule.get("rule_sources", [])
             num_inputs = len(inputs)
+            order_only = prebuild
             if prebuild:
                 num_inputs += 1
             if num_inputs > 2 and len(sources) > 2:
@@ -755,7 +756,7 @@ class NinjaWriter:
                         rule["rule_name"], inputs, order_only=prebuild
                     )
                 ]
-                prebuild = []
+                order_only = []
 
             # For each source file, write an edge that generates all the outputs.
             for source in sources:
@@ -823,7 +824,7 @@ class NinjaWriter:
                     rule_name,
                     self.GypPathToNinja(source),
                     implicit=inputs,
-                    order_only=prebuild,
+                    order_only=order_only,
                     variables=extra_bindings,
                 )
 
-- 
2.43.0


From eeeced3628f56bfb601ccdccc7e6cc5a65b3dc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 18/73] fix: make rules may hold a '%' beside the input's name

---
 gyp/pylib/gyp/generator/make.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index f2df7ce..49ebcb9 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2360,11 +2360,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
     def ExpandInputRoot(self, template, expansion, dirname):
         if "%(INPUT_ROOT)s" not in template and "%(INPUT_DIRNAME)s" not in template:
             return template
-        path = template % {
-            "INPUT_ROOT": expansion,
-            "INPUT_DIRNAME": dirname,
-        }
-        return path
+        path = template.replace("%(INPUT_ROOT)s", expansion)
+        return path.replace("%(INPUT_DIRNAME)s", dirname)
 
     def _InstallableTargetInstallPath(self):
         """Returns the location of the final output for an installable target."""
-- 
2.43.0


From d9a4941e4f63ddaff53bc2fe341f052c29f3f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 19/73] fix: make commands of look-alike actions, rules and
 targets no longer overwrite each other

---
 gyp/pylib/gyp/generator/make.py | 40 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 49ebcb9..28899fa 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -757,6 +757,24 @@ def StringToMakefileVariable(string):
     return re.sub("[^a-zA-Z0-9_]", "_", string)
 
 
+# The variable names handed out by UniqueMakefileVariable.
+used_makefile_variables = set()
+
+
+def UniqueMakefileVariable(string):
+    """Like StringToMakefileVariable, but never returns the same name twice.
+
+    The commands of all targets are global variables, and different strings can
+    become the same name (e.g. 'a-b' and 'a_b')."""
+    base = name = StringToMakefileVariable(string)
+    count = 1
+    while name in used_makefile_variables:
+        count += 1
+        name = f"{base}_{count}"
+    used_makefile_variables.add(name)
+    return name
+
+
 srcdir_prefix = ""
 
 
@@ -1040,7 +1058,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         env = self.GetSortedXcodeEnv()
         for action in actions:
-            name = StringToMakefileVariable(
+            name = UniqueMakefileVariable(
                 "{}_{}".format(self.qualified_target, action["action_name"])
             )
             self.WriteLn('### Rules for action "%s":' % action["action_name"])
@@ -1166,7 +1184,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         env = self.GetSortedXcodeEnv()
         for rule in rules:
-            name = StringToMakefileVariable(
+            name = UniqueMakefileVariable(
                 "{}_{}".format(self.qualified_target, rule["rule_name"])
             )
             count = 0
@@ -1198,7 +1216,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     Sourceify(self.Absolutify(i))
                     for i in [rule_source] + rule.get("inputs", [])
                 ]
-                actions = ["$(call do_cmd,%s_%d)" % (name, count)]
+                command = UniqueMakefileVariable("%s_%d" % (name, count))
+                actions = ["$(call do_cmd,%s)" % command]
 
                 if name == "resources_grit":
                     # HACK: This is ugly.  Grit intentionally doesn't touch the
@@ -1227,7 +1246,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     outputs,
                     inputs,
                     actions,
-                    command="%s_%d" % (name, count),
+                    command=command,
                     force=len(outputs) == 1,
                 )
                 # Spaces in rule filenames are not supported, but rule variables have
@@ -1271,22 +1290,18 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # target libraries.
                 # TODO(piman): when everything is cross-compile safe, remove lib.target
                 self.WriteLn(
-                    "cmd_%(name)s_%(count)d = LD_LIBRARY_PATH="
+                    "cmd_%(command)s = LD_LIBRARY_PATH="
                     "$(builddir)/lib.host:$(builddir)/lib.target:$$LD_LIBRARY_PATH; "
                     "export LD_LIBRARY_PATH; "
                     "%(cd_action)s%(mkdirs)s%(action)s"
                     % {
                         "action": action,
                         "cd_action": cd_action,
-                        "count": count,
+                        "command": command,
                         "mkdirs": mkdirs,
-                        "name": name,
                     }
                 )
-                self.WriteLn(
-                    "quiet_cmd_%(name)s_%(count)d = RULE %(name)s_%(count)d $@"
-                    % {"count": count, "name": name}
-                )
+                self.WriteLn(f"quiet_cmd_{command} = RULE {command} $@")
                 self.WriteLn()
                 count += 1
 
@@ -1308,7 +1323,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         self.WriteLn("### Generated for copy rule.")
 
-        variable = StringToMakefileVariable(self.qualified_target + "_copies")
+        variable = UniqueMakefileVariable(self.qualified_target + "_copies")
         outputs = []
         for copy in copies:
             for path in copy["files"]:
@@ -2424,6 +2439,7 @@ def PerformBuild(data, configurations, params):
 
 
 def GenerateOutput(target_list, target_dicts, data, params):
+    used_makefile_variables.clear()
     options = params["options"]
     flavor = gyp.common.GetFlavor(params)
     generator_flags = params.get("generator_flags", {})
-- 
2.43.0


From 2a3b1ad55d1a6199e5f937a19ddeaf56ffa1f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 20/73] fix: ninja rules of look-alike actions and rules get
 different names

---
 gyp/pylib/gyp/generator/ninja.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index 91eb10b..b2bd6ea 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -234,6 +234,7 @@ class NinjaWriter:
         """
 
         self.hash_for_rules = hash_for_rules
+        self.rule_names = set()
         self.target_outputs = target_outputs
         self.base_dir = base_dir
         self.build_dir = build_dir
@@ -1930,6 +1931,13 @@ class NinjaWriter:
             rule_name += "." + self.toolset
         rule_name += "." + name
         rule_name = re.sub("[^a-zA-Z0-9_]", "_", rule_name)
+        # Different names (e.g. 'a-b' and 'a_b') can become the same rule name.
+        base_rule_name = rule_name
+        count = 1
+        while rule_name in self.rule_names:
+            count += 1
+            rule_name = "%s_%d" % (base_rule_name, count)
+        self.rule_names.add(rule_name)
 
         # Remove variable references, but not if they refer to the magic rule
         # variables.  This is not quite right, as it also protects these for
-- 
2.43.0


From aad860db2b6abd4983298f3ae3b8e978ed85e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 21/73] fix: build files no longer depend on the hash seed

---
 gyp/pylib/gyp/common.py          |  2 +-
 gyp/pylib/gyp/generator/cmake.py |  4 ++--
 gyp/pylib/gyp/generator/make.py  | 12 ++++++------
 gyp/pylib/gyp/generator/ninja.py |  2 +-
 gyp/pylib/gyp/input.py           |  4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 762ae02..00f802e 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -310,7 +310,7 @@ def DeepDependencyTargets(target_dicts, roots):
         spec = target_dicts[r]
         pending.update(set(spec.get("dependencies", [])))
         pending.update(set(spec.get("dependencies_original", [])))
-    return list(dependencies - set(roots))
+    return sorted(dependencies - set(roots))
 
 
 def BuildFileTargets(target_list, build_file):
diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index 8720a3d..d9adfb2 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -287,7 +287,7 @@ def WriteActions(target_name, actions, extra_sources, extra_deps, path_to_gyp, o
         output.write("\n")
 
         if len(dirs) > 0:
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
@@ -394,7 +394,7 @@ def WriteRules(target_name, rules, extra_sources, extra_deps, path_to_gyp, outpu
                 output.write(out)
                 output.write("\n")
 
-            for directory in dirs:
+            for directory in sorted(dirs):
                 output.write("  COMMAND ${CMAKE_COMMAND} -E make_directory ")
                 output.write(directory)
                 output.write("\n")
diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 28899fa..7df147f 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -970,7 +970,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             sources = [x for x in all_sources if Compilable(x)]
             if sources:
                 self.WriteLn(SHARED_HEADER_SUFFIX_RULES_COMMENT1)
-                extensions = {os.path.splitext(s)[1] for s in sources}
+                extensions = sorted({os.path.splitext(s)[1] for s in sources})
                 for ext in extensions:
                     if ext in self.suffix_rules_srcdir:
                         self.WriteLn(self.suffix_rules_srcdir[ext])
@@ -1094,7 +1094,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
             else:
                 self.WriteLn(f"quiet_cmd_{name} = ACTION {name} $@")
             if len(dirs) > 0:
-                command = "mkdir -p %s" % " ".join(dirs) + "; " + command
+                command = "mkdir -p %s" % " ".join(sorted(dirs)) + "; " + command
 
             cd_action = "cd %s; " % Sourceify(self.path or ".")
 
@@ -1267,7 +1267,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 ]
                 mkdirs = ""
                 if len(dirs) > 0:
-                    mkdirs = "mkdir -p %s; " % " ".join(dirs)
+                    mkdirs = "mkdir -p %s; " % " ".join(sorted(dirs))
                 cd_action = "cd %s; " % Sourceify(self.path or ".")
 
                 # action, cd_action, and mkdirs get written to a toplevel variable
@@ -2418,7 +2418,7 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-                " ".join(SourceifyAndQuoteSpaces(bf) for bf in build_files)
+                " ".join(SourceifyAndQuoteSpaces(bf) for bf in sorted(build_files))
             ),
             "cmd": replace_sep(gyp.common.EncodePOSIXShellList(
                 [gyp_binary, "-fmake"] + gyp.RegenerateFlags(options) + build_files_args
@@ -2659,7 +2659,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             "LOCAL_PATH := $(call my-dir)\n"
             "\n"
         )
-    for toolset in toolsets:
+    for toolset in sorted(toolsets):
         root_makefile.write("TOOLSET := %s\n" % toolset)
         WriteRootHeaderSuffixRules(root_makefile)
 
@@ -2733,7 +2733,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
 
     # Write out per-gyp (sub-project) Makefiles.
     depth_rel_path = gyp.common.RelativePath(options.depth, os.getcwd())
-    for build_file in build_files:
+    for build_file in sorted(build_files):
         # The paths in build_files were relativized above, so undo that before
         # testing against the non-relativized items in target_list and before
         # calculating the Makefile path.
diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index b2bd6ea..327dd2e 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -1569,7 +1569,7 @@ class NinjaWriter:
             command + command_suffix,
             link_deps,
             implicit=sorted(implicit_deps),
-            order_only=list(order_deps),
+            order_only=sorted(order_deps),
             variables=extra_bindings,
         )
         return linked_binary
diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index b8314ff..6691b88 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1462,7 +1462,7 @@ def BuildTargetsDict(data):
   """
 
     targets = {}
-    for build_file in data["target_build_files"]:
+    for build_file in sorted(data["target_build_files"]):
         for target in data[build_file].get("targets", []):
             target_name = gyp.common.QualifiedTarget(
                 build_file, target["target_name"], target["toolset"]
@@ -2990,7 +2990,7 @@ def Load(
     data = {"target_build_files": set()}
     # Normalize paths everywhere.  This is important because paths will be
     # used as keys to the data dict and for references between input files.
-    build_files = set(map(os.path.normpath, build_files))
+    build_files = sorted(set(map(os.path.normpath, build_files)))
     if parallel:
         LoadTargetBuildFilesParallel(
             build_files, data, variables, includes, depth, check, generator_input_info
-- 
2.43.0


From a5531d909d0c40e6ebad01da544a0fd9ae258f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 22/73] fix: XML files are written whatever the default
 encoding, and only if changed

---
 gyp/pylib/gyp/easy_xml.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..b5f8119 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,25 +120,19 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    xml_bytes = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
 
     # It has changed, write it
-    if existing != xml_string:
+    if existing != xml_bytes:
         with open(path, "wb") as file:
-            file.write(xml_string)
+            file.write(xml_bytes)
 
 
 _xml_escape_map = {
-- 
2.43.0


From 1a85ed8f817fdd4fed58009c5fb40885bcb69248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 23/73] fix: XML characters outside the file's encoding become
 character references

---
 gyp/pylib/gyp/easy_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index b5f8119..f42017e 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -120,7 +120,7 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    xml_bytes = xml_string.encode(encoding)
+    xml_bytes = xml_string.encode(encoding, "xmlcharrefreplace")
 
     # Get the old content
     try:
-- 
2.43.0


From 7fdba2ba789f064b4d03813d0a64ab220bb1d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 24/73] fix: tabs in XML attributes survive parsing

---
 gyp/pylib/gyp/easy_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index f42017e..9ce23ae 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -143,6 +143,7 @@ _xml_escape_map = {
     "&": "&amp;",
     "\n": "&#xA;",
     "\r": "&#xD;",
+    "\t": "&#x9;",
 }
 
 
-- 
2.43.0


From 3a3906a167d6a2c6ebee4a17e3250631df02daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 25/73] fix: Visual Studio solutions list their configurations
 in a fixed order

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..329b7d1 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2116,7 +2116,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
             configs.add(config_name)
             if config_name == "Release|arm64":
                 configs.add("Release|x64")
-    configs = list(configs)
+    configs = sorted(configs)
 
     # Figure out all the projects that will be generated and their guids
     project_objects = _CreateProjectObjects(
-- 
2.43.0


From ad88b8c68a1ab64c7b3393050da49a06bd2b54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 26/73] fix: ninja: rules on Windows hash the encoded output
 name

---
 gyp/pylib/gyp/generator/ninja.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index 327dd2e..4e90d48 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -817,7 +817,7 @@ class NinjaWriter:
                 if self.flavor == "win":
                     # WriteNewNinjaRule uses unique_name to create a rsp file on win.
                     extra_bindings.append(
-                        ("unique_name", hashlib.md5(outputs[0]).hexdigest())
+                        ("unique_name", hashlib.md5(outputs[0].encode("utf-8")).hexdigest())
                     )
 
                 self.ninja.build(
-- 
2.43.0


From 5629d84cfc0b49984fb1337733a4c1cbe4a1e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 27/73] fix: Windows arguments may end in a backslash

---
 gyp/pylib/gyp/generator/msvs.py | 2 ++
 gyp/pylib/gyp/msvs_emulation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 329b7d1..c7a1f8a 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -785,6 +785,8 @@ def _EscapeCommandLineArgumentForMSVS(s):
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex.sub(_Replace, s)
+    # Backslashes at the end precede the closing quote.
+    s += "\\" * (len(s) - len(s.rstrip("\\")))
     # Now add unescaped quotes so that any whitespace is interpreted literally.
     s = '"' + s + '"'
     return s
diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index adda5a0..0e40b31 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -39,6 +39,8 @@ def QuoteForRspFile(arg, quote_cmd=True):
     # in 2* what we match, +1 more, plus the quote.
     if quote_cmd:
         arg = windows_quoter_regex.sub(lambda mo: 2 * mo.group(1) + '\\"', arg)
+        # Backslashes at the end precede the quote that is added below.
+        arg += "\\" * (len(arg) - len(arg.rstrip("\\")))
 
     # %'s also need to be doubled otherwise they're interpreted as batch
     # positional arguments. Also make sure to escape the % so that they're
-- 
2.43.0


From 3b0d102d6bd066fd6648ea877d70b57c076a7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 28/73] fix: Visual Studio defines may hold a backslash before
 a quote

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index c7a1f8a..c56ff17 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -862,7 +862,7 @@ def _EscapeCommandLineArgumentForMSBuild(s):
     """Escapes a Windows command-line argument for use by MSBuild."""
 
     def _Replace(match):
-        return (len(match.group(1)) / 2 * 4) * "\\" + '\\"'
+        return (len(match.group(1)) // 2 * 4) * "\\" + '\\"'
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex2.sub(_Replace, s)
-- 
2.43.0


From ff9546397b4210b7c0864dadf5b7338aa61681a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 29/73] fix: mark an installation only once it is complete and
 verified

The installVersion file was written while the archive's checksum was still
unknown and, on a reinstall, the old one stayed in place: a process killed at
the wrong moment left a partial or tampered tree that --ensure accepts.
---
 lib/install.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..b58dd88 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -171,6 +171,11 @@ async function install (gyp, argv) {
       throw err
     }
 
+    // "installVersion" says that everything is in place and verified: from here
+    // on, until that is so again, it must not be there
+    const installVersionPath = path.resolve(devDir, 'installVersion')
+    await fs.rm(installVersionPath, { force: true })
+
     // now download the node tarball
     const tarPath = gyp.opts.tarball
     let extractErrors = false
@@ -257,12 +262,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -280,6 +282,9 @@ async function install (gyp, argv) {
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
       }
+
+      // last of all, write the "installVersion" file
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
     } finally {
       if (tarExtractDir !== devDir) {
         try {
-- 
2.43.0


From 4cb14774da9cdb2ef881a8cc624b10d84d127ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 30/73] fix: headers copied from the temporary directory are
 never there in part

On Windows a process killed during the copy left half of a file (node.lib
among them), which a later install --ensure takes for present.
---
 lib/install.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index b58dd88..38e17ea 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -133,14 +133,19 @@ async function install (gyp, argv) {
       } else if (entry.isFile()) {
         // with parallel installs, copying files may cause file errors on
         // Windows so use an exponential backoff to resolve collisions
+        const target = path.join(dest, entry.name)
+        // copied under another name first, so that it is never there in part
+        const partial = `${target}.${process.pid}.tmp`
         await backOff(async () => {
           try {
-            await fs.copyFile(path.join(src, entry.name), path.join(dest, entry.name))
+            await fs.copyFile(path.join(src, entry.name), partial)
+            await fs.rename(partial, target)
           } catch (err) {
+            await fs.rm(partial, { force: true }).catch(() => {})
             // if ensure, check if file already exists and that's good enough
-            if (gyp.opts.ensure && err.code === 'EBUSY') {
+            if (gyp.opts.ensure && (err.code === 'EBUSY' || err.code === 'EPERM')) {
               try {
-                await fs.stat(path.join(dest, entry.name))
+                await fs.stat(target)
                 return
               } catch {}
             }
-- 
2.43.0


From b0e4b2063ba67233906022b2b4d210bbddc37053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 31/73] fix: an interrupted removal does not leave an
 installation behind

---
 lib/remove.js | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/remove.js b/lib/remove.js
index 7efdb01..56fa8ef 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -36,6 +36,16 @@ async function remove (gyp, argv) {
     throw err
   }
 
+  // "installVersion" goes first: what an interruption leaves behind must not be
+  // taken for an installation
+  try {
+    await fs.rm(path.join(versionPath, 'installVersion'), { force: true })
+  } catch (err) {
+    if (err.code !== 'ENOTDIR') {
+      throw err
+    }
+  }
+
   await fs.rm(versionPath, { recursive: true, force: true })
 }
 
-- 
2.43.0


From 34fe37c4cc316ca0addfdcfc7e35e7ea199049c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 32/73] fix: the fallback to the temporary directory installs
 the requested version

The internal flag was put before the version, which made the running version
be installed instead.
---
 lib/install.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index 38e17ea..e5497a6 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -399,7 +399,8 @@ async function install (gyp, argv) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
       gyp.todo.push({ name: 'remove', args: argv })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    // the version, if any, stays the first argument
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From 9727d0e8d1355c0463abba116aa5d7fdd623f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 33/73] fix: rebuild runs before the commands that follow it

---
 lib/rebuild.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/rebuild.js b/lib/rebuild.js
index 6098176..1fbf3b7 100644
--- a/lib/rebuild.js
+++ b/lib/rebuild.js
@@ -1,7 +1,8 @@
 'use strict'
 
 async function rebuild (gyp, argv) {
-  gyp.todo.push(
+  // in place of this command, so before those that follow it
+  gyp.todo.unshift(
     { name: 'clean', args: [] }
     , { name: 'configure', args: argv }
     , { name: 'build', args: [] }
-- 
2.43.0


From 5b78d6550c1976c6c35684014e2bd383372edbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 34/73] fix: print a command's message as it is

The characters of the message after the first were printed one by one.
---
 bin/node-gyp.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/node-gyp.js b/bin/node-gyp.js
index f8317b4..5bb1be1 100755
--- a/bin/node-gyp.js
+++ b/bin/node-gyp.js
@@ -87,7 +87,7 @@ async function run () {
         log.stdout('No node development files installed. Use `node-gyp install` to install a version.')
       }
     } else if (args.length >= 1) {
-      log.stdout(...args.slice(1))
+      log.stdout(args)
     }
 
     // now run the next command in the queue
-- 
2.43.0


From 27dd9cc08f7b9afe9c8fb0b6d6124456fc2643dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 35/73] fix: --msvs_version is known under its documented name

Also --dist_url and --force_process_config, as before the options were renamed.
---
 lib/node-gyp.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 5e25bf9..51aa06a 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -56,7 +56,11 @@ class Gyp extends EventEmitter {
   shorthands = {
     release: '--no-debug',
     C: '--directory',
+    d: '--debug',
     debug: '--debug',
+    dist_url: '--dist-url',
+    force_process_config: '--force-process-config',
+    msvs_version: '--msvs-version',
     j: '--jobs',
     silly: '--loglevel=silly',
     verbose: '--loglevel=verbose',
-- 
2.43.0


From 285fa27b90fac156ed00656820b548bbe01e2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 36/73] fix: words like 'constructor' are no commands

---
 lib/node-gyp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 51aa06a..8d7de12 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -104,7 +104,7 @@ class Gyp extends EventEmitter {
     // create a copy of the argv array with aliases mapped
     argv = this.argv.map((arg) => {
     // is this an alias?
-      if (arg in this.aliases) {
+      if (Object.hasOwn(this.aliases, arg)) {
         arg = this.aliases[arg]
       }
       return arg
@@ -112,7 +112,7 @@ class Gyp extends EventEmitter {
 
     // process the mapped args into "command" objects ("name" and "args" props)
     argv.slice().forEach((arg) => {
-      if (arg in this.commands) {
+      if (Object.hasOwn(this.commands, arg)) {
         const args = argv.splice(0, argv.indexOf(arg))
         argv.shift()
         if (commands.length > 0) {
-- 
2.43.0


From 25308e258dbd0dba93b22337565b8c1b40318d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 37/73] fix: remove never leaves the device directory

---
 lib/remove.js | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/remove.js b/lib/remove.js
index 56fa8ef..3c9262b 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -23,12 +23,18 @@ async function remove (gyp, argv) {
     version = versionSemver.version
   }
 
-  const versionPath = path.resolve(gyp.devDir, version)
+  const versionPath = path.resolve(devDir, version)
   log.verbose('remove', 'removing development files for version:', version)
 
+  // never leave the device directory, whatever was asked for
+  if (path.dirname(versionPath) !== path.resolve(devDir)) {
+    throw new Error('Invalid version number: ' + version)
+  }
+
   // first check if its even installed
+  let stat
   try {
-    await fs.stat(versionPath)
+    stat = await fs.lstat(versionPath)
   } catch (err) {
     if (err.code === 'ENOENT') {
       return 'version was already uninstalled: ' + version
@@ -38,12 +44,8 @@ async function remove (gyp, argv) {
 
   // "installVersion" goes first: what an interruption leaves behind must not be
   // taken for an installation
-  try {
+  if (stat.isDirectory()) {
     await fs.rm(path.join(versionPath, 'installVersion'), { force: true })
-  } catch (err) {
-    if (err.code !== 'ENOTDIR') {
-      throw err
-    }
   }
 
   await fs.rm(versionPath, { recursive: true, force: true })
-- 
2.43.0


From 31022128e9671ddfcd305f7cff4f5eb4895d11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 38/73] fix: install looks for io.js's own library, and honours
 npm_config_target_arch

---
 lib/install.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index e5497a6..eeb2321 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -18,7 +18,7 @@ async function install (gyp, argv) {
   log.stdout()
   const release = processRelease(argv, gyp, process.version, process.release)
   // Detecting target_arch based on logic from create-cnfig-gyp.js. Used on Windows only.
-  const arch = win ? (gyp.opts.target_arch || gyp.opts.arch || process.arch || 'ia32') : ''
+  const arch = win ? (gyp.opts.target_arch || gyp.opts['target-arch'] || gyp.opts.arch || process.arch || 'ia32') : ''
   // Used to prevent downloading tarball if only new node.lib is required on Windows.
   let shouldDownloadTarball = true
 
@@ -93,7 +93,7 @@ async function install (gyp, argv) {
     log.verbose('install', 'version is good')
     if (win) {
       log.verbose('on Windows; need to check node.lib')
-      const nodeLibPath = path.resolve(devDir, arch, 'node.lib')
+      const nodeLibPath = path.resolve(devDir, arch, release.name + '.lib')
       try {
         await fs.stat(nodeLibPath)
       } catch (err) {
-- 
2.43.0


From e79e2d52d6dac1cccde48bd5561e9a6d7730f537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 39/73] fix: gyp --check accepts numbers

---
 gyp/pylib/gyp/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 6691b88..a8408a7 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -212,8 +212,8 @@ def CheckNode(node, keypath):
             kp.append(repr(index))
             children.append(CheckNode(child, kp))
         return children
-    elif isinstance(node, ast.Str):
-        return node.s
+    elif isinstance(node, ast.Constant) and type(node.value) in (str, int):
+        return node.value
     else:
         raise TypeError(
             "Unknown AST node at key path '" + ".".join(keypath) + "': " + repr(node)
-- 
2.43.0


From d2b1a11157a1bdddb47af5acbda7f210507f4d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 40/73] fix: npm_config_OPTION=false switches a boolean option
 off

---
 lib/node-gyp.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 8d7de12..6bccb4e 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -144,7 +144,7 @@ class Gyp extends EventEmitter {
           if (name.includes('_')) {
             name = name.replace(/_/g, '-')
           }
-          this.opts[name] = val
+          this.opts[name] = this.configDefs[name] === Boolean && val === 'false' ? false : val
         }
       }
     })
-- 
2.43.0


From f1ae42281cef00cb1e92548660a98c72650b4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 41/73] fix: config.gypi stays readable with --option=null, and
 15.9 is told from 15.8

---
 lib/create-config-gypi.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..1361e26 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -88,7 +88,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     }
     if (variables.target_arch === 'arm64') {
       if (vsInfo.versionMajor > 15 ||
-          (vsInfo.versionMajor === 15 && vsInfo.versionMajor >= 9)) {
+          (vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)) {
         defaults.msvs_enable_marmasm = 1
       } else {
         log.warn('Compiling ARM64 assembly is only available in\n' +
@@ -128,7 +128,8 @@ async function createConfigGypi ({ gyp, buildDir, nodeDir, vsInfo, python }) {
 
   // ensures that any boolean values in config.gypi get stringified
   function boolsToString (k, v) {
-    if (typeof v === 'boolean') {
+    // (and `null`, which is what "--option=null" is parsed into)
+    if (typeof v === 'boolean' || v === null) {
       return String(v)
     }
     return v
-- 
2.43.0


From c08127c33807266d65a524eab3c47bd8aaa0dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 42/73] fix: configure keeps to the format given as --format=X,
 reads npm_config_node_engine

---
 lib/configure.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/configure.js b/lib/configure.js
index ee672cf..00a37cc 100644
--- a/lib/configure.js
+++ b/lib/configure.js
@@ -149,7 +149,7 @@ async function configure (gyp, argv) {
   }
 
   async function runGyp () {
-    if (!~argv.indexOf('-f') && !~argv.indexOf('--format')) {
+    if (!argv.some((arg) => arg.startsWith('-f') || arg === '--format' || arg.startsWith('--format='))) {
       if (win) {
         log.verbose('gyp', 'gyp format was not specified; forcing "msvs"')
         // force the 'make' target for non-Windows
@@ -287,7 +287,7 @@ async function configure (gyp, argv) {
     argv.push('-Dnode_lib_file=' + nodeLibFile)
     argv.push('-Dmodule_root_dir=' + process.cwd())
     argv.push('-Dnode_engine=' +
-        (gyp.opts.node_engine || process.jsEngine || 'v8'))
+        (gyp.opts.node_engine || gyp.opts['node-engine'] || process.jsEngine || 'v8'))
     argv.push('--depth=.')
     argv.push('--no-parallel')
 
-- 
2.43.0


From a4650f402515d4d7b8f938faf1fc922b37c1581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 43/73] fix: gyp --check reads a file as an evaluation of it
 does

---
 gyp/pylib/gyp/input.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index a8408a7..81b399c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -176,13 +176,10 @@ def CheckedEval(file_contents):
   Note that this is slower than eval() is.
   """
 
-    syntax_tree = ast.parse(file_contents)
-    assert isinstance(syntax_tree, ast.Module)
-    c1 = syntax_tree.body
-    assert len(c1) == 1
-    c2 = c1[0]
-    assert isinstance(c2, ast.Expr)
-    return CheckNode(c2.value, [])
+    # Parse as eval() does: a single expression, leading whitespace ignored.
+    syntax_tree = ast.parse(file_contents.lstrip(" \t"), mode="eval")
+    assert isinstance(syntax_tree, ast.Expression)
+    return CheckNode(syntax_tree.body, [])
 
 
 def CheckNode(node, keypath):
-- 
2.43.0


From 1ad049132c67fb2866ae103c36246047bc2cee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 44/73] fix: gyp refuses an incomplete action, rule or copy
 before writing anything

---
 gyp/pylib/gyp/input.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 81b399c..2aa2eab 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2793,6 +2793,9 @@ def ValidateRulesInTarget(target, target_dict, extra_sources_for_rules):
 
         if len(rule_sources) > 0:
             rule["rule_sources"] = rule_sources
+            # An external rule is carried out by Visual Studio itself.
+            if "action" not in rule and not int(rule.get("msvs_external_rule", 0)):
+                raise GypError(f"Rule {rule_name} in target {target} has no action.")
 
 
 def ValidateRunAsInTarget(target, target_dict, build_file):
@@ -2844,11 +2847,24 @@ def ValidateActionsInTarget(target, target_dict, build_file):
         inputs = action.get("inputs", None)
         if inputs is None:
             raise GypError("Action in target %s has no inputs." % target_name)
+        for key in ("action", "outputs"):
+            if key not in action:
+                raise GypError(
+                    f"Action {action_name} in target {target_name} has no {key}."
+                )
         action_command = action.get("action")
         if action_command and not action_command[0]:
             raise GypError("Empty action as command in target %s." % target_name)
 
 
+def ValidateCopiesInTarget(target, target_dict):
+    """Ensures that every copy in a target says what to copy, and where to."""
+    for copy in target_dict.get("copies", []):
+        for key in ("destination", "files"):
+            if key not in copy:
+                raise GypError(f"Copy in target {target} has no {key}.")
+
+
 def TurnIntIntoStrInDict(the_dict):
     """Given dict the_dict, recursively converts all integers into strings.
   """
@@ -3119,6 +3135,7 @@ def Load(
         ValidateRulesInTarget(target, target_dict, extra_sources_for_rules)
         ValidateRunAsInTarget(target, target_dict, build_file)
         ValidateActionsInTarget(target, target_dict, build_file)
+        ValidateCopiesInTarget(target, target_dict)
 
     # Generators might not expect ints.  Turn them into strs.
     TurnIntIntoStrInDict(data)
-- 
2.43.0


From c7b5cde68d820a69dcba753cae7c5fa5e55e8e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 45/73] fix: analyzer resolves source paths from the build
 file's directory

---
 gyp/pylib/gyp/generator/analyzer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64573ad..64ab2b5 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -161,7 +161,7 @@ def _AddSources(sources, base_path, base_path_components, result):
             continue
         # variable expansion may lead to //.
         org_source = source
-        source = source[0] + source[1:].replace("//", "/")
+        source = posixpath.normpath(source)
         if source.startswith("../"):
             source = _ResolveParent(source, base_path_components)
             if len(source):
@@ -190,8 +190,9 @@ def _ExtractSources(target, target_dict, toplevel_dir):
     # |target| is either absolute or relative and in the format of the OS. Gyp
     # source paths are always posix. Convert |target| to a posix path relative to
     # |toplevel_dir_|. This is done to make it easy to build source paths.
-    base_path = posixpath.dirname(_ToLocalPath(toplevel_dir, _ToGypPath(target)))
-    base_path_components = base_path.split("/")
+    build_file = gyp.common.BuildFile(target)
+    base_path = posixpath.dirname(_ToLocalPath(toplevel_dir, _ToGypPath(build_file)))
+    base_path_components = base_path.split("/") if base_path else []
 
     # Add a trailing '/' so that _AddSources() can easily build paths.
     if len(base_path):
-- 
2.43.0


From 330f505f92330e6dbcfadff0d0b5a3d17f11611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 46/73] fix: analyzer finds the targets of 'all' when given
 ./file.gyp

---
 gyp/pylib/gyp/generator/analyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64ab2b5..55084b8 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -774,7 +774,8 @@ def GenerateOutput(target_list, target_dicts, data, params):
             target_list,
             target_dicts,
             toplevel_dir,
-            params["build_files"],
+            # As the names of the targets have them.
+            [os.path.normpath(build_file) for build_file in params["build_files"]],
         )
         if not calculator.is_build_impacted():
             result_dict = {
-- 
2.43.0


From c0706a14392dac9d58767e1a5f7e868cb19b4494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:55 +0000
Subject: [PATCH 47/73] fix: analyzer builds a changed static library that
 nothing requested links

---
 gyp/pylib/gyp/generator/analyzer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 55084b8..6632abf 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -492,10 +492,20 @@ def _AddCompileTargets(target, roots, add_if_no_ancestor, result):
     target.in_roots = target in roots
 
     for back_dep_target in target.back_deps:
-        _AddCompileTargets(back_dep_target, roots, False, result)
+        # A dependent that itself matches has to be built whichever is visited first.
+        _AddCompileTargets(
+            back_dep_target,
+            roots,
+            back_dep_target.match_status == MATCH_STATUS_MATCHES,
+            result,
+        )
         target.added_to_compile_targets |= back_dep_target.added_to_compile_targets
         target.in_roots |= back_dep_target.in_roots
-        target.is_or_has_linked_ancestor |= back_dep_target.is_or_has_linked_ancestor
+        # Only what is built links this target.
+        if back_dep_target.in_roots:
+            target.is_or_has_linked_ancestor |= (
+                back_dep_target.is_or_has_linked_ancestor
+            )
 
     # Always add 'executable' targets. Even though they may be built by other
     # targets that depend upon them it makes detection of what is going to be
-- 
2.43.0


From f03d8d9f7dfe113866b87d73b2d201860fffb112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 48/73] fix: a makefile made with --no-circular-check
 regenerates with it

---
 gyp/pylib/gyp/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8933d0c..8f79b5f 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -446,7 +446,6 @@ def gyp_main(args):
         dest="circular_check",
         action="store_false",
         default=True,
-        regenerate=False,
         help="don't check for circular relationships between files",
     )
     parser.add_argument(
-- 
2.43.0


From f0c88fbcbb448829988fd42cfccc5d568e1f4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 49/73] fix: options with $ or # survive the regeneration of a
 makefile

---
 gyp/pylib/gyp/generator/make.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 7df147f..d9ed4d5 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2420,9 +2420,16 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
             "deps": replace_sep(
                 " ".join(SourceifyAndQuoteSpaces(bf) for bf in sorted(build_files))
             ),
-            "cmd": replace_sep(gyp.common.EncodePOSIXShellList(
-                [gyp_binary, "-fmake"] + gyp.RegenerateFlags(options) + build_files_args
-            )),
+            # A $ in an option is neither the shell's nor make's to expand.
+            "cmd": EscapeMakeComment(
+                replace_sep(
+                    gyp.common.EncodePOSIXShellList(
+                        [gyp_binary, "-fmake"]
+                        + gyp.RegenerateFlags(options)
+                        + build_files_args
+                    )
+                ).replace("$", "\\$$")
+            ),
         }
     )
 
-- 
2.43.0


From e27132167251fe51a48c4d49463a742d2e37f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 50/73] fix: building all builds the targets of ./file.gyp

---
 gyp/pylib/gyp/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8f79b5f..6fd84a0 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -491,7 +491,8 @@ def gyp_main(args):
         import pkg_resources
         print(f"v{pkg_resources.get_distribution('gyp-next').version}")
         return 0
-    build_files = build_files_arg
+    # Targets are named after the normalized paths of their build files.
+    build_files = [os.path.normpath(build_file) for build_file in build_files_arg]
 
     # Set up the configuration directory (defaults to ~/.gyp)
     if not options.config_dir:
-- 
2.43.0


From bcb42bb696f9ae4bdcd1a79515dace059b3820e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 51/73] fix: a makefile regenerates when a build file it no
 longer needs is gone

---
 gyp/pylib/gyp/generator/make.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index d9ed4d5..34d9fc6 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2415,6 +2415,8 @@ def WriteAutoRegenerationRule(params, root_makefile, makefile_name, build_files)
         "cmd_regen_makefile = cd $(srcdir); %(cmd)s\n"
         "%(makefile_name)s: %(deps)s\n"
         "\t$(call do_cmd,regen_makefile)\n\n"
+        # A build file may be gone once nothing refers to it.
+        "%(deps)s:\n\n"
         % {
             "makefile_name": makefile_name,
             "deps": replace_sep(
-- 
2.43.0


From 81e0fc32cfe5652ea469857209f10793b00cd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 52/73] fix: lock helper waits for the lock and passes on the
 command's status

---
 gyp/pylib/gyp/flock_tool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/flock_tool.py b/gyp/pylib/gyp/flock_tool.py
index 0754aff..79313bd 100755
--- a/gyp/pylib/gyp/flock_tool.py
+++ b/gyp/pylib/gyp/flock_tool.py
@@ -15,7 +15,7 @@ import sys
 
 def main(args):
     executor = FlockTool()
-    executor.Dispatch(args)
+    return executor.Dispatch(args)
 
 
 class FlockTool:
@@ -27,7 +27,7 @@ class FlockTool:
             raise Exception("Not enough arguments")
 
         method = "Exec%s" % self._CommandifyName(args[0])
-        getattr(self, method)(*args[1:])
+        return getattr(self, method)(*args[1:])
 
     def _CommandifyName(self, name_string):
         """Transforms a tool name like copy-info-plist to CopyInfoPlist"""
@@ -38,7 +38,7 @@ class FlockTool:
         # Rely on exception handling to report errors.
         # Note that the stock python on SunOS has a bug
         # where fcntl.flock(fd, LOCK_EX) always fails
-        # with EBADF, that's why we use this F_SETLK
+        # with EBADF, that's why we use this F_SETLKW
         # hack instead.
         fd = os.open(lockfile, os.O_WRONLY | os.O_NOCTTY | os.O_CREAT, 0o666)
         if sys.platform.startswith("aix") or sys.platform == "os400":
@@ -47,7 +47,7 @@ class FlockTool:
             op = struct.pack("hhIllqq", fcntl.F_WRLCK, 0, 0, 0, 0, 0, 0)
         else:
             op = struct.pack("hhllhhl", fcntl.F_WRLCK, 0, 0, 0, 0, 0, 0)
-        fcntl.fcntl(fd, fcntl.F_SETLK, op)
+        fcntl.fcntl(fd, fcntl.F_SETLKW, op)
         return subprocess.call(cmd_list)
 
 
-- 
2.43.0


From 248b410cfcd8cc7eee73699a16f93d4a9d106631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 53/73] fix: a blank before a command does not make it a list

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 2aa2eab..13279dc 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -899,7 +899,7 @@ def ExpandVariables(input, phase, variables, build_file):
 
         elif run_command:
             use_shell = True
-            if match["is_array"]:
+            if match["is_array"].strip():
                 contents = eval(contents)
                 use_shell = False
 
-- 
2.43.0


From 58ad38c74922b492edb0cd29f63935cbf0201be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 54/73] fix: a command ended by a signal has failed

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 13279dc..ad87929 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -974,7 +974,7 @@ def ExpandVariables(input, phase, variables, build_file):
                             % (e, contents, build_file)
                         )
 
-                    if result.returncode > 0:
+                    if result.returncode != 0:
                         raise GypError(
                             "Call to '%s' returned exit status %d while in %s."
                             % (contents, result.returncode, build_file)
-- 
2.43.0


From 234a6e25b967d2e3a31ea9e1ec7e52c45a80a86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 55/73] fix: commands of different forms do not share results

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index ad87929..1b5ac16 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -912,7 +912,7 @@ def ExpandVariables(input, phase, variables, build_file):
             # is invoked it produces different output by design. When the need
             # arises, the syntax should be extended to support no caching off a
             # command's output so it is run every time.
-            cache_key = (str(contents), build_file_dir)
+            cache_key = (command_string, use_shell, str(contents), build_file_dir)
             cached_value = cached_command_results.get(cache_key, None)
             if cached_value is None:
                 gyp.DebugOutput(
-- 
2.43.0


From 2dcfb5124151e64610768473983315f23a75a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 56/73] fix: items of file lists keep blanks and quotes

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 1b5ac16..8c5e8dc 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -872,7 +872,7 @@ def ExpandVariables(input, phase, variables, build_file):
         # fit on the command line.
         if file_list:
             contents_list = (contents if isinstance(contents, list)
-                             else contents.split(" "))
+                             else shlex.split(contents))
             replacement = contents_list[0]
             if os.path.isabs(replacement):
                 raise GypError('| cannot handle absolute paths, got "%s"' % replacement)
-- 
2.43.0


From b81cd4c156c092db73fb00a9400fc9e04eec74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 57/73] fix: make looks for library_dirs beside the build file

---
 gyp/pylib/gyp/generator/make.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 34d9fc6..5eff79c 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -1777,7 +1777,10 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         ldflags.append(r"-Wl,-rpath=\$$ORIGIN/")
                         ldflags.append(r"-Wl,-rpath-link=\$(builddir)/")
                 library_dirs = config.get("library_dirs", [])
-                ldflags += [("-L%s" % library_dir) for library_dir in library_dirs]
+                ldflags += [
+                    "-L%s" % Sourceify(self.Absolutify(library_dir))
+                    for library_dir in library_dirs
+                ]
                 self.WriteList(ldflags, "LDFLAGS_%s" % configname)
                 if self.flavor == "mac":
                     self.WriteList(
-- 
2.43.0


From b4f4a16d08847c240788777f92d1547317b77b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 58/73] fix: make uses the archiver named by
 make_global_settings

---
 gyp/pylib/gyp/generator/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 5eff79c..d9891b1 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2643,7 +2643,7 @@ def GenerateOutput(target_list, target_dicts, data, params):
         if wrapper:
             value = f"{wrapper} {value}"
             del wrappers[key]
-        if key in ("CC", "CC.host", "CXX", "CXX.host"):
+        if key in ("AR", "CC", "CC.host", "CXX", "CXX.host"):
             make_global_settings += (
                 "ifneq (,$(filter $(origin %s), undefined default))\n" % key
             )
-- 
2.43.0


From 612571fa575278971a2d3d1d565fdbd9fb02227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:34 +0000
Subject: [PATCH 59/73] fix: quote Xcode project strings that end in a newline
 or hold //

---
 gyp/pylib/gyp/xcodeproj_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index cd72aa2..96d24d2 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -157,11 +157,12 @@ def cmp(x, y):
 # transformed to be properly encoded.  Note that this expression matches the
 # characters listed with "+", for 1 or more occurrences: if a string is empty,
 # it must not match this pattern, because it needs to be encoded as "".
-_unquoted = re.compile("^[A-Za-z0-9$./_]+$")
+_unquoted = re.compile(r"^[A-Za-z0-9$./_]+\Z")
 
 # Strings that match this pattern are quoted regardless of what _unquoted says.
 # Oddly, Xcode will quote any string with a run of three or more underscores.
-_quoted = re.compile("___")
+# Two slashes would start a comment.
+_quoted = re.compile("___|//")
 
 # This pattern should match any character that needs to be escaped by
 # XCObject._EncodeString.  See that function.
-- 
2.43.0


From c9c900fe05eeb304a9c5e516ce2a682a76e1306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:34 +0000
Subject: [PATCH 60/73] fix: absolute paths stay absolute in Xcode projects

---
 gyp/pylib/gyp/xcodeproj_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index 96d24d2..3b13cbb 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -2872,7 +2872,8 @@ class PBXProject(XCContainerPortal):
 
         # TODO(mark): make additional choices based on file extension.
 
-        return (self.SourceGroup(), True)
+        # The hierarchy is relative to the project, an absolute path is not.
+        return (self.SourceGroup(), source_tree is not None or path[:1] != "/")
 
     def AddOrGetFileInRootGroup(self, path):
         """Returns a PBXFileReference corresponding to path in the correct group
-- 
2.43.0


From 48b385ccaf9656d6497eb8067171ccb4f9c59ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:34 +0000
Subject: [PATCH 61/73] fix: an Xcode project can use two projects of the same
 name without products

---
 gyp/pylib/gyp/xcodeproj_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index 3b13cbb..ecb68cc 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -3004,7 +3004,12 @@ class PBXProject(XCContainerPortal):
         self._SetUpProductReferences(other_pbxproject, product_group, project_ref)
 
         inherit_unique_symroot = self._AllSymrootsUnique(other_pbxproject, False)
-        targets = other_pbxproject.GetProperty("targets")
+        # Only native targets have products, of which two could be the same file.
+        targets = [
+            t
+            for t in other_pbxproject.GetProperty("targets")
+            if isinstance(t, PBXNativeTarget)
+        ]
         if all(self._AllSymrootsUnique(t, inherit_unique_symroot) for t in targets):
             dir_path = project_ref._properties["path"]
             product_group._hashables.extend(dir_path)
-- 
2.43.0


From e18f4d71cb0c6c7a1b8cd3a621ba2057b43938af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:14 +0000
Subject: [PATCH 62/73] fix: give cmake the object files a target lists as
 sources

---
 gyp/pylib/gyp/generator/cmake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/cmake.py b/gyp/pylib/gyp/generator/cmake.py
index d9adfb2..dc843cc 100644
--- a/gyp/pylib/gyp/generator/cmake.py
+++ b/gyp/pylib/gyp/generator/cmake.py
@@ -866,7 +866,7 @@ def WriteTarget(
         # Mark object sources as linkable.
         if linkable_sources_name:
             output.write("set_source_files_properties(")
-            WriteVariable(output, other_sources_name, "")
+            WriteVariable(output, linkable_sources_name, "")
             output.write(' PROPERTIES EXTERNAL_OBJECT "TRUE")\n')
 
         # Output directory
-- 
2.43.0


From 0beff631c0600a7c961401ff83ed44f3e73c5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 63/73] fix: name the project of a source's excluded
 configurations in msvs

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index c56ff17..4537102 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3576,7 +3576,7 @@ def _AddSources2(
                 else:
                     for config_name, configuration in sorted(excluded_configurations):
                         condition = _GetConfigurationCondition(
-                            config_name, configuration
+                            config_name, configuration, spec
                         )
                         detail.append(
                             ["ExcludedFromBuild", {"Condition": condition}, "true"]
-- 
2.43.0


From f5ab3f6c38a88b1ec64187806e8722f381bfe344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 64/73] fix: keep underscores of configuration names in MSBuild
 projects

---
 gyp/pylib/gyp/generator/msvs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 4537102..9a3f8f1 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2897,8 +2897,8 @@ def _GenerateMSBuildRuleXmlFile(xml_path, msbuild_rules):
 
 
 def _GetConfigurationAndPlatform(name, settings, spec):
-    configuration = name.rsplit("_", 1)[0]
-    platform = settings.get("msvs_configuration_platform", "Win32")
+    platform = _ConfigPlatform(settings)
+    configuration = _ConfigBaseName(name, platform)
     if spec["toolset"] == "host" and platform == "arm64":
         platform = "x64"  # Host-only tools are always built for x64
     return (configuration, platform)
-- 
2.43.0


From 1d750c9d75eafc24091565e65f67e8d17ba0c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 65/73] fix: eclipse settings of targets without cflags or
 defines

---
 gyp/pylib/gyp/generator/eclipse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 52aeae6..b4079f1 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -140,7 +140,7 @@ def GetAllIncludeDirectories(
                 msvs_settings = gyp.msvs_emulation.MsvsSettings(target, generator_flags)
                 cflags = msvs_settings.GetCflags(config_name)
             else:
-                cflags = config["cflags"]
+                cflags = config.get("cflags", [])
             for cflag in cflags:
                 if cflag.startswith("-I"):
                     include_dir = cflag[2:]
@@ -221,7 +221,7 @@ def GetAllDefines(target_list, target_dicts, data, config_name, params, compiler
             extra_defines = []
         if config_name in target["configurations"]:
             config = target["configurations"][config_name]
-            target_defines = config["defines"]
+            target_defines = config.get("defines", [])
         else:
             target_defines = []
         for define in target_defines + extra_defines:
-- 
2.43.0


From 7d8059753df299bf434b1500ad3e1c570ee2ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 66/73] fix: escape include directories in eclipse settings

---
 gyp/pylib/gyp/generator/eclipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index b4079f1..69f07fc 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -267,7 +267,7 @@ def WriteIncludePaths(out, eclipse_langs, include_dirs):
         for include_dir in include_dirs:
             out.write(
                 '      <includepath workspace_path="false">%s</includepath>\n'
-                % include_dir
+                % escape(include_dir)
             )
         out.write("    </language>\n")
     out.write("  </section>\n")
-- 
2.43.0


From 1862bef8bec99c16e018698834ed17f67b58d2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 67/73] fix: end the search for the Java root of a source
 outside the tree

---
 gyp/pylib/gyp/generator/eclipse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 69f07fc..65fcae9 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -435,8 +435,9 @@ def GetJavaSourceDirs(target_list, target_dicts, toplevel_dir):
                     # package name if this proves to be too fragile in practice.
                     parent_search = dir_
                     while os.path.basename(parent_search) not in ["src", "java"]:
-                        parent_search, _ = os.path.split(parent_search)
-                        if not parent_search or parent_search == toplevel_dir:
+                        child = parent_search
+                        parent_search = os.path.dirname(child)
+                        if parent_search in ("", child, toplevel_dir):
                             # Didn't find a known root, just return the original path
                             yield dir_
                             break
-- 
2.43.0


From 36926cfdb3cafc669c91fbf9c8adc369a196fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 68/73] fix: include directories of a top-level build file in
 eclipse settings

---
 gyp/pylib/gyp/generator/eclipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 65fcae9..8ac07b0 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -158,7 +158,7 @@ def GetAllIncludeDirectories(
                         if not os.path.isabs(include_dir):
                             base_dir = os.path.dirname(target_name)
 
-                            include_dir = base_dir + "/" + include_dir
+                            include_dir = os.path.join(base_dir, include_dir)
                             include_dir = os.path.abspath(include_dir)
 
                         gyp_includes_set.add(include_dir)
-- 
2.43.0


From fe13a3c6d0a6322f144d8470f12dbe7abe3d1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:16 +0000
Subject: [PATCH 69/73] fix: place shared intermediate directories in eclipse
 settings

---
 gyp/pylib/gyp/generator/eclipse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/eclipse.py b/gyp/pylib/gyp/generator/eclipse.py
index 8ac07b0..973faee 100644
--- a/gyp/pylib/gyp/generator/eclipse.py
+++ b/gyp/pylib/gyp/generator/eclipse.py
@@ -304,8 +304,8 @@ def GenerateOutputForConfig(target_list, target_dicts, data, params, config_name
     # Ninja uses out/Debug/gen while make uses out/Debug/obj/gen as the
     # SHARED_INTERMEDIATE_DIR. Include both possible locations.
     shared_intermediate_dirs = [
-        os.path.join(toplevel_build, "obj", "gen"),
-        os.path.join(toplevel_build, "gen"),
+        os.path.abspath(os.path.join(toplevel_build, "obj", "gen")),
+        os.path.abspath(os.path.join(toplevel_build, "gen")),
     ]
 
     GenerateCdtSettingsFile(
-- 
2.43.0


From d84fac71c4c8b669dbd6c3049114cff5d8827429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 70/73] fix: property list steps of mac_tool on current Python

---
 gyp/pylib/gyp/mac_tool.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index 59647c9..77f91a1 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -176,14 +176,13 @@ class MacTool:
     def ExecCopyInfoPlist(self, source, dest, convert_to_binary, *keys):
         """Copies the |source| Info.plist to the destination directory |dest|."""
         # Read the source Info.plist into memory.
-        with open(source) as fd:
-            lines = fd.read()
+        with open(source, "rb") as fd:
+            plist = plistlib.load(fd)
 
         # Insert synthesized key/value pairs (e.g. BuildMachineOSBuild).
-        plist = plistlib.readPlistFromString(lines)
         if keys:
             plist.update(json.loads(keys[0]))
-        lines = plistlib.writePlistToString(plist)
+        lines = plistlib.dumps(plist).decode("utf-8")
 
         # Go through all the environment variables and replace them as variables in
         # the file.
@@ -193,7 +192,7 @@ class MacTool:
                 continue
             evar = "${%s}" % key
             evalue = os.environ[key]
-            lines = lines.replace(lines, evar, evalue)
+            lines = lines.replace(evar, evalue)
 
             # Xcode supports various suffices on environment variables, which are
             # all undocumented. :rfc1034identifier is used in the standard project
@@ -203,11 +202,11 @@ class MacTool:
             # in a URL either -- oops, hence :rfc1034identifier was born.
             evar = "${%s:identifier}" % key
             evalue = IDENT_RE.sub("_", os.environ[key])
-            lines = lines.replace(lines, evar, evalue)
+            lines = lines.replace(evar, evalue)
 
             evar = "${%s:rfc1034identifier}" % key
             evalue = IDENT_RE.sub("-", os.environ[key])
-            lines = lines.replace(lines, evar, evalue)
+            lines = lines.replace(evar, evalue)
 
         # Remove any keys with values that haven't been replaced.
         lines = lines.splitlines()
@@ -218,7 +217,7 @@ class MacTool:
         lines = "\n".join(line for line in lines if line is not None)
 
         # Write out the file with variables replaced.
-        with open(dest, "w") as fd:
+        with open(dest, "w", encoding="utf-8") as fd:
             fd.write(lines)
 
         # Now write out PkgInfo file now that the Info.plist file has been
@@ -230,7 +229,8 @@ class MacTool:
 
     def _WritePkgInfo(self, info_plist):
         """This writes the PkgInfo file from the data stored in Info.plist."""
-        plist = plistlib.readPlist(info_plist)
+        with open(info_plist, "rb") as fp:
+            plist = plistlib.load(fp)
         if not plist:
             return
 
@@ -437,7 +437,8 @@ class MacTool:
         for path in inputs:
             plist = self._LoadPlistMaybeBinary(path)
             self._MergePlist(merged_plist, plist)
-        plistlib.writePlist(merged_plist, output)
+        with open(output, "wb") as fp:
+            plistlib.dump(merged_plist, fp)
 
     def ExecCodeSignBundle(self, key, entitlements, provisioning, path, preserve):
         """Code sign a bundle.
@@ -599,13 +600,15 @@ class MacTool:
             # First, try to read the file using plistlib that only supports XML,
             # and if an exception is raised, convert a temporary copy to XML and
             # load that copy.
-            return plistlib.readPlist(plist_path)
+            with open(plist_path, "rb") as fp:
+                return plistlib.load(fp)
         except Exception:
             pass
         with tempfile.NamedTemporaryFile() as temp:
             shutil.copy2(plist_path, temp.name)
             subprocess.check_call(["plutil", "-convert", "xml1", temp.name])
-            return plistlib.readPlist(temp.name)
+            with open(temp.name, "rb") as fp:
+                return plistlib.load(fp)
 
     def _GetSubstitutions(self, bundle_identifier, app_identifier_prefix):
         """Constructs a dictionary of variable substitutions for Entitlements.plist.
@@ -663,7 +666,8 @@ class MacTool:
             for key in overrides:
                 if key not in data:
                     data[key] = overrides[key]
-        plistlib.writePlist(data, target_path)
+        with open(target_path, "wb") as fp:
+            plistlib.dump(data, fp)
         return target_path
 
     def _ExpandVariables(self, data, substitutions):
-- 
2.43.0


From 303e06cc236648e5d68d69166d040dcd243aade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 71/73] fix: let makefiles call the bundle copy steps of
 mac_tool

---
 gyp/pylib/gyp/mac_tool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index 77f91a1..0c635cc 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -46,7 +46,7 @@ class MacTool:
         """Transforms a tool name like copy-info-plist to CopyInfoPlist"""
         return name_string.title().replace("-", "")
 
-    def ExecCopyBundleResource(self, source, dest, convert_to_binary):
+    def ExecCopyBundleResource(self, source, dest, convert_to_binary="False"):
         """Copies a resource file to the bundle/Resources directory, performing any
     necessary compilation on each resource."""
         convert_to_binary = convert_to_binary == "True"
@@ -173,7 +173,7 @@ class MacTool:
         else:
             return None
 
-    def ExecCopyInfoPlist(self, source, dest, convert_to_binary, *keys):
+    def ExecCopyInfoPlist(self, source, dest, convert_to_binary="False", *keys):
         """Copies the |source| Info.plist to the destination directory |dest|."""
         # Read the source Info.plist into memory.
         with open(source, "rb") as fd:
-- 
2.43.0


From dea121cf5ee6300b87795bef5db191a43480d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 72/73] fix: read the messages of ibtool as text in mac_tool

---
 gyp/pylib/gyp/mac_tool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index 0c635cc..d54cf3b 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -115,7 +115,7 @@ class MacTool:
         ibtool_section_re = re.compile(r"/\*.*\*/")
         ibtool_re = re.compile(r".*note:.*is clipping its content")
         try:
-            stdout = subprocess.check_output(args)
+            stdout = subprocess.check_output(args).decode("utf-8")
         except subprocess.CalledProcessError as e:
             print(e.output)
             raise
-- 
2.43.0


From 4fe01f54d617b056121e068d0172c03aa00a734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 73/73] fix: write header maps as bytes in mac_tool

---
 gyp/pylib/gyp/mac_tool.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/gyp/pylib/gyp/mac_tool.py b/gyp/pylib/gyp/mac_tool.py
index d54cf3b..0f59a88 100755
--- a/gyp/pylib/gyp/mac_tool.py
+++ b/gyp/pylib/gyp/mac_tool.py
@@ -741,7 +741,7 @@ def WriteHmap(output_name, filelist):
         # Fill next empty bucket.
         while buckets[key & capacity - 1] is not None:
             key = key + 1
-        buckets[key & capacity - 1] = (file, path)
+        buckets[key & capacity - 1] = (os.fsencode(file), os.fsencode(path))
 
     next_offset = 1
     for bucket in buckets:
@@ -751,7 +751,7 @@ def WriteHmap(output_name, filelist):
             (file, path) = bucket
             key_offset = next_offset
             prefix_offset = key_offset + len(file) + 1
-            suffix_offset = prefix_offset + len(os.path.dirname(path) + os.sep) + 1
+            suffix_offset = prefix_offset + len(os.path.join(os.path.dirname(path), b"")) + 1
             next_offset = suffix_offset + len(os.path.basename(path)) + 1
             out.write(struct.pack("<LLL", key_offset, prefix_offset, suffix_offset))
 
@@ -761,14 +761,8 @@ def WriteHmap(output_name, filelist):
     for bucket in buckets:
         if bucket is not None:
             (file, path) = bucket
-            out.write(struct.pack("<%ds" % len(file), file))
-            out.write(struct.pack("<s", "\0"))
-            base = os.path.dirname(path) + os.sep
-            out.write(struct.pack("<%ds" % len(base), base))
-            out.write(struct.pack("<s", "\0"))
-            path = os.path.basename(path)
-            out.write(struct.pack("<%ds" % len(path), path))
-            out.write(struct.pack("<s", "\0"))
+            base = os.path.join(os.path.dirname(path), b"")
+            out.write(file + b"\0" + base + b"\0" + os.path.basename(path) + b"\0")
 
 
 if __name__ == "__main__":
-- 
2.43.0

