From 80fcb05e5dc33f8a45fcce6a128bd00db267ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 01/62] fix: enums which are not arithmetic could not be bound
 (and lost nb::is_flag)

---
 src/litgen/internal/adapted_types/adapted_enum.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index e200d9f..beabbeb 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -248,14 +248,16 @@ class AdaptedEnum(AdaptedElement):
 
         # Enum decl first line
         is_arithmetic = code_utils.does_match_regex_or_matcher(self.options.enum_make_arithmetic__regex, enum_name_cpp)
+        enum_annotation = ""
         if is_arithmetic:
             if self.options.bind_library == BindLibraryType.pybind11:
                 enum_annotation = ", py::arithmetic()"
             else:
                 enum_annotation = ", nb::is_arithmetic()"
-                is_flag = code_utils.does_match_regex_or_matcher(self.options.enum_make_flag__regex, enum_name_cpp)
-                if is_flag:
-                    enum_annotation += ", nb::is_flag()"
+        if self.options.bind_library == BindLibraryType.nanobind:
+            is_flag = code_utils.does_match_regex_or_matcher(self.options.enum_make_flag__regex, enum_name_cpp)
+            if is_flag:
+                enum_annotation += ", nb::is_flag()"
         pydef_class_var_parent = cpp_to_python.cpp_scope_to_pybind_parent_var_name(self.options, self.cpp_element())
         enum_var = f"auto pyEnum{enum_name_python} = "
         py = "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb"
-- 
2.43.0


From 638e14d4025fe7c33d0938a88fe40891b3aef579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 02/62] fix: parsing a noexcept constructor printed a debug
 line on stdout

---
 src/srcmlcpp/internal/cpp_types_parse.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 55cdd94..679fb76 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -600,7 +600,6 @@ def fill_constructor_decl(
                 constructor_decl._noexcept = ""
             else:
                 constructor_decl._noexcept = arg_list.str_code_verbatim()
-            print(f"noexcept: {constructor_decl._noexcept}")
         elif child_tag in ["block", "member_init_list"]:
             pass  # will be handled by parse_constructor
         else:
-- 
2.43.0


From bfb4abf991e71339898f7cfd40cd7c38a9ea2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 03/62] fix: noexcept constructors with a body were not parsed

---
 src/srcmlcpp/internal/cpp_types_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 679fb76..ce808e3 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -637,7 +637,7 @@ def parse_constructor(
             result.block = parse_unprocessed(options, child_c, result)
         elif child_tag == "member_init_list":
             result.member_init_list = parse_unprocessed(options, child_c, result)
-        elif child_tag in ["name", "parameter_list", "specifier", "attribute"]:
+        elif child_tag in ["name", "parameter_list", "specifier", "attribute", "noexcept"]:
             pass  # alread handled by fill_constructor_decl
         elif child_tag == "comment":
             pass
-- 
2.43.0


From 3d1b7891e5a65d106139ffa9dcbd862af26732f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 04/62] fix: custom bindings of the main module were lost when
 the options were reused by another generator

---
 .../internal/adapted_types/adapted_unit.py    | 26 ++++++++++++-------
 src/litgen/internal/context/litgen_context.py |  4 +++
 src/litgen/internal/custom_bindings.py        | 20 --------------
 3 files changed, 20 insertions(+), 30 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_unit.py b/src/litgen/internal/adapted_types/adapted_unit.py
index 0f6f258..efbcc57 100644
--- a/src/litgen/internal/adapted_types/adapted_unit.py
+++ b/src/litgen/internal/adapted_types/adapted_unit.py
@@ -34,11 +34,14 @@ class AdaptedUnit(AdaptedBlock):
         r += context_namespaces_code
 
         # custom bindings for the global namespace
-        custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
-            is_pydef=False, pydef_main_module_var_name="m"
-        )
-        if custom_code is not None:
-            r += custom_code
+        # (emitted only once per generator, which may process several header files)
+        if not self.lg_context.main_module_custom_stub_emitted:
+            custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
+                is_pydef=False, pydef_main_module_var_name="m"
+            )
+            if custom_code is not None:
+                r += custom_code
+                self.lg_context.main_module_custom_stub_emitted = True
 
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_STUB)
         return r
@@ -51,11 +54,14 @@ class AdaptedUnit(AdaptedBlock):
         r += context_namespaces_code
 
         # custom bindings for the global namespace
-        custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
-            is_pydef=True, pydef_main_module_var_name="m"
-        )
-        if custom_code is not None:
-            r += custom_code
+        # (emitted only once per generator, which may process several header files)
+        if not self.lg_context.main_module_custom_pydef_emitted:
+            custom_code = self.options.custom_bindings._pub_make_main_module_custom_code(
+                is_pydef=True, pydef_main_module_var_name="m"
+            )
+            if custom_code is not None:
+                r += custom_code
+                self.lg_context.main_module_custom_pydef_emitted = True
 
         global_progress_bars().stop_progress_bar(_PROGRESS_BAR_TITLE_PYDEF)
         return r
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 178e34f..f061468 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -65,6 +65,10 @@ class LitgenContext:
 
     current_parsed_filename: str = ""
 
+    # The custom bindings of the main module are emitted only once per generator
+    main_module_custom_pydef_emitted: bool = False
+    main_module_custom_stub_emitted: bool = False
+
     def __init__(self, options: LitgenOptions):
         self.options = options
         self.encountered_cpp_boxed_types = set()
diff --git a/src/litgen/internal/custom_bindings.py b/src/litgen/internal/custom_bindings.py
index 68ae496..26f68c5 100644
--- a/src/litgen/internal/custom_bindings.py
+++ b/src/litgen/internal/custom_bindings.py
@@ -174,10 +174,6 @@ class CustomBindings:
     def __init__(self) -> None:
         self._custom_binding_pydefs = {}
         self._custom_binding_stubs = {}
-        # Track whether main-module custom bindings have been emitted,
-        # to avoid duplicates when a single generator processes multiple header files.
-        self._main_module_emitted_pydef = False
-        self._main_module_emitted_stub = False
 
     def _get_custom_bindings_ref(self, is_pydef: bool) -> Dict[CppScope, List[str]]:
         return self._custom_binding_pydefs if is_pydef else self._custom_binding_stubs
@@ -239,23 +235,7 @@ class CustomBindings:
         return result
 
     def _pub_make_main_module_custom_code(self, pydef_main_module_var_name: str, is_pydef: bool) -> str | None:
-        # Emit only once per generator lifetime (a single generator may
-        # process multiple header files via repeated process_cpp_file calls).
-        if is_pydef:
-            if self._main_module_emitted_pydef:
-                return None
-        else:
-            if self._main_module_emitted_stub:
-                return None
-
         replacements = [_StringReplacement("LG_MODULE", pydef_main_module_var_name)]
         qual_class_scope = CppScope.from_string("")
         result = self._make_custom_code(qual_class_scope, is_pydef=is_pydef, replacements=replacements)
-
-        if result is not None:
-            if is_pydef:
-                self._main_module_emitted_pydef = True
-            else:
-                self._main_module_emitted_stub = True
-
         return result
-- 
2.43.0


From e0fea088ce7fa92744540b3cc170482b08e40eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 05/62] fix: a failure while binding left an option or a class
 name in its temporary state

---
 src/litgen/internal/adapted_types/adapted_class.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 0c5429b..51d6edb 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -794,8 +794,10 @@ class AdaptedClass(AdaptedElement):
                 assert parent_struct is not None
                 original_class_name = parent_struct.class_name
                 parent_struct.class_name = self.cpp_element().class_name + "_publicist"
-                decl_code = child.str_pydef()
-                parent_struct.class_name = original_class_name
+                try:
+                    decl_code = child.str_pydef()
+                finally:
+                    parent_struct.class_name = original_class_name
 
                 r += code_utils.indent_code(decl_code, indent_str=options._indent_cpp_spaces())
             return r
@@ -1336,8 +1338,10 @@ class PythonNamedConstructorHelper:
             def make_cpp_unit_quiet(options: litgen.LitgenOptions, code: str) -> CppUnit:
                 flag_progress = options.srcmlcpp_options.flag_show_progress
                 options.srcmlcpp_options.flag_show_progress = False
-                unit = srcmlcpp.code_to_cpp_unit(options.srcmlcpp_options, code)
-                options.srcmlcpp_options.flag_show_progress = flag_progress
+                try:
+                    unit = srcmlcpp.code_to_cpp_unit(options.srcmlcpp_options, code)
+                finally:
+                    options.srcmlcpp_options.flag_show_progress = flag_progress
                 return unit
 
             cpp_code = make_fake_struct_cpp_code()
-- 
2.43.0


From ed9b280c9f267c7ebdbdcfde69910279df410a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 06/62] fix: the name of the stub file was interpreted by a
 shell when running black

---
 src/litgen/litgen_generator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index ee92a2d..fcbdaf1 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -50,10 +50,17 @@ def apply_black_formatter_pyi(options: LitgenOptions, file: str) -> bool:
 
         add_python_exe_folder_to_env_path()
 
-        cmd = f"black --target-version py310 --line-length {options.python_black_formatter_line_length} {file}"
+        cmd = [
+            "black",
+            "--target-version",
+            "py310",
+            "--line-length",
+            str(options.python_black_formatter_line_length),
+            str(file),
+        ]
 
         try:
-            subprocess.check_call(cmd, shell=True)
+            subprocess.check_call(cmd)
             return True
         except subprocess.CalledProcessError:
             return False
-- 
2.43.0


From 63f9ec5538be9f50b6cc2fa2492ad31147c5bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 07/62] fix: adapting a function or a class modified the parsed
 C++ tree (comments, unnamed params, types)

---
 .../apply_all_adapters.py                     |  2 +-
 .../internal/adapted_types/adapted_class.py   | 21 ++++++++++++++-----
 .../adapted_types/adapted_function.py         |  3 ++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 63b85f2..934e6aa 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -136,7 +136,7 @@ def _apply_all_adapters_on_constructor(inout_adapted_function: AdaptedFunction)
         initial_lambda_to_call="ctor_wrapper",
     )
     inout_adapted_function.cpp_element().cpp_element_comments.comment_on_previous_lines = (
-        cpp_wrapper_function.cpp_element_comments.comment_on_previous_lines
+        ctor_adapted_wrapper_function.cpp_element().cpp_element_comments.comment_on_previous_lines
     )
 
     if ctor_adapted_wrapper_function.cpp_adapter_code is not None:
diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 51d6edb..0d54982 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import copy
 
 from dataclasses import dataclass
 from typing import cast
@@ -371,6 +372,21 @@ class AdaptedClass(AdaptedElement):
 
         self._register_inner_python_names()
 
+        self._init_add_notes_to_comment()
+
+    def _init_add_notes_to_comment(self) -> None:
+        """Add notes to the comment of the class (on a copy: the parsed class shall not be altered)"""
+        if self.cpp_element().is_template_partially_specialized():
+            return  # The notes will be added to its instantiations
+        comments = copy.copy(self.cpp_element().cpp_element_comments)
+        if self.cpp_element().is_final():
+            comments.comment_on_previous_lines += "\n"
+            comments.comment_on_previous_lines += "(final class)"
+        if len(self._cp_stub_comment()) > 0:
+            comments.comment_on_previous_lines += "\n" + self._cp_stub_comment()
+        self._cpp_element = copy.copy(self.cpp_element())
+        self._cpp_element.cpp_element_comments = comments
+
     def _group_overloaded_methods(self) -> None:
         from litgen.internal.adapted_types.adapted_block import group_overloaded_functions
 
@@ -556,11 +572,6 @@ class AdaptedClass(AdaptedElement):
             title += f"  # Python specialization for {self.cpp_element().class_name}<{self.template_specialization.cpp_type.str_code()}>"
 
         title_lines = [title]
-        if self.cpp_element().is_final():
-            self.cpp_element().cpp_element_comments.comment_on_previous_lines += "\n"
-            self.cpp_element().cpp_element_comments.comment_on_previous_lines += "(final class)"
-        if len(self._cp_stub_comment()) > 0:
-            self.cpp_element().cpp_element_comments.comment_on_previous_lines += "\n" + self._cp_stub_comment()
 
         body_lines: list[str] = []
 
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 9152b9c..2aa9a90 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -254,7 +254,8 @@ class AdaptedFunction(AdaptedElement):
             assert function_decl.parameter_list.parameters[0].parent is not None
 
         # qualify the params of the input function
-        function_decl = function_decl.with_qualified_types()
+        # (and work on a copy, since the adapters modify the function and its comments)
+        function_decl = copy.deepcopy(function_decl.with_qualified_types())
 
         self.cpp_adapted_function = function_decl
 
-- 
2.43.0


From 2a9f3bf3f27f52b4ba491af19652ac85da60cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 08/62] fix: the types of the parsed parameters were modified
 when adapting mutable default values

---
 .../_adapt_mutable_param_with_default_value.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py b/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py
index 132eeaa..e5879c5 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_mutable_param_with_default_value.py
@@ -181,7 +181,7 @@ def adapt_mutable_param_with_default_value(adapted_function: AdaptedFunction) ->
             was_replaced = True
 
             param_name = old_param.decl.decl_name
-            param_type = old_param.decl.cpp_type
+            param_type = copy.deepcopy(old_param.decl.cpp_type)
 
             # param_or: the parameter that will be passed to the original function
             # (where std::optional<T> is replaced by T)
-- 
2.43.0


From 4382e3ec79229d8feb5edb57c13e57e8a6da1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 09/62] fix: the demo left the options of its caller set to
 nanobind

---
 src/litgen/demo/litgen_demo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/litgen/demo/litgen_demo.py b/src/litgen/demo/litgen_demo.py
index 96cec8e..44b6a6f 100644
--- a/src/litgen/demo/litgen_demo.py
+++ b/src/litgen/demo/litgen_demo.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+import copy
 from IPython.core.display import HTML  # type: ignore
 
 from codemanip.html_code_viewer.html_code_viewer import (
@@ -19,6 +20,9 @@ from litgen import LitgenOptions
 def _generate_and_display_impl(
     options: LitgenOptions, cpp_code: str, show_cpp: bool, show_pydef: bool, height: int
 ) -> str:
+    # Work on a copy: the options of the caller shall not be modified
+    options = copy.deepcopy(options)
+
     # First generate the code for pybind11
     options.bind_library = litgen.BindLibraryType.pybind11
     generated_codes = litgen.generate_code(options, cpp_code)
-- 
2.43.0


From 789f33c6549789d62ece45ba4b6b595f632c20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:17 +0000
Subject: [PATCH 10/62] fix: messages showed the code of another parse when
 several sources share a filename (or have none)

---
 src/srcmlcpp/cpp_types/base/cpp_element.py |  2 +-
 src/srcmlcpp/internal/code_cache.py        | 18 ------------------
 src/srcmlcpp/internal/srcml_comments.py    |  2 +-
 src/srcmlcpp/srcml_wrapper.py              | 17 +++++++++++------
 src/srcmlcpp/srcmlcpp_main.py              |  5 ++---
 5 files changed, 15 insertions(+), 29 deletions(-)
 delete mode 100644 src/srcmlcpp/internal/code_cache.py

diff --git a/src/srcmlcpp/cpp_types/base/cpp_element.py b/src/srcmlcpp/cpp_types/base/cpp_element.py
index d0fea23..1948d23 100644
--- a/src/srcmlcpp/cpp_types/base/cpp_element.py
+++ b/src/srcmlcpp/cpp_types/base/cpp_element.py
@@ -32,7 +32,7 @@ class CppElement(SrcmlWrapper):
     _cached_cpp_scope_include_self: CppScope
 
     def __init__(self, element: SrcmlWrapper) -> None:
-        super().__init__(element.options, element.srcml_xml, element.filename)
+        super().__init__(element.options, element.srcml_xml, element.filename, element.source_code)
         # self.parent is intentionally not filled!
 
     def __deepcopy__(self, memo=None):
diff --git a/src/srcmlcpp/internal/code_cache.py b/src/srcmlcpp/internal/code_cache.py
deleted file mode 100644
index 0b57917..0000000
--- a/src/srcmlcpp/internal/code_cache.py
+++ /dev/null
@@ -1,18 +0,0 @@
-from __future__ import annotations
-from typing import Optional
-
-_Filename = str
-_Code = str
-_CODE_CACHE: dict[Optional[_Filename], _Code] = {}
-
-
-def get_cached_code(filename: Optional[str]) -> str:
-    global _CODE_CACHE
-    if filename not in _CODE_CACHE.keys():
-        raise ValueError(f"filename {filename} not in code cache!")
-    return _CODE_CACHE[filename]
-
-
-def store_cached_code(filename: Optional[str], code: str) -> None:
-    global _CODE_CACHE
-    _CODE_CACHE[filename] = code
diff --git a/src/srcmlcpp/internal/srcml_comments.py b/src/srcmlcpp/internal/srcml_comments.py
index dbed882..50b7ba5 100644
--- a/src/srcmlcpp/internal/srcml_comments.py
+++ b/src/srcmlcpp/internal/srcml_comments.py
@@ -197,7 +197,7 @@ def _group_consecutive_comments(srcml_code: SrcmlWrapper) -> SrcmlWrapper:
     for child_r in srcml_xml_grouped:
         children_r.append(child_r)
 
-    r = SrcmlWrapper(srcml_code.options, srcml_xml_grouped, srcml_code.filename)
+    r = SrcmlWrapper(srcml_code.options, srcml_xml_grouped, srcml_code.filename, srcml_code.source_code)
     return r
 
 
diff --git a/src/srcmlcpp/srcml_wrapper.py b/src/srcmlcpp/srcml_wrapper.py
index b0bebc4..d384aa9 100644
--- a/src/srcmlcpp/srcml_wrapper.py
+++ b/src/srcmlcpp/srcml_wrapper.py
@@ -8,7 +8,7 @@ from xml.etree import ElementTree as ET
 from codemanip import code_utils
 from codemanip.code_position import CodeContextWithCaret, CodePosition
 
-from srcmlcpp.internal import code_cache, code_to_srcml, srcml_utils
+from srcmlcpp.internal import code_to_srcml, srcml_utils
 from srcmlcpp.srcmlcpp_options import SrcmlcppOptions
 from srcmlcpp.scrml_warning_settings import WarningType
 
@@ -25,15 +25,20 @@ class SrcmlWrapper:
     srcml_xml: ET.Element
     # the filename from which this tree was parsed
     filename: str | None = None
+    # the full source code from which this tree was parsed (used to display the code context in messages)
+    source_code: str | None = None
     # debugging help: a string showing the start position of this element in the code
     code_location: str
 
-    def __init__(self, options: SrcmlcppOptions, srcml_xml: ET.Element, filename: str | None) -> None:
+    def __init__(
+        self, options: SrcmlcppOptions, srcml_xml: ET.Element, filename: str | None, source_code: str | None = None
+    ) -> None:
         """Create a wrapper from a xml sub node
         :param options:  the options
         :param srcml_xml: the xml node which will be wrapped
         :param parent: the parent
         :param filename: the name of the file from which this node was extracted
+        :param source_code: the full source code from which this node was extracted
         """
 
         self.options = options
@@ -45,6 +50,7 @@ class SrcmlWrapper:
                 self.raise_exception("filename params must either be `None` or non empty!")
 
         self.filename = filename
+        self.source_code = source_code
 
         # fill code_location
         def fill_code_location() -> str:
@@ -184,7 +190,7 @@ class SrcmlWrapper:
         """Extract the xml sub nodes and wraps them"""
         r = []
         for child_xml in self.srcml_xml:
-            r.append(SrcmlWrapper(self.options, child_xml, self.filename))
+            r.append(SrcmlWrapper(self.options, child_xml, self.filename, self.source_code))
         return r
 
     def wrapped_child_with_tag(self, tag: str) -> SrcmlWrapper | None:
@@ -271,9 +277,8 @@ class SrcmlWrapper:
     def str_code_context_with_caret(self, max_lines: int) -> str:
         context: CodeContextWithCaret
         r = ""
-        full_code = code_cache.get_cached_code(self.filename)
-        if len(full_code) > 0:
-            full_code_lines = [""] + full_code.split("\n")
+        if self.source_code is not None and len(self.source_code) > 0:
+            full_code_lines = [""] + self.source_code.split("\n")
 
             start = self.start()
             end = self.end()
diff --git a/src/srcmlcpp/srcmlcpp_main.py b/src/srcmlcpp/srcmlcpp_main.py
index 5b96556..556d729 100644
--- a/src/srcmlcpp/srcmlcpp_main.py
+++ b/src/srcmlcpp/srcmlcpp_main.py
@@ -24,7 +24,6 @@ from srcmlcpp.cpp_types import (
     CppType,
 )
 from srcmlcpp.internal import (
-    code_cache,
     code_to_srcml,
     srcml_comments,
     cpp_types_parse,
@@ -65,14 +64,14 @@ def code_to_srcml_wrapper(
         # string. Signature break; update srcmlcpp_options.py in lockstep.
         code = options.code_preprocess_function(code)
 
-    code_cache.store_cached_code(filename, code)
+    source_code = code
 
     if options.preserve_empty_lines:
         code = srcml_comments.mark_empty_lines(code)
 
     xml = code_to_srcml.code_to_srcml(code, dump_positions=options.flag_srcml_dump_positions, encoding=options.encoding)
 
-    r = SrcmlWrapper(options, xml, filename)
+    r = SrcmlWrapper(options, xml, filename, source_code)
     return r
 
 
-- 
2.43.0


From 19b1b81424ab580b7b063fbce95d74a57c57b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:31 +0000
Subject: [PATCH 11/62] fix: the readable dump of a srcml tree depended on the
 previous dumps

---
 src/srcmlcpp/internal/srcml_utils.py | 30 +++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/srcmlcpp/internal/srcml_utils.py b/src/srcmlcpp/internal/srcml_utils.py
index 61405d1..6884511 100644
--- a/src/srcmlcpp/internal/srcml_utils.py
+++ b/src/srcmlcpp/internal/srcml_utils.py
@@ -108,27 +108,24 @@ def _extract_interesting_tail(element: ET.Element) -> str:
     return text
 
 
-_PREVIOUS_INFO_POSITION = ""
-
-
 def _info_element_position(element: ET.Element) -> str:
-    global _PREVIOUS_INFO_POSITION
     start, end = element_start_position(element), element_end_position(element)
     if start is None or end is None:
         return ""
     if start.line == end.line:
-        r = f"line  {start.line}"
+        return f"line  {start.line}"
     else:
-        r = f"lines {start.line}-{end.line}"
-
-    if r != _PREVIOUS_INFO_POSITION:
-        _PREVIOUS_INFO_POSITION = r
-        return r
-    else:
-        return ""
+        return f"lines {start.line}-{end.line}"
 
 
 def srcml_to_str_readable(srcml_element: ET.Element, level: int = 0) -> str:
+    lines: list[str] = []
+    _fill_readable_lines(srcml_element, level, "", lines)
+    return "".join(lines)
+
+
+def _fill_readable_lines(srcml_element: ET.Element, level: int, previous_position: str, lines: list[str]) -> str:
+    """Appends the lines which describe an element and its children, returns the last position that was displayed"""
     indent_str = "    " * level
 
     msg: str
@@ -138,13 +135,14 @@ def srcml_to_str_readable(srcml_element: ET.Element, level: int = 0) -> str:
         msg += f' text="{text}"'
 
     info_position = _info_element_position(srcml_element)
-    if len(info_position) > 0:
+    if len(info_position) > 0 and info_position != previous_position:
         msg += " " * (60 - len(msg)) + info_position
-    msg += "\n"
+        previous_position = info_position
+    lines.append(msg + "\n")
 
     for child in srcml_element:
-        msg += srcml_to_str_readable(child, level + 1)
-    return msg
+        previous_position = _fill_readable_lines(child, level + 1, previous_position, lines)
+    return previous_position
 
 
 def check_for_file_in_current_hierarchy(filename: str) -> bool:
-- 
2.43.0


From e802aff48b9d7cb46f392fcb48b4b900278b87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:33 +0000
Subject: [PATCH 12/62] fix: temporary files leaked when srcml failed, and
 their names were interpreted by a shell

---
 src/srcmlcpp/internal/code_to_srcml.py | 74 +++++++++++---------------
 1 file changed, 31 insertions(+), 43 deletions(-)

diff --git a/src/srcmlcpp/internal/code_to_srcml.py b/src/srcmlcpp/internal/code_to_srcml.py
index df81a55..9346593 100644
--- a/src/srcmlcpp/internal/code_to_srcml.py
+++ b/src/srcmlcpp/internal/code_to_srcml.py
@@ -10,7 +10,6 @@ import sys
 from typing import Optional
 import logging
 import os
-import random
 import subprocess
 import tempfile
 import time
@@ -61,12 +60,13 @@ class _SrcmlCaller:
     _stats_srcml_to_code: _TimeStats = _TimeStats()
 
     def _call_subprocess(self, encoding: str, input_filename: str, output_filename: str, dump_positions: bool) -> None:
-        position_arg = "--position" if dump_positions else ""
-
-        shell_command = f"srcml -l C++ {input_filename} {position_arg} --xml-encoding {encoding} --src-encoding {encoding} -o {output_filename}"
-        logging.debug(f"_SrcmlCaller.call: {shell_command}")
+        command = ["srcml", "-l", "C++", input_filename]
+        if dump_positions:
+            command.append("--position")
+        command += ["--xml-encoding", encoding, "--src-encoding", encoding, "-o", output_filename]
+        logging.debug(f"_SrcmlCaller.call: {command}")
         try:
-            subprocess.check_call(shell_command, shell=True)
+            subprocess.check_call(command)
         except subprocess.CalledProcessError as e:
             logging.error(f"_SrcmlCaller.call, error {e}")
             logging.error("""
@@ -78,50 +78,38 @@ class _SrcmlCaller:
             """)
             sys.exit(1)
 
-    def _random_filename(self) -> str:
-        characters = "abcdefghijklmnopqrstuvwxyz0123456789_"
-        r = "".join(random.choices(characters, k=14))
-        r = tempfile.gettempdir() + "/" + r
-        return r
-
     def _make_xml_str_by_subprocess(self, encoding: str, input_str: str, dump_positions: bool = False) -> str:
-        input_header_filename = self._random_filename() + ".h"
-        output_xml_filename = self._random_filename() + ".xml"
-
-        with open(input_header_filename, "wb") as input_header_file:
-            input_header_file.write(input_str.encode(encoding))
-            input_header_file.close()
-
-        self._call_subprocess(
-            encoding,
-            input_header_filename,
-            output_xml_filename,
-            dump_positions,
-        )
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            input_header_filename = os.path.join(tmp_dir, "input.h")
+            output_xml_filename = os.path.join(tmp_dir, "output.xml")
 
-        with open(output_xml_filename, "rb") as output_xml_file:
-            output_bytes = output_xml_file.read()
-            output_xml_file.close()
+            with open(input_header_filename, "wb") as input_header_file:
+                input_header_file.write(input_str.encode(encoding))
+
+            self._call_subprocess(
+                encoding,
+                input_header_filename,
+                output_xml_filename,
+                dump_positions,
+            )
+
+            with open(output_xml_filename, "rb") as output_xml_file:
+                output_bytes = output_xml_file.read()
 
-        os.remove(input_header_file.name)
-        os.remove(output_xml_file.name)
         output_str = output_bytes.decode(encoding)
         return output_str
 
     def _make_cpp_str_by_subprocess(self, xml_bytes: bytes, encoding: str) -> str:
-        input_xml_filename = self._random_filename() + ".xml"
-        output_header_filename = self._random_filename() + ".h"
-        with open(input_xml_filename, "wb") as input_xml_file:
-            input_xml_file.write(xml_bytes)
-            input_xml_file.close()
-
-        self._call_subprocess(encoding, input_xml_filename, output_header_filename, False)
-
-        with open(output_header_filename, "rb") as output_header_file:
-            output_bytes = output_header_file.read()
-            output_header_file.close()
-        os.remove(input_xml_filename)
-        os.remove(output_header_filename)
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            input_xml_filename = os.path.join(tmp_dir, "input.xml")
+            output_header_filename = os.path.join(tmp_dir, "output.h")
+            with open(input_xml_filename, "wb") as input_xml_file:
+                input_xml_file.write(xml_bytes)
+
+            self._call_subprocess(encoding, input_xml_filename, output_header_filename, False)
+
+            with open(output_header_filename, "rb") as output_header_file:
+                output_bytes = output_header_file.read()
         code_str = output_bytes.decode(encoding)
         return code_str
 
-- 
2.43.0


From 3e765ac687e5d2c8b5970bbc7daf88eb3ab50dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 13/62] fix: a failure of srcml terminated the interpreter
 instead of raising

---
 src/srcmlcpp/internal/code_to_srcml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/srcmlcpp/internal/code_to_srcml.py b/src/srcmlcpp/internal/code_to_srcml.py
index 9346593..3d3093f 100644
--- a/src/srcmlcpp/internal/code_to_srcml.py
+++ b/src/srcmlcpp/internal/code_to_srcml.py
@@ -4,8 +4,6 @@ Calls the external program srcml (https://www.srcml.org/)
 
 from __future__ import annotations
 
-import sys
-
 # mypy: warn_unused_ignores=False
 from typing import Optional
 import logging
@@ -15,6 +13,8 @@ import tempfile
 import time
 from xml.etree import ElementTree as ET
 
+from srcmlcpp.srcmlcpp_exception import SrcmlcppException
+
 # srcML can be used either via the python module srcml_caller or via the executable srcml
 try:
     import srcml_caller as srcml_nativecaller  # type: ignore # noqa
@@ -67,7 +67,7 @@ class _SrcmlCaller:
         logging.debug(f"_SrcmlCaller.call: {command}")
         try:
             subprocess.check_call(command)
-        except subprocess.CalledProcessError as e:
+        except (subprocess.CalledProcessError, FileNotFoundError) as e:
             logging.error(f"_SrcmlCaller.call, error {e}")
             logging.error("""
             srcmlcpp requires the installation of srcML ( https://www.srcml.org )
@@ -76,7 +76,7 @@ class _SrcmlCaller:
             See install instructions at:
                 https://pthom.github.io/litgen/litgen_book/01_05_10_install.html
             """)
-            sys.exit(1)
+            raise SrcmlcppException(f"The call to srcML failed: {e}") from e
 
     def _make_xml_str_by_subprocess(self, encoding: str, input_str: str, dump_positions: bool = False) -> str:
         with tempfile.TemporaryDirectory() as tmp_dir:
-- 
2.43.0


From c25afeb3b38ae304c4ca2a0ca1982d20b2424de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 14/62] fix: running black modified the environment of the
 calling process

---
 src/litgen/litgen_generator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index fcbdaf1..1c47981 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -35,20 +35,22 @@ def apply_black_formatter_pyi(options: LitgenOptions, file: str) -> bool:
         return result  # type: ignore
 
     def _apply_black_formatter_pyi_via_subprocess(options: LitgenOptions, file: str) -> bool:
-        def add_python_exe_folder_to_env_path() -> None:
+        def env_with_python_exe_folder_in_path() -> dict[str, str]:
             """When calling this from CMake, the env PATH may not contain the python executable folder,
-            where black lives if installed in a virtual environment. This function adds it to the PATH."""
+            where black lives if installed in a virtual environment. This function returns an environment
+            whose PATH contains it (the environment of the current process is left unchanged)."""
             import sys
             import os
             import pathlib
 
             python_exe = pathlib.Path(sys.executable)
             python_exe_folder = python_exe.parent
-            current_path = os.environ["PATH"]
+            env = dict(os.environ)
+            current_path = env.get("PATH", os.defpath)
             if str(python_exe_folder) not in current_path:
-                os.environ["PATH"] += ":" + str(python_exe_folder)
-
-        add_python_exe_folder_to_env_path()
+                current_path += os.pathsep + str(python_exe_folder)
+            env["PATH"] = current_path
+            return env
 
         cmd = [
             "black",
@@ -60,7 +62,7 @@ def apply_black_formatter_pyi(options: LitgenOptions, file: str) -> bool:
         ]
 
         try:
-            subprocess.check_call(cmd)
+            subprocess.check_call(cmd, env=env_with_python_exe_folder_in_path())
             return True
         except subprocess.CalledProcessError:
             return False
-- 
2.43.0


From 283dc2dddbd54dafbb0dc0123a1bf3c68b99d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 15/62] fix: a missing or stray closing marker made
 write_generated_code lose or duplicate user code

---
 src/codemanip/code_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index cbbcc5e..1c5e99b 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -497,9 +497,14 @@ def write_generated_code_between_markers(
             else:
                 pass  # Skip code lines that were already in the autogenerated region
         if code_marker_out in code_line:
+            if not is_inside_autogen_region:
+                raise RuntimeError(f"Encountered {code_marker_out} without {code_marker_in} in {inout_filename}")
             output_code = output_code + "\n"
             output_code = output_code + code_line + "\n"
             is_inside_autogen_region = False
+    if is_inside_autogen_region:
+        # Do not write anything: the user code that follows the opening marker would be lost
+        raise RuntimeError(f"Missing closing marker {code_marker_out} in {inout_filename}")
     if output_code[-1:] == "\n":
         output_code = output_code[:-1]
 
-- 
2.43.0


From a96774dfc64cb4419170413b78a345fde82d05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 16/62] fix: a missing glue code file was not reported as a
 failure

---
 src/litgen/litgen_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/litgen_generator.py b/src/litgen/litgen_generator.py
index 1c47981..36651a2 100644
--- a/src/litgen/litgen_generator.py
+++ b/src/litgen/litgen_generator.py
@@ -128,8 +128,8 @@ class LitgenGenerator:
             if output_cpp_glue_code_file != output_cpp_pydef_file:
                 logging.warning(help_glue_file(output_cpp_glue_code_file))
             else:
-                logging.warning(help_stub_file(output_stub_pyi_file))
-                raise
+                logging.warning(help_pybind_file(output_cpp_pydef_file, self.options().bind_library))
+            raise
 
     def options(self) -> LitgenOptions:
         return self.lg_context.options
-- 
2.43.0


From 6512dfccb5ee2ea80d13bdf88953b37e49284470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:37 +0000
Subject: [PATCH 17/62] fix: text files were read and written with the encoding
 of the locale

---
 src/codemanip/code_utils.py                            |  4 ++--
 src/codemanip/html_code_viewer/html_code_viewer.py     |  4 ++--
 .../validate_bindings_compilation.py                   | 10 +++++-----
 src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py    |  6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 1c5e99b..54cf12d 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -264,7 +264,7 @@ def to_camel_case(name: str) -> str:
 
 
 def read_text_file(filename: str) -> str:
-    with open(filename, newline="") as f:
+    with open(filename, encoding="utf-8", newline="") as f:
         txt = f.read()
     return txt
 
@@ -276,7 +276,7 @@ def escape_new_lines(code: str) -> str:
 def write_text_file(filename: str, content: str) -> None:
     old_content = read_text_file(filename)
     if content != old_content:
-        with open(filename, "w", newline="") as f:
+        with open(filename, "w", encoding="utf-8", newline="") as f:
             f.write(content)
 
 
diff --git a/src/codemanip/html_code_viewer/html_code_viewer.py b/src/codemanip/html_code_viewer/html_code_viewer.py
index cd2dc00..74f78ea 100644
--- a/src/codemanip/html_code_viewer/html_code_viewer.py
+++ b/src/codemanip/html_code_viewer/html_code_viewer.py
@@ -242,7 +242,7 @@ def show_cpp_file(
 ) -> None:
     if title is None:
         title = cpp_filename
-    with open(cpp_filename, "r") as f:
+    with open(cpp_filename, "r", encoding="utf-8") as f:
         code = f.read()
         show_cpp_code(code, title=title, max_visible_lines=max_visible_lines, initially_opened=initially_opened)
 
@@ -255,6 +255,6 @@ def show_python_file(
 ) -> None:
     if title is None:
         title = python_filename
-    with open(python_filename, "r") as f:
+    with open(python_filename, "r", encoding="utf-8") as f:
         code = f.read()
         show_python_code(code, title=title, max_visible_lines=max_visible_lines, initially_opened=initially_opened)
diff --git a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
index ab9ec1e..bf87fb7 100644
--- a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
+++ b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
@@ -169,21 +169,21 @@ add_custom_command(TARGET {python_native_module_name}
 
         # Write the full code to code.cpp
         if not enable_hack_code:
-            with open(code_cpp_path, "w") as f:
+            with open(code_cpp_path, "w", encoding="utf-8") as f:
                 f.write(full_code)
 
         # Write the CMake code to CMakeLists.txt
-        with open(cmake_lists_path, "w") as f:
+        with open(cmake_lists_path, "w", encoding="utf-8") as f:
             f.write(cmake_code)
 
         # Write stub files and initialize the module directory
         module_dir = os.path.join(work_dir, python_module_name)
         os.makedirs(module_dir, exist_ok=True)
         stub_file = os.path.join(module_dir, "__init__.pyi")
-        with open(stub_file, "w") as f:
+        with open(stub_file, "w", encoding="utf-8") as f:
             f.write(generated_code.stub_code)
         init_file = os.path.join(module_dir, "__init__.py")
-        with open(init_file, "w") as f:
+        with open(init_file, "w", encoding="utf-8") as f:
             # Import everything from the native submodule
             f.write(f"from {python_native_module_name} import *")
 
@@ -248,7 +248,7 @@ add_custom_command(TARGET {python_native_module_name}
             # Write test code to a test file
             test_file_name = "run_validate_bindings_compilation.py"
             test_file_path = os.path.join(work_dir, test_file_name)
-            with open(test_file_path, "w") as f:
+            with open(test_file_path, "w", encoding="utf-8") as f:
                 f.write(code_utils.unindent_code(python_test_code))
 
             # Run pytest on the test file
diff --git a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
index f48e4ce..bd37b50 100644
--- a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
+++ b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
@@ -325,7 +325,7 @@ def pimpl_my_file(
         raise Exception(f"C++ file {cpp_filename} does not exist")
 
     # Read code from file
-    with open(cpp_filename, "r") as f:
+    with open(cpp_filename, "r", encoding="utf-8") as f:
         code = f.read()
 
     pimpl_result = pimpl_my_code(code, pimpl_options, srcmlcpp_options)
@@ -427,9 +427,9 @@ def create_pimpl_example_files():
     temp_dir = tempfile.mkdtemp()
     cpp_filename = temp_dir + "/my_class.cpp"
     header_filename = temp_dir + "/my_class.h"
-    with open(cpp_filename, "w") as f:
+    with open(cpp_filename, "w", encoding="utf-8") as f:
         f.write(_PIMPL_DEMO_CPP)
-    with open(header_filename, "w") as f:
+    with open(header_filename, "w", encoding="utf-8") as f:
         f.write(_PIMPL_DEMO_HEADER)
     return cpp_filename, header_filename
 
-- 
2.43.0


From 59e19963470d7a91a29aba7a31f117ffb05815fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 18/62] fix: amalgamated headers lost the bytes which are not
 valid utf-8, and files were left open

---
 src/codemanip/amalgamated_header.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index 528bb22..8e6c0be 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -2,7 +2,6 @@
 from __future__ import annotations
 import os
 from dataclasses import dataclass
-from sys import version_info
 
 
 @dataclass
@@ -57,29 +56,23 @@ def write_amalgamate_header_file(options: AmalgamationOptions) -> None:
 
 def _fread_lines(filename: str) -> list[str]:
     """
-    Python 2 & 3 agnostic fopen + readlines
+    Reads the lines of a file (bytes which are not valid utf-8 are preserved)
     """
-    if version_info[0] >= 3:
-        f = open(filename, encoding="utf-8", errors="ignore")
-    else:
-        f = open(filename)
-    return f.readlines()
+    with open(filename, encoding="utf-8", errors="surrogateescape") as f:
+        return f.readlines()
 
 
 def _fread_content(filename: str) -> str:
     """
-    Python 2 & 3 agnostic fopen + readlines
+    Reads the content of a file (bytes which are not valid utf-8 are preserved)
     """
-    if version_info[0] >= 3:
-        f = open(filename, encoding="utf-8", errors="ignore")
-    else:
-        f = open(filename)
-    return f.read()
+    with open(filename, encoding="utf-8", errors="surrogateescape") as f:
+        return f.read()
 
 
 def _fwrite_content(filename: str, content: str) -> None:
     """
-    Python 2 & 3 agnostic fopen + write
+    Writes the content of a file (bytes which are not valid utf-8 are preserved)
     This function will not overwrite the file (and thus not update its modification date)
     if the new content is unchanged
     """
@@ -88,12 +81,8 @@ def _fwrite_content(filename: str, content: str) -> None:
         if old_content == content:
             return
 
-    if version_info[0] >= 3:
-        f = open(filename, "w", encoding="utf-8", errors="ignore")
-    else:
-        f = open(filename, "w")
-    f.write(content)
-    f.close()
+    with open(filename, "w", encoding="utf-8", errors="surrogateescape") as f:
+        f.write(content)
 
 
 def _is_local_include_line(options: AmalgamationOptions, code_line: str) -> bool:
-- 
2.43.0


From 5df7ade287d05972e090024170da6f0508567158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 19/62] fix: amalgamation inlined twice a header reached by two
 paths, and dropped comments mentioning #pragma once

---
 src/codemanip/amalgamated_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codemanip/amalgamated_header.py b/src/codemanip/amalgamated_header.py
index 8e6c0be..3ab3c70 100644
--- a/src/codemanip/amalgamated_header.py
+++ b/src/codemanip/amalgamated_header.py
@@ -176,6 +176,9 @@ def _amalgamate_one_file(
     if not os.path.isfile(included_filename_full_path):
         raise FileNotFoundError(included_filename)
 
+    # A given file may be reached by different paths (e.g. "a.h" and "sub/../a.h")
+    included_filename_full_path = os.path.realpath(included_filename_full_path)
+
     if included_filename_full_path in already_included_local_files:
         return ""
 
@@ -217,7 +220,7 @@ def _amalgamate_one_file(
                 parsed_result = parsed_result + include_addition
                 was_file_interrupted_by_include = True
         else:
-            if "#pragma once" not in code_line:
+            if not code_line.strip().startswith("#pragma once"):
                 parsed_result = parsed_result + code_line
 
     is_code_composed_of_only_blank_lines = True
-- 
2.43.0


From e2dd2d0cb5f082d5bf3d751e73e086b374689ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 20/62] fix: specializing a template wrote the name of its
 parameter in the specialization given by the caller

---
 src/srcmlcpp/cpp_types/classes/cpp_struct.py        |  2 +-
 .../cpp_types/functions/cpp_function_decl.py        |  2 +-
 .../cpp_types/template/cpp_i_template_host.py       | 13 +++++++++++--
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index bd8f04b..da41495 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -345,7 +345,7 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
         Will return None if the application of the template changes nothing
         """
         new_class = copy.deepcopy(self)
-        new_class._store_template_specs(template_specs)
+        template_specs = new_class._store_template_specs(template_specs)
 
         was_changed = False
 
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 674f0eb..5b717e1 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -133,7 +133,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         Returns None if the type(s) provided by template_specs is not used by this function.
         """
         new_function = copy.deepcopy(self)
-        new_function._store_template_specs(template_specs)
+        template_specs = new_function._store_template_specs(template_specs)
 
         was_changed = False
 
diff --git a/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py b/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py
index c9dfc04..e9b3373 100644
--- a/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py
+++ b/src/srcmlcpp/cpp_types/template/cpp_i_template_host.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 from srcmlcpp.cpp_types.base import CppElementComments
 from srcmlcpp.cpp_types.decls_types.cpp_type import CppType
 from srcmlcpp.cpp_types.template.cpp_template import CppTemplate
@@ -54,8 +56,14 @@ class CppITemplateHost:
         else:
             return ""
 
-    def _store_template_specs(self, template_specs: CppTemplateSpecialization) -> None:
-        for template_spec in template_specs.specializations:
+    def _store_template_specs(self, template_specs: CppTemplateSpecialization) -> CppTemplateSpecialization:
+        """Stores the specializations, and returns them with the name of the template parameters they apply to
+        (template_specs is left unchanged)
+        """
+        named_specs = CppTemplateSpecialization.from_specializations(
+            [copy.copy(template_spec) for template_spec in template_specs.specializations]
+        )
+        for template_spec in named_specs.specializations:
             if len(template_spec.template_name) == 0:
                 assert self.is_template()
                 nb_remaining_template_to_instantiate = len(self.template.parameter_list.parameters) - len(
@@ -65,6 +73,7 @@ class CppITemplateHost:
                 idx_template = len(self.specialized_template_params)
                 template_spec.template_name = self.template.parameter_list.parameters[idx_template].template_name
                 self.specialized_template_params.append(template_spec.cpp_type)
+        return named_specs
 
     def str_template(self) -> str:
         from srcmlcpp.cpp_types.classes.cpp_struct import CppStruct
-- 
2.43.0


From 6b8d83fd703d4bd931e52cf9b7ef0d5e83d9e3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:57 +0000
Subject: [PATCH 21/62] fix: when a type had two API prefixes, the second one
 was taken for a part of the type

---
 src/srcmlcpp/internal/cpp_types_parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index ce808e3..10d0381 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -124,13 +124,13 @@ def parse_type(
             if previous_decl is None:
                 raise SrcmlcppExceptionDetailed(result, "Can't find type name")
             assert previous_decl is not None
-            result.typenames = previous_decl.cpp_type.typenames
+            result.typenames = list(previous_decl.cpp_type.typenames)
 
         if len(result.typenames) == 0 and "..." not in result.modifiers and "auto" not in result.specifiers:
             raise SrcmlcppExceptionDetailed(result, "len(result.names) == 0!")
 
     # process api names
-    for name in result.typenames:
+    for name in list(result.typenames):
         is_api_name = False
         for api_prefix in options.functions_api_prefixes_list():
             if name.startswith(api_prefix):
-- 
2.43.0


From 8ffed92324aea58b5f02109d8c3bf9a841d4c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 22/62] fix: pimpl_my_file wrote a message on stdout

---
 src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
index bd37b50..388b2b7 100644
--- a/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
+++ b/src/srcmlcpp_tools/pimpl_my_class/pimpl_my_class.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import logging
 from dataclasses import dataclass
 from typing import List, Optional
 from xml.etree import ElementTree as ET  # noqa
@@ -330,7 +331,7 @@ def pimpl_my_file(
 
     pimpl_result = pimpl_my_code(code, pimpl_options, srcmlcpp_options)
     if pimpl_result is None:
-        print("No PImpl class found!")
+        logging.warning("No PImpl class found!")
     else:
         code_utils.write_generated_code_between_markers(
             cpp_filename,
-- 
2.43.0


From b78d7e6507fed19cb5b2d90ba456a446ea2762be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 23/62] fix: validate_bindings_compilation left its scratch
 directory behind when it could not create the build directory

---
 .../validate_bindings_compilation.py                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
index bf87fb7..8acec09 100644
--- a/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
+++ b/src/litgen/validate_bindings_compilation/validate_bindings_compilation.py
@@ -161,9 +161,9 @@ add_custom_command(TARGET {python_native_module_name}
                 shutil.rmtree(work_dir)
             os.mkdir(work_dir)
     build_dir = os.path.join(work_dir, "build")
-    os.makedirs(build_dir, exist_ok=True)
 
     try:
+        os.makedirs(build_dir, exist_ok=True)
         code_cpp_path = os.path.join(work_dir, "code.cpp")
         cmake_lists_path = os.path.join(work_dir, "CMakeLists.txt")
 
-- 
2.43.0


From bee1903506bd2062e1cddfed2f1187e0889e8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 24/62] fix: built-in replacements (namespaces, number macros,
 API prefixes, static/constexpr, std::, py::/nb::) altered identifiers which
 merely contain them, in an order depending on string hashes

---
 .../internal/adapted_types/adapted_decl.py    |  4 +--
 .../adapted_types/adapted_function.py         |  5 +--
 src/litgen/internal/cpp_to_python.py          | 35 ++++++++-----------
 src/litgen/internal/template_options.py       |  4 ++-
 .../cpp_types/functions/cpp_function_decl.py  |  3 +-
 5 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index 3b7461f..ea230a0 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from dataclasses import dataclass
 from typing import cast
 
@@ -182,8 +183,7 @@ class AdaptedGlobalDecl(AdaptedDecl):
         decl_name_cpp = self.decl_name_cpp()
         decl_value_cpp = self.decl_value_cpp()
         decl_type_cpp = self.cpp_element().cpp_type.str_code()
-        decl_type_cpp = decl_type_cpp.replace("static ", "")
-        decl_type_cpp = decl_type_cpp.replace("constexpr ", "")
+        decl_type_cpp = re.sub(r"\b(static|constexpr) ", "", decl_type_cpp)
 
         parent_cpp_module_var_name = cpp_to_python.cpp_scope_to_pybind_var_name(self.options, self.cpp_element())
         line = f'{parent_cpp_module_var_name}.attr("{decl_name_cpp}") = ({decl_type_cpp}) {decl_value_cpp};'
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 2aa9a90..32c313c 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from dataclasses import dataclass
 from typing import cast
 
@@ -975,9 +976,9 @@ class AdaptedFunction(AdaptedElement):
         if s is None:
             return None
         if self.options.bind_library == BindLibraryType.nanobind:
-            s = s.replace("py::", "nb::")
+            s = re.sub(r"\bpy::", "nb::", s)
         else:
-            s = s.replace("nb::", "py::")
+            s = re.sub(r"\bnb::", "py::", s)
         return s
 
     def _pydef_fill_keep_alive_from_function_comment(self) -> str | None:
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 5dd88aa..f46301f 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import keyword
+import re
 from dataclasses import dataclass  # noqa
 from typing import Optional
 
@@ -87,8 +88,6 @@ def _split_cpp_type_template_args(s: str) -> list[str]:
 
 def _perform_cpp_type_replacements_recursively(cpp_type_str: str, type_replacements: RegexReplacementList) -> str:
     # Preprocessing: Remove 'const', '&', and '*' tokens
-    import re
-
     if "<" not in cpp_type_str:
         return type_replacements.apply(cpp_type_str)
 
@@ -131,8 +130,6 @@ def _strip_callable_param_names(python_type: str) -> str:
     A trailing bare identifier (no dots, no brackets) after a type token
     is unambiguously a leftover C++ parameter name.
     """
-    import re
-
     def _strip_one_param(param: str) -> str:
         param = param.strip()
         if not param:
@@ -161,16 +158,14 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
         r = specialized_type_python_name
     else:
         r = cpp_type_str
-    r = r.replace("static ", "")
-    r = r.replace("constexpr ", "")
+    r = re.sub(r"\bstatic ", "", r)
+    r = re.sub(r"\bconstexpr ", "", r)
 
     r = _perform_cpp_type_replacements_recursively(r, options.type_replacements)
 
     r = r.replace("::", ".")
 
     def normalize_whitespace(s: str) -> str:
-        import re
-
         return re.sub(r"\s+", " ", s).strip()
 
     r = normalize_whitespace(r)
@@ -179,12 +174,12 @@ def type_to_python(lg_context: LitgenContext, cpp_type_str: str) -> str:
     r = r.replace("Optional[" + " ", "Optional[")
 
     # Translate known namespaces
-    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
+    for cpp_namespace_name in sorted(lg_context.unqualified_stub_namespaces()):
         python_namespace_name = namespace_name_to_python(options, cpp_namespace_name)
         if python_namespace_name != cpp_namespace_name:
-            r = r.replace(cpp_namespace_name + ".", python_namespace_name + ".")
+            r = re.sub(r"\b" + re.escape(cpp_namespace_name) + r"\.", python_namespace_name + ".", r)
     for cpp_namespace_name in options.namespaces_root:
-        r = r.replace(cpp_namespace_name + ".", "")
+        r = re.sub(r"\b" + re.escape(cpp_namespace_name) + r"\.", "", r)
 
     # Strip C++ parameter names that leaked into Callable type hints.
     # E.g. `Callable[[Decorator decorator], None]` -> `Callable[[Decorator], None]`
@@ -256,7 +251,7 @@ def var_value_to_python(
     r = options.type_replacements.apply(r)
     r = options.value_replacements.apply(r)
     for number_macro, value in lg_context.options.srcmlcpp_options.named_number_macros.items():
-        r = r.replace(number_macro, str(value))
+        r = code_utils.replace_identifier(r, number_macro, str(value))
     r = lg_context.apply_scoped_var_value_replacements(r, cpp_scope)
 
     # If this value is a std::initializer_list, try to translate it
@@ -268,12 +263,12 @@ def var_value_to_python(
             r = f"initialized with {inner}"
 
     # Translate known namespaces
-    for cpp_namespace_name in lg_context.unqualified_stub_namespaces():
+    for cpp_namespace_name in sorted(lg_context.unqualified_stub_namespaces()):
         python_namespace_name = namespace_name_to_python(options, cpp_namespace_name)
         if python_namespace_name != cpp_namespace_name:
-            r = r.replace(cpp_namespace_name + ".", python_namespace_name + ".")
+            r = re.sub(r"\b" + re.escape(cpp_namespace_name) + r"\.", python_namespace_name + ".", r)
     for cpp_namespace_name in options.namespaces_root:
-        r = r.replace(cpp_namespace_name + ".", "")
+        r = re.sub(r"\b" + re.escape(cpp_namespace_name) + r"\.", "", r)
 
     # If this default value uses a bound template type, try to translate it
     specialized_type_python_default_value = options.class_template_options.specialized_type_python_default_value(
@@ -298,8 +293,6 @@ def qualify_sibling_in_scope(
 
     Applies to both namespace proxies and classes with inner classes/enums.
     """
-    import re
-
     for scope_part in cpp_scope.scope_parts:
         cpp_name = scope_part.scope_name
 
@@ -314,7 +307,7 @@ def qualify_sibling_in_scope(
         names = scope_entry.member_names
 
         # Sort by length (longest first) to avoid partial replacements
-        for name in sorted(names, key=len, reverse=True):
+        for name in sorted(names, key=lambda name: (-len(name), name)):
             # Match `name` as a standalone word, not already preceded by a dot
             # (which would mean it's already qualified)
             pattern = r"(?<![.\w])" + re.escape(name) + r"\b"
@@ -508,7 +501,7 @@ def cpp_type_to_py_array_type(cpp_type: str) -> str:
     if cpp_type.endswith("*"):
         cpp_type = cpp_type[:-1].strip()
     if cpp_type.startswith("const "):
-        cpp_type = cpp_type.replace("const ", "").strip()
+        cpp_type = cpp_type[len("const ") :].strip()
     for py_type, tested_cpp_type in _PY_ARRAY_TYPE_TO_CPP_TYPE.items():
         if tested_cpp_type == cpp_type:
             return py_type
@@ -713,10 +706,10 @@ def cpp_scope_to_pybind_var_name(options: LitgenOptions, cpp_element: CppElement
             if len(cpp_element.specialized_template_params) > 0:
                 instantiated_template_params_str = [str(param) for param in cpp_element.specialized_template_params]
                 instantiated_template_params_str = [
-                    param.replace(" *", "_ptr")
+                    re.sub(r"\bstd::", "", param)
+                    .replace(" *", "_ptr")
                     .replace("*", "_ptr")
                     .replace(" ", "_")
-                    .replace("std::", "")
                     .replace("::", "_")
                     for param in instantiated_template_params_str
                 ]
diff --git a/src/litgen/internal/template_options.py b/src/litgen/internal/template_options.py
index fcc726b..8568b60 100644
--- a/src/litgen/internal/template_options.py
+++ b/src/litgen/internal/template_options.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import re
+
 import srcmlcpp
 from srcmlcpp.cpp_types import CppType
 from codemanip import code_utils
@@ -17,7 +19,7 @@ def _cpp_types_list_str_to_cpp_types(cpp_types_list_str: list[str]) -> list[CppT
 
 def _apply_template_naming(tpl_class_or_function_name: str, instantiated_cpp_type_str: str) -> str:
     instantiated_cpp_type_str = (
-        instantiated_cpp_type_str.replace("std::", "")
+        re.sub(r"\bstd::", "", instantiated_cpp_type_str)
         .replace("::", "_")
         .replace(" &&", "_uref")
         .replace("&&", "_uref")
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 5b717e1..814b233 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
 
@@ -303,7 +304,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
             return ""
         r = self.return_type.str_return_type()
         for prefix in self.options.functions_api_prefixes_list():
-            r = r.replace(prefix + " ", "")
+            r = re.sub(r"\b" + re.escape(prefix) + r" ", "", r)
         return r
 
     def is_const(self) -> bool:
-- 
2.43.0


From 5bebfd2cf1dbc4c4a753e992619afbc6260881b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 25/62] fix: namespace names were translated with the
 replacements meant for variable names, after their own ones

---
 src/litgen/internal/cpp_to_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index f46301f..05ce759 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -226,7 +226,7 @@ def namespace_name_to_python(options: LitgenOptions, name: str) -> str:
         r = add_underscore_if_python_reserved_word(name_snake_case)
     else:
         r = add_underscore_if_python_reserved_word(name_with_replacements)
-    r = options.var_names_replacements.apply(r)
+    r = options.namespace_names_replacements.apply(r)
     return r
 
 
-- 
2.43.0


From 827a37065c9ce286561bbaab317830a5b3e2cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 26/62] fix: protected methods excluded by
 member_exclude_by_name_and_class__regex were published

---
 src/litgen/internal/adapted_types/adapted_class.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 0d54982..a4b895c 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -1209,6 +1209,12 @@ class AdaptedClass(AdaptedElement):
             return
         for child in self.cpp_element().get_elements(access_type=CppAccessType.protected):
             if isinstance(child, CppFunctionDecl):
+                is_excluded_by_name_and_class = code_utils.does_match_regex_or_matcher(
+                    self.options.member_exclude_by_name_and_class__regex.get(self.cpp_element().class_name, ""),
+                    child.name(),
+                )
+                if is_excluded_by_name_and_class:
+                    continue
                 if AdaptedFunction.init_is_function_publishable(self.options, child):
                     is_overloaded = child.is_overloaded_method()
                     self.adapted_protected_methods.append(AdaptedFunction(self.lg_context, child, is_overloaded))
-- 
2.43.0


From e96b95864416bcef5f8a921d66f2eebfd266fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 27/62] fix: private base classes were listed in the stub (and
 not in the bindings)

---
 src/litgen/internal/adapted_types/adapted_class.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index a4b895c..5ad096f 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -551,7 +551,9 @@ class AdaptedClass(AdaptedElement):
                 for custom_base in custom_derived:
                     parents.append(custom_base)
             else:
-                for _access_type, base_class in self.cpp_element().base_classes():
+                for access_type, base_class in self.cpp_element().base_classes():
+                    if access_type == CppAccessType.private:
+                        continue  # private bases are not published (see also the pydef code)
                     class_python_scope = cpp_to_python.cpp_scope_to_pybind_scope_str(
                         self.options, base_class, include_self=True
                     )
-- 
2.43.0


From 17e109f776d35070c2a5699c5c5409f27f025fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 28/62] fix: a virtual base class aborted the generation with
 an AssertionError

---
 src/srcmlcpp/cpp_types/classes/cpp_struct.py | 3 ++-
 src/srcmlcpp/internal/cpp_types_parse.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/classes/cpp_struct.py b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
index da41495..33e3441 100644
--- a/src/srcmlcpp/cpp_types/classes/cpp_struct.py
+++ b/src/srcmlcpp/cpp_types/classes/cpp_struct.py
@@ -125,7 +125,8 @@ class CppStruct(CppElementAndComment, CppITemplateHost):
 
         r = []
         for cpp_super in self.super_list.super_list:
-            access_type = CppAccessType.from_name(cpp_super.specifier)
+            access_specifiers = [word for word in cpp_super.specifier.split() if word != "virtual"]
+            access_type = CppAccessType.from_name(" ".join(access_specifiers))
 
             root_cpp_unit = CppUnit.find_root_cpp_unit(self)
             base_struct = root_cpp_unit.find_struct_or_class(
diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 10d0381..645ef8c 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -660,7 +660,8 @@ def parse_super(options: SrcmlcppOptions, element: SrcmlWrapper, parent: CppElem
         if child_tag == "specifier":
             child_text = child.text()
             assert child_text is not None
-            result.specifier = child_text
+            # there may be two specifiers: an access and "virtual", in any order
+            result.specifier = (result.specifier + " " + child_text).strip()
         elif child_tag == "name":
             result.superclass_name = _parse_name(child)
         else:
-- 
2.43.0


From c3782cfd3b082366ec135c801f4155030c7ef0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:50 +0000
Subject: [PATCH 29/62] fix: code inserted between markers was indented
 cumulatively when the marker region occurs twice

---
 src/codemanip/code_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 54cf12d..2ed53a3 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -487,9 +487,9 @@ def write_generated_code_between_markers(
                 output_code = output_code + code_line + "\n"
 
                 if flag_preserve_indentation:
-                    code_to_insert = indent_code(code_to_insert, indent_str=indent_str)
-
-                output_code = output_code + code_to_insert
+                    output_code = output_code + indent_code(code_to_insert, indent_str=indent_str)
+                else:
+                    output_code = output_code + code_to_insert
 
         else:
             if not is_inside_autogen_region:
-- 
2.43.0


From 241d2774e221e906f01080a4fa26647990b8f837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 30/62] fix: translate all the declared numeric synonyms
 (signed int, ssize_t, std::size_t...) to python types

---
 src/litgen/internal/cpp_to_python.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 05ce759..63305f4 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -746,6 +746,11 @@ def standard_type_replacements() -> RegexReplacementList:
     \bunsigned \s*long long\b -> int
     \bunsigned \s*long\b -> int
 
+    \bsigned \s*int\b -> int
+    \bsigned \s*short\b -> int
+    \bsigned \s*long long\b -> int
+    \bsigned \s*long\b -> int
+
     \blong \s*long\b -> int
     \blong \s*double\b -> float
 
@@ -766,7 +771,9 @@ def standard_type_replacements() -> RegexReplacementList:
     \bdouble\b -> float
     \bfloat\b -> float
 
+    \bstd::size_t\b -> int
     \bsize_t\b -> int
+    \bssize_t\b -> int
     \bstd::function<(.*)\((.*)\)> -> Callable[[\2], \1]
     \bstd::string_view\b -> str
     \bstd::string\(\) -> ""
-- 
2.43.0


From 8e2317c894a341e63ffa98e8828f3e52dc700b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 31/62] fix: number suffix removal shall not alter identifiers
 such as kCol_3f

---
 src/litgen/internal/cpp_to_python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 63305f4..9912056 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -829,12 +829,12 @@ def standard_value_replacements() -> RegexReplacementList:
     \bLDBL_MAX\b -> sys.float_info.max
 
     ([0-9])'([0-9]) -> \1_\2
-    (?<![a-zA-Z0-9])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
+    (?<![a-zA-Z0-9_])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
     :: -> .
     """
     # Explanation of the last regexes:
     #   ([0-9])'([0-9]) -> \1_\2 # Replace 1'000 by 1_000
-    #   (?<![a-zA-Z0-9])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
+    #   (?<![a-zA-Z0-9_])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
     #      Replace C numbers like 1.5f or 1.5d by 1.5
     replaces = RegexReplacementList.from_string(replacements_str)
     return replaces
@@ -857,7 +857,7 @@ def standard_comment_replacements() -> RegexReplacementList:
     \bNULL\b -> None
     \bnullptr\b -> None
 
-    (?<![a-zA-Z0-9])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fd])(?=\W|$) -> \1
+    (?<![a-zA-Z0-9_])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fd])(?=\W|$) -> \1
     """
 
     # Note: the last regex replaces C numbers like 1.5f or 1.5d by 1.5.
-- 
2.43.0


From 2d08ece5dbbd962f976d3cf575c8731d7c0b4329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 32/62] fix: synonyms of the same C++ type share one boxed type

---
 src/litgen/internal/boxed_python_type.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/boxed_python_type.py b/src/litgen/internal/boxed_python_type.py
index 9003315..6f9ee0a 100644
--- a/src/litgen/internal/boxed_python_type.py
+++ b/src/litgen/internal/boxed_python_type.py
@@ -10,8 +10,14 @@ def _can_box_cpp_type(cpp_type: str) -> bool:
     return r
 
 
+def _canonical_cpp_type(cpp_type: str) -> str:
+    """Synonyms of the same C++ type share one boxed type"""
+    return {"string": "std::string", "std::size_t": "size_t"}.get(cpp_type, cpp_type)
+
+
 def boxed_type_name(cpp_type: str) -> str:
     assert _can_box_cpp_type(cpp_type)
+    cpp_type = _canonical_cpp_type(cpp_type)
     if cpp_type == "std::string":
         cpp_type = "string"
     boxed_name = "Boxed" + cpp_to_python.cpp_type_to_camel_case_no_space(cpp_type)
@@ -19,7 +25,7 @@ def boxed_type_name(cpp_type: str) -> str:
 
 
 def registered_boxed_type_name(context: LitgenContext, cpp_type: str) -> str:
-    context.encountered_cpp_boxed_types.add(cpp_type)
+    context.encountered_cpp_boxed_types.add(_canonical_cpp_type(cpp_type))
     return boxed_type_name(cpp_type)
 
 
-- 
2.43.0


From 11914d06f1e04711e9aefcdcf5e37c6aba18e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 33/62] fix: declared buffer types (byte, np_uint_l, np_int_l)
 are handled by the dtype tables

---
 src/litgen/internal/cpp_to_python.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 9912056..7ab92a2 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -442,6 +442,9 @@ _NANOBIND_CPP_TYPE_TO_DTYPE_CODE = {
     "int32_t": "Int",
     "uint64_t": "UInt",
     "int64_t": "Int",
+    "byte": "UInt",
+    "np_uint_l": "UInt",
+    "np_int_l": "Int",
     # Int types with unknown size
     "int": "Int",
     "signed int": "Int",
@@ -502,6 +505,8 @@ def cpp_type_to_py_array_type(cpp_type: str) -> str:
         cpp_type = cpp_type[:-1].strip()
     if cpp_type.startswith("const "):
         cpp_type = cpp_type[len("const ") :].strip()
+    if cpp_type == "byte":
+        cpp_type = "uint8_t"
     for py_type, tested_cpp_type in _PY_ARRAY_TYPE_TO_CPP_TYPE.items():
         if tested_cpp_type == cpp_type:
             return py_type
-- 
2.43.0


From 54b49e4ba750c4e690f87887fb32a98e32df2ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 34/62] fix: keep all the words of multi-word types (unsigned
 long, long double) in buffer and string list adapters

---
 .../internal/adapt_function_params/_adapt_c_buffers.py      | 6 +++---
 .../internal/adapt_function_params/_adapt_c_string_list.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 8724353..7af21dd 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -490,7 +490,7 @@ class _AdaptBuffersHelper:
 
     def _adapted_param_buffer_size(self, idx_param: int) -> str:
         param = self._param(idx_param)
-        raw_size_type = param.decl.cpp_type.typenames[0]
+        raw_size_type = " ".join(param.decl.cpp_type.typenames)
         count_variable = self._pyarray_count(idx_param)
         r = f"static_cast<{raw_size_type}>({count_variable})"
         return r
@@ -522,7 +522,7 @@ class _AdaptBuffersHelper:
         return "const " if self._is_const(idx_param) else ""
 
     def _original_raw_type(self, idx_param: int) -> str:
-        return self._param(idx_param).decl.cpp_type.typenames[0]
+        return " ".join(self._param(idx_param).decl.cpp_type.typenames)
 
     def _adapted_param_buffer_standard(self, idx_param: int) -> str:
         const_space_or_empty = "const " if self._is_const(idx_param) else ""
@@ -633,7 +633,7 @@ class _AdaptBuffersHelper:
     def _adapted_param_stride(self, idx_param: int) -> str:
         stride_param = self._param(idx_param)
         stride_adapted_name = self._stride_adapted_name(idx_param)
-        stride_param_raw_type = stride_param.decl.cpp_type.typenames[0]
+        stride_param_raw_type = " ".join(stride_param.decl.cpp_type.typenames)
         if stride_param_raw_type != "int":
             r = f"static_cast<{stride_param_raw_type}>({stride_adapted_name})"
         else:
diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
index 92f5381..f82096a 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_string_list.py
@@ -103,7 +103,7 @@ def adapt_c_string_list(adapted_function: AdaptedFunction) -> Optional[LambdaAda
             param_name = new_decl.decl_name
             vec_name = f"{param_name}_ptrs"
             next_param = old_function_params[i + 1]
-            size_type = next_param.decl.cpp_type.typenames[0]
+            size_type = " ".join(next_param.decl.cpp_type.typenames)
             size_name = next_param.decl.decl_name
 
             if size_type != "size_t" and size_type != "std::size_t":
-- 
2.43.0


From d6dd6121b8ba35c2f5a5b7c05f775acc851e2cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 35/62] fix: python default value of a brace-initialized
 multi-word type

---
 src/litgen/internal/adapted_types/adapted_decl.py     | 2 +-
 src/litgen/internal/adapted_types/adapted_function.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index ea230a0..8f180b6 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -40,7 +40,7 @@ class AdaptedDecl(AdaptedElement):
         decl_value_cpp = self.cpp_element().initial_value_code.strip()
         if decl_value_cpp.startswith("{") and decl_value_cpp.endswith("}"):
             # special case for brace init default value
-            decl_value_cpp = self.cpp_element().cpp_type.typenames[0] + "(" + decl_value_cpp[1:-1] + ")"
+            decl_value_cpp = " ".join(self.cpp_element().cpp_type.typenames) + "(" + decl_value_cpp[1:-1] + ")"
         cpp_scope = self.cpp_element().cpp_scope(include_self=False)
         decl_value_python = cpp_to_python.var_value_to_python(self.lg_context, decl_value_cpp, cpp_scope)
         return decl_value_python
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 32c313c..3b9196b 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -1308,7 +1308,7 @@ class AdaptedFunction(AdaptedElement):
             initial_value_code = param_decl.initial_value_code.strip()
             if initial_value_code.strip().startswith("{") and initial_value_code.endswith("}"):
                 # Special case for initial value with brace init
-                initial_value_code = param_decl.cpp_type.typenames[0] + "(" + initial_value_code[1:-1] + ")"
+                initial_value_code = " ".join(param_decl.cpp_type.typenames) + "(" + initial_value_code[1:-1] + ")"
             param_default_value = cpp_to_python.var_value_to_python(self.lg_context, initial_value_code, current_scope)
 
             # Qualify sibling references in type and default value (but not the parameter name)
-- 
2.43.0


From cf1dae7ff3fb108dd4ecc7e39f6e883ae2cdccbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:18 +0000
Subject: [PATCH 36/62] fix: remove integer literal suffixes (1u, 10UL) from
 python default values

---
 src/litgen/internal/cpp_to_python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 7ab92a2..fe15482 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -834,6 +834,7 @@ def standard_value_replacements() -> RegexReplacementList:
     \bLDBL_MAX\b -> sys.float_info.max
 
     ([0-9])'([0-9]) -> \1_\2
+    (?<![a-zA-Z0-9_.])(0[xX][0-9a-fA-F]+|[0-9]+)(?:[uU](?:ll?|LL?)?|(?:ll?|LL?)[uU]?)(?=\W|$) -> \1
     (?<![a-zA-Z0-9_])([+-]?[0-9]+(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?)([fFdD])(?=\W|$) -> \1
     :: -> .
     """
-- 
2.43.0


From dda2b258d17a4bc7ee756afa99104c1f09b990f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 37/62] fix: buffers are pointers to exactly the declared types
 (not 'unsigned long long *' for 'long long')

---
 .../adapt_function_params/_adapt_c_buffers.py | 27 ++++---------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 7af21dd..7036098 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -13,34 +13,17 @@ from litgen.internal.adapted_types import AdaptedFunction
 from litgen.options import LitgenOptions, BindLibraryType
 
 
-def _possible_buffer_pointer_types(options: LitgenOptions) -> list[str]:
-    types = [t + "*" for t in options._fn_params_buffer_types_list()] + [
-        t + " *" for t in options._fn_params_buffer_types_list()
-    ]
-    return types
-
-
-def _possible_buffer_template_pointer_types(options: LitgenOptions) -> list[str]:
-    types = [t + "*" for t in options._fn_params_buffer_template_types_list()] + [
-        t + " *" for t in options._fn_params_buffer_template_types_list()
-    ]
-    return types
+def _is_simple_pointer_to(param: CppParameter, pointed_types: list[str]) -> bool:
+    cpp_type = param.decl.cpp_type
+    return cpp_type.modifiers == ["*"] and " ".join(cpp_type.typenames) in pointed_types
 
 
 def _looks_like_param_buffer_standard(options: LitgenOptions, param: CppParameter) -> bool:
-    for possible_buffer_type in _possible_buffer_pointer_types(options):
-        param_type_code = param.full_type()
-        if code_utils.contains_pointer_type(param_type_code, possible_buffer_type):
-            return True
-    return False
+    return _is_simple_pointer_to(param, options._fn_params_buffer_types_list())
 
 
 def _looks_like_param_template_buffer(options: LitgenOptions, param: CppParameter) -> bool:
-    for possible_buffer_type in _possible_buffer_template_pointer_types(options):
-        param_type_code = param.full_type()
-        if code_utils.contains_pointer_type(param_type_code, possible_buffer_type):
-            return True
-    return False
+    return _is_simple_pointer_to(param, options._fn_params_buffer_template_types_list())
 
 
 def _name_looks_like_buffer_standard_or_template(options: LitgenOptions, param: CppParameter) -> bool:
-- 
2.43.0


From 550908197cbbb98fb808ca5ec5c1f704455326fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 38/62] fix: scoped enum values are replaced as whole qualified
 names (Color_Red is not Color::Red)

---
 src/litgen/internal/adapted_types/adapted_enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index beabbeb..f1cb7f6 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -115,7 +115,7 @@ class AdaptedEnumDecl(AdaptedDecl):
 
         by_what = f"{enum_name_python}.{enum_member_name_python}"
         if is_enum_class:
-            replace_what = rf"\b{enum_name_cpp}.{enum_member_name_cpp}\b|{enum_name_cpp}.{enum_member_name_cpp}\b"
+            replace_what = rf"\b{enum_name_cpp}\.{enum_member_name_cpp}\b"
             replacement = RegexReplacement(replace_what, by_what)
             replacement_list.add_first_regex_replacement(replacement)
         else:
-- 
2.43.0


From 0f331c5765c72d37637269beb10e842bb2688faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 39/62] fix: a function whose name merely begins with
 'operator' is not an operator

---
 src/srcmlcpp/cpp_types/functions/cpp_function_decl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 814b233..18bfdf8 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -439,7 +439,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         return is_copy_ctor
 
     def is_operator(self) -> bool:
-        return self.function_name.startswith("operator")
+        return re.match(r"operator\b", self.function_name) is not None
 
     def operator_name(self) -> str:
         assert self.is_operator()
-- 
2.43.0


From 0bca152c56fc8e5ad7e3dc5bb1adb03905f69092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:37 +0000
Subject: [PATCH 40/62] fix: types whose name merely begins with an API prefix
 are left intact

---
 src/srcmlcpp/cpp_types/decls_types/cpp_type.py | 2 +-
 src/srcmlcpp/internal/cpp_types_parse.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
index 6053bef..1c75ed1 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_type.py
@@ -94,7 +94,7 @@ class CppType(CppElementAndComment):
 
         if remove_api_prefix:
             for api_prefix in self.options.functions_api_prefixes_list():
-                if return_type_str.startswith(api_prefix):
+                if return_type_str.startswith(api_prefix + " "):
                     return_type_str = return_type_str[len(api_prefix) :].lstrip()
 
         return return_type_str
diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 645ef8c..fa1addf 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -133,7 +133,7 @@ def parse_type(
     for name in list(result.typenames):
         is_api_name = False
         for api_prefix in options.functions_api_prefixes_list():
-            if name.startswith(api_prefix):
+            if name == api_prefix:
                 is_api_name = True
         if is_api_name:
             result.typenames.remove(name)
-- 
2.43.0


From bb5f101a34bb8112ab7e7253b769cad6603b5e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 41/62] fix: base classes are looked up like in C++ (innermost
 scope first, whole scope names)

---
 src/srcmlcpp/cpp_types/blocks/cpp_block.py | 34 ++++++----------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/blocks/cpp_block.py b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
index 1efef0c..01ecc1a 100644
--- a/src/srcmlcpp/cpp_types/blocks/cpp_block.py
+++ b/src/srcmlcpp/cpp_types/blocks/cpp_block.py
@@ -106,34 +106,18 @@ class CppBlock(CppElementAndComment):
         """
         if current_scope is None:
             current_scope = self.cpp_scope()
-        if "::" in class_name_with_scope:
-            items = class_name_with_scope.split("::")
-            class_name = items[-1]
-            class_scope_str = "::".join(items[:-1])
+
+        if class_name_with_scope.startswith("::"):
+            searched_names = [class_name_with_scope[2:]]
         else:
-            class_name = class_name_with_scope
-            class_scope_str = ""
+            # Same lookup as C++: from the innermost scope to the outermost
+            searched_names = [scope.qualified_name(class_name_with_scope) for scope in current_scope.scope_hierarchy_list]
 
         all_structs = self.all_structs_recursive()
-        for struct in all_structs:
-            current_scope_str = current_scope.str_cpp
-
-            searched_scopes_strs = []
-            searched_scopes_strs.append(class_scope_str)
-            if len(current_scope_str) > 0:
-                searched_scopes_strs.append(current_scope_str + "::" + class_scope_str)
-
-            struct_scope_str = struct.cpp_scope_str(include_self=False)
-
-            is_struct_visible_from_scope = False
-            for searched_scope_str in searched_scopes_strs:
-                if searched_scope_str.startswith(struct_scope_str):
-                    is_struct_visible_from_scope = True
-
-            is_name_equal = struct.class_name == class_name
-
-            if is_name_equal and is_struct_visible_from_scope:
-                return struct
+        for searched_name in searched_names:
+            for struct in all_structs:
+                if struct.cpp_scope(include_self=False).qualified_name(struct.class_name) == searched_name:
+                    return struct
 
         return None
 
-- 
2.43.0


From 423a685b615017c93314501ed8d92be1ca5fb09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 42/62] fix: scope processing keeps string prefixes, escaped
 quotes and char literals in place

---
 .../cpp_types/scope/cpp_scope_process.py      | 137 +++++++-----------
 1 file changed, 51 insertions(+), 86 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
index ddc9dbd..0253265 100644
--- a/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
+++ b/src/srcmlcpp/cpp_types/scope/cpp_scope_process.py
@@ -1,5 +1,7 @@
 # Heart of the scoping mechanism. Those functions depend on no other module,
 # so that a possible improvement via Cython can be done.
+from __future__ import annotations
+from typing import Callable
 
 
 def current_token_matches_scoped_identifier(
@@ -30,63 +32,70 @@ def current_token_matches_scoped_identifier(
     return False
 
 
-def apply_scoped_identifiers_to_code(
-    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
-) -> str:
+def _skip_string_or_char_literal(cpp_code: str, start: int) -> int:
+    """Returns the position following the string or character literal that starts at `start` (handles escaped quotes)"""
+    quote = cpp_code[start]
+    i = start + 1
+    while i < len(cpp_code) and cpp_code[i] != quote:
+        i += 2 if cpp_code[i] == "\\" else 1
+    return min(i + 1, len(cpp_code))
+
+
+def _transform_tokens(cpp_code: str, transform_token: Callable[[str], str]) -> str:
+    """Applies transform_token to the (possibly qualified) identifiers, outside of strings, characters and comments"""
     new_code = ""
     current_token = ""
     i = 0
-    in_string = False
-    in_comment = False
 
     while i < len(cpp_code):
         char = cpp_code[i]
-
-        # Check for string literal start/end
-        if char == '"' and not in_comment:
-            in_string = not in_string
-
-        # Check for comment start
-        if char == "/" and i + 1 < len(cpp_code) and cpp_code[i + 1] == "/" and not in_string:
-            in_comment = True
-
-        # Process characters outside strings and comments
-        if not in_string and not in_comment:
-            if char.isalnum() or char == "_":
-                current_token += char
-            elif char == ":" and i + 1 < len(cpp_code) and cpp_code[i + 1] == ":":
-                current_token += "::"
-                i += 1
-            else:
-                if current_token:
-                    for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
-                        if current_token_matches_scoped_identifier(
-                            scoped_identifier_qualified_name, current_scope_hierarchy, current_token
-                        ):
-                            current_token = scoped_identifier_qualified_name
-                    new_code += current_token
-                    current_token = ""
-                new_code += char
+        is_digit_separator = char == "'" and current_token[:1].isdigit()
+
+        if char.isalnum() or char == "_" or is_digit_separator:
+            current_token += char
+            i += 1
+            continue
+        if cpp_code[i : i + 2] == "::":
+            current_token += "::"
+            i += 2
+            continue
+
+        # The current token ends here: add it before what follows
+        # (the encoding prefix of a string, such as L or u8, is not an identifier)
+        is_literal = char in ('"', "'")
+        if current_token:
+            new_code += current_token if is_literal else transform_token(current_token)
+            current_token = ""
+
+        if is_literal:
+            end = _skip_string_or_char_literal(cpp_code, i)
+        elif cpp_code[i : i + 2] == "//":
+            end = cpp_code.find("\n", i)
+            end = len(cpp_code) if end < 0 else end
         else:
-            new_code += char
-
-        # Reset in_comment at the end of the line
-        if char == "\n":
-            in_comment = False
-
-        i += 1
+            end = i + 1
+        new_code += cpp_code[i:end]
+        i = end
 
     # Add the last token if it exists
     if current_token:
+        new_code += transform_token(current_token)
+
+    return new_code
+
+
+def apply_scoped_identifiers_to_code(
+    cpp_code: str, current_scope_hierarchy: list[str], scoped_identifier_qualified_names: list[str]
+) -> str:
+    def qualify(current_token: str) -> str:
         for scoped_identifier_qualified_name in scoped_identifier_qualified_names:
             if current_token_matches_scoped_identifier(
                 scoped_identifier_qualified_name, current_scope_hierarchy, current_token
             ):
                 current_token = scoped_identifier_qualified_name
+        return current_token
 
-        new_code += current_token
-
-    return new_code
+    return _transform_tokens(cpp_code, qualify)
 
 
 def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) -> str:
@@ -122,48 +131,4 @@ def _make_terse_scoped_identifier(scoped_identifier: str, current_scope: str) ->
 
 
 def make_terse_code(cpp_code: str, current_scope_prefix: str) -> str:
-    new_code = ""
-    current_token = ""
-    i = 0
-    in_string = False
-    in_comment = False
-
-    while i < len(cpp_code):
-        char = cpp_code[i]
-
-        # Check for string literal start/end
-        if char == '"' and not in_comment:
-            in_string = not in_string
-
-        # Check for comment start
-        if char == "/" and i + 1 < len(cpp_code) and cpp_code[i + 1] == "/" and not in_string:
-            in_comment = True
-
-        # Process characters outside strings and comments
-        if not in_string and not in_comment:
-            if char.isalnum() or char == "_":
-                current_token += char
-            elif char == ":" and i + 1 < len(cpp_code) and cpp_code[i + 1] == ":":
-                current_token += "::"
-                i += 1
-            else:
-                if current_token:
-                    current_token = _make_terse_scoped_identifier(current_token, current_scope_prefix)
-                    new_code += current_token
-                    current_token = ""
-                new_code += char
-        else:
-            new_code += char
-
-        # Reset in_comment at the end of the line
-        if char == "\n":
-            in_comment = False
-
-        i += 1
-
-    # Add the last token if it exists
-    if current_token:
-        current_token = _make_terse_scoped_identifier(current_token, current_scope_prefix)
-        new_code += current_token
-
-    return new_code
+    return _transform_tokens(cpp_code, lambda token: _make_terse_scoped_identifier(token, current_scope_prefix))
-- 
2.43.0


From 85a647d2bd85092e11c4de592ce0a2c31b9efe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 43/62] fix: a macro whose name merely begins with the class
 name is not a constructor

---
 src/srcmlcpp/internal/fix_brace_init_default_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp/internal/fix_brace_init_default_value.py b/src/srcmlcpp/internal/fix_brace_init_default_value.py
index 873eeed..80c7a57 100644
--- a/src/srcmlcpp/internal/fix_brace_init_default_value.py
+++ b/src/srcmlcpp/internal/fix_brace_init_default_value.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 
 from typing import Optional
 import copy
+import re
 import srcmlcpp
 from srcmlcpp.cpp_types import (
     CppFunctionDecl,
@@ -173,7 +174,7 @@ def change_macro_to_constructor(options: srcmlcpp.SrcmlcppOptions, macro: CppUnp
     if not isinstance(parent_struct, CppStruct):
         return None
     class_name = parent_struct.class_name
-    if not macro_code.strip().startswith(class_name):
+    if re.match(re.escape(class_name) + r"\b", macro_code.strip()) is None:
         return None
 
     fixed_macro_code = "void blah" + macro_code[len(class_name) :] + ";"
-- 
2.43.0


From 5499ba6886457c9d5c11dd9f311ba3b83bf99c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 44/62] fix: a default value whose name merely begins with
 'sizeof' is not a stride

---
 src/litgen/internal/adapt_function_params/_adapt_c_buffers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
index 7036098..8d57f54 100644
--- a/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
+++ b/src/litgen/internal/adapt_function_params/_adapt_c_buffers.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import copy
+import re
 from typing import Optional
 
 from codemanip import code_utils
@@ -157,7 +158,7 @@ class _AdaptBuffersHelper:
         """For `stride` parameters"""
         param = self._param(idx_param)
         param_default_value = param.default_value()
-        return param_default_value.strip().startswith("sizeof")
+        return re.match(r"sizeof\b", param_default_value.strip()) is not None
 
     def _template_buffer_params(self) -> list[CppParameter]:
         params = self.function_infos.parameter_list.parameters
-- 
2.43.0


From 6edb1be1fdf3aff23b3a80acca1f52616b153d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 45/62] fix: '.' is literal in the built-in value replacements
 (std_string() is not std::string())

---
 src/litgen/internal/cpp_to_python.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index fe15482..94750f3 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -821,10 +821,10 @@ def standard_value_replacements() -> RegexReplacementList:
     \bNULL\b -> None
     \bnullptr\b -> None
     \bstd::nullopt\b -> None
-    \bstd.nullopt\b -> None
+    \bstd\.nullopt\b -> None
 
     \bstd::string\(\) -> ""
-    \bstd.string\(\) -> ""
+    \bstd\.string\(\) -> ""
 
     \bFLT_MIN\b -> sys.float_info.min
     \bFLT_MAX\b -> sys.float_info.max
@@ -878,7 +878,7 @@ def opencv_replacements() -> RegexReplacementList:
     replacements_str = r"""
     \bcv::Size\(\) -> (0, 0)
     \bcv::Point\(-1, -1\) -> (-1, -1)
-    \bcv::Point2d\(-1., -1.\) -> (-1., -1.)
+    \bcv::Point2d\(-1\., -1\.\) -> (-1., -1.)
     \bcv::Size\b -> Size
     \bcv::Matx33d::eye\(\) -> np.eye(3)
     \bcv::Matx33d\b -> Matx33d
-- 
2.43.0


From 39a02ec8cdfccdd28473a3e2fb1107552730bb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 46/62] fix: the missing marker message uses '#' for .pyi files

---
 src/codemanip/code_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 2ed53a3..9e7dd12 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -509,7 +509,7 @@ def write_generated_code_between_markers(
         output_code = output_code[:-1]
 
     if not was_replacement_performed:
-        is_python_file = inout_filename.endswith("py")
+        is_python_file = inout_filename.endswith((".py", ".pyi"))
         __ = "#" if is_python_file else "//"
         msg = unindent_code(f"""
             Missing marker in {inout_filename} (while calling write_generated_code_between_markers())
-- 
2.43.0


From 29db97cbde6d0e2ef0cb97021699f9d614ab0ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 47/62] fix: inserted values (comments, default values...) are
 never searched for template slots

process_code_template / replace_in_string filled the slots one after the other, so that a comment which contained
{location}, {maybe_comma}, {maybe_return_value_policy}... was altered, or made its line disappear.
---
 src/codemanip/code_utils.py                   | 29 +++++++++++--------
 .../apply_all_adapters.py                     |  9 +-----
 .../adapted_types/adapted_function.py         | 27 ++++++++---------
 3 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 9e7dd12..30f8db4 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -821,11 +821,14 @@ def merge_dicts(dict1: dict[str, Any], dict2: dict[str, Any]) -> dict[str, Any]:
 
 
 def replace_in_string(input_string: str, replacements: dict[str, str]) -> str:
-    r = input_string
-    for search, replace in replacements.items():
-        full_search = "{" + search + "}"
-        r = r.replace(full_search, replace)
-    return r
+    """Replace all occurrences of {key} by replacements[key].
+
+    This is done in a single pass over input_string: the replacement texts (which may contain user comments,
+    default values, etc.) are inserted verbatim, i.e. they are never searched for other {keys}."""
+    if len(replacements) == 0:
+        return input_string
+    pattern = "|".join(re.escape("{" + search + "}") for search in replacements)
+    return re.sub(pattern, lambda match: replacements[match.group(0)[1:-1]], input_string)
 
 
 def process_code_template(
@@ -837,11 +840,12 @@ def process_code_template(
     if replacements_with_line_removal_if_not_found is None:
         replacements_with_line_removal_if_not_found = {}
 
-    r = input_string
-    r = replace_in_string(r, replacements)
-    r = replace_in_string_remove_line_if_none(r, replacements_with_line_removal_if_not_found)
+    all_replacements: dict[str, Optional[str]] = {**replacements_with_line_removal_if_not_found, **replacements}
+    if flag_replace_maybe_comma:
+        all_replacements["maybe_comma"] = ", "
+
+    r = replace_in_string_remove_line_if_none(input_string, all_replacements)
     if flag_replace_maybe_comma:
-        r = r.replace("{maybe_comma}", ", ")
         if r.endswith(", "):
             r = r[:-2]
         if r.endswith(", );"):
@@ -854,6 +858,8 @@ def process_code_template(
 def replace_in_string_remove_line_if_none(input_string: str, replacements: dict[str, Optional[str]]) -> str:
     r = input_string
 
+    # First, remove the lines of input_string whose replacement is None
+    filled_replacements: dict[str, str] = {}
     for search, replace in replacements.items():
         if replace is None:
             lines = r.split("\n")
@@ -863,10 +869,9 @@ def replace_in_string_remove_line_if_none(input_string: str, replacements: dict[
                     new_lines.append(line)
             r = "\n".join(new_lines)
         else:
-            full_search = "{" + search + "}"
-            r = r.replace(full_search, replace)
+            filled_replacements[search] = replace
 
-    return r
+    return replace_in_string(r, filled_replacements)
 
 
 def replace_maybe_comma(code: str, nb_skipped_final_lines: int = 0) -> str:
diff --git a/src/litgen/internal/adapt_function_params/apply_all_adapters.py b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
index 934e6aa..80580a9 100644
--- a/src/litgen/internal/adapt_function_params/apply_all_adapters.py
+++ b/src/litgen/internal/adapt_function_params/apply_all_adapters.py
@@ -208,11 +208,6 @@ def _make_adapted_lambda_code_end(adapted_function: AdaptedFunction, lambda_adap
         {
             "maybe_return_r": maybe_return_r,
             "maybe_lambda_output_code": maybe_lambda_output_code,
-        },
-    )
-    lambda_code = code_utils.replace_in_string(
-        lambda_code,
-        {
             "_i_": _i_,
             "auto_r_equal_or_void": auto_r_equal_or_void,
             "function_or_lambda_to_call": function_or_lambda_to_call,
@@ -286,11 +281,9 @@ def _make_adapted_lambda_code(adapted_function: AdaptedFunction, lambda_adapter:
     #
     lambda_code = lambda_template_code
     lambda_code = code_utils.replace_in_string_remove_line_if_none(
-        lambda_code, {"maybe_lambda_input_code": maybe_lambda_input_code}
-    )
-    lambda_code = code_utils.replace_in_string(
         lambda_code,
         {
+            "maybe_lambda_input_code": maybe_lambda_input_code,
             "_i_": _i_,
             "lambda_name": lambda_name,
             "lambda_captures": lambda_captures,
diff --git a/src/litgen/internal/adapted_types/adapted_function.py b/src/litgen/internal/adapted_types/adapted_function.py
index 3b9196b..0196458 100644
--- a/src/litgen/internal/adapted_types/adapted_function.py
+++ b/src/litgen/internal/adapted_types/adapted_function.py
@@ -802,30 +802,27 @@ class AdaptedFunction(AdaptedElement):
         else:
             maybe_docstring = None
 
-        # Apply simple replacements
-        code = template_code
-        code = code_utils.replace_in_string(
+        # Remove the lines that shall not be present
+        lines_replacements = {"maybe_docstring": maybe_docstring, "maybe_pyarg": maybe_pyarg}
+        code = code_utils.replace_in_string_remove_line_if_none(
+            template_code, {key: None for key, value in lines_replacements.items() if value is None}
+        )
+
+        # Process maybe_comma
+        code = code_utils.replace_maybe_comma(code)
+
+        # Apply replacements
+        code = code_utils.replace_in_string_remove_line_if_none(
             code,
             {
                 "_i_": _i_,
                 "py": "py" if self.options.bind_library == BindLibraryType.pybind11 else "nb",
                 "location": location,
                 "arg_types": arg_types,
+                **lines_replacements,
             },
         )
 
-        # Apply replacements with possible line removal
-        code = code_utils.replace_in_string_remove_line_if_none(
-            code,
-            {
-                "maybe_docstring": maybe_docstring,
-                "maybe_pyarg": maybe_pyarg,
-            },
-        )
-
-        # Process maybe_comma
-        code = code_utils.replace_maybe_comma(code)
-
         code = code_utils.add_item_before_cpp_comment(code, ")")
 
         return code
-- 
2.43.0


From 2176e7c8c2a317025d5d07325ca60d8b157df1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:47 +0000
Subject: [PATCH 48/62] fix: custom bindings of a submodule were emitted each
 time its namespace is opened

---
 .../adapted_types/adapted_namespace.py        | 28 ++++++++++++-------
 src/litgen/internal/context/litgen_context.py |  6 ++++
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index 8375354..d31efbd 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -96,11 +96,15 @@ class AdaptedNamespace(AdaptedElement):
 
         if self.flag_shall_create_namespace_as_module():
             # Add user custom code
-            custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
-                self.cpp_element().cpp_scope(include_self=True).str_cpp, self.pydef_submodule_cpp_var(), is_pydef=False
-            )
-            if custom_code is not None:
-                lines += custom_code.splitlines()
+            # (emitted only once per generator: a namespace may be opened several times)
+            custom_emitted = self.lg_context.submodules_custom_stub_emitted
+            if self._qualified_namespace_name() not in custom_emitted:
+                custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
+                    self._qualified_namespace_name(), self.pydef_submodule_cpp_var(), is_pydef=False
+                )
+                if custom_code is not None:
+                    lines += custom_code.splitlines()
+                    custom_emitted.add(self._qualified_namespace_name())
 
             context_stored_lines = self._stub_class_as_ns_creation_code()
             context_stored_lines += code_utils.indent_code_lines(lines, indent_str=self.options._indent_python_spaces())
@@ -148,11 +152,15 @@ class AdaptedNamespace(AdaptedElement):
 
         if self.flag_shall_create_namespace_as_module():
             # Add user custom code
-            custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
-                self.cpp_element().cpp_scope(include_self=True).str_cpp, self.pydef_submodule_cpp_var(), is_pydef=True
-            )
-            if custom_code is not None:
-                lines += custom_code.splitlines()
+            # (emitted only once per generator: a namespace may be opened several times)
+            custom_emitted = self.lg_context.submodules_custom_pydef_emitted
+            if self._qualified_namespace_name() not in custom_emitted:
+                custom_code = self.options.custom_bindings._pub_make_submodule_custom_code(
+                    self._qualified_namespace_name(), self.pydef_submodule_cpp_var(), is_pydef=True
+                )
+                if custom_code is not None:
+                    lines += custom_code.splitlines()
+                    custom_emitted.add(self._qualified_namespace_name())
 
             context_stored_lines = self._pydef_def_submodule_code() + lines
             context_stored_lines = code_utils.indent_code_lines(
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index f061468..982656f 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -69,6 +69,10 @@ class LitgenContext:
     main_module_custom_pydef_emitted: bool = False
     main_module_custom_stub_emitted: bool = False
 
+    # Likewise, the custom bindings of a submodule are emitted only once, even if its namespace is opened several times
+    submodules_custom_pydef_emitted: set[CppQualifiedNamespaceName] = field(default_factory=set)
+    submodules_custom_stub_emitted: set[CppQualifiedNamespaceName] = field(default_factory=set)
+
     def __init__(self, options: LitgenOptions):
         self.options = options
         self.encountered_cpp_boxed_types = set()
@@ -77,6 +81,8 @@ class LitgenContext:
         self.namespaces_pydef = NamespacesCodeTree(self.options, PydefOrStub.Pydef)
         self._scoped_replacements = {}
         self.scope_members = {}
+        self.submodules_custom_pydef_emitted = set()
+        self.submodules_custom_stub_emitted = set()
 
     def clear_namespaces_code_tree(self) -> None:
         self.namespaces_stub = NamespacesCodeTree(self.options, PydefOrStub.Stub)
-- 
2.43.0


From bb0aa3770707b4a2acab19134fa4f17e0aaf7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:09 +0000
Subject: [PATCH 49/62] fix: the traversal of a constructor with a body did not
 visit its parameters and its template

---
 src/srcmlcpp/cpp_types/functions/cpp_constructor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/srcmlcpp/cpp_types/functions/cpp_constructor.py b/src/srcmlcpp/cpp_types/functions/cpp_constructor.py
index 92a7ff5..a0d1b4c 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_constructor.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_constructor.py
@@ -59,6 +59,10 @@ class CppConstructor(CppConstructorDecl):
     def visit_cpp_breadth_first(self, cpp_visitor_function: CppElementsVisitorFunction, depth: int = 0) -> None:
         cpp_visitor_function(self, CppElementsVisitorEvent.OnElement, depth)
         cpp_visitor_function(self, CppElementsVisitorEvent.OnBeforeChildren, depth)
+        if hasattr(self, "parameter_list"):
+            self.parameter_list.visit_cpp_breadth_first(cpp_visitor_function, depth + 1)
+        if hasattr(self, "template"):
+            self.template.visit_cpp_breadth_first(cpp_visitor_function, depth + 1)
         if hasattr(self, "block"):
             self.block.visit_cpp_breadth_first(cpp_visitor_function, depth + 1)
         if hasattr(self, "member_init_list"):
-- 
2.43.0


From bae5fcca329ced834c37269b1a064b8e172e5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:02 +0000
Subject: [PATCH 50/62] fix: extern linkage specifications that are not handled
 are stored as CppUnprocessed, with a warning, instead of being lost

---
 src/srcmlcpp/internal/cpp_types_parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index fa1addf..67af4f2 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -832,16 +832,16 @@ def fill_extern_c_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_b
     """
     literal_elements = element.wrapped_children_with_tag("literal")
     if len(literal_elements) != 1:
-        return
+        raise SrcmlcppExceptionDetailed(element, "extern block without a single linkage literal")
     extern_type = literal_elements[0].text()
     if extern_type != '"C"':
-        return
+        raise SrcmlcppExceptionDetailed(element, f"unhandled extern linkage {extern_type}")
     block_elements = element.wrapped_children_with_tag("block")
     if len(block_elements) != 1:
-        return
+        raise SrcmlcppExceptionDetailed(element, 'extern "C" without a block')
     block_contents = block_elements[0].wrapped_children_with_tag("block_content")
     if len(block_contents) != 1:
-        return
+        raise SrcmlcppExceptionDetailed(element, 'extern "C" block without content')
     fill_block(options, block_contents[0], inout_block_content)
 
 
-- 
2.43.0


From 2a3a6b12d94c6a39fbbf4a8d5946fc7f72ef0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:26 +0000
Subject: [PATCH 51/62] fix: a macro in a class which is not a constructor is
 kept as CppUnprocessed

---
 src/srcmlcpp/internal/cpp_types_parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 67af4f2..65ea0ea 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -879,6 +879,8 @@ def fill_block(options: SrcmlcppOptions, element: SrcmlWrapper, inout_block_cont
                 fixed_ctor = fix_brace_init_default_value.change_macro_to_constructor(options, macro_maybe_constructor)
                 if fixed_ctor is not None:
                     block_children.append(fixed_ctor)
+                else:
+                    block_children.append(macro_maybe_constructor)
             elif child_tag == "decl":
                 cpp_decl = parse_decl(options, child_c, inout_block_content, None)
                 block_children.append(cpp_decl)
-- 
2.43.0


From 55fc9bd2d05bf2b7f6ca37d0d5ba72a0f23f4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:39 +0000
Subject: [PATCH 52/62] fix: enum data types of several words or with a scope
 are kept

---
 src/srcmlcpp/internal/cpp_types_parse.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/srcmlcpp/internal/cpp_types_parse.py b/src/srcmlcpp/internal/cpp_types_parse.py
index 65ea0ea..ed1da5a 100644
--- a/src/srcmlcpp/internal/cpp_types_parse.py
+++ b/src/srcmlcpp/internal/cpp_types_parse.py
@@ -1034,11 +1034,7 @@ def parse_enum(options: SrcmlcppOptions, element_c: CppElementAndComment, parent
         elif child_tag == "comment":
             _add_comment_child_before_block(result, child)
         elif child_tag == "type":
-            name_children = child.wrapped_children_with_tag("name")
-            if len(name_children) == 1:
-                enum_data_type = name_children[0].text()
-                if enum_data_type is not None:
-                    result.enum_data_type = enum_data_type
+            result.enum_data_type = child.str_code_verbatim().strip()
         else:
             raise SrcmlcppExceptionDetailed(child, f"unhandled tag {child_tag}")
 
-- 
2.43.0


From 9f8acdff5ac0a125fdfbb5ba8d164828826f8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:58 +0000
Subject: [PATCH 53/62] fix: a declaration whose brace init rewrite is not one
 function is reported instead of aborting the file

---
 src/srcmlcpp/internal/fix_brace_init_default_value.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp/internal/fix_brace_init_default_value.py b/src/srcmlcpp/internal/fix_brace_init_default_value.py
index 80c7a57..f0bcc1c 100644
--- a/src/srcmlcpp/internal/fix_brace_init_default_value.py
+++ b/src/srcmlcpp/internal/fix_brace_init_default_value.py
@@ -157,7 +157,8 @@ def change_decl_stmt_to_function_decl_if_suspicious(
     else:
         fixed_cpp_unit = srcmlcpp.code_to_cpp_unit(options, fixed_code)
         fixed_functions = fixed_cpp_unit.all_functions_recursive()
-        assert len(fixed_functions) == 1
+        if len(fixed_functions) != 1:
+            decl_stmt.raise_exception(f"Expected one function after the brace init fix, got {len(fixed_functions)}")
         fixed_function = fixed_functions[0]
         _change_fn_params_default_to_brace_init(fixed_function)
         return fixed_function
-- 
2.43.0


From 684d2e9ca5151df397a728af1196d7ccbd8dbdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 54/62] fix: escape backslashes and triple quotes in the
 docstrings of the stub

A comment with """ closed the docstring, a backslash at its end escaped the
closing quotes, and \U or \x was an invalid escape: the stub was not valid python.
---
 src/litgen/internal/cpp_to_python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 94750f3..1e27141 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -566,6 +566,7 @@ def docstring_lines(options: LitgenOptions, cpp_element_c: CppElementAndComment)
 
     docstring = cpp_element_c.cpp_element_comments.full_comment()
     docstring = _comment_apply_replacements(options, docstring)
+    docstring = docstring.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
     if docstring.startswith('"'):
         docstring = " " + docstring
     if docstring.endswith('"'):
-- 
2.43.0


From 88cc1ffe3eab708877f1496960e558d21d01eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 55/62] fix: keep a multi-line end of line comment on its line
 in the stub

The lines after the first one were written in the stub without "#".
---
 src/litgen/internal/cpp_to_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 1e27141..0e7d519 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -602,7 +602,7 @@ def comment_python_shall_place_at_end_of_line(options: LitgenOptions, cpp_elemen
 def comment_python_end_of_line(options: LitgenOptions, cpp_element_c: CppElementAndComment) -> str:
     eol_comment = _comment_apply_replacements(options, cpp_element_c.cpp_element_comments.comment_end_of_line)
     if len(eol_comment) > 0:
-        eol_comment_with_token = "  #" + eol_comment
+        eol_comment_with_token = "  #" + " ".join(eol_comment.split("\n"))
         return eol_comment_with_token
     else:
         return ""
-- 
2.43.0


From cfd9fae91e54e75f39f6b6041f89795344f0d8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 56/62] fix: escape every backslash of a comment which is not
 part of a known escape

\x and \o were copied as they are in the C++ literal (invalid escapes), as well
as a comment made of one backslash (which escaped the closing quote).
---
 src/codemanip/code_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codemanip/code_utils.py b/src/codemanip/code_utils.py
index 30f8db4..82ff106 100644
--- a/src/codemanip/code_utils.py
+++ b/src/codemanip/code_utils.py
@@ -390,12 +390,12 @@ def format_python_comment(comment: str, indent_size: int) -> str:
 
 
 def escape_backslash_in_comments(comment: str) -> str:
-    if len(comment) <= 1:
+    if len(comment) == 0:
         return comment
     r = ""
 
     for c1, c2 in overlapping_pairs(comment):
-        if c1 == "\\" and c2 not in ["n", "t", "o", "x", '"', "'"]:
+        if c1 == "\\" and c2 not in ["n", "t", '"', "'"]:
             r += "\\\\"
         else:
             r += c1
-- 
2.43.0


From 59c7970cd60e26cbbb8f0357f0ea16aaaf8807c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:07 +0000
Subject: [PATCH 57/62] fix: keep the values shown in comments of the stub on
 one line

The value of an enumerator, an array member or a global variable which spans
several lines continued in the stub on lines which are not commented.
---
 src/litgen/internal/adapted_types/adapted_class.py | 2 +-
 src/litgen/internal/adapted_types/adapted_decl.py  | 2 +-
 src/litgen/internal/adapted_types/adapted_enum.py  | 2 +-
 src/litgen/internal/cpp_to_python.py               | 5 +++++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 5ad096f..636898e 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -179,7 +179,7 @@ class AdaptedClassMember(AdaptedDecl):
 
             decl_value_python_original = super().decl_value_python()
             if len(decl_value_python_original) > 0:
-                msg += " default:" + decl_value_python_original
+                msg += " default:" + cpp_to_python.value_for_end_of_line_comment(decl_value_python_original)
 
             return msg
         else:
diff --git a/src/litgen/internal/adapted_types/adapted_decl.py b/src/litgen/internal/adapted_types/adapted_decl.py
index 8f180b6..5ba22af 100644
--- a/src/litgen/internal/adapted_types/adapted_decl.py
+++ b/src/litgen/internal/adapted_types/adapted_decl.py
@@ -191,7 +191,7 @@ class AdaptedGlobalDecl(AdaptedDecl):
 
     def stub_lines(self) -> list[str]:
         decl_name_cpp = self.decl_name_cpp()
-        decl_value_python = self.decl_value_python()
+        decl_value_python = cpp_to_python.value_for_end_of_line_comment(self.decl_value_python())
         decl_type_python = self.decl_type_python()
         line = f"{decl_name_cpp}: {decl_type_python}  # = {decl_value_python}"
         return [line]
diff --git a/src/litgen/internal/adapted_types/adapted_enum.py b/src/litgen/internal/adapted_types/adapted_enum.py
index f1cb7f6..5be8720 100644
--- a/src/litgen/internal/adapted_types/adapted_enum.py
+++ b/src/litgen/internal/adapted_types/adapted_enum.py
@@ -137,7 +137,7 @@ class AdaptedEnumDecl(AdaptedDecl):
     def stub_lines(self) -> list[str]:
         lines = []
         decl_name = self.decl_name_python()
-        decl_value = self.decl_value_python()
+        decl_value = cpp_to_python.value_for_end_of_line_comment(self.decl_value_python())
         decl_part = f"{decl_name} = enum.auto() # (= {decl_value})"
 
         cpp_decl = self.cpp_element()
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 0e7d519..16478bd 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -532,6 +532,11 @@ def decl_python_value(context: LitgenContext, cpp_decl: CppDecl) -> str:
     return value_python
 
 
+def value_for_end_of_line_comment(value: str) -> str:
+    """A value which is shown in an end of line comment of the stub shall not span several lines"""
+    return " ".join(line.strip() for line in value.split("\n"))
+
+
 def info_original_location(options: LitgenOptions, cpp_element: CppElement, comment_token: str) -> str:
     if not options.original_location_flag_show:
         return ""
-- 
2.43.0


From a706616b27467932ac937e34b0680db1020dac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 58/62] fix: CppDecl.with_qualified_types: take the scope into
 account in its cache

The result of the first call was returned for every other scope.
---
 .../cpp_types/decls_types/cpp_decl.py         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 83cdc02..14b6f0e 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -12,6 +12,7 @@ from srcmlcpp.cpp_types.base import (
     CppElementComments,
 )
 from srcmlcpp.cpp_types.scope.cpp_scope import CppScope
+from srcmlcpp.cpp_types.scope.scoped_element_cache import ScopedElementCache
 from srcmlcpp.cpp_types.decls_types.cpp_type import CppType
 from srcmlcpp.cpp_types.template.cpp_template_specialization import CppTemplateSpecialization
 from srcmlcpp.srcmlcpp_options import (
@@ -44,7 +45,7 @@ class CppDecl(CppElementAndComment):
 
     _cpp_type: CppType
 
-    _cpp_decl_with_qualified_types: CppDecl
+    _cache_with_qualified_types: ScopedElementCache
 
     # decl_name, i.e. the variable name
     decl_name: str = ""
@@ -83,6 +84,7 @@ class CppDecl(CppElementAndComment):
 
     def __init__(self, element: SrcmlWrapper, cpp_element_comments: CppElementComments) -> None:
         super().__init__(element, cpp_element_comments)
+        self._cache_with_qualified_types = ScopedElementCache()
 
     def name(self) -> str:
         return self.decl_name
@@ -299,11 +301,13 @@ class CppDecl(CppElementAndComment):
                             int _f3 = N1::N3::f3()
                             int other = N1::N4::f4()
         """
-        if hasattr(self, "_cpp_decl_with_qualified_types"):
-            return self._cpp_decl_with_qualified_types
-
         if current_scope is None:
             current_scope = self.cpp_scope()
+        if self._cache_with_qualified_types.contains(current_scope):
+            cached_decl = self._cache_with_qualified_types.get(current_scope)
+            assert isinstance(cached_decl, CppDecl)
+            return cached_decl
+
         was_changed = False
         new_decl_cpp_type = self.cpp_type
         if hasattr(self, "cpp_type"):
@@ -315,14 +319,13 @@ class CppDecl(CppElementAndComment):
         if new_initial_value_code != self.initial_value_code:
             was_changed = True
 
+        new_decl = self
         if was_changed:
             new_decl = copy.deepcopy(self)
             new_decl.cpp_type = new_decl_cpp_type
             new_decl.initial_value_code = new_initial_value_code
-            self._cpp_decl_with_qualified_types = new_decl
-        else:
-            self._cpp_decl_with_qualified_types = self
-        return self._cpp_decl_with_qualified_types
+        self._cache_with_qualified_types.store(current_scope, new_decl)
+        return new_decl
 
     def _initial_value_code_with_terse_type(self, current_scope: CppScope | None) -> str:
         """Returns a terse version of the initial value (with only the required scoping)
-- 
2.43.0


From 33787e3409776ec469c29fda192224291541fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 59/62] fix: a copied element does not inherit the cached
 qualified and terse types

with_specialized_template() modifies a copy: with_qualified_types() on the result
returned the version which was cached for the template.
---
 src/srcmlcpp/cpp_types/scope/scoped_element_cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py b/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
index 60216bc..0d6f531 100644
--- a/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
+++ b/src/srcmlcpp/cpp_types/scope/scoped_element_cache.py
@@ -16,6 +16,10 @@ class ScopedElementCache:
     def __init__(self) -> None:
         self._cache = {}
 
+    def __deepcopy__(self, memo: dict[int, object] | None = None) -> ScopedElementCache:
+        """An element is copied in order to be modified: its copy shall not inherit the cached results"""
+        return ScopedElementCache()
+
     def contains(self, cpp_scope: CppScope) -> bool:
         r = cpp_scope.str_cpp in self._cache.keys()
         return r
-- 
2.43.0


From ec236667cd88b17a34ef12ec3273639051cd342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 60/62] fix: with_terse_types: store the result under the scope
 which was asked for

It was stored under the scope shortened for methods, and never found again
(or found for another scope: namespace N { struct N { ... }; }).
---
 src/srcmlcpp/cpp_types/functions/cpp_function_decl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index 18bfdf8..d74a27d 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -224,6 +224,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
             assert isinstance(r, CppFunctionDecl)
             return r
 
+        cache_scope = current_scope
         if self.is_method() and len(current_scope.scope_parts) > 0:
             # Scoping inside a class declaration (not inside methods body!)
             # need to include the class name!
@@ -251,7 +252,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
             if new_return_type is not None:
                 r.return_type = new_return_type
             r.parameter_list = new_parameter_list
-        self._cache_with_terse_types.store(current_scope, r)
+        self._cache_with_terse_types.store(cache_scope, r)
         return r
 
     def is_inferred_return_type(self) -> bool:
-- 
2.43.0


From 35e2674cb9dcc0f9423315a09a43c22745255ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 61/62] fix: forget the cached scopes and types of an element
 when its parent or its types change

An element which was moved to another parent (even with fill_children_parents)
still reported its previous scope.
---
 src/srcmlcpp/cpp_types/base/cpp_element.py         | 14 ++++++++++++--
 src/srcmlcpp/cpp_types/decls_types/cpp_decl.py     |  5 +++++
 .../cpp_types/functions/cpp_function_decl.py       | 10 ++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/srcmlcpp/cpp_types/base/cpp_element.py b/src/srcmlcpp/cpp_types/base/cpp_element.py
index 1948d23..7b5985a 100644
--- a/src/srcmlcpp/cpp_types/base/cpp_element.py
+++ b/src/srcmlcpp/cpp_types/base/cpp_element.py
@@ -14,7 +14,7 @@ __all__ = ["CppElement", "CppElementsVisitorFunction", "CppElementsVisitorEvent"
 
 
 # members that are always copied as shallow members (this is intentionally a static list)
-_CppElement__deep_copy_force_shallow_ = ["parent"]
+_CppElement__deep_copy_force_shallow_ = ["_parent"]
 
 
 class CppElement(SrcmlWrapper):
@@ -23,7 +23,8 @@ class CppElement(SrcmlWrapper):
     # the parent of this element (will be None for the root, which is a CppUnit)
     # at construction time, this field is absent (hasattr return False)!
     # It will be filled later by CppBlock.fill_parents() (with a tree traversal)
-    parent: CppElement | None
+    # (see the property parent)
+    _parent: CppElement | None
 
     # The scope of this element (i.e. the namespace or class it belongs to)
     # This is a cached value, and is filled by self.cpp_scope()
@@ -35,6 +36,15 @@ class CppElement(SrcmlWrapper):
         super().__init__(element.options, element.srcml_xml, element.filename, element.source_code)
         # self.parent is intentionally not filled!
 
+    @property
+    def parent(self) -> CppElement | None:
+        return self._parent
+
+    @parent.setter
+    def parent(self, new_parent: CppElement | None) -> None:
+        self._parent = new_parent
+        self._clear_scope_cache()
+
     def __deepcopy__(self, memo=None):
         """CppElement.__deepcopy__: force shallow copy of the parent
         This improves the performance a lot.
diff --git a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
index 14b6f0e..7b47835 100644
--- a/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
+++ b/src/srcmlcpp/cpp_types/decls_types/cpp_decl.py
@@ -86,6 +86,10 @@ class CppDecl(CppElementAndComment):
         super().__init__(element, cpp_element_comments)
         self._cache_with_qualified_types = ScopedElementCache()
 
+    def _clear_scope_cache(self) -> None:
+        super()._clear_scope_cache()
+        self._cache_with_qualified_types.clear_cache()
+
     def name(self) -> str:
         return self.decl_name
 
@@ -96,6 +100,7 @@ class CppDecl(CppElementAndComment):
     @cpp_type.setter
     def cpp_type(self, value: CppType) -> None:
         self._cpp_type = value
+        self._cache_with_qualified_types.clear_cache()
         self.fill_children_parents()
 
     def str_code(self) -> str:
diff --git a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
index d74a27d..6f95be2 100644
--- a/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
+++ b/src/srcmlcpp/cpp_types/functions/cpp_function_decl.py
@@ -65,6 +65,14 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         self._cache_with_terse_types = ScopedElementCache()
         self._noexcept = None
 
+    def _clear_types_cache(self) -> None:
+        self._cache_with_qualified_types.clear_cache()
+        self._cache_with_terse_types.clear_cache()
+
+    def _clear_scope_cache(self) -> None:
+        super()._clear_scope_cache()
+        self._clear_types_cache()
+
     def has_return_type(self) -> bool:
         return hasattr(self, "_return_type")
 
@@ -76,6 +84,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
     def return_type(self, new_return_type: CppType) -> None:
         self._return_type = new_return_type
         self._return_type.parent = self
+        self._clear_types_cache()
 
     @property
     def parameter_list(self) -> CppParameterList:
@@ -87,6 +96,7 @@ class CppFunctionDecl(CppElementAndComment, CppITemplateHost):
         self._parameter_list.parent = self
         for param in self._parameter_list.parameters:
             param.parent = self._parameter_list
+        self._clear_types_cache()
 
     @property
     def noexcept(self):
-- 
2.43.0


From 6bfa89ec6c026eeec79086d435f1d219754b9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:38 +0000
Subject: [PATCH 62/62] fix: register the members of a scope under its
 qualified name, and keep those of all its openings

The members of a namespace which is opened twice, or of two classes which share
a name in different namespaces, were not qualified in the stub.
---
 src/litgen/internal/adapted_types/adapted_class.py     | 5 ++---
 src/litgen/internal/adapted_types/adapted_namespace.py | 5 ++---
 src/litgen/internal/context/litgen_context.py          | 7 ++++++-
 src/litgen/internal/cpp_to_python.py                   | 4 +++-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/litgen/internal/adapted_types/adapted_class.py b/src/litgen/internal/adapted_types/adapted_class.py
index 636898e..79d21e9 100644
--- a/src/litgen/internal/adapted_types/adapted_class.py
+++ b/src/litgen/internal/adapted_types/adapted_class.py
@@ -408,10 +408,9 @@ class AdaptedClass(AdaptedElement):
             elif isinstance(elem, AdaptedClass):
                 names.add(cpp_to_python._class_name_to_python(self.options, elem.cpp_element().class_name))
         if names:
-            from litgen.internal.context.litgen_context import ScopeMembers
-
             python_scope_name = cpp_to_python._class_name_to_python(self.options, cpp_class_name)
-            self.lg_context.scope_members[cpp_class_name] = ScopeMembers(python_scope_name, names)
+            qualified_class_name = self.cpp_element().cpp_scope_str(include_self=True)
+            self.lg_context.register_scope_members(qualified_class_name, python_scope_name, names)
 
     def _init_add_adapted_class_member(self, cpp_decl_statement: CppDeclStatement) -> None:
         class_name = self.cpp_element().class_name
diff --git a/src/litgen/internal/adapted_types/adapted_namespace.py b/src/litgen/internal/adapted_types/adapted_namespace.py
index d31efbd..fa5a90c 100644
--- a/src/litgen/internal/adapted_types/adapted_namespace.py
+++ b/src/litgen/internal/adapted_types/adapted_namespace.py
@@ -46,10 +46,9 @@ class AdaptedNamespace(AdaptedElement):
                 names.add(cpp_to_python._class_name_to_python(self.options, elem.cpp_element().class_name))
             elif isinstance(elem, AdaptedFunction):
                 names.add(cpp_to_python.function_name_to_python(self.options, elem.cpp_element().function_name))
-        from litgen.internal.context.litgen_context import ScopeMembers
-
         python_scope_name = cpp_to_python.namespace_name_to_python(self.options, cpp_ns_name)
-        self.lg_context.scope_members[cpp_ns_name] = ScopeMembers(python_scope_name, names)
+        qualified_ns_name = self.cpp_element().cpp_scope_str(include_self=True)
+        self.lg_context.register_scope_members(qualified_ns_name, python_scope_name, names)
 
     def namespace_name(self) -> str:
         return self.cpp_element().ns_name
diff --git a/src/litgen/internal/context/litgen_context.py b/src/litgen/internal/context/litgen_context.py
index 982656f..1111d40 100644
--- a/src/litgen/internal/context/litgen_context.py
+++ b/src/litgen/internal/context/litgen_context.py
@@ -54,7 +54,7 @@ class LitgenContext:
     # Key: CppScope.str_cpp (e.g., "" for root, "Snippets" for a namespace).
     _scoped_replacements: dict[str, ReplacementsCache]
 
-    # Registry of members defined in each scope, keyed by C++ scope name.
+    # Registry of members defined in each scope, keyed by qualified C++ scope name.
     # See ScopeMembers for details.
     scope_members: dict[str, ScopeMembers]
 
@@ -94,6 +94,11 @@ class LitgenContext:
     def unqualified_stub_namespaces(self) -> set[CppNamespaceName]:
         return self.namespaces_stub.unqualified_namespaces()
 
+    def register_scope_members(self, qualified_cpp_name: str, python_scope_name: str, member_names: set[str]) -> None:
+        """Register members of a scope. A namespace may be opened several times: its members are added to the known ones"""
+        scope_members = self.scope_members.setdefault(qualified_cpp_name, ScopeMembers(python_scope_name))
+        scope_members.member_names |= member_names
+
     def get_scoped_replacements(self, scope: CppScope) -> ReplacementsCache:
         """Get (or create) the ReplacementsCache for a given scope."""
         key = scope.str_cpp
diff --git a/src/litgen/internal/cpp_to_python.py b/src/litgen/internal/cpp_to_python.py
index 16478bd..f99d16d 100644
--- a/src/litgen/internal/cpp_to_python.py
+++ b/src/litgen/internal/cpp_to_python.py
@@ -293,14 +293,16 @@ def qualify_sibling_in_scope(
 
     Applies to both namespace proxies and classes with inner classes/enums.
     """
+    qualified_cpp_name = ""
     for scope_part in cpp_scope.scope_parts:
         cpp_name = scope_part.scope_name
+        qualified_cpp_name = f"{qualified_cpp_name}::{cpp_name}" if qualified_cpp_name else cpp_name
 
         # Skip root namespaces (they map to the module level, no proxy)
         if cpp_name in lg_context.options.namespaces_root:
             continue
 
-        scope_entry = lg_context.scope_members.get(cpp_name)
+        scope_entry = lg_context.scope_members.get(qualified_cpp_name)
         if not scope_entry:
             continue
         python_prefix = scope_entry.python_scope_name
-- 
2.43.0

