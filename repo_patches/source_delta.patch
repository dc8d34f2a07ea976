From 931b39737df4615b690890d3ea436e31bca3d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 01/43] fix: imports in try/except* blocks are optional

---
 modulegraph2/_ast_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..37df283 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -61,7 +61,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From ee55370d9ea1fd2b6b2a14eb605c58d2d1a2027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 02/43] fix: relative imports in scripts are invalid relative
 imports

---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..f08f249 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -514,6 +515,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # Scripts are not part of a package
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From 1bfa01524b9ba175def69f31e193588035a7bbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 03/43] fix: don't add submodules of a missing package twice
 when implied by that package

---
 modulegraph2/_modulegraph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..3e12854 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -806,7 +806,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
             )
-            if isinstance(parent_node, MissingModule):
+
+            # Implied actions and hooks for the package may already have
+            # added *module_name* to the graph.
+            node = self._find_module(module_name)
+            if node is not None:
+                pass
+            elif isinstance(parent_node, MissingModule):
                 node = self._create_missing_module(importing_module, module_name)
             elif isinstance(parent_node, ExcludedModule):
                 node = ExcludedModule(module_name)
-- 
2.43.0


From 37d18202c2bcece144edcacf44b217def79d06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 04/43] fix: don't crash on submodules of names that are only
 in the graph by alias or hook

---
 modulegraph2/_modulegraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 3e12854..bcaf7d3 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -623,7 +623,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 assert parent not in sys.modules
 
                 spec = importlib.util.find_spec(parent)
-                assert spec is not None
+                if spec is None:
+                    # The parent is not an importable module, for example
+                    # because it is an alias for another module.
+                    node = self._create_missing_module(importing_module, module_name)
+                    return node
+
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
                 if loader.is_package(spec.name):
-- 
2.43.0


From a1e856183d525ac22fc285b471e0e104f533f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 05/43] fix: source that cannot be decoded is invalid source

---
 modulegraph2/_graphbuilder.py | 2 +-
 modulegraph2/_modulegraph.py  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index f08f249..d9e9b0b 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -234,7 +234,7 @@ def node_for_spec(
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
         try:
             source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
+        except (SyntaxError, UnicodeDecodeError):
             node = InvalidModule(
                 name=spec.name,
                 loader=loader,
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index bcaf7d3..8652e9b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -706,7 +706,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         with open(script_path, "rb") as fp:
             source_bytes = fp.read()
 
-        source_code = importlib.util.decode_source(source_bytes)
+        try:
+            source_code = importlib.util.decode_source(source_bytes)
+        except UnicodeDecodeError as exc:
+            raise SyntaxError(f"{os.fspath(script_path)}: {exc}") from exc
+
         ast_node = compile(
             source_code,
             os.fspath(script_path),
-- 
2.43.0


From 5fe97a3ee12102fc2c3e448cd4e54cf62d6bb9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 06/43] fix: invalid bytecode files result in an InvalidModule

---
 modulegraph2/_graphbuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index d9e9b0b..0e139f5 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -285,7 +285,9 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        except (SyntaxError, ImportError, EOFError, ValueError, TypeError):
+            # The exceptions other than SyntaxError are raised for
+            # invalid or incompatible bytecode files.
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
-- 
2.43.0


From a67154be315ac3b170ede6fee85480872f28e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 07/43] fix: look for data files in all subdirectories of a
 package

---
 modulegraph2/_graphbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 0e139f5..5bdb508 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -118,7 +118,8 @@ def _contains_datafiles(directory: pathlib.Path):
                 continue
 
             elif p.is_dir():
-                return _contains_datafiles(p)
+                if _contains_datafiles(p):
+                    return True
 
             else:
                 return True
-- 
2.43.0


From 8c976f95c87fc552321028ae359db3d826022144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 08/43] fix: files outside of the search path are not import
 names of a distribution

---
 modulegraph2/_distributions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..08c8ce1 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -106,6 +106,11 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
             if "/__pycache__/" in relpath or relpath.startswith("__pycache__/"):
                 continue
 
+            if relpath.startswith("../") or os.path.isabs(relpath):
+                # Files outside of the search path entry, such as
+                # scripts, are not importable.
+                continue
+
             for suffix in all_suffixes:
                 if not relpath.endswith(suffix):
                     continue
-- 
2.43.0


From 08f7f1a5c50cb2fd743f24daa796c56c9cedecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 09/43] fix: ignore all errors when importing explicit
 namespace packages

---
 modulegraph2/_graphbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 5bdb508..8aac47b 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -480,7 +480,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except Exception:
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
-- 
2.43.0


From 9518d862defe096545f262b2742a49826e5c59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 10/43] fix: bytecode scanner didn't fully ignore EXTENDED_ARG
 instructions

---
 modulegraph2/_bytecode_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..37b7a7c 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -58,7 +58,11 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
 
       is_class_code: True if this is the code object for a class
     """
-    instructions = list(dis.get_instructions(code))
+    # The value of EXTENDED_ARG instructions is already included in
+    # the argument of the instruction they extend.
+    instructions = [
+        inst for inst in dis.get_instructions(code) if inst.opname != "EXTENDED_ARG"
+    ]
 
     imports: list[ImportInfo] = []
     globals_written: set[str] = set()
-- 
2.43.0


From c5687d32d736cc1de65448b62f2b66d884022592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 11/43] fix: an incomplete dist-info directory should not hide
 other distributions

---
 modulegraph2/_distributions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 08c8ce1..1f386c9 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -157,7 +157,13 @@ def all_distributions(
                     dist = _cached_distributions[dist_name]
 
                 except KeyError:
-                    dist = create_distribution(dist_name)
+                    try:
+                        dist = create_distribution(dist_name)
+                    except OSError:
+                        # Incomplete dist-info directory, don't
+                        # ignore other distributions due to this.
+                        continue
+
                     _cached_distributions[dist_name] = dist
 
                 yield dist
-- 
2.43.0


From 564b818295a66b21a079e9b964ebb46bc232f931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 12/43] fix: __pycache__ is not a subpackage

---
 modulegraph2/_modulegraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 8652e9b..6da709a 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -344,6 +344,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 )
 
             for fn in path.iterdir():
+                if fn.name == "__pycache__":
+                    continue
+
                 if fn.is_dir() and fn.name.isidentifier():
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
-- 
2.43.0


From eb4b32decbb25b5c3d2721e4988633cb12bd34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 13/43] fix: the graph should not depend on the hash seed or
 directory order

---
 modulegraph2/_distributions.py |  2 +-
 modulegraph2/_modulegraph.py   | 10 +++++-----
 modulegraph2/_mypyc_support.py |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 1f386c9..a01be77 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -147,7 +147,7 @@ def all_distributions(
 
     for entry in path:
         try:
-            for fname in os.listdir(entry):
+            for fname in sorted(os.listdir(entry)):
                 if not fname.endswith(".dist-info"):
                     continue
 
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 6da709a..28985d4 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -204,7 +204,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         )
         for info in extract_ast_info(ast_node):
             self.add_module(info.import_module)
-            for name in info.import_names:
+            for name in sorted(info.import_names):
                 self.add_module(f"{info.import_module}.{name}")
 
     def add_distribution(
@@ -235,7 +235,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         self.add_node(distribution)
         self.add_root(distribution)
 
-        for module_name in distribution.import_names:
+        for module_name in sorted(distribution.import_names):
             node = self._find_or_load_module(None, module_name)
             self.add_edge(distribution, node, DEFAULT_DEPENDENCY)
 
@@ -327,7 +327,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
         for path_name in spec.submodule_search_locations or []:
             path = pathlib.Path(path_name)
-            for fn in path.glob("*.py"):
+            for fn in sorted(path.glob("*.py")):
                 module = fn.stem
                 if not module.isidentifier():
                     continue
@@ -343,7 +343,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     (self.import_package, (node, f"{package_name}.{module}"))
                 )
 
-            for fn in path.iterdir():
+            for fn in sorted(path.iterdir()):
                 if fn.name == "__pycache__":
                     continue
 
@@ -978,7 +978,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         return
 
                 importing_module.globals_written.update(import_info.import_names)
-                for nm in import_info.import_names:
+                for nm in sorted(import_info.import_names):
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..4a33489 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -67,7 +67,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     #
     # The name check can be made stricter if needed
     # by looking at the prefix as well.
-    for nm in node.distribution.import_names:
+    for nm in sorted(node.distribution.import_names):
         if nm.endswith("__mypyc"):
             # Distribution is mypyc compiled
             helper_module = nm
-- 
2.43.0


From b3737aa55c3283ff3fd2139a1f5707225d2a5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 14/43] fix: don't lose imports when a name is imported twice
 with different 'as' clauses

---
 modulegraph2/_ast_tools.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 37df283..5b249f9 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -44,14 +44,20 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
                 )
 
         elif isinstance(node, ast.ImportFrom):
-            yield create_importinfo(
-                (node.module or "", None),
-                {(nm.name, nm.asname) for nm in node.names},
-                node.level,
-                in_def,
-                in_if,
-                in_tryexcept,
-            )
+            # The names in an ImportInfo are unique, therefore use more
+            # than one when a name is imported using different "as" clauses.
+            names = {(nm.name, nm.asname) for nm in node.names}
+            while names:
+                current = dict(sorted(names, key=lambda nm: (nm[0], nm[1] or "")))
+                yield create_importinfo(
+                    (node.module or "", None),
+                    current.items(),
+                    node.level,
+                    in_def,
+                    in_if,
+                    in_tryexcept,
+                )
+                names -= current.items()
 
         elif isinstance(node, ast.If):
             for child in ast.iter_child_nodes(node):
-- 
2.43.0


From 180328b0e67c514af11c591aad5ca5dd84862a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 15/43] fix: escape names in HTML and Graphviz output

---
 modulegraph2/_dotbuilder.py  | 16 ++++++++++++----
 modulegraph2/_htmlbuilder.py |  7 ++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index e8605ad..55d089c 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -31,6 +31,14 @@ def format_attributes(callable, *args):
         return f" [{', '.join(parts)}]"
 
 
+def quoted(value: str) -> str:
+    """
+    Format *value* as a quoted string in a Graphviz file.
+    """
+    value = value.replace("\\", "\\\\").replace('"', '\\"')
+    return f'"{value}"'
+
+
 def export_to_dot(
     file: TextIO,
     graph: ModuleGraph,
@@ -53,22 +61,22 @@ def export_to_dot(
 
     for source in graph.iter_graph():
         print(
-            f'    "{source.identifier}"{format_attributes(format_node, source)}',
+            f"    {quoted(source.identifier)}{format_attributes(format_node, source)}",
             file=file,
         )
         for edge, target in graph.outgoing(source):
             print(
-                f'    "{source.identifier}" -> "{target.identifier}"{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
+                f"    {quoted(source.identifier)} -> {quoted(target.identifier)}{format_attributes(format_edge, source, target, edge)}",  # noqa: B950
                 file=file,
             )
 
     for idx, (group_name, group_icon, group_items) in enumerate(group_nodes(graph)):
         print(f"subgraph cluster_{idx} {{", file=file)
-        print(f'   label = "{group_name}"', file=file)
+        print(f"   label = {quoted(group_name)}", file=file)
         print(f"   shape = {group_icon}", file=file)
         print("   style=filled; color=lightgray", file=file)
         for node in group_items:
-            print(f'   "{node.identifier}"', file=file)
+            print(f"   {quoted(node.identifier)}", file=file)
 
         print("}", file=file)
         print(file=file)
diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 2caf3c7..86d5702 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -7,6 +7,7 @@ Support code for generating HTML output from a module graph
     package, with modulegraph2 specific functionality in this module.
 """
 
+import html
 import operator
 import textwrap
 from typing import TextIO
@@ -52,7 +53,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             continue
 
         print(
-            f'<a name="{node.identifier}"><h2>{type(node).__name__} {node.name}</h2></a>',  # noqa:E501, B950
+            f'<a name="{html.escape(node.identifier)}"><h2>{type(node).__name__} {html.escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
         outgoing = list(graph.outgoing(node))
@@ -60,7 +61,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Depends on:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{target.identifier}">{target.name}</a>'
+                    f'<a href="#{html.escape(target.identifier)}">{html.escape(target.name)}</a>'  # noqa:E501, B950
                     for _, target in outgoing
                 ),
                 file=file,
@@ -71,7 +72,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Used by:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{source.identifier}">{source.name}</a>'
+                    f'<a href="#{html.escape(source.identifier)}">{html.escape(source.name)}</a>'  # noqa:E501, B950
                     for _, source in incoming
                     if source.identifier in reachable
                 ),
-- 
2.43.0


From f4b98b9a2a6f1cd33bac7a3322db517868dc9d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 16/43] fix: relative imports in add_dependencies_for_source
 are invalid

---
 modulegraph2/_modulegraph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 28985d4..4ca419c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -203,6 +203,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
+            if info.import_level != 0:
+                # The source code is not part of a package.
+                invalid_name = ("." * info.import_level) + info.import_module
+                node = self._find_module(invalid_name)
+                if node is None:
+                    node = InvalidRelativeImport(invalid_name)
+                    self.add_node(node)
+                    self._process_import_list(node, ())
+
+                self.add_root(node)
+                self._run_stack()
+                continue
+
             self.add_module(info.import_module)
             for name in sorted(info.import_names):
                 self.add_module(f"{info.import_module}.{name}")
-- 
2.43.0


From c366ad834d0f4f28c5957bd385c4fcee08316ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 17/43] fix: import_package fails for packages that cannot be
 imported

---
 modulegraph2/_modulegraph.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 4ca419c..ac3aa9a 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -7,7 +7,6 @@ import contextlib
 import importlib
 import operator
 import os
-import pathlib
 import sys
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
@@ -336,10 +335,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
+        for path in node.search_path:
             for fn in sorted(path.glob("*.py")):
                 module = fn.stem
                 if not module.isidentifier():
-- 
2.43.0


From 00b087bcabf1106ee4215779bab931490d8b798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 18/43] fix: import_package ignored extension and bytecode
 modules

---
 modulegraph2/_modulegraph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index ac3aa9a..7c19bb8 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -5,6 +5,7 @@ This module contains the definition of the ModuleGraph class.
 import ast
 import contextlib
 import importlib
+import inspect
 import operator
 import os
 import sys
@@ -336,9 +337,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         #
 
         for path in node.search_path:
-            for fn in sorted(path.glob("*.py")):
-                module = fn.stem
-                if not module.isidentifier():
+            for fn in sorted(path.iterdir()):
+                module = inspect.getmodulename(fn.name)
+                if module is None or not module.isidentifier():
                     continue
 
                 module_node = self._find_or_load_module(
-- 
2.43.0


From 371af8e3825f2fad94ba5be8a0839cda98fd5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 19/43] fix: the __init__ of a package is not one of its
 submodules

---
 modulegraph2/_modulegraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7c19bb8..012c932 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -342,6 +342,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 if module is None or not module.isidentifier():
                     continue
 
+                if module == "__init__":
+                    # This is the package itself
+                    continue
+
                 module_node = self._find_or_load_module(
                     node, f"{package_name}.{module}"
                 )
-- 
2.43.0


From 5de8d60e3dc9f646ed68299054cd83e633a9e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 20/43] fix: submodules of packages raising ModuleNotFoundError
 were missing

A package raising ModuleNotFoundError with a custom message was treated
as if it isn't a package.
---
 modulegraph2/_modulegraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 012c932..5a2e302 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -623,9 +623,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 return node
 
         except Exception as exc:
-            if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
-                exc
-            ):
+            if not isinstance(
+                exc, ModuleNotFoundError
+            ) or "__path__ attribute not found" not in str(exc):
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
-- 
2.43.0


From e7473b27bb5e476022f09560991bc0bbde459ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 21/43] fix: importing a package that exits the interpreter
 aborted the build

Finding submodules imports the containing package, handle SystemExit in
the same way as other errors. Likewise for all errors other than
ImportError in the hook for SWIG.
---
 modulegraph2/_graphbuilder.py | 2 +-
 modulegraph2/_modulegraph.py  | 2 +-
 modulegraph2/_swig_support.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 8aac47b..900a6d5 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -480,7 +480,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except Exception:
+            except (Exception, SystemExit):
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5a2e302..ab6765d 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -622,7 +622,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
-        except Exception as exc:
+        except (Exception, SystemExit) as exc:
             if not isinstance(
                 exc, ModuleNotFoundError
             ) or "__path__ attribute not found" not in str(exc):
diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..87eeafd 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -68,7 +68,7 @@ def swig_missing_hook(
 
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
+    except (Exception, SystemExit):
         # Loading the package may fail if there's and error. This
         # code assumes that's due to the invalid import by swig and
         # adjusts sys.modules for that before retrying.
-- 
2.43.0


From 414a3244c017caead49b5f344ab9c09b37764231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 22/43] fix: invalid metadata of one distribution should not
 hide other distributions

---
 modulegraph2/_distributions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a01be77..50dc7b0 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -79,11 +79,14 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = BytesParser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
+    if name is None or version is None:
+        raise ValueError(f"Incomplete metadata in {distribution_file!r}")
+
+    assert isinstance(name, str)
     assert isinstance(version, str)
 
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(os.path.join(distribution_file, "RECORD"), encoding="utf-8") as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
@@ -159,9 +162,9 @@ def all_distributions(
                 except KeyError:
                     try:
                         dist = create_distribution(dist_name)
-                    except OSError:
-                        # Incomplete dist-info directory, don't
-                        # ignore other distributions due to this.
+                    except (OSError, ValueError):
+                        # Incomplete or invalid dist-info directory,
+                        # don't ignore other distributions due to this.
                         continue
 
                     _cached_distributions[dist_name] = dist
-- 
2.43.0


From dcb6364513bc19df01c042bafb24244495f79920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 23/43] fix: missing extension for a toplevel SWIG module
 aborted the build

---
 modulegraph2/_swig_support.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 87eeafd..95ee1ac 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -65,6 +65,10 @@ def swig_missing_hook(
         to_import = importing_module.name
     else:
         to_import = importing_module.name.rpartition(".")[0]
+        if not to_import:
+            # Toplevel module, there is no package that can contain
+            # the extension module.
+            return None
 
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-- 
2.43.0


From 78055d046a06ff5a6cd29ff483995632364192a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 24/43] fix: namespace packages in packages that cannot be
 imported aborted the build

---
 modulegraph2/_utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 3683de5..a66e179 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -67,6 +67,10 @@ class FakePackage:
         """
         self.__path__ = path
 
+        # The import system uses the spec of a package when importing
+        # its submodules.
+        self.__spec__ = None
+
 
 def stdlib_module_names() -> list[str]:
     """
-- 
2.43.0


From 0bfb9d92eaeb1ee028d71fd6177bf9afc9f1b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 25/43] fix: invalid code in zip archives aborted the build

---
 modulegraph2/_modulegraph.py |  6 ++--
 modulegraph2/_utilities.py   | 54 ++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index ab6765d..0038131 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -36,7 +36,7 @@ from ._nodes import (
     VirtualNode,
 )
 from ._swig_support import swig_missing_hook
-from ._utilities import FakePackage, split_package
+from ._utilities import FakePackage, find_spec, split_package
 
 ProcessingCallback = Callable[["ModuleGraph", BaseNode], None]
 MissingCallback = Callable[["ModuleGraph", BaseNode | None, str], BaseNode | None]
@@ -591,7 +591,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         try:
             try:
-                spec = importlib.util.find_spec(module_name)
+                spec = find_spec(module_name)
 
             except ValueError as exc:
                 assert "__spec__" in exc.args[0]
@@ -639,7 +639,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 parent = module_name.rpartition(".")[0]
                 assert parent not in sys.modules
 
-                spec = importlib.util.find_spec(parent)
+                spec = find_spec(parent)
                 if spec is None:
                     # The parent is not an importable module, for example
                     # because it is an alias for another module.
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index a66e179..89b4f08 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -4,7 +4,12 @@ Some useful utility functions.
 
 import contextlib
 import importlib
+import importlib.machinery
+import importlib.util
+import os
+import pkgutil
 import sys
+import zipimport
 
 
 @contextlib.contextmanager
@@ -47,6 +52,55 @@ def split_package(name: str) -> tuple[str | None, str]:
     return (package if package != "" else None), name
 
 
+def find_spec(module_name: str) -> importlib.machinery.ModuleSpec | None:
+    """
+    Variant of :func:`importlib.util.find_spec` that can find modules with
+    invalid code in zip archives. The finder for zip archives loads the code
+    of a module while looking for it, and raises an exception when the code
+    is not valid.
+    """
+    try:
+        return importlib.util.find_spec(module_name)
+
+    except Exception:
+        parent, _, tail = module_name.rpartition(".")
+        if not parent:
+            search_path = sys.path
+        else:
+            # Lookup failed because of the parent when it is not imported
+            search_path = getattr(sys.modules.get(parent), "__path__", [])
+
+        for entry in search_path:
+            importer = pkgutil.get_importer(entry)
+            if not isinstance(importer, zipimport.zipimporter):
+                continue
+
+            try:
+                is_package = importer.is_package(module_name)
+            except zipimport.ZipImportError:
+                continue
+
+            path = os.path.join(importer.archive, importer.prefix, tail)
+            if is_package:
+                path = os.path.join(path, "__init__")
+
+            for suffix in (".pyc", ".py"):
+                try:
+                    importer.get_data(path + suffix)
+                except OSError:
+                    continue
+
+                spec = importlib.machinery.ModuleSpec(
+                    module_name, importer, origin=path + suffix, is_package=is_package
+                )
+                if is_package:
+                    assert spec.submodule_search_locations is not None
+                    spec.submodule_search_locations.append(os.path.dirname(path))
+                return spec
+
+        raise
+
+
 class FakePackage:
     """
     Instances of these can be used to represent a fake
-- 
2.43.0


From a9d903568071576a2d7720074645f0379556643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 26/43] fix: encoding of source in zip archives was ignored

---
 modulegraph2/_graphbuilder.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 900a6d5..86f0b2f 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -234,7 +234,18 @@ def node_for_spec(
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
         try:
-            source_code = inspect_loader.get_source(spec.name)
+            if (
+                isinstance(inspect_loader, zipimport.zipimporter)
+                and spec.origin is not None
+                and spec.origin.endswith(".py")
+            ):
+                # The get_source method of zipimporter ignores the encoding
+                # declaration and byte order mark.
+                source_code = importlib.util.decode_source(
+                    inspect_loader.get_data(spec.origin)
+                )
+            else:
+                source_code = inspect_loader.get_source(spec.name)
         except (SyntaxError, UnicodeDecodeError):
             node = InvalidModule(
                 name=spec.name,
-- 
2.43.0


From 2a424c1581ef1976cca9873e48dfa4d849a47aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 27/43] fix: submodules of unimportable packages found by way
 of an alias aborted the build

---
 modulegraph2/_modulegraph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 0038131..a1ba8c6 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -632,12 +632,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # Try to work around this by inserting a fake module object
                 # in sys.modules and retrying.
                 #
-                # node_for_spec on a submodule is called only after
-                # successfully calling node_for_spec on the parent package,
-                # hence we know that find_spec will be successfull and
-                # will find a pacakge with an __init__.py.
-                parent = module_name.rpartition(".")[0]
-                assert parent not in sys.modules
+                # Packages are imported before their subpackages, the
+                # first one that isn't imported caused the problem.
+                parts = module_name.split(".")
+                parents = [".".join(parts[:i]) for i in range(1, len(parts))]
+                parent = next((nm for nm in parents if nm not in sys.modules), "")
+                assert parent
 
                 spec = find_spec(parent)
                 if spec is None:
-- 
2.43.0


From 53740f97f89b445407b7bd0931a4cd879c1b0a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 28/43] fix: globals written in a class body were ignored

---
 modulegraph2/_bytecode_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 37b7a7c..cc56a8f 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -134,7 +134,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
+            if (is_class_code or is_function_code) and inst.opname == "STORE_NAME":
                 continue
 
             const_offset = inst.arg
-- 
2.43.0


From 7de4bfe7ad81001c4e4ad91f1bb224f9c39a7b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 29/43] fix: namespace package imported by a package that
 cannot be imported aborted the build

---
 modulegraph2/_graphbuilder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 86f0b2f..8f47d44 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -181,6 +181,13 @@ def node_for_spec(
         # for namespace packages is a private class, see python issue #35673.
         search_path = spec.submodule_search_locations
         assert search_path is not None
+        try:
+            search_path = list(search_path)
+        except KeyError:
+            # The namespace package was imported by a package whose import
+            # failed afterwards. The search path cannot be recalculated
+            # without that package, use the last calculated value.
+            search_path = list(search_path._path)  # type: ignore
 
         node = NamespacePackage(
             name=spec.name,
-- 
2.43.0


From 79a9436d75f3316e9919af1a8e95487b6076802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 30/43] fix: invalid bytecode in zip archives aborted the build

---
 modulegraph2/_utilities.py | 97 ++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 89b4f08..b784a9c 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -52,53 +52,70 @@ def split_package(name: str) -> tuple[str | None, str]:
     return (package if package != "" else None), name
 
 
+def _zip_spec(module_name: str) -> importlib.machinery.ModuleSpec | None:
+    """
+    Return the spec for a module in a zip archive without loading its code.
+    """
+    parent, _, tail = module_name.rpartition(".")
+    if not parent:
+        search_path = sys.path
+    else:
+        search_path = getattr(sys.modules.get(parent), "__path__", [])
+
+    for entry in search_path:
+        importer = pkgutil.get_importer(entry)
+        if not isinstance(importer, zipimport.zipimporter):
+            continue
+
+        try:
+            is_package = importer.is_package(module_name)
+        except zipimport.ZipImportError:
+            continue
+
+        path = os.path.join(importer.archive, importer.prefix, tail)
+        if is_package:
+            path = os.path.join(path, "__init__")
+
+        for suffix in (".pyc", ".py"):
+            try:
+                importer.get_data(path + suffix)
+            except OSError:
+                continue
+
+            spec = importlib.machinery.ModuleSpec(
+                module_name, importer, origin=path + suffix, is_package=is_package
+            )
+            if is_package:
+                assert spec.submodule_search_locations is not None
+                spec.submodule_search_locations.append(os.path.dirname(path))
+            return spec
+
+    return None
+
+
 def find_spec(module_name: str) -> importlib.machinery.ModuleSpec | None:
     """
     Variant of :func:`importlib.util.find_spec` that can find modules with
     invalid code in zip archives. The finder for zip archives loads the code
-    of a module while looking for it, and raises an exception when the code
-    is not valid.
+    of a module while looking for it, and raises an exception or returns an
+    incomplete spec when the code is not valid.
     """
     try:
-        return importlib.util.find_spec(module_name)
-
+        spec = importlib.util.find_spec(module_name)
     except Exception:
-        parent, _, tail = module_name.rpartition(".")
-        if not parent:
-            search_path = sys.path
-        else:
-            # Lookup failed because of the parent when it is not imported
-            search_path = getattr(sys.modules.get(parent), "__path__", [])
-
-        for entry in search_path:
-            importer = pkgutil.get_importer(entry)
-            if not isinstance(importer, zipimport.zipimporter):
-                continue
-
-            try:
-                is_package = importer.is_package(module_name)
-            except zipimport.ZipImportError:
-                continue
-
-            path = os.path.join(importer.archive, importer.prefix, tail)
-            if is_package:
-                path = os.path.join(path, "__init__")
-
-            for suffix in (".pyc", ".py"):
-                try:
-                    importer.get_data(path + suffix)
-                except OSError:
-                    continue
-
-                spec = importlib.machinery.ModuleSpec(
-                    module_name, importer, origin=path + suffix, is_package=is_package
-                )
-                if is_package:
-                    assert spec.submodule_search_locations is not None
-                    spec.submodule_search_locations.append(os.path.dirname(path))
-                return spec
-
-        raise
+        spec = _zip_spec(module_name)
+        if spec is None:
+            raise
+
+    else:
+        if (
+            spec is not None
+            and isinstance(spec.loader, zipimport.zipimporter)
+            and spec.origin == "<unknown>"
+        ):
+            spec = _zip_spec(module_name) or spec
+
+    return spec
 
 
 class FakePackage:
-- 
2.43.0


From 10325b6491a47f6d7f8cc8dfd29fb2af3507a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 31/43] fix: body of classes with a closure was treated as a
 function

---
 modulegraph2/_bytecode_tools.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index cc56a8f..c5955d7 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -164,16 +164,17 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             assert const_offset is not None
 
             if sys.version_info[:2] >= (3, 11):
-                if (
-                    offset >= 2
-                    and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                elif (
-                    offset >= 3
-                    and instructions[offset - 2].opname == "PUSH_NULL"
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
+                # The body of a class is the first argument for
+                # LOAD_BUILD_CLASS, skip the code that creates the closure.
+                start = offset - 2
+                if start >= 0 and instructions[start].opname == "BUILD_TUPLE":
+                    closure_size = instructions[start].arg
+                    assert closure_size is not None
+                    start -= closure_size + 1
+                if start >= 0 and instructions[start].opname == "PUSH_NULL":
+                    start -= 1
+
+                if start >= 0 and instructions[start].opname == "LOAD_BUILD_CLASS":
                     class_codes.add(code.co_consts[const_offset])
                 else:
                     func_codes.add(code.co_consts[const_offset])
-- 
2.43.0


From e6e082c9580953dfc3f38617ce69d1c48a827082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 32/43] fix: package in a zip archive that cannot be imported
 aborted the build

---
 modulegraph2/_modulegraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index a1ba8c6..b8634e0 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -9,6 +9,7 @@ import inspect
 import operator
 import os
 import sys
+import zipimport
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
 from typing import TextIO, cast
@@ -647,7 +648,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     return node
 
                 loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
+                assert isinstance(
+                    loader, (importlib.abc.InspectLoader, zipimport.zipimporter)
+                )
                 if loader.is_package(spec.name):
                     path = spec.origin
                     assert path is not None
-- 
2.43.0


From 8ba32feac1483a4e00316b735b622b4e3cb25cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 33/43] fix: submodule of an alias in a module that is not a
 package aborted the build

---
 modulegraph2/_modulegraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b8634e0..c893961 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -640,7 +640,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 parent = next((nm for nm in parents if nm not in sys.modules), "")
                 assert parent
 
-                spec = find_spec(parent)
+                try:
+                    spec = find_spec(parent)
+                except ModuleNotFoundError:
+                    # The parent would be in a module that is not a package.
+                    spec = None
+
                 if spec is None:
                     # The parent is not an importable module, for example
                     # because it is an alias for another module.
-- 
2.43.0


From 68d4e522d24538c32858a880b9f38fc56798346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:52 +0000
Subject: [PATCH 34/43] fix: SWIG support failed for packages in zip archives

---
 modulegraph2/_swig_support.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 95ee1ac..b3c8bc0 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -2,7 +2,6 @@
 Support code that deals with SWIG.
 """
 
-import importlib.util
 import os
 import sys
 from types import ModuleType
@@ -12,7 +11,7 @@ import modulegraph2
 
 from ._graphbuilder import node_for_spec
 from ._nodes import BaseNode, ExtensionModule, Module, Package
-from ._utilities import FakePackage
+from ._utilities import FakePackage, find_spec
 
 # SWIG uses an absolute import to find an extension
 # module located in a package (basically a Python 2
@@ -71,7 +70,7 @@ def swig_missing_hook(
             return None
 
     try:
-        spec = importlib.util.find_spec("." + missing_name, to_import)
+        spec = find_spec(f"{to_import}.{missing_name}")
     except (Exception, SystemExit):
         # Loading the package may fail if there's and error. This
         # code assumes that's due to the invalid import by swig and
@@ -81,7 +80,7 @@ def swig_missing_hook(
         # because the assumption is not generally true and leaving the
         # fake module might cause problems in the generic code dealing
         # with simular problems.
-        sp = importlib.util.find_spec(to_import)
+        sp = find_spec(to_import)
 
         # By this time it must be possible to locate the spec,
         # as we were already passed as proper module node.
@@ -96,7 +95,7 @@ def swig_missing_hook(
             ModuleType, FakePackage([sp.origin.rpartition(os.sep)[0]])
         )
 
-        spec = importlib.util.find_spec("." + missing_name, to_import)
+        spec = find_spec(f"{to_import}.{missing_name}")
 
         del sys.modules[to_import]
 
-- 
2.43.0


From 897d10d152849de811654a3738fa55879bf41ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 35/43] fix: .git directories in a package are not data files

---
 modulegraph2/_graphbuilder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 8f47d44..dbfe31f 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -114,7 +114,7 @@ def _contains_datafiles(directory: pathlib.Path):
                 # Python module is not a data file
                 continue
 
-            elif p.name in ("__pycache__", ".hg", ".svn", ".hg"):
+            elif p.name in ("__pycache__", ".git", ".hg", ".svn"):
                 continue
 
             elif p.is_dir():
@@ -139,7 +139,7 @@ def _contains_datafiles(directory: pathlib.Path):
             for nm in zf.namelist():
                 if nm.startswith(path):
                     if any(
-                        part in ("__pycache__", ".hg", ".svn", ".hg")
+                        part in ("__pycache__", ".git", ".hg", ".svn")
                         for part in nm.split("/")
                     ):
                         continue
-- 
2.43.0


From b24e825d82dc6412c6291cac55a9ea10ba6fc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 36/43] fix: data files in a directory named like a module are
 data files

---
 modulegraph2/_graphbuilder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index dbfe31f..6ca317e 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -110,17 +110,19 @@ def _contains_datafiles(directory: pathlib.Path):
     """
     try:
         for p in directory.iterdir():
-            if any(p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()):
-                # Python module is not a data file
-                continue
-
-            elif p.name in ("__pycache__", ".git", ".hg", ".svn"):
+            if p.name in ("__pycache__", ".git", ".hg", ".svn"):
                 continue
 
             elif p.is_dir():
                 if _contains_datafiles(p):
                     return True
 
+            elif any(
+                p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()
+            ):
+                # Python module is not a data file
+                continue
+
             else:
                 return True
 
-- 
2.43.0


From 3c7ee6171ff636247902d764f013b831df51797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 37/43] fix: listing distributions failed when the name of one
 is not ASCII

---
 modulegraph2/_distributions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 50dc7b0..71df8f7 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -80,11 +80,9 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
 
     name = info["Name"]
     version = info["Version"]
-    if name is None or version is None:
-        raise ValueError(f"Incomplete metadata in {distribution_file!r}")
-
-    assert isinstance(name, str)
-    assert isinstance(version, str)
+    if not isinstance(name, str) or not isinstance(version, str):
+        # Missing, or not valid ASCII
+        raise ValueError(f"Invalid metadata in {distribution_file!r}")
 
     with open(os.path.join(distribution_file, "RECORD"), encoding="utf-8") as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
-- 
2.43.0


From 16867376159a35d806eea0d98ecbdffb105a10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 38/43] fix: distributions in relative search path entries were
 not attached to nodes

---
 modulegraph2/_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 71df8f7..385f72c 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -73,7 +73,7 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
     files: list[str] = []
     import_names: list[str] = []
 
-    distribution_dir = os.path.dirname(distribution_file)
+    distribution_dir = os.path.abspath(os.path.dirname(distribution_file))
 
     with open(os.path.join(distribution_file, "METADATA"), "rb") as meta_fp:
         info = BytesParser().parse(meta_fp)
@@ -148,6 +148,10 @@ def all_distributions(
 
     for entry in path:
         try:
+            # Relative entries are relative to the current directory, just
+            # like they are for the import system.
+            entry = os.path.abspath(entry)
+
             for fname in sorted(os.listdir(entry)):
                 if not fname.endswith(".dist-info"):
                     continue
-- 
2.43.0


From 0e77f7ce674044eaca306993cb3a0616be0405cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 39/43] fix: look for the module itself when it has a
 placeholder in sys.modules

---
 modulegraph2/_modulegraph.py | 2 +-
 modulegraph2/_utilities.py   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c893961..c89f327 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -603,7 +603,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # importlib.util.find_spec.
                 orig = sys.modules.pop(module_name)
                 try:
-                    spec = importlib.util.find_spec(module_name)
+                    spec = find_spec(module_name)
                 finally:
                     assert module_name not in sys.modules
                     sys.modules[module_name] = orig
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index b784a9c..6a38d6c 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -103,6 +103,10 @@ def find_spec(module_name: str) -> importlib.machinery.ModuleSpec | None:
     try:
         spec = importlib.util.find_spec(module_name)
     except Exception:
+        if module_name in sys.modules:
+            # There was no search, see ModuleGraph._load_module.
+            raise
+
         spec = _zip_spec(module_name)
         if spec is None:
             raise
-- 
2.43.0


From 5c1db44e42edb68cb84aaae948e9ad702fb416e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 40/43] fix: source that is too complex for the compiler
 aborted building the graph

---
 modulegraph2/_graphbuilder.py  | 19 +++++++++++++++----
 modulegraph2/_mypyc_support.py |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 6ca317e..799dff2 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -293,7 +293,9 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except (SyntaxError, RecursionError, MemoryError):
+                # The exceptions other than SyntaxError are raised for
+                # code that is too complex for the compiler.
                 node_type = InvalidModule
                 ast_imports = None
 
@@ -306,9 +308,18 @@ def node_for_spec(
             code = inspect_loader.get_code(spec.name)
             assert code is not None
             bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except (SyntaxError, ImportError, EOFError, ValueError, TypeError):
-            # The exceptions other than SyntaxError are raised for
-            # invalid or incompatible bytecode files.
+        except (
+            SyntaxError,
+            RecursionError,
+            MemoryError,
+            ImportError,
+            EOFError,
+            ValueError,
+            TypeError,
+        ):
+            # RecursionError and MemoryError are raised for source that is
+            # too complex for the compiler, the other exceptions except
+            # SyntaxError for invalid or incompatible bytecode files.
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 4a33489..4ee244f 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -98,7 +98,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
             flags=ast.PyCF_ONLY_AST,
             dont_inherit=True,
         )
-    except SyntaxError:
+    except (SyntaxError, RecursionError, MemoryError):
         return
 
     else:
-- 
2.43.0


From d08d014db9a205463cd21ff4665d8571ea087902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 41/43] fix: submodule with the name of its toplevel package
 was not found by 'from . import name'

---
 modulegraph2/_modulegraph.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c89f327..9d0b464 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1005,10 +1005,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
                         found_imported = False
+
+                        # A package has an edge to the package it is in, and
+                        # can have an edge to itself. Those don't say anything
+                        # about a name in the package, there might be a
+                        # submodule with the name of the toplevel package.
+                        toplevel = (
+                            imported_module.identifier.partition(".")[0]
+                            if isinstance(imported_module, Package)
+                            else None
+                        )
                         for ed_set, tgt in self.outgoing(imported_module):
-                            if (
-                                any(nm == ed.imported_as for ed in ed_set)
-                                or tgt.identifier == nm
+                            if any(nm == ed.imported_as for ed in ed_set) or (
+                                tgt.identifier == nm and nm != toplevel
                             ):
                                 self.add_edge(
                                     importing_module,
-- 
2.43.0


From d83fe6a9acf9e14d19b3313a540c54f441574c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 42/43] fix: a missing hook that adds a module no longer
 processes the work for modules that are still being processed

---
 modulegraph2/_modulegraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9d0b464..2832d05 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -415,7 +415,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
           A new node, either the result of one of the hooks or
           a new :class:`MissingModule`.
         """
-        node = self._missing_hook(self, importing_module, module_name)
+        with self._saved_stack():
+            # A hook that adds modules to the graph should not process
+            # the work for modules that are still being processed.
+            node = self._missing_hook(self, importing_module, module_name)
         if node is not None:
             return node
 
-- 
2.43.0


From 1f073f7338e495e123fe619c275ff59ebf4a3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 43/43] fix: excluded names and implied actions are used for
 modules that are found through an alias in sys.modules

---
 modulegraph2/_modulegraph.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 2832d05..a580981 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -685,6 +685,17 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
+
+            parts = node.name.split(".")
+            if any(
+                nm in self._global_lazy_nodes
+                or isinstance(self.find_node(nm), ExcludedModule)
+                for nm in (".".join(parts[: i + 1]) for i in range(len(parts)))
+            ):
+                # The aliased module, or a package it is in, is excluded
+                # or has implied actions.
+                self._find_or_load_module(alias_node, node.name)
+
             if self.find_node(node) is None:
                 self.add_node(node)
                 self._process_import_list(node, imports)
-- 
2.43.0

