"""Writes /verif/properties.jsonl (run by hand whenever a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, boundary=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MG="modulegraph2/_modulegraph.py"; GB="modulegraph2/_graphbuilder.py"; AST="modulegraph2/_ast_tools.py"; BC="modulegraph2/_bytecode_tools.py"
ND="modulegraph2/_nodes.py"; DI="modulegraph2/_distributions.py"; IM="modulegraph2/_implies.py"; UT="modulegraph2/_utilities.py"
HT="modulegraph2/_htmlbuilder.py"; DT="modulegraph2/_dotbuilder.py"; CL="modulegraph2/__main__.py"; SW="modulegraph2/_swig_support.py"; MY="modulegraph2/_mypyc_support.py"
CB="modulegraph2/_callback_list.py"; II="modulegraph2/_importinfo.py"; DP="modulegraph2/_depinfo.py"

prop("C01","Every import statement ends up as an edge",
 "For every script and every module with readable code that is in the graph, each import statement anywhere in its code (module level, functions, classes, any branch, handler or block, any number of names per statement) has an edge from that node to the node of the imported module. For 'from package import name' there is in addition an edge to the submodule called name when the name can only refer to a submodule (found, missing or excluded). This holds whatever order modules, scripts and other roots were added in, and for import cycles.",
 ["programs","histories"],"all module/script sources (any nesting of statements, any import form, cycles) x all orders of adding roots",
 "The suite checks a few hand-written trees; statement nesting, cycles and the order in which nodes get into the graph form an unbounded product.",
 [MG,AST,BC],[("import list processing","ModuleGraph._process_import/_process_namelist"),("AST scanner","extract_ast_info")],
 ["ModuleGraph.edges()","ModuleGraph.outgoing()"])
prop("C02","Nothing gets into the graph without a cause",
 "Every edge leaving a node corresponds to an import statement in the code of that node, to its containing package, to a configured implied action, alias or virtual module, to a distribution listing, or to a call made by a hook; code that merely looks like an import (strings, comments, unused files next to the module, modules of the same name elsewhere on the path) adds nothing. Every node was added by an explicit call, or was reached by such a cause.",
 ["programs","histories"],"all module sources, file trees and call histories",
 "Tests assert that expected edges are present and spot-check counts; they cannot enumerate the spurious nodes and edges an arbitrary tree could produce.",
 [MG,AST,BC,GB],[("edge creation","ModuleGraph.add_edge callers"),("scanners","extract_ast_info, extract_bytecode_info")],
 ["ModuleGraph.nodes()","ModuleGraph.edges()"])
prop("C03","Names resolve to the file and node kind Python itself would use",
 "The node for an importable name describes the module that Python's import system would load for that name with the current search path: same file, and a kind that says what it is (source, bytecode-only, extension, built-in, frozen, package, namespace package, invalid code, missing). Entries earlier on the search path, packages over modules, and extensions over source over bytecode take precedence, in directories and in zip archives.",
 ["configurations","inputs"],"all search paths and file trees, including decoys with equal names, zip archives, and namespace portions",
 "The suite has one fixed tree per node kind; precedence between competing candidates across path entries is a product of configurations.",
 [GB,MG,ND],[("loading","ModuleGraph._load_module"),("classification","node_for_spec")],
 ["type(node)","node.filename","node.search_path","node.init_module"])
prop("C04","A submodule always comes with, and links to, its packages",
 "When a found dotted name is a node in the graph, every enclosing package is a node as well, and the name has an edge to the directly enclosing package that is neither optional nor a rename. A submodule of a missing package is a missing module, one of an excluded package an excluded module.",
 ["programs","histories"],"all package nestings x all ways of referring to a submodule (import, from-import, root, implied, alias, hook)",
 "Tests use packages at most two levels deep reached in one way each; the link has to exist regardless of which operation mentions the submodule first.",
 [MG],[("loading of enclosing packages","ModuleGraph._find_or_load_module")],
 ["ModuleGraph.find_node()","ModuleGraph.edge_data()"])
prop("C05","Relative imports resolve as Python resolves them",
 "A relative import in a module or package refers to the module Python would resolve it to: one dot is the package itself for a package and the containing package for a module, each further dot one level up. A relative import that goes beyond the top-level package, or is in a script or in loose source code, results in an edge to an invalid-relative-import node named after the dots and module as written, and in nothing else; it never resolves to an unrelated absolute module.",
 ["programs"],"all importing nodes (package, module, namespace member, script, bytecode) x levels x module parts x name lists",
 "A handful of level/depth combinations are tested; scripts and bytecode modules are not.",
 [MG,GB],[("base of relative imports","relative_package"),("invalid imports","ModuleGraph._process_import")],
 ["InvalidRelativeImport nodes","ModuleGraph.edges()"])
prop("C06","Edges say whether the import is optional, global, from a name list, renamed",
 "The information on the edge for an import is determined by the statement alone: optional exactly when the statement is within a function, within an if-statement, or within the try, except or else part of a try statement (also try/except*), but not merely within its finally part; global exactly when it is not within a function; in-fromlist exactly for edges to names listed in a from-import; and renamed exactly when that module or name has an 'as' clause. Several statements importing the same module yield the set of all their distinct descriptions.",
 ["programs"],"all nestings of compound statements around all import forms",
 "Nesting depth and combination of statement kinds are unbounded; the suite fixes a few.",
 [AST,II,DP],[("flags while scanning","extract_ast_info"),("edge attributes","from_importinfo")],
 ["ModuleGraph.edge_data()"])
prop("C07","from-imports find submodules, re-exported modules and plain names correctly",
 "For 'from package import name': when the package itself imported a module under that name, the importer depends on that module; when the package defines the name as a global and has no such submodule, no node is invented for it; otherwise the name is a submodule (missing if it cannot be found). From-imports from a plain module never invent submodules, importing a module that is an alias consults the aliased module, and star imports hand on the names that can be imported from the importer in turn.",
 ["programs","histories"],"all packages (globals, re-exports, renames, submodules, star imports, chains) x all importers x import orders",
 "Depends on the interplay of the package's own imports, its globals and its files; tests cover single hand-made instances.",
 [MG,BC],[("name list processing","ModuleGraph._process_namelist"),("globals","extract_bytecode_info")],
 ["ModuleGraph.edges()","MissingModule nodes"])
prop("C08","Excluded modules are never scanned and nothing below them is loaded",
 "A name excluded before it gets into the graph, and every name below it, only ever shows up as an excluded-module node, its own imports add nothing, and it does not matter whether it was imported, from-imported, implied, an alias target, or added explicitly. An exclusion wins over an implied action for the same name in whichever order the two were configured; all other names are treated as if the exclusion did not exist. The name __main__ is always excluded.",
 ["configurations","programs","histories"],"all exclusion sets x all programs x all orders of configuration and roots",
 "Each test excludes one or two names in one program.",
 [MG],[("lazy exclusions","ModuleGraph.add_excludes/_implied_references"),("packages","ModuleGraph._find_or_load_module")],
 ["ExcludedModule nodes","ModuleGraph.nodes()"])
prop("C09","Implied dependencies, aliases and virtual modules are applied whenever used",
 "When a name with an implied action gets into the graph for whatever reason, all implied dependencies are nodes with an edge from that name; an alias or virtual name becomes an alias or virtual node that names its target and has an edge to the node of that target, and is not looked up in the filesystem. Implied actions of names that are not in the graph have no effect, and the last configured action for a name counts.",
 ["configurations","programs","histories"],"all implies maps (chains, cycles, packages, missing and excluded targets) x programs x histories",
 "Tests configure single implies; chains and cycles with packages interact with lazy evaluation.",
 [MG,IM],[("lazy implied actions","ModuleGraph._implied_references/add_implies")],
 ["AliasNode, VirtualNode","ModuleGraph.edges()"])
prop("C10","Post-processing hooks see every node once, when it is complete",
 "Every node the builder itself creates is passed to every post-processing hook that was registered before the node was added exactly once, whatever hooks or later calls re-process it, with later-added hooks called first. At that time all edges for the imports in the node's own code are present. Anything a hook adds to the graph from its callback is fully processed before the call that started the work returns.",
 ["histories","programs"],"all programs (cycles included) x hook registrations x hook actions (import_module, import_package, add_module)",
 "Call counts and graph contents at call time depend on traversal order and on re-entrant calls; tests look at simple recorded lists.",
 [MG,CB],[("scheduling of hooks","ModuleGraph._process_import_list"),("callback order","CallbackList")],
 ["arguments and graph seen by a registered hook"])
prop("C11","Missing-module hooks are asked first and their answer is used",
 "Before a missing-module node for a name that cannot be found is created, the missing-module hooks are called in reverse order of registration with the importing node (if any) and the full name, until one returns a node; that node is used wherever the name was needed and later hooks are not called. Hooks are not called for names that are found, excluded or already in the graph.",
 ["histories","programs"],"all programs x sets of hooks x answers (nothing, new node, existing node)",
 "Which names reach the hook, from where and how often depends on the shape of the import graph.",
 [MG,CB],[("hook invocation","ModuleGraph._create_missing_module"),("first answer wins","FirstNotNone")],
 ["calls seen by a registered hook","ModuleGraph.nodes()"])
prop("C12","Roots are exactly what was added, and adding again changes nothing",
 "The graph roots are exactly the nodes for the names, scripts, distributions and source imports that were explicitly added, each call returns the node that is in the graph under that name, and every name maps to one node. Adding a module, or a distribution, again only makes it a root; nodes and edges present earlier never disappear or change, and the final graph does not depend on splitting additions over several calls or on the order of the calls for programs without order-dependent imports.",
 ["histories"],"all sequences of additions, with repetitions and permutations",
 "Quantifies over call histories; each test performs one or two additions.",
 [MG],[("roots","ModuleGraph.add_module/add_script/add_distribution")],
 ["ModuleGraph.roots()","return values"])
prop("C13","The same project gives the same graph on every run",
 "The nodes, edges, edge information, hook calls and the content of reports for a given file tree, search path and sequence of calls do not depend on hash randomisation, on the order in which the operating system lists directories, on where the tree is located, or on graphs built earlier in the same process.",
 ["configurations","histories"],"all hash seeds, directory orders, locations and earlier builds",
 "The suite runs in one process with one hash seed and one directory order.",
 [MG,AST,DI,MY],[("ordering of names","ModuleGraph._process_namelist, extract_ast_info"),("directory listings","all_distributions, import_package")],
 ["complete graph dump per run"])
prop("C14","Size and nesting of the analysed code do not matter",
 "Import chains thousands of modules long, thousands of imports in one module, deeply nested code, deep packages, and very large name tables are analysed completely and give the graph that the same pattern gives at small sizes, with Python's default recursion limit.",
 ["programs","inputs"],"sizes up to several thousand of every dimension (chain length, fan-out, nesting, names, constants)",
 "Tests use small inputs; limits such as recursion or wide bytecode operands only show beyond a threshold.",
 [MG,AST,BC],[("explicit work queues","ModuleGraph._run_stack, extract_ast_info, _all_code_objects")],
 ["ModuleGraph.nodes()","ModuleGraph.edges()"])
prop("C15","Modules without source have the same dependencies as with source",
 "For a module of which only the compiled code is available, the graph contains the same imported modules, the same relative import resolution, and the same from-import names as when the source is available; an import is optional exactly when it is within a function, and renames are not reported.",
 ["programs"],"all module sources, compiled and stripped of source, in any tree",
 "Bytecode tests compile a few snippets in isolation; graph-level equality over arbitrary code is not tested.",
 [BC,GB],[("bytecode scanner","extract_bytecode_info")],
 ["BytecodeModule nodes","ModuleGraph.edges()"])
prop("C16","Global names read and written by a module are reported",
 "For a module with usable code the names written contain exactly the names bound at module level (assignments, imports, from-imported names, functions, classes, loop and other targets), the names that functions declare global and bind, and the names of its from-imports and of star-imported modules; class attributes and local variables of functions do not count. The names read contain every name loaded at module level, as a global within a function, or in a class body for names declared global there, hence the use of __import__ and __file__ is reported.",
 ["programs"],"all module sources (nesting of functions, classes, global declarations, targets)",
 "The scope rules form a product of statement kinds and nesting; tests list a few.",
 [BC,ND,MG],[("bytecode scanner","_extract_single"),("properties","Module.uses_dunder_import/uses_dunder_file")],
 ["node.globals_written","node.globals_read"])
prop("C17","Broken code in the project never aborts building the graph",
 "A module or package with syntax errors, undecodable source, or invalid bytecode becomes an invalid-module node (for a package: a package whose init module is invalid, if its source can be decoded), a package whose initialisation raises any exception or exits is analysed like any other, and submodules of all of these are still found. Adding modules to a graph never raises because of the contents of modules on the search path, and the rest of the graph is the same as if the broken module had no code.",
 ["programs","fault_sequences"],"all placements of broken modules (parse error, compile error, encoding, bytecode, failing or exiting initialisation) in all programs",
 "Failure kind x position in the package tree x way of reaching it is a product; tests have one broken package.",
 [MG,GB,UT],[("fallback for failing packages","ModuleGraph._load_module, FakePackage"),("invalid code","node_for_spec")],
 ["InvalidModule nodes","absence of exceptions"])
prop("C18","Rejected calls leave the graph as it was",
 "Calls that are refused (a script that is missing, unreadable, invalid or already added; an unknown distribution; source code with errors; a malformed module name; excludes given as a single string) raise the documented kind of exception and change nothing: nodes, edges, roots and the effect of later calls are as if the call had not been made.",
 ["histories","fault_sequences"],"all positions of refused calls in all call histories",
 "Tests check that the exception is raised, on an otherwise empty graph, not that the state is unaffected for later calls.",
 [MG],[("validation before modification","ModuleGraph.add_script/add_distribution/add_excludes")],
 ["exception type","complete graph dump before and after"])
prop("C19","Distribution information reflects the installed metadata",
 "For a dist-info directory the distribution has the name and version from its metadata, the absolute normalised path of every recorded file (also quoted and comma-containing names, and files outside of the directory), and as importable names exactly the dotted names of recorded Python source, bytecode and extension modules and packages within the search path entry, not those in bytecode caches.",
 ["inputs"],"all metadata and record files (quoting, suffixes, nesting, paths leaving the directory, missing hashes)",
 "Tests look at one real installed distribution and a few records.",
 [DI],[("record parsing","create_distribution")],
 ["PyPIDistribution attributes"])
prop("C20","Distributions are found, listed and attached to the right nodes",
 "Listing distributions yields every valid dist-info directory on the given path in path order and nothing else, unaffected by path entries that do not exist and by incomplete or damaged dist-info directories; lookup by name returns the first with that exact name or nothing. A node's distribution is the first one on the search path that records the node's file (for packages the file of the init module), and none for namespace packages, built-in and frozen modules; the graph reports each distribution that is used by reachable nodes (or all nodes) exactly once.",
 ["configurations","inputs"],"all path lists x installed/damaged distributions x graphs",
 "Competing, overlapping and damaged distributions do not occur in the test tree.",
 [DI,GB,MG],[("listing","all_distributions"),("association","distribution_for_file"),("reporting","ModuleGraph.distributions")],
 ["all_distributions()","distribution_named()","node.distribution","ModuleGraph.distributions()"])
prop("C21","Adding a distribution adds everything importable in it",
 "After adding a distribution (by name or object) it is a root and a node with an edge to the node of every importable name it provides, with all of their dependencies processed. Adding it again returns the node that is already there and changes nothing.",
 ["configurations","histories"],"all distributions (packages, extension modules, records of missing files) x graph histories",
 "Tests add one distribution to an empty graph.",
 [MG,DI],[("adding distributions","ModuleGraph.add_distribution")],
 ["ModuleGraph.outgoing(distribution)","ModuleGraph.roots()"])
prop("C22","import_package adds all modules of a package, recursively",
 "Importing a package from a hook links the importing node to the package, and the package and each of its (sub)packages to every module and subpackage in the directories of its search path (source, bytecode and extension modules), all of them fully processed, however deep. Names that are not importable (caches, data files, invalid identifiers) are not added, and for a plain module or a missing, excluded or other node it is the same as importing just that name.",
 ["inputs","histories"],"all package trees x all ways the package or parts of it are already in the graph",
 "Tests have one or two fixed packages.",
 [MG],[("recursive import","ModuleGraph.import_package")],
 ["ModuleGraph.edges()"])
prop("C23","import_module by hooks adds an unconditional edge and all dependencies",
 "Importing a module from a hook or a hook context returns the node of that name (creating it if necessary) and adds an edge from the given node that is global, not optional, not from a name list and not renamed. When the hook returns to the builder, or the hook context is left (also by an exception), all dependencies of the added nodes have been processed.",
 ["histories"],"all interleavings of hook calls, contexts and exceptions with other operations",
 "Tests use one call in one context.",
 [MG],[("hook API","ModuleGraph.import_module/hook_context")],
 ["ModuleGraph.edge_data()"])
prop("C24","HTML and text reports list exactly the reachable graph",
 "The text report lists every node reachable from a root exactly once, sorted by name, with class, name and filename. The HTML report has one section per reachable node with links to exactly the nodes it depends on and the reachable nodes that depend on it, every link has a target anchor in the document when the target is a module, and names are escaped so that the document can be parsed back into exactly this information.",
 ["inputs","histories"],"all graphs, with arbitrary names, unreachable parts and distributions",
 "Output tests compare with a mock or check that something is printed.",
 [HT,MG],[("HTML","export_to_html"),("text","ModuleGraph.report")],
 ["text written to the stream"])
prop("C25","Graphviz output describes exactly the reachable graph",
 "The dot output is a syntactically valid digraph that has a statement for every reachable node and edge and for nothing else, and a cluster per distribution with exactly its reachable nodes. Names are quoted such that they can be read back, roots are marked, edges are dashed exactly when all imports they stand for are optional, and links from a submodule to its package are drawn without arrowhead.",
 ["inputs","histories"],"all graphs with arbitrary names",
 "The suite checks the writer with mocks on tiny graphs.",
 [DT,CL],[("writer","export_to_dot"),("attributes","format_node, format_edge, group_nodes")],
 ["text written to the stream"])
prop("C26","The command line does what its options say, with the same graph as the API",
 "Running the tool for modules, scripts or distributions, with search path additions (first option first on the path), exclusions (individual and the whole standard library), format and output file, writes the report of exactly the graph that the corresponding API calls build, to the file or to standard output. Usage errors, and output files that cannot be written, end with a non-zero exit status and a message; the module search path is restored.",
 ["configurations","inputs"],"all option combinations and orders x projects",
 "Argument tests mock the graph builder or the writer; the composition is not tested.",
 [CL],[("options","parse_arguments"),("build","make_graph"),("output","format_graph")],
 ["exit status","stdout, stderr, output file"])
prop("C27","Packages know whether they contain data files",
 "A regular package is marked as having data files exactly when its directory, or any subdirectory at any depth, has a file that is not a Python module (source, bytecode or extension), disregarding bytecode caches and version control directories; empty directories do not count. The answer is the same for a directory and for the same tree in a zip archive.",
 ["inputs"],"all directory trees, on disk and zipped",
 "A few trees are tested; the recursion over sibling order is not.",
 [GB],[("scan","_contains_datafiles")],
 ["Package.has_data_files"])
prop("C28","Analysis does not execute or disturb more than it must",
 "Building a graph never executes scripts, source passed as text, or modules other than packages that contain a module which is looked up, packages that extend their own search path in code, and what those packages import themselves; the module search path and every module that was already imported are unchanged afterwards. No files of the project are changed or added (apart from Python's own bytecode caches).",
 ["programs","histories"],"all programs with observable initialisation side effects x all histories",
 "Tests do not observe execution of the analysed code.",
 [MG,GB,UT],[("lookup by spec","importlib.util.find_spec in ModuleGraph._load_module"),("path handling","saved_sys_path")],
 ["markers written by analysed code","sys.path, sys.modules, project tree before/after"])
prop("C29","SWIG-style extension imports are resolved to the extension in the package",
 "When a module or package that defines the SWIG import helper imports an underscore-prefixed extension of its own name that is not found as a top-level module, and the extension is next to it in its package, the graph has the extension as a top-level extension-module node linked from the importer. In every other case (no helper, other name, not an extension, no such file, top-level module) the name is missing as usual.",
 ["programs","configurations"],"all combinations of helper, importer kind, name, file kind, broken packages",
 "Tests cover three generated SWIG projects.",
 [SW],[("missing hook","swig_missing_hook")],
 ["ExtensionModule nodes","ModuleGraph.edges()"])
prop("C30","Dependencies of mypyc-compiled modules are taken from the source next to them",
 "For an extension module (or package with an extension as init) that belongs to a distribution that has a mypyc helper module, and has its Python source next to it, the graph has an edge to the helper module, which is added, and edges for all imports in that source, as if it were a source module. Without distribution, helper or source, or with invalid source, nothing is added for the source.",
 ["programs","configurations"],"all combinations of distribution, helper, source presence and contents",
 "Tests build one mypyc project.",
 [MY],[("post-processing hook","mypyc_post_processing_hook")],
 ["ModuleGraph.edges()"])
prop("C31","Imports of loose source code become roots",
 "Adding the dependencies of source code makes roots of exactly: each imported module, for each from-imported name the dotted name within that module, and for relative imports the invalid-relative-import node; all of their dependencies are processed, and no node for the source code itself is added.",
 ["programs","histories"],"all sources (nesting, forms) x histories",
 "One or two snippets are tested.",
 [MG],[("source roots","ModuleGraph.add_dependencies_for_source")],
 ["ModuleGraph.roots()"])
prop("C32","The graph does not depend on how the project is stored",
 "Storing the same pure Python project in one directory, spread over several search path entries (namespace packages), in a zip archive, or as compiled code only, gives the same module names, dependencies and node kinds, except for filenames and for what is documented for modules without source.",
 ["configurations","programs"],"all pure Python projects x storage layouts",
 "Tests use separate fixed trees for each kind of storage.",
 [GB,MG],[("loader independence","node_for_spec")],
 ["complete graph dump per layout"])
prop("C33","Namespace packages cover all of their portions",
 "A directory without init module on any search path entry is a namespace package whose search path is all of its portions in path order, and modules in any portion are found; a regular package or module of the same name anywhere on the path takes over as in Python. A package whose init extends its path with pkgutil or pkg_resources is marked as such, has an edge to that module, and its modules in other path entries are found.",
 ["configurations"],"all distributions of portions over path entries, nested namespaces, mixes with regular packages",
 "Two fixed namespace layouts are tested.",
 [GB],[("namespace handling","node_for_spec")],
 ["NamespacePackage.search_path","Package.namespace_type"])
prop("C34","Names registered in the interpreter as another module become aliases",
 "When a name is present in the interpreter's module table as another module (as os.path is), the graph has an alias node for the name that names, and links to, the node of the real module; the real module is analysed once, is linked to its package, and is the same node when it is also imported under its own name, in any order.",
 ["configurations","histories"],"all alias registrations x orders of use of alias and real name",
 "Only os.path is tested.",
 [MG],[("alias detection","ModuleGraph._load_module")],
 ["AliasNode.actual_module","ModuleGraph.edges()"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fp:
        for p in P:
            fp.write(json.dumps(p) + "\n")
    print(len(P))
