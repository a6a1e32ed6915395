#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

CORE = "stuart-core/src/"
CLI = "stuart/src/"

prop("C01", "Project content cannot make the builder panic",
 "Whatever a project's manifest, templates, markdown, frontmatter, JSON files, file names and environment contain, parsing and building it ends either in success or in an ordinary reported error. It never ends in a panic: no missing value is unwrapped, no out-of-range element is indexed or sliced, no arithmetic underflows, and no explicit panic is reached from the project's input, including while the error itself is displayed. Plugins that break the contract of the plugin interface are out of scope.",
 ["inputs", "programs"], "every manifest, template text, markdown file, JSON file, directory layout and environment",
 "Unit tests feed eleven well-formed templates; the property quantifies over every malformed one, and over every call site that unwraps, indexes or subtracts.",
 [CORE+"parse/mod.rs", CORE+"parse/parser.rs", CORE+"parse/function.rs", CORE+"parse/markdown.rs", CORE+"process/mod.rs", CORE+"functions/parsers", CORE+"fs/mod.rs", CORE+"lib.rs", CLI+"build.rs", CLI+"error.rs"],
 [("argument-count assertions before indexing", CORE+"functions/parsers/*.rs parse()"), ("fallible accessors converted to errors with ok_or_else", CORE+"functions/parsers/*.rs execute()"), ("stack-height discipline keeps a frame on the stack", CORE+"functions/parsers/end.rs")],
 observe=["process exit status", "stderr"])

prop("C02", "A build that fails leaves the previous output untouched",
 "When a build fails in a pre-build script, while reading, parsing or rendering the content, or while merging static or temporary files, nothing on disk has been changed by Stuart: the output directory, the metadata file and the temporary directory are as the failed step found them. The first modification of any of them happens only after all of those steps have succeeded.",
 ["inputs", "fault_sequences", "histories"], "every project and every step at which the build can fail",
 "No test builds a failing project over an existing output; there are dozens of failure points and the guarantee is about the order of every one of them against every write.",
 [CLI+"build.rs", CORE+"lib.rs", CORE+"fs/mod.rs"],
 [("whole build happens in memory and is saved last", CLI+"build.rs StuartContext::build"), ("save replaces the output directory", CORE+"fs/mod.rs Node::save")],
 observe=["output directory", "metadata.json", "temp directory"])

prop("C03", "Rendering only reads the in-memory content tree",
 "Parsing template text and rendering pages with the built-in functions perform no input or output of their own: they do not touch the filesystem, run processes, use the network, read or set environment variables, or depend on clocks or randomness (parts a date text leaves out are completed by the external date parser), start threads, or write to the terminal. Everything a page can include comes from the content tree that was loaded before rendering began, and a path in a template can never leave that tree.",
 ["inputs", "programs"], "every template and every built-in function",
 "Tests cannot observe the absence of an effect for all templates; the property is about everything reachable from the rendering entry points.",
 [CORE+"parse", CORE+"process/mod.rs", CORE+"functions", CORE+"fs/mod.rs", CORE+"lib.rs"],
 [("in-memory tree lookup which refuses parent and absolute components", CORE+"fs/mod.rs Node::get_at_path"), ("Node -> Node mapping", CORE+"process/mod.rs Node::process")])

prop("C04", "No failure is swallowed: a failed step fails the command",
 "If reading, parsing, rendering, merging, writing, loading a plugin or running a script fails, the command that needed it reports an error and the process exits with a non-zero status. No such failure is dropped, replaced by a default value or skipped over so that a build is reported as successful although a part of it failed; the only tolerated failures are removing a temporary directory, creating a directory that already exists, and best-effort Git helpers.",
 ["fault_sequences", "inputs"], "every fallible operation on every command's path, and every way it can fail",
 "Tests exercise no I/O failure at all; each of the fallible call sites is a separate obligation.",
 [CLI+"main.rs", CLI+"build.rs", CLI+"scripts.rs", CLI+"plugins", CLI+"new.rs", CORE+"lib.rs", CORE+"fs/mod.rs", CORE+"process/mod.rs", CORE+"parse", CORE+"functions"],
 [("Result propagation to main, which prints and exits 1", CLI+"main.rs main")],
 observe=["process exit status"])

prop("C05", "Unbalanced or mismatched blocks are always errors",
 "A page, markdown body, markdown template or root template in which a block is left open, closed twice, or closed with a name other than that of the innermost open block is never rendered: it is always an error; code skipped by a conditional or a loop over nothing needs only be balanced. A section becomes available for insertion only when it is closed by an `end` carrying exactly the name it was opened with, and `else` is accepted only directly inside a conditional block.",
 ["inputs", "programs"], "every sequence of block openings and closings in any of the four kinds of template text",
 "Tests only contain balanced templates; the quantifier is over all token sequences and all block kinds.",
 [CORE+"process/mod.rs", CORE+"functions/parsers/begin.rs", CORE+"functions/parsers/end.rs", CORE+"functions/parsers/else.rs", CORE+"functions/parsers/for.rs", CORE+"functions/parsers/if.rs", CORE+"functions/parsers/ifdefined.rs"],
 [("frame names carry the opening function and label", CORE+"functions/parsers"), ("base frame check after the last token", CORE+"process/mod.rs"), ("unexpected end of file inside block functions", CORE+"functions/parsers/{for,if,ifdefined}.rs")],
 state=[("stack", "frames of the open blocks, innermost last", CORE+"process/mod.rs Scope::stack")])

prop("C06", "Conditionals compare their operands, in order, as their name says",
 "`ifeq`, `ifne`, `ifgt`, `ifge`, `iflt` and `ifle` render their body exactly when the first argument is respectively equal to, not equal to, greater than, greater than or equal to, less than, or less than or equal to the second, and `ifdefined` exactly when the variable exists and is not null. Numbers and texts are ordered among themselves; the order of values of other or different kinds is unspecified. `else` switches to the opposite outcome.",
 ["inputs", "programs"], "every pair of operands and every comparison function",
 "One test case samples a few operand pairs; operator and operand order are a fact about each function's code.",
 [CORE+"functions/mod.rs", CORE+"functions/parsers/if.rs", CORE+"functions/parsers/ifdefined.rs"],
 [("operator table of the if_parsers macro", CORE+"functions/mod.rs"), ("Input comparison", CORE+"functions/mod.rs PartialEq/PartialOrd for Input")])

prop("C07", "Skipped template code has no effect",
 "Template code in the branch of a conditional that is not taken, and the body of a loop over nothing, has no effect at all: none of its text, variables, sections or functions is processed, and rendering continues directly after the `else` or `end` that belongs to that very block, however deeply other blocks are nested in the skipped code.",
 ["inputs", "programs"], "every nesting of blocks inside skipped code, and every empty collection",
 "Tests never nest a block of the same kind in a skipped branch and never loop over an empty collection.",
 [CORE+"functions/parsers/if.rs", CORE+"functions/parsers/ifdefined.rs", CORE+"functions/parsers/for.rs", CORE+"functions/mod.rs"],
 [("token loops of the block functions", CORE+"functions/parsers/{if,ifdefined,for}.rs execute")])

prop("C08", "Variables resolve innermost-first and are never overwritten",
 "A variable reference, wherever it is used (inserted into text, compared, iterated, formatted), denotes the value in the innermost enclosing block that defines the name, and outer definitions are consulted only when no inner block defines it. A value defined in a block disappears when the block ends, and importing a name that the current block already defines is an error rather than an overwrite.",
 ["inputs", "programs"], "every nesting of blocks and every set of definitions",
 "Only one test nests loops, with distinct names; shadowing is never exercised.",
 [CORE+"process/mod.rs", CORE+"process/stack.rs", CORE+"functions/parsers/for.rs", CORE+"functions/parsers/import.rs"],
 [("reverse iteration over the frames with first-match exit", CORE+"process/mod.rs"), ("existing-variable check", CORE+"functions/parsers/import.rs")])

prop("C09", "Every documented function exists under its name, built-ins first",
 "Each function listed in the documentation can be called under exactly that name and runs the function of that name; no two built-in functions share a name. Built-in functions take priority over plugin functions, a plugin function is reachable by its bare name and as `plugin::function`, and any other function name is an error.",
 ["programs", "configurations"], "every function name and every set of loaded plugins",
 "Several documented functions have no test; a function dropped from the registry or renamed is invisible to the test suite.",
 [CORE+"lib.rs", CORE+"functions/mod.rs", CORE+"functions/parsers", CORE+"parse/mod.rs", CLI+"plugins/js/mod.rs", "README.md"],
 [("define_functions registry", CORE+"lib.rs"), ("lookup order", CORE+"parse/mod.rs parse_function"), ("name() of parser and function", CORE+"functions/parsers")])

prop("C10", "Malformed function calls are rejected when the template is parsed",
 "A call to a built-in function with too few or too many positional arguments, with a named argument the function does not know, or with an argument of a kind it does not accept is rejected with an error when the template is parsed. No argument that was written in the template is silently ignored.",
 ["inputs", "programs"], "every built-in function and every argument list",
 "Tests contain only well-formed calls.",
 [CORE+"functions/parsers", CORE+"parse/mod.rs", CORE+"parse/function.rs"],
 [("quiet_assert on argument counts", CORE+"functions/parsers/*.rs parse()"), ("exhaustive named-argument match", CORE+"functions/parsers/for.rs")])

prop("C11", "References to missing things are errors, never empty output",
 "Inserting an undefined variable or a null value, inserting an undefined section, importing or iterating over a file or directory that is not in the content tree or has the wrong kind, comparing or formatting an undefined variable, and rendering a page with no root or markdown template are errors. None of them silently produces empty output.",
 ["inputs", "programs"], "every reference in every template",
 "Tests only contain references that resolve.",
 [CORE+"process/mod.rs", CORE+"functions/parsers", CORE+"fs/mod.rs"],
 [("ok_or_else on lookups", CORE+"functions/parsers/*.rs"), ("missing root errors", CORE+"process/mod.rs")])

prop("C12", "Loop options apply in the order sort, order, skip, limit",
 "`for` applies its options in a fixed order: items are sorted by `sortby`, then `order` sets the direction, then `skip` items are dropped, then at most `limit` items are kept; each named argument drives its own stage, an absent one leaves that stage out, and the body runs once per remaining item with that item bound to the loop variable, starting from the same template position.",
 ["inputs", "programs"], "every combination of options and every collection",
 "One test combines skip and limit; sort, order and their combination with skip/limit are untested.",
 [CORE+"functions/parsers/for.rs"],
 [("iterator pipeline", CORE+"functions/parsers/for.rs ForFunction::execute"), ("named argument parsing", CORE+"functions/parsers/for.rs ForParser::parse")])

prop("C13", "The nearest enclosing root and markdown templates are used",
 "A page is rendered with the `root.html` (and, for markdown, `md.html`) of its own directory if there is such a file, and otherwise with that of the closest enclosing directory that has one. A template in a sibling or child directory never affects a page, and the two templates never stand in for each other.",
 ["inputs", "configurations"], "every directory layout",
 "All tests use one directory with one root template.",
 [CORE+"lib.rs", CORE+"process/mod.rs"],
 [("environment updated from a directory's own children and passed down by value", CORE+"lib.rs build_node / update_from_children")])

prop("C14", "Pages are rendered in isolation from one another",
 "Rendering one page cannot influence another: each page starts from a fresh stack holding only the base variables and an empty set of sections, rendering works on shared immutable data, and the library keeps no mutable global or interior-mutable state. The root template sees the sections of the page being rendered and not the page's local variables.",
 ["schedules", "histories", "inputs"], "every set of pages and every order of rendering them",
 "Every test renders one page in a fresh context.",
 [CORE+"process/mod.rs", CORE+"lib.rs", CORE+"process/stack.rs"],
 [("fresh stack and sections per page", CORE+"process/mod.rs process_html/process_markdown"), ("&self rendering", CORE+"lib.rs build_node")])

prop("C15", "The output tree holds exactly what the rules say is published",
 "Root and markdown template files, and content files whose name in the output would be that of a template, are never published, JSON content files are published only when `save_data_files` is on, and every other file is published under its own name with exactly its rendered or original bytes. With `strip_extensions` on, a rendered `NAME.html` other than `index.html` is published as `NAME/index.html`; static files are published under their own name, unrenamed.",
 ["inputs", "configurations"], "every output tree and every combination of settings",
 "The CLI test checks only that one index.html exists.",
 [CORE+"fs/mod.rs", CORE+"process/mod.rs", CORE+"parse/contents.rs", CLI+"build.rs"],
 [("publishing filter", CORE+"fs/mod.rs Node::save_recur"), ("output node construction", CORE+"process/mod.rs Node::process")])

prop("C16", "Conflicting outputs are an error, never a silent overwrite",
 "When static or temporary files are merged into the output, a file or directory that collides with an existing one of the same name fails the build unless both are directories, in which case they are merged recursively; nothing is dropped or overwritten. Likewise, saving never lets two published files end up at the same path: the second one is an error.",
 ["inputs", "configurations"], "every pair of trees and every pair of published names",
 "No test merges conflicting trees or builds two pages with the same target path.",
 [CORE+"fs/mod.rs", CLI+"build.rs"],
 [("conflict detection", CORE+"fs/mod.rs Node::merge"), ("writes of published files", CORE+"fs/mod.rs Node::save_recur")])

prop("C17", "Every setting means what it says, with its documented default",
 "Each option in `stuart.toml` controls the behaviour it is named after and no other; a missing `[settings]` section or option takes the documented default (`strip_extensions` on, `save_data_files` off, `save_metadata` off), independently of the others; and the site's name and author are taken from the `[site]` section.",
 ["configurations"], "every manifest",
 "The CLI tests use one manifest without settings.",
 [CLI+"config/mod.rs", CORE+"config.rs", CLI+"build.rs", "README.md"],
 [("RawConfig to Config conversion", CLI+"config/mod.rs"), ("Config::default", CORE+"config.rs")])

prop("C18", "Stuart writes and deletes only inside its designated places",
 "A build modifies only the output directory, the project's `temp` directory, `metadata.json` and `_build/plugins`; `clean` removes only `dist`, `_build` and `metadata.json`, and only in a directory that holds a `stuart.toml`; `new` writes only inside the directory it creates. Every deletion targets one of those places as a whole, and nothing in `content`, `static` or `scripts` is ever modified or deleted.",
 ["inputs", "configurations"], "every command and every argument",
 "Tests never look at what else was modified; the guarantee is about every mutating call in the program.",
 [CORE+"fs/mod.rs", CLI+"build.rs", CLI+"main.rs", CLI+"new.rs", CLI+"plugins/mod.rs"],
 [("fixed path construction for every mutation", CLI+"build.rs, "+CLI+"main.rs, "+CLI+"plugins/mod.rs, "+CLI+"new.rs")],
 observe=["filesystem"])

prop("C19", "`stuart new` never overwrites anything",
 "`stuart new NAME` creates the directory NAME and fails, having changed nothing, if it already exists; files are written only after its creation succeeded. The manifest it writes is valid for any site name or Git user name, carrying exactly those strings.",
 ["inputs", "fault_sequences"], "every name, Git identity and pre-existing directory",
 "No test runs `new`.",
 [CLI+"new.rs"],
 [("create_dir before any write", CLI+"new.rs new")])

prop("C20", "Plugin code stays loaded for as long as anything can call it",
 "The shared library of a native plugin stays loaded for as long as any function, parser or parsed content that came from the plugin exists, including while those objects are destroyed at the end of the program. A library that was loaded is kept together with its plugin by the same owner.",
 ["histories"], "every order of loading, building and dropping",
 "No test loads a native plugin; a wrong drop order is undefined behaviour that may go unnoticed.",
 [CLI+"plugins/mod.rs", CORE+"lib.rs", CLI+"build.rs"],
 [("field declaration order decides drop order", CLI+"plugins/mod.rs DynamicPluginManager, "+CORE+"lib.rs Stuart")])

prop("C21", "Plugin sources are tried in order until one loads",
 "The sources of a plugin are tried from left to right; the first that loads is used and the rest are not touched, and the build fails if none loads. A plugin is registered only if it loaded completely: a failed download, clone, pull or compilation never yields a plugin, and the error of at least the first source that failed is shown when none loads.",
 ["configurations", "fault_sequences"], "every dependency table and every source that fails",
 "Only one-source local JavaScript plugins are tested.",
 [CLI+"plugins/mod.rs", CLI+"plugins/source.rs"],
 [("source loop", CLI+"plugins/mod.rs load"), ("source kinds", CLI+"plugins/mod.rs load_from_source")])

prop("C22", "Build scripts run at their documented points and can fail the build",
 "Pre-build scripts finish before any content is read, and post-build scripts start only after the output and the metadata have been written. A script that cannot be started or exits unsuccessfully fails the build. Every script sees `STUART_MANIFEST_PATH`, `STUART_MANIFEST_DIR`, `STUART_TEMP_DIR`, `STUART_OUT_DIR` and `STUART_ENV`, naming the very manifest, directories and environment that the build itself uses, and `$env.STUART_ENV` has that same value in templates.",
 ["configurations", "histories", "fault_sequences"], "every project with scripts, every output setting, every environment",
 "No test has build scripts.",
 [CLI+"scripts.rs", CLI+"build.rs", CORE+"lib.rs"],
 [("order of phases", CLI+"build.rs StuartContext::build"), ("environment table", CLI+"build.rs StuartContext::init"), ("script runner", CLI+"scripts.rs")])

prop("C23", "The same project always builds to the same output",
 "The output of a build is a function of the project's files, its settings and the environment variables: it does not depend on directory enumeration order, hash-map iteration order, the clock, random numbers or earlier builds by the same process.",
 ["schedules", "histories", "configurations"], "every project, filesystem and sequence of builds",
 "A test runs each build once on one filesystem.",
 [CORE+"fs/mod.rs", CORE+"lib.rs", CORE+"functions/parsers/for.rs", CLI+"build.rs", CLI+"scripts.rs"],
 [("order of a directory's children", CORE+"fs/mod.rs create_from_dir"), ("stable sort", CORE+"functions/parsers/for.rs")])

prop("C24", "The development server survives failed builds and reloads only good ones",
 "A reported change to any file of the project other than the manifest, arriving while the server waits for changes, is followed by a rebuild. A build that fails, the first included, is reported and leaves the development server and its watcher running. Browsers are told to reload after every successful rebuild and only then; dead browser connections are dropped without affecting the others; and Stuart's own writes to the output directory, temporary directory, metadata file and plugin cache never trigger a rebuild.",
 ["schedules", "histories", "fault_sequences"], "every sequence of file changes, build outcomes and client connections",
 "No test starts the server.",
 [CLI+"serve/mod.rs"],
 [("watch loop", CLI+"serve/mod.rs build_watcher")])

prop("C25", "The development server exposes only the output, only on this machine",
 "The development server listens only on the loopback interface, and the only files it can send are those that the path lookup confines to the output directory of the build it serves. A request never causes a write, a process or any other file access, and cannot end the server by panicking.",
 ["inputs"], "every request",
 "No test sends a request.",
 [CLI+"serve/mod.rs"],
 [("confined lookup", CLI+"serve/mod.rs serve_dir"), ("bind address", CLI+"serve/mod.rs serve")])

prop("C26", "Error messages point at the construct that failed",
 "Every error raised while executing a function or inserting a variable carries the file, line and column of that very function or variable tag, even when the function has consumed further tags or the failing text came from a template in another file, and every parse error carries the file being parsed and the current position. Errors about a page as a whole name that page's file.",
 ["inputs", "programs"], "every error in every template",
 "No test looks at an error.",
 [CORE+"process/mod.rs", CORE+"parse", CORE+"functions/parsers", CORE+"fs/mod.rs"],
 [("token captured before it is executed", CORE+"functions/parsers/*.rs"), ("token path and position recorded at parse time", CORE+"parse/mod.rs parse_html")])

prop("C27", "Metadata is exported when, and only when, it is enabled, for every file",
 "`metadata.json` is written by a build exactly when `save_metadata` is on, after the output has been saved, and asking the library for metadata that is not enabled is an error. It carries the site's name and author and an entry for every file and directory of the output tree with its name and, for markdown, JSON and plugin content, its parsed data.",
 ["configurations", "inputs"], "every project and setting",
 "No test enables metadata.",
 [CORE+"lib.rs", CORE+"fs/mod.rs", CORE+"process/mod.rs", CLI+"build.rs", CORE+"parse/contents.rs"],
 [("gate", CORE+"lib.rs Stuart::save_metadata"), ("recursive export", CORE+"fs/mod.rs save_metadata_recur")])

prop("C28", "JavaScript plugins are isolated and exchange values faithfully",
 "Each JavaScript plugin runs in its own context, created for it alone, and its functions are looked up only there. Values passed to JavaScript and back keep their JSON kind (null, boolean, number, string, array, object), arguments are passed in order, and an undefined value is never turned into data: passing an undefined variable is an error and a function returning nothing inserts nothing.",
 ["programs", "histories"], "every set of plugins, functions and values",
 "Two tests run a handful of functions; kinds such as booleans, null and nested values are never passed.",
 [CLI+"plugins/js/mod.rs", CLI+"plugins/js/json.rs", CLI+"plugins/js/context.rs"],
 [("one context per plugin", CLI+"plugins/js/mod.rs load_js_plugin"), ("value conversion", CLI+"plugins/js/json.rs")])

prop("C29", "Quiet mode prints nothing but errors",
 "With `--quiet`, a command prints nothing unless it fails: every progress or informational message goes through a check of the log level, on every path, and only errors are printed regardless of the level. Nothing is printed by the core library.",
 ["configurations", "histories"], "every command and every message",
 "No test runs with --quiet.",
 [CLI+"logger/mod.rs", CLI+"logger/progress.rs", CLI+"main.rs", CLI+"serve/mod.rs"],
 [("log! macro's level check", CLI+"logger/mod.rs"), ("StuartError::print", CLI+"error.rs")])

prop("C30", "Every page sees fully processed markdown",
 "Functions inside markdown bodies are executed and the bodies converted to HTML for the whole content tree before the first page is rendered, and every markdown file is converted, in every directory. A page therefore never sees raw or missing content of a markdown file, and `content`, `markdown` and the frontmatter fields of a file denote that same file's data.",
 ["inputs", "histories"], "every content tree and every reference between files",
 "Tests preprocess a flat directory of three markdown files.",
 [CORE+"lib.rs", CORE+"process/mod.rs", CORE+"parse/markdown.rs"],
 [("preprocessing pass before build_node", CORE+"lib.rs Stuart::build")])

# Properties stated, but outside what this technique can decide.
prop("N01", "Template text is reproduced verbatim around tags",
 "Text outside template tags reaches the output byte for byte, apart from the documented escape of an opening tag.",
 ["inputs"], "every template text",
 "One test samples the escape.", [CORE+"parse/parser.rs", CORE+"parse/mod.rs"],
 [("character scanner", CORE+"parse/parser.rs extract_until")])
prop("N02", "Excerpts have the requested length and no markup",
 "An excerpt contains exactly the first N text characters with tags removed, and an ellipsis exactly when text was left out.",
 ["inputs"], "every string and length",
 "One test samples it.", [CORE+"functions/parsers/excerpt.rs"],
 [("character loop", CORE+"functions/parsers/excerpt.rs")])
prop("N03", "Dates are formatted as the format string says",
 "A date in any recognised notation is rendered in UTC according to the format string.",
 ["inputs"], "every date string and format",
 "One test samples it.", [CORE+"functions/parsers/dateformat.rs"],
 [("dateparser and chrono", CORE+"functions/parsers/dateformat.rs")])
prop("N04", "No file change is lost by the development server",
 "After the last change to the project's files, the development server eventually serves the result of building them.",
 ["schedules"], "every interleaving of changes and builds",
 "No test starts the server.", [CLI+"serve/mod.rs"],
 [("event loop", CLI+"serve/mod.rs build_watcher")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
