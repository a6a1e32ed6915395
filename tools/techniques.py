"""Technique and assurance note per property (used by mkmanifest.py)."""
TRUST = " Trusted: rustc's MIR, the fact extractor, the effect tables and the models of std combinators; bodies of third-party crates are taken at their documented behaviour."
TECH = {
    "C01": ("fallibility dataflow: provenance of every unwrapped value, index, slice bound and subtrahend on the inlined MIR graph, with the branch facts of every path to it as the required guard; call-graph containment of libraries that panic",
            "Covers every construct of both crates that can panic and that the build, the loading of a project or the display of an error can reach (JavaScript and the server excepted): "
            "operations that fail on project content must be tested before they are unwrapped, sizes before elements are taken, bounds must come from the text that is cut. Constructs whose "
            "operand it cannot trace (internal invariants such as the base frame of the stack, values that change in loops) are reported in the evidence as not decided and never alarm; memory exhaustion "
            "and stack overflow are not covered." + TRUST),
    "C02": ("path order query over the inlined MIR control-flow graph, plus effect reachability on the call graph",
            "Covers every path of StuartContext::build and of the commands around it." + TRUST),
    "C03": ("effect reachability on the call graph (all implementations of a dispatched trait method may run)",
            "Covers every function reachable from parsing and rendering." + TRUST),
    "C09": ("registry enumeration and provenance of the dispatched parser on the inlined MIR graph",
            "Covers every documented function and every path of the function parser." + TRUST),
    "C10": ("forward dataflow over argument counts, kinds and names on the inlined MIR of every function parser",
            "Covers every implementation of FunctionParser::parse." + TRUST),
    "C17": ("field-by-field provenance of the configuration on the inlined MIR graph, with the branch facts of every path",
            "Covers the conversion of the manifest, the deserialisers' names, the defaults and the builder's construction." + TRUST),
    "C15": ("conditional constant propagation over classes of file names and settings on the inlined MIR graph, with provenance of the written path and bytes",
            "Covers every class of node name against every creation of a file while saving." + TRUST),
    "C16": ("provenance of the result of merging and emission through every stage of the build, with the branch facts of every path",
            "Covers the calls between StuartContext::build and Node::save, and the arms of Node::merge." + TRUST),
    "C13": ("conditional constant propagation over classes of child names and inherited templates, provenance of the environment and of the token sources of every page",
            "Covers the update of the environment, the recursion over directories and every token source of a page." + TRUST),
    "C14": ("ownership and freshness analysis of the state a page's rendering may write, on the inlined MIR graph and the call graph",
            "Covers every mutable place reachable from the rendering of one page, and every static of both crates." + TRUST),
    "C27": ("conditional path queries and structural provenance of the emitted JSON on the inlined MIR graph",
            "Covers the metadata setting, the order of writing and the shape of the tree for files and directories." + TRUST),
    "C28": ("interpretation of the JavaScript bridge's MIR on a model of the engine's heap, with the plugin loaded, called and calling back",
            "Covers five plugins with functions of the same names loaded one after another: the context each is evaluated in and its functions called in, which "
            "function a call reaches, the number, order and kind of arguments of every JSON kind, undefined arguments, the insertion of results of every kind, and "
            "STUART.get/set for values of every kind. Does not cover cyclic or exotic JavaScript objects, memory safety of a stashed STUART object, or error positions. " + TRUST),
    "C29": ("whole-program interpretation of `main` under `--quiet` with the registered logger tracked as a value, every standard-stream write reached on any path checked to be the print of a returned error, and effect reachability for the library",
            "Covers every path of every subcommand, callbacks and threads included (those interpretation does not reach are interpreted on their own with the quiet logger registered), and child processes that inherit the streams; output of scripts and of native plugins themselves is out of scope." + TRUST),
    "C30": ("order queries on the inlined MIR graph with branch conditions per kind of page, and provenance of the values derived from a markdown file",
            "Covers the two passes of the build, the recursion over the tree and the values functions receive." + TRUST),
    "C05": ("abstract interpretation of block processing over token worlds (concrete token streams against the inlined MIR), plus path queries",
            "Covers every block function, with the whole finite set of token shapes that may follow its opening, and every page function." + TRUST),
    "C06": ("operand provenance (taint) of the comparison and abstract interpretation over worlds of value pairs on the inlined MIR",
            "Covers every pair of value kinds for every conditional function, and the arms that follow." + TRUST),
    "C08": ("abstract interpretation on concrete scopes (stacks of frames with every combination of definitions) of every lookup, binding and loop on the inlined MIR",
            "Covers Scope::get_variable, variable insertion, every function that takes a variable, loops, imports and block ends." + TRUST),
    "C07": ("abstract interpretation of block processing over token worlds: which tokens are rendered, skipped, or never reached",
            "Covers every conditional and loop against the finite set of token shapes of its block." + TRUST),
    "C11": ("abstract interpretation on concrete scopes, sections and content trees of every construct given a reference to something missing, on the inlined MIR",
            "Covers variable insertion, every function with a variable operand, insert, import and loops over all source kinds, and page rendering without a template." + TRUST),
    "C12": ("abstract interpretation of the loop's argument parsing and item pipeline over worlds of concrete arguments and short item lists, on the inlined MIR",
            "Covers every combination of the loop's arguments (present, absent, out of range) and the order of its stages; sorting itself is taken at its documented behaviour." + TRUST),
    "C21": ("step-by-step interpretation of the loading of the dependencies on all kinds of sources, every process, download and library a step that may fail; fate of the failures inside script loading",
            "tables of up to three sources of every kind; errors after the first failed source of a plugin need not be shown"),
    "C22": ("abstract interpretation of project loading and of the build as sequences of recorded steps on known paths (every step may fail), and rules on the resulting traces",
            "Covers StuartContext::init and build, the discovery and execution of scripts, repeated builds, and the environment given to templates." + TRUST),
    "C23": ("interpretation of every directory reader on permuted listings, flow analysis of hash-map iterations and of clock-like values, definite assignment of the builder's fields, comparison of the traces of successive builds",
            "Covers every function that lists a directory, every iteration over a hash map or set, every read of the clock, of randomness and of file times that building can reach, the process's "
            "environment, and what a build leaves in memory and in the output directory. Does not cover state kept by plugins or scripts." + TRUST),
    "C24": ("step-by-step interpretation of the development server over sequences of file events, every rebuild and every message to a browser a step that may fail, and rules on the resulting traces",
            "Covers `serve` and what it calls in the command-line crate, with three open connections, up to two events and the forms in which the output directory can be given; events that arrive during a rebuild are not modelled." + TRUST),
    "C25": ("interpretation of the start of the server and of every registered request handler on requests and lookup results of every shape, provenance of the paths that are opened, and effect reachability on the call graph",
            "Covers `serve` up to the start of the HTTP server for four forms of the output directory, and every handler registered; the path lookup itself is the HTTP library's and is taken at its documented behaviour." + TRUST),
    "C26": ("dataflow of positions on the exploded MIR graph: the origin of file, line and column of every error that can be returned",
            "Covers every function's execute, variables, the template parser, errors about pages, the character counters and the printed message; positions reported by JavaScript functions are not decided." + TRUST),
    "C18": ("provenance of the path argument of every filesystem mutation, with dominance of the guards",
            "Covers every call site that may change the filesystem in both crates; symlinks inside the designated places are not modelled." + TRUST),
    "C04": ("function-by-function abstract interpretation with every fallible operation split into success and failure; on each path with a failure the function must return an error",
            "Covers every function and closure of both crates that returns a result, every external or local operation in it that returns one, and the exit status of `main`; failures that an external function hides behind a plain value (such as `Path::exists`) are only followed for listed directory entries." + TRUST),
    "C19": ("effect reachability and provenance of the destination path, with dominance of the existence guards",
            "Covers the creation of a project and of its files." + TRUST),
    "C20": ("type-level field order (drop order), escape of code pointers and ownership of the loaded library",
            "Covers the plugin manager and every value whose code may live in a plugin." + TRUST),
}
NA = {
    "N01": "verbatim copying of text is a relation between runtime strings of unbounded length; no static argument in reach decides it",
    "N02": "the number of characters emitted is a runtime quantity over arbitrary strings; deciding it needs execution or a proof about string contents",
    "N03": "the mapping from date texts to formatted dates is computed by third-party crates from runtime strings",
    "N04": "a liveness property over the timing of file events, the operating system's queue and the build; not a property of the source text alone",
}
