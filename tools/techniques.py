FIX = "fixpoint dataflow over MIR"
TECH = {
    "C01": ("typestate dataflow over MIR: calls of filters and handler tracked with the loop's index", "all paths of the request loop; the filters' and handler's own code is left open"),
    "C04": ("typestate dataflow over MIR with path facts about the request target and the status", "all paths of the request loop"),
    "C05": ("must-analysis over MIR of the header-setting calls before filters, handlers and the end of the response", "all paths of the request loop"),
    "C06": ("typestate dataflow over MIR, with drop glue, of the connection held by a response; leak lint over all calls", "all paths of the completing operations; how often a filter list is run over is left to C07"),
    "C12": ("error-flow dataflow over MIR: every outcome of an I/O call is followed to the returned value", "all paths of every fallible operation that can reach the connection or a file"),
    "C09": ("typestate dataflow over MIR of the Connection header up to every place where a head is written", "all paths; what the application does to the header is left open"),
    "C10": ("typestate dataflow over MIR of the Content-Length header up to every place where a head is written", "all paths; hyper's send, start and drop are taken by their contracts"),
    "C11": ("call-graph effect analysis, value flow over MIR, and compile-fail witnesses with compiling twins", "all operations of raw responses"),
    "C13": ("value-flow analysis over MIR of every Read and Write implementation", "all paths of the implementations"),
    "C14": ("value-flow analysis over MIR from the opened file to the declared length, the copy and the content type", "all paths of the file sending operations"),
    "C15": ("value-flow and error-flow analysis over MIR of everything that makes or handles a file error", "all paths"),
    "C19": ("path-sensitive value-flow analysis over MIR of every router: which handler is called, with what, and what is returned", "all paths of every router but the tree router"),
    "C16": ("abstract interpretation over MIR of the search, one turn of its loop at a time: what each turn adds to the stack", "every turn of the search, from any stack; both modes"),
    "C17": ("typestate dataflow over MIR of the search: which item a turn uses, and how matches are called", "every turn of the search, from any stack; both modes"),
    "C18": ("value-flow analysis over MIR of every rejected request back to the one that came in", "all paths of every router; what a delegate gives back is taken from the same property for the delegate"),
    "C34": ("type-level witnesses: programs that must not compile, with compiling twins; lint over all types and statics for interior mutability", "all types, statics and impls; one witness per way of sharing"),
    "C40": ("path-sensitive value-flow analysis over MIR of every SendResponse implementation", "all paths of every implementation"),
    "C23": ("abstract interpretation over MIR of the collecting of links, one turn of each loop at a time", "every turn of the search and of every loop over links; both modes"),
    "C36": ("value-flow analysis over MIR of every wrapper implementation: what is called, with what, what is returned", "all paths of every wrapper"),
    "C24": ("path-sensitive abstract interpretation of MIR: value provenance of every comparison, order and hash", "all trait impls of the text types; the payload types' own views are assumed faithful"),
    "C25": ("path-sensitive abstract interpretation of MIR: content and tag as symbolic byte sequences, typestate of the tag", "all constructors, additions, buffers and conversions; UTF-8 validity by the facts of the standard library's checks"),
    "C38": ("path-sensitive abstract interpretation of MIR: symbolic map contents before and after each operation", "all operations and conversions of Parameters; HashMap and str::parse are assumed"),
    "C26": ("obligation per unsafe call site, decided by path-sensitive abstract interpretation from every safe entry point", "all unsafe calls in the library; constructs other than calls are excluded lexically"),
    "C27": ("path-sensitive abstract interpretation of MIR: symbolic content of the typed store before and after each operation", "all operations and constructors of Global; anymap's Map is assumed to be a map by type"),
    "C28": ("abstract interpretation of MIR: values of the configuration are followed into the running server, hyper's server and what requests get", "every path through building, running and handling; what hyper does with address, timeout and thread count is not analysed"),
    "C29": ("abstract interpretation of MIR: socket addresses as terms over version, ip, port, flow information and scope", "all paths; the operations of std on addresses are taken to do what their names say"),
    "C30": ("abstract interpretation of MIR with a loop invariant: every component that was passed is known to be a plain name or the current directory", "all paths, any number of components; std's splitting of paths into components is trusted"),
    "C33": ("effect analysis over every call site of the crate's MIR and its call graph, and a lexical check of all feature configurations", "calls made by the crate itself; what dependencies do inside is not analysed"),
    "C39": ("abstract interpretation of MIR for the two notifications, a scan of every operation on atomics of the crate, and the unwinding edges with their drop flags: a handler that panics is still counted as ended", "all paths, unwinding paths from every call that can panic; that hyper calls the notifications once per connection is trusted"),
    "C32": ("abstract interpretation of MIR: when a multipart reader is made, with which boundary and over which stream; what reading the whole body returns", "all paths; hyper's header types and the multipart crate's reader are trusted"),
    "C31": ("translation validation of the generated table against the list, and value-flow analysis over MIR of the lookup", "every entry of the table and of the list, all paths of the lookup; phf's own lookup is trusted"),
    "C02": ("path-sensitive abstract interpretation of MIR: provenance of path, query pairs and fragment as cut marks in the raw target, with decode-once and plus-before-decode obligations", "every way through the target and query parsers, and every turn of the query loop; percent_decode, Url accessors and slice/str splitting are trusted models"),
    "C03": ("provenance dataflow over MIR (bytes stored for path, fragment, parameters are exactly one decode of a piece) plus call-graph effect analysis: request data never passes through a lossy conversion", "all ways through the parsers and views; call graph from every function that carries request data"),
    "C37": ("type checking of every feature combination, plus comparison of the resolved programs (functions, signatures, MIR shape) with and without each feature", "all feature combinations, all functions; functions that differ because of gated fields are decided by the body rules on the second program"),
    "C22": ("abstract interpretation of the MIR: per-turn transfer functions of the search, the route state and the name/value iterator, compared with the specified step relation", "inductive: every turn of each loop is checked from an arbitrary state; names collected by builders are C20"),
    "C20": ("path-sensitive abstract interpretation of MIR: symbolic maps, nodes and name lists before and after each builder operation, compared with the specified step; per-turn obligations for collecting", "all keys, nodes and contexts; paths are followed segment by segment for up to three segments of every kind, each single step for any node and segment"),
    "C21": ("abstract interpretation of the MIR: every path and every loop turn of the Merge and ApplyContext implementations, compared field by field with the specified combination of both routers", "inductive over the nesting: every implementation is checked against calls of the others; user-written items are covered by their trait contract only"),
    "C35": ("path-sensitive abstract interpretation of every function on the request path over its MIR; every panicking operation must be infeasible or implied safe by path conditions (linear inequalities over lengths, counters and search positions; character boundaries; field invariants shown by induction over all functions)", "Compositional: functions are analysed one by one with the others opaque, private ones that need it inside their callers. Debug assertions are compiled out, so they neither alarm nor guard. Panics inside dependencies and user code are outside."),
    "C07": ("abstract interpretation of MIR with the stack of filters unrolled: every answer of every filter is told apart, and the calls, pieces of data and writes on every path are compared with the specified pipeline", "all paths, for stacks of up to 3 filters (quick: all answers for one filter, at most 2 answers that are not data for two, 1 for three; thorough: up to 4 filters); nothing is proved about longer stacks, for which the code runs the same loops"),
    "C08": ("abstract interpretation of MIR with the stack of filters unrolled: on every path with an abort the returned or kept error is followed back to the message; error forwarding of all other operations by dataflow", "all paths, for stacks of up to 3 filters (thorough: 4); reporting by drop is outside, which has no result"),
    "C41": ("termination analysis over MIR: ranking of every loop (elements taken from something finite, numbers that move to a limit, pieces cut off) by decomposition of strongly connected components, and the tree search's step relation by abstract interpretation", "every loop in every function reachable on the request path, every turn of the search; that the standard library's own loops over finite sources end is trusted"),
    "C43": ("abstract interpretation of the MIR that each form of the macro expands to, in a scratch copy of the current tree with the forms appended", "every form the macro accepts, with names and strings at every position and up to four parameters; reading a media type from a string is trusted to the mime crate"),
    "C44": ("path-sensitive abstract interpretation of MIR: status and headers as symbolic parts of the response, followed to every place where a head is written; call-site scan of everything that changes headers", "all paths of every operation that sends or gives access, for connections and mocks; what hyper writes for status and headers is trusted"),
    "C45": ("abstract interpretation of the MIR of the request loop: every part of the context is followed back to the parts of the request; parsers of targets are summarised path by path", "every way through the request loop, any number of context filters; the parts that hyper's Request hands out and Url's accessors are trusted"),
    "C46": ("abstract interpretation of the MIR of the comparison functions, and evaluation of each path's result for every relation of the compared parts", "all pairs of values, up to the comparison of vectors, byte slices and strings, which are the standard library's"),
    "C47": ("abstract interpretation of the MIR of all conversions: provenance of the bytes of each result", "all contents; the standard library's conversions are trusted by name"),
    "C48": ("abstract interpretation of the MIR of the constructors: the variant and content of each result", "all arguments"),
    "C49": ("abstract interpretation of the MIR of the target's functions, with evaluation of conditions for each relation of targets", "all targets"),
    "C50": ("abstract interpretation of the MIR of the route splitting, with evaluation of slice bounds and conditions for each form of path", "all paths; slice::split and flat_map are the standard library's"),
    "C51": ("abstract interpretation of the MIR of all Clone implementations: place by place identity of the result", "all values; clones of library types are trusted"),
    "C52": ("abstract interpretation of the MIR of the functions that make contexts: provenance of each field", "all arguments"),
    "C53": ("abstract interpretation of the MIR of the formatting functions, with the compiled format templates decoded, and of the accessors", "all errors; what a shown I/O error or string looks like is the standard library's"),
}
NOT_APPLICABLE = {
    "C42": "timing of idle connections is decided by hyper and the operating system at run time; the part that is in this repository (which timeout is passed on) is decided as part of C28",
}
