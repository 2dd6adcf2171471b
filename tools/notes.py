BASE = "value-flow analysis of the compiler's THIR (guarded terms with BDD path conditions)"
TECH = {
 "*": BASE + ": every result and effect of the anchored functions is compared with the prescribed term",
 "C01": BASE + ": the path condition of the insertion into the kept map must be exactly 'no exclude spec matches the package'; effect analysis of the setter",
 "C02": BASE + ": the node insertion and the filter callback partition the loop over all packages by one condition; callback impl effects",
 "C03": BASE + ": equivalence of the edge's guard, projected on kind/scope atoms, with the builder's bit operations for all 2^9 configurations (setter and test composed symbolically)",
 "C04": BASE + ": path condition of an edge over target/cfg atoms compared with the prescribed BDD; evaluation closures compared term by term",
 "C05": BASE + ": guard implications over the atoms optional/strong/weak/active, and taint of remembered weak values to the work list",
 "C06": BASE + ": the predicate that selects a declaration is compared as a BDD with the prescribed conjunction, local path equality by grammar evaluation",
 "C07": BASE + ": the root set term is compared with the prescribed case distinction; work-list seeds checked per root",
 "C08": BASE + ": feature sets pushed to the work list and linked are compared per edge and per feature value kind; visit-once typestate",
 "C09": BASE + ": every edge added to the graph is classified by source, target and weight terms, and its guard compared with the recorded pair",
 "C10": BASE + " with an order domain (sortedness facts of collections) over the node list",
 "C11": BASE + " with an order domain: at every binary search the list's value must be sorted by the key searched with",
 "C12": "loop and recursion analysis: call-graph SCCs, and for each loop of the THIR a ranking argument (finite iterator, consumed input, shrinking text or cut-once work list) checked on its symbolic iteration",
 "C13": BASE + ": path conditions of every error return compared with the prescribed ones, reachable panics on the empty resolve graph excluded",
 "C14": BASE + ": value of the lookup, and the writes into the mapping matched with the declaration that was selected",
 "C15": BASE + ": character-wise comparison relation extracted as a predicate; each search by name compared with the prescribed relation",
 "C16": "work-list typestate on " + BASE + ": symbolic iteration of the walk compared with a reachability schema",
 "C17": "work-list typestate on " + BASE + ": symbolic iteration of the walk compared with a reachability schema",
 "C18": "work-list typestate on " + BASE + ": symbolic iteration of the walk compared with a reachability schema",
 "C22": BASE + " evaluated over the grammar of package ids (abstract texts: literals and opaque words), and a one-step check of the decoding loop",
 "C23": BASE + " of the parser compared with the grammar's case distinction; panic-freedom of its slices",
 "C26": BASE + ": effects of each setter, and the argument list of the command as a guarded sequence",
 "C27": BASE + ": dominance of the success conditions over parsing, per error the condition and the carried cause",
 "C28": BASE + ": the key loop of each map visitor as a transfer function, per key and for unknown keys",
 "C29": BASE + ": the constructed value with a key never seen compared with the documented default or missing-field error",
 "C30": BASE + ": sequence of serializer calls compared with the parser's key table",
 "C33": BASE + ": error conversions and sources term by term, and propagation (an error operand never reaches a discard) over all fallible functions",
 "C35": "call-graph effect analysis and type queries over every body (external effects, unordered iteration, unsafe, statics)",
 "C36": "type and visibility queries over the public surface (fields, receivers, returned references, interior mutability)",
 "C37": BASE + ": normal form of the loop over enabled features; each node and edge it adds compared with the feature table",
}
NOTE = {"*": "Decided for every input within the model of std, petgraph, semver and cfg-expr functions in kv/stdlib.py, which is trusted; a construct outside that model makes the obligation undecided (reported in the evidence), not a violation.",
 "C12": "Bodies of dependencies are assumed to return; finite iterators are taken to be finite.",
 "C15": "One known finding (links between features look a dependency up by package name too).",
 "C16": "One known finding (the walk follows feature nodes into other crates).",
 "C37": "One known finding (duplicate feature nodes for renamed dependencies).",
 "C22": "The id texts considered are the forms cargo emits (opaque and stable; registry, git, path; with every percent escape).",
}
NA = {
 "C90": "Agreement with cargo's own resolver is a differential property against an external program; no static argument over krates' source alone can state cargo's behaviour.",
 "C91": "Relates two runs on two different textual encodings of the same workspace; it needs a bijection between id texts that only exists at run time. The static part (how each form is split) is C22.",
 "C92": "Value-level round trip through an arbitrary Serializer/Deserializer pair (serde_json) depends on code outside the repository; its static part, key-for-key agreement, is C30.",
 "C93": "A complexity bound quantifies over run-time sizes of nested loops and work lists; no sound static cost analysis for Rust is in reach here. Termination itself is C12.",
}
