#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
B = "src/builder.rs"
L = "src/lib.rs"
def p(id, title, st, over, q, why, files, mech, **kw):
    anc = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anc.update(kw)
    P.append({"id": id, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": anc})

FIX = "Tests build a handful of checked-in metadata fixtures; "

p("C01", "Excluded packages never become nodes, and nothing else is excluded",
  "A package matched by any of the user's exclude specs never becomes a crate node and nothing is reached through it; a package that no exclude spec matches is never dropped on account of the exclusion list. One matching spec is enough, whatever its position in the list.",
  ["inputs", "configurations"], "every metadata, every list of package specs, every other builder option",
  FIX + "exclusion is exercised with three specs on one graph.",
  [B], [("exclusion test that guards each visit", "Builder::build_with_metadata, first work-list"), ("spec list", "Builder::exclude")])
p("C02", "Every package is either one crate node or reported as filtered once",
  "For every successful build, each package in the metadata either becomes exactly one crate node or is passed to the filter callback exactly once, never both and never neither. The callback receives nothing else.",
  ["inputs", "configurations"], "every metadata and builder configuration for which the build succeeds",
  FIX + "the callback is only observed on a few of them.",
  [B], [("package partition loop", "Builder::build_with_metadata, node insertion"), ("callback trait", "OnFilter::filtered")])
p("C03", "Ignored dependency kinds drop exactly the edges the user asked for",
  "A dependency edge of some kind is ignored if and only if that kind was ignored for a scope that covers the depending crate: Workspace covers crates that are workspace members, NonWorkspace the others, All covers both. Ignoring several kinds and scopes accumulates, and ignoring one kind never affects another.",
  ["configurations", "inputs"], "every sequence of ignore_kind calls, dependency kind, and workspace/non-workspace crate",
  "Tests try a few kind/scope pairs on one graph; the 3 kinds x 3 scopes x accumulation space is not covered.",
  [B], [("kind/scope encoding", "Builder::ignore_kind"), ("ignore test per dependency kind", "Builder::build_with_metadata")])
p("C04", "Target filtering keeps exactly the edges that apply to a requested target",
  "With target filters configured, a target-specific dependency is kept if and only if its cfg expression holds when evaluated completely for at least one of the requested targets, or its target triple equals one of them; dependencies without a target are always kept. Without target filters every target-specific dependency is kept, except one whose cfg expression has no predicates and is false (such as cfg(any())).",
  ["inputs", "configurations"], "every set of requested targets and target features, every cfg expression or triple",
  FIX + "only a few target sets are evaluated.",
  [B, L], [("per-edge cfg evaluation", "Builder::build_with_metadata"), ("predicate evaluation", "TargetFilter::eval"), ("triple comparison", "TargetFilter::matches_triple"), ("cfg parsing", "MdTarget: From<String>")])
p("C05", "Optional dependencies appear only when a feature strongly activates them",
  "An optional dependency gets an edge only if some enabled feature of the depending crate activates it through `dep:name` or `name/feature`, or through `name?/feature` when it is already active; a weak `name?/feature` on its own never activates it, and is applied once something else does. Non-optional dependencies never need a feature.",
  ["inputs", "histories"], "every feature table and every order in which features are visited",
  FIX + "weak features are checked on one fixture and one visiting order.",
  [B], [("optional-edge guard", "Builder::build_with_metadata"), ("pending weak features", "Builder::build_with_metadata")])
p("C06", "A resolved dependency is matched to its own declaration in the manifest",
  "Each resolved dependency edge takes its settings from a declaration of the depending crate that has the same dependency kind, the same name (package name, rename or library name), a version requirement satisfied by the resolved version (an empty requirement also admits a pre-release), and the same target specification; when several declarations qualify, the declaration's source must also equal the resolved package's source. No other declaration is ever used.",
  ["inputs"], "every list of declarations and every resolved package, including duplicates, renames, pre-releases and git/path sources",
  FIX + "ambiguous declarations occur in two of them.",
  [B, L], [("declaration search and candidate count", "Builder::build_with_metadata"), ("source comparison", "compare_paths"), ("target equality", "targets_eq")])
p("C07", "The graph is rooted at exactly the crates the user selected",
  "Without workspace filters the roots are the resolve root when there is one and the workspace option is off, and otherwise all workspace members; with workspace filters they are the members whose manifest path equals one of the filters, or all members if the only filter is the manifest of the workspace root itself. Every root is visited with all of its resolved features.",
  ["inputs", "configurations"], "every combination of resolve root, workspace option and workspace filters",
  FIX + "a few combinations are sampled.",
  [B], [("root selection", "Builder::build_with_metadata"), ("filters", "Builder::include_workspace_crates, Builder::workspace")])
p("C08", "Features requested by a dependency edge are enabled on the dependency",
  "For every dependency edge that is kept, each feature listed by the declaration, and `default` when the declaration uses default features and the dependency has a resolved default feature, is enabled on the dependency and nothing else is enabled by that edge. Enabling a feature also enables the features it names: its own sub-features and the `name/feature` features of dependencies.",
  ["inputs"], "every dependency declaration, every feature table",
  FIX + "feature sets of a few crates are compared with snapshots.",
  [B], [("edge feature loop", "Builder::build_with_metadata"), ("sub-feature dispatch", "Builder::build_with_metadata")])
p("C09", "Edges keep the kind and cfg of the dependency, one per distinct pair",
  "For each dependency kept between two crates there is one edge, or one per requested feature, for every distinct pair of kind and cfg text, carrying exactly that kind and cfg; a plain dependency edge to the crate is used only when no feature is requested, and otherwise the edges go to the dependency's feature nodes. Feature-to-feature and feature-to-crate links are always plain feature edges.",
  ["inputs"], "every set of dependency kinds and targets between two crates",
  FIX + "edges are compared with snapshots of a few graphs.",
  [B], [("edge recording and de-duplication", "Builder::build_with_metadata"), ("edge attachment", "Builder::build_with_metadata")])
p("C10", "Crate nodes come first, sorted by id, and id lookups find exactly them",
  "In every built graph the crate nodes occupy the first `len()` indices in strictly the order of their ids, every later node is a feature node, and a crate id lookup returns the node with that id if there is one and nothing otherwise. Metadata in any order gives the same node order.",
  ["inputs"], "every metadata and every package id",
  FIX + "those come out of cargo already sorted, so the sort is never needed.",
  [B, L], [("package sort before insertion", "Builder::build_with_metadata"), ("binary search", "Krates::nid_for_kid"), ("boundary", "Krates::len")])
p("C11", "Input lists are sorted before they are binary-searched",
  "The build depends on neither the order of packages, resolve nodes, workspace members nor features in the metadata: each list that is looked up by binary search was first sorted by the same key, on every path and for every input. The search compares with the key the list is sorted by.",
  ["inputs"], "every permutation of every list in the metadata",
  "Fixtures contain each list in sorted order, so a missing or different sort goes unnoticed.",
  [B], [("sorts", "Builder::build_with_metadata"), ("binary searches", "Builder::build_with_metadata, Renames, Node::feature_index")])
p("C12", "Graph construction and traversal terminate on cyclic inputs",
  "Building a graph and running any graph query terminates for every metadata, including cyclic feature definitions and cyclic dev-dependencies: every work list pushes an item again only if it was not processed before, or consumes each item at most once. No function of the crate recurses without bound on the graph.",
  ["inputs"], "every graph shape, including cycles",
  "A hang needs a cycle of a specific shape that the fixtures may not contain.",
  [B, L], [("visited checks of each work list", "Builder::build_with_metadata, Krates::direct_dependencies, direct_dependents, krates_filtered")])
p("C13", "A build fails with the documented error instead of a wrong or empty graph",
  "Metadata without a resolve graph gives NoResolveGraph, a build in which no root crate survives gives NoRootKrates, and a failure of the metadata command is returned as its own error; in no other case does the build return an error, and it never returns an empty graph. A resolve graph with no nodes is reported as NoRootKrates and is not a panic.",
  ["inputs", "configurations"], "every metadata, including --no-deps output and empty workspaces",
  "No test builds from metadata without a resolve graph, from an empty resolve graph or with everything excluded.",
  [B], [("resolve check, empty-graph check, ?-propagation", "Builder::build_with_metadata, Builder::build")])
p("C14", "resolved_dependency answers with the crate a declaration was resolved to",
  "For a crate node and the index of one of its declared dependencies, the lookup returns the crate that declaration resolved to in this graph, and nothing if the declaration was pruned, the index is out of range, or the node is not a crate. It never panics.",
  ["inputs"], "every node id below, at and above the crate range and every dependency index",
  "One test checks one crate; out-of-range ids and pruned declarations are not covered.",
  [B, L], [("mapping written per edge", "Builder::build_with_metadata"), ("lookup", "Krates::resolved_dependency")])
p("C15", "Names match across `-`/`_` and library renames, and never otherwise",
  "Names written in a manifest are compared with names in the resolved graph character by character, where `-` in the manifest may also stand for `_` in the resolved name, and otherwise exactly. A declaration belongs to a resolved dependency only if its name (its rename, if it has one) matches the resolved name or the name of the resolved package in that way. A feature value's dependency name denotes the first resolved dependency of the crate whose resolved name matches it in that way, or whose package has exactly that name while that package version's library target has a different name that is the resolved one; nothing else. Every library-like target (lib, rlib, dylib, cdylib, staticlib, proc-macro) counts as the library target.",
  ["inputs"], "every pair of names and every package version with a renamed library target",
  FIX + "two renamed libraries are covered.",
  [B], [("character-wise comparison", "pkg_name_equals"), ("rename table", "Renames::maybe_insert, Renames::resolve_feature"), ("name match", "dep_names_match")])
p("C16", "direct_dependencies lists each direct dependency of a crate once",
  "For a crate node, the result contains each crate it has a dependency on, whatever kind or features the edges have, exactly once, together with its node and an edge leading to it. Crates reachable only through another crate's features are not direct dependencies.",
  ["inputs"], "every graph and every crate node",
  "One snapshot of a few crates.",
  [L], [("traversal over outgoing edges", "Krates::direct_dependencies")])
p("C17", "direct_dependents lists each crate that depends directly on a crate, once",
  "For a crate node, the result contains each crate with a dependency edge to it or to one of its own feature nodes, exactly once, together with that crate's node and the edge. Crates that merely depend on a feature of some other crate, or on the crate through an intermediate crate, are not included.",
  ["inputs"], "every graph and every crate node",
  "One snapshot of a few crates.",
  [L], [("traversal over incoming edges", "Krates::direct_dependents")])
p("C18", "krates_filtered keeps exactly the crates reachable without the filtered kind",
  "The result is the set of workspace members in the graph plus every crate reachable from them along edges that are not dependency edges of the filtered kind, each once and ordered by crate id. Only the given kind is filtered, and both plain and feature dependency edges of that kind are ignored.",
  ["inputs"], "every graph and every dependency kind",
  "Tests compare one graph for the three kinds.",
  [L], [("traversal", "Krates::krates_filtered")])
p("C19", "Searching by name and version requirement returns exactly the matching crates",
  "A search by name returns every crate node whose name equals the given name and no other; a search by name and requirement returns exactly those that also satisfy the requirement. Each result carries the crate's own node id, crate id and data.",
  ["inputs"], "every graph, name and requirement",
  "A couple of names are searched in one graph.",
  [L], [("filters over the crate nodes", "Krates::search_matches, Krates::krates_by_name")])
p("C20", "Crate, member and feature lookups agree with the graph",
  "Iterating the crates yields the data of every crate node in index order and no others; the workspace member iterator yields exactly the members present in the graph; looking up a feature of a crate returns that crate's own feature node of that name. The enabled feature set and node returned for a crate id are those of the node with that id.",
  ["inputs"], "every graph, crate id and feature name",
  "Only a few lookups are sampled.",
  [L], [("accessors", "Krates::krates, workspace_members, get_node, get_enabled_features, node_for_kid, Index impls")])
p("C21", "Crate ids compare, equal and hash consistently",
  "Crate ids are ordered by name, then version text, then source; two ids are equal exactly when all three components are, whatever the textual form of the id, and equal ids have equal hashes. Partial and total order agree.",
  ["inputs"], "every pair of package ids, opaque or stable",
  "No test hashes ids or compares an opaque id with a stable one.",
  [L], [("comparison and hash", "Kid: Ord, PartialOrd, PartialEq, Hash")])
p("C22", "Package ids are split into name, version and source for every cargo format",
  "For every package id cargo emits, opaque or stable, the name, version and source are the parts the format defines: opaque git ids lose the commit fragment, stable ids take the name from the fragment or else from the last path component, and percent-encoded characters in a git reference are decoded to the characters they encode. The sub-slices always lie within the stored text in name, version, source order of the format.",
  ["inputs"], "every package id in cargo's two formats, every percent-encoded reserved character",
  "Eleven ids are tested; no percent-encoding other than %2F occurs.",
  [L], [("component parsing", "Kid: From<PackageId>"), ("percent-decoding table", "Kid: From<PackageId>")])
p("C23", "Parsing a package spec accepts cargo's forms and rejects malformed ones",
  "A spec is `name`, `name:version`, `name@version`, a url, or a url with a `#` fragment holding a name, a version or both, and parsing yields exactly that name, version and url; names with characters other than alphanumerics, `-` and `_`, unparsable versions, an empty fragment or version, a url without scheme separator or path, or a url ending in `/` are rejected with InvalidPkgSpec. Parsing never panics.",
  ["inputs"], "every string",
  "About a dozen strings are tested.",
  ["src/pkgspec.rs"], [("parser", "PkgSpec: FromStr")])
p("C24", "A package spec matches a package only if name, version and url agree",
  "A spec matches a package if and only if the names are equal, the version is equal when the spec has one, and the url equals the package's source without its kind prefix, query and fragment when both the spec has a url and the package has a source. No part of the spec is ignored.",
  ["inputs"], "every spec and every package",
  "A few specs are matched against one graph.",
  ["src/pkgspec.rs"], [("match", "PkgSpec::matches")])
p("C25", "Feature strings are classified and split exactly as cargo defines them",
  "A feature value is `dep:name`, weak `name?/feature`, strong `name/feature` or a plain feature name, tested in that order, and the name and feature are the text before and after the separator. Every string is classified without panicking.",
  ["inputs"], "every feature string",
  "Feature parsing is tested on four strings.",
  ["src/builder/features.rs"], [("classification and split", "ParsedFeature: From<&str>, ParsedFeature::feat")])
p("C26", "Every option of a metadata command reaches the cargo invocation exactly once",
  "The spawned command is `cargo metadata --format-version 1` with each configured option passed exactly when it was configured and with the configured value: executable, working directory, manifest path, no-deps, features, all/no-default features, frozen/locked/offline, environment, and any other options after all the rest. The executable falls back to $CARGO and then to `cargo`; a manifest path makes its parent the working directory.",
  ["configurations"], "every combination of options",
  "Tests run a couple of commands; dropped or swapped flags go unnoticed.",
  [B, "src/cm/cmd.rs"], [("option translation", "MetadataCommand: From<Cmd>"), ("argument construction", "MetadataCommand::cargo_command"), ("setters", "Cmd, MetadataCommand")])
p("C27", "A failing metadata command is never mistaken for metadata",
  "Standard output is parsed only after the process started and exited successfully; a spawn failure, a failing exit status, non-UTF-8 output, the absence of a line starting with `{`, and malformed json are each reported as the corresponding error carrying its cause. The first line starting with `{` is what is parsed.",
  ["fault_sequences"], "every way in which the child process can fail",
  "No test runs a failing cargo.",
  ["src/cm/cmd.rs", "src/cm/errors.rs"], [("status check before parsing, ?-propagation", "MetadataCommand::exec, MetadataCommand::parse")])
p("C28", "Each metadata key fills exactly its own field when parsing",
  "When parsing cargo metadata, the value of each key documented by cargo is stored unchanged in the field for that key, keys may come in any order, and unknown keys are skipped by consuming exactly their value. Errors from the underlying parser are always propagated.",
  ["inputs"], "every metadata document, any key order, unknown keys at any level",
  FIX + "fields the graph does not use are never inspected.",
  ["src/cm/de.rs"], [("key dispatch of each object type", "map! visitors in src/cm/de.rs")])
p("C29", "Missing required keys are errors, and optional ones have cargo's defaults",
  "A metadata object lacking a required key fails to parse with a missing-field error naming that key, and an absent optional key yields its documented default. A null value is accepted for every optional field, including the resolve graph.",
  ["inputs"], "every subset of keys and every null value cargo emits",
  "Fixtures contain every key.",
  ["src/cm/de.rs"], [("defaults and required! checks", "map! visitors in src/cm/de.rs")])
p("C30", "Serialized metadata can be parsed back key for key",
  "With serialization enabled, every metadata object is written with each of its fields exactly once, under exactly the key from which parsing fills that field, and with the field's own value. No field that parsing reads is left out, unless its value is the one that parsing gives to an absent key.",
  ["inputs"], "every metadata value",
  "No test serializes and re-parses metadata field by field.",
  ["src/cm/ser.rs", "src/cm/de.rs"], [("entry tables", "Serialize impls in src/cm/ser.rs")])
p("C31", "Enum names used when parsing, displaying and serializing agree",
  "For dependency kinds, target kinds, crate types and editions, the name parsed for each variant is the name cargo uses, no two variants share a name, an unknown name is an error, and the display and serialized names of a variant are the ones that parse back to it. Conversions between dependency kinds of the metadata and of the graph preserve the kind.",
  ["inputs"], "every variant and every string",
  "Only a few variants occur in fixtures.",
  ["src/cm.rs", "src/cm/de.rs", "src/cm/ser.rs", L], [("string tables", "FromStr, Display, Serialize, Deserialize impls"), ("kind conversion", "DepKind: From<DependencyKind>, PartialEq<DependencyKind>")])
p("C32", "Metadata helper queries return the packages and paths they name",
  "The root package is the one with the resolve root's id, or without resolution the one whose manifest is Cargo.toml in the workspace root; workspace and default package lists are the packages whose id is in the respective member list; license and readme paths are relative to the directory of the manifest; and each target predicate is true exactly for targets of that kind. Indexing by a package id returns the package with that id. Indexing by an id that is not there, or asking for the default packages when the metadata does not list them, panics instead of answering with something else.",
  ["inputs"], "every metadata value",
  "These helpers are not tested.",
  ["src/cm.rs"], [("helpers", "Metadata, Package, Target, Source methods")])
p("C33", "Errors keep their cause and are never silently discarded",
  "Every error converted into the crate's error types keeps the original error, exposes it as its source and shows it in its message, each in the variant for its kind. No fallible operation's error is dropped except where the documented behaviour is a fallback.",
  ["fault_sequences"], "every failing operation",
  "No test provokes these failures.",
  ["src/errors.rs", "src/cm/errors.rs", "src/cm/cmd.rs", B], [("From, source and Display impls", "Error, cm::Error"), ("fallback sites", "whole crate")])
p("C34", "The index only adds missing features, to crates.io packages of that version",
  "Index information changes a package only if its source is crates.io and the index has exactly its name and version; it only adds features the package does not already have, with the index's values, and then a `dep:` feature for each plain feature value that names no feature. Existing features are never altered or removed.",
  ["inputs", "configurations"], "every index content and every package",
  "Index tests need a local registry and cover few crates.",
  ["src/builder/index.rs"], [("feature merging", "fix_features"), ("exact version lookup", "CachingIndex::index_krate_features")])
p("C35", "Graph construction is deterministic and free of outside effects",
  "Given the same metadata and options, building performs no process, network, environment, clock or randomness access and iterates no collection with unspecified order, so the same graph results every time; the file system is only consulted to canonicalize manifest paths for workspace filters. The crate contains no unsafe code and no mutable global state, and only the metadata command starts a process.",
  ["inputs", "configurations", "schedules"], "every run of a build",
  "Nondeterminism shows only in some runs; tests cannot enumerate runs.",
  [B, L, "src/cm/cmd.rs"], [("ordered collections only; effect confinement", "whole crate")])
p("C36", "A built graph cannot be changed through the public API",
  "Once built, a graph offers no way to add, remove or alter its nodes, edges or crate range through the public interface: it has no public fields and no public method that takes it by mutable reference or hands out a mutable reference or interior-mutable handle to its contents. All query answers therefore stay valid for its lifetime.",
  ["programs"], "every program using the public API",
  "A test cannot enumerate the programs that use the API.",
  [L], [("private fields and shared-reference methods", "Krates")])
p("C37", "Each feature node links once to its crate and to all the feature enables",
  "For a crate in the graph, every resolved feature is taken with the values its manifest declares: `f` enables the crate's own feature f, `c/f` the feature f of dependency c, `c?/f` the same but only if c is itself enabled on the crate, `dep:c` the dependency c (by its local name if it is renamed). Starting from the features enabled on the crate, each feature that is declared has a node with an edge to its own crate and an edge to everything it enables, unless the dependency is not in the graph or its edge was pruned. Own features that are enabled this way are recorded on the crate and followed as well, and a crate never has two nodes for one feature.",
  ["inputs", "configurations"], "every metadata, feature declaration and builder configuration",
  FIX + "the links between features are only seen in a few snapshots.",
  [B], [("features declared by a crate", "Builder::build_with_metadata, first work-list"), ("feature nodes and their edges", "Builder::build_with_metadata, last loop")])
# not decidable here
p("C90", "The graph agrees with cargo's own resolution",
  "With no filters configured, the crates, features and edges of the graph are exactly those cargo would build for the same metadata and options.",
  ["inputs"], "every workspace", "Needs cargo's resolver as an oracle on unbounded inputs.",
  [B], [("re-resolution", "Builder::build_with_metadata")])
p("C91", "Opaque and stable package ids describe the same graph",
  "The same workspace resolved by a cargo version that prints opaque package ids and by one that prints stable ids gives the same graph up to the ids' text.",
  ["inputs"], "every workspace and cargo version pair", "Relates two runs on two different inputs.",
  [B, L], [("id parsing and source comparison", "Kid: From<PackageId>, Builder::build_with_metadata")])
p("C92", "Parsing and serializing metadata is a value-level round trip",
  "Serializing any metadata value and parsing the result gives an equal value.",
  ["inputs"], "every metadata value", "Value equality over unbounded inputs, through a third-party serializer.",
  ["src/cm/de.rs", "src/cm/ser.rs"], [("Serialize/Deserialize impls", "src/cm")])
p("C93", "Build time stays polynomial in the size of the metadata",
  "Building a graph takes time polynomial in the size of the metadata.",
  ["inputs"], "every metadata", "Performance over all inputs.",
  [B], [("work lists", "Builder::build_with_metadata")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
