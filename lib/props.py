"""Single source of properties.jsonl and MANIFEST.json (see mkmanifest.py)."""
A = "engine/src/conversion/analysis/"
VX = "contract-based deductive verification: Verus contracts on the real functions, mechanically extracted from /repo on every run; "
PROBE = "failing obligations are replayed by, and unreachable callees bounded-checked by, a differential probe on the real engine against clang"

def prop(title, statement, over, quant, why, files, mech, **k):
    return dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, **k)

PROPS = {
 "P01": prop(
  "Exactly the requested C++ items, and what they need, get bindings",
  "The bindings contain every C++ item the user's directives ask for, directly or through a requested namespace, together with every type those items' signatures, and the fields of by-value types, need. They contain nothing else: no type, function or method which no directive asks for and no requested item needs.",
  ["programs", "configurations"], "all headers and all lists of generate directives, whatever the dependency graph between types and functions",
  "The integration tests each look at one header with one fixed dependency graph and almost never look for surplus output; the guarantee is a least-fixpoint statement over every graph, including cyclic ones.",
  [A + "gc.rs", "engine/src/conversion/apivec.rs", "parser/src/config.rs"],
  [("filter_apis_by_following_edges_from_allowlist", A + "gc.rs"), ("ApiVec", "engine/src/conversion/apivec.rs"), ("IncludeCppConfig::is_on_allowlist", "parser/src/config.rs")],
  level="proof", units=["gc", "apivec"], probe=dict(profile="gc"), seconds=dict(quick=60, thorough=900),
  technique=VX + "the worklist loop of the garbage collector proved to compute the least reachable set; " + PROBE,
  note="Reachability (both directions) is proved for the worklist and the container it uses, for all API graphs and directive lists; and the dependency edges of every kind of item (deps()) are proved to be those the analysis recorded; matching of directives against names is an assumed contract, exercised end to end by the bounded probe.",
  trusted=["IncludeCppConfig::must_generate_list / is_on_allowlist (assumed pure)"],
  assumptions=["the API names handed to the garbage collector are those bindgen produced for the header"]),
 "P02": prop(
  "Nothing refers to an item which was left out, and nothing else is left out",
  "When a C++ item cannot be bound, everything which needs it, directly or through other items, is left out as well, and each item left out leaves an error marker under the name the user would have called. Everything which needs nothing that was left out stays. The rest of the bindings therefore always builds: one unsupported item never breaks generation and never takes unrelated items along.",
  ["programs"], "all headers, whatever unsupported or blocked items they contain and however the others depend on them",
  "Tests hold one unsupported construct each; the guarantee is a fixpoint over every dependency graph and every place where an unsupported item can sit.",
  [A + "remove_ignored.rs", A + "deps.rs", "engine/src/conversion/error_reporter.rs", "engine/src/conversion/apivec.rs"],
  [("filter_apis_by_ignored_dependents", A + "remove_ignored.rs"), ("HasDependencies", A + "deps.rs")],
  level="proof", units=["ignored", "phases"], probe=dict(profile="ignored"), seconds=dict(quick=60, thorough=900),
  technique=VX + "the pruning loop proved to terminate and to withdraw exactly the items which reach something without a binding; " + PROBE,
  note="Proved for every list of APIs: the loop ends; an item is withdrawn iff it reaches, along dependency edges, an item which failed or a type nothing offers; each withdrawn item is replaced in place by a marker under its Rust name (trait implementations: no marker); no kept item depends on a withdrawn one. The dependency edges themselves (deps()) are under contract. That codegen refers to nothing but the listed dependencies is the bounded probe's part: it generates, links to the cxx bridge and compiles.",
  trusted=["known_types().is_known_type", "IndexSet/HashMap contracts in contracts/prelude"],
  assumptions=["a pure virtual method with an unsupported parameter in a class with a Rust subclass is a known finding (DESIGN.md)"]),
 "P03": prop(
  "A type is passed by value only if C++ says it may be relocated bitwise",
  "A C++ type becomes a plain Rust value that Rust may move bitwise only if its C++ move construction and destruction are trivial, however that is determined: by its own declarations, its bases, its fields, array elements or typedefs. A request to treat any other type as plain data is refused, at binding-generation time or when the generated C++ is compiled, instead of generating code.",
  ["programs", "configurations"], "all headers and all plain-data requests, whatever the nesting of fields, bases, arrays and typedefs and the order in which types are declared or listed",
  "The unit tests of the by-value checker use five hand-written structs; the guarantee is inductive over arbitrarily nested types and independent of declaration order.",
  [A + "pod/byvalue_checker.rs", A + "pod/mod.rs", "engine/src/conversion/codegen_cpp/mod.rs"],
  [("ByValueChecker", A + "pod/byvalue_checker.rs"), ("analyze_pod_apis", A + "pod/mod.rs")],
  level="proof", units=["pod", "bases", "cppgen"], probe=dict(profile="pod"), seconds=dict(quick=80, thorough=900),
  technique=VX + "the by-value checker proved, by induction over fields, bases and typedefs, to accept only types whose every by-value part it accepts; " + PROBE,
  note="Proved for all API lists and declaration orders: a type is marked by-value only if it was requested (or is part of a requested type), is neither virtual, non-trivial by bindgen's knowledge nor containing anything refused, and a refused request is an error. The trait facts of the C++ type itself are asserted in the generated C++: for every list of items, each type marked by-value is proved to get its static_assert in the generated header, in full, under its own C++ name; that clang refuses the program then is the bounded probe's part.",
  trusted=["syn accessors (fields, attributes) and std collections: contracts in contracts/prelude"], assumptions=["bindgen's AST lists every field and base of a class (virtual and empty bases: known gap, see DESIGN.md)"]),
 "P04": prop(
  "No item is lost, duplicated or clobbered between analysis phases",
  "The collection of items handed from one analysis phase to the next never contains two items with the same name in the same category and never silently loses an item: an item leaves only when a later phase explicitly drops it, and two distinct items which want the same name are both withdrawn in favour of one reported failure, never one silently replacing the other. The bindings therefore never define the same name twice.",
  ["programs", "histories"], "all headers, and all sequences of insertions, look-ups and removals on the item collection",
  "Tests exercise a handful of name clashes; whether the index and the sequence stay in step depends on the whole history of operations.",
  ["engine/src/conversion/apivec.rs", A + "mod.rs"],
  [("ApiVec", "engine/src/conversion/apivec.rs"), ("convert_apis / convert_item_apis", "engine/src/conversion/convert_error.rs")],
  level="proof", units=["apivec", "phases"], probe=dict(profile="gc"), seconds=dict(quick=40, thorough=600),
  technique=VX + "representation invariant of the item collection, and the conversion of every item from one phase to the next; " + PROBE,
  note="Proved for all histories: the representation invariant (names index exactly the items, no duplicates) and the effect of every operation. Proved for every list of items and every per-item conversion: convert_apis hands each function, class, enum and typedef to the conversion of its own kind, once and in order, passes every other item through unchanged, and a conversion which fails leaves a marker under the item's own name; convert_item_apis and discard_ignored_functions likewise. What each phase's conversion itself does with an item is proved under the other properties where listed there.",
  trusted=["report_error closures and the per-item conversions are arbitrary functions (nothing assumed about them)"], assumptions=["FnMut conversions are modelled as relations from their arguments to their results"]),
 "P05": prop(
  "Implicit C++ special members are exposed exactly when they exist",
  "For every class, a default, copy or move constructor which the user did not write is offered in Rust exactly when the C++ compiler would generate an accessible one, and ownership through smart pointers and containers is offered exactly when C++ lets the object be destroyed. No binding ever calls a special member which is deleted, inaccessible or absent, so the generated C++ always compiles.",
  ["programs"], "all class hierarchies with any combination of user-declared, defaulted, deleted, private and protected special members, bases, fields and arrays",
  "The existing tests cover a hand-picked grid of about thirty classes; the C++ rules are an induction over arbitrary hierarchies.",
  [A + "fun/implicit_constructors.rs", A + "fun/mod.rs", "engine/src/parse_callbacks.rs", A + "constructor_deps.rs"],
  [("find_constructors_present", A + "fun/implicit_constructors.rs"), ("add_constructors_present", A + "fun/mod.rs")],
  level="proof", units=["special", "depth"], probe=dict(profile="special"), seconds=dict(quick=100, thorough=900),
  technique=VX + "the C++ rules for the five special members proved by induction over bases-and-members order; " + PROBE,
  note="Proved for every list of APIs: for each class, the default, const-copy, non-const-copy and move constructor and the destructor found are exactly those the C++ rules give from what the class declares and from what its bases and members have (access for bases: protected or better; for members: public; arrays like their elements; enums, pointers, references and known std types as stated); declarations are attributed to the right class and kind, deleted or repeated ones count as absent; a class with a base or member which is not understood keeps only what it declares; implicit members are synthesized exactly for the classes which have them and are not blocklisted; the public-constructor flags follow. That the synthesized member becomes the right C++ call is P13; that a declared one is dropped when inaccessible is P15.",
  trusted=["synthesize_special_member makes the member it is asked for", "known_types constructor table (checked against g++ by the probe)", "HashMap entry API; bindgen's report of what is declared, defaulted or deleted"],
  assumptions=["each class lists the classes of its members in field_definition_deps (get_struct_field_types)", "class definitions are acyclic", "defaulted members which the compiler deletes are reported by bindgen as user-declared (issue 815, known limit)"]),
 "P06": prop(
  "Abstract classes are never instantiated",
  "A class is treated as abstract exactly when C++ says it is: when it has, or inherits without overriding, a pure virtual function. For an abstract class no constructor, by-value construction or by-value container is ever offered, while its methods on references stay available; for other classes construction is not withheld on this ground.",
  ["programs"], "all class hierarchies, overrides at any depth, overloaded and pure virtual functions, pure virtual destructors",
  "Tests use hierarchies of depth two or three with one pure function each; the guarantee is a fixpoint over arbitrary inheritance graphs.",
  [A + "abstract_types.rs"],
  [("mark_types_abstract", A + "abstract_types.rs")],
  level="proof", units=["abstract", "depth"], probe=dict(profile="abstract"), seconds=dict(quick=100, thorough=900),
  technique=VX + "the fixpoint over bases which marks types abstract, what is then discarded and how lost APIs are reported, all proved; " + PROBE,
  note="Proved for every list of APIs: after mark_types_abstract a class is abstract iff it declares, or inherits along fields-and-bases order without overriding, a pure virtual function (overrides compared by name, constness and parameter types); constructors of abstract classes and only those are turned into ignored entries; every API which fails is reported, none disappears. Which methods clang calls pure virtual comes from bindgen; virtual and empty bases are invisible in its output and are excluded (see known findings).",
  trusted=["bindgen's report of bases, pure virtual methods and constness"],
  assumptions=["C++ class graphs are finite and acyclic; names of classes are unique within the API list (proved preserved elsewhere: gc, apivec)"]),
 "P07": prop(
  "Rust functions are unsafe exactly when the chosen safety policy says so",
  "With no safety directive every generated function, method and constructor is unsafe to call. With a directive which trusts the C++, one is unsafe exactly when at least one parameter other than the receiver is a raw pointer, whether written directly or through a typedef; nothing taking a raw pointer is ever callable from safe Rust.",
  ["programs", "configurations"], "all functions, methods and constructors, all parameter lists and all safety policies",
  "Tests call a few functions inside or outside unsafe blocks; a function which became safe by accident still compiles in every test that wraps it in unsafe.",
  [A + "fun/mod.rs", "engine/src/conversion/codegen_rs/unqualify.rs", "parser/src/config.rs"],
  [("should_be_unsafe / from_param_details", A + "fun/mod.rs"), ("UnsafePolicy", "parser/src/config.rs")],
  level="proof", units=["unsafety", "tconv", "analyze"], probe=dict(profile="unsafety"), seconds=dict(quick=60, thorough=600),
  technique=VX + "the safety decision proved from the kind of every converted parameter type up to the unsafe token of the wrapper; " + PROBE,
  note="Proved for all parameter lists, policies and function kinds: which parameters count as raw pointers (through references, typedefs and bindgen's markers), how they combine, and when the policy overrides them; the function analysis as a whole records that decision and asks for a wrapper function whenever it is due. That the token reaches the generated item is quote! output, covered by the bounded probe.",
  trusted=["bindgen marker unwrapping and typedef resolution (no contract needed: any answer is allowed)", "quote!/parse_quote! output"],
  assumptions=["statements dropped from convert_type_path_which_is_not_a_reference (name qualification, blocklist, generics) do not change the kind of the type; they are checked to leave the function only with an error"]),
 "P08": prop(
  "Virtual calls from C++ reach the Rust override of a Rust subclass",
  "For each Rust subclass of a C++ class, a C++ call of a virtual function runs the Rust method which overrides exactly that function, with the values C++ passed, and C++ receives its result. Where Rust does not override it the superclass's own function runs, and Rust code can call that default explicitly. Every pure virtual function has to be overridden. The C++ and the Rust half of a subclass object find one another for as long as the object's owner (Rust, C++ or the object itself) keeps it, and then each is destroyed exactly once.",
  ["programs", "histories"], "all superclasses and signatures of their virtual functions, all choices of what to override, and all histories of creating, sharing, calling and releasing a subclass object under each kind of ownership",
  "Each subclass test has one superclass with one or two methods and one owner; mix-ups between overloads, namespaces, argument kinds or owners need combinations no test has.",
  [A + "fun/subclass.rs", "engine/src/conversion/codegen_cpp/mod.rs", "engine/src/conversion/codegen_rs/mod.rs", "src/subclass.rs"],
  [("create_subclass_function / create_subclass_trait_item", A + "fun/subclass.rs"), ("CppSubclass", "src/subclass.rs")],
  level="proof", units=["wrapper", "subclass", "cppgen"], kani=["sub"], probe=dict(profile="subclass"), seconds=dict(quick=90, thorough=900),
  technique=VX + "Kani contracts on the ownership of both halves in the real runtime library; " + PROBE,
  note="Ownership (src/subclass.rs): for each kind of owner every way of creating, calling, sharing and releasing an object is checked by Kani on the real crate, symbolically and without a bound (no loops), for a superclass type which records its destruction. Dispatch: generate_subclass is proved, for every list of methods and constructors, to emit one override per virtual method (calling Rust, with every conversion inverted and the Rust half passed first), one non-virtual call of the superclass's own per method which has one, and one constructor per constructor of the superclass, each with its full text. Unit subclass proves, for every class and every subclass, which functions reach it: one override, one super call and one trait item per virtual method of exactly that superclass, under the names the two halves share, with its constness and its arguments in order; one constructor per accessible constructor, and the trivially constructible ones by their real name. Unit cppgen proves that each subclass's C++ half is built from exactly its own methods and constructors, in order, and ends up in the generated files. The text of the Rust side is the bounded probe's part, which compiles and runs random superclasses and subclasses.",
  trusted=["cxx (rust::Box, UniquePtr)", "the Kani stand-in for the generated C++ class: holds the Rust half's box, lets go of it on relinquish_ownership"],
  assumptions=["analyses are kept in an ApiVec as unit apivec proves, and foreign functions analysed as unit analyze proves", "single threads, no re-entrant mutable calls (documented limits)", "virtual functions inherited from a base of the superclass, and ones with rvalue-reference parameters, are documented or recorded limits"]),
 "P09": prop(
  "Objects passed by value or by reference are never relocated, leaked or reused",
  "When Rust passes a C++ object by value, C++ receives an owned object itself, or a copy of a borrowed one which is otherwise left untouched; a constructor argument is run exactly once. No C++ object is ever relocated bitwise, every temporary lives exactly until the call returns, each object is destroyed exactly once, and a null owner is refused instead of being dereferenced. Every C++ reference made from a pinned object denotes that one object.",
  ["inputs", "histories"], "all argument values and all kinds of owner or borrower a by-value, rvalue or reference parameter accepts",
  "The tests look at results; a leaked, twice destroyed or relocated temporary usually gives the right result.",
  ["src/value_param.rs", "src/rvalue_param.rs", "src/reference_wrapper.rs", "engine/src/conversion/codegen_rs/function_wrapper_rs.rs"],
  [("ValueParamHandler / ValueParam", "src/value_param.rs"), ("RValueParamHandler", "src/rvalue_param.rs"), ("CppPin / CppRef", "src/reference_wrapper.rs")],
  level="proof", units=["wrapper"], kani=["byvalue", "refs"], probe=dict(profile="exec"), seconds=dict(quick=40, thorough=600),
  technique=VX + "Kani contracts, with a ledger of constructions and destructions, on the real runtime library; " + PROBE,
  note="Every implementation of ValueParam and RValueParam and both handlers are checked by Kani on the real crate, for all values and without a bound (no loops), with a C++ type which knows where it was constructed and enters every construction, copy, move and destruction in a ledger; likewise CppPin, CppUniquePtrPin and the references made from them. That the generated wrapper uses the handlers as those contracts need (one handler per argument, populated once, used in its own place) is proved in unit wrapper. A contract Kani refutes is replayed natively on chosen values.",
  trusted=["moveit, cxx::UniquePtr", "the hand-written UniquePtrTarget of the harness type (cxx generates it)"],
  assumptions=["generic code is checked at one C++ type which records everything done to it"]),
 "P10": prop(
  "Every overload gets its own Rust name and none is lost",
  "Each public C++ function, method and constructor for which a binding is possible is callable under exactly one Rust name, and no two of them share a name in the same scope, however many overloads, same-named functions in other namespaces and same-named methods of other classes there are. Disambiguation never makes one function shadow, replace or drop another, and the generated C++ always compiles.",
  ["programs"], "all sets of overloads, across classes, namespaces and name spellings",
  "Tests use fixed overload sets of two to five functions; uniqueness must hold for every multiset of names, including names which look like the disambiguated form of another.",
  [A + "fun/overload_tracker.rs", A + "fun/bridge_name_tracker.rs", A + "fun/mod.rs"],
  [("OverloadTracker", A + "fun/overload_tracker.rs"), ("BridgeNameTracker", A + "fun/bridge_name_tracker.rs")],
  level="proof", units=["trackers", "analyze"], probe=dict(profile="overload"), seconds=dict(quick=80, thorough=900),
  technique=VX + "both trackers proved never to hand out a name twice for any history of requests; " + PROBE,
  note="Proved for every sequence of requests: Rust names within a scope and names in the cxx bridge are pairwise distinct. That the function analysis takes each function's Rust name from the tracker of its own scope (its class, or its namespace), its bridge name from the bridge tracker, and keeps the C++ name it stands for, is proved on FnAnalyzer::analyze_foreign_fn. The bounded probe generates overload sets across classes and namespaces, compiles and calls them.",
  trusted=["std maps; bindgen's own names for overloads (its collisions are a recorded finding)"],
  assumptions=["scopes are keyed by type name and namespace, as the callers pass them (probe)"]),
 "P13": prop(
  "A call from Rust reaches the right C++ function with the right values",
  "Calling a binding runs exactly the C++ function, method, constructor or virtual override it stands for, on the right object, with every argument in its place and with its C++ value, and gives back the C++ result; references and pointers alias the caller's object and by-value arguments do not. Across the calls every C++ object is constructed and destroyed exactly once.",
  ["programs", "inputs"], "all function signatures over the supported parameter and return kinds, and all argument values",
  "Each integration test fixes one signature and usually one value; wrong conversions for combinations (several by-value arguments, wrapper plus placement return, overload plus namespace) go unseen.",
  [A + "fun/function_wrapper.rs", "engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs", "engine/src/conversion/codegen_rs/function_wrapper_rs.rs", "engine/src/conversion/codegen_rs/fun_codegen.rs", A + "fun/mod.rs"],
  [("TypeConversionPolicy", A + "fun/function_wrapper.rs"), ("cpp_conversion / rust_conversion", "engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs")],
  level="proof", units=["wrapper", "analyze", "cppgen"], probe=dict(profile=[("exec", 0.75), ("signature", 0.25)]), seconds=dict(quick=160, thorough=1200),
  technique=VX + "for every argument list and conversion policy, the C++ shim's text is proved to call the right function with each argument in its own place and its own conversion, and the Rust wrapper to pass its own arguments in order, each by-value one through stack space of its own; " + PROBE,
  note="Proved over the text and token lists which the generators build (format! and quote! are treated as uninterpreted constructors of their literal and arguments, so any change of text, order or argument is seen): generate_cpp_function_inner as a whole (signature, every parameter and its conversion in its own place, receiver, call expression for static functions, methods, constructors, placement and destructors, return conversion or construction in place); type conversion on both sides; the Rust wrapper's parameters, statements, bridge arguments and their order. On FnAnalyzer::analyze_foreign_fn as a whole: a shim is built whenever one is needed, with the function's own parameters, return, receiver and kind of call. Every shim, typedef and string constructor the items need is in the generated files, once, with the headers it asks for (unit cppgen). That the fixed text means in C++/Rust what it should is the bounded probe's part: it compiles and runs generated programs.",
  trusted=["meaning of the literal C++ and Rust fragments (executed by the probe)", "type_to_cpp spelling of types, CppNameMap, add_explicit_lifetime_if_necessary, maybe_unsafes_to_tokens (contracts assumed)", "cxx"],
  assumptions=["format!, quote! and parse_quote! are injective in nothing but what their contract states: output is a function of the literal and the arguments"]),
 "P15": prop(
  "Inaccessible and deleted C++ functions can never be called",
  "No private, protected or deleted C++ function, method or constructor is callable from Rust, and a public one is never withheld because another function with the same name is inaccessible.",
  ["programs"], "all mixtures of access levels, deleted functions and overloads",
  "Tests check a handful of private methods; access is tracked per overload, so mix-ups need particular combinations.",
  [A + "fun/mod.rs", "engine/src/parse_callbacks.rs"],
  [("FnAnalyzer::analyze_foreign_fn: visibility and deletion", A + "fun/mod.rs")],
  level="proof", units=["analyze", "phases"], probe=dict(profile="access"), seconds=dict(quick=60, thorough=600),
  technique=VX + "the whole per-function analysis proved to mark a function callable only if C++ says it is public, and to reject every deleted or inaccessible one; " + PROBE,
  note="Proved for the whole of FnAnalyzer::analyze_foreign_fn, cut mechanically into consecutive slices each with a contract: a function is externally callable iff its own C++ visibility is public; it is rejected with a marker whenever it is deleted, private (or protected outside a subclass), an assignment operator, has an unsupported or nested-template parameter, an unused template parameter, or a static method or method of a type which was not understood; it is rejected for one of these reasons only; and the decision is a function of this function's own facts, never of another overload's. That the facts (visibility, deletion) recorded for a function are clang's is exercised by the bounded probe.",
  trusted=["convert_fn_arg, convert_return_type (uninterpreted results)", "trait_creation_details_for_synthetic_function"], assumptions=["bindgen's callbacks report each item's own access and deletion"]),
 "P18": prop(
  "Casts reach public, requested, unambiguous bases and nothing else",
  "When a class and one of its direct base classes are both requested, the class can be borrowed as that base exactly when the base is inherited publicly and is not also reached through another direct base. No cast to a protected, private, ambiguous or unrequested base is ever offered, so the generated C++ always compiles and the borrowed base is the base sub-object of that very object.",
  ["programs", "configurations"], "all inheritance graphs, including repeated and diamond-shaped ancestry, all access levels and all lists of requested classes",
  "Tests use two- and three-level single inheritance; the guarantee quantifies over arbitrary inheritance graphs.",
  [A + "casts.rs", A + "pod/mod.rs"],
  [("create_casts", A + "casts.rs"), ("get_bases", A + "pod/mod.rs")],
  level="proof", units=["bases"], probe=dict(profile="casts"), seconds=dict(quick=50, thorough=600),
  technique=VX + "which casts are created is proved to be exactly the public, requested, unambiguous direct bases; " + PROBE,
  note="Which casts exist is proved for all inheritance graphs; that the cast's generated C++ reaches the right sub-object is executed by the bounded probe of P13.",
  trusted=["IncludeCppConfig::is_on_allowlist (assumed pure)", "syn accessors and std collections: contracts in contracts/prelude"],
  assumptions=["bindgen lists the direct bases as _base* fields whose visibility is the access of the inheritance"]),
}
NOT_APPLICABLE = []
