HOOK_COMMITS = ['be54c6a']
PROOF = 'contract-based deductive verification: MIR of the current source -> verification conditions -> Verus/Z3; contracts replayed on the real code'
PART = 'contract-based deductive verification of the functions under contract (MIR -> verification conditions -> Verus/Z3); executable contracts replayed on the real code as the bounded stand-in for the rest'
BOUND = 'executable contracts replayed on the real functions (bounded stand-in)'
TRUST = ' Trusted: rustc\'s MIR, vcgen and its models of std/itertools/proc_macro2/pyo3, Verus and Z3 (listed in the evidence).'
CLAIMS = {}
def claim(pid, level, tech, note, thms=()):
    CLAIMS[pid] = (level, tech, note + TRUST, list(thms))
claim('C01', 'proof', PROOF, 'All conversions of names and paths have a contract (result = specification function); round trip, spelling and injectivity are theorems over the contracts, for all names. Assumes only that syn rejects the path keywords (axiom_keywords); syn_ident_ok is otherwise uninterpreted.', ['round_trip', 'spelling', 'injective'])
claim('C02', 'proof', PROOF, 'Path::relative_to is proved, for all paths, to resolve (fold over self/super/segments) to its target, with the stated shape of the unambiguous form.')
claim('C18', 'proof', PROOF, 'Ord/PartialOrd of Ident and Path are proved equal to the order of the Python spellings; equality and order theorems over them. str comparison is assumed to be a total order (axiom_str_cmp).', ['equality', 'order'])
claim('C04', 'proof', PROOF, 'Config::is_attr_allowed is proved equal to the stated predicate for every name, path and configuration. Class::parse is proved to keep exactly the members the predicate admits (and construction and call), assuming members_sane. The default configuration and the use of the filter by module parsing are covered by replay.')
claim('C05', 'proof', PROOF, 'Type::from_str (with split_sequence, repair_complex_sequence, nth_or_unknown) returns Ok, terminates and has no reachable panic for every string; so do both try_from conversions and from_typing for runtime objects, assuming CPython answers as py_sane says (every class names its module, issubclass against a builtin class does not fail). Termination over runtime objects is relative to the object graph being finite (partial correctness of that recursion).')
claim('C06', 'proof', PROOF, 'from_str is proved equal to the denotation `parsed`, and split_sequence to splitting at bracket depth 0; the theorem nested_annotations shows that the rendering of any annotation tree denotes that tree, at every depth.', ['nested_annotations'])
claim('C23', 'proof', PROOF, 'try_from/from_typing are proved to map classes by their most derived supported base, typing constructs by origin and arguments in order, and everything else by their text, for all objects; py_is_subclass & co. are uninterpreted observations of CPython (py_sane as for C05).')
claim('C08', 'proof', PROOF, 'format_docstring and conditioned_dedup are proved, for all strings, to establish every clause of the statement (one blank, no runs, trimmed lines, slashes, line breaks, same characters). That functions, properties and classes attach exactly this text is proved by their contracts; for modules it is replayed.')
claim('C09', 'proof', PROOF, 'with_suppressed_python_output is proved for every closure and both flags over a model of the interpreter state (a world changed only by setattr and by the closure), assuming that sys.stdout/sys.stderr can be assigned (sys_assignable). Panics of the closure (unwinding) and what the replacement object does on write/flush are covered by replay.')
claim('C13', 'proof', PROOF, 'AttributeVariant::determine is proved equal to the stated decision order for all observations of the object, assuming that names of modules contain no `::`. Class::parse is proved to hand each member to it and to file it as its answer says; how module parsing chooses its arguments is replayed.')
claim('C15', 'proof', PROOF, 'generate_prelude is proved to re-export exactly the listed names that are bound and switched on, once each, under a module name bound to nothing; extract_prelude is proved equal to the stated selection. Assumes well-formed names (names_wf: Python names of the items of a module are not empty) and fewer than 2^31 items.')
claim('C03', 'proof', PROOF, 'Import::new, from_paths and is_external are proved equal to the stated classification and never fail; Import::generate is proved to emit nothing or exactly the stated `pub use`, whose path resolves to the origin, for all paths. syn_path_ok/syn_ident_ok (what syn accepts) are uninterpreted.')
claim('C07', 'exploration', PART, '16 functions under contract, theorems converted_exactly_when_impl and spelled_types; the exact shape of optional, list and tuple types and the existence of every spelled std type are replayed.', ['converted_exactly_when_impl', 'spelled_types'])
claim('C10', 'exploration', PART, 'Path::join/concat are under contract; merging module trees is replayed on all small histories.')
claim('C11', 'exploration', PART, 'Function::generate and the accessor generators are proved to choose the stated names, accessor_names that accessors never collide, and Class::generate hands them exactly the names of the class; how modules collect the names is replayed.', ['accessor_names'])
claim('C12', 'proof', PROOF, 'Function::parse is proved to read every signature (typing hints or inspected parameters, receiver, defaults, binding) as stated, and Function::generate to produce exactly the call the specification writes down for it, assuming sig_sane (what inspect reports about parameters) and fewer than 2^31 names in scope. That such a call means the Python call is PyO3 and CPython semantics, replayed against Python.')
claim('C14', 'exploration', PART, 'Documentation switch of functions and properties is proved; removal of sections by module and class generation is replayed over all switch combinations.')
claim('C16', 'exploration', PART, 'Path::import_quote is proved to emit the longest importable prefix followed by the remaining names as attributes; the use for classes and modules is replayed.')
claim('C17', 'proof', PROOF, 'Property::parse is proved to read type, mutability and documentation of every attribute as stated; Property::generate, generate_getter and generate_setter to produce exactly the specified accessor. That the accessor means getattr/setattr is PyO3 semantics.')
claim('C19', 'exploration', BOUND, 'Codegen::build over all combinations of output file state and generation outcome.')
claim('C20', 'exploration', BOUND, 'Embedded source over names (keywords included), texts and mixtures with modules added by name.')
NOT_APPLICABLE = {}
NOT_APPLICABLE['C21'] = 'A contract for it would need the type system of rustc and the trait impls of the pinned PyO3 as a specification; no deductive verifier here expresses "this token stream type-checks". Compiling samples would be testing, not this technique.'
NOT_APPLICABLE['C22'] = 'Quantifies over live Python objects: what introspection reports is decided by CPython, pkgutil and inspect, which are outside any contract verifiable here; only the per-object steps (C04, C13) are claimed.'
NOTES = 'Proof obligations are regenerated from the MIR of /repo on every run; see DESIGN.md.'
