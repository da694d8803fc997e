ABS = 'static analysis: path-sensitive abstract interpretation of MIR with symbolic sequences and linear arithmetic; '
COMMON = ' Decided for arbitrary payloads, keys, hashers and sizes; trusts rustc, the MIR extraction, the interpreter in engine/ and its models of std; a path the analysis cannot resolve is reported as undecided in the evidence (none on the current tree), never as a violation.'
TECH = {
 'C01': (ABS + 'rule "hit" on every path of every lookup', 'proof', 'Every path on which a lookup reports a hit hands out parts of one stored entry whose key was compared equal to the query.' + COMMON),
 'C02': (ABS + 'rules "keep", "group", "bounds", "miss" and "same bucket"', 'proof', 'Constructors file every entry under its bucket, lookups compare the query with every entry of the bucket chosen by the same hash term. Assumes lawful Eq/Hash/Borrow and distinct keys.' + COMMON),
 'C03': (ABS + 'every constructor result is shown to store a permutation of the items supplied', 'proof', 'For each constructor, the entry sequence of the returned value is derived symbolically and compared with the payload as a bijection of positions, keys kept with their values.' + COMMON),
 'C04': (ABS + 'guards and position types of every hash-based constructor and of the dispatch in the general-purpose collections', 'proof', 'Every conversion of a position to the narrow type is dominated by a guard on the entry count; each representation the facades choose admits the sizes it is chosen for. Assumes fewer than 2^64 entries.' + COMMON),
 'C05': (ABS + 'no construction survives a gap or a duplicate; lookups hit exactly on min..=max', 'proof', 'Assumes that the span of the keys is representable in the key type (i8 keys from -128 to 127 panic at construction).' + COMMON),
 'C06': (ABS + 'every unsafe operation reachable from the public API is proved within its contract at its call site', 'proof', 'Enumerates unchecked indexing, raw dereferences, transmutes, pointer casts and other unsafe calls in all library code; each is discharged from the facts of its path with numeric conversions of caller-defined types treated as arbitrary, so that lying trait implementations are covered. Code expanded in the crate of the user is outside.' + COMMON),
 'C07': (ABS + 'each multi-key lookup returns places index-wise equal to the hits of the queries, pairwise disjoint', 'proof', 'Covers every get_many_mut; pairwise disjointness rests on the modelled contract of get_disjoint_mut or an equivalent all-distinct check.' + COMMON),
 'C08': (ABS + 'effect analysis: what every function with mutable access writes and hands out', 'proof', 'Every function that can reach a collection mutably writes nothing inside it and hands out only value halves; no field or function leaks the storage.' + COMMON),
 'C09': ('static analysis: auto traits of every type decided by the trait solver of rustc under chosen assumptions; interior mutability, mutable statics and writes through shared pointers found in types and MIR', 'proof', 'For every type the set of parameters Send and Sync depend on is computed and compared with what it stores; hand-written Send/Sync, cells, mutable statics used by lookups, and mutable pointers made from shared ones are reported. Trusts std and the payload types.'),
 'C10': ('static analysis: region analysis of every public signature and associated type', 'proof', 'Every lifetime in a result has to come from a borrow of the collection, never from a query key, and mutable results from exclusive borrows; what callers may do with the result follows from the signature by the borrow checker of rustc.'),
 'C11': (ABS + 'every iterator state is drained symbolically: yields, lengths, hints and the end marker per state', 'proof', 'Each iterator type is analysed from the states reachable from its constructors; the yielded sequence is compared with the stored entries as a sequence.' + COMMON),
 'C12': (ABS + 'typestate of set algebra iterators: phases, per-element yield policy from membership facts, composed over both operands', 'proof', 'The per-element decision of each phase is read off the paths of next() and combined into a truth table over membership in the two operands; assumes lawful, distinct set elements and fused operand iterators.' + COMMON),
 'C13': (ABS + 'size hints of set algebra iterators entailed by linear bounds over the remaining lengths in each phase', 'proof', 'Bounds are linear facts over remaining lengths and the pigeonhole bounds of membership; proved in every state of the typestate.' + COMMON),
 'C14': (ABS + 'each answer of the predicates is justified by a completed scan, a witness or a length argument on its path', 'proof', 'Every true answer needs a loop over all elements with the membership fact, every false answer a witness element or a length comparison, in the facts of its path.' + COMMON),
 'C15': (ABS + 'the iterator each operator collects is analysed like the named operations', 'proof', 'The iterator handed to collect is drained symbolically and its truth table over membership in the operands compared with the named operation.' + COMMON),
 'C16': (ABS + 'each answer of eq is justified by a completed scan with equal lengths, or a differing entry or length', 'proof', 'Relies on lookups, iteration and length meaning what C01, C02, C11 and C18 say.' + COMMON),
 'C17': (ABS + 'what every fmt hands to the formatter, drained symbolically, against the stored entries', 'proof', 'Covers what is passed to debug_map/debug_set/debug_list builders; how the standard builders print it is trusted.' + COMMON),
 'C18': (ABS + 'length and emptiness of every collection against its entries; the length trait against the element count of each type', 'proof', 'Every length function is reduced to a linear term over the stored sequence.' + COMMON),
 'C19': (ABS + 'which hasher every hash is computed with, from types and from values; what sub-slice hashing feeds to it', 'proof', 'Every hash call in the crate is on the hasher type of the caller; constructors store and file by the hasher given, lookups use the stored one.' + COMMON),
 'C20': (ABS + 'the macro run on symbolic token streams; the templates it can return are compared with its input and type-checked as a compile witness', 'proof', 'Every outcome of the expansion function is a template over the nodes parsed from its input: all pairs present, widths and layouts admissible on the facts of the path, refusals only where a part does not parse; one instance per template and key type is type-checked by rustc against the crate as built. Assumes distinct keys and that syn prints a node as the tokens it was parsed from.' + COMMON),
 'C21': (ABS + 'every read of a key during analysis and every recommended window proved inside the key from quantified loop invariants; the window the map hashes compared with the window analysed', 'proof', 'The analysis is inlined whole; a loop that keeps a minimum over the keys yields a bound for each key. Windows are compared as linear terms in the length of the key.' + COMMON),
 'C23': (ABS + 'the sizing analysis inlined with its first rounds unrolled; slot counts bounded by linear arithmetic and induction over its loops; every loop shown to end', 'proof', 'Assumes that there are infinitely many primes, that products of a size with the growth factor do not overflow, and that a float square root is the integer one. Also checks that every table built gets the recommended count for as many hash codes as it has entries.' + COMMON),
 'C25': (ABS + 'every panic site on every path of every operation is shown unreachable', 'proof', 'Every operation of a constructed collection is walked in full for arbitrary queries and contents; every path that ends in a panic (bounds, overflow, unwrap, assertion, division) has to contradict itself or the invariants of the constructors; keys are subtracted only inside the bounds of a range. Assumes that user code returns, that windows do not end before they start, and that the span of the keys is representable in the key type.' + COMMON),
 'C26': (ABS + 'every panic site on every path of every constructor and of the analyses it runs is shown unreachable for distinct keys', 'proof', 'The constructors are walked in full for arbitrary payloads; those of tables and ranges may refuse more entries than positions, or gaps, and the general-purpose ones are shown never to ask for that. Same assumptions as C25, plus those of C21 and C23 for the analyses.' + COMMON),
 'C22': (ABS + 'every clone is compared part by part with the original; defaults hold no entries; no field is a shared mutable handle', 'proof', 'Derived and hand-written clones alike; iterators over entries are compared in every state an iteration goes through. Trusts Clone of payloads and std containers.' + COMMON),
}
NA = {
 'C24': 'Speed relative to another map is a measurement, not a fact visible in the source.',
}
