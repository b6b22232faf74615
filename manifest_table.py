_err = ("Path-sensitive dataflow over the SSA form of every function of these packages: assuming each fallible construct "
        "fails, every feasible path must report it. Does not decide whether a reported error is acted on outside the module, "
        "nor failures the standard library hides.")
CLAIMED = {
 'C01': ('SSA error-flow (fate of every fallible call on every path), short-read and recover lints', _err),
 'C02': ('SSA error-flow (fate of every fallible call on every path), short-read and recover lints', _err),
 'C03': ('SSA error-flow (fate of every fallible call on every path), short-read and recover lints', _err),
 'C04': ('SSA error-flow (fate of every fallible call on every path), short-read and recover lints', _err),
 'C05': ('SSA error-flow (fate of every fallible call on every path), short-read and recover lints', _err),
 'C07': ('SSA path-event analysis: every success path of every sync/flush/close method covers each constituent; save-before-replace protocol for memory-held arrays', 'Constituents are the fields (or elements of map and slice fields) whose type can itself be synced, flushed or closed. Files that are opened, written and closed within one operation are not constituents. A constituent method is checked at its own type; the operating system and the standard library are trusted.'),
 'C09': ('SSA column model: creator table, opened/exposed field maps and read sets extracted by context-sensitive symbolic evaluation and compared; path-event analysis that every column is created and opened', 'Column identity is the symbolic folder/name the creator is made with. Which columns each reader method must read is a table in the analyzer. Element widths are compared between create and open, not against the values stored (C12 rejects values that do not fit).'),
 'C15': ('SSA value-identity analysis of append keys: per-transaction/per-block columns are written once per round at the linear index their frame implies, on every success path', 'Alignment is proved as equality of linear expressions over SSA values (chain keys, counters, loop inductions). What the written values mean is C16.'),
 'C16': ('SSA provenance analysis: every value and index either import path stores is traced to a role (fact of the parsed block) and both paths are compared with one role table; accessor, callback, receiver and indexer tables of both sources', 'Provenance is symbolic: roles are recognised by the accessor, callback or field a value comes from. Sources other than the two of this module are out of scope, and arithmetic inside the parsers is C28.'),
 'C06': ('SSA handle-ownership analysis: flow summaries plus path-sensitive must-release of every acquired handle', "Every acquisition (os.Open/Create/OpenFile, mmap.Map, http responses, and in-module constructors that hand a handle over) is followed on every feasible path of its function. Job drivers whose return ends the process are exempt; aliasing through the heap is approximated by object and field."),
 'C08': ('SSA path-event protocol: the underlying file is used only with the append buffer known empty; dominance-free linear-offset checks of append position and size accounting; bypass query over wrapped files', 'The buffered types are found by shape (a struct holding an *os.File and a *bufio.Writer). What bufio does inside is assumed. Concurrent use of one object is out of scope.'),
 'C12': ('abstract interpretation of the writers and readers (go/ssa): integers as linear forms with intervals, bytes by provenance, files and arrays as cells at linear offsets; trace partitioning at undecided branches; plus expression queries for opening counts', 'word sizes 1..8 each; positions, counts and values symbolic; array files, in-memory shadows and whole-file reads interpreted for instances of up to three elements per array; stores of arrays driven through one history of 14 appends to 7 arrays in several files and folders, for 9 layouts and limits of the memory they use'),
 'C13': ('abstract interpretation of the bin index code over symbolic entries, bins and files (linear forms, intervals, byte provenance); round trips must be identities', 'field widths enumerated (15 hash-index widths x 8 sort-number widths), bins up to 5 entries with room for 2, stores driven for one appended hash; overflow path injectivity and I/O completeness assumed'),
 'C21': ('SSA path query: every lookup result that can be "not found" (-1/false/nil) is tested before any use as a position or handle on every path, and every not-found outcome is said (error, -1, invalid handle)', 'Lookup functions are found by role (hash index lookups of the store interfaces, handle heights, map lookups they wrap). The test may lie in the caller or callee; whether a hash is absent in fact is not decided (C22, C29).'),
 'C22': ('abstract interpretation of every hash store from its creator over symbolic repeated hashes and a closed-world file model; tier order, forest order and hashes handed to a bake interpreted with the tree walk modelled', 'One history shape (A,B,A,A,B then A after reopening) per store and parameter set, hash bytes symbolic except those that order them; stores made from a file of hashes for one sequence of seven hashes with repeats and both orders of ties; the uniform store for two divisions of the bins among passes and with one bin overflowing; the walk within one tree is modelled, not interpreted (C24).'),
 'C25': ('abstract interpretation of the layered store: append limit and openings decided for a symbolic hash count, the chain of maximum forest sizes compared with the id widths of the configuration built from symbolic arguments, prefix/tier position facts of every tier, forest counts after interpreted bakes', 'The per-level node count is bounded by the design-time check in the source, not re-derived; tiers deeper than the four configured do not exist.'),
 'C26': ('abstract interpretation of NewTierTop and DonutForestWrite.Write in a closed world of files with every file operation able to fail: order of file effects on every path decided when the source tier is first truncated or removed', 'One failure per bake, at the first two times each operation is done; trees and node contents are modelled (C24 interprets them); whether data handed to the operating system survives a power loss (fsync) is out of scope.'),
 'C27': ('abstract interpretation of bakes of every tier (12 configurations of existing forests, with cascades) in a closed world of files: the chain of tiers, their files and maps, and every number, decided in the state after each bake', 'Bakes of up to three tiers in cascade and up to two forests per tier; tree contents modelled (C24).'),
 'C23': ('abstract interpretation of every tier, configuration and bake over symbolic hash numbers: each conversion must be the inverse of its partner and the number reported must be the number added', 'Conversions are interpreted for symbolic numbers; bakes for up to three tiers in cascade and two forests per tier, as in C27.'),
 'C24': ('abstract interpretation of the node, jump-table and info-file writers and readers over a closed-world file model: every hash baked is found through the interpreted tree walk', "Tree shapes enumerated (all node formats, all words of the flag bits, merged formats, each tier), the number spaces and placements symbolic; which byte a node examines is the designer\\'s choice and free."),
 'C20': ('abstract interpretation of the sequencer, the header stream, the fetch stages and the import loops with channels modelled as queues, over every permutation of arrival and every shape of header answer', 'Up to five objects in every arrival order; the HTTP client and the JSON parser are modelled; the scheduler is modelled by running each goroutine when its output is waited for (data races and lost wakeups are C18/C19).'),
 'C10': ("effect analysis over an instantiated-type call graph with constant propagation: no operation that creates, writes, truncates or removes is reachable from a read-only opening or from a reader's methods", 'Effects of the standard library are a table of the os, io and mmap operations that write; the files the user names (a folder passed in) are taken as they are.'),
 'C11': ('effect analysis over the call graph: which operations delete, truncate or replace, from which public operations they can be reached, and symbolic rendering of the path each is given against the files of its own store', 'Paths are compared by the parts they are built from; a folder the user passes in is its own (two stores given the same folder are not told apart).'),
 'C14': ('abstract interpretation of the appending operations and of the sources of blocks over symbolic heights and indexes, every path', 'histories of fewer than 2^31 blocks; blocks of three transactions; hashes that differ in one byte at a time'),
 'C33': ('abstract interpretation of appending and reading back over a symbolic column store, every path and word compared with the source', 'two appended blocks of five transactions after a history of any length; the columns and indexes are modelled (C12, C22)'),
 'C19': ('static analysis of goroutines, channels and wait groups: flow analysis of channel and group values, typestate over the paths of every goroutine; abstract interpretation of the sequencer for its valve', 'channels reached through variables, fields, parameters and slice elements; a function receiving in a loop it later abandons after a failure of its own is not followed across goroutines'),
 'C17': ('abstract interpretation of the appends with a happens-before analysis of the memory and store accesses of their goroutines', 'sources of blocks: the two OneBlockHolder chains; two blocks of fixed shape with any numbers, histories of any length; one failing column operation at a time; that stores share no memory is decided by a package-level-variable rule'),
 'C18': ('lockset dataflow over access paths with interprocedural lock summaries; typestate of condition variables; copy check over the type-checked SSA form', 'locks are told apart by access path; guarded fields are inferred from accesses under a lock; conditions over fields and calls'),
 'C29': ('abstract interpretation of every hash store from its creator, and of every maker of a store from a file of hashes, over symbolic hashes and a closed-world file model', 'Seven hashes that are equal or different in what partial keys, chunks, bins and sort numbers are made of, and 66 that were not added (each differs from an added one in one byte); all other bytes symbolic. Small chunk and bin sizes make them overflow; larger numbers of hashes are not thereby shown. The uniform store is made from a file in passes of 3, 4 or all bins and appended to, one bin overflowing in the last; the last address of a store whose number of bins does not divide 2^64 is not shown to have a bin.'),
 'C28': ('abstract interpretation of both block parsers for the same symbolic block (bytes by provenance, JSON by field tags), every field compared with the block and between the parsers', 'Block shapes enumerated (coinbase, plain, witness, long scripts, many outputs; every length of count), numbers, scripts and amounts symbolic; hashes stand for the bytes hashed. The JSON of the node is a table in the analyser, and encoding/json is modelled by field tags. The difficulty is decided for constant targets (29 exponents, 4 mantissas).'),
}
NA = {
 'C30': 'Crash-point and resume behaviour: depends on the file-system state at an arbitrary instant; the ordering clauses that are visible in the code are C07 and C26.',
 'C31': 'Heap use at run time is not visible in the shape of the code.',
 'C32': 'Statistical sizing of bins (Poisson arithmetic on run-time counts); no static bound in reach.',
}
for _i in range(6, 29):
    if 'C%02d' % _i in CLAIMED: continue
    NA.setdefault('C%02d' % _i, 'Check not built yet (work in progress).')
