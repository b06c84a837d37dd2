"""Writes /verif/properties.jsonl (the property list lives here so it stays diffable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
IMPL, COD, MEM = "dustgoggles/codex/implements.py", "dustgoggles/codex/codecs.py", "dustgoggles/codex/memutilz.py"
STR, PIV, MOS = "dustgoggles/structures.py", "dustgoggles/pivot.py", "dustgoggles/mosaic.py"
COMP, DYN, TRK, FUN, SCR = (f"dustgoggles/{n}.py" for n in ("composition", "dynamic", "tracker", "func", "scrape"))
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


# ---------------------------------------------------------------- codex
p("C01", "A Notepad is one dictionary shared by every handle and process",
  "After any history of sets, overwrites, deletes, clears and reopenings through any mix of handles and processes opened on the same prefix, every handle reads the most recently stored value for each present key (None included), and listing or iterating keys and items through any handle yields exactly the present keys, once each. An absent key raises KeyError on subscripting and deletion and yields the caller's default from get. This holds for each supplied codec (pickle, JSON, literal), with locking on or off, and for keys that are strings or integers (an integer names the same entry as its decimal string).",
  ["histories", "inputs", "configurations"],
  "all finite sequences of set / overwrite / exists_ok=False set / get / delete / clear / list / reopen over any non-empty keys without '/' or NUL, any values the codec can carry, any number of handles and processes, codecs {pickle, json, ast}, locking {on, off}",
  "test_notepad_1 sets two keys and reads each once from one child; no test deletes, overwrites, clears, reads a missing key, lists keys or uses two live handles.",
  [IMPL, COD, MEM],
  [("value block per key plus shared key index, both named from the prefix", f"{IMPL}: Notepad"),
   ("index kept dense by moving the last key into a deleted slot", f"{IMPL}: TagIndex")],
  [("<prefix>_<key>", "encoded value of one key", f"{IMPL}: AbstractNotepad.address"),
   ("<prefix>_index", "8-byte count of keys", f"{IMPL}: TagIndex.memory")],
  ["Notepad[...], get, set, keys, iterkeys, itervalues, iteritems, del, clear, str()"])
p("C02", "A failed shared-memory operation changes nothing",
  "When setting or deleting an entry of a Notepad or GridPaper raises (value cannot be encoded, metadata that the index cannot hold, key unusable as a block name, key already present with exists_ok=False, key absent, key reserved for the index), every entry's value and the listing of keys are exactly what they were before the call, as seen from every handle. Setting with exists_ok=False succeeds on an absent key and raises KeyError on a present one. Setting or deleting a key that begins with the reserved word 'index' raises KeyError.",
  ["histories", "inputs", "fault_sequences"],
  "all histories of successful and failing sets and deletes on Notepads (each codec) and GridPapers, with a full listing and read-back after each failing call",
  "No existing test makes any codex operation fail.",
  [IMPL, COD, MEM],
  [("value is encoded and stored before its key is indexed", f"{IMPL}: Notepad.__setitem__"),
   ("existence checks and reserved-prefix checks", f"{IMPL}: Notepad/GridPaper __setitem__, __delitem__")])
p("C03", "GridPaper returns exactly the last array stored under each key",
  "After any history of sets, overwrites (with any other shape, size or dtype), deletes and clears through any handles on one prefix, each present key reads back an array equal to the last one stored in dtype (byte order included), shape (zero-dimensional and empty included) and every element bit for bit, and absent keys raise KeyError or yield the default. An array read as a copy is unaffected by later writes to or deletion of its key and writing into it changes nothing in the paper; an array read without copying shares memory with the stored entry, so writes through either are seen by the other until the entry is replaced or deleted, for as long as the GridPaper object it was read from is alive.",
  ["histories", "inputs"],
  "all histories over non-empty string keys and numpy arrays of bool, integer, float, complex, fixed-width string/bytes, datetime and structured dtypes in either byte order, any memory layout, 0 to 4 dimensions, zero-length axes included; locking on or off",
  "test_gridpaper_1 stores two 3x3 int arrays once each and reads each once; overwriting, deletion, clearing, other dtypes, shapes and views are never exercised.",
  [IMPL, COD, MEM],
  [("raw array bytes in one block, dtype/shape metadata in the key index", f"{COD}: numpy_mnemonic_factory"),
   ("metadata follows its key when the index is compacted", f"{IMPL}: MetaTagIndex.__delitem__")])
p("C04", "Shared indexes are sets of keys with the right metadata attached",
  "After any history of adds, re-adds, removes and lookups through any handles on one index, updating or listing it gives exactly the added-and-not-removed keys without duplicates, looking a present key up gives a slot in range(number of keys) that no other key has, and looking an absent one up gives None. In an index with metadata, keys, values and items correspond and each key keeps the value it was first added or last updated with, wherever deletions of other keys move it. Removing an absent key raises KeyError and adding a present one with exists_ok=False raises FileExistsError, with no effect; adding with metadata that the index cannot hold raises, with no effect.",
  ["histories", "inputs", "configurations"],
  "all histories of add/remove/check/update/keys/values/items by any number of handles on TagIndex and MetaTagIndex, with locking on or off, non-empty string keys, JSON-stable metadata or none",
  "No test touches an index directly; the notepad tests never delete, so the compaction path never runs.",
  [IMPL],
  [("slot-to-key blocks, key-hash-to-slot blocks, length block; swap-with-last on delete", f"{IMPL}: TagIndex._add, TagIndex._delitem"),
   ("metadata block per slot moved with its key", f"{IMPL}: MetaTagIndex.__delitem__")])
p("C05", "Locked index updates by concurrent processes never interfere",
  "However the shared-memory steps of several processes, or of threads that share one handle, that add, set, read, remove, delete (each its own keys) and list keys on one locked index or notepad interleave, once all have finished the index lists exactly the keys that were added and not removed, each once, with its own value or metadata. Meanwhile a process reading a key that no other process changes always gets that key's own value or metadata. At most one process is ever inside the lock of a given name at a time. Under fair scheduling every operation completes.",
  ["schedules", "histories"],
  "all interleavings, at the granularity of single shared-memory block operations (create, attach, read, write, unlink), of up to four concurrent processes (or threads with one handle between them) each running a short program of add/remove/set/get/delete on disjoint keys, with listings in between (gets also on keys nobody changes), or of enter/leave on one named lock",
  "The tests run one process at a time against an index, so no two operations ever overlap; a schedule cannot be chosen by a unit test.",
  [IMPL, MEM],
  [("ticket lock built on exclusive creation of shared-memory blocks", f"{IMPL}: SlidingLock"),
   ("every index mutation runs inside the lock", f"{IMPL}: TagIndex.add, __delitem__, MetaTagIndex.add, __delitem__")],
  [("<index>_count", "highest ticket that has finished", f"{IMPL}: SlidingLock.count"),
   ("<index>_<n>, <index>_<n>_lock", "ticket n is taken / waiting or holding", f"{IMPL}: SlidingLock.marker, lock")])
p("C06", "Closing releases all memory; creation never clobbers; prefixes are isolated",
  "After any history, closing a Notepad, GridPaper, index or Sticky that was opened by any handle (or leaving a process in which it was opened with cleanup_on_exit=True) leaves no shared memory block that it created, and does not change any notepad on a different prefix; what was made anew under its name after it was closed is left alone when the process ends. Opening with create=True on an existing prefix raises and changes nothing, and opening with create=False on a prefix that was never created or has been closed raises FileNotFoundError and creates nothing. Closing or dumping with dump writes each entry's stored bytes to its own file; dumping an absent key raises and touches no file. An object made without a name chooses one of its own, under which others can open it.",
  ["histories", "configurations", "inputs"],
  "all histories over two or more notepads/grids/stickies on prefixes of which none is another plus '_', followed by close in any order, in process or at process exit; locking on or off",
  "Tests leave clean-up to the multiprocessing resource tracker and never inspect shared memory.",
  [IMPL, MEM],
  [("close deletes each listed key, the index and the lock counter", f"{IMPL}: Notepad.close, GridPaper.close, TagIndex.close, Sticky.close"),
   ("atexit registration", f"{IMPL}: cleanup_on_exit")])
p("C07", "A Sticky delivers the last object stuck at its address",
  "After any history of notes and re-sticks of picklable objects of any size at one address, by any handles and processes, a fresh Sticky on that address, or an existing one asked to reread, returns an object equal to the last one stuck. A Sticky that has a cached object and is not asked to reread returns that cached object; reading an address nothing is stuck to returns None without creating anything. After any handle closes or pulls the note, fresh reads return None. A note made without an address gets one of its own. A Sticky is shown as the object it has cached, or as unread.",
  ["histories", "inputs"],
  "all sequences of note / stick / read / reread / close by several handles and processes over any picklable values (None and values whose encodings differ in length included)",
  "The tests stick one small value once per address; nothing is ever re-stuck, reread or closed.",
  [IMPL, COD, MEM],
  [("pickled object in one block at the address", f"{IMPL}: Sticky.stick, read, close")])
p("C08", "Codecs and mnemonics are exact round trips",
  "Decoding an encoding gives back an equal value of the same type for every JSON-stable value (JSON codec), every Python literal (literal codec) and every picklable value (pickle codec), and encodings are bytes. Storing a value at an address with the generic or array mnemonic and fetching it back gives the same value whatever was stored there before; with exists_ok False an existing block makes storing raise FileExistsError and stay untouched. Fetching with fetch=False returns a block whose bytes are the stored encoding.",
  ["inputs", "histories"],
  "all JSON-stable values; all finite nestings of int, float (finite), complex, str, bytes, bool, None, tuple, list, set, dict literals; picklable values; numeric/string arrays of any shape; all store/fetch sequences on one address",
  "Codecs are only exercised through two notepad/sticky tests with one small dict of ints and never with JSON or literal codecs.",
  [COD, MEM],
  [("json / ast / pickle encode-decode pairs", f"{COD}: *_codec_factory"),
   ("memorize/remember pairs", f"{COD}: generic_mnemonic_factory, numpy_mnemonic_factory")])
p("C09", "Shared memory block helpers behave as a named byte store",
  "Opening a block at a free name gives a writable block of at least the requested size (or, with create=False, raises FileNotFoundError); opening an existing name attaches to it with its contents intact, except that with overwrite it becomes a new block of the requested size and handles already open keep the old contents. Existence tests are true exactly between creation and deletion and change nothing; fetching returns the current bytes. Deleting removes the name, raises FileNotFoundError for a missing name, and with missing_ok is silent.",
  ["histories", "inputs"],
  "all sequences of open/attach/overwrite/write/fetch/exists/delete over several names and sizes 1 byte to several pages",
  "Never called directly by a test.",
  [MEM],
  [("thin wrappers over multiprocessing.shared_memory", f"{MEM}: open_block, fetch_block_bytes, exists_block, delete_block")])
p("C10", "Deactivating the resource tracker lets blocks outlive their process",
  "In a process that has called deactivate_shared_memory_resource_tracker, blocks the process creates or opens afterwards still exist with their contents after it exits, unless it deleted them. All other kinds of multiprocessing resources (semaphores, locks, queues, pools, in any start method) keep working and are still tracked. Without the call the tracker's behaviour is unchanged.",
  ["histories", "configurations"],
  "all small programs that create, open, write and delete blocks, notepads and stickies and use locks/queues in a separate process tree, with the tracker deactivated before or not at all",
  "No test calls it; it needs a separate process that exits.",
  [MEM],
  [("monkeypatched register/unregister", f"{MEM}: deactivate_shared_memory_resource_tracker")])
# ---------------------------------------------------------------- composition
p("C11", "Executing a Composition is folding its steps over the signal",
  "Executing a non-empty composition returns the result of applying its steps in order, each to the previous result, starting from the signal; iterating it yields exactly the successive intermediate results lazily. For each step, string-named inserts become keyword arguments and integer-named ones positional arguments, the signal fills the lowest positional slot that has neither insert nor partial argument, remaining positions keep ascending order, and inserts override arguments and keywords baked into a partial or curried step. A step may be any callable object, whatever its attributes. Executing does not change steps, inserts or sends (beyond what sends deliver into inserts), so the same execution on an unchanged composition gives the same result.",
  ["inputs", "programs", "histories"],
  "all compositions of steps given as mappings or sequences of plain functions, methods, callable objects (Dynamics among them), functools.partial and cytoolz.curry objects with any positional/keyword inserts, any signal (None included), executed repeatedly and by call, execute or itercall",
  "Two example pipelines with at most two positional inserts on one step.",
  [COMP],
  [("step loop", f"{COMP}: Composition.itercall, execute"),
   ("argument placement", f"{COMP}: call_step, _call_partial_step, _flow_signal")])
p("C12", "Sends deliver each step's output to the right place at the right time",
  "On each execution every send attached to a step runs once, after that step and before the next, in the order added, with that step's output (passed through the send's pipe if it has one): calling the pipe, writing to a writable target, storing at the pointer in a dict, list or other mutable sequence, appending to such a sequence when no pointer is given, or becoming an insert of the named step of the same composition. An insert delivered to a later step is used in the same execution, one delivered to an earlier step from the next execution on, and the main signal is never altered by sends. Captures hold the latest output of each step; sends and inserts naming non-existent steps do nothing until the step exists.",
  ["programs", "histories", "inputs"],
  "all compositions with any number of sends of each target kind (pipe only, list, dict, stream, own step) in any order, captures, executed several times with sends/inserts/steps added in between",
  "One test has a single send into one insert and executes twice.",
  [COMP],
  [("send dispatch", f"{COMP}: _perform_sends, place_into, add_send, add_captures")])
p("C13", "Composition editing follows its documented naming rules",
  "Steps, sends and inserts given as sequences are named by position and as mappings by their keys in order; adding a step under a new name appends it, under an existing name replaces it in place keeping its position, and without a name uses the number of steps plus one. The indexes list step, send and insert names in insertion order, function_names the names of the steps' functions (the string form of a step that has no name) in step order; reindexing renames steps to 0..n-1 keeping their order. Adding a send with neither pipe nor target raises ValueError and changes nothing.",
  ["histories", "inputs"],
  "all histories of add_step / add_send / add_insert / reindex / execute on compositions built from any mapping or sequence",
  "No test edits a composition's steps.",
  [COMP, STR],
  [("name assignment", f"{COMP}: Composition.__init__, add_step, reindex"), ("", f"{STR}: enumerate_as_mapping, reindex_mapping")])
p("C14", "Composition failures surface or are suppressed exactly as configured",
  "When a step (or a send after it) raises, executing raises that same exception, or, if it is an ordinary one and the composition is optional, returns None; later steps do not run and earlier sends have been delivered. With a tracker, each completed step is recorded exactly once per execution, in order, under its step name and the function currently installed there, also after steps are added or replaced; a failure adds one further record naming the failing step's function and the exception. This holds equally for a tracker given at construction and for one attached by track(), which takes the composition's name. Without failures optional and tracked compositions return the same results as plain ones.",
  ["programs", "fault_sequences", "histories"],
  "all compositions with a fault injected at any step or send (any exception) on any of several executions, optional or not, tracked or not, with steps added or replaced between executions",
  "No test makes a step fail and the tracker test runs one fixed pipeline once.",
  [COMP, TRK, DYN],
  [("try/except around the pipeline", f"{COMP}: execute"), ("tracking sends", f"{COMP}: _add_track_send, _track_factory")])
# ---------------------------------------------------------------- tracker
p("C15", "Tracker history is a complete, ordered log",
  "After any sequence of track, set_metadata, pause and clear, the history holds one record per track call since the last clear, in call order, numbered 1, 2, 3, ..., each with the tracked function's name (or string form if it has none), the calling function and line, overlaid with the metadata set so far and then with that call's own (which win over fields of the same name). Setting metadata never alters earlier records, and pausing affects only writing to disk. A trivial tracker accepts the same calls and records nothing.",
  ["histories", "inputs"],
  "all sequences of track / set_metadata / pause / unpause / clear / dump with named and nameless callables and any keyword metadata",
  "One test reads two fields of a five-record history.",
  [TRK],
  [("record building and counter", f"{TRK}: Tracker.track, set_metadata, clear")])
p("C16", "A Tracker's log file is always a JSON array of its dumps",
  "After any history of track, dump, failed dump, pause and clear by any sequence of trackers writing to the same path, the log file is either absent or a valid JSON array whose elements are, in order, the states of the log at each successful unpaused dump since the file was last cleared. A dump that raises because something is not JSON-serializable leaves the file as it was, and a paused dump writes nothing. Clearing removes the file and resets the history.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of track (with serializable or unserializable metadata) / dump / pause / clear over one or several trackers with the same output path",
  "No test writes or reads a log file.",
  [TRK],
  [("append by overwriting the closing bracket", f"{TRK}: Tracker.dump")])
# ---------------------------------------------------------------- dynamic
p("C17", "A Dynamic behaves as the function its source defines",
  "A Dynamic built from source text that defines one self-contained function gives, for every argument list, the same result or the same exception as that function defined normally in the supplied globals, and has its name, parameter names and parameter kinds. A Dynamic made from an existing function behaves as that function, keeps its source and globals, and still behaves so after being unloaded and loaded again. Compiling and defining source directly gives a function equal in behaviour. The digested source of a function is its own definition text.",
  ["programs", "inputs"],
  "all generated single-function sources (positional, keyword-only, variadic parameters, annotations, loops, conditionals, nested functions, reads of supplied globals) and all argument lists; functions defined at module level in importable files",
  "One fixed one-line function is compiled and called twice.",
  [DYN],
  [("compile, extract the function's code, bind to globals", f"{DYN}: compile_source, define, Dynamic")])
p("C18", "Dynamic load state and error capture are exact",
  "In any history of construct (lazy or not), load, reload, unload and call, a Dynamic is loaded exactly when a successful load has happened since the last unload; loading while loaded raises AlreadyLoadedError, calling while unloaded loads first or, with load_on_call off, raises UnreadyError, and unloading always succeeds, clears errors and failure flags and allows loading again. A call made optional (by construction or per call) that raises an ordinary exception returns None, appends one 'call' error record naming the exception and the traceback's functions, line numbers and files outermost first, and sets the call-failure flag; a non-optional call propagates the exception and records nothing; KeyboardInterrupt and SystemExit always propagate. Source that does not compile sets the compile-failure flag, records a 'compile' error and never installs a function. The Dynamic's name and string form tell whether it is loaded.",
  ["histories", "inputs", "fault_sequences"],
  "all histories over sources that compile, fail to compile, succeed or raise at any call depth, with every combination of optional, lazy, load_on_call and per-call override",
  "One optional Dynamic fails once; unload, reload, lazy and non-optional paths are never run.",
  [DYN, FUN],
  [("state flags and guards", f"{DYN}: Dynamic.load, unload, __call__"), ("exception reports", f"{DYN}: exc_report, dontcare")])
# ---------------------------------------------------------------- structures
p("C19", "Digging for all matches finds every match, once, in pre-order",
  "Digging for all items, keys or values in a nested mapping returns one entry for every (key, value) pair at any depth that satisfies the query and no other, ordered with a mapping's own matches before those inside its nested mappings, and None if there is none. The query may be a constant compared with the key, the value or the pair through any two-argument comparison (equality by default) or a predicate of key and value; matching mappings are themselves searched. Only values of the given mapping types are descended into, and the searched object is not modified.",
  ["inputs"],
  "all nested mappings (any depth, width, key types; lists and foreign mapping types as leaves), all query forms, match modes, comparison functions and mapping-type tuples",
  "One fixed GeoJSON file and three queries.",
  [STR], [("recursive search", f"{STR}: dig_for_all, _evaluate_diglevel, constant_to_dig_predicate")])
p("C20", "Digging for one match is breadth-first",
  "Digging for a single item, key or value returns the match that a breadth-first search of the nested mapping meets first: the shallowest matching pair and, among equally shallow ones, the first in traversal order; it returns None exactly when digging for all finds nothing. The result is always one of the matches that digging for all returns for the same query. The searched object is not modified.",
  ["inputs"],
  "all nested mappings, query forms, match modes, comparison functions and mapping-type tuples, with matches at several depths and in several branches",
  "Three queries on one fixed file, in which the shallowest match is also the first in depth-first order.",
  [STR], [("breadth-first search", f"{STR}: dig_for, dig_wrapper")])
p("C21", "dig_and_edit edits exactly the matches; NestingDict converts cleanly",
  "dig_and_edit, in place and returning the same object, replaces the value of exactly those pairs that satisfy the filter with the setter's result, at every depth, deciding each mapping's matches before changing it and then descending into that mapping's current nested mappings; unmatched pairs and key order are untouched. A NestingDict creates missing levels on access at any depth, and stores and returns values like a dict. Its todict returns plain dicts at every level with equal contents.",
  ["inputs", "histories"],
  "all nested mappings, filters and setters (setters that return mappings included), mapping-type tuples; all sequences of nested assignments to a NestingDict",
  "NestingDict is only used to build random fixtures; dig_and_edit has no test.",
  [STR], [("in-place recursive edit", f"{STR}: dig_and_edit, NestingDict.todict")])
p("C22", "Recursive merge is a right-biased deep union",
  "Merging two nested mappings gives a mapping whose keys are the union of theirs; where only one has the key its value is taken, where both have mergeable mappings (of the given mapping types, at any depth) they are merged recursively, and otherwise the second's value wins. Neither input is modified. Merging with an empty mapping or with itself gives an equal mapping.",
  ["inputs"],
  "all pairs of nested mappings with overlapping keys at every depth, values of any type, default and custom mapping types",
  "rmerge has no test beyond its docstring example.",
  [STR], [("recursive merge", f"{STR}: rmerge")])
p("C23", "to_records keeps every leaf record with its full path",
  "Flattening a nested mapping to records yields exactly one record for each innermost mapping that holds a non-mapping value, in order, containing all of its fields plus, under the level names (given, or 1, 2, 3, ... by depth), the keys on the path to it. Path labels win over fields of the same name. Branches of different depths are handled independently and the input and any supplied level names are not modified.",
  ["inputs"],
  "all nested mappings of mappings with leaves at equal or different depths, any key types, default or given level names at least as many as the depth",
  "One two-level example whose leaves all have the same depth.",
  [STR], [("recursive flattening with copied level iterators", f"{STR}: to_records")])
p("C24", "unnest keeps every leaf under its joined path",
  "Unnesting a nested mapping gives a flat dict with one entry per non-mapping leaf, whose key is the path to it joined by underscores, each enclosing level (not the leaf's own name) being wrapped in the escape string if one is given, and whose value is the leaf itself. Leaves whose joined paths differ are all kept, in traversal order. Only the given mapping types are descended into and the input is not modified.",
  ["inputs"],
  "all nested mappings with string, integer or mixed keys, any escape string and mapping types",
  "unnest has no test.",
  [STR], [("recursive flattening", f"{STR}: unnest")])
p("C25", "Hierarchical getters return the item, else the default",
  "Following a list of keys into nested mappings, sequences and objects returns the item reached by taking, at each level, the item under the key or else the attribute of that name, and returns the default (None unless given) whenever some level has neither, whatever the key's type. An empty key list returns the collection itself. Getting one key from all mappings in a collection or mapping of mappings returns one entry per mapping in order, the default where it is missing.",
  ["inputs"],
  "all nestings of dicts, lists, tuples, named tuples and attribute objects with present, missing, out-of-range and non-string keys",
  "One successful path through fixed objects.",
  [STR], [("item-or-attribute lookup", f"{STR}: getitemattr, get_from, get_from_all")])
p("C26", "Small mapping and sequence helpers satisfy their contracts",
  "listify returns a new list of the elements of any collection other than a text string and wraps anything else; enumerating as a mapping numbers a sequence's elements from 0, leaves a mapping as it is and turns None into an empty one; reindexing a mapping numbers its values in order and rejects non-mappings. Inserting after a key gives a copy with the new pair directly after that key and everything else in order. Separating by a predicate splits a collection, order kept, into the items for which it returns True and the rest.",
  ["inputs"],
  "all collections, mappings, keys and predicates",
  "enumerate_as_mapping is used incidentally; the others have no test.",
  [STR], [("", f"{STR}: listify, enumerate_as_mapping, reindex_mapping, insert_after, separate_by")])
p("C27", "HashDict shares equivalent values and returns the right one",
  "After any sequence of assignments, reading a key gives the first object ever stored that is equivalent (same value of the equivalence function, the built-in hash by default) to the one last assigned to that key, and reading a key never assigned raises KeyError. Equivalent values are stored once: the reported number of unique values is the number of equivalence classes ever assigned and the number of keys is the number of distinct keys.",
  ["histories", "inputs"],
  "all assignment sequences over any keys and values with the default or any supplied equivalence function",
  "HashDict has no test.",
  [STR], [("two-level map", f"{STR}: HashDict")])
p("C28", "Pool mapping equals applying the function to every record",
  "Mapping a function over any iterable of argument records gives, per record, under its key (given, or its position), the function's result or, if it raised an ordinary exception, that exception, whether run in process or in any number of worker processes; in chunked worker runs a failing record fails its own chunk as a whole, under that chunk's name, and no other chunk. With filter_exc exactly the exceptions are dropped, and get with raise_exc raises the first failure. Repeated maps on one pool do not affect each other, and readiness counts add up to the number of results. No worker process outlives map_into_pool, whether it succeeds or fails, or a pool that was terminated or closed and joined.",
  ["inputs", "configurations", "histories"],
  "all record lists (any length, args, kwargs, keys or none), functions that succeed or raise per record, threads None or 1..8, chunked or not, filtered or not, repeated maps on one pool",
  "MaybePool and map_into_pool have no test.",
  [STR], [("", f"{STR}: MaybePool, MaybeResult, map_into_pool")])
# ---------------------------------------------------------------- pivot
p("C29", "Downcasting stays within tolerance, never overflows, and is smallest",
  "Downcasting any integer or real array returns the same values in the same order and shape: integers exactly, in the narrowest integer type that holds them (unsigned if none is negative); reals with every finite element within the absolute and relative tolerances and non-finite elements preserved, in the first type of the order uint8..64, int8..64, float16..64 that achieves this (integers only if everything is finite or nillable integers are allowed), or the original type. The reported absolute and relative errors are the maximum errors actually made. Complex, datetime and object arrays raise TypeError.",
  ["inputs", "configurations"],
  "all arrays, empty ones included, of every integer and float width with boundary values, zeros, negative zeros, subnormals, NaN and infinities, all tolerances, numpy or pandas output, nillable integers on or off",
  "downcast has no test.",
  [PIV], [("dtype search with bounds and error checks", f"{PIV}: downcast, check_in_dtype_bounds")])
p("C30", "Downcasting a data frame changes only dtypes",
  "Downcasting a data frame returns a frame with the same index, columns, names of both, and order, in which each numeric column is exactly what downcasting that column alone gives and every other column is unchanged; without reassembly it returns the same columns as a list. The input frame is not modified. Every cell equals the original within the tolerances, missing cells staying missing.",
  ["inputs", "configurations"],
  "all data frames mixing integer, float (NaN included), boolean, string and datetime columns, with any number of rows and columns, arbitrary (non-default) row labels and tolerances",
  "downcast_df has no test.",
  [PIV], [("", f"{PIV}: downcast_df")])
p("C31", "extract_constants finds exactly the constant rows or columns",
  "Extracting constants identifies exactly the columns (or, when asked, the rows) all of whose non-missing values are equal (missing values counting as different from everything if dropna is off), all-missing ones counting as constant only with dropna. As a dict it maps each such label to its constant value (missing only if it has no other value), otherwise it is the sub-frame of them; the other return value is the original frame or, with drop_constants, the frame of exactly the remaining columns or rows. An unknown orientation raises ValueError and the input is not modified.",
  ["inputs", "configurations"],
  "all data frames (empty ones and repeated labels included) mixing numeric, string, boolean, list and missing values; orientation, to_dict, drop_constants and dropna in every combination",
  "One CSV with the default options.",
  [PIV], [("", f"{PIV}: extract_constants")])
p("C32", "Frame splitting, duplication and de-duplication lose nothing",
  "Splitting a frame on a boolean predicate returns the rows where it is true and the rows where it is false, each in original order with labels and values kept. Duplicating a frame repeats each row the given number of times consecutively, with columns and values kept. Dropping duplicate columns returns the first of each group of equal-named, equal-valued columns (missing equalling missing) and the others unchanged in order, and raises ValueError exactly when two columns of the same name differ somewhere.",
  ["inputs"],
  "all frames with any dtypes, labels, repeats, duplicate column names with equal, unequal and missing cells",
  "Only split_on is tested, on one file.",
  [PIV], [("", f"{PIV}: split_on, dupe_df_block, check_and_drop_duplicate_columns")])
p("C33", "Reshaping helpers preserve every cell",
  "Unpacking a series of lists gives one column per position holding that position's elements on the rows that are not missing (missing values where a row's list is shorter than the longest); unpacking a frame's column replaces it by those columns and keeps all others, in a new frame. Smashing a frame by key columns gives one entry per row and remaining column, labelled by the keys and the column name joined with underscores, optionally only for rows whose keys are all among given values. Squeezing a series gives one entry per distinct label: the first (or, for booleans, whether any is true) or the given aggregate of all entries with that label.",
  ["inputs"],
  "all frames and series with string/integer labels, repeated labels, missing rows, one or several key columns and any of the standard aggregate names",
  "None of these has a test.",
  [PIV], [("", f"{PIV}: unpack, unpack_column, smash, squeeze")])
p("C34", "Frame set operations and type selection agree with their definitions",
  "The junction of two frames on some columns is the difference (or named set operation) of their sets of row tuples without missing values; unique_to_records lists each distinct row tuple without missing values exactly once. Selecting typed columns keeps exactly the columns whose dtype name starts, ignoring case, with one of the given type names, optionally preceded by 'u', in order with values unchanged (a single series is returned if its type matches, otherwise an empty frame with its index), and numeric columns are the integer and float ones. A vectorized string method built by name gives what calling the method directly gives, and numpy scalars convert to equal Python scalars while everything else is returned as is.",
  ["inputs"],
  "all frames over small value domains with missing values; set methods difference, intersection, union, symmetric_difference; all subsets of dtype names; numpy scalars of every kind",
  "pdstr and itemize_numpy have one example each, the others none.",
  [PIV], [("", f"{PIV}: junction, unique_to_records, typed_columns, numeric_columns, pdstr, itemize_numpy")])
# ---------------------------------------------------------------- mosaic
p("C35", "Chunked parquet sort writes a sorted permutation of its input",
  "Sorting a parquet file in chunks on a numeric column writes a file with the same schema whose rows are exactly the input's rows, each with all its cells and as often as in the input, ordered by the sort column ascending or descending as asked across the whole file, whatever the number of chunks, row-group sizes, dictionary setting and distribution of values. The written file has the row-group size, dictionary setting and format version asked for. An inline processor is applied to every row exactly once before writing. With verbose off nothing is printed, and the input file is unchanged.",
  ["inputs", "configurations"],
  "all tables (also without rows) with a numeric sort column (integers up to 2^53 in magnitude, floats up to 1e300 in magnitude, missing values included) plus other columns, any row-group partition with statistics, 1..50 chunks, both directions",
  "mosaic.py has no tests at all.",
  [MOS], [("value windows over row-group statistics, per-window sort", f"{MOS}: sort_chunked, read_between")])
p("C36", "read_between returns exactly the rows within the bounds",
  "Reading between bounds from a parquet file returns every row whose field is at least the lower and less than the upper bound, once each, in file order and with all columns, or just the given ones, using row-group statistics only to skip groups that cannot contain such rows. If no row group can contain such rows it returns None, and otherwise a table, possibly empty.",
  ["inputs"],
  "all tables and row-group partitions with an integer, float or string field and any bounds, including bounds equal to row-group minima and maxima",
  "mosaic.py has no tests at all.",
  [MOS], [("", f"{MOS}: read_between")])
p("C37", "Parquet metadata summaries agree with the file",
  "Metadata records hold exactly one record per column and row group, carrying that chunk's position, sizes, value count and statistics. The summary frames hold one entry per column in file order, whose type and value counts are the column's and whose compressed and uncompressed sizes and counts are the sums over its row groups.",
  ["inputs", "configurations"],
  "all parquet files over several column types, row-group sizes, compressions and dictionary settings, brief and extended summaries",
  "mosaic.py has no tests at all.",
  [MOS], [("", f"{MOS}: parquet_metadata_records, meta_record_df, meta_column_df")])
# ---------------------------------------------------------------- scrape
p("C38", "Scrapers return the first match as a literal, or as text, or None",
  "Scraping a text for a pattern returns None if it does not occur, and otherwise the first match's group as the Python literal it spells or, if it does not spell one, as the text itself (None if the group took no part in the match); it never raises because of what the text contains. Scraping a file for a mapping of patterns returns exactly the named fields with those results, overlaid with whatever the supplemental function returns, and bulk scraping returns one result per file in order. Scraping a subframe block returns the integers between the block's markers, in order, as a tuple.",
  ["inputs"],
  "all texts and one-group patterns, values that are literals, near-literals and arbitrary text; label files with any fields",
  "scrape.py has no tests at all.",
  [SCR], [("regex plus literal_eval", f"{SCR}: make_scraper, scrape_patterns, scrape_from_file, scrape_subframe, bulk_scrape_metadata")])
p("C39", "Label loading and trimming return the right prefix of the file",
  "Reading a file's head returns exactly its first n bytes (all of them if shorter) from a path or an open reader, positioned at the start, and closes a reader it was given. Trimming a label returns the text up to and including the first PVL end marker within the size limit, or failing that the first run of the null marker, or failing that the whole head, or raises ValueError when told to. Loading label text returns exactly the first byte_size bytes decoded, and the cached variants (of listing a folder and asking whether a path exists too) return the same as the plain ones.",
  ["inputs"],
  "all byte files (marker absent, at any offset, repeated, straddling or beyond the size limit, binary data after it), all sizes, path or reader input",
  "scrape.py has no tests at all.",
  [SCR], [("", f"{SCR}: head_file, trim_label, get_label_text, cached_label_loader, cached_label_trimmer, cached_ls, cached_exists")])
# ---------------------------------------------------------------- func
p("C40", "Set and membership combinators agree with set algebra",
  "The predicate from are_in is true of a container exactly when it contains all the items (or, with or, any of them). Intersection returns the set of elements common to all iterables, and disjoint returns for each input, in order and with multiplicity, the elements that are not common to all. is_it is true exactly of instances of the given types and naturals yields 1, 2, 3, ... without end.",
  ["inputs"],
  "all non-empty collections of hashable items, containers of any kind, any number of iterables of 1 or more, types and their subclasses",
  "One example each.",
  [FUN], [("", f"{FUN}: are_in, intersection, disjoint, is_it, naturals")])
p("C41", "Function adaptors pass through exactly what they promise",
  "Adaptors keep the wrapped function's name and pass arguments and results through unchanged except for their purpose: constant and zero ignore all arguments, splat spreads one sequence, triggerize calls once and returns its input, argstop keeps only the first n positional arguments (of the sole one, unpacked, if there is only one), gmap maps then evaluates, filtern returns the first item that satisfies the predicate or raises StopIteration, and catch_interaction returns the default without calling when told non-interactive. An optionalized function returns the function's result or, if it raises an ordinary exception, passes that exception to the callback once and returns None; what the callback itself raises is not caught. KeyboardInterrupt and SystemExit always propagate.",
  ["inputs", "fault_sequences"],
  "all functions, argument lists, keyword arguments, mappers, evaluators and raised exception types",
  "One example for about half of them, none for the rest.",
  [FUN], [("", f"{FUN}: pass_parameters, catch_interaction, zero, constant, triggerize, splat, gmap, filtern, argstop, optionalize")])
# ---------------------------------------------------------------- support for tests
TU = "dustgoggles/test_utils/core.py"
p("C42", "A function called in a child process gives its result or its exception",
  "A function wrapped by wrap_piped is run once in a child process with exactly the arguments given, and the call returns what the function returned, or, if it raised an ordinary exception, that exception as a value; nothing in the calling process changes and no process is left behind. Told not to block, it returns the started child process instead, which ends successfully. The function made by piped delivers the same results and exceptions through the pipe end returned with it, from a thread or process.",
  ["inputs", "fault_sequences"],
  "all picklable results (blocking calls: at most 45 kB pickled), all ordinary exceptions that can be pickled, all arguments, repeated calls of one wrapped function",
  "The tests of shared memory use wrap_piped with a few small results; none raises or is called twice.",
  [TU], [("result or exception sent back through a pipe", f"{TU}: piped, wrap_piped")])
p("C43", "Random nested mappings stay within the bounds asked for",
  "A random nested dict holds at most the number of values asked for (exactly that many if keys never repeat), consists of plain dicts, is nested at most maxdepth deep, every key is of one of the key types (of the value types if no key types are given) and every value of one of the value types, where a type may also be a function that makes the value.",
  ["inputs", "configurations"],
  "all states of the random number generator, quantities, depths, branch weights, key types whose values do not repeat and value types",
  "No test calls it.",
  [TU], [("", f"{TU}: random_nested_dict, pick_key_at_level, randval")])
# ---------------------------------------------------------------- resources
p("C44", "Shared memory objects hold on to nothing they no longer need",
  "However long a history of writes, reads, listings, failures and deletions on notepads, indexes, Stickies, locks and the block helpers is, the number of descriptors and memory mappings of blocks that the process holds does not grow with it, nor does the number of blocks left behind by what has been emptied. Once an object has been dropped (if it cleans up on exit: closed and dropped), with everything read from it, the process holds no descriptor or mapping of its blocks, and nothing refers to the object. No file dumped to stays open. (A GridPaper may hold the blocks of the views it has handed out for as long as it lives.)",
  ["histories", "configurations", "fault_sequences"],
  "all histories of operations, failing ones included, on one object or name through one or several handles in one process, with whatever was read kept or dropped, locking on or off, cleanup on exit asked for or not",
  "The tests perform a handful of operations each and look only at results; a descriptor lost per operation ends a process only after a thousand.",
  [IMPL, COD, MEM],
  [("blocks are opened for each operation and not kept", f"{MEM}: fetch_block_bytes, exists_block, delete_block, open_block"),
   ("cleanup on exit is unregistered by closing", f"{IMPL}: Notepad.close, GridPaper.close, TagIndex.close, Sticky.close")])

with open(OUT, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
