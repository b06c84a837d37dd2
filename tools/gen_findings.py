"""Writes /verif/known_findings.json: defects recorded (status known) or repaired (status fixed)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = [
    ("C01-nonascii", "C01",
     "while Python's resource tracker is active (the default), setting a key with characters outside ASCII, "
     "e.g. Notepad('p', create=True)['\xe9'] = 1, raises UnicodeEncodeError: the tracker of CPython 3.12 takes "
     "only ASCII block names"),
    ("C03-structured", "C03",
     "a structured-dtype array stored in a GridPaper (e.g. np.zeros(2, [('a','i4')])) reads back "
     "with a raw void dtype: field names are lost"),
    ("C17-defaults", "C17",
     "a Dynamic built from source (or reloaded) loses default argument values: "
     "Dynamic('def f(x=1): return x')() raises TypeError"),
    ("C19-item-constant", "C19",
     "dig_for_items/keys/values({'a': 1}, ('a', 1), match='item'): a constant compared with the "
     "pair by a two-argument comparison raises TypeError"),
    ("C20-item-constant", "C20",
     "dig_for_item/key/value({'a': 1}, ('a', 1), match='item'): a constant compared with the pair "
     "by a two-argument comparison raises TypeError"),
    ("C14-stop-iteration", "C14",
     "a step that raises StopIteration makes executing raise RuntimeError('generator raised StopIteration') instead: execute "
     "runs the steps in a generator"),
    ("C35-missing-keys", "C35",
     "sort_chunked silently drops rows whose sort key is null or NaN"),
    ("C05-giving-up", "C05",
     "a process that gives up waiting for a SlidingLock (max_spins set) frees its slot below those that came after it: "
     "while one of these is inside, a newcomer can take that slot and enter too"),
    ("C05-torn-read", "C05",
     "a process that reads a Notepad key while another overwrites it can find it absent or half written (None, or an error "
     "of the codec) instead of the old or the new value: overwriting unlinks, creates and then fills the block"),
    ("C05-torn-listing", "C05",
     "a process that lists a locked index while another adds a key can see a key of NUL characters: the count is raised "
     "before the key is written, and listing takes no lock"),
    ("C42-large-result", "C42",
     "wrap_piped(f)() never returns if the pickle of f's result does not fit the pipe's buffer (about 200 kB): the "
     "parent joins the child before it receives"),
    ("C42-unpicklable-result", "C42",
     "wrap_piped(f)() never returns if f's result cannot be pickled: the child ends without sending anything"),
    ("C43-repeated-key", "C43",
     "random_nested_dict raises AttributeError if a key drawn for an intermediate level already holds a value, e.g. "
     "random_nested_dict(20, 2, types=(int,), keytypes=(lambda: RNG.choice('ab'),))"),
]
FIXED = [
    ("C08", "d488036", "literal codec encoded str(value), so strings did not decode"),
    ("C09", "f004ffe", "delete_block(missing_ok=True) raised for a missing block"),
    ("C10", "090d1c7", "registering any non-shared-memory resource raised NameError after "
                       "deactivate_shared_memory_resource_tracker()"),
    ("C04", "c797438", "deleting from a locked MetaTagIndex deadlocked on its own lock"),
    ("C03", "9d83340", "GridPaper.clear() treated its key list as a mapping and raised"),
    ("C01", "d7e98e0", "Notepad returned None for absent keys and the default for stored None"),
    ("C02", "019df2f", "a Notepad set whose value cannot be encoded left its key in the index"),
    ("C07", "abfe937", "showing (str, repr) a Sticky that has cached a class raised TypeError"),
    ("C07", "a78e948", "re-sticking an object of another encoded size raised"),
    ("C08", "9b07aa0", "array mnemonic: exists_ok=False ignored, growing overwrites and 0-d / "
                       "empty arrays raised"),
    ("C03", "5299384", "array reads with fetch=False raised instead of returning the block"),
    ("C02", "b3dd676", "deleting a reserved 'index...' key destroyed the index's own blocks"),
    ("C25", "27adb24", "get_from raised for missing non-string keys"),
    ("C22", "7105337", "rmerge forgot custom mapping types below the top level"),
    ("C20", "17c28e5", "dig_for_* searched depth-first"),
    ("C28", "d84f8d4", "a plain map after a chunked one was unpacked as chunks"),
    ("C38", "7231ef9", "scraping text that looks like an impossible literal raised"),
    ("C38", "35aacd8", "scrape_subframe failed on zero-padded integers and single values"),
    ("C16", "9d8ff2d", "a dump that cannot be serialized corrupted the log file"),
    ("C29", "30763e0", "downcast of zeros with non-finite values returned a bare array"),
    ("C29", "46cb982", "downcast chose integer types that overflow at 2**32, 2**63, 2**64"),
    ("C30", "7033b67", "downcast_df lost the row labels and misaligned its columns"),
    ("C32", "6945611", "check_and_drop_duplicate_columns compared each column with itself"),
    ("C31", "2c0a289", "extract_constants returned missing or wrong-axis constant values"),
    ("C29", "6f6059e", "downcast with use_nillable_int raised instead of building them"),
    ("C35", "711cd5c", "sort_chunked passed verbose to read_between as columns and printed"),
    ("C35", "87ff200", "sort_chunked dropped huge maxima; descending order ignored across windows"),
    ("C14", "e405659", "replacing a tracked step recorded both the old and the new step"),
    ("C18", "dabea4b", "unloading a Dynamic that was never loaded raised AttributeError"),
    ("C17", "037d6a7", "Dynamic.from_function lost source and globals and could not reload"),
    ("C22", "72fb120", "rmerge took time exponential in nesting depth (27 shared levels hang)"),
    ("C15", "3be8b8e", "Tracker.track ignored the names of bound methods and classes"),
    ("C34", "42da036", "typed_columns selected columns of other types that share a name"),
    ("C33", "a9d9341", "squeeze lost labels whose aggregated value is missing"),
    ("C33", "e012f09", "squeeze raised AttributeError for series of pandas extension types"),
    ("C37", "ae06eae", "parquet metadata of columns without statistics raised TypeError"),
    ("C37", "73cafe6", "extended parquet summaries raised for equal row group sizes"),
    ("C02", "c9ed10a", "GridPaper stored arrays of objects as bare pointers"),
    ("C06", "bb27960", "closing an index with keys left their blocks behind"),
    ("C05", "fdad4a3", "attaching to a block another process was just creating raised ValueError"),
    ("C05", "6e0b530", "two processes could be inside a SlidingLock at once"),
    ("C11", "244bfe1", "a step that is a Dynamic, or any object with a func attribute, was bypassed or failed"),
    ("C36", "b33c7cc", "read_between ignored its columns argument"),
    ("C33", "be290bf", "unpack_column changed the frame it was given"),
    ("C13", "f50c0c6", "function_names raised AttributeError for partial and other nameless steps"),
    ("C31", "188ba9d", "columns of list cells raised ValueError or were not constant"),
    ("C34", "10b399c", "typed_columns of a series of extension type raised AttributeError, of unsigned type was empty"),
    ("C05", "9e1e919", "reading metadata while other processes removed keys gave another key's metadata"),
    ("C02", "5efbc35", "metadata that an index cannot hold left the entry half stored"),
    ("C24", "9b318da", "unnest({'': {'a': 0}, 'a': 1}) lost a leaf: the empty key's level "
                       "vanished from the joined path"),
    ("C28", "28f67fe", "an exception that func merely returned was raised by get, in process only"),
    ("C12", "3411b80", "sends and captures into a deque or another MutableSequence that is no list were lost silently"),
    ("C31", "5ff145e", "the dictionary of constants of a complex column raised TypeError"),
    ("C31", "83b5f96", "with dropna=False a nullable integer column with missing cells counted as constant"),
    ("C40", "8a8de1f", "disjoint gave nothing for iterators, which intersection had already used up"),
    ("C33", "0a85e89", "smash raised for columns named variable or value, and if the columns had a name"),
    ("C32", "6f0f5ac", "equal-named categorical columns of different categories raised TypeError"),
    ("C30", "4d85b20", "downcast_df lost the name of the columns, and raised if there were none"),
    ("C29", "42dcdad", "downcast of an empty integer array raised ValueError"),
    ("C33", "3e73405", "squeeze raised, or grouped by the values, if series and index share a name or the series is called index"),
    ("C06", "c7600e6", "a Sticky closed by hand still closed its address when its process ended, with FileNotFoundError or "
                       "a newer note lost"),
    ("C05", "fca2883", "listing an index in one thread while another thread updated it through the same handle corrupted it"),
    ("C28", "784cac1", "mapping an iterator of records into a pool gave no results at all"),
    ("C06", "f8b82a6", "dumping a key that a Notepad does not have emptied the file of that name, or made one"),
    ("C36", "8569a57", "reading between bounds raised TypeError or KeyError if a row group held only missing keys, or the "
                       "file had no statistics"),
    ("C31", "24078d9", "extracting constants with repeated labels took all columns or rows of a label for constant if one was"),
    ("C31", "16d1e97", "extracting constants as a dict from a frame without rows or columns raised IndexError"),
    ("C35", "e6d90f6", "sorting a file without rows, or with a row group without rows, raised"),
    ("C33", "e77da54", "unpacking a column of a frame with repeated row labels raised, or gave rows the values of others"),
]
findings = [{"id": i, "property": p, "status": "known", "what": w} for i, p, w in KNOWN]
findings += [
    {"id": f"{p}-{c}", "property": p, "status": "fixed", "commit": c, "what": w,
     "record": f"fixed: property={p} {c} {w}"}
    for p, c, w in FIXED
]
(ROOT / "known_findings.json").write_text(json.dumps({"findings": findings}, indent=1) + "\n")
print(len(KNOWN), "known,", len(FIXED), "fixed")
