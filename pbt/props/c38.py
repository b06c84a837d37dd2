import ast
import itertools
import os
import pathlib
import re

from hypothesis import strategies as st

from pbt.core import require

ID = "C38"
RULE = (
    "one label text assembled from fields whose values are literals, near-literals (unbalanced, impossible, "
    "over-nested, over-long, with null or non-ASCII characters) and noise, with repeated fields, and a mapping of "
    "one-group patterns; scraped directly, from a file, in bulk with a supplemental function, and as a subframe "
    "block; non-trivial if some pattern occurs and some does not, or a value is not a literal"
)
QUICK, THOROUGH = 600, 15000

VALUES = [
    "1", "-7", "0x1F", "1.5", "1e5", "'text'", '"text"', "(1, 2)", "[1, [2, 3]]", "{'a': 1}", "{1, 2}", "None", "True",
    "b'x'", "1+2j", "007", "01", "1_000", "", " ", "abc", "N/A", "(1,", "[", "{'a'}", "{[]: 1}", "{{}}", "'open", "f(1)",
    "1/2", "--5", "-'a'", "+None", "x.y", "\\", "'\\x'", "'\\N{nope}'", "b'é'", "é", "\x00", "(" * 150 + "1" + ")" * 150,
    "[" * 250 + "]" * 250, "9" * 5000, "-" * 1500 + "1", "1" + "+1" * 3000, "1" + "+1" * 12000, "-" * 7000 + "1", "{1: 2, **{}}", "...", "1 if 1 else 2", "lambda: 0",
    "()", "[]", "{}", "set()", "1e999", "-1e999", "nan", "2 - 3", "'a' 'b'", "1,", "1,2", "\t1", " 1", "1 ", "'a'#c", "#", "\ufeff1",
    "'\ud7ff'", "0o17", "08", "1__0", "(yield)", "*a", "a=1", "0777", "'''x'''", "{'a': [1, {'b': (2,)}]}", "-{1: 2}",
    "{1: 2}[1]", "'a' + 'b'", "1j + 1", "3 + 1j", "True + 1j", "{(): {}}", "{[1, 2]}", "{{1: 2}: 3}", "{{1}: 2}",
]
FIELDS = ["A", "BB", "C_1", "LINES", "X.Y"]
MORE = [f"F{i}" for i in range(40)]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["text", "text", "file", "bulk", "subframe", "scrape_file"]))
    value = st.one_of(
        st.sampled_from(VALUES), st.sampled_from(VALUES), st.integers().map(str), st.floats().map(repr),
        st.text(max_size=8).map(repr), st.text("()[]{}'\",:0123456789.ej+-ab ", max_size=10),
        st.recursive(st.one_of(st.integers(-5, 5), st.text("ab", max_size=2), st.none(), st.booleans()),
                     lambda c: st.one_of(st.lists(c, max_size=2), st.tuples(c, c), st.dictionaries(st.integers(0, 3), c, max_size=2)),
                     max_leaves=5).map(repr),
    ).map(lambda s: s.replace("\n", " ").replace("\r", " "))
    texts = []
    for _ in range(draw(st.integers(1, 3)) if kind == "bulk" else 1):
        lines = draw(st.lists(st.tuples(st.sampled_from(FIELDS), value), max_size=7))
        noise = draw(st.lists(st.sampled_from(["noise", "", "A", "=", "END", "  "]), max_size=3))
        if kind != "subframe" and draw(st.integers(0, 29)) == 17:
            lines += [(f, draw(st.sampled_from(["1", "'x'", "(2, 3)", "N/A"]))) for f in MORE]
        texts.append("\n".join([f"{f} = {v};" for f, v in lines] + noise))
    case = {"kind": kind, "texts": texts,
            "fields": draw(st.lists(st.sampled_from(FIELDS + FIELDS + ["NOPE", "ZZ"]), min_size=draw(st.sampled_from([0, 1, 2, 4])), max_size=6, unique=True)),
            "style": draw(st.sampled_from(["lazy", "lazy", "optional", "compiled", "empty", "maybe"])),
            "as_path": draw(st.booleans()),
            "supplement": draw(st.sampled_from([None, "new", "override", "empty", "text", "nothing"])),
            "loader": draw(st.sampled_from([None, "plain", "fake"]))}
    if kind != "subframe" and any(MORE[0] in t for t in texts):
        case["fields"] = case["fields"] + MORE[:draw(st.integers(20, 40))]
    if kind == "bulk":
        case["order"] = draw(st.lists(st.integers(0, 2), max_size=5)) * (draw(st.integers(5, 15)) if draw(st.integers(0, 19)) == 17 else 1)
    if kind == "subframe":
        case["numbers"] = draw(st.lists(
            st.one_of(st.integers(0, 2000).map(str), st.sampled_from(["007", "0", "00", "1648", "1200", "08"])), max_size=6))
        case["format"] = draw(st.sampled_from(["pvl", "list", "spaced", "units", "named", "signed"]))
        case["before"] = draw(st.sampled_from(
            ["", "X = 12\n", "LINES = 5\nEND\n", "NOTE = 'subframe 7 end'\n", "sub = 4\nFRAME = 9\n", "SUB FRAME 3 END\n"]))
        case["after"] = draw(st.sampled_from(["", "\nY = 99\nEND\n", " 77", "_GROUP = SUBFRAME 5 END"]))
    return case


def strategy(tier):
    return cases()


def pattern(field, style):
    name = re.escape(field)
    text = {
        "lazy": rf"(?:^|\n){name} = (.*?);\n?", "optional": rf"{name} = ([^;\n]*)", "compiled": rf"{name} = (.*?);",
        "empty": rf"{name} =( ?)",
        # the group may take no part in the match
        "maybe": rf"{name}(?: = ([0-9']+);)?",
    }[style]
    return re.compile(text) if style == "compiled" else text


def spelled(text):
    """the literal a text spells, or the text: decided by compiling it, not by catching names of errors"""
    try:
        return ast.literal_eval(text)
    except Exception:
        return text


def expected(text, field, style):
    match = re.compile(pattern(field, style)).search(text)
    return None if match is None else spelled(match.group(1))


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.items(), b.items()))
    return a == b or (a != a and b != b)


_serial = itertools.count()


def run_case(case):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _run(case)


def _run(case):
    from dustgoggles import scrape

    kind, fields, style = case["kind"], case["fields"], case["style"]
    patterns = {f: pattern(f, style) for f in fields}
    if kind == "subframe":
        numbers = case["numbers"]
        body = {
            "pvl": "".join(f"\n  FIELD_NAME = {n}" for n in numbers) + "\n",
            "list": " = (" + ", ".join(numbers) + ")\n", "spaced": "\r\n\r\n" + "\t".join(numbers) + " ",
            "units": " = (" + " ".join(f"{n}px" for n in numbers) + ")\n", "named": "".join(f"\n  LINE{n}," for n in numbers) + "\n",
            "signed": " = (" + ",".join(f"+{n}" for n in numbers) + ")\n",
        }[case["format"]]
        text = f"{case['before']}SUBFRAME{body}END{case['after']}"
        got = scrape.scrape_subframe(text)
        require(type(got) is tuple and all(type(x) is int for x in got), "returned", got)
        require(got == tuple(int(n) for n in numbers), "subframe", got, "instead of", numbers)
        return len(numbers) > 1, [kind]
    wants = [{f: expected(t, f, style) for f in fields} for t in case["texts"]]
    if kind == "text":
        text, want = case["texts"][0], wants[0]
        scraper = scrape.make_scraper(text)
        for _ in range(2):
            for f in fields:
                got = scraper(patterns[f])
                require(same(got, want[f]), f, "is", got, "instead of", want[f])
    else:
        folder = pathlib.Path.cwd() / f"labels{next(_serial)}"
        folder.mkdir()
        paths = []
        for i, text in enumerate(case["texts"]):
            path = folder / f"label{i}.lbl"
            data = text.encode()
            if len(data) > 35000:
                data = data[:1000]
                wants[i] = {f: expected(data.decode(), f, style) for f in fields}
            path.write_bytes(data)
            paths.append(path if case["as_path"] else str(path))
            # a path relative to the current folder
            if case["style"] == "empty":
                paths[-1] = type(paths[-1])(os.path.relpath(path))
        if kind == "bulk":
            # the same file may be asked for more than once
            order = [i % len(paths) for i in case["order"]]
            paths, wants = [paths[i] for i in order], [wants[i] for i in order]
        if kind == "scrape_file":
            for f in fields:
                for _ in range(2):
                    got = scrape.scrape_from_file(paths[0], patterns[f])
                    require(same(got, wants[0][f]), f, "is", got, "instead of", wants[0][f])
        else:
            calls = []
            supplements = {
                "new": {"EXTRA": 1}, "override": {(fields or ["A"])[0]: "replaced", "EXTRA": [2]}, "empty": {},
                "nothing": {(fields or ["A"])[-1]: None, "EXTRA": None},
            }

            def supplement(label, text):
                calls.append((label, text))
                return {"TEXT": text} if case["supplement"] == "text" else dict(supplements[case["supplement"]])

            kwargs = {}
            if case["loader"] == "plain":
                kwargs["label_loader"] = scrape.get_label_text
            elif case["loader"] == "fake":
                kwargs["label_loader"] = lambda label: f"A = 1;\nlabel {label!r}"
                wants = [{f: expected(kwargs["label_loader"](p), f, style) for f in fields} for p in paths]

            def one(path):
                args = [supplement] if case["supplement"] else []
                return scrape.scrape_patterns(path, patterns, *args, **kwargs)

            if kind == "bulk":
                files = iter(paths) if case["as_path"] else paths
                results = scrape.bulk_scrape_metadata(files, one)
                require(type(results) is list, "returned a", type(results))
            else:
                results = [one(paths[0])]
            require(len(results) == len(paths), len(results), "results for", len(paths), "files")
            for i, (path, got) in enumerate(zip(paths, results)):
                text = (kwargs["label_loader"](path) if case["loader"] == "fake"
                        else pathlib.Path(path).read_bytes().decode())
                want = dict(wants[i])
                if case["supplement"]:
                    want |= {"TEXT": text} if case["supplement"] == "text" else supplements[case["supplement"]]
                    require(calls[i] == (path, text), "supplemental function called with", calls[i])
                require(list(got) == list(want), "fields", list(got), "instead of", list(want))
                for f in want:
                    require(same(got[f], want[f]), f, "is", got[f], "instead of", want[f])
            require(len(calls) == (len(paths) if case["supplement"] else 0), len(calls), "supplemental calls")
        for path in folder.iterdir():
            path.unlink()
        folder.rmdir()
    flat = [v for want in wants for v in want.values()]
    return (any(v is None for v in flat) and any(v is not None for v in flat)) or any(isinstance(v, str) for v in flat), [kind, f"style:{style}"]


ASSUMPTIONS = ["labels decode as UTF-8; files are not rewritten between cached reads; patterns have one group"]
