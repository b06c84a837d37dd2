"""
C17, C18: generated source texts of single self-contained functions without default values.
A case holds the text itself, so a replay file shows the program.
"""
from hypothesis import strategies as st

BINARY = st.sampled_from(["+", "-", "*", "//", "%", "&", "|", "<", "==", "and", "or", "is not"])
SAFE = st.sampled_from(["==", "and", "or", "is not", "!=", "in (1, 2) or"])
GLOBALS = {"G_INT": 7, "G_STR": "glob", "G_LIST": [1, 2, 3], "shadowed": "global one"}


def helper(x):
    return ("helped", x)


def make_globals():
    """fresh globals for one definition"""
    return {**GLOBALS, "G_LIST": [1, 2, 3], "helper": helper}


RARE = [
    "assert", "assert", "global", "mutate", "nonlocal", "class", "while", "with", "import", "match", "walrus", "unpack",
    "del", "aug", "unicode", "string", "finally", "finally", "decorated", "continued", "annotated", "group", "yield from",
]


class Writer:
    def __init__(self, draw, params):
        self.draw = draw
        self.lines = []
        self.vars = list(params)
        self.budget = draw(st.integers(1, 9))
        self.fresh = 0
        self.generator = draw(st.integers(0, 9)) == 0
        self.safe = draw(st.booleans())  # expressions that rarely raise, so that much gets run

    def pick(self, *options):
        return options[self.draw(st.integers(0, len(options) - 1))]

    def atom(self):
        n = self.draw(st.integers(0, 11))
        if n < 6 and self.vars:
            return self.vars[self.draw(st.integers(0, len(self.vars) - 1))]
        if n < 8:
            return self.pick("G_INT", "G_STR", "G_LIST", "len(G_LIST)", "shadowed")
        if n == 8:
            return repr(self.draw(st.sampled_from(["s", 1.5, None, (1, 2), True, [], {}, b"x"])))
        if n == 9:
            return self.pick("helper(1)", "helper", "print", "G_STR" if self.safe else "MISSING_NAME")
        return str(self.draw(st.integers(-3, 9)))

    def expr(self, level=0):
        n = self.draw(st.integers(0, 9))
        if n < 5 or level > 2:
            return self.atom()
        if n < 8:
            return f"({self.expr(level + 1)} {self.draw(SAFE if self.safe else BINARY)} {self.expr(level + 1)})"
        a = self.expr(level + 1)
        return self.pick(
            f"[q_ for q_ in ({a}, 1) if q_ != 2]", f"repr({a})", f"str({a})[:3]",
            f"(lambda z_: (z_, {a}))(4)", f"{{'k': {a}}}", f"helper({a})", f"({a},)",
            f"({a} if {self.atom()} else 0)", f"f'<{{({self.atom()})}}>'", f"f'{{({self.atom()})!r:>6}}'",
            f"{{q_: {self.atom()} for q_ in range(2)}}", f"sorted({{q_ for q_ in 'ab'}})",
            "'a\u2028b\x0cc'", "'''x\x0b\x1cy\x85z\n  w'''", f"(0 < {self.atom()} <= 5)", f"[*{a if not self.safe else 'trail'}, 1]", f"(not {a})", "sorted(locals())", "__debug__",
            f"sum(q_ for q_ in (1, {self.atom()}))", f"(lambda z_, y_={self.atom()}: [y_, {a}])(4)",
        )

    def block(self, indent, level=0):
        pad = "    " * indent
        for _ in range(self.draw(st.integers(1, 3))):
            if self.budget <= 0:
                break
            self.budget -= 1
            n = self.draw(st.integers(0, 19))
            if n < 4 or level > 2:
                name = f"v{self.fresh}"
                self.fresh += 1
                self.lines.append(f"{pad}{name} = {self.expr()}")
                self.vars.append(name)
            elif n == 4:
                self.lines.append(f"{pad}if {self.expr()}:")
                self.scoped(indent, level)
                if self.draw(st.booleans()):
                    self.lines.append(f"{pad}else:")
                    self.scoped(indent, level)
            elif n == 5:
                self.lines.append(f"{pad}for i{level} in range({self.draw(st.integers(0, 3))}):")
                self.vars.append(f"i{level}")
                self.scoped(indent, level)
                self.vars.remove(f"i{level}")
            elif n == 6:
                self.lines.append(f"{pad}try:")
                self.scoped(indent, level)
                self.lines.append(f"{pad}except {self.pick('TypeError', 'Exception', 'NameError')} as e_:")
                self.lines.append(f"{pad}    trail.append(type(e_).__name__)")
            elif n == 7:
                name = f"inner{self.fresh}"
                self.fresh += 1
                self.lines.append(f"{pad}def {name}(y_, z_=2, *more_):")
                self.lines.append(f"{pad}    return (y_, z_, more_, {self.expr()})")
                self.lines.append(f"{pad}trail.append({name}({self.atom()}))")
            elif n == 8:
                self.lines.append(
                    f"{pad}raise {self.pick('ValueError', 'KeyError', 'RuntimeError')}({self.atom()})"
                )
            elif n == 9:
                self.lines.append(f"{pad}return ('early', {self.expr()})")
            elif n == 10:
                self.lines.append(f"{pad}shadowed_{self.fresh} = shadowed")
                self.fresh += 1
            elif n == 11 and self.generator:
                self.lines.append(f"{pad}yield {self.expr()}")
            elif n > 13:
                self.rare(pad, indent, level)
            else:
                self.lines.append(f"{pad}trail.append({self.expr()})")

    def rare(self, pad, indent, level):
        """statements beyond the common ones"""
        k = self.fresh
        self.fresh += 1
        add = lambda *lines: self.lines.extend(pad + line for line in lines)
        what = self.draw(st.sampled_from(RARE))
        if what == "assert":
            add(f"assert {self.expr()}, {self.atom()}")
        elif what == "global":
            add(f"global G_NEW{k}", f"G_NEW{k} = {self.expr()}")
            self.vars.append(f"G_NEW{k}")
        elif what == "mutate":
            add(f"G_LIST.append({self.atom()})")
        elif what == "nonlocal":
            add(f"n{k} = {self.atom()}", f"def bump{k}(y_):", f"    nonlocal n{k}", f"    n{k} = (n{k}, y_)",
                f"    return n{k}", f"trail.append((bump{k}(1), bump{k}({self.atom()}), n{k}))")
            self.vars.append(f"n{k}")
        elif what == "class":
            add(f"class K{k}(dict):", f"    attr = ({self.atom()},)", "    def __init__(self, y_):",
                "        super().__init__(k=y_)", "        self.y_ = y_", "    @property",
                "    def both(self):", f"        return (self.attr, self.y_, dict(self), {self.atom()})",
                f"trail.append(K{k}({self.atom()}).both)")
        elif what == "while":
            add(f"w{k} = {self.draw(st.integers(0, 3))}", f"while w{k}:", f"    w{k} -= 1",
                f"    if {self.expr()}:", f"        {self.pick('break', 'continue')}")
            self.scoped(indent, level)
            add("else:", f"    trail.append('ended {k}')")
        elif what == "with":
            add("import contextlib", f"with contextlib.{self.pick('suppress(ValueError, TypeError)', 'nullcontext(3)')} as c{k}:")
            self.scoped(indent, level)
            add(f"trail.append(c{k})")
        elif what == "import":
            add(self.pick(f"import math as m{k}", f"from math import floor as m{k}", f"import os.path as m{k}"),
                f"trail.append(m{k}.__name__)")
        elif what == "match":
            add(f"match {self.expr()}:", "    case bool() | None:", "        trail.append('flag')",
                "    case int(found) if found > 2:", "        trail.append(found)", "    case [first_, *rest_]:",
                "        trail.append((first_, rest_))", "    case {'k': inside_}:", "        trail.append(inside_)",
                "    case _:", f"        trail.append({self.atom()})")
        elif what == "walrus":
            add(f"if (q{k} := {self.expr()}):", f"    trail.append(q{k})")
        elif what == "unpack":
            add(f"a{k}, *b{k} = ({self.expr()}, {self.atom()}, 3)", f"trail.append((b{k}, a{k}))")
        elif what == "del" and self.vars:
            add(f"del {self.vars[self.draw(st.integers(0, len(self.vars) - 1))]}")
        elif what == "aug":
            add(f"{self.vars[self.draw(st.integers(0, len(self.vars) - 1))]} {self.pick('+=', '*=', '-=', '|=')} {self.atom()}")
        elif what == "unicode":
            add(f"\u00e9{k} = {self.expr()}  # \u2603", f"trail.append(('\u00e9', \u00e9{k}))")
        elif what == "string":
            add(f"s{k} = \'\'\'line", f"  indented{k}", "\ttab\'\'\'", f"trail.append(s{k})")
            self.vars.append(f"s{k}")
        elif what == "finally":
            add("try:")
            self.scoped(indent, level)
            add(self.pick("finally:", "except (ValueError, NameError):", "except TypeError as e_:"),
                f"    trail.append('after {k}')" + self.pick("", "; raise", f"; trail.append({k})"))
        elif what == "decorated":
            add("@helper", f"def deco{k}(*, y_=2):", "    return y_", f"trail.append((deco{k}[0], deco{k}[1]()))")
        elif what == "continued":
            add(f"v{k} = {self.atom()}, \\", f"    {self.atom()}; trail.append(v{k})")
        elif what == "annotated":
            add(f"x{k}: int = {self.expr()}", f"trail.append(x{k})")
        elif what == "group":
            add("try:", f"    raise ExceptionGroup('g', [ValueError({self.atom()}), KeyError(1)])",
                "except* ValueError as e_:", "    trail.append(repr(e_.exceptions))", "except* KeyError:", "    pass")
        elif what == "yield from" and self.generator:
            add(f"got{k} = yield from (1, {self.atom()})", f"trail.append(got{k})")
        else:
            add("pass")

    def scoped(self, indent, level):
        before, known = len(self.lines), list(self.vars)
        self.block(indent + 1, level + 1)
        if len(self.lines) == before:
            self.lines.append("    " * (indent + 1) + "pass")
        # names assigned in a branch may be unbound later; that is a fine thing to test
        if self.draw(st.booleans()):
            self.vars = known


@st.composite
def signatures(draw, annotations=True):
    """(parameter text, parameter names, [(name, kind), ...])"""
    counter = iter("abcdefgh")

    def param(prefix="", kind=None):
        name = next(counter)
        names_.append(name)
        kinds.append((name, kind or prefix or "normal"))
        note = ""
        if annotations and draw(st.integers(0, 3)) == 0:
            note = draw(st.sampled_from([": int", ": 'text'", ": list[int]", ": G_INT"]))
        return f"{prefix}{name}{note}"

    names_, parts, kinds = [], [], []
    for _ in range(draw(st.sampled_from([0, 0, 1]))):
        parts.append(param(kind="first"))
    if parts:
        parts.append("/")
    for _ in range(draw(st.integers(0, 3))):
        parts.append(param())
    if draw(st.integers(0, 2)) == 0:
        parts.append(param("*"))
        star = True
    else:
        star = False
    keyword_only = draw(st.sampled_from([0, 0, 1, 2]))
    if keyword_only and not star:
        parts.append("*")
    for _ in range(keyword_only):
        parts.append(param(kind="keyword"))
    if draw(st.integers(0, 2)) == 0:
        parts.append(param("**"))
    return ", ".join(parts), names_, kinds


@st.composite
def sources(draw, name="made", annotations=True, wrapping=True):
    """(text of one function definition, its parameters' names and kinds)"""
    text, params, kinds = draw(signatures(annotations))
    writer = Writer(draw, params)
    returns = draw(st.sampled_from(["", "", " -> int", " -> 'x'"])) if annotations else ""
    lines = []
    if wrapping and draw(st.integers(0, 4)) == 0:
        lines += ["", "# a comment", ""]
    kind = "async def" if not writer.generator and draw(st.integers(0, 14)) == 0 else "def"
    lines.append(f"{kind} {name}({text}){returns}:")
    if draw(st.integers(0, 3)) == 0:
        lines.append('    """documentation"""')
    lines.append("    trail = []")
    writer.vars.append("trail")
    writer.block(1)
    lines += writer.lines
    final = ", ".join(params + ["trail"]) + ","
    lines.append(f"    return ({final})")
    return "\n".join(lines) + ("\n" if draw(st.booleans()) else ""), kinds


ARG = st.sampled_from([0, 1, 2, -1, "s", "", None, 1.5, (1,), [3], True, {}])


@st.composite
def argument_lists(draw, kinds):
    """mostly arguments the parameters accept, sometimes any"""
    if draw(st.integers(0, 4)):
        positional, keywords, by_name = [], {}, False
        for name, kind in kinds:
            by_name |= kind == "normal" and draw(st.integers(0, 3)) == 0
            if kind == "*":
                if not by_name:
                    positional += draw(st.lists(ARG, max_size=2))
            elif kind == "**":
                keywords |= draw(st.dictionaries(st.sampled_from(["k1", "k2"]), ARG, max_size=2))
            elif kind == "keyword" or (kind == "normal" and by_name):
                keywords[name] = draw(ARG)
            else:
                positional.append(draw(ARG))
        return tuple(positional), keywords
    positional = draw(st.lists(ARG, max_size=5))
    keywords = draw(st.dictionaries(st.sampled_from("abcdefgz"), ARG, max_size=3))
    return tuple(positional), keywords


