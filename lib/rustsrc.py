"""A small reader of Rust sources: finds items by what they are (not by where they are), so that the
text given to the verifier is taken from the current sources on every run."""
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "barbarosa/src")

TOKEN = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<comment>//[^\n]*)
  | (?P<string>b?"(?:\\.|[^"\\])*"|r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
  | (?P<char>b?'(?:\\(?:u\{[0-9a-fA-F]*\}|x..|.)|[^\\'\n])')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<ident>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>[0-9][A-Za-z0-9_]*(?:\.[0-9][A-Za-z0-9_]*)?)
  | (?P<op>::|->|=>|\.\.=|\.\.|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
    """,
    re.X | re.S,
)


class LostAnchor(Exception):
    """What is under contract is no longer where (or what) it was: nothing can be concluded from that"""


class Tok:
    __slots__ = ("kind", "text", "start", "end")

    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end = kind, text, start, end

    def __repr__(self):
        return self.text


def lex(text):
    """Tokens without comments and white space"""
    tokens, i = [], 0
    while i < len(text):
        if text.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < len(text):
                if text.startswith("/*", j):
                    depth, j = depth + 1, j + 2
                elif text.startswith("*/", j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            i = j
            continue
        m = TOKEN.match(text, i)
        kind = m.lastgroup if m.lastgroup != "h" else "string"
        if kind not in ("ws", "comment"):
            tokens.append(Tok(kind, m.group(), i, m.end()))
        i = m.end()
    return tokens


def norm(tokens):
    """Text of tokens, with one space only where two words meet"""
    out = ""
    for t in tokens:
        s = t.text if isinstance(t, Tok) else t
        if out and re.match(r"[A-Za-z0-9_']", s) and re.search(r"[A-Za-z0-9_]$", out):
            out += " "
        out += s
    return out


def matching(tokens, i):
    """Index of the bracket that closes the one at `i`"""
    opening = {"{": "}", "(": ")", "[": "]"}
    stack = []
    for j in range(i, len(tokens)):
        t = tokens[j].text
        if tokens[j].kind != "op":
            continue
        if t in opening:
            stack.append(opening[t])
        elif stack and t == stack[-1]:
            stack.pop()
            if not stack:
                return j
    raise LostAnchor("unbalanced brackets")


class Item:
    """An item with a body: `head` (normalized), `body` with its braces, and where it comes from"""

    def __init__(self, source, start, open_, close):
        self.source = source
        self.tokens = source.tokens
        self.i, self.o, self.c = start, open_, close
        self.head = norm(self.tokens[start:open_])
        self.head_text = source.text[self.tokens[start].start : self.tokens[open_].start]
        self.body = source.text[self.tokens[open_].start : self.tokens[close].end]

    def line(self):
        return self.source.text.count("\n", 0, self.tokens[self.i].start) + 1

    def where(self):
        return f"{os.path.relpath(self.source.path, REPO)}:{self.line()}"

    def fn(self, name):
        for j in range(self.o + 1, self.c):
            if self.tokens[j].text == "fn" and self.tokens[j + 1].text == name:
                return self.source._fn_at(j)
        raise LostAnchor(f"no function {name} in {self.head} ({self.source.path})")


class Source:
    def __init__(self, path):
        self.path = os.path.join(SRC, path)
        try:
            self.text = open(self.path).read()
        except OSError as e:
            raise LostAnchor(str(e))
        self.tokens = lex(self.text)

    def _fn_at(self, j):
        # Up to the first `{` outside of brackets
        k = j
        while self.tokens[k].text != "{":
            if self.tokens[k].text == ";":
                raise LostAnchor("a function without a body")
            if self.tokens[k].text in ("(", "["):
                k = matching(self.tokens, k)
            k += 1
        return Item(self, j, k, matching(self.tokens, k))

    def impls(self):
        for j, t in enumerate(self.tokens):
            if t.kind == "ident" and t.text == "impl":
                prev = self.tokens[j - 1].text if j else ";"
                if prev not in ("}", ";", "]", "unsafe") and j:
                    continue
                k = j
                while self.tokens[k].text != "{":
                    k += 1
                yield Item(self, j, k, matching(self.tokens, k))

    def impl(self, pattern):
        """The impl block whose normalized header matches the pattern"""
        found = [i for i in self.impls() if re.search(pattern, i.head)]
        if len(found) != 1:
            raise LostAnchor(f"{len(found)} impl blocks match {pattern} in {self.path}")
        return found[0]

    def method(self, pattern, name):
        """A function of one of the impl blocks whose normalized headers match the pattern"""
        found = []
        for block in self.impls():
            if re.search(pattern, block.head):
                try:
                    found.append(block.fn(name))
                except LostAnchor:
                    pass
        if len(found) != 1:
            raise LostAnchor(f"{len(found)} functions {name} in the blocks {pattern} of {self.path}")
        return found[0]

    def fn(self, name):
        """A free function"""
        depth = 0
        for j, t in enumerate(self.tokens):
            if t.kind == "op" and t.text == "{":
                depth += 1
            elif t.kind == "op" and t.text == "}":
                depth -= 1
            elif depth == 0 and t.text == "fn" and self.tokens[j + 1].text == name:
                return self._fn_at(j)
        raise LostAnchor(f"no function {name} in {self.path}")

    def item(self, keyword, name):
        """A `struct`, `enum` or `trait` with a body"""
        for j, t in enumerate(self.tokens):
            if t.text == keyword and self.tokens[j + 1].text == name:
                k = j
                while self.tokens[k].text != "{":
                    k += 1
                return Item(self, j, k, matching(self.tokens, k))
        raise LostAnchor(f"no {keyword} {name} in {self.path}")


def fields(item):
    """Named fields of a struct as (name, normalized type)"""
    out, j, tokens = [], item.o + 1, item.tokens
    while j < item.c:
        if tokens[j].text == "#":
            j = matching(tokens, j + 1) + 1
            continue
        if tokens[j].text == "pub":
            j += 1
            if tokens[j].text == "(":
                j = matching(tokens, j) + 1
        name = tokens[j].text
        if tokens[j + 1].text != ":":
            raise LostAnchor(f"{item.head} has no named fields")
        k, angle = j + 2, 0
        while k < item.c and not (tokens[k].text == "," and angle == 0):
            angle += {"<": 1, ">": -1}.get(tokens[k].text, 0)
            if tokens[k].text in "([":
                k = matching(tokens, k)
            k += 1
        out.append((name, norm(tokens[j + 2 : k])))
        j = k + 1
    return out


def strip_docs(text):
    return re.sub(r"^\s*///[^\n]*\n", "", text, flags=re.M)


def with_invariants(body, invariants, iterators=(), loop_start=()):
    """Inserts loop invariants, and ghost statements at the start of the loop bodies. They are given in the
    order of the loops of the body, with the kind of each (and a name for the ghost iterator of `for` loops)."""
    tokens = lex(body)
    loops = []
    for j, t in enumerate(tokens):
        if t.kind == "ident" and t.text in ("for", "while", "loop"):
            if t.text == "for" and tokens[j + 1].text == "<":
                continue
            k, in_ = j, None
            while tokens[k].text != "{":
                if tokens[k].text in ("(", "["):
                    k = matching(tokens, k)
                if tokens[k].text == "in" and in_ is None:
                    in_ = tokens[k].end
                k += 1
            loops.append((t.text, tokens[k].start, in_))
    if [loop[0] for loop in loops] != [kind for kind, _ in invariants]:
        raise LostAnchor(f"loops are {[loop[0] for loop in loops]} and not {[k for k, _ in invariants]}")
    edits, fors = [], 0
    for n, ((kind, at, in_), (_, text)) in enumerate(zip(loops, invariants)):
        edits.append((at, "\n" + text + "\n"))
        if kind == "for":
            if fors < len(iterators) and iterators[fors]:
                edits.append((in_, f" {iterators[fors]}:"))
            fors += 1
        if n < len(loop_start) and loop_start[n]:
            edits.append((at + 1, "\n" + loop_start[n] + "\n"))
    for at, text in sorted(edits, key=lambda e: e[0], reverse=True):
        body = body[:at] + text + body[at:]
    return body


def rename_self(body):
    """`self` is not a name for a parameter of a free function"""
    out, last = "", 0
    for t in lex(body):
        if t.kind == "ident" and t.text == "self":
            out += body[last : t.start] + "this"
            last = t.end
    return out + body[last:]


def desugar_for(body, name, invariant, start, n=0, breaks=None, after=""):
    """The `n`th `for` loop as what it stands for (see the reference of Rust): a loop that takes items off an iterator until there are no more.
    What it goes over has to be a vector. If the loop can break, `breaks` is what holds unless it does. The ghost variables `{name}_all` and `{name}_n` are what it goes over, and how much of that is behind."""
    tokens = lex(body)
    seen = 0
    for j, t in enumerate(tokens):
        if t.kind != "ident" or t.text != "for" or tokens[j + 1].text == "<":
            continue
        if seen < n:
            seen += 1
            continue
        k, in_ = j, None
        while tokens[k].text != "{":
            if tokens[k].text in ("(", "["):
                k = matching(tokens, k)
            if tokens[k].text == "in" and in_ is None:
                in_ = k
            k += 1
        close = matching(tokens, k)
        pattern = body[tokens[j].end : tokens[in_].start].strip()
        over = body[tokens[in_].end : tokens[k].start].strip()
        head = f"""{{
            let {name}_over = {over};
            let ghost {name}_all = {name}_over@;
            let mut {name} = {name}_over.into_iter();
            let ghost mut {name}_n = 0int;
            loop
                invariant_except_break 0 <= {name}_n <= {name}_all.len(), IteratorSpec::remaining(&{name}) == {name}_all.skip({name}_n),
                    {breaks or ""}
                invariant {invariant}
                ensures {f"{name}_n == {name}_all.len()" if breaks is None else "true"},
                decreases {name}_all.len() - {name}_n
            {{
                let ghost {name}_rest = IteratorSpec::remaining(&{name});
                let Some({pattern}) = {name}.next() else {{ break; }};
                proof {{
                    assert({name}_rest[0] == {name}_all[{name}_n]);
                    {name}_n = {name}_n + 1;
                    assert(IteratorSpec::remaining(&{name}) =~= {name}_all.skip({name}_n));
                }}
                {start}
            """
        return body[: tokens[j].start] + head + body[tokens[k].end : tokens[close].start] + "}" + after + "}" + body[tokens[close].end :]
    raise LostAnchor("no such loop")


def closures(tokens):
    """Of the closures: where they start, where their parameters end, and where their bodies end"""
    found = []
    for j, t in enumerate(tokens):
        if t.text in ("|", "||") and j and tokens[j - 1].text in ("(", ",", "=", "move", "return", "{", ";", "=>"):
            k = j
            if t.text == "|":
                k += 1
                while tokens[k].text != "|":
                    k = matching(tokens, k) if tokens[k].text in ("(", "[") else k
                    k += 1
            end = k + 1
            while end < len(tokens) and tokens[end].text not in (",", ")", "]", "}", ";"):
                end = matching(tokens, end) if tokens[end].text in ("(", "[", "{") else end
                end += 1
            found.append((j, k, end))
    return found


def with_closures(text, specs):
    """Gives the closures of a text (which are not inside of each other) types and contracts: per closure what comes before its first bar,
    the types of its parameters, and what comes after its last one"""
    tokens = lex(text)
    found = closures(tokens)
    if len(found) != len(specs):
        raise LostAnchor(f"{len(found)} closures and not {len(specs)}")
    for (j, k, end), (before, types, contract) in reversed(list(zip(found, specs))):
        names, prefix = [norm(part) for part in split_at_commas(tokens[j + 1 : k])], ""
        if len(names) != len(types):
            raise LostAnchor(f"a closure of {len(names)} parameters and not {len(types)}")
        for i, name in enumerate(names):
            if "(" in name:
                # A pattern
                prefix += f"let {name} = taken_{i}; "
                names[i] = f"taken_{i}"
        parameters = ", ".join(f"{name.split(':')[0]}: {kind}" for name, kind in zip(names, types))
        for i, name in enumerate(names):
            contract = contract.replace(f"${i}", name.split(":")[0])
        text = (text[: tokens[j].start] + before + f"|{parameters}| {contract} {{ {prefix}" + text[tokens[k].end : tokens[end - 1].end]
                + " }" + text[tokens[end - 1].end :])
    return text


def split_at_commas(tokens):
    parts, depth = [[]], 0
    for t in tokens:
        depth += {"(": 1, "[": 1, "<": 1, ")": -1, "]": -1, ">": -1}.get(t.text, 0)
        if t.text == "," and depth == 0:
            parts.append([])
        else:
            parts[-1].append(t)
    return [part for part in parts if part]


def variants(item):
    """Names of the variants of an enum"""
    out, j, tokens = [], item.o + 1, item.tokens
    while j < item.c:
        if tokens[j].text == "#":
            j = matching(tokens, j + 1) + 1
            continue
        out.append(tokens[j].text)
        while j < item.c and tokens[j].text != ",":
            j = matching(tokens, j) if tokens[j].text in ("(", "{", "[") else j
            j += 1
        j += 1
    return out


def desugar_while_let(body, specification, before, start):
    """The first `while let` loop as what it stands for (see the reference of Rust): a loop that breaks if the pattern does not match"""
    tokens = lex(body)
    for j, t in enumerate(tokens):
        if t.text == "while" and tokens[j + 1].text == "let":
            k = j
            while tokens[k].text != "{":
                k = matching(tokens, k) if tokens[k].text in ("(", "[") else k
                k += 1
            close = matching(tokens, k)
            eq = next(i for i in range(j, k) if tokens[i].text == "=")
            pattern, value = body[tokens[j + 1].end : tokens[eq].start], body[tokens[eq].end : tokens[k].start]
            return (body[: tokens[j].start] + f"loop {specification} {{ {before} match {value} {{ {pattern} => {{ {start}" + body[tokens[k].end : tokens[close].start]
                    + "} _ => { break; } } }" + body[tokens[close].end :])
    raise LostAnchor("no such loop")


def parsed(text, path):
    """A source of its own from a part of another (the body of a macro, say); its lines are not those of the other"""
    source = Source.__new__(Source)
    source.path, source.text, source.tokens = path, text, lex(text)
    return source


def macro_arms(source, name):
    """The rules of a `macro_rules!`: (normalized pattern, text of what it stands for)"""
    tokens = source.tokens
    for j, t in enumerate(tokens):
        if t.text == "macro_rules" and tokens[j + 1].text == "!" and tokens[j + 2].text == name:
            out, k, end = [], j + 4, matching(tokens, j + 3)
            while k < end:
                close = matching(tokens, k)
                arrow = close + 1
                while tokens[arrow].text != "{":
                    arrow += 1
                last = matching(tokens, arrow)
                out.append((norm(tokens[k : close + 1]), source.text[tokens[arrow].end : tokens[last].start]))
                k = last + 1
                if k < end and tokens[k].text == ";":
                    k += 1
            return out
    raise LostAnchor(f"no macro {name} in {source.path}")


def macro_calls(source, name):
    """The arguments of each call of a macro at the top level, as lists of normalized texts"""
    tokens, depth, out = source.tokens, 0, []
    for j, t in enumerate(tokens):
        if t.text in ("{", "}"):
            depth += 1 if t.text == "{" else -1
        if depth == 0 and t.text == name and tokens[j + 1].text == "!":
            out.append([norm(part) for part in split_at_commas(tokens[j + 3 : matching(tokens, j + 2)])])
    return out


def desugar_for_mut(body, name, of, invariant, start):
    """The `for` loop over `&mut` a collection as one that takes its elements by their numbers, in order: `of` gives what the elements are
    taken from (with `nth_mut` and `count`) from what the loop goes over"""
    tokens = lex(body)
    for j, t in enumerate(tokens):
        if t.kind != "ident" or t.text != "for" or tokens[j + 1].text == "<":
            continue
        k, in_ = j, None
        while tokens[k].text != "{":
            if tokens[k].text in ("(", "["):
                k = matching(tokens, k)
            if tokens[k].text == "in" and in_ is None:
                in_ = k
            k += 1
        close = matching(tokens, k)
        pattern = body[tokens[j].end : tokens[in_].start].strip()
        over = of(norm(tokens[in_ + 1 : k]))
        head = f"""{{
            let mut {name}: usize = 0;
            while {name} < {over}.count()
                invariant {invariant}
                decreases {over}.number() - {name}
            {{
                {start}
                let {pattern} = {over}.nth_mut({name});
                {name} = {name} + 1;
            """
        return body[: tokens[j].start] + head + body[tokens[k].end : tokens[close].start] + "} }" + body[tokens[close].end :]
    raise LostAnchor("no loop")


def statements_of_filter(body):
    """`a.filter(|x| b).for_each(|y| c)`, if that is all there is, as `for x in a { if b { let y = x; c; } }`"""
    tokens = lex(body)
    found = closures(tokens)
    if len(found) not in (1, 2):
        raise LostAnchor("not a filter and what is done for each")
    names = [tokens[j - 2].text for j, _, _ in found]
    parameter = [norm(tokens[j + 1 : k]) for j, k, _ in found]
    inner = [body[tokens[k].end : tokens[end - 1].end] for _, k, end in found]
    first = found[0][0]
    over = body[tokens[0].end : tokens[first - 3].start].strip()
    last = found[-1][2]
    rest = norm(tokens[last + 1 : -1])
    if tokens[last].text != ")" or rest not in ("", ";") or names != ["filter", "for_each"][-len(found):] or tokens[first - 3].text != ".":
        raise LostAnchor("not a filter and what is done for each")
    if len(found) == 1:
        return f"{{ for {parameter[0]} in {over} {{ {inner[0]}; }} }}"
    if norm(tokens[found[0][2] : found[1][0]]) != ").for_each(":
        raise LostAnchor("not a filter and what is done for each")
    return f"{{ for {parameter[0]} in {over} {{ if {inner[0]} {{ let {parameter[1]} = {parameter[0]}; {inner[1]}; }} }} }}"
