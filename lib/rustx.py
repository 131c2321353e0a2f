"""Mechanical extraction of items from Rust source text.

Nothing here rewrites executable code beyond what `strip_item` says it
drops: visibility, attributes, doc comments and ordinary comments.  All
other edits are insertions of ghost text (contracts, invariants, proof
blocks) at structural positions of the token stream.
"""
import re


class Lost(Exception):
    """An anchor (item, loop, closure, arm) that is not in the source."""


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return "%s:%r" % (self.k, self.s)


_ident = re.compile(r"(r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"[0-9][A-Za-z0-9_]*(\.[0-9][A-Za-z0-9_]*)?")
_raw = re.compile(r'b?r(#*)"')
_char = re.compile(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", re.S)
_life = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*")
_str = re.compile(r'b?"(\\.|[^"\\])*"', re.S)
_punct = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
          "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", ".."]


def lex(text):
    """Tokens of `text`; comments and white space are skipped."""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if text.startswith("//", i):
            j = text.find("\n", i)
            i = n if j < 0 else j
            continue
        if text.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if text.startswith("/*", j):
                    d += 1
                    j += 2
                elif text.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = _raw.match(text, i)
        if m:
            end = '"' + m.group(1)
            j = text.index(end, m.end()) + len(end)
            out.append(Tok("str", text[i:j], i, j))
            i = j
            continue
        m = _str.match(text, i)
        if m:
            out.append(Tok("str", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _char.match(text, i)
        if m:
            out.append(Tok("char", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _life.match(text, i)
        if m:
            out.append(Tok("life", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _ident.match(text, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _num.match(text, i)
        if m:
            e = m.end()
            out.append(Tok("num", text[i:e], i, e))
            i = e
            continue
        for p in _punct:
            if text.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """Index of the token closing the bracket at token i."""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].k == "p":
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


def norm(toks):
    """White-space-free canonical text of a token list."""
    out = []
    for t in toks:
        if out and (out[-1][-1].isalnum() or out[-1][-1] == "_") and (t.s[0].isalnum() or t.s[0] in "_'"):
            out.append(" ")
        out.append(t.s)
    return "".join(out)


def join(parts):
    """Text of [(string, token or None)]: adjacent tokens stay adjacent (`>` `>` is `>>`)."""
    out, last = [], None
    for s, t in parts:
        if out and not (t is not None and last is not None and last.b == t.a and t.k == "p" and last.k == "p"):
            out.append(" ")
        out.append(s)
        last = t
    return "".join(out)


class Item:
    def __init__(self, src, kind, name, head, body, start, end, attrs, parent=None):
        self.src, self.kind, self.name = src, kind, name
        self.head = head      # (first, last+1) token indices of everything before the body
        self.body = body      # (open, close) token indices of the braces, or None
        self.start, self.end = start, end  # byte offsets of the text, attributes excluded
        self.attrs = attrs    # texts of attributes
        self.parent = parent

    @property
    def text(self):
        return self.src.text[self.start:self.end]


KW = {"fn", "struct", "enum", "impl", "trait", "type", "mod", "use", "const", "static", "macro_rules", "extern"}


class Source:
    def __init__(self, text, name="<text>"):
        self.text, self.name = text, name
        self.toks = lex(text)
        self.items = self._items(0, len(self.toks))

    def _items(self, i, end, parent=None):
        T = self.toks
        items = []
        attrs = []
        while i < end:
            t = T[i]
            if t.s == "#" and i + 1 < end and T[i + 1].s in ("[", "!"):
                k = i + 1 if T[i + 1].s == "[" else i + 2
                j = match_close(T, k)
                attrs.append(self.text[T[i].a:T[j].b])
                i = j + 1
                continue
            s0 = i
            # skip visibility and qualifiers
            j = i
            if T[j].s == "pub":
                j += 1
                if j < end and T[j].s == "(":
                    j = match_close(T, j) + 1
            first = j
            while j < end and T[j].s in ("unsafe", "async", "default") or (
                    j + 1 < end and T[j].s == "const" and T[j + 1].s in ("fn", "unsafe")) or (
                    j + 2 < end and T[j].s == "extern" and T[j + 1].k == "str" and T[j + 2].s == "fn"):
                j += 1 if T[j].s != "extern" else 2
            kw = T[j].s
            if kw == "macro_rules":
                k = j
                while T[k].s not in ("{", "("):
                    k += 1
                e = match_close(T, k)
                items.append(Item(self, kw, T[j + 2].s, (first, k), (k, e), T[first].a, T[e].b, attrs, parent))
                i, attrs = e + 1, []
                if i < end and T[i].s == ";":
                    i += 1
                continue
            if kw not in KW:
                # a macro call or something unknown: skip to ; or a closed brace
                k = j
                while k < end and T[k].s != ";" and T[k].s != "{":
                    if T[k].s in OPEN:
                        k = match_close(T, k)
                    k += 1
                if k < end and T[k].s == "{":
                    k = match_close(T, k)
                i, attrs = k + 1, []
                continue
            # find the body `{` or `;` at depth 0 (angle brackets may hold neither)
            k = j + 1
            body = None
            while k < end:
                s = T[k].s
                if s == ";":
                    break
                if s == "{":
                    if kw in ("use", "const", "static"):
                        k = match_close(T, k) + 1
                        continue
                    body = (k, match_close(T, k))
                    break
                if s in ("(", "["):
                    k = match_close(T, k)
                k += 1
            last = body[1] if body else k
            if kw == "impl":
                name = norm(T[j:body[0]])
                # drop a where clause from the name
            elif kw == "use":
                name = norm(T[j:k])
            else:
                name = T[j + 1].s
            # tuple struct `struct X(..);` ends with `;`
            it = Item(self, kw, name, (first, body[0] if body else k), body, T[first].a, T[min(last, len(T) - 1)].b, attrs, parent)
            items.append(it)
            if kw in ("impl", "trait", "mod") and body:
                it.items = self._items(body[0] + 1, body[1], it)
            i, attrs = last + 1, []
            _ = s0
        return items

    def find(self, *path):
        """find("fn assemble"), find("impl Expr", "fn eval")"""
        items = self.items
        it = None
        for p in path:
            kind = re.match(r"\w+", p).group()
            name = p[len(kind):].strip()
            if kind == "impl":
                want = norm(lex(p))
                c = [x for x in items if x.kind == "impl" and x.name == want]
                # several impl blocks with the same header: search them all
                if len(c) > 1:
                    merged = c[0]
                    merged_items = [y for x in c for y in x.items]
                    it = merged
                    items = merged_items
                    continue
            else:
                c = [x for x in items if x.kind == kind and x.name == name]
            if len(c) != 1:
                raise Lost("%s: %s: %d found" % (self.name, " :: ".join(path), len(c)))
            it = c[0]
            items = getattr(it, "items", [])
        return it


def strip_item(text):
    """Drops attributes (#[..]), `pub` / `pub(..)` and comments; keeps line structure."""
    toks = lex(text)
    keep = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
            i = match_close(toks, i + 1) + 1
            continue
        if t.k == "id" and t.s == "pub":
            i += 1
            if i < len(toks) and toks[i].s == "(" and toks[i + 1].s in ("crate", "super", "self", "in"):
                i = match_close(toks, i) + 1
            continue
        keep.append(t)
        i += 1
    out = []
    last = None
    for t in keep:
        if last is not None:
            gap = text[last.b:t.a]
            # the gap may hold comments and dropped tokens: keep only its newlines, or a space
            if "\n" in gap:
                nl = gap.rfind("\n")
                indent = gap[nl + 1:]
                out.append("\n" + (indent if indent.strip() == "" else ""))
            elif gap:
                out.append(" ")
        out.append(t.s)
        last = t
    return "".join(out)


class Fn:
    """A stripped function text with its structural positions."""

    def __init__(self, text):
        self.text = strip_item(text)
        self.edits = []   # (pos, order, text) insertions, (a, b, text) as replacements
        self.reps = []
        T = self.toks = lex(self.text)
        i = 0
        while T[i].s != "fn":
            i += 1
        self.ifn = i
        self.name = T[i + 1].s
        k = i + 2
        # generics
        if T[k].s == "<":
            d = 0
            while True:
                if T[k].s == "<":
                    d += 1
                elif T[k].s == ">":
                    d -= 1
                elif T[k].s == ">>":
                    d -= 2
                elif T[k].s == ">=" or T[k].s == "->":
                    pass
                k += 1
                if d <= 0:
                    break
        assert T[k].s == "(", (self.name, T[k])
        self.params = (k, match_close(T, k))
        k = self.params[1] + 1
        self.arrow = None
        self.ret = None
        if T[k].s == "->":
            self.arrow = k
            k += 1
            a = k
            d = 0
            while True:
                s = T[k].s
                if s in ("{", ";") and d == 0:
                    break
                if s == "where" and d == 0:
                    break
                if s in ("(", "["):
                    k = match_close(T, k)
                k += 1
            self.ret = (a, k)
        while k < len(T) and T[k].s not in ("{", ";"):
            k += 1
        self.ibody = k
        self.has_body = k < len(T) and T[k].s == "{"
        self.iend = match_close(T, k) if self.has_body else k
        self._find_loops()
        self._find_closures()

    def _find_loops(self):
        T = self.toks
        self.loops = []
        i = self.ibody
        while i < self.iend:
            t = T[i]
            if t.k == "id" and t.s in ("for", "while", "loop"):
                if t.s == "for" and i + 1 < len(T) and T[i + 1].s == "<":
                    i += 1
                    continue
                # header ends at first `{` at bracket depth 0 relative to here
                k = i + 1
                kin = None
                while T[k].s != "{":
                    if T[k].s in ("(", "["):
                        k = match_close(T, k)
                    elif T[k].k == "id" and T[k].s == "in" and kin is None:
                        kin = k
                    k += 1
                self.loops.append((t.s, i, kin, k, match_close(T, k)))
            i += 1

    def _find_closures(self):
        T = self.toks
        self.closures = []
        i = self.ibody
        while i < self.iend:
            t = T[i]
            prev = T[i - 1]
            if t.k == "p" and t.s in ("|", "||") and (prev.s in ("(", ",", "=", "{", ";", "=>", "return", "move")):
                if t.s == "||":
                    hdr = (i, i)
                    k = i + 1
                else:
                    k = i + 1
                    while T[k].s != "|":
                        if T[k].s in OPEN:
                            k = match_close(T, k)
                        k += 1
                    hdr = (i, k)
                    k += 1
                # a `|` starting a match arm's or-pattern has a `=>` or an `if` at this depth first
                # body: up to , ) ; } at depth 0
                b = k
                while True:
                    s = T[k].s
                    if s in OPEN:
                        k = match_close(T, k) + 1
                        if k - 1 >= b and T[b].s == "{" and k - 1 == match_close(T, b):
                            break
                        continue
                    if s in (",", ";") or s in CLOSE:
                        break
                    k += 1
                self.closures.append((hdr[0], hdr[1], b, k))
                i = b
                continue
            i += 1

    # -- edits ---------------------------------------------------------
    def ins(self, pos, text, order=0):
        self.edits.append((pos, order, text))

    def rep(self, a, b, text):
        self.reps.append((a, b, text))

    def name_ret(self, name):
        if self.ret is None:
            raise Lost("%s: no return type" % self.name)
        T = self.toks
        a, k = self.ret
        self.ins(T[a].a, "(%s: " % name)
        self.ins(T[k - 1].b, ")")

    def spec(self, text):
        p = self.toks[self.ibody].a
        self.ins(p, "\n" + text.rstrip() + "\n", 5)

    def body_start(self, text):
        self.ins(self.toks[self.ibody].b, "\n" + text + "\n")

    def loop(self, idx, it=None, inv=None, start=None, end=None, before=None, after=None, attrs=None):
        if idx >= len(self.loops):
            raise Lost("%s: loop %d not found" % (self.name, idx))
        kind, i, kin, ob, cb = self.loops[idx]
        T = self.toks
        if it:
            if kind != "for":
                raise Lost("%s: loop %d is not a for loop" % (self.name, idx))
            self.ins(T[kin].b, " %s:" % it)
        if attrs:
            self.ins(T[i].a, attrs + "\n")
        if inv:
            self.ins(T[ob].a, "\n" + inv.rstrip() + "\n")
        if start:
            self.ins(T[ob].b, "\n" + start + "\n")
        if end:
            self.ins(T[cb].a, "\n" + end + "\n", -1)
        if before:
            self.ins(T[i].a, before + "\n", -1)
        if after:
            self.ins(T[cb].b, "\n" + after + "\n")

    def closure(self, idx, header):
        """Replace the header `|x|` of closure idx with an annotated one; brace the body."""
        if idx >= len(self.closures):
            raise Lost("%s: closure %d not found" % (self.name, idx))
        a, b, ba, bk = self.closures[idx]
        T = self.toks
        self.rep(T[a].a, T[b].b, header)
        if T[ba].s != "{":
            self.ins(T[ba].a, "{ ")
            self.ins(T[bk].a if T[bk].a < len(self.text) else T[bk].a, " }", -2)

    def at(self, needle, text, where="before", nth=0):
        """Insert ghost text next to the nth occurrence of the token sequence `needle`."""
        N = [t.s for t in lex(needle)]
        T = self.toks
        hits = [i for i in range(self.ibody, self.iend - len(N) + 1) if [t.s for t in T[i:i + len(N)]] == N]
        if nth >= len(hits):
            raise Lost("%s: %r not found" % (self.name, needle))
        i = hits[nth]
        if where == "before":
            self.ins(T[i].a, text + "\n", -1)
        else:
            self.ins(T[i + len(N) - 1].b, "\n" + text + "\n")

    def replace(self, old, new, count=None):
        """Documented mechanical rewriting of a token sequence (listed in the evidence)."""
        N = [t.s for t in lex(old)]
        T = self.toks
        hits = [i for i in range(0, self.iend - len(N) + 2) if [t.s for t in T[i:i + len(N)]] == N]
        if not hits or (count is not None and len(hits) != count):
            raise Lost("%s: %r found %d times" % (self.name, old, len(hits)))
        for i in hits:
            self.rep(T[i].a, T[i + len(N) - 1].b, new)

    def rename(self, new):
        t = self.toks[self.ifn + 1]
        self.rep(t.a, t.b, new)

    def render(self):
        evs = [(p, 1, o, n, p, t) for n, (p, o, t) in enumerate(self.edits)]
        evs += [(a, 2, 0, n, b, t) for n, (a, b, t) in enumerate(self.reps)]
        evs.sort(key=lambda e: (e[0], e[1], e[2], e[3]))
        out, pos = [], 0
        for a, _, _, _, b, t in evs:
            if a < pos:
                raise Lost("%s: overlapping edits" % self.name)
            out.append(self.text[pos:a])
            out.append(t)
            pos = b
        out.append(self.text[pos:])
        return "".join(out)

    def signature_only(self, body="{ unimplemented!() }"):
        """Text with the body replaced (used for callees whose contract is assumed here)."""
        full = self.render_sig()
        return full + " " + body

    def render_sig(self):
        p = self.toks[self.ibody].a
        keep_e = [e for e in self.edits if e[0] <= p and not (e[0] == p and e[1] != 5)]
        saved_e, saved_r = self.edits, self.reps
        self.edits = keep_e
        self.reps = [r for r in self.reps if r[1] <= p]
        txt = self.text
        try:
            self.text = txt[:p]
            return self.render()
        finally:
            self.text, self.edits, self.reps = txt, saved_e, saved_r


def split_top(toks, a, b, sep=","):
    """Ranges of toks[a:b] split at `sep` at bracket depth 0."""
    out, s, i = [], a, a
    while i < b:
        if toks[i].k == "p" and toks[i].s in OPEN:
            i = match_close(toks, i) + 1
            continue
        if toks[i].s == sep:
            out.append((s, i))
            s = i + 1
        i += 1
    if s < b:
        out.append((s, b))
    return out


def match_arms(toks, op):
    """Arms of the match whose `{` is token op: (pattern, guard or None, body) token ranges."""
    cl = match_close(toks, op)
    arms = []
    i = op + 1
    while i < cl:
        p0, g0 = i, None
        while toks[i].s != "=>":
            if toks[i].s in OPEN:
                i = match_close(toks, i)
            elif toks[i].k == "id" and toks[i].s == "if" and g0 is None:
                g0 = i
            i += 1
        pat = (p0, g0 if g0 is not None else i)
        guard = (g0 + 1, i) if g0 is not None else None
        i += 1
        b0 = i
        if toks[i].s == "{":
            e = match_close(toks, i)
            if e + 1 >= cl or toks[e + 1].s == "," or toks[e + 1].s not in (".", "?", "as", "+", "-", "*", "/", "|", "&", "=="):
                i = e + 1
                arms.append((pat, guard, (b0, i)))
                if i < cl and toks[i].s == ",":
                    i += 1
                continue
        while i < cl and toks[i].s != ",":
            if toks[i].s in OPEN:
                i = match_close(toks, i)
            i += 1
        arms.append((pat, guard, (b0, i)))
        i += 1
    return arms


def uncontinue(text):
    """`for .. { A; if c { B; continue; } C }` becomes `for .. { A; if c { B; } else { C } }`
    (Verus has no `continue` in a for loop)."""
    f = Fn(text)
    T = f.toks
    for kind, i, kin, ob, cb in f.loops:
        if kind != "for":
            continue
        k = ob + 1
        while k < cb:
            if T[k].s == "if" and T[k - 1].s in ("{", "}", ";"):
                b = k + 1
                while T[b].s != "{":
                    b = match_close(T, b) + 1 if T[b].s in ("(", "[") else b + 1
                e = match_close(T, b)
                if T[e + 1].s != "else" and e - 2 > b - 1 and T[e - 1].s == ";" and T[e - 2].s == "continue":
                    f.rep(T[e - 2].a, T[e - 1].b, "")
                    f.ins(T[e].b, " else {", -3)
                    f.ins(T[cb].a, "}", -3)
                k = e + 1
            elif T[k].s in OPEN:
                k = match_close(T, k) + 1
            else:
                k += 1
    return f.render()
