"""Contracts of sprites and icons (C12, C13)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "spec"))
import asm  # noqa: E402
import core  # noqa: E402
import isa as isac  # noqa: E402
from rustx import Fn, Lost, lex, match_close  # noqa: E402,F401
from vunit import Unit  # noqa: E402

DATA = """
pub open spec fn num_of(e: Expr) -> int { match e { Expr::Number(_, n, _) => n as int, _ => 0 } }
pub open spec fn small(e: Expr, top: int) -> bool { e is Number && 0 <= num_of(e) <= top }
pub open spec fn byte_item(b: ByteValue) -> bool { match b { ByteValue::Expr(e) => small(e, 255), _ => false } }
pub open spec fn item_byte(b: ByteValue) -> u8 { match b { ByteValue::Expr(e) => num_of(e) as u8, _ => 0 } }
/// statements that write numbers which fit, and nothing else
pub open spec fn plain(st: Statement) -> bool {
    match st {
        Statement::Comment(_) => true,
        Statement::Directive(Directive::Byte(_, b)) => forall|i: int| 0 <= i < b@.len() ==> byte_item(#[trigger] b@[i]),
        Statement::Directive(Directive::Word(_, w)) => forall|i: int| 0 <= i < w@.len() ==> small(#[trigger] w@[i], 65535),
        _ => false,
    }
}
/// what such a statement assembles to (C07)
pub open spec fn bytes_of(st: Statement) -> Seq<u8> {
    match st {
        Statement::Directive(Directive::Byte(_, b)) => Seq::new(b@.len(), |i: int| item_byte(b@[i])),
        Statement::Directive(Directive::Word(_, w)) => words_bytes(Seq::new(w@.len(), |i: int| num_of(w@[i]))),
        _ => seq![],
    }
}
pub open spec fn words_bytes(w: Seq<int>) -> Seq<u8> {
    Seq::new(2 * w.len(), |i: int| if i % 2 == 0 { (w[i / 2] % 256) as u8 } else { (w[i / 2] / 256) as u8 })
}
pub open spec fn all_plain(s: Seq<Statement>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
pub open spec fn all_bytes(s: Seq<Statement>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { all_bytes(s.drop_last()) + bytes_of(s.last()) } }
/// the statements write exactly these bytes
pub open spec fn writes(s: Seq<Statement>, b: Seq<u8>) -> bool { all_plain(s) && all_bytes(s) == b }
"""

DATA_LEMMAS = """
broadcast proof fn writes_push(s: Seq<Statement>, st: Statement)
    requires all_plain(s), plain(st),
    ensures all_plain(#[trigger] s.push(st)), all_bytes(s.push(st)) == all_bytes(s) + bytes_of(st),
{
    assert(s.push(st).drop_last() =~= s);
    assert forall|i: int| 0 <= i < s.push(st).len() implies plain(#[trigger] s.push(st)[i]) by { if i < s.len() { assert(plain(s[i])); } }
}
proof fn writes_none()
    ensures writes(seq![], seq![]),
{
}
proof fn push_one(s: Seq<Statement>, b: Seq<u8>, st: Statement)
    requires writes(s, b), plain(st),
    ensures writes(s.push(st), b + bytes_of(st)),
{
    writes_push(s, st);
}
proof fn push_nothing(s: Seq<Statement>, b: Seq<u8>, st: Statement)
    requires writes(s, b), st is Comment,
    ensures writes(s.push(st), b),
{
    writes_push(s, st);
    assert(b + bytes_of(st) =~= b);
}
proof fn bytes_concat(s: Seq<Statement>, t: Seq<Statement>)
    ensures all_bytes(s + t) == all_bytes(s) + all_bytes(t),
    decreases t.len(),
{
    if t.len() == 0 { assert(s + t =~= s); assert(all_bytes(s) + all_bytes(t) =~= all_bytes(s)); }
    else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        bytes_concat(s, t.drop_last());
        assert(all_bytes(s + t) =~= all_bytes(s) + all_bytes(t));
    }
}
proof fn push_all(s: Seq<Statement>, b: Seq<u8>, t: Seq<Statement>, c: Seq<u8>)
    requires writes(s, b), writes(t, c),
    ensures writes(s + t, b + c),
{
    bytes_concat(s, t);
    assert forall|i: int| 0 <= i < (s + t).len() implies plain(#[trigger] (s + t)[i]) by {
        if i < s.len() { assert(plain(s[i])); } else { assert(plain(t[i - s.len()])); }
    }
}
"""

MAPPED = """
/// `v.iter().map(f).collect()`
#[verifier::external_body]
fn vx_map<A, B, F: Fn(&A) -> B>(v: &Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), #[trigger] r@[i]),
{ unimplemented!() }
"""

COLOR = """
/// the gray level that Color::grayscale computes
pub uninterp spec fn gray_of(c: Color) -> u8;
pub open spec fn light(c: Color) -> int { 30 * c.red + 59 * c.green + 11 * c.blue }
/// g is the level, in hundredths, rounded; exactly one half may go either way
pub open spec fn rounded(l: int, g: int) -> bool { g == (l + 50) / 100 || (l % 100 == 50 && g == l / 100) }
pub open spec fn dark(c: Color) -> bool { gray_of(c) <= 127 }
pub open spec fn clear(c: Color) -> bool { c.alpha <= 127 }
"""

SPRITE = """
/// the bit of pixel p when the first n pixels of the row are there
pub open spec fn row_bit(row: Seq<Color>, mask: bool, n: int, p: int) -> u8 {
    if p < n { if (if mask { clear(row[p]) } else { dark(row[p]) }) { 1 } else { 0 } } else { if mask { 1 } else { 0 } }
}
pub open spec fn eight(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8) -> u8 {
    (a << 7) | (b << 6) | (c << 5) | (d << 4) | (e << 3) | (f << 2) | (g << 1) | h
}
pub open spec fn row_byte(row: Seq<Color>, mask: bool, n: int, k: int) -> u8 {
    eight(row_bit(row, mask, n, 8 * k), row_bit(row, mask, n, 8 * k + 1), row_bit(row, mask, n, 8 * k + 2), row_bit(row, mask, n, 8 * k + 3),
        row_bit(row, mask, n, 8 * k + 4), row_bit(row, mask, n, 8 * k + 5), row_bit(row, mask, n, 8 * k + 6), row_bit(row, mask, n, 8 * k + 7))
}
/// the bytes of the first n pixels of a row
pub open spec fn row_bytes(row: Seq<Color>, mask: bool, n: int) -> Seq<u8> {
    Seq::new(((n + 7) / 8) as nat, |k: int| row_byte(row, mask, n, k))
}
pub open spec fn rows_bytes(rows: Seq<Vec<Color>>, mask: bool, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { seq![] } else { rows_bytes(rows, mask, n - 1) + row_bytes(rows[n - 1]@, mask, rows[n - 1]@.len() as int) } }
pub open spec fn width_of(f: Frame) -> int { if f.rows@.len() > 0 { f.rows@[0]@.len() as int } else { 0 } }
pub open spec fn height_of(f: Frame) -> int { f.rows@.len() as int }
pub open spec fn header(f: Frame, yes: bool) -> Seq<u8> { if yes { seq![width_of(f) as u8, height_of(f) as u8] } else { seq![] } }
/// C12: a sprite
pub open spec fn sprite(f: Frame, masked: bool, head: bool) -> Seq<u8> {
    header(f, head) + (if masked { rows_bytes(f.rows@, true, height_of(f)) } else { seq![] }) + rows_bytes(f.rows@, false, height_of(f))
}
pub open spec fn sprites(s: Seq<Frame>, masked: bool, head: bool, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { seq![] } else { sprites(s, masked, head, n - 1) + sprite(s[n - 1], masked, head) } }
pub open spec fn fits(f: Frame, head: bool) -> bool { head ==> width_of(f) <= 255 && height_of(f) <= 255 }
"""


def bit_lemmas():
    """One lemma per bit: what setting it does to a byte whose later bits are unused."""
    o = []
    v = "abcdefgh"
    sig = ", ".join("%s: u8" % x for x in v)
    for j in range(8):
        p = 7 - j
        for fill in (0, 1):
            before = [v[i] if i < j else str(fill) for i in range(8)]
            after = [v[i] if i < j else ("x" if i == j else str(fill)) for i in range(8)]
            e = lambda a: "((%s << 7) | (%s << 6) | (%s << 5) | (%s << 4) | (%s << 3) | (%s << 2) | (%s << 1) | %s)" % tuple(
                t if not t.isdigit() else t + "u8" for t in a)
            req = "a <= 1, b <= 1, c <= 1, d <= 1, e <= 1, f <= 1, g <= 1, h <= 1, x <= 1"
            if j == 0:
                how = "(0b01111111 | x << 7u8)" if fill else "(x << 7u8)"
            elif fill:
                how = "((%s & !(1u8 << %dusize)) | (x << %dusize))" % (e(before), p, p)
            else:
                how = "(%s | (x << %dusize))" % (e(before), p)
            o.append("proof fn bit_%d_%d(%s, x: u8)\n    by (bit_vector)\n    requires %s,\n    ensures %s == %s,\n{\n}" % (j, fill, sig, req, e(after), how))
    return "\n".join(o) + "\n"


def step_lemma():
    o = ["""
/// one more pixel
proof fn row_step(row: Seq<Color>, mask: bool, n: int)
    requires 0 <= n < row.len(),
    ensures
        n % 8 == 0 ==> row_bytes(row, mask, n + 1) == row_bytes(row, mask, n).push(if mask { 0b01111111 | row_bit(row, mask, n + 1, n) << 7u8 } else { row_bit(row, mask, n + 1, n) << 7u8 }),
        n % 8 != 0 ==> row_bytes(row, mask, n + 1) == row_bytes(row, mask, n).update(n / 8, with_bit(row_byte(row, mask, n, n / 8), mask, (7 - n % 8) as usize, row_bit(row, mask, n + 1, n))),
        row_bytes(row, mask, n).len() == (n + 7) / 8,
        n % 8 != 0 ==> row_bytes(row, mask, n)[(n + 7) / 8 - 1] == row_byte(row, mask, n, n / 8) && (n + 7) / 8 - 1 == n / 8,
{
    let k = n / 8;
    let x = row_bit(row, mask, n + 1, n);
    let a = row_bytes(row, mask, n);
    let b = row_bytes(row, mask, n + 1);
    assert forall|i: int| 0 <= i < k implies row_byte(row, mask, n, i) == #[trigger] row_byte(row, mask, n + 1, i) by { }
"""]
    bits = ["row_bit(row, mask, n, 8 * k + %d)" % i for i in range(8)]
    for j in range(8):
        o.append("    if n %% 8 == %d {\n        assert(n == 8 * k + %d);" % (j, j))
        o.append("        if mask { bit_%d_1(%s, x); } else { bit_%d_0(%s, x); }" % (j, ", ".join(bits), j, ", ".join(bits)))
        if j == 0:
            o.append("        assert(b =~= a.push(if mask { 0b01111111 | x << 7u8 } else { x << 7u8 }));")
        else:
            o.append("        assert(row_byte(row, mask, n + 1, k) == with_bit(row_byte(row, mask, n, k), mask, %d, x));" % (7 - j))
            o.append("        assert(b =~= a.update(k, with_bit(row_byte(row, mask, n, k), mask, %d, x)));" % (7 - j))
        o.append("    }")
    o.append("}")
    return "\n".join(o) + "\n"


WITH = """
pub open spec fn with_bit(old: u8, mask: bool, p: usize, x: u8) -> u8 {
    if mask { (old & !(1u8 << p)) | (x << p) } else { old | (x << p) }
}
"""

ROWS_LEMMAS = """
proof fn byte_row(b: Seq<u8>, r: Seq<ByteValue>, st: Statement)
    requires
        b.len() == r.len(), st matches Statement::Directive(Directive::Byte(_, v)) && v@ == r,
        forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i] matches ByteValue::Expr(e) && e is Number && num_of(e) == b[i]),
    ensures plain(st), bytes_of(st) == b,
{
    assert forall|i: int| 0 <= i < r.len() implies byte_item(#[trigger] r[i]) && item_byte(r[i]) == b[i] by { }
    assert(bytes_of(st) =~= b);
}
"""


def types(u, srcs, errors=False):
    u.raw("global size_of usize == 8;", "assumed")
    u.assumed.append("usize has 64 bits")
    u.raw(core.HASHMAP, "assumed")
    u.assumed.append("std HashMap (new, get, contains_key, insert, index) behaves as a finite map")
    core.ev_types(u, srcs)
    isac.add_types(u, srcs)
    u.raw(asm.FOREIGN, "assumed")
    u.dropped.append("the contents of foreign types (PathBuf, io::Error, ImageError, Token, Location)")
    core.items(u, srcs["src/expression.rs"], "enum Arg", "enum Radix") if False else core.items(u, srcs["src/expression.rs"], "enum Arg")
    a = srcs["src/ast.rs"]
    core.items(u, a, "enum ArgType", "enum ByteValue", "enum IncludeHeader", "enum SpriteType", "enum IncludeType", "enum Directive", "enum Statement",
               "struct MacroIdentifier", "struct MacroDefinition", "enum MacroStatement", "struct Statements")
    u.raw("impl KeyView for MacroIdentifier { type KV = MacroIdentifier; open spec fn kv(&self) -> MacroIdentifier { *self } }")
    core.items(u, srcs["src/img.rs"], "struct Color", "struct Frame", "struct Image")
    core.clones(u, "Color", "Statement")
    u.raw("impl Copy for Color {}", "assumed")
    u.raw("impl Span {\n    #[verifier::external_body]\n    pub fn default() -> Span { unimplemented!() }\n}", "assumed")
    u.raw(DATA)
    u.lemmas(DATA_LEMMAS)
    u.raw(COLOR)
    u.raw(SPRITE)


def makers(u, srcs, mode="verify"):
    """The constructors of statements and numbers."""
    e, a = srcs["src/expression.rs"], srcs["src/ast.rs"]
    for n in ("num", "binary", "decimal"):
        u.fn(Fn(e.find("impl Expr", "fn " + n).text), "src/expression.rs: Expr::" + n, impl="impl Expr",
             ens=["r is Number && num_of(r) == num"], mode=mode)
    S = "impl Statement"
    u.fn(Fn(a.find(S, "fn comment").text), "src/ast.rs: Statement::comment", impl=S, ens=["r is Comment"], mode=mode)
    u.fn(Fn(a.find(S, "fn byte").text), "src/ast.rs: Statement::byte", impl=S, mode=mode,
         ens=["r matches Statement::Directive(Directive::Byte(_, v)) && v == exprs"])
    u.fn(Fn(a.find(S, "fn word").text), "src/ast.rs: Statement::word", impl=S, mode=mode,
         ens=["r matches Statement::Directive(Directive::Word(_, v)) && v == exprs"])
    T = "impl Statements"
    u.fn(Fn(a.find(T, "fn new").text), "src/ast.rs: Statements::new", impl=T, mode=mode, ens=["r.statements == statements"])


def iters(text):
    """`for x in &v` and `for x in v` (a reference) are `for x in v.iter()`."""
    for a, b in (("in &self.rows {", "in self.rows.iter() {"), ("in row {", "in row.iter() {"), ("in &self.frames {", "in self.frames.iter() {"),
                 ("in &frame.rows {", "in frame.rows.iter() {")):
        text = text.replace(a, b)
    return text


def c_color(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    C = "impl Color"
    u.fn(Fn(i.find(C, "fn transparency").text), "src/img.rs: Color::transparency", impl=C, mode=mode,
         ens=["r == if clear(*self) { 1u8 } else { 0u8 }"])
    u.fn(Fn(i.find(C, "fn grayscale").text), "src/img.rs: Color::grayscale", impl=C, mode="assume",
         ens=["r.red == gray_of(*self)", "rounded(light(*self), gray_of(*self) as int)"])


def mapped(text):
    """`v.iter().map(f).collect()` is the call vx_map(&v, f) of an assumed function."""
    T = lex(text)
    out, pos, i = [], 0, 0
    while i < len(T) - 8:
        if T[i].k == "id" and [x.s for x in T[i + 1:i + 8]] == [".", "iter", "(", ")", ".", "map", "("]:
            e = match_close(T, i + 7)
            if [x.s for x in T[e + 1:e + 5]] == [".", "collect", "(", ")"]:
                out += [text[pos:T[i].a], "vx_map(&", T[i].s, ", ", text[T[i + 7].b:T[e].a], ")"]
                pos = T[e + 4].b
                i = e + 4
        i += 1
    return "".join(out) + text[pos:]


def c_frame(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    F = "impl Frame"
    u.fn(Fn(i.find(F, "fn size").text), "src/img.rs: Frame::size", impl=F, mode=mode, ens=["r.0 == width_of(*self)", "r.1 == height_of(*self)"])
    u.fn(Fn(i.find(F, "fn height").text), "src/img.rs: Frame::height", impl=F, mode=mode, ens=["r == height_of(*self)"])
    u.fn(Fn(i.find(F, "fn width").text), "src/img.rs: Frame::width", impl=F, mode=mode, ens=["r == width_of(*self)"])
    text = i.find(F, "fn to_1bit_asm").text
    f = Fn(mapped(iters(text)) if mode == "verify" else text)
    if mode == "verify":
        u.rewrites += ["`for x in v` over a reference is `for x in v.iter()`", "`v.iter().map(f).collect()` is the call of an assumed function vx_map(&v, f)"]
        for k in range(len(f.closures)):
            a, b, _, _ = f.closures[k]
            f.closure(k, "|%s: &u8| -> (vx_r: ByteValue) ensures vx_r matches ByteValue::Expr(e) && e is Number && num_of(e) == *%s" % (f.toks[a + 1].s, f.toks[a + 1].s))
        H = "header(*self, include_header)"
        B = {True: H, False: "(%s + (if masked { rows_bytes(self.rows@, true, height_of(*self)) } else { seq![] }))" % H}
        for k, mask in ((0, "true"), (2, "false")):
            m = mask == "true"
            f.loop(k, "it", """                invariant
                    it.seq().len() == self.rows@.len(),
                    writes(stmts@, %s + rows_bytes(self.rows@, %s, it.index() as int)),
""" % (B[m], mask), start="let ghost s0 = stmts@;\nlet ghost k = it.index() as int;\nproof { assert(self.rows@[k] == *row); }",
                   end="""proof {
    let st = stmts@.last();
    assert(stmts@ =~= s0.push(st));
    byte_row(bytes@, be, st);
    push_one(s0, %s + rows_bytes(self.rows@, %s, k), st);
    assert(%s + rows_bytes(self.rows@, %s, k) + bytes@ =~= %s + rows_bytes(self.rows@, %s, k + 1));
}""" % ((B[m], mask) * 3), before="proof { assert(%s + rows_bytes(self.rows@, %s, 0) =~= %s); }" % (B[m], mask, B[m]))
            f.loop(k + 1, "ij", """                    invariant
                        ij.seq().len() == row@.len(), idx == ij.index(), bytes@ == row_bytes(row@, %s, idx as int),
""" % mask, start="proof { assert(row@[idx as int] == *color); assert(row.len() == row@.len()); row_step(row@, %s, idx as int); }" % mask,
                   before="proof { assert(bytes@ =~= row_bytes(row@, %s, 0)); }" % mask)
            f.at("stmts.push(Statement::byte(byte_exprs));", "let ghost be = byte_exprs@;", nth=k // 2)
        f.at("if include_header", """let ghost c0 = stmts@;
proof { writes_none(); let st = c0.last(); assert(c0 =~= seq![].push(st)); push_nothing(seq![], seq![], st); }""")
        f.at("if masked", """proof {
    if include_header {
        let st = stmts@.last();
        assert(stmts@ =~= c0.push(st));
        push_one(c0, seq![], st);
        assert(seq![] + bytes_of(st) =~= %s);
    } else { assert(stmts@ =~= c0); }
}""" % H)
    u.fn(f, "src/img.rs: Frame::to_1bit_asm", impl=F, mode=mode,
         req=["fits(*self, include_header)"], ens=["writes(r.statements@, sprite(*self, masked, include_header))"])


def hoisted(text, srcs):
    """`for s in CALL.iter()` is `let v = CALL; for s in v.statements.iter()` (Statements::iter and as_slice are checked here)."""
    for n, want in (("iter", "self.statements.iter()"), ("as_slice", "self.statements.as_slice()")):
        body = Fn(srcs["src/ast.rs"].find("impl Statements", "fn " + n).text)
        if "".join(x.s for x in body.toks[body.ibody + 1:match_close(body.toks, body.ibody)]) != want:
            raise Lost("Statements::" + n)
    f = Fn(text)
    T = f.toks
    for n, (kind, i, kin, ob, cb) in enumerate(f.loops):
        if kind == "for" and T[ob - 1].s == ")" and T[ob - 2].s == "(" and T[ob - 3].s == "iter" and T[ob - 4].s == "." and T[ob - 5].s == ")":
            f.rep(T[i].a, T[ob - 1].b, "let vx_s%d = %s;\n%s vx_s%d.statements.iter()" % (n, f.text[T[kin].b:T[ob - 5].b], f.text[T[i].a:T[kin].b], n))
        elif kind == "for" and T[ob - 1].s == ")" and T[ob - 2].s == "(" and T[ob - 3].s == "as_slice" and T[ob - 4].s == ".":
            f.rep(T[ob - 3].a, T[ob - 1].b, "statements.iter()")
    return f.render()


APPEND_INV = "{it}.seq().len() == {t}.len(), {d} =~= s0 + {t}.take({it}.index() as int),"


def c_image(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    I = "impl Image"
    u.fn(Fn(i.find(I, "fn width").text), "src/img.rs: Image::width", impl=I, mode=mode, req=["self.frames@.len() > 0"], ens=["r == width_of(self.frames@[0])"])
    u.fn(Fn(i.find(I, "fn height").text), "src/img.rs: Image::height", impl=I, mode=mode, req=["self.frames@.len() > 0"], ens=["r == height_of(self.frames@[0])"])
    text = i.find(I, "fn to_1bit_asm").text
    f = Fn(hoisted(iters(text), srcs) if mode == "verify" else text)
    if mode == "verify":
        u.rewrites.append("`for s in e.iter()` over Statements is `let v = e; for s in v.statements.iter()`")
        f.loop(0, "it", """            invariant
                it.seq().len() == self.frames@.len(),
                forall|i: int| 0 <= i < self.frames@.len() ==> fits(#[trigger] self.frames@[i], include_header),
                writes(stmts@, sprites(self.frames@, masked, include_header, it.index() as int)),
""", start="let ghost s0 = stmts@;\nlet ghost k = it.index() as int;\nproof { assert(self.frames@[k] == *frame); }",
               before="proof { writes_none(); assert(stmts@ =~= seq![]); }",
               end="""proof {
    let t = vx_s1.statements@;
    assert(t.take(t.len() as int) =~= t);
    push_all(s0, sprites(self.frames@, masked, include_header, k), t, sprite(*frame, masked, include_header));
    assert(stmts@ =~= s0 + t);
}""")
        f.loop(1, "ij", """                invariant
                    ij.seq().len() == vx_s1.statements@.len(), stmts@ =~= s0 + vx_s1.statements@.take(ij.index() as int),
""", start="proof { assert(vx_s1.statements@[ij.index() as int] == *stmt); assert(vx_s1.statements@.take(ij.index() + 1) =~= vx_s1.statements@.take(ij.index() as int).push(*stmt)); }")
    u.fn(f, "src/img.rs: Image::to_1bit_asm", impl=I, mode=mode,
         req=["forall|i: int| 0 <= i < self.frames@.len() ==> fits(#[trigger] self.frames@[i], include_header)"],
         ens=["writes(r.statements@, sprites(self.frames@, masked, include_header, self.frames@.len() as int))"])


def build(srcs, gen):
    u = Unit("img_sprite")
    types(u, srcs)
    u.raw(WITH)
    u.lemmas(bit_lemmas())
    u.lemmas(step_lemma())
    u.lemmas(ROWS_LEMMAS)
    makers(u, srcs)
    u.raw(MAPPED, "assumed")
    c_color(u, srcs)
    c_frame(u, srcs)
    c_image(u, srcs)
    return u
