"""Contracts of source lines and token lines (C16)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import core  # noqa: E402
from rustx import Fn, Lost, lex, match_close  # noqa: E402,F401
from vunit import Unit  # noqa: E402

TEXT = """
/// C16: where the line of position pos begins
pub open spec fn line_lo(b: Seq<u8>, pos: int) -> int
    decreases pos
{ if pos <= 0 || b[pos - 1] == 10 { pos } else { line_lo(b, pos - 1) } }
/// a line end: a newline, a carriage return and a newline, or the end of the file
pub open spec fn ends(b: Seq<u8>, k: int) -> bool { k >= b.len() || b[k] == 10 || (k + 1 < b.len() && b[k] == 13 && b[k + 1] == 10) }
/// C16: where the line of position pos ends
pub open spec fn line_hi(b: Seq<u8>, pos: int) -> int
    decreases b.len() - pos
{ if ends(b, pos) { pos } else { line_hi(b, pos + 1) } }
"""

CUT = """
use vstd::utf8::*;
use vstd::string::*;
/// `&t[a..z]`
#[verifier::external_body]
fn vx_cut(t: &str, a: usize, z: usize) -> (r: &str)
    requires a <= z <= t.spec_bytes().len(), is_char_boundary(t.spec_bytes(), a as int), is_char_boundary(t.spec_bytes(), z as int),
    ensures r.spec_bytes() == t.spec_bytes().subrange(a as int, z as int),
{ unimplemented!() }
/// `&t[a..]`
#[verifier::external_body]
fn vx_from(t: &str, a: usize) -> (r: &str)
    requires a <= t.spec_bytes().len(), is_char_boundary(t.spec_bytes(), a as int),
    ensures r.spec_bytes() == t.spec_bytes().subrange(a as int, t.spec_bytes().len() as int),
{ unimplemented!() }
"""


def cuts(u, f, *names):
    """`&t[a..z]` and `&t[a..]` for the strings named: vstd states when they are allowed, but not what they give."""
    T = f.toks
    n = 0
    for i in range(f.ibody, f.iend):
        bare = T[i].s != "&"
        if bare and T[i].s in names and T[i - 1].s not in ("&", ".") and T[i + 1].s == "[" and T[match_close(T, i + 1) + 1].s == ".":
            # `t[a..z].f()`
            i -= 1
        elif bare:
            continue
        if T[i + 1].s in names and T[i + 2].s == "[":
            e = match_close(T, i + 2)
            k = i + 3
            while k < e and T[k].s != "..":
                k = match_close(T, k) + 1 if T[k].s in ("(", "[", "{") else k + 1
            if k == e or k == i + 3:
                continue
            f.rep(T[i + bare].a, T[i + 2].b, ("vx_from(" if k + 1 == e else "vx_cut(") + T[i + 1].s + ", ")
            f.rep(T[k].a, T[k].b, "" if k + 1 == e else ", ")
            f.rep(T[e].a, T[e].b, ")")
            n += 1
    if n:
        u.rewrites.append("%s: `&t[a..z]` on a string becomes a call of a function with the contract of str's Index" % f.name)


TEXT_LEMMAS = """
proof fn lo_in(b: Seq<u8>, pos: int)
    requires 0 <= pos <= b.len(),
    ensures 0 <= line_lo(b, pos) <= pos, line_lo(b, pos) == 0 || b[line_lo(b, pos) - 1] == 10,
        forall|k: int| line_lo(b, pos) <= k < pos ==> b[k] != 10,
    decreases pos,
{
    if pos > 0 && b[pos - 1] != 10 { lo_in(b, pos - 1); }
}
proof fn hi_in(b: Seq<u8>, pos: int)
    requires 0 <= pos <= b.len(),
    ensures pos <= line_hi(b, pos) <= b.len(), ends(b, line_hi(b, pos)),
        forall|k: int| pos <= k < line_hi(b, pos) ==> !ends(b, k),
    decreases b.len() - pos,
{
    if !ends(b, pos) { hi_in(b, pos + 1); }
}
/// an ASCII byte is a character
proof fn at_ascii(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128,
    ensures is_char_boundary(b, i),
{
    is_char_boundary_iff_is_leading_byte(b, i);
}
/// and the next character begins after it
proof fn after_ascii(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128,
    ensures is_char_boundary(b, i + 1),
    decreases b.len(),
{
    at_ascii(b, i);
    is_char_boundary_start_end_of_seq(b);
    reveal_with_fuel(is_char_boundary, 4);
    reveal_with_fuel(valid_utf8, 4);
    if i > 0 {
        valid_utf8_split(b, i);
        after_ascii(pop_first_scalar(b), i - length_of_first_scalar(b));
    }
}
/// a line can be cut out of a text
proof fn line_cut(t: &str, pos: int)
    requires 0 <= pos <= t.spec_bytes().len(),
    ensures
        is_char_boundary(t.spec_bytes(), line_lo(t.spec_bytes(), pos)),
        is_char_boundary(t.spec_bytes(), line_hi(t.spec_bytes(), pos)),
        0 <= line_lo(t.spec_bytes(), pos) <= pos <= line_hi(t.spec_bytes(), pos) <= t.spec_bytes().len(),
{
    let b = t.spec_bytes();
    encode_utf8_valid_utf8(t@);
    assert(b == encode_utf8(t@));
    is_char_boundary_start_end_of_seq(b);
    lo_in(b, pos);
    hi_in(b, pos);
    let a = line_lo(b, pos);
    let z = line_hi(b, pos);
    if a > 0 { after_ascii(b, a - 1); }
    if z < b.len() { at_ascii(b, z); }
}
"""

GROUPS = """
pub open spec fn first_line(t: Token) -> usize { t.span.end.line }
pub open spec fn first_file(t: Token) -> FileID { t.span.end.file }
/// token k starts, in the same file, on the line on which token s ends
pub open spec fn with(t: Seq<Token>, s: int, k: int) -> bool {
    t[k].span.start.line == t[s].span.end.line && t[k].span.start.file == t[s].span.end.file
}
/// C16: the end of the longest run of such tokens, the run being known up to k
pub open spec fn run_end(t: Seq<Token>, s: int, k: int) -> int
    decreases t.len() - k
{ if k < t.len() && with(t, s, k) { run_end(t, s, k + 1) } else { k } }
/// the group that starts at s
pub open spec fn group_end(t: Seq<Token>, s: int) -> int { run_end(t, s, s + 1) }
/// the groups of the tokens from s on
pub open spec fn groups(t: Seq<Token>, s: int) -> Seq<Seq<Token>>
    decreases t.len() - s
{
    if s < 0 || s >= t.len() || !(s < group_end(t, s) <= t.len()) { seq![] }
    else { seq![t.subrange(s, group_end(t, s))] + groups(t, group_end(t, s)) }
}
pub open spec fn flat(g: Seq<Seq<Token>>) -> Seq<Token>
    decreases g.len()
{ if g.len() == 0 { seq![] } else { g[0] + flat(g.drop_first()) } }
"""

GROUP_LEMMAS = """
proof fn run_in(t: Seq<Token>, s: int, k: int)
    requires 0 <= s < k <= t.len(),
    ensures k <= run_end(t, s, k) <= t.len(),
        forall|j: int| k <= j < run_end(t, s, k) ==> with(t, s, j),
        run_end(t, s, k) < t.len() ==> !with(t, s, run_end(t, s, k)),
    decreases t.len() - k,
{
    if k < t.len() && with(t, s, k) { run_in(t, s, k + 1); }
}
/// C16: taking the groups one by one gives every token exactly once, in order
proof fn groups_cover(t: Seq<Token>, s: int)
    requires 0 <= s <= t.len(),
    ensures flat(groups(t, s)) == t.subrange(s, t.len() as int),
        forall|k: int| 0 <= k < groups(t, s).len() ==> (#[trigger] groups(t, s)[k]).len() > 0,
    decreases t.len() - s,
{
    if s < t.len() {
        run_in(t, s, s + 1);
        let e = group_end(t, s);
        groups_cover(t, e);
        let g = groups(t, s);
        assert(g.drop_first() =~= groups(t, e));
        assert(g[0] == t.subrange(s, e));
        assert(t.subrange(s, e) + t.subrange(e, t.len() as int) =~= t.subrange(s, t.len() as int));
        assert forall|k: int| 0 <= k < g.len() implies (#[trigger] g[k]).len() > 0 by { if k > 0 { assert(g[k] == groups(t, e)[k - 1]); } }
    } else {
        assert(t.subrange(s, t.len() as int) =~= seq![]);
    }
}
"""

LIB = "src/lib.rs"
PAR = "src/parser.rs"
LOC = "src/location.rs"
LEX = "src/lexer.rs"


def build_text(srcs, gen):
    u = Unit("lines_text")
    u.raw(CUT, "assumed")
    u.assumed.append("what `&t[a..z]` gives on a string (vstd states only when it is allowed, which is proved)")
    u.raw(TEXT)
    u.lemmas(TEXT_LEMMAS)
    lib = srcs[LIB]
    pre = ["pos <= text.spec_bytes().len()"]
    f = Fn(lib.find("fn start_of_line").text)
    f.loop(0, inv="    invariant loc <= pos, pos <= bytes@.len(), bytes@ == text.spec_bytes(),\n"
                  "        line_lo(bytes@, loc as int) == line_lo(bytes@, pos as int),\n    decreases loc,")
    u.fn(f, LIB + ": start_of_line", req=pre, ens=["r == line_lo(text.spec_bytes(), pos as int)"])
    f = Fn(lib.find("fn end_of_line").text)
    f.loop(0, inv="    invariant pos <= loc <= bytes@.len(), bytes@ == text.spec_bytes(),\n"
                  "        line_hi(bytes@, loc as int) == line_hi(bytes@, pos as int),\n    decreases bytes@.len() - loc,")
    u.fn(f, LIB + ": end_of_line", req=pre, ens=["r == line_hi(text.spec_bytes(), pos as int)"])
    f = Fn(lib.find("fn line_for_pos").text)
    cuts(u, f, "text")
    f.body_start("    proof { line_cut(text, pos as int); }")
    u.fn(f, LIB + ": line_for_pos", req=pre,
         ens=["r.spec_bytes() == text.spec_bytes().subrange(line_lo(text.spec_bytes(), pos as int), line_hi(text.spec_bytes(), pos as int))"])
    return u


def build_tokens(srcs, gen):
    u = Unit("lines_tokens")
    loc, par, lexer = srcs[LOC], srcs[PAR], srcs[LEX]
    u.raw("pub enum TokenType { Any }")
    u.dropped.append("the kinds of tokens (TokenType): the functions of this unit never look at them")
    core.items(u, srcs["src/files.rs"], "struct FileID")
    u.raw("impl Copy for FileID { }")
    core.clones(u, "FileID")
    u.raw("impl PartialEq for FileID {\n    #[verifier::external_body]\n    fn eq(&self, other: &FileID) -> bool { unimplemented!() }\n}\n"
          "impl vstd::std_specs::cmp::PartialEqSpecImpl for FileID {\n"
          "    open spec fn obeys_eq_spec() -> bool { true }\n"
          "    open spec fn eq_spec(&self, other: &FileID) -> bool { *self == *other }\n}", "assumed")
    u.assumed.append("derived PartialEq of FileID is equality")
    core.items(u, loc, "struct Location", "struct Span")
    core.items(u, lexer, "struct Token")
    u.raw(GROUPS)
    u.lemmas(GROUP_LEMMAS)
    for n, e in (("file", "self.file"), ("line", "self.line")):
        u.fn(Fn(loc.find("impl Location", "fn " + n).text), LOC + ": Location::" + n, impl="impl Location", ens=["r == " + e])
    for n, e in (("start", "self.start"), ("end", "self.end")):
        u.fn(Fn(loc.find("impl Span", "fn " + n).text), LOC + ": Span::" + n, impl="impl Span", ens=["*r == " + e])
    u.fn(Fn(lexer.find("impl Token", "fn span").text), LEX + ": Token::span", impl="impl Token", ens=["*r == self.span"])
    t = core.strip_item(par.find("struct LineIterator").text)
    u.item("pub " + core.pub_fields(t), PAR + ": struct LineIterator")
    f = Fn(par.find("impl<'a> Iterator for LineIterator<'a>", "fn next").text)
    f.loop(0, inv="    invariant self.tokens == old(self).tokens, self.pos == old(self).pos, start == self.pos, self.pos < end <= self.tokens@.len(),\n"
                  "        start_line == first_line(self.tokens@[start as int]), start_file == first_file(self.tokens@[start as int]),\n"
                  "        run_end(self.tokens@, start as int, end as int) == group_end(self.tokens@, start as int),\n"
                  "    decreases self.tokens@.len() - end,")
    u.rewrites.append("LineIterator::next stands in an inherent impl (Self::Item is not used in it)")
    u.fn(f, PAR + ": LineIterator::next", impl="impl<'a> LineIterator<'a>",
         ens=["final(self).tokens == old(self).tokens",
              "old(self).pos >= old(self).tokens@.len() ==> r is None && final(self).pos == old(self).pos",
              "old(self).pos < old(self).tokens@.len() ==> r is Some && final(self).pos == group_end(old(self).tokens@, old(self).pos as int)"
              " && r->0@ == old(self).tokens@.subrange(old(self).pos as int, group_end(old(self).tokens@, old(self).pos as int))"])
    f = Fn(par.find("fn lines").text)
    f.replace("impl Iterator<Item = &[Token]>", "LineIterator<'_>", 1)
    u.rewrites.append("the return type of lines, `impl Iterator`, is written as the type it returns")
    u.fn(f, PAR + ": lines", ens=["r.pos == 0", "r.tokens@ == tokens@"])
    return u
