"""Contracts of cutting a source text into tokens (C20)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import core  # noqa: E402
import lines  # noqa: E402
from rustx import Fn, Lost, lex, match_close  # noqa: E402,F401
from vunit import Unit  # noqa: E402

INP = "src/input.rs"
LEX = "src/lexer.rs"
CPP = "src/cheader.rs"
LOC = "src/location.rs"
LIM = "0x7fff_ffff_ffff_ffff"

FOREIGN = """
/// stands for regex::Regex; the expressions of the lexer all begin with ^
#[verifier::external_body]
pub struct Regex { x: u8 }
/// how many bytes of the beginning of s the expression matches
pub uninterp spec fn matched(r: Regex, s: Seq<u8>) -> Option<nat>;
#[verifier::external_body]
pub struct CaptureMatches<'r, 't> { r: &'r Regex, t: &'t str }
#[verifier::external_body]
pub struct Captures<'t> { t: &'t str }
impl<'t> Captures<'t> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    /// `&cap[0]`
    #[verifier::external_body]
    pub fn vx_all(&self) -> (r: &'t str)
        ensures r.spec_bytes() == self.bytes(),
    { unimplemented!() }
}
impl Regex {
    /// `captures_iter(t).next()`
    #[verifier::external_body]
    pub fn vx_captures<'t>(&self, t: &'t str) -> (r: Option<Captures<'t>>)
        ensures match matched(*self, t.spec_bytes()) {
            Some(k) => r is Some && r->0.bytes() == t.spec_bytes().take(k as int) && 0 < k <= t.spec_bytes().len() && is_char_boundary(t.spec_bytes(), k as int),
            None => r is None,
        },
    { unimplemented!() }
}
/// `^\\s+`
pub uninterp spec fn space() -> Regex;
#[verifier::external_body]
pub fn vx_space() -> (r: &'static Regex)
    ensures *r == space(),
{ unimplemented!() }
/// stands for the crate unicode_segmentation
#[verifier::external_body]
pub struct Graphemes<'a> { t: &'a str }
impl<'a> Graphemes<'a> {
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(t) => t.spec_bytes().len() > 0 && old(self).rest() == t.spec_bytes() + final(self).rest()
                && (forall|i: int| 0 <= i < t.spec_bytes().len() && #[trigger] t.spec_bytes()[i] == 10 ==> newline(t.spec_bytes())),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        },
    { unimplemented!() }
}
#[allow(non_snake_case)]
mod UnicodeSegmentation {
    use super::*;
    #[verifier::external_body]
    pub fn graphemes<'a>(t: &'a str, extended: bool) -> (r: Graphemes<'a>)
        ensures r.rest() == t.spec_bytes(),
    { unimplemented!() }
}
pub open spec fn newline(s: Seq<u8>) -> bool { s == seq![10u8] || s == seq![13u8, 10u8] }
/// `t == "\\n"`, `t == "\\r\\n"`
#[verifier::external_body]
pub fn vx_is(t: &str, crlf: bool) -> (r: bool)
    ensures r == (t.spec_bytes() == if crlf { seq![13u8, 10u8] } else { seq![10u8] }),
{ unimplemented!() }
/// `t[k..].starts_with(..)` of two ASCII characters
#[verifier::external_body]
pub fn vx_two(t: &str, k: usize, x: u8, y: u8) -> (r: bool)
    requires k <= t.spec_bytes().len(),
    ensures r == (k + 1 < t.spec_bytes().len() && t.spec_bytes()[k as int] == x && t.spec_bytes()[k + 1] == y),
{ unimplemented!() }
/// `usize::min`, `std::cmp::min`
pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
/// stands for `fn(&str) -> TokenType`; none of those in the table gives an end of file
#[verifier::external_body]
pub struct VxAlways { x: u8 }
impl VxAlways {
    #[verifier::external_body]
    fn vx_call(&self, t: &str) -> (r: TokenType)
        ensures !(r is EOF),
    { unimplemented!() }
}
/// stands for `fn(&str) -> Option<TokenType>`
#[verifier::external_body]
pub struct VxMaybe { x: u8 }
pub uninterp spec fn too_big(c: VxMaybe, s: Seq<u8>) -> bool;
impl VxMaybe {
    #[verifier::external_body]
    fn vx_call(&self, t: &str) -> (r: Option<TokenType>)
        ensures r is None <==> too_big(*self, t.spec_bytes()), r is Some ==> !(r->0 is EOF),
    { unimplemented!() }
}
"""

TABLE = """
/// the table of tokens
uninterp spec fn matchers() -> Seq<Matcher>;
#[verifier::external_body]
fn vx_matchers() -> (r: &'static Vec<Matcher>)
    ensures r@ == matchers(),
{ unimplemented!() }
"""

SPEC = """
/// the number of newlines before position p
pub open spec fn newlines(b: Seq<u8>, p: int) -> int
    decreases p
{ if p <= 0 { 0 } else { newlines(b, p - 1) + (if b[p - 1] == 10 { 1int } else { 0 }) } }
impl<'b> Input<'b> {
    pub open spec fn b(&self) -> Seq<u8> { self.text.spec_bytes() }
    pub open spec fn rest(&self) -> Seq<u8> { self.b().subrange(self.pos as int, self.b().len() as int) }
}
/// an input stands between two characters, and its line is that of its position
pub open spec fn fine(i: Input) -> bool {
    i.pos <= i.b().len() <= %(lim)s && is_char_boundary(i.b(), i.pos as int) && i.line == 1 + newlines(i.b(), i.pos as int) && i.column <= i.pos
}
pub open spec fn here(i: Input, l: Location) -> bool { l == (Location { file: i.name, pos: i.pos, line: i.line, column: i.column }) }
pub open spec fn same_text(i: Input, j: Input) -> bool { i.b() == j.b() && i.name == j.name }
pub open spec fn rest_of(b: Seq<u8>, p: int) -> Seq<u8> { b.subrange(p, b.len() as int) }
/// the length of the white space at p
pub open spec fn white(b: Seq<u8>, p: int) -> int { match matched(space(), rest_of(b, p)) { Some(k) => k as int, None => 0 } }
/// where a comment that begins at p ends
%(comment)s
/// white space or a comment
pub open spec fn piece(b: Seq<u8>, m: int, z: int) -> bool { z == m + white(b, m) || comment(b, m) == Some(z) }
/// C20: from a to z there is nothing but white space and comments
pub open spec fn gap(b: Seq<u8>, a: int, z: int) -> bool
    decreases z - a
{ a == z || exists|m: int| a <= m < z && gap(b, a, m) && #[trigger] piece(b, m, z) }
/// C20: and no more of them follow
pub open spec fn still(b: Seq<u8>, z: int) -> bool { white(b, z) == 0 && comment(b, z) is None }
/// the end of the token at p: the first of the table that fits
spec fn pick(ms: Seq<Matcher>, k: int, b: Seq<u8>, p: int) -> Option<int>
    decreases ms.len() - k
{
    if k < 0 || k >= ms.len() { None }
    else { match matched(ms[k].regex, rest_of(b, p)) {
        Some(n) => match ms[k].convert { Convert::Number(c) => if too_big(c, rest_of(b, p).take(n as int)) { None } else { Some(p + n) }, _ => Some(p + n) },
        None => pick(ms, k + 1, b, p),
    } }
}
spec fn lexeme(b: Seq<u8>, p: int) -> Option<int> { pick(matchers(), 0, b, p) }
/// C20: a location says where it is
pub open spec fn at(b: Seq<u8>, n: FileID, l: Location) -> bool { l.file == n && l.line == 1 + newlines(b, l.pos as int) }
/// C20: t is the next token after position e
spec fn token_at(b: Seq<u8>, n: FileID, e: int, t: Token) -> bool {
    let p = t.span.start.pos as int;
    gap(b, e, p) && still(b, p) && 0 <= p < b.len() && lexeme(b, p) == Some(t.span.end.pos as int) && p < t.span.end.pos <= b.len()
        && at(b, n, t.span.start) && at(b, n, t.span.end) && !(t.token_type is EOF)
}
spec fn end_of(a: int, ts: Seq<Token>) -> int { if ts.len() == 0 { a } else { ts.last().span.end.pos as int } }
/// C20: ts are the tokens from position a on, one after the other, with nothing left out
spec fn tokens(b: Seq<u8>, n: FileID, a: int, ts: Seq<Token>) -> bool
    decreases ts.len()
{ ts.len() == 0 || tokens(b, n, a, ts.drop_last()) && token_at(b, n, end_of(a, ts.drop_last()), ts.last()) }
/// C20: ... up to the end of the text
spec fn whole(b: Seq<u8>, n: FileID, a: int, ts: Seq<Token>) -> bool {
    ts.len() > 0 && ts.last().token_type is EOF && tokens(b, n, a, ts.drop_last()) && gap(b, end_of(a, ts.drop_last()), b.len() as int)
}
/// C20: nothing that could be a token stands at l, which is where the tokens before it end
spec fn stuck(b: Seq<u8>, n: FileID, a: int, ts: Seq<Token>, l: Location) -> bool {
    tokens(b, n, a, ts) && gap(b, end_of(a, ts), l.pos as int) && still(b, l.pos as int) && l.pos < b.len() && lexeme(b, l.pos as int) is None && at(b, n, l)
}
spec fn rejected(b: Seq<u8>, n: FileID, a: int, l: Location) -> bool { exists|ts: Seq<Token>| #[trigger] stuck(b, n, a, ts, l) }
"""

ASM_COMMENT = """pub open spec fn comment(b: Seq<u8>, p: int) -> Option<int> {
    if 0 <= p < b.len() && (b[p] == 59 || (b[p] == 42 && (p == 0 || b[p - 1] == 10))) { Some(line_hi(b, p)) } else { None }
}"""

C_COMMENT = """pub open spec fn comment(b: Seq<u8>, p: int) -> Option<int> {
    if 0 <= p && two(b, p, 47, 47) { Some(line_hi(b, p)) } else if 0 <= p && two(b, p, 47, 42) { Some(block(b, p + 2)) } else { None }
}
pub open spec fn two(b: Seq<u8>, p: int, x: u8, y: u8) -> bool { p + 1 < b.len() && b[p] == x && b[p + 1] == y }
/// just after the next */, or the end of the text
pub open spec fn block(b: Seq<u8>, p: int) -> int
    decreases b.len() - p
{ if p >= b.len() { b.len() as int } else if two(b, p, 42, 47) { p + 2 } else { block(b, p + 1) } }"""

LEMMAS = """
broadcast proof fn newlines_in(b: Seq<u8>, p: int)
    requires 0 <= p,
    ensures 0 <= #[trigger] newlines(b, p) <= p,
    decreases p,
{ if p > 0 { newlines_in(b, p - 1); } }
/// positions of a part of a text
proof fn boundary_in(b: Seq<u8>, p: int, k: int)
    requires valid_utf8(b), 0 <= p <= b.len(), is_char_boundary(b, p), 0 <= k <= b.len() - p, is_char_boundary(rest_of(b, p), k),
    ensures is_char_boundary(b, p + k),
    decreases b.len(),
{
    if p == 0 {
        assert(rest_of(b, 0) =~= b);
    } else {
        reveal_with_fuel(is_char_boundary, 4);
        reveal_with_fuel(valid_utf8, 4);
        let n = length_of_first_scalar(b);
        let c = pop_first_scalar(b);
        assert(rest_of(c, p - n) =~= rest_of(b, p));
        boundary_in(c, p - n, k);
    }
}
proof fn text_valid(t: &str)
    ensures valid_utf8(t.spec_bytes()), is_char_boundary(t.spec_bytes(), 0), is_char_boundary(t.spec_bytes(), t.spec_bytes().len() as int),
{
    encode_utf8_valid_utf8(t@);
    assert(t.spec_bytes() == encode_utf8(t@));
    is_char_boundary_start_end_of_seq(t.spec_bytes());
}
/// a grapheme is not a newline, or it is the only one
proof fn counted(b: Seq<u8>, p: int, s: Seq<u8>)
    requires 0 <= p, p + s.len() <= b.len(), s.len() > 0, s == b.subrange(p, p + s.len()),
        forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == 10 ==> newline(s),
    ensures newlines(b, p + s.len()) == newlines(b, p) + if newline(s) { 1int } else { 0 },
{
    assert forall|i: int| 0 <= i < s.len() implies s[i] == #[trigger] b[p + i] by {}
    if newline(s) {
        assert(b[p + 0] == s[0]);
        if s.len() == 2 { assert(b[p + 1] == s[1]); reveal_with_fuel(newlines, 3); }
    } else {
        plain(b, p, s, s.len() as int);
    }
}
proof fn plain(b: Seq<u8>, p: int, s: Seq<u8>, k: int)
    requires 0 <= p, p + s.len() <= b.len(), 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> s[i] == #[trigger] b[p + i], forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 10,
    ensures newlines(b, p + k) == newlines(b, p),
    decreases k,
{
    if k > 0 { plain(b, p, s, k - 1); assert(b[p + (k - 1)] == s[k - 1]); }
}
/// the end of a line is a place between characters
proof fn line_end(b: Seq<u8>, p: int)
    requires valid_utf8(b), 0 <= p <= b.len(),
    ensures p <= line_hi(b, p) <= b.len(), is_char_boundary(b, line_hi(b, p)), p < b.len() && b[p] != 10 && b[p] != 13 ==> line_hi(b, p) > p,
{
    if p < b.len() { hi_in(b, p + 1); }
    is_char_boundary_start_end_of_seq(b);
    hi_in(b, p);
    if line_hi(b, p) < b.len() { at_ascii(b, line_hi(b, p)); }
}
broadcast proof fn gap_more(b: Seq<u8>, a: int, m: int, z: int)
    requires #[trigger] gap(b, a, m), a <= m <= z, #[trigger] piece(b, m, z),
    ensures gap(b, a, z),
{ order(b, a, m); }
proof fn order(b: Seq<u8>, a: int, z: int)
    requires gap(b, a, z),
    ensures a <= z,
    decreases z - a,
{
    if a != z { let k = choose|k: int| a <= k < z && gap(b, a, k) && #[trigger] piece(b, k, z); }
}
"""

UNIQUE = """
/// `^\\s+` takes all the white space there is, and the characters that begin comments are none
axiom fn all_white(b: Seq<u8>, p: int)
    requires 0 <= p <= b.len(),
    ensures white(b, p) > 0 ==> p + white(b, p) <= b.len() && white(b, p + white(b, p)) == 0 && comment(b, p) is None;
proof fn first_piece(b: Seq<u8>, a: int, m: int, z: int)
    requires 0 <= a < z <= b.len(), a < m, piece(b, a, m), gap(b, a, z), m <= b.len(),
    ensures gap(b, m, z),
    decreases z - a,
{
    all_white(b, a);
    let k = choose|k: int| a <= k < z && gap(b, a, k) && #[trigger] piece(b, k, z);
    if k == a {
        assert(m == z);
    } else {
        first_piece(b, a, m, k);
        assert(gap(b, m, k) && piece(b, k, z));
        if m > k { order(b, m, k); }
        if k < m { }
    }
}
/// there is one place where white space and comments end
proof fn one_end(b: Seq<u8>, a: int, z: int, p: int)
    requires 0 <= a, gap(b, a, z), gap(b, a, p), still(b, p), 0 <= p <= b.len(), z <= b.len(),
    ensures gap(b, z, p),
    decreases z - a,
{
    order(b, a, p);
    order(b, a, z);
    if a != z {
        let m = choose|m: int| a <= m < z && gap(b, a, m) && #[trigger] piece(b, m, z);
        one_end(b, a, m, p);
        order(b, m, p);
        first_piece(b, m, z, p);
    }
}
proof fn same_end(b: Seq<u8>, a: int, z: int, p: int)
    requires 0 <= a, gap(b, a, z), gap(b, a, p), still(b, p), still(b, z), 0 <= p <= b.len(), 0 <= z <= b.len(),
    ensures z == p,
{
    one_end(b, a, z, p);
    one_end(b, a, p, z);
    order(b, z, p);
    order(b, p, z);
}
"""

C_LEMMAS = """
proof fn block_in(b: Seq<u8>, p: int)
    requires valid_utf8(b), 0 <= p <= b.len(),
    ensures p <= block(b, p) <= b.len(), is_char_boundary(b, block(b, p)),
    decreases b.len() - p,
{
    is_char_boundary_start_end_of_seq(b);
    if p < b.len() {
        if two(b, p, 42, 47) { after_ascii(b, p + 1); } else { block_in(b, p + 1); }
    }
}
"""


def parts(u, f):
    """`&x.y[a..z]`, `&x.y[a..]`, `x.as_bytes()[k..].starts_with(b"..")`, `x.starts_with("..")`, `x == "\\n"`, `&cap[0]`."""
    T = f.toks
    i = f.ibody
    while i < f.iend:
        if T[i].s == "&" and T[i + 1].k == "id" and T[i + 1].s != "mut":
            k = i + 2
            while T[k].s == "." and T[k + 1].k == "id" and T[k + 2].s != "(":
                k += 2
            if T[k].s == "[" and k > i + 2 - (T[k].s == "["):
                e = match_close(T, k)
                d = k + 1
                while d < e and T[d].s != "..":
                    d = match_close(T, d) + 1 if T[d].s in ("(", "[", "{") else d + 1
                if d < e and d > k + 1:
                    f.rep(T[i].a, T[k].b, ("vx_from(" if d + 1 == e else "vx_cut(") + f.text[T[i + 1].a:T[k].a] + ", ")
                    f.rep(T[d].a, T[d].b, "" if d + 1 == e else ", ")
                    f.rep(T[e].a, T[e].b, ")")
                    i = k + 1
                    continue
        s = [t.s for t in T[i:i + 16]]
        if T[i].k == "id" and s[1:5] == [".", "as_bytes", "(", ")"] and s[5] == "[":
            e = match_close(T, i + 5)
            if T[e - 1].s == ".." and T[e + 1].s == "." and T[e + 2].s == "starts_with":
                f.rep(T[i].a, T[match_close(T, e + 3)].b, "vx_two(%s, %s, %s)" % (s[0], f.text[T[i + 6].a:T[e - 1].a], two(f, T[e + 4].s)))
                i = e + 4
                continue
        if T[i].k == "id" and s[1:4] == [".", "starts_with", "("] and T[i + 4].k == "str":
            f.rep(T[i].a, T[i + 5].b, "vx_two(%s, 0, %s)" % (s[0], two(f, s[4])))
            i += 5
            continue
        if T[i].k == "id" and s[1] in ("==", "!=") and s[2] in ('"\\n"', '"\\r\\n"'):
            f.rep(T[i].a, T[i + 2].b, "%svx_is(%s, %s)" % ("!" if s[1] == "!=" else "", s[0], "true" if "r" in s[2] else "false"))
            i += 3
            continue
        if s[:5] in (["text", ".", "len", "(", ")"], ["capture", ".", "len", "(", ")"]):
            f.ins(T[i].b, ".as_bytes()")
            i += 5
            continue
        if s[:5] == ["&", "cap", "[", "0", "]"]:
            f.rep(T[i].a, T[i + 4].b, "cap.vx_all()")
            i += 5
            continue
        if s[:4] == ["cap", "[", "0", "]"]:
            f.rep(T[i].a, T[i + 3].b, "cap.vx_all()" + (".as_bytes()" if s[4:6] == [".", "len"] else ""))
            i += 4
            continue
        if s[1:4] == ["::", "min", "("] and s[0] in ("usize", "cmp"):
            k = i - 2 if T[i - 1].s == "::" else i
            f.rep(T[k].a, T[i + 2].b, "vx_min")
            i += 3
            continue
        if s[:2] == [".", "captures_iter"]:
            e = match_close(T, i + 2)
            if [t.s for t in T[e + 1:e + 5]] != [".", "next", "(", ")"]:
                raise Lost("%s: captures_iter" % f.name)
            f.rep(T[i].a, T[i + 1].b, ".vx_captures")
            f.rep(T[e + 1].a, T[e + 4].b, "")
        i += 1


def two(f, lit):
    t = lit.lstrip("b")[1:-1]
    if len(t) != 2 or "\\" in t or not t.isascii():
        raise Lost("%s: starts_with %s" % (f.name, lit))
    return ", ".join("%du8" % ord(c) for c in t)


def static(text, name):
    """The text without its lazy_static block, and that block."""
    m = re.search(r"lazy_static!\s*\{", text)
    if not m:
        raise Lost("%s: lazy_static" % name)
    T = lex(text)
    i = next(k for k in range(len(T)) if T[k].a == m.start())
    e = match_close(T, i + 2)
    end = T[e].b
    return text[:m.start()] + text[end:], text[m.start():end]


def skipper(u, f, I):
    f.loop(0, inv="    invariant fine(current), same_text(current, *%s), %s.pos <= current.pos, gap(current.b(), %s.pos as int, current.pos as int),\n"
                  "        !first ==> last_pos <= current.pos, first ==> last_pos == 0,\n"
                  "        !first && last_pos == current.pos ==> still(current.b(), current.pos as int),\n"
                  "    decreases current.b().len() - last_pos + (if first { 1int } else { 0 })," % (I, I, I),
           start="broadcast use gap_more; let ghost vx_b = current.b(); let ghost vx_m = current.pos as int; let ghost vx_w = vx_m + white(vx_b, vx_m);")


MOVED = ["input.pos <= r.pos", "r.pos == input.pos || piece(r.b(), input.pos as int, r.pos as int)"]
SKIP = ["fine(r)", "same_text(r, *input)", "input.pos <= r.pos", "gap(r.b(), input.pos as int, r.pos as int)", "still(r.b(), r.pos as int)"]


def build_for(srcs, c):
    u = Unit("lexing_c" if c else "lexing")
    inp, lexer, loc, cpp = srcs[INP], srcs[LEX], srcs[LOC], srcs[CPP]
    u.raw("global size_of usize == 8;", "assumed")
    u.raw(lines.CUT, "assumed")
    u.assumed.append("usize has 64 bits, and a source text at most 2^63 - 1 bytes")
    u.assumed.append("what `&t[a..z]` gives on a string (vstd states only when it is allowed, which is proved)")
    u.raw("#[derive(PartialEq, Eq)]\npub enum TokenType { EOF, Other }")
    u.dropped.append("the kinds of tokens but for the end of file: the functions of this unit do not look at them")
    core.items(u, srcs["src/files.rs"], "struct FileID")
    u.raw("impl Copy for FileID { }")
    core.clones(u, "FileID")
    core.items(u, loc, "struct Location", "struct Span")
    core.items(u, lexer, "struct Token", "enum LexerError")
    core.clones(u, "Location", "Span", "Token")
    core.items(u, inp, "struct Input")
    u.raw("impl<'b> Clone for Input<'b> {\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self)\n        ensures r == *self,\n    { unimplemented!() }\n}", "assumed")
    u.raw("impl vstd::std_specs::cmp::PartialEqSpecImpl for TokenType {\n    open spec fn obeys_eq_spec() -> bool { true }\n"
          "    open spec fn eq_spec(&self, o: &TokenType) -> bool { *self == *o }\n}", "assumed")
    u.raw(FOREIGN, "assumed")
    u.assumed.append("regex: a match is a non-empty beginning of the text that ends between characters (the expressions begin with ^); what each of them matches is left open")
    u.assumed.append("unicode_segmentation: graphemes are not empty, are the text when put together, and one that has a newline is a line end")
    u.assumed.append("no conversion of the table gives an end of file (there is no TokenType::EOF in it: checked on the text)")
    # the table
    for n in ("new", "number"):
        t = lexer.find("impl Matcher", "fn " + n).text
        if '("^".to_owned() + re)' not in t:
            raise Lost("Matcher::%s: ^" % n)
    t = core.strip_item(lexer.find("enum Convert").text)
    for a, b in (("fn(&str) -> TokenType", "VxAlways"), ("fn(&str) -> Option<TokenType>", "VxMaybe")):
        if a not in t:
            raise Lost("enum Convert")
        t = t.replace(a, b)
    u.item(t, LEX + ": enum Convert")
    core.items(u, lexer, "struct Matcher")
    u.rewrites.append("a function pointer is a type with a method vx_call; `captures_iter(..).next()`, `&cap[0]`, comparisons with text are functions with contracts; "
                      "lazy_static statics are functions that give them; the parameter skip_ws is the function that is passed for it")
    u.raw(TABLE, "assumed")
    u.raw(lines.TEXT)
    u.raw(SPEC % dict(lim=LIM, comment=C_COMMENT if c else ASM_COMMENT))
    u.lemmas(lines.TEXT_LEMMAS)
    u.lemmas(LEMMAS)
    u.lemmas(UNIQUE)
    u.assumed.append('`^\\s+` takes all the white space there is; ; * and / are no white space')
    if c:
        u.lemmas(C_LEMMAS)
    # locations
    u.fn(Fn(loc.find("impl Location", "fn new").text), LOC + ": Location::new", impl="impl Location",
         ens=["r == (Location { file, pos, line, column })"])
    u.fn(Fn(loc.find("impl Span", "fn new").text), LOC + ": Span::new", impl="impl Span", ens=["r == (Span { start, end, parent: None })"])
    u.fn(Fn(lexer.find("impl Token", "fn new").text), LEX + ": Token::new", impl="impl Token", ens=["r == (Token { token_type, span })"])
    I = "impl<'b> Input<'b>"
    sup = lambda n: inp.find("impl<'b> Input<'b>", "fn " + n)
    f = Fn(sup("new").text)
    f.body_start("proof { text_valid(text); }")
    u.fn(f, INP + ": Input::new", impl=I, req=["text.spec_bytes().len() <= " + LIM], ens=["fine(r)", "r.pos == 0", "r.text == text", "r.name == name"])
    for n, e in (("eof", "r == (self.pos >= self.b().len())"), ("pos", "r == self.pos"), ("location", "here(*self, r)")):
        f = Fn(sup(n).text)
        parts(u, f)
        u.fn(f, INP + ": Input::" + n, impl=I, ens=[e])
    u.rewrites.append("`text.len()` of a string is `text.as_bytes().len()`")
    f = Fn(sup("start_of_line").text)
    u.fn(f, INP + ": Input::start_of_line", impl=I, req=["fine(*self)"], ens=["r == (self.pos == 0 || self.b()[self.pos - 1] == 10)"])
    f = Fn(sup("as_str").text)
    parts(u, f)
    u.fn(f, INP + ": Input::as_str", impl=I, req=["fine(*self)"], ens=["r.spec_bytes() == self.rest()"])
    # update
    f = Fn(sup("update").text)
    f.body_start("broadcast use newlines_in; proof { text_valid(self.text); }")
    parts(u, f)
    f.loop(0, inv="    invariant same_text(input, *self), input.text == self.text, self.pos <= input.pos <= end <= input.b().len() <= %s, input.b().subrange(input.pos as int, end as int) == graphemes.rest(),\n"
                  "        input.line == 1 + newlines(input.b(), input.pos as int), input.column <= input.pos, end == (if self.pos + num_bytes <= self.b().len() { self.pos + num_bytes } else { self.b().len() as int }),\n"
                  "    ensures input.pos == end,\n    decreases graphemes.rest().len()," % LIM,
           start="broadcast use newlines_in; let ghost vx_g = graphemes.rest(); let ghost vx_p = input.pos as int;")
    i = next(k for k in range(f.ibody, f.iend) if [t.s for t in f.toks[k:k + 5]] == ["Some", "(", "text", ")", "=>"])
    if f.toks[i + 5].s != "{":
        raise Lost("Input::update: arm")
    f.ins(f.toks[i + 5].b, " proof { let s = text.spec_bytes(); assert(s =~= vx_g.subrange(0, s.len() as int)); assert(s =~= input.b().subrange(vx_p, vx_p + s.len())); "
                           "counted(input.b(), vx_p, s); assert(graphemes.rest() =~= vx_g.subrange(s.len() as int, vx_g.len() as int)); "
                           "assert(input.b().subrange(vx_p + s.len(), end as int) =~= graphemes.rest()); } ")
    u.fn(f, INP + ": Input::update", impl=I,
         req=["fine(*self)", "num_bytes <= " + LIM,
              "self.pos + num_bytes <= self.b().len() ==> is_char_boundary(self.b(), self.pos + num_bytes)"],
         ens=["fine(r)", "same_text(r, *self)", "r.pos == (if self.pos + num_bytes <= self.b().len() { self.pos + num_bytes } else { self.b().len() as int })"])
    t, blk = static(sup("skip_whitespace").text, "skip_whitespace")
    m = re.search(r'static\s+ref\s+(\w+)\s*:\s*Regex\s*=\s*Regex::new\(r"\^\\s\+"\)\.unwrap\(\);', blk)
    if not m:
        raise Lost("skip_whitespace: expression")
    f = Fn(re.sub(r"\b%s\b" % m.group(1), "vx_space()", t))
    parts(u, f)
    f.body_start("proof { text_valid(self.text); if let Some(k) = matched(space(), self.rest()) { if k <= self.rest().len() && is_char_boundary(self.rest(), k as int) { boundary_in(self.b(), self.pos as int, k as int); } } }")
    u.fn(f, INP + ": Input::skip_whitespace", impl=I, req=["fine(*self)"],
         ens=["fine(r)", "same_text(r, *self)", "r.pos == self.pos + white(self.b(), self.pos as int)", "piece(r.b(), self.pos as int, r.pos as int)"])
    # comments
    f = Fn(lexer.find("fn end_of_line").text)
    parts(u, f)
    u.fn(f, LEX + ": end_of_line", req=["text.spec_bytes().len() > 0"], ens=["r == ends(text.spec_bytes(), pos as int)"])
    f = Fn(lexer.find("fn skip_to_eol").text)
    f.body_start("proof { text_valid(input.text); line_end(input.b(), input.pos as int); }")
    f.loop(0, inv="    invariant fine(*input), text.spec_bytes() == input.rest(), text.spec_bytes().len() > 0, skipped <= text.spec_bytes().len(),\n"
                  "        line_hi(input.b(), input.pos + skipped) == line_hi(input.b(), input.pos as int),\n    decreases text.spec_bytes().len() - skipped,")
    u.fn(f, LEX + ": skip_to_eol", req=["fine(*input)", "input.pos < input.b().len()"],
         ens=["fine(r)", "same_text(r, *input)", "r.pos == line_hi(input.b(), input.pos as int)"])
    if c:
        p = CPP
        u.raw("mod lexer { pub(crate) use super::skip_to_eol; }")
        f = Fn(cpp.find("fn skip_line_comment").text)
        parts(u, f)
        f.body_start("proof { text_valid(input.text); line_end(input.b(), input.pos as int); }")
        u.fn(f, CPP + ": skip_line_comment", req=["fine(*input)"],
             ens=["fine(r)", "same_text(r, *input)", "r.pos == if two(input.b(), input.pos as int, 47, 47) { line_hi(input.b(), input.pos as int) } else { input.pos as int }", "two(input.b(), input.pos as int, 47, 47) ==> r.pos > input.pos"] + MOVED)
        f = Fn(cpp.find("fn skip_multiline_comment").text)
        parts(u, f)
        f.body_start("proof { text_valid(input.text); if input.pos + 2 <= input.b().len() { block_in(input.b(), input.pos + 2); } }")
        f.loop(0, inv="    invariant fine(*input), text.spec_bytes() == input.rest(), 2 <= skipped <= text.spec_bytes().len(),\n"
                      "        block(input.b(), input.pos + skipped) == block(input.b(), input.pos + 2),\n    decreases text.spec_bytes().len() - skipped,")
        u.fn(f, CPP + ": skip_multiline_comment", req=["fine(*input)"],
             ens=["fine(r)", "same_text(r, *input)", "r.pos == if two(input.b(), input.pos as int, 47, 42) { block(input.b(), input.pos + 2) } else { input.pos as int }", "two(input.b(), input.pos as int, 47, 42) ==> r.pos > input.pos"] + MOVED)
        sk = cpp.find("fn skip_whitespace_and_comments").text
    else:
        p = LEX
        for n, w in (("skip_star_comment", "input.b()[input.pos as int] == 42 && (input.pos == 0 || input.b()[input.pos - 1] == 10)"), ("skip_comment", "input.b()[input.pos as int] == 59")):
            f = Fn(lexer.find("fn " + n).text)
            parts(u, f)
            f.body_start("proof { text_valid(input.text); line_end(input.b(), input.pos as int); }")
            u.fn(f, LEX + ": " + n, req=["fine(*input)"],
                 ens=["fine(r)", "same_text(r, *input)", "r.pos == if input.pos < input.b().len() && %s { line_hi(input.b(), input.pos as int) } else { input.pos as int }" % w, "input.pos < input.b().len() && %s ==> r.pos > input.pos" % w] + MOVED)
        sk = lexer.find("fn skip_whitespace_and_comments").text
    f = Fn(sk)
    skipper(u, f, "input")
    u.fn(f, p + ": skip_whitespace_and_comments", req=["fine(*input)"], ens=SKIP)
    # tokens
    f = Fn(lexer.find("impl Matcher", "fn do_match").text)
    parts(u, f)
    f.replace("convert(capture)", "convert.vx_call(capture)")
    f.replace("match self.convert", "match &self.convert")
    f.body_start("proof { text_valid(input.text); if let Some(k) = matched(self.regex, input.rest()) { if k <= input.rest().len() && is_char_boundary(input.rest(), k as int) { boundary_in(input.b(), input.pos as int, k as int); } } }")
    fit = "matched(self.regex, input.rest())"
    u.fn(f, LEX + ": Matcher::do_match", impl="impl Matcher", req=["fine(*input)"],
         ens=["r is None <==> %s is None" % fit,
              "r is Some ==> (r->0 is None <==> match self.convert { Convert::Number(c) => too_big(c, input.rest().take(%s->0 as int)), _ => false })" % fit,
              "r is Some && r->0 is Some ==> { let (i, t) = r->0->0; fine(i) && same_text(i, *input) && i.pos == input.pos + %s->0 && input.pos < i.pos && !(t.token_type is EOF)"
              " && t.span.start.pos == input.pos && t.span.end.pos == i.pos && at(input.b(), input.name, t.span.start) && at(input.b(), input.name, t.span.end) }" % fit])
    t, blk = static(lexer.find("fn read_token").text, "read_token")
    if "EOF" in blk:
        raise Lost("read_token: EOF in the table")
    m = re.search(r"static\s+ref\s+(\w+)\s*:\s*Vec<Matcher>", blk)
    t = re.sub(r"\b%s\b" % m.group(1), "vx_matchers()", t)
    t = mono(t)
    f = Fn(t)
    f.body_start("let ghost vx_in = input;")
    f.loop(0, it="vx_it", inv="    invariant fine(input), same_text(input, *vx_in), vx_in.pos <= input.pos, gap(input.b(), vx_in.pos as int, input.pos as int), still(input.b(), input.pos as int), input.pos < input.b().len(),\n"
                  "        vx_it.seq().len() == matchers().len(), forall|k: int| 0 <= k < matchers().len() ==> *(#[trigger] vx_it.seq()[k]) == matchers()[k], 0 <= vx_it.index() <= matchers().len(), pick(matchers(), vx_it.index() as int, input.b(), input.pos as int) == lexeme(input.b(), input.pos as int),",
           start="assert(*matcher == matchers()[vx_it.index() as int]); assert(input.rest() == rest_of(input.b(), input.pos as int));")
    u.fn(f, LEX + ": read_token", attrs=["verifier::loop_isolation(false)"], req=["fine(*input)"],
         ens=["match r { Some((i, t)) => fine(i) && same_text(i, *input) && if t.token_type is EOF { gap(i.b(), input.pos as int, i.b().len() as int) } else { token_at(i.b(), i.name, input.pos as int, t) && i.pos == t.span.end.pos },\n"
              "  None => exists|p: int| #[trigger] gap(input.b(), input.pos as int, p) && still(input.b(), p) && input.pos <= p < input.b().len() && lexeme(input.b(), p) is None }"])
    f = Fn(mono(lexer.find("fn lex_for_ws").text))
    B, A = "input.b(), input.name", "vx_in.pos as int"
    f.body_start("let ghost vx_in = *input; assert(tokens(vx_in.b(), vx_in.name, vx_in.pos as int, Seq::empty()));")
    f.loop(0, inv="    invariant vx_in == *input, fine(vx_in), fine(cinput), same_text(cinput, vx_in), tokens(vx_in.b(), vx_in.name, vx_in.pos as int, results@), end_of(vx_in.pos as int, results@) == cinput.pos,\n"
                  "        match current { Some((i, t)) => fine(i) && same_text(i, vx_in) && (if t.token_type is EOF { gap(i.b(), cinput.pos as int, i.b().len() as int) } else { token_at(i.b(), i.name, cinput.pos as int, t) && i.pos == t.span.end.pos }),\n"
                  "          None => exists|p: int| #[trigger] gap(vx_in.b(), cinput.pos as int, p) && still(vx_in.b(), p) && cinput.pos <= p < vx_in.b().len() && lexeme(vx_in.b(), p) is None },\n"
                  "    decreases match current { Some((i, t)) => if t.token_type is EOF { 0int } else { vx_in.b().len() + 1 - cinput.pos }, None => 0int },",
           start="let ghost vx_r = results@; let ghost vx_t = (current->0).1; proof { assert(vx_r.push(vx_t).drop_last() =~= vx_r); order(vx_in.b(), cinput.pos as int, vx_t.span.start.pos as int); }",
           after="let ghost vx_c = cinput; let ghost vx_r = results@; proof { if current is None { assert forall|z: int| #[trigger] gap(vx_c.b(), vx_c.pos as int, z) && still(vx_c.b(), z) && z <= vx_c.b().len() implies lexeme(vx_c.b(), z) is None && z < vx_c.b().len() by { "
                 "order(vx_c.b(), vx_c.pos as int, z); let p = choose|p: int| #[trigger] gap(vx_c.b(), vx_c.pos as int, p) && still(vx_c.b(), p) && vx_c.pos <= p < vx_c.b().len() && lexeme(vx_c.b(), p) is None; same_end(vx_c.b(), vx_c.pos as int, z, p); } "
                 "assert forall|i: Input, l: Location| #[trigger] here(i, l) && fine(i) && same_text(i, vx_c) && gap(vx_c.b(), vx_c.pos as int, i.pos as int) && still(vx_c.b(), i.pos as int) implies rejected(vx_c.b(), vx_c.name, vx_in.pos as int, l) by { assert(stuck(vx_c.b(), vx_c.name, vx_in.pos as int, vx_r, l)); } } "
                 "else { assert forall|t: Token| t.token_type is EOF implies whole(vx_c.b(), vx_c.name, vx_in.pos as int, #[trigger] vx_r.push(t)) by { assert(vx_r.push(t).drop_last() =~= vx_r); } } }")
    u.fn(f, LEX + ": lex_for_ws", req=["fine(*input)"],
         ens=["match r { Ok(ts) => whole(input.b(), input.name, input.pos as int, ts@), Err(LexerError::UnexpectedChar(l)) => rejected(input.b(), input.name, input.pos as int, l) }"])
    return u


def mono(t):
    """The function without its parameter skip_ws, which is the function of that name in the unit."""
    f = Fn(t)
    T = f.toks
    m = [i for i in range(len(T)) if T[i].s == "skip_ws" and i < f.ibody and T[i + 1].s == ":"]
    if len(m) != 1:
        raise Lost("%s: skip_ws" % f.name)
    a = m[0]
    e = a
    depth = 0
    while not (depth == 0 and T[e].s in (")", ",")):
        if T[e].s in ("(",):
            e = match_close(T, e)
        e += 1
    out = t[:T[a - 1].a] if T[a - 1].s == "," else t[:T[a].a]
    k = e + 1 if T[e].s == "," else e
    rest = t[T[k].a:]
    rest = re.sub(r",\s*skip_ws\s*\)", ")", rest)
    return out + rest.replace("skip_ws(", "skip_whitespace_and_comments(")


def build(srcs, gen):
    return build_for(srcs, False)


def build_c(srcs, gen):
    return build_for(srcs, True)
