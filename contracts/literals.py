"""Contracts of number and string literals (C15)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import core  # noqa: E402
import lines  # noqa: E402
from rustx import Fn, Lost, lex, match_close, uncontinue, strip_item  # noqa: E402,F401
from vunit import Unit  # noqa: E402

LEX = "src/lexer.rs"

NUM = """
pub open spec fn digit_of(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 } else { 99 }
}
pub open spec fn digits(s: Seq<char>, radix: int) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit_of(#[trigger] s[i]) < radix }
/// the number that digits write
pub open spec fn number(s: Seq<char>, radix: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { number(s.drop_last(), radix) * radix + digit_of(s.last()) } }
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s.last() == c { without(s.drop_last(), c) } else { without(s.drop_last(), c).push(s.last()) } }
/// digits with ' between them
pub open spec fn literal(s: Seq<char>, radix: int) -> bool {
    s.len() > 0 && digit_of(s[0]) < radix && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '\\'' || digit_of(s[i]) < radix
}
/// C15: the number such a literal writes
pub open spec fn written(s: Seq<char>, radix: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if s.last() == '\\'' { written(s.drop_last(), radix) } else { written(s.drop_last(), radix) * radix + digit_of(s.last()) } }
/// C15: what a literal stands for
pub open spec fn stands(r: Option<TokenType>, s: Seq<char>, radix: int, k: Radix) -> bool {
    if written(s, radix) <= 0x7fff_ffff { r == Some(TokenType::Number(written(s, radix) as i32, k)) } else { r is None }
}
"""

NUM_STD = """
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub assume_specification [i32::from_str_radix] (s: &str, radix: u32) -> (r: Result<i32, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures digits(s@, radix as int) ==> (match r { Ok(n) => n == number(s@, radix as int), Err(_) => number(s@, radix as int) > 0x7fff_ffff });
pub trait VxReplace {
    spec fn chars(&self) -> Seq<char>;
    fn vx_replace(&self, c: char, by: &str) -> (r: String)
        ensures by@ == ""@ ==> r@ == without(self.chars(), c);
}
impl VxReplace for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_replace(&self, c: char, by: &str) -> (r: String) { unimplemented!() }
}
"""

NUM_LEMMAS = """
proof fn written_without(s: Seq<char>, radix: int)
    ensures number(without(s, '\\''), radix) == written(s, radix),
    decreases s.len(),
{
    if s.len() > 0 {
        written_without(s.drop_last(), radix);
        if s.last() != '\\'' { assert(without(s, '\\'').drop_last() =~= without(s.drop_last(), '\\'')); }
    }
}
proof fn without_digits(s: Seq<char>, radix: int)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '\\'' || digit_of(s[i]) < radix,
    ensures forall|i: int| 0 <= i < without(s, '\\'').len() ==> digit_of(#[trigger] without(s, '\\'')[i]) < radix,
        s.len() > 0 && s[0] != '\\'' ==> without(s, '\\'').len() > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] == '\\'' || digit_of(s.drop_last()[i]) < radix by {
            assert(s.drop_last()[i] == s[i]);
        }
        without_digits(s.drop_last(), radix);
        assert(s.drop_last().len() > 0 ==> s.drop_last()[0] == s[0]);
        let w = without(s, '\\'');
        let v = without(s.drop_last(), '\\'');
        assert forall|i: int| 0 <= i < w.len() implies digit_of(#[trigger] w[i]) < radix by {
            if s.last() == '\\'' || i < v.len() { assert(w[i] == v[i]); } else { assert(w[i] == s[s.len() - 1]); }
        }
    }
}
proof fn literal_value(s: Seq<char>, radix: int)
    requires literal(s, radix), 2 <= radix <= 36,
    ensures digits(without(s, '\\''), radix), number(without(s, '\\''), radix) == written(s, radix),
{
    written_without(s, radix);
    without_digits(s, radix);
}
/// cutting off ASCII characters
proof fn ascii_cut(t: &str, n: int)
    requires 0 <= n <= t@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] t@[i]) as u32 <= 127,
    ensures n <= t.spec_bytes().len(), is_char_boundary(t.spec_bytes(), n),
        forall|r: &str| #[trigger] r.spec_bytes() == t.spec_bytes().subrange(n, t.spec_bytes().len() as int) ==> r@ == t@.skip(n),
{
    let p = t@.take(n);
    let q = t@.skip(n);
    assert(p + q =~= t@);
    encode_utf8_concat(p, q);
    ascii_length(p);
    let b = t.spec_bytes();
    assert(b == encode_utf8(p) + encode_utf8(q));
    encode_utf8_valid_utf8(t@);
    is_char_boundary_start_end_of_seq(b);
    if n > 0 {
        assert(b[n - 1] == encode_utf8(p)[n - 1]);
        after_ascii(b, n - 1);
    }
    assert(b.subrange(n, b.len() as int) =~= encode_utf8(q));
    assert forall|r: &str| #[trigger] r.spec_bytes() == b.subrange(n, b.len() as int) implies r@ == q by {
        encode_utf8_decode_utf8(r@);
        encode_utf8_decode_utf8(q);
    }
}
proof fn ascii_length(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127,
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] encode_utf8(s)[i]) < 128,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as u32 <= 127 by { assert(t[i] == s[i + 1]); }
        ascii_length(t);
        one_byte(s[0]);
        assert(encode_utf8(s) == encode_scalar(s[0] as u32) + encode_utf8(t));
    }
}
proof fn one_byte(c: char)
    requires c as u32 <= 127,
    ensures encode_scalar(c as u32) == seq![c as u8],
{
    let n = c as u32;
    assert(n <= 127 ==> n & 0x7F == n) by (bit_vector);
    assert(encode_scalar(n) =~= seq![c as u8]);
}
"""

STR = """
/// what an escaped character stands for
pub open spec fn escaped(c: char) -> char {
    if c == 'r' { '\\r' } else if c == 'n' { '\\n' } else if c == 't' { '\\t' } else if c == 'b' { 8 as char } else if c == '0' { '\\0' } else { c }
}
/// the characters that the first n characters stand for, and whether the last of them is an escaping backslash
pub open spec fn read(s: Seq<char>, n: int) -> (Seq<char>, bool)
    decreases n
{
    if n <= 0 { (seq![], false) } else {
        let (o, e) = read(s, n - 1);
        if e { (o.push(escaped(s[n - 1])), false) } else if s[n - 1] == '\\\\' { (o, true) } else { (o.push(s[n - 1]), false) }
    }
}
/// C15: the text of a string literal
pub open spec fn text_of(inner: Seq<char>) -> Seq<char> {
    let (o, e) = read(inner, inner.len() as int);
    if e { o.push('\\\\') } else { o }
}
/// the same on bytes
pub open spec fn escaped_byte(c: u8) -> u8 {
    if c == 114 { 13 } else if c == 110 { 10 } else if c == 116 { 9 } else if c == 98 { 8 } else if c == 48 { 0 } else { c }
}
pub open spec fn read_bytes(b: Seq<u8>, n: int) -> (Seq<u8>, bool)
    decreases n
{
    if n <= 0 { (seq![], false) } else {
        let (o, e) = read_bytes(b, n - 1);
        if e { (o.push(escaped_byte(b[n - 1])), false) } else if b[n - 1] == 92 { (o, true) } else { (o.push(b[n - 1]), false) }
    }
}
pub open spec fn quoted(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '"' && s.last() == '"' }
pub open spec fn inner(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }
"""

STR_STD = """
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures valid_utf8(v@) ==> r is Ok, r is Ok ==> encode_utf8(r->Ok_0@) == v@;
"""

STR_LEMMAS = """
/// the bytes of a character
proof fn char_bytes(c: char)
    ensures c as u32 <= 127 ==> encode_scalar(c as u32) == seq![c as u8],
        c as u32 > 127 ==> 2 <= encode_scalar(c as u32).len() <= 4
            && forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> (#[trigger] encode_scalar(c as u32)[i]) >= 128,
{
    char_is_scalar(c);
    let n = c as u32;
    if n <= 127 {
        assert(n <= 127 ==> n & 0x7F == n) by (bit_vector);
        assert(encode_scalar(n) =~= seq![c as u8]);
    }
    else { high_bytes(c as u32); }
}
/// bytes of 128 and more stand for themselves
proof fn read_high(b: Seq<u8>, n: int, k: int)
    requires 0 <= n, 1 <= k, n + k <= b.len(), forall|i: int| n <= i < n + k ==> #[trigger] b[i] >= 128,
    ensures read_bytes(b, n + k) == (read_bytes(b, n).0 + b.subrange(n, n + k), false),
    decreases k,
{
    if k == 1 {
        assert(read_bytes(b, n).0.push(b[n]) =~= read_bytes(b, n).0 + b.subrange(n, n + 1));
    } else {
        read_high(b, n, k - 1);
        assert(read_bytes(b, n).0 + b.subrange(n, n + k) =~= (read_bytes(b, n).0 + b.subrange(n, n + k - 1)).push(b[n + k - 1]));
    }
}
/// the bytes read of the encoding are the encoding of the characters read
proof fn read_encoded(s: Seq<char>, b: Seq<u8>, n: int)
    requires b == encode_utf8(s), 0 <= n <= s.len(),
    ensures encode_utf8(s.take(n)).len() <= b.len(),
        read_bytes(b, encode_utf8(s.take(n)).len() as int) == (encode_utf8(read(s, n).0), read(s, n).1),
    decreases n,
{
    assert(s.take(n) + s.skip(n) =~= s);
    encode_utf8_concat(s.take(n), s.skip(n));
    if n > 0 {
        read_encoded(s, b, n - 1);
        let c = s[n - 1];
        let a = s.take(n - 1);
        assert(s.take(n) =~= a.push(c));
        pushed(a, c);
        char_bytes(c);
        char_bytes(escaped(c));
        let k = encode_utf8(a).len() as int;
        let (o, e) = read(s, n - 1);
        pushed(o, c);
        pushed(o, escaped(c));
        let x = encode_scalar(c as u32);
        assert(b.subrange(k, k + x.len()) =~= x);
        if c as u32 <= 127 {
            assert(b[k] == x[0]);
            assert(encode_utf8(o).push(c as u8) =~= encode_utf8(o) + seq![c as u8]);
            assert(encode_utf8(o).push(escaped_byte(c as u8)) =~= encode_utf8(o) + seq![escaped_byte(c as u8)]);
            assert(escaped(c) as u8 == escaped_byte(c as u8));
        } else {
            assert forall|i: int| k <= i < k + x.len() implies #[trigger] b[i] >= 128 by { assert(b[i] == x[i - k]); }
            read_high(b, k, x.len() as int);
        }
    } else {
        assert(s.take(0) =~= seq![]);
    }
}
proof fn pushed(s: Seq<char>, c: char)
    ensures encode_utf8(s.push(c)) == encode_utf8(s) + encode_scalar(c as u32),
{
    assert(s.push(c) =~= s + seq![c]);
    encode_utf8_concat(s, seq![c]);
    assert(seq![c].drop_first() =~= seq![]);
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32));
}
/// a literal's bytes: a quote, its contents and a quote
proof fn unquoted(s: Seq<char>)
    requires quoted(s),
    ensures encode_utf8(s).len() == encode_utf8(inner(s)).len() + 2,
        encode_utf8(s).subrange(1, encode_utf8(s).len() - 1) == encode_utf8(inner(s)),
{
    let q = seq!['"'];
    assert(s =~= (q + inner(s)) + q);
    encode_utf8_concat(q + inner(s), q);
    encode_utf8_concat(q, inner(s));
    char_bytes('"');
    assert(q.drop_first() =~= seq![]);
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(q) =~= seq![34u8]);
    assert(encode_utf8(s).subrange(1, encode_utf8(s).len() - 1) =~= encode_utf8(inner(s)));
}
/// what clean_str returns
proof fn read_all(s: Seq<char>, r: Seq<u8>, e: bool)
    requires (r, e) == read_bytes(encode_utf8(s), encode_utf8(s).len() as int),
    ensures valid_utf8(r), valid_utf8(r.push(92)),
        forall|t: Seq<char>| #[trigger] encode_utf8(t) == (if e { r.push(92) } else { r }) ==> t == text_of(s),
{
    assert(s.take(s.len() as int) =~= s);
    read_encoded(s, encode_utf8(s), s.len() as int);
    let o = read(s, s.len() as int).0;
    encode_utf8_valid_utf8(o);
    pushed(o, '\\\\');
    char_bytes('\\\\');
    assert(r.push(92) =~= r + seq![92u8]);
    encode_utf8_valid_utf8(o.push('\\\\'));
    encode_utf8_decode_utf8(text_of(s));
    assert forall|t: Seq<char>| #[trigger] encode_utf8(t) == (if e { r.push(92) } else { r }) implies t == text_of(s) by { encode_utf8_decode_utf8(t); }
}
"""


def build_numbers(srcs, gen):
    u = Unit("literals_numbers")
    src = srcs[LEX]
    u.raw(lines.CUT, "assumed")
    core.items(u, srcs["src/expression.rs"], "enum Radix")
    core.items(u, src, "enum TokenType")
    u.raw(NUM)
    u.raw(NUM_STD, "assumed")
    u.assumed += ["what `&t[a..]` gives on a string (vstd states only when it is allowed, which is proved)",
                  "i32::from_str_radix on digits: the number they write, or an error when it is above 2147483647",
                  "str::replace of a character by nothing drops this character"]
    u.lemmas(lines.TEXT_LEMMAS.replace("t.spec_bytes", "t.spec_bytes")[:lines.TEXT_LEMMAS.index("/// a line can be cut")]
             [lines.TEXT_LEMMAS.index("/// an ASCII byte"):])
    u.lemmas(NUM_LEMMAS)
    for n, radix, kind, prefix in (("to_hex_num", 16, "Hex", "prefix"), ("to_oct_num", 8, "Octal", "2"),
                                   ("to_bin_num", 2, "Binary", "prefix"), ("to_dec_num", 10, "Decimal", "0")):
        f = Fn(src.find("fn " + n).text)
        lines.cuts(u, f, "text")
        f.replace("replace", "vx_replace")
        f.body_start("    proof { ascii_cut(text, %s as int); assert(text@.skip(0) =~= text@);\n"
                     "        literal_value(text@.skip(%s as int), %d); }" % (prefix, prefix, radix))
        u.fn(f, LEX + ": " + n,
             req=["%s <= text@.len()" % prefix, "forall|i: int| 0 <= i < %s ==> (#[trigger] text@[i]) as u32 <= 127" % prefix,
                  "literal(text@.skip(%s as int), %d)" % (prefix, radix)],
             ens=["stands(r, text@.skip(%s as int), %d, Radix::%s)" % (prefix, radix, kind)])
    u.rewrites.append("str::replace is called through a trait with a contract")
    return u


def bytes_loop(text):
    """`for (pos, byte) in s.bytes().enumerate()` becomes a loop over the positions of `s.as_bytes()`."""
    f = Fn(text)
    T = f.toks
    for kind, i, kin, ob, cb in f.loops:
        h = [t.s for t in T[i:ob]]
        if kind == "for" and len(h) == 16 and h[1] == "(" and h[3] == "," and h[5:7] == [")", "in"] \
                and h[8:] == [".", "bytes", "(", ")", ".", "enumerate", "(", ")"]:
            f.rep(T[i].a, T[ob].b, "let vx_b = %s.as_bytes(); for %s in 0..vx_b.len() { let %s = vx_b[%s];" % (h[7], h[2], h[4], h[2]))
    return f.render()


def build_strings(srcs, gen):
    u = Unit("literals_strings")
    u.raw("use vstd::utf8::*;\nuse vstd::string::*;\nuse vstd::std_specs::option::*;")
    u.raw(STR)
    u.raw(STR_STD, "assumed")
    u.assumed.append("String::from_utf8 accepts valid UTF-8 and gives the text it encodes")
    u.lemmas(high_bytes())
    u.lemmas(STR_LEMMAS)
    t = bytes_loop(uncontinue(bytes_loop(strip_item(srcs[LEX].find("fn clean_str").text))))
    u.rewrites.append("clean_str: the loop over bytes().enumerate() runs over the positions; `continue` is an else branch")
    f = Fn(t)
    inv = ("    invariant vx_b@ == string.spec_bytes(), len == vx_b@.len(), len >= 2,\n"
           "        (result@, escape) == read_bytes(vx_b@.subrange(1, len - 1), if pos == 0 { 0 } else if pos < len { pos - 1 } else { len - 2 }),")
    f.loop(0, inv=inv, start="    let ghost b1 = vx_b@.subrange(1, len - 1);\n    proof { if 1 <= pos && pos < len - 1 { assert(b1[pos - 1] == vx_b@[pos as int]); } }")
    f.body_start("    proof { unquoted(string@); }")
    f.loop(0, after="    proof { read_all(inner(string@), result@, escape); }")
    u.fn(f, LEX + ": clean_str", req=["quoted(string@)"], ens=["r@ == text_of(inner(string@))"])
    return u


def high_bytes():
    return """
proof fn high_bytes(c: u32)
    requires 128 <= c <= 0x10FFFF,
    ensures 2 <= encode_scalar(c).len() <= 4,
        forall|i: int| 0 <= i < encode_scalar(c).len() ==> (#[trigger] encode_scalar(c)[i]) >= 128,
{
    broadcast use vstd::array::group_array_axioms;
    assert(forall|x: u8| (0xC0u8 | x) >= 128u8 && (0xE0u8 | x) >= 128u8 && (0xF0u8 | x) >= 128u8 && (0x80u8 | x) >= 128u8) by (bit_vector);
    let e = encode_scalar(c);
    assert(e[0] >= 128 && e[1] >= 128);
    if e.len() > 2 { assert(e[2] >= 128); }
    if e.len() > 3 { assert(e[3] >= 128); }
}
"""
