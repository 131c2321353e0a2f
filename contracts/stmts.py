"""Contracts of the printing of statements (C18)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import asm  # noqa: E402
import core  # noqa: E402
import exprs  # noqa: E402
import forms  # noqa: E402
import isatab  # noqa: E402
import lines  # noqa: E402
import literals  # noqa: E402
from rustx import Fn, Lost, lex, match_arms, match_close, norm, split_top, strip_item  # noqa: E402,F401
from vunit import Unit  # noqa: E402

AST = "src/ast.rs"
INS = "src/instruction.rs"

ESC = """
/// between quotes, the characters are one string literal to the lexer
pub open spec fn one_literal(s: Seq<char>) -> bool {
    &&& !read(s, s.len() as int).1
    &&& forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == '"' ==> read(s, i).1
    &&& forall|i: int| 0 <= i < s.len() && #[trigger] s[i] == '\\n' ==> !read(s, i).1
}
/// how a character is written
pub open spec fn esc_char(c: char) -> Seq<char> {
    if c == 8 as char { seq!['\\\\', 'b'] } else if c == '\\n' { seq!['\\\\', 'n'] } else if c == '\\r' { seq!['\\\\', 'r'] } else if c == '\\t' { seq!['\\\\', 't'] }
    else if c == '\\0' { seq!['\\\\', '0'] } else if c == '"' || c == '\\\\' { seq!['\\\\', c] } else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc_char(s.last()) } }
pub open spec fn esc_byte(c: u8) -> Seq<u8> {
    if c == 8 { seq![92u8, 98] } else if c == 10 { seq![92u8, 110] } else if c == 13 { seq![92u8, 114] } else if c == 9 { seq![92u8, 116] }
    else if c == 0 { seq![92u8, 48] } else if c == 34 || c == 92 { seq![92u8, c] } else { seq![c] }
}
pub open spec fn esc_bytes(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{ if b.len() == 0 { seq![] } else { esc_bytes(b.drop_last()) + esc_byte(b.last()) } }
"""

ESC_LEMMAS = """
proof fn esc_append(a: Seq<u8>, b: Seq<u8>)
    ensures esc_bytes(a + b) == esc_bytes(a) + esc_bytes(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(esc_bytes(a) + esc_bytes(b) =~= esc_bytes(a)); }
    else {
        esc_append(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(esc_bytes(a) + (esc_bytes(b.drop_last()) + esc_byte(b.last())) =~= (esc_bytes(a) + esc_bytes(b.drop_last())) + esc_byte(b.last()));
    }
}
proof fn esc_high(b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] >= 128,
    ensures esc_bytes(b) == b,
    decreases b.len(),
{
    if b.len() > 0 {
        assert forall|i: int| 0 <= i < b.drop_last().len() implies #[trigger] b.drop_last()[i] >= 128 by { assert(b.drop_last()[i] == b[i]); }
        esc_high(b.drop_last());
        assert(b[b.len() - 1] >= 128);
        assert(b.drop_last() + seq![b.last()] =~= b);
    } else { assert(b =~= seq![]); }
}
proof fn two(c: char, d: char)
    requires c as u32 <= 127, d as u32 <= 127,
    ensures encode_utf8(seq![c, d]) == seq![c as u8, d as u8], encode_utf8(seq![c]) == seq![c as u8],
{
    pushed(seq![], c);
    pushed(seq![c], d);
    char_bytes(c);
    char_bytes(d);
    assert(Seq::<char>::empty().push(c) =~= seq![c]);
    assert(seq![c].push(d) =~= seq![c, d]);
    assert(encode_utf8(Seq::<char>::empty()) =~= seq![]);
    assert(encode_utf8(seq![c]) =~= seq![c as u8]);
    assert(encode_utf8(seq![c, d]) =~= seq![c as u8, d as u8]);
}
/// the bytes are written as the characters are
proof fn esc_encoded(s: Seq<char>)
    ensures encode_utf8(esc(s)) == esc_bytes(encode_utf8(s)),
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= seq![]); }
    else {
        let t = s.drop_last();
        let c = s.last();
        let x = encode_scalar(c as u32);
        esc_encoded(t);
        assert(s =~= t.push(c));
        pushed(t, c);
        char_bytes(c);
        esc_append(encode_utf8(t), x);
        encode_utf8_concat(esc(t), esc_char(c));
        if c as u32 <= 127 {
            assert(x.drop_last() =~= seq![]);
            reveal_with_fuel(esc_bytes, 2);
            assert(x.last() == c as u8);
            assert(esc_bytes(x) =~= esc_byte(c as u8));
            two('\\\\', 'b'); two('\\\\', 'n'); two('\\\\', 'r'); two('\\\\', 't'); two('\\\\', '0'); two('\\\\', c); two(c, c);
            assert(encode_utf8(esc_char(c)) =~= esc_byte(c as u8));
        } else {
            esc_high(x);
            pushed(seq![], c);
            assert(Seq::<char>::empty().push(c) =~= seq![c]);
            assert(encode_utf8(Seq::<char>::empty()) =~= seq![]);
            assert(encode_utf8(seq![c]) =~= x);
        }
    }
}
proof fn read_prefix(a: Seq<char>, b: Seq<char>, n: int)
    requires 0 <= n <= a.len(),
    ensures read(a + b, n) == read(a, n),
    decreases n,
{
    if n > 0 { read_prefix(a, b, n - 1); assert((a + b)[n - 1] == a[n - 1]); }
}
/// C18: what is written for a text is one string literal, which stands for it
proof fn esc_read(s: Seq<char>)
    ensures one_literal(esc(s)), read(esc(s), esc(s).len() as int) == (s, false),
    decreases s.len(),
{
    if s.len() == 0 { assert(s =~= seq![]); }
    else {
        let t = s.drop_last();
        let c = s.last();
        let a = esc(t);
        let b = esc_char(c);
        esc_read(t);
        let n = a.len() as int;
        assert forall|i: int| 0 <= i <= n implies #[trigger] read(a + b, i) == read(a, i) by { read_prefix(a, b, i); }
        assert(read(a + b, n) == (t, false));
        assert((a + b)[n] == b[0]);
        assert(read(a + b, n + 1) == (if b[0] == '\\\\' { (t, true) } else { (t.push(b[0]), false) }));
        if b.len() == 2 {
            assert((a + b)[n + 1] == b[1]);
            assert(read(a + b, n + 2) == (t.push(escaped(b[1])), false));
        }
        assert(t.push(c) =~= s);
        assert forall|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i] == '"' implies read(a + b, i).1 by {
            if i < n { assert(a[i] == '"'); assert(read(a + b, i) == read(a, i)); }
        }
        assert forall|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i] == '\\n' implies !read(a + b, i).1 by {
            if i < n { assert(a[i] == '\\n'); assert(read(a + b, i) == read(a, i)); }
        }
    }
}
/// all of it, for the bytes of a text
proof fn escape_all(b: Seq<u8>)
    requires valid_utf8(b),
    ensures valid_utf8(esc_bytes(b)),
        forall|r: Seq<char>| #[trigger] encode_utf8(r) == esc_bytes(b) ==> one_literal(r) && encode_utf8(text_of(r)) == b,
{
    let s = decode_utf8(b);
    decode_utf8_encode_utf8(b);
    esc_encoded(s);
    encode_utf8_valid_utf8(esc(s));
    encode_utf8_decode_utf8(esc(s));
    esc_read(s);
    assert forall|r: Seq<char>| #[trigger] encode_utf8(r) == esc_bytes(b) implies one_literal(r) && encode_utf8(text_of(r)) == b by { encode_utf8_decode_utf8(r); }
}
"""


def build_escape(srcs, gen):
    u = Unit("stmts_escape")
    u.raw("use vstd::utf8::*;\nuse vstd::string::*;\nuse vstd::std_specs::option::*;")
    u.raw(literals.STR)
    u.raw(literals.STR_STD, "assumed")
    u.assumed.append("String::from_utf8 accepts valid UTF-8 and gives the text it encodes")
    u.lemmas(literals.high_bytes())
    u.lemmas(literals.STR_LEMMAS)
    u.raw(ESC)
    u.lemmas(ESC_LEMMAS)
    f = Fn(srcs[AST].find("fn escape_string").text)
    f.loop(0, inv="        invariant index <= bytes@.len(), escaped@ == esc_bytes(bytes@.take(index as int)),\n"
                  "        ensures escaped@ == esc_bytes(bytes@),\n        decreases bytes@.len() - index,",
           start="        proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }\n        let ghost vx_e = escaped@;",
           end="        proof { assert(bytes@.take(index as int).drop_last() =~= bytes@.take(index - 1)); assert(escaped@ =~= vx_e + esc_byte(bytes@[index - 1])); }")
    f.at("String :: from_utf8", "proof { escape_all(bytes@); }")
    f.body_start("proof { assert(bytes@.take(0) =~= seq![]); }")
    u.fn(f, AST + ": escape_string", req=["valid_utf8(bytes@)"], ens=["one_literal(r@)", "encode_utf8(text_of(r@)) == bytes@"])
    return u


# ---------------------------------------------------------------- printing

def value_spec():
    """What an instruction consists of in print, from the table of the instruction set."""
    mn, ops, fine = [], [], []
    for n, (kinds, _) in isatab.FORMS.items():
        vs = ["o%d" % k for k in range(len(kinds))]
        pat = "Instr::%s%s" % (n, "(%s)" % ", ".join(vs) if vs else "")
        anon = "Instr::%s%s" % (n, "(%s)" % ", ".join("_" for _ in vs) if vs else "")
        mn.append("        %s => \"%s\"@," % (anon, n.split("_")[0].lower()))
        show = {"i8": "V::Imm(tree(%s))", "ri": "V::Ind(%s)"}
        ops.append("        %s => seq![%s]," % (pat, ", ".join(show.get(k, "V::Ex(tree(%s))") % v for k, v in zip(kinds, vs))) if vs else
                   "        %s => Seq::empty()," % pat)
        fs = ["fine_tree(tree(%s))" % v for k, v in zip(kinds, vs) if k != "ri"]
        fine.append("        %s => %s," % (pat if fs else anon, " && ".join(fs) or "true"))
    return """
/// a value in a list: an expression, an immediate, an indirection mode, a string, a number, a length with a string
pub enum V { Ex(T), Imm(T), Ind(IndirectionMode), Str(Seq<u8>), Num(int), Sized(int, Seq<u8>) }
pub open spec fn reg(m: IndirectionMode) -> K {
    match m { IndirectionMode::R0 => K::R0, IndirectionMode::R1 => K::R1, IndirectionMode::R2 => K::R2, IndirectionMode::R3 => K::R3 }
}
pub open spec fn is_num(k: K, n: int) -> bool { match k { K::Number(x, _) => x == n, _ => false } }
pub open spec fn is_str(k: K, b: Seq<u8>) -> bool { match k { K::String(s) => encode_utf8(s) == b, _ => false } }
/// the tokens ts are the value v
pub open spec fn val(ts: Seq<K>, v: V) -> bool {
    match v {
        V::Ex(t) => derives(ts, 0, t),
        V::Imm(t) => ts.len() > 1 && ts[0] == K::Hash && derives(ts.skip(1), 0, t),
        V::Ind(m) => ts == seq![reg(m)],
        V::Str(b) => ts.len() == 1 && is_str(ts[0], b),
        V::Num(n) => ts.len() == 1 && is_num(ts[0], n),
        V::Sized(n, b) => ts.len() == 2 && is_num(ts[0], n) && is_str(ts[1], b),
    }
}
/// values with commas between them
pub open spec fn vals(ts: Seq<K>, vs: Seq<V>) -> bool
    decreases vs.len()
{
    if vs.len() == 0 { ts.len() == 0 } else if vs.len() == 1 { val(ts, vs[0]) }
    else { exists|m: int| #[trigger] cut(ts, m) && ts[m] == K::Comma && vals(ts.take(m), vs.drop_last()) && val(ts.skip(m + 1), vs.last()) }
}
/// C18: a line is its first words and then values
pub open spec fn line(ts: Seq<K>, h: Seq<K>, vs: Seq<V>) -> bool { h.len() <= ts.len() && ts.take(h.len() as int) == h && vals(ts.skip(h.len() as int), vs) }
pub open spec fn mnemonic(i: Instr<Expr, IndirectionMode>) -> Seq<char> {
    match i {
%s
    }
}
pub open spec fn operands(i: Instr<Expr, IndirectionMode>) -> Seq<V> {
    match i {
%s
    }
}
pub open spec fn fine_instr(i: Instr<Expr, IndirectionMode>) -> bool {
    match i {
%s
    }
}
pub open spec fn byte_val(v: ByteValue) -> V { match v { ByteValue::Expr(e) => V::Ex(tree(e)), ByteValue::String(_, b) => V::Str(b@) } }
pub open spec fn fine_byte(v: ByteValue) -> bool { match v { ByteValue::Expr(e) => fine_tree(tree(e)), ByteValue::String(_, b) => valid_utf8(b@) } }
pub open spec fn byte_vals(s: Seq<ByteValue>) -> Seq<V> { s.map(|i: int, v: ByteValue| byte_val(v)) }
pub open spec fn word_vals(s: Seq<Expr>) -> Seq<V> { s.map(|i: int, e: Expr| V::Ex(tree(e))) }
pub open spec fn dir_head(d: Directive) -> Seq<K> {
    match d {
        Directive::Byte(_, _) => seq![K::Name(".byte"@)], Directive::Org(_, _) => seq![K::Name(".org"@)], Directive::Word(_, _) => seq![K::Name(".word"@)],
        Directive::Text(_, _, _) => seq![K::Name(".text"@)], Directive::String(_, _, _) => seq![K::Name(".string"@)], Directive::Cnop(_, _, _) => seq![K::Name(".cnop"@)],
        Directive::Include(_, _, _) => seq![K::Name(".include"@)],
    }
}
pub open spec fn dir_vals(d: Directive) -> Seq<V> {
    match d {
        Directive::Byte(_, v) => byte_vals(v@),
        Directive::Org(_, n) => seq![V::Num(n as int)],
        Directive::Word(_, v) => word_vals(v@),
        Directive::Text(_, n, b) => seq![V::Sized(n as int, b@)],
        Directive::String(_, n, b) => seq![V::Sized(n as int, b@)],
        Directive::Cnop(_, x, y) => seq![V::Ex(tree(x)), V::Ex(tree(y))],
        Directive::Include(_, _, _) => Seq::empty(),
    }
}
/// what is left of a program when its macros and includes are expanded
pub open spec fn fine_dir(d: Directive) -> bool {
    match d {
        Directive::Byte(_, v) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> fine_byte(#[trigger] v@[i]),
        Directive::Org(_, n) => n <= 0x7fff_ffff,
        Directive::Word(_, v) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> fine_tree(tree(#[trigger] v@[i])),
        Directive::Text(_, n, b) => n <= 0x7fff_ffff && valid_utf8(b@),
        Directive::String(_, n, b) => n <= 0x7fff_ffff && valid_utf8(b@),
        Directive::Cnop(_, x, y) => fine_tree(tree(x)) && fine_tree(tree(y)),
        Directive::Include(_, _, _) => false,
    }
}
pub open spec fn fine_stmt(s: Statement) -> bool {
    match s {
        Statement::Directive(d) => fine_dir(d),
        Statement::Label(_, n) => fine(K::Name(n@)),
        Statement::Instr(_, i) => fine_instr(i),
        Statement::Variable(_, n, e) => fine(K::Name(n@)) && fine_tree(tree(e)),
        Statement::Alias(_, n, e) => fine(K::Name(n@)) && fine_tree(tree(e)),
        Statement::Comment(_) => true,
        Statement::MacroCall(_, _, _) => false,
    }
}
pub open spec fn head(s: Statement) -> Seq<K> {
    match s {
        Statement::Directive(d) => dir_head(d),
        Statement::Label(_, n) => seq![K::Name(n@), K::Colon],
        Statement::Instr(_, i) => seq![K::Name(mnemonic(i))],
        Statement::Variable(_, n, _) => seq![K::Name(n@), K::Equals],
        Statement::Alias(_, n, _) => seq![K::Name(n@), K::Name("equ"@)],
        _ => Seq::empty(),
    }
}
pub open spec fn values(s: Statement) -> Seq<V> {
    match s {
        Statement::Directive(d) => dir_vals(d),
        Statement::Instr(_, i) => operands(i),
        Statement::Variable(_, _, e) => seq![V::Ex(tree(e))],
        Statement::Alias(_, _, e) => seq![V::Ex(tree(e))],
        _ => Seq::empty(),
    }
}
pub open spec fn ends_lines(ts: Seq<K>) -> bool { forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] == K::Eol }
/// b is a and then n or more line ends, and nothing else
pub open spec fn quiet(a: Seq<K>, b: Seq<K>, n: int) -> bool { a.len() + n <= b.len() && b.take(a.len() as int) == a && ends_lines(b.skip(a.len() as int)) }
/// b is a and then the line h, vs
#[verifier::opaque]
pub open spec fn put(a: Seq<K>, b: Seq<K>, h: Seq<K>, vs: Seq<V>) -> bool {
    a.len() <= b.len() && b.take(a.len() as int) == a && line(b.skip(a.len() as int), h, vs)
}
#[verifier::opaque]
pub open spec fn wrote_val(a: Seq<K>, b: Seq<K>, v: V) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a && val(b.skip(a.len() as int), v) }
/// C18: b is a and then what statement s is read from
pub open spec fn said(a: Seq<K>, b: Seq<K>, s: Statement) -> bool {
    if s is Comment { quiet(a, b, 0) } else { put(a, b, head(s), values(s)) }
}
/// C18: b is a and then the statements, each on lines of its own
pub open spec fn program(a: Seq<K>, b: Seq<K>, ss: Seq<Statement>) -> bool
    decreases ss.len()
{
    if ss.len() == 0 { a == b } else { exists|c: Seq<K>, d: Seq<K>| #[trigger] between(c, d, ss.len() as int) && program(a, c, ss.drop_last()) && said(d, b, ss.last()) }
}
pub open spec fn between(c: Seq<K>, d: Seq<K>, n: int) -> bool { quiet(c, d, if n == 1 { 0 } else { 1 }) }
""" % ("\n".join(mn), "\n".join(ops), "\n".join(fine))


PUT_LEMMAS = """
broadcast proof fn p_one(a: Seq<K>, k: K)
    ensures put(a, #[trigger] a.push(k), seq![k], Seq::empty()),
{
    reveal(put);
    let b = a.push(k);
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= seq![k]);
    assert(seq![k].take(1) =~= seq![k]);
    assert(seq![k].skip(1) =~= Seq::empty());
}
broadcast proof fn p_two(a: Seq<K>, j: K, k: K)
    ensures put(a, #[trigger] a.push(j).push(k), seq![j, k], Seq::empty()),
{
    reveal(put);
    let b = a.push(j).push(k);
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= seq![j, k]);
    assert(seq![j, k].take(2) =~= seq![j, k]);
    assert(seq![j, k].skip(2) =~= Seq::empty());
}
proof fn after(a: Seq<K>, b: Seq<K>, c: Seq<K>)
    requires a.len() <= b.len() <= c.len(), b.take(a.len() as int) == a, c.take(b.len() as int) == b,
    ensures c.take(a.len() as int) == a, c.skip(a.len() as int).take(b.len() - a.len()) == b.skip(a.len() as int),
        c.skip(a.len() as int).skip(b.len() - a.len()) == c.skip(b.len() as int),
{
    assert forall|i: int| 0 <= i < a.len() implies c[i] == a[i] by { assert(c.take(b.len() as int)[i] == b[i]); assert(b.take(a.len() as int)[i] == a[i]); }
    assert(c.take(a.len() as int) =~= a);
    assert forall|i: int| a.len() <= i < b.len() implies c[i] == b[i] by { assert(c.take(b.len() as int)[i] == b[i]); }
    assert(c.skip(a.len() as int).take(b.len() - a.len()) =~= b.skip(a.len() as int));
    assert(c.skip(a.len() as int).skip(b.len() - a.len()) =~= c.skip(b.len() as int));
}
broadcast proof fn p_first(a: Seq<K>, b: Seq<K>, c: Seq<K>, h: Seq<K>, v: V)
    requires #[trigger] put(a, b, h, Seq::empty()), #[trigger] wrote_val(b, c, v),
    ensures put(a, c, h, seq![v]),
{
    reveal(put);
    reveal(wrote_val);
    after(a, b, c);
    let t = c.skip(a.len() as int);
    let s = b.skip(a.len() as int);
    assert(s =~= h) by { assert(s.take(h.len() as int) =~= s); }
    assert(t.take(h.len() as int) =~= h);
    assert(t.skip(h.len() as int) =~= c.skip(b.len() as int));
    assert(vals(c.skip(b.len() as int), seq![v]));
}
proof fn p_next(a: Seq<K>, b: Seq<K>, c: Seq<K>, h: Seq<K>, vs: Seq<V>, v: V)
    requires put(a, b, h, vs), vs.len() > 0, wrote_val(b.push(K::Comma), c, v),
    ensures put(a, c, h, vs.push(v)),
{
    reveal(put);
    reveal(wrote_val);
    let p = b.push(K::Comma);
    assert(p.take(b.len() as int) =~= b);
    assert(b == c.take(b.len() as int)) by { assert(c.take(p.len() as int).take(b.len() as int) =~= c.take(b.len() as int)); }
    after(a, b, c);
    let n = h.len() as int;
    let t = c.skip(a.len() as int);
    let s = b.skip(a.len() as int);
    assert(t.take(n) =~= h) by { assert(s.take(n) =~= t.take(n)); }
    let x = s.skip(n);
    let y = t.skip(n);
    let m = x.len() as int;
    some(x, vs);
    some_val(c.skip(p.len() as int), v);
    assert(y.take(m) =~= x);
    assert(y[m] == K::Comma) by { assert(c[b.len() as int] == c.take(p.len() as int)[b.len() as int]); }
    assert(y.skip(m + 1) =~= c.skip(p.len() as int));
    assert(vs.push(v).drop_last() =~= vs);
    assert(cut(y, m));
}
proof fn some_val(ts: Seq<K>, v: V)
    requires val(ts, v),
    ensures ts.len() > 0,
{}
proof fn some(ts: Seq<K>, vs: Seq<V>)
    requires vals(ts, vs), vs.len() > 0,
    ensures ts.len() > 0,
{
    if vs.len() == 1 { some_val(ts, vs[0]); }
}
broadcast proof fn p_more(a: Seq<K>, b: Seq<K>, c: Seq<K>, h: Seq<K>, vs: Seq<V>, v: V)
    requires #[trigger] put(a, b, h, vs), #[trigger] wrote_val(b.push(K::Comma), c, v),
    ensures vs.len() == 1 ==> put(a, c, h, seq![vs[0], v]), vs.len() == 2 ==> put(a, c, h, seq![vs[0], vs[1], v]), vs.len() > 0 ==> put(a, c, h, vs.push(v)),
{
    if vs.len() > 0 {
        p_next(a, b, c, h, vs, v);
        if vs.len() == 1 { assert(vs.push(v) =~= seq![vs[0], v]); }
        if vs.len() == 2 { assert(vs.push(v) =~= seq![vs[0], vs[1], v]); }
    }
}
broadcast proof fn p_ex(a: Seq<K>, b: Seq<K>, t: T)
    requires #[trigger] wrote(a, b, t), fine_tree(t),
    ensures wrote_val(a, b, V::Ex(t)),
{
    reveal(wrote_val);
    levels();
    weaker(b.skip(a.len() as int), own(t), 0, t);
}
broadcast proof fn p_imm(a: Seq<K>, b: Seq<K>, t: T)
    requires #[trigger] wrote(a.push(K::Hash), b, t), fine_tree(t),
    ensures wrote_val(a, b, V::Imm(t)),
{
    reveal(wrote_val);
    levels();
    let p = a.push(K::Hash);
    assert(p.take(a.len() as int) =~= a);
    after(a, p, b);
    let s = b.skip(a.len() as int);
    assert(s[0] == K::Hash) by { assert(b.take(p.len() as int)[a.len() as int] == K::Hash); }
    assert(s.skip(1) =~= b.skip(p.len() as int));
    weaker(s.skip(1), own(t), 0, t);
    non_empty(s.skip(1), 0, t);
}
broadcast proof fn p_ind(a: Seq<K>, k: K, m: IndirectionMode)
    requires k == #[trigger] reg(m),
    ensures wrote_val(a, #[trigger] a.push(k), V::Ind(m)),
{
    reveal(wrote_val);
    assert(a.push(k).take(a.len() as int) =~= a);
    assert(a.push(k).skip(a.len() as int) =~= seq![k]);
}
broadcast proof fn p_str(a: Seq<K>, s: Seq<char>)
    ensures wrote_val(a, #[trigger] a.push(K::String(s)), V::Str(encode_utf8(s))),
{
    reveal(wrote_val);
    let b = a.push(K::String(s));
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= seq![K::String(s)]);
}
broadcast proof fn p_num(a: Seq<K>, n: int, r: Radix)
    ensures wrote_val(a, #[trigger] a.push(K::Number(n, r)), V::Num(n)),
{
    reveal(wrote_val);
    let b = a.push(K::Number(n, r));
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= seq![K::Number(n, r)]);
}
broadcast proof fn p_sized(a: Seq<K>, n: int, r: Radix, s: Seq<char>)
    ensures wrote_val(a, #[trigger] a.push(K::Number(n, r)).push(K::String(s)), V::Sized(n, encode_utf8(s))),
{
    reveal(wrote_val);
    let b = a.push(K::Number(n, r)).push(K::String(s));
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= seq![K::Number(n, r), K::String(s)]);
}
broadcast proof fn p_none(a: Seq<K>)
    ensures #[trigger] quiet(a, a, 0),
{
    assert(a.take(a.len() as int) =~= a);
    assert(a.skip(a.len() as int) =~= Seq::empty());
}
broadcast proof fn p_eol(a: Seq<K>)
    ensures quiet(a, #[trigger] a.push(K::Eol), 1), quiet(a, a.push(K::Eol), 0),
{
    assert(a.push(K::Eol).take(a.len() as int) =~= a);
    assert(a.push(K::Eol).skip(a.len() as int) =~= seq![K::Eol]);
}
broadcast group put_facts { p_one, p_two, p_first, p_more, p_ex, p_imm, p_ind, p_str, p_num, p_sized, p_none, p_eol }
"""

COMMENT = """
/// after a line end at j, blanks and then a semicolon or a line end
pub open spec fn gap(s: Seq<char>, j: int) -> bool
    decreases s.len() - j
{ 0 <= j < s.len() && (s[j] == ';' || s[j] == '\\n' || ((s[j] == ' ' || s[j] == '\\t') && gap(s, j + 1))) }
/// inside a comment, all of this is comments
pub open spec fn commented(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() && s[i] == '\\n' ==> #[trigger] gap(s, i + 1) }
pub open spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { replaced(s.drop_last(), c, by) + (if s.last() == c { by } else { seq![s.last()] }) } }
/// nothing but white space
pub uninterp spec fn blank(s: Seq<char>) -> bool;
pub uninterp spec fn shows(e: Seq<char>) -> bool;
"""

COMMENT_STD = """
/// `t.trim().is_empty()`
#[verifier::external_body]
fn vx_blank_text(t: &String) -> (r: bool)
    ensures r == blank(t@),
{ unimplemented!() }
#[verifier::external_body]
fn vx_starts(t: &String, p: &str) -> (r: bool)
    ensures r ==> encode_utf8(p@).len() <= encode_utf8(t@).len() && is_char_boundary(encode_utf8(t@), encode_utf8(p@).len() as int),
{ unimplemented!() }
/// `t.replace(from, to)`
#[verifier::external_body]
fn vx_replace(t: &str, from: &str, to: &str) -> (r: String)
    ensures from@.len() == 1 ==> r@ == replaced(t@, from@[0], to@),
{ unimplemented!() }
"""

COMMENT_LEMMAS = """
proof fn gap_more(a: Seq<char>, b: Seq<char>, j: int)
    requires gap(a, j),
    ensures gap(a + b, j),
    decreases a.len() - j,
{
    assert((a + b)[j] == a[j]);
    if !(a[j] == ';' || a[j] == '\\n') { gap_more(a, b, j + 1); }
}
proof fn safe(s: Seq<char>, by: Seq<char>)
    requires by.len() > 0, commented(by),
    ensures commented(replaced(s, '\\n', by)),
    decreases s.len(),
{
    if s.len() > 0 {
        safe(s.drop_last(), by);
        let a = replaced(s.drop_last(), '\\n', by);
        let b = if s.last() == '\\n' { by } else { seq![s.last()] };
        assert(commented(b));
        assert forall|i: int| 0 <= i < (a + b).len() && (a + b)[i] == '\\n' implies #[trigger] gap(a + b, i + 1) by {
            if i < a.len() { assert(a[i] == '\\n'); assert(gap(a, i + 1)); gap_more(a, b, i + 1); }
            else { assert(b[i - a.len()] == '\\n'); assert(gap(b, i - a.len() + 1)); gap_shift(a, b, i - a.len() + 1); }
        }
    }
}
proof fn gap_shift(a: Seq<char>, b: Seq<char>, j: int)
    requires gap(b, j),
    ensures gap(a + b, a.len() + j),
    decreases b.len() - j,
{
    assert((a + b)[a.len() + j] == b[j]);
    if !(b[j] == ';' || b[j] == '\\n') { gap_shift(a, b, j + 1); }
}
/// the text that replaces a line end
proof fn separator()
    ensures "\\n"@.len() == 1, "\\n"@[0] == '\\n', encode_utf8("\\n"@).len() == 1,
        forall|s: Seq<char>| commented(#[trigger] replaced(s, '\\n', "\\n  ;; "@)),
{
    reveal_strlit("\\n  ;; ");
    reveal_strlit("\\n");
    let t = "\\n  ;; "@;
    pushed(seq![], '\\n');
    char_bytes('\\n');
    assert("\\n"@ =~= Seq::<char>::empty().push('\\n'));
    assert(encode_utf8(Seq::<char>::empty()) =~= seq![]);
    reveal_with_fuel(gap, 4);
    assert forall|i: int| 0 <= i < t.len() && t[i] == '\\n' implies #[trigger] gap(t, i + 1) by { assert(i == 0); }
    assert forall|s: Seq<char>| commented(#[trigger] replaced(s, '\\n', t)) by { safe(s, t); }
}
"""


def formatter():
    """The Formatter of exprs.FMT, with what statements need."""
    more = """
        /// a length or a place, with the prefix and the digits of a radix
        #[verifier::external_body]
        pub fn vx_size(&mut self, n: &usize, k: Ghost<Radix>) -> (r: Result)
            ensures r is Ok ==> final(self)@ == old(self)@.push(K::Number(*n as int, k@)),
        { unimplemented!() }
        /// characters between quotes
        #[verifier::external_body]
        pub fn vx_str(&mut self, s: &String) -> (r: Result)
            ensures r is Ok && one_literal(s@) ==> final(self)@ == old(self)@.push(K::String(text_of(s@))),
        { unimplemented!() }
        /// a text after a semicolon, up to the end of the statement
        #[verifier::external_body]
        pub fn vx_comment(&mut self, s: &String) -> (r: Result)
            ensures r is Ok && commented(s@) ==> final(self)@ == old(self)@,
        { unimplemented!() }
        /// a text as it is
        #[verifier::external_body]
        pub fn vx_text(&mut self, s: &String) -> (r: Result)
            ensures r is Ok && blank(s@) ==> quiet(old(self)@, final(self)@, 0),
        { unimplemented!() }
        /// not specified
        #[verifier::external_body]
        pub fn vx_any(&mut self) -> (r: Result) { unimplemented!() }
"""
    k = exprs.FMT.index("    }\n}\n/// the token")
    return exprs.FMT[:k] + more + exprs.FMT[k:]


def variants(text, generics=None):
    """Constructor -> the types of its fields."""
    f = lex(strip_item(text))
    o = next(i for i in range(len(f)) if f[i].s == "{")
    out = {}
    for a, b in split_top(f, o + 1, match_close(f, o)):
        if b > a:
            ts = [norm(f[c:d]) for c, d in split_top(f, a + 2, b - 1)] if b - a > 1 and f[a + 1].s == "(" else []
            out[f[a].s] = [(generics or {}).get(t, t) for t in ts]
    return out


def fields(text):
    """Field of a struct -> its type."""
    f = lex(strip_item(text))
    o = next(i for i in range(len(f)) if f[i].s == "{")
    out = {}
    for a, b in split_top(f, o + 1, match_close(f, o)):
        c = next((i for i in range(a, b) if f[i].s == ":"), None)
        if c is not None:
            out[f[c - 1].s] = [norm(f[c + 1:b])]
    return out


def bindings(f, tables, default):
    """(first token, last token, name, type) for the names that match patterns and for loops bind."""
    T = f.toks
    out = []
    for m in range(f.ibody, f.iend):
        if T[m].k == "id" and T[m].s == "match":
            op = m + 1
            while T[op].s != "{":
                op = match_close(T, op) + 1 if T[op].s in "([" else op + 1
            for (p0, p1), guard, (b0, b1) in match_arms(T, op):
                for a, b in split_top(T, p0, p1, "|"):
                    en, k = default, a
                    if b - a > 2 and T[a + 1].s == "::":
                        en, k = T[a].s, a + 2
                    fs = tables.get(en, {}).get(T[k].s)
                    if fs is None or k + 1 >= b or T[k + 1].s != "(":
                        continue
                    for j, (x, y) in enumerate(split_top(T, k + 2, match_close(T, k + 1))):
                        if T[x].s == "ref":
                            x += 1
                        if y - x == 1 and T[x].k == "id" and T[x].s != "_" and j < len(fs):
                            out.append((b0, b1, T[x].s, fs[j]))
    for kind, i, kin, ob, cb in f.loops:
        if kind == "for" and kin == i + 2 and T[i + 1].k == "id":
            ty = [x[3] for x in out if x[0] <= i < x[1] and x[2] == T[kin + 1].s]
            if T[kin + 1].s == "self" and T[kin + 2].s == ".":
                ty = [x[0] for x in [tables.get("fields", {}).get(T[kin + 3].s)] if x]
            m = re.fullmatch(r"Vec<(.*)>", ty[-1]) if ty else None
            if m:
                out.append((ob, cb, T[i + 1].s, m.group(1)))
    return out


def drop_arm(f, *names):
    """The bodies of the arms with these patterns are not specified."""
    T = f.toks
    spans = []
    for m in range(f.ibody, f.iend):
        if T[m].k == "id" and T[m].s == "match" and not any(a <= m < b for a, b in spans):
            op = m + 1
            while T[op].s != "{":
                op = match_close(T, op) + 1 if T[op].s in "([" else op + 1
            for (p0, p1), guard, (b0, b1) in match_arms(T, op):
                if any(norm(T[p0:p1]).startswith(n + "(") for n in names):
                    spans.append((b0, b1))
    return spans


ESCAPES = {"n": "\n", "t": "\t", '"': '"', "\\": "\\", "r": "\r", "0": "\0", "'": "'"}
SIGNS = dict(exprs.PUNCT, **{",": "Comma", ":": "Colon", "#": "Hash", "=": "Equals"})


def unescape(s):
    return re.sub(r"\\(.)", lambda m: ESCAPES.get(m.group(1), "\x00"), s)


def atoms(text):
    """The characters of a format string, and ("arg", name, spec) for its arguments."""
    out, i = [], 0
    while i < len(text):
        if text[i:i + 2] in ("{{", "}}"):
            out.append(text[i])
            i += 2
        elif text[i] == "{":
            e = text.index("}", i)
            name, _, spec = text[i + 1:e].partition(":")
            out.append(("arg", name, spec))
            i = e + 1
        else:
            out.append(text[i])
            i += 1
    return out


def wordy(x):
    return isinstance(x, str) and (x.isalnum() or x in "_.$%'\"")


def tokens_of(at, conv, other):
    """The calls that write the tokens of the text `at`, read as the lexer reads it."""
    out, i = [], 0
    while i < len(at):
        c = at[i]
        nxt = at[i + 1] if i + 1 < len(at) else None
        if isinstance(c, tuple):
            if wordy(nxt) or isinstance(nxt, tuple):
                out.append(other)
            out += conv(c, "")
            i += 1
        elif c in " \t":
            i += 1
        elif c == "\n":
            out.append("Eol")
            i += 1
        elif c == ";":
            e = i
            while e < len(at) and at[e] != "\n":
                e += 1
            args = [x for x in at[i:e] if isinstance(x, tuple)]
            if len(args) == 1 and at[e - 1] == args[0] and e == len(at):
                out += conv(args[0], ";")
            elif args:
                out.append(other)
            i = e
        elif c == '"':
            if isinstance(nxt, tuple) and i + 2 < len(at) and at[i + 2] == '"' and not wordy(at[i + 3] if i + 3 < len(at) else None):
                out += conv(nxt, '"')
                i += 3
            else:
                out.append(other)
                i += 1
        elif c == "@" and nxt in ("R", "r") and i + 2 < len(at) and at[i + 2] in ("0", "1", "2", "3"):
            out.append("R" + at[i + 2])
            i += 3
        elif c == "$" or (c == "%" and isinstance(nxt, tuple)):
            if isinstance(nxt, tuple):
                out += conv(nxt, c)
                if wordy(at[i + 2] if i + 2 < len(at) else None):
                    out.append(other)
                i += 2
            else:
                out.append(other)
                i += 1
        elif c.isalpha() or c in "_.":
            e = i
            while e < len(at) and isinstance(at[e], str) and (at[e].isalnum() or at[e] in "_.$"):
                e += 1
            out.append(other if e < len(at) and (isinstance(at[e], tuple) or at[e] == "%") else 'Name("%s"@)' % "".join(at[i:e]).lower())
            i = e
        elif c.isdigit():
            e = i
            while e < len(at) and isinstance(at[e], str) and (at[e].isalnum() or at[e] in "'_.$"):
                e += 1
            w = "".join(at[i:e])
            if e < len(at) and isinstance(at[e], tuple) and w in ("0x", "0X", "0b", "0B", "0o", "0O"):
                out += conv(at[e], w.lower())
                e += 1
            else:
                out.append("Number(%d, Radix::Decimal)" % int(w) if w.isdigit() and not (e < len(at) and isinstance(at[e], tuple)) else other)
            i = e
        else:
            out.append(SIGNS.get(c, other))
            i += 1
    return out


def writes(u, f, tables, default, skip=()):
    """Each write! becomes the tokens of its text, one after the other."""
    T = f.toks
    bound = bindings(f, tables, default)
    dropped = drop_arm(f, *skip)
    for a, b in dropped:
        f.rep(T[a].a, T[b - 1].b, "f.vx_any()")
    i = f.ibody
    while i < f.iend:
        if any(a <= i < b for a, b in dropped):
            i += 1
            continue
        if not (T[i].s in ("write", "writeln") and T[i + 1].s == "!" and T[i + 2].s == "("):
            i += 1
            continue
        e = match_close(T, i + 2)
        args = [(a, b) for a, b in split_top(T, i + 3, e) if b > a]
        fm = f.text[T[args[0][0]].a:T[args[0][1] - 1].b]
        text = ""
        if len(args) > 1:
            if T[args[1][0]].k != "str" or not T[args[1][0]].s.startswith('"'):
                raise Lost("%s: write!" % f.name)
            text = unescape(T[args[1][0]].s[1:-1])
        if T[i].s == "writeln":
            text += "\n"
        rest = list(args[2:])

        def conv(arg, ctx, i=i, fm=fm, rest=rest):
            name, spec = arg[1], arg[2]
            if name:
                a = b = None
                txt = name
            else:
                if not rest:
                    raise Lost("%s: arguments of write!" % f.name)
                a, b = rest.pop(0)
                txt = f.text[T[a].a:T[b - 1].b]
                name = T[a].s if b - a == 1 else None
            if ctx == '"':
                return ["%s.vx_str(&%s)" % (fm, txt)] if not spec else [other]
            if ctx == ";":
                return ["%s.vx_comment(%s)" % (fm, commented(txt, a, b))]
            if name is None:
                if norm(T[a:b]).startswith("*") and T[b - 1].k == "id" and b - a == 2:
                    name = txt = T[b - 1].s
                else:
                    return [other]
            ty = [x[3] for x in bound if x[0] <= i < x[1] and x[2] == name]
            if not ty:
                raise Lost("%s: type of %s" % (f.name, name))
            ty = ty[-1]
            if ty in ("usize", "i32"):
                m = re.fullmatch(r"(?:0\d+)?([xXob]?)", spec)
                r = exprs.DIGITS.get((ctx, m.group(1))) if m else None
                return ["%s.%s(%s, Ghost(Radix::%s))" % (fm, "vx_size" if ty == "usize" else "vx_num", txt, r)] if r else [other]
            if spec or ctx:
                return [other]
            if ty == "String":
                return ["%s.%s(%s)" % (fm, "vx_text" if name == "comment" else "vx_name", txt)]
            return ["%s.fmt(%s)" % (txt, fm)]

        def commented(txt, a, b):
            if a is None or b - a == 1:
                return txt
            # `t.replace(from, to)`, `t[n..].replace(from, to)`
            if T[a].k == "id" and T[b - 1].s == ")":
                o = next(k for k in range(a, b) if T[k].s == "replace")
                if match_close(T, o + 1) == b - 1 and T[o - 1].s == ".":
                    inner = f.text[T[o + 1].b:T[b - 1].a]
                    if o == a + 2:
                        return "&vx_replace(%s.as_str(), %s)" % (T[a].s, inner)
                    if T[a + 1].s == "[" and match_close(T, a + 1) == o - 2 and T[o - 3].s == "..":
                        return "&vx_replace(vx_from(%s.as_str(), %s), %s)" % (T[a].s, f.text[T[a + 1].b:T[o - 3].a], inner)
            raise Lost("%s: comment" % f.name)

        other = "Other"
        at = atoms(text)
        calls = tokens_of(at, conv, other)
        if rest:
            raise Lost("%s: arguments of write!" % f.name)
        # a word with nothing after it, when more is written next
        if at and isinstance(at[-1], str) and (at[-1].isalnum() or at[-1] in "_.$") and T[e + 1].s == "?":
            calls.append(other)
        calls = [c if re.match(r"[^\"]*\.(vx_|fmt)", c) else "%s.vx_tok(Ghost(K::%s))" % (fm, c) for c in calls]
        expr = "Ok::<(), fmt::Error>(())"
        for x in reversed(calls):
            expr = x if expr.startswith("Ok::") else "(match %s { Ok(()) => %s, Err(vx_e) => Err(vx_e) })" % (x, expr)
        f.rep(T[i].a, T[e].b, expr)
        i = e + 1


def print_types(u, srcs):
    import isa as isac
    a = srcs[AST]
    exprs.types(u, srcs)
    u.raw("use vstd::utf8::*;\nuse vstd::string::*;")
    u.item(re.sub(r"^(pub )?", "pub ", isac.enum_item(srcs[INS]), count=1), INS + ": enum Instr")
    core.items(u, a, "enum ByteValue", "enum IncludeHeader", "enum SpriteType", "enum IncludeType", "enum Directive", "enum Statement",
               "struct MacroIdentifier", "struct MacroDefinition", "enum MacroStatement", "struct Statements")
    u.raw("#[verifier::external_body]\n#[verifier::reject_recursive_types(A)]\n#[verifier::reject_recursive_types(B)]\npub struct HashMap<A, B> { a: std::marker::PhantomData<(A, B)> }")
    u.lemmas(exprs.LEMMAS)
    u.lemmas(exprs.COMPLETE)
    u.raw(exprs.PRINT_SPEC)
    u.raw(literals.STR)
    u.raw(ESC.split("/// how a character")[0])
    u.raw(COMMENT)
    u.raw(formatter(), "assumed")
    u.raw(value_spec())
    u.lemmas(exprs.PRINT_LEMMAS[:exprs.PRINT_LEMMAS.index("broadcast proof fn b_paren")])
    u.lemmas(PUT_LEMMAS)
    u.assumed.append("the text written by fmt::Formatter is read by the lexer as the tokens of its pieces, one after the other; a name is read as named(name), "
                     "digits with the prefix of their radix as that number, a literal between quotes as its text (the escapes are proved), a comment as nothing")


def tables(srcs):
    a = srcs[AST]
    t = {n: variants(a.find("enum " + n).text) for n in ("Statement", "Directive", "ByteValue", "IncludeType")}
    t["Instr"] = variants(srcs[INS].find("enum Instr").text, {"Ex": "Expr", "E": "Expr", "IM": "IndirectionMode"})
    t["IndirectionMode"] = {}
    t["fields"] = fields(a.find("struct Statements").text)
    return t


def build_print(srcs, gen):
    u = Unit("stmts_print")
    print_types(u, srcs)
    a, e = srcs[AST], srcs["src/expression.rs"]
    tb = tables(srcs)
    FM = lambda n: "r is Ok ==> " + n
    f, (p,) = forms.params(e.find("impl fmt::Display for Expr", "fn fmt").text, 1)
    u.fn(f, "src/expression.rs: Display for Expr", impl="impl Expr", mode="assume", req=["fine_tree(tree(*self))"],
         ens=["r is Ok ==> wrote(old(%s)@, final(%s)@, tree(*self))" % (p, p)])
    u.dropped.append("Display for Expr: by its contract, which is proved for C17; Display for .include and for macro calls (expand leaves none)")
    u.raw(lines.CUT, "assumed")
    u.raw(COMMENT_STD, "assumed")
    u.lemmas(literals.high_bytes())
    u.lemmas(literals.STR_LEMMAS)
    u.lemmas(COMMENT_LEMMAS)
    es = Fn(a.find("fn escape_string").text)
    u.fn(es, AST + ": escape_string", mode="assume", req=["valid_utf8(bytes@)"], ens=["one_literal(r@)", "encode_utf8(text_of(r@)) == bytes@"])

    f, (p,) = forms.params(e.find("impl fmt::Display for IndirectionMode", "fn fmt").text, 1)
    writes(u, f, tb, "IndirectionMode")
    f.body_start("broadcast use put_facts; let ghost vx_r = reg(*self);")
    u.fn(f, "src/expression.rs: Display for IndirectionMode", impl="impl IndirectionMode", ens=[FM("wrote_val(old(%s)@, final(%s)@, V::Ind(*self))" % (p, p))])

    f, (p,) = forms.params(a.find("impl fmt::Display for ByteValue", "fn fmt").text, 1)
    writes(u, f, tb, "ByteValue")
    f.body_start("broadcast use put_facts;")
    u.fn(f, AST + ": Display for ByteValue", impl="impl ByteValue", req=["fine_byte(*self)"], ens=[FM("wrote_val(old(%s)@, final(%s)@, byte_val(*self))" % (p, p))])

    f, (p,) = forms.params(srcs[INS].find("impl fmt::Display for Instr<Expr,IndirectionMode>", "fn fmt").text, 1)
    writes(u, f, tb, "Instr")
    f.body_start("broadcast use put_facts;")
    u.fn(f, INS + ": Display for Instr", impl="impl Instr<Expr, IndirectionMode>", req=["fine_instr(*self)"],
         ens=[FM("put(old(%s)@, final(%s)@, seq![K::Name(mnemonic(*self))], operands(*self))" % (p, p))])

    f, (p,) = forms.params(a.find("impl fmt::Display for Directive", "fn fmt").text, 1)
    writes(u, f, tb, "Directive", ("Directive::Include",))
    T = f.toks
    kept = [i for i, (kind, t, kin, ob, cb) in enumerate(f.loops) if kind == "for"]
    if len(kept) < 2:
        raise Lost("Directive::fmt: loops")
    for i, of in zip(kept[:2], ("byte", "word")):
        kind, t, kin, ob, cb = f.loops[i]
        if ob != kin + 2 and norm(T[kin + 2:ob]) != ".iter()":
            raise Lost("Directive::fmt: loop over a list")
        w, x = T[kin + 1].s, T[t + 1].s
        if ob == kin + 2:
            f.ins(T[kin + 1].b, ".iter()")
        f.loop(i, "it", "                    invariant it.seq().len() == %s@.len(), forall|i: int| 0 <= i < %s@.len() ==> *(#[trigger] it.seq()[i]) == %s@[i],\n"
               "                        forall|i: int| 0 <= i < %s@.len() ==> %s,\n"
               "                        first == (it.index() == 0), put(old(%s)@, %s@, vx_h, %s_vals(%s@.take(it.index()))),"
               % (w, w, w, w, "fine_byte(#[trigger] %s@[i])" % w if of == "byte" else "fine_tree(tree(#[trigger] %s@[i]))" % w, p, p, of, w),
               before="proof { assert(%s_vals(%s@.take(0)) =~= Seq::empty()); }" % (of, w),
               start="broadcast use put_facts; let ghost vx_v = %s_vals(%s@.take(it.index())); let ghost vx_n = it.index() as int; let ghost vx_f = %s@;" % (of, w, p),
               end="proof { let v = %s; assert(*%s == %s@[vx_n]); assert(%s_vals(%s@.take(vx_n + 1)) =~= vx_v.push(v));\n"
                   "    if vx_n == 0 { assert(vx_v =~= Seq::empty()); assert(vx_v.push(v) =~= seq![v]); assert(wrote_val(vx_f, %s@, v)); }\n"
                   "    else { assert(wrote_val(vx_f.push(K::Comma), %s@, v)); }\n"
                   "    assert(put(old(%s)@, %s@, vx_h, vx_v.push(v))); }"
                   % (("byte_val(*%s)" if of == "byte" else "V::Ex(tree(*%s))") % x, x, w, of, w, p, p, p, p),
               after="proof { assert(%s@.take(%s@.len() as int) =~= %s@); }" % (w, w, w))
    f.body_start("broadcast use put_facts; let ghost vx_h = dir_head(*self);")
    u.fn(f, AST + ": Display for Directive", impl="impl Directive", req=["fine_dir(*self)"],
         ens=[FM("put(old(%s)@, final(%s)@, dir_head(*self), dir_vals(*self))" % (p, p))])

    f, (p,) = forms.params(a.find("impl fmt::Display for Statement ", "fn fmt").text, 1)
    writes(u, f, tb, "Statement", ("Statement::MacroCall",))
    f.replace("comment . trim ( ) . is_empty ( )", "vx_blank_text(comment)")
    f.replace("comment . starts_with (", "vx_starts(comment, ")
    f.body_start("broadcast use put_facts; proof { separator(); }")
    u.fn(f, AST + ": Display for Statement", impl="impl Statement", req=["fine_stmt(*self)"], ens=[FM("said(old(%s)@, final(%s)@, *self)" % (p, p))])

    f, (p,) = forms.params(a.find("impl fmt::Display for Statements", "fn fmt").text, 1)
    writes(u, f, tb, "Statements")
    kind, t, kin, ob, cb = f.loops[0] if f.loops else (None,) * 5
    if kind != "for" or f.toks[t + 1].k != "id":
        raise Lost("Statements::fmt: loop")
    x = f.toks[t + 1].s
    W = "self.statements@"
    f.loop(0, "it", "            invariant it.seq().len() == %s.len(), forall|i: int| 0 <= i < %s.len() ==> *(#[trigger] it.seq()[i]) == %s[i],\n"
           "                forall|i: int| 0 <= i < %s.len() ==> fine_stmt(#[trigger] %s[i]),\n"
           "                first == (it.index() == 0), program(old(%s)@, %s@, %s.take(it.index())),\n" % (W, W, W, W, W, p, p, W),
           start="broadcast use put_facts; let ghost vx_n = it.index() as int; let ghost vx_c = %s@; let ghost vx_d = if first { vx_c } else { vx_c.push(K::Eol) };" % p,
           end="proof { let s = %s.take(vx_n + 1); assert(*%s == %s[vx_n]); assert(s.drop_last() =~= %s.take(vx_n)); assert(quiet(vx_c, vx_c, 0)); assert(between(vx_c, vx_d, s.len() as int));\n"
               "    assert(said(vx_d, %s@, s.last())); }" % (W, x, W, W, p),
           after="proof { assert(%s.take(%s.len() as int) =~= %s); }" % (W, W, W))
    u.fn(f, AST + ": Display for Statements", impl="impl Statements", req=["forall|i: int| 0 <= i < %s.len() ==> fine_stmt(#[trigger] %s[i])" % (W, W)],
         ens=[FM("program(old(%s)@, final(%s)@, %s)" % (p, p, W))])
    return u
