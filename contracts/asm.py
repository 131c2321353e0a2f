"""Contracts of the two passes of the assembler (C06, C07, C08)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "spec"))
import core  # noqa: E402
import isa as isac  # noqa: E402
import isatab as isa  # noqa: E402
from rustx import Fn, Lost, lex, match_close, norm  # noqa: E402,F401
from vunit import Unit  # noqa: E402

FOREIGN = """
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::string::FromUtf8Error);
pub mod image { #[verifier::external_body] pub struct ImageError { x: u8 } }
#[verifier::external_body] pub struct Token { x: u8 }
#[verifier::external_body] pub struct Location { x: u8 }
use std::path::PathBuf;
"""

PANIC = """
/// every panic of the code under contract must be shown to be unreachable
macro_rules! panic { ($($t:tt)*) => { panics() } }
#[verifier::external_body]
fn panics() -> !
    requires false,
{ unimplemented!() }
"""

OWNED = """
/// to_owned of a type that has Clone is clone
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (x: &T) -> (r: T)
    ensures call_ensures(T::clone, (x,), r);
"""

KEYS = """
impl<K: KeyView, V> HashMap<K, V> {
    /// the keys that `keys()` visits: each key once, in some order
    #[verifier::external_body]
    pub fn key_list(&self) -> (r: &Vec<K>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).kv()),
            forall|k: K::KV| self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).kv() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).kv() != (#[trigger] r@[j]).kv(),
    { unimplemented!() }
}
"""

LAYOUT = """
pub open spec fn blen(b: ByteValue) -> int { match b { ByteValue::Expr(_) => 1, ByteValue::String(_, v) => v@.len() as int } }
/// number of bytes of the first n items
pub open spec fn bytes_len(s: Seq<ByteValue>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { bytes_len(s, n - 1) + blen(s[n - 1]) } }

pub open spec fn literal(e: Expr) -> Option<int> { match e { Expr::Number(_, n, _) => Some(n as int), _ => None } }

/// the smallest multiple of m not below pos; pos when there is nothing to align to
pub open spec fn align(pos: int, m: int) -> int { if m <= 0 { pos } else { (pos + m - 1) / m * m } }

/// the position behind a statement at pos; None when there is none
spec fn goes_to(st: Statement, pos: int) -> Option<int> {
    let p = match st {
        Statement::Directive(Directive::Byte(_, b)) => Some(pos + bytes_len(b@, b@.len() as int)),
        Statement::Directive(Directive::Word(_, w)) => Some(pos + 2 * w@.len()),
        Statement::Directive(Directive::Text(_, n, _)) => Some(pos + n),
        Statement::Directive(Directive::String(_, n, _)) => Some(pos + n),
        Statement::Directive(Directive::Org(_, l)) => Some(l as int),
        Statement::Directive(Directive::Cnop(_, a, m)) => match (literal(a), literal(m)) {
            (Some(a), Some(m)) => Some(align(pos, m) + a),
            _ => None,
        },
        Statement::Directive(Directive::Include(_, _, _)) => Some(pos),
        Statement::Instr(_, i) => Some(pos + ilen(i)),
        _ => Some(pos),
    };
    match p { Some(q) => if q <= 0x7fff_ffff { Some(q) } else { None }, None => None }
}

/// the position of statement n
spec fn at(s: Seq<Statement>, n: int) -> Option<int>
    decreases n
{
    if n <= 0 { Some(0) } else { match at(s, n - 1) { Some(p) => goes_to(s[n - 1], p), None => None } }
}

/// the highest position that the first n statements reach
spec fn top(s: Seq<Statement>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else {
        let p = match at(s, n) { Some(p) => p, None => 0 };
        if p > top(s, n - 1) { p } else { top(s, n - 1) }
    }
}

/// what holds of every statement that the parser produces and that is left after includes and macros are replaced
spec fn wf_st(st: Statement) -> bool {
    match st {
        Statement::Directive(Directive::Byte(_, b)) => bytes_len(b@, b@.len() as int) <= 0x7fff_ffff,
        Statement::Directive(Directive::Word(_, w)) => 2 * w@.len() <= 0x7fff_ffff,
        Statement::Directive(Directive::Text(_, n, _)) => n <= 0x7fff_ffff,
        Statement::Directive(Directive::String(_, n, _)) => n <= 0x7fff_ffff,
        Statement::Directive(Directive::Org(_, l)) => l <= 0x7fff_ffff,
        Statement::Directive(Directive::Cnop(_, a, m)) =>
            (match literal(a) { Some(x) => x >= 0, None => true }) && (match literal(m) { Some(x) => x >= 0, None => true }),
        Statement::Directive(Directive::Include(_, _, _)) => false,
        Statement::MacroCall(_, _, _) => false,
        Statement::Label(_, n) => n@.len() > 0,
        _ => true,
    }
}
spec fn wf_all(s: Seq<Statement>) -> bool { forall|k: int| 0 <= k < s.len() ==> wf_st(#[trigger] s[k]) }
"""

LAYOUT_LEMMAS = """
proof fn bytes_len_grows(s: Seq<ByteValue>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures 0 <= bytes_len(s, a) <= bytes_len(s, b),
    decreases b
{
    if b > 0 {
        if a < b { bytes_len_grows(s, a, b - 1); } else { bytes_len_grows(s, b - 1, b - 1); }
    }
}

proof fn align_is(pos: int, m: int, x: int)
    requires m > 0, pos >= 0, x % m == 0, pos <= x, x == 0 || x - m < pos, x >= 0,
    ensures align(pos, m) == x,
{
    let q = x / m;
    assert(x == q * m) by (nonlinear_arith) requires x % m == 0, m > 0, q == x / m;
    assert((pos + m - 1) / m == q) by {
        if x == 0 {
            assert(pos == 0);
            assert((m - 1) / m == 0) by (nonlinear_arith) requires m > 0;
        } else {
            let r = pos + m - 1 - x;
            assert(0 <= r < m);
            assert((q * m + r) / m == q) by (nonlinear_arith) requires 0 <= r < m, m > 0;
        }
    }
}

proof fn align_bounds(pos: int, m: int)
    requires pos >= 0,
    ensures align(pos, m) >= pos, m > 0 ==> align(pos, m) % m == 0 && align(pos, m) < pos + m,
{
    if m > 0 {
        let x = pos + m - 1;
        let q = x / m;
        assert(x - m < q * m <= x) by (nonlinear_arith) requires m > 0, q == x / m;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q, m);
    }
}

proof fn next_mult(x: int, m: int)
    requires m > 0, x % m == 0,
    ensures (x + m) % m == 0,
{
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x, m);
}

/// positions are never negative
proof fn goes_up(st: Statement, pos: int)
    requires wf_st(st), pos >= 0,
    ensures
        goes_to(st, pos) is Some ==> goes_to(st, pos)->0 >= 0,
        goes_to(st, pos) is Some && !(st is Directive && st->Directive_0 is Org) ==> goes_to(st, pos)->0 >= pos,
{
    match st {
        Statement::Directive(Directive::Byte(_, b)) => { bytes_len_grows(b@, 0, b@.len() as int); },
        Statement::Directive(Directive::Cnop(_, a, m)) => {
            if let Some(m) = literal(m) { align_bounds(pos, m); }
        },
        _ => {},
    }
}

/// the position of every statement up to n is there, not negative and not above the top
proof fn at_there(s: Seq<Statement>, k: int, n: int)
    requires wf_all(s), 0 <= k <= n <= s.len(), at(s, n) is Some,
    ensures at(s, k) is Some, 0 <= at(s, k)->0 <= 0x7fff_ffff, at(s, k)->0 <= top(s, n), 0 <= top(s, n) <= 0x7fff_ffff,
    decreases n
{
    if n > 0 {
        if k < n { at_there(s, k, n - 1); }
        else {
            at_there(s, n - 1, n - 1);
            goes_up(s[n - 1], at(s, n - 1)->0);
        }
    }
}

/// C06: the output is no longer than needed: some statement ends at its last byte
proof fn top_is_reached(s: Seq<Statement>, n: int)
    requires 0 <= n, top(s, n) > 0,
    ensures exists|k: int| 0 < k <= n && at(s, k) == Some(top(s, n)),
    decreases n
{
    if n > 0 {
        let p = match at(s, n) { Some(p) => p, None => 0 };
        if p > top(s, n - 1) { assert(at(s, n) == Some(top(s, n))); } else { top_is_reached(s, n - 1); }
    }
}
"""

TABLES = """
/// everything a says, b says too
pub open spec fn within(a: Map<Seq<char>, i32>, b: Map<Seq<char>, i32>) -> bool {
    forall|x: Seq<char>| #[trigger] a.dom().contains(x) ==> b.dom().contains(x) && b[x] == a[x]
}
pub open spec fn vals(m: Map<Seq<char>, NameValue>) -> Map<Seq<char>, i32> { m.map_values(|v: NameValue| v.value) }

/// the global labels among the first n statements, each with the position at which it stands
spec fn glabels(s: Seq<Statement>, n: int) -> Map<Seq<char>, i32>
    decreases n
{
    if n <= 0 { Map::empty() } else {
        match s[n - 1] {
            Statement::Label(_, name) => if dotted(name@) { glabels(s, n - 1) }
                else { glabels(s, n - 1).insert(lower(name@), at(s, n - 1)->0 as i32) },
            _ => glabels(s, n - 1),
        }
    }
}

/// the global label in force at statement n; the empty text before the first
spec fn region_at(s: Seq<Statement>, n: int) -> Seq<char>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        match s[n - 1] {
            Statement::Label(_, name) => if dotted(name@) { region_at(s, n - 1) } else { lower(name@) },
            _ => region_at(s, n - 1),
        }
    }
}

/// the local labels since that global label
spec fn llabels(s: Seq<Statement>, n: int) -> Map<Seq<char>, i32>
    decreases n
{
    if n <= 0 { Map::empty() } else {
        match s[n - 1] {
            Statement::Label(_, name) => if dotted(name@) { llabels(s, n - 1).insert(lower(name@), at(s, n - 1)->0 as i32) }
                else { Map::empty() },
            _ => llabels(s, n - 1),
        }
    }
}

/// the local labels of each region that has ended
spec fn ended_at(s: Seq<Statement>, n: int) -> Map<Seq<char>, Map<Seq<char>, i32>>
    decreases n
{
    if n <= 0 { Map::empty() } else {
        match s[n - 1] {
            Statement::Label(_, name) => if dotted(name@) { ended_at(s, n - 1) }
                else { ended_at(s, n - 1).insert(region_at(s, n - 1), llabels(s, n - 1)) },
            _ => ended_at(s, n - 1),
        }
    }
}

/// the local labels of each region
spec fn alocals(s: Seq<Statement>) -> Map<Seq<char>, Map<Seq<char>, i32>> {
    ended_at(s, s.len() as int).insert(region_at(s, s.len() as int), llabels(s, s.len() as int))
}

/// some label among the first n statements is defined for the second time
spec fn twice(s: Seq<Statement>, n: int) -> bool
    decreases n
{
    n > 0 && (twice(s, n - 1) || match s[n - 1] {
        Statement::Label(_, name) => if dotted(name@) { llabels(s, n - 1).dom().contains(lower(name@)) }
            else { glabels(s, n - 1).dom().contains(lower(name@)) },
        _ => false,
    })
}

pub open spec fn in_map(m: Map<Seq<char>, i32>) -> spec_fn(Seq<char>) -> Option<i32> { |n: Seq<char>| get_in(m, n) }

/// all global labels, and the definitions among the first n statements; None when one of them is no good
spec fn defs(s: Seq<Statement>, n: int) -> Option<Map<Seq<char>, i32>>
    decreases n
{
    if n <= 0 { Some(glabels(s, s.len() as int)) } else {
        match defs(s, n - 1) {
            None => None,
            Some(m) => match s[n - 1] {
                Statement::Variable(_, name, e) | Statement::Alias(_, name, e) => match ev(e, in_map(m)) {
                    Some(v) => if m.dom().contains(lower(name@)) { None } else { Some(m.insert(lower(name@), v as i32)) },
                    None => None,
                },
                _ => Some(m),
            },
        }
    }
}

/// a definition is made for the second time
spec fn redefined(s: Seq<Statement>, n: int) -> bool
    decreases n
{
    n > 0 && (redefined(s, n - 1) || match s[n - 1] {
        Statement::Variable(_, name, e) | Statement::Alias(_, name, e) => match defs(s, n - 1) {
            Some(m) => m.dom().contains(lower(name@)),
            None => false,
        },
        _ => false,
    })
}

/// a definition has no value, for this reason
spec fn undefined(s: Seq<Statement>, n: int, w: Why) -> bool
    decreases n
{
    n > 0 && (undefined(s, n - 1, w) || match s[n - 1] {
        Statement::Variable(_, name, e) | Statement::Alias(_, name, e) => match defs(s, n - 1) {
            Some(m) => ev(e, in_map(m)) is None && fails(e, in_map(m), w),
            None => false,
        },
        _ => false,
    })
}

/// the name tables of the program
spec fn tables(s: Seq<Statement>, names: Names) -> bool {
    &&& defs(s, s.len() as int) == Some(names.globals@)
    &&& names.locals@.dom() =~= alocals(s).dom()
    &&& forall|k: Seq<char>| names.locals@.dom().contains(k) ==> (#[trigger] names.locals@[k])@ == alocals(s)[k]
}

/// x is a reason for the program to have no name tables
spec fn names_error(s: Seq<Statement>, x: AssemblyError) -> bool {
    let n = s.len() as int;
    ||| x is NameAlreadyExists && (twice(s, n) || redefined(s, n))
    ||| at(s, n) is None
    ||| match awhy(x) { Some(w) => undefined(s, n, w), None => false }
}

/// the labels among the first k statements
spec fn so_far(s: Seq<Statement>, k: int, g: HashMap<String, NameValue>, l: HashMap<String, NameValue>,
               e: HashMap<String, HashMap<String, NameValue>>) -> bool {
    &&& vals(g@) =~= glabels(s, k)
    &&& vals(l@) =~= llabels(s, k)
    &&& e@.dom() =~= ended_at(s, k).dom()
    &&& forall|r: Seq<char>| e@.dom().contains(r) ==> vals((#[trigger] e@[r])@) == ended_at(s, k)[r]
}

/// the labels of the program
spec fn label_tables(s: Seq<Statement>, b: NamesBuilder) -> bool {
    &&& vals(b.globals@) == glabels(s, s.len() as int)
    &&& b.locals@.dom() =~= alocals(s).dom()
    &&& forall|k: Seq<char>| b.locals@.dom().contains(k) ==> vals((#[trigger] b.locals@[k])@) == alocals(s)[k]
}
"""

TABLE_LEMMAS = """
/// a region is a global label that has been defined, or the start of the program
proof fn region_known(s: Seq<Statement>, n: int)
    requires wf_all(s), 0 <= n <= s.len(),
    ensures region_at(s, n).len() == 0 || glabels(s, n).dom().contains(region_at(s, n)),
        !glabels(s, n).dom().contains(Seq::<char>::empty()),
    decreases n
{
    if n > 0 {
        region_known(s, n - 1);
        if let Statement::Label(_, name) = s[n - 1] { lower_len(name@); }
    }
}

/// ended regions are earlier ones, and not the current one
proof fn ended_known(s: Seq<Statement>, n: int)
    requires wf_all(s), 0 <= n <= s.len(), !twice(s, n),
    ensures
        forall|k: Seq<char>| ended_at(s, n).dom().contains(k) ==> k.len() == 0 || glabels(s, n).dom().contains(k),
        !ended_at(s, n).dom().contains(region_at(s, n)),
    decreases n
{
    if n > 0 {
        ended_known(s, n - 1);
        region_known(s, n - 1);
        if let Statement::Label(_, name) = s[n - 1] { lower_len(name@); }
    }
}

/// C08: whatever is used at statement k finds the local labels of its own region in the final tables
proof fn own_region(s: Seq<Statement>, k: int, n: int)
    requires wf_all(s), 0 <= k <= n <= s.len(), !twice(s, n),
    ensures
        region_at(s, k) == region_at(s, n) || ended_at(s, n).dom().contains(region_at(s, k)),
        region_at(s, k) == region_at(s, n) ==> within(llabels(s, k), llabels(s, n)),
        region_at(s, k) != region_at(s, n) ==> within(llabels(s, k), ended_at(s, n)[region_at(s, k)]),
    decreases n
{
    if k < n {
        own_region(s, k, n - 1);
        region_known(s, n - 1);
        region_known(s, k);
        ended_known(s, n - 1);
        if let Statement::Label(_, name) = s[n - 1] { lower_len(name@); }
        globals_stay(s, k, n - 1);
    }
}

proof fn globals_stay(s: Seq<Statement>, k: int, n: int)
    requires 0 <= k <= n <= s.len(), !twice(s, n),
    ensures !twice(s, k), within(glabels(s, k), glabels(s, n)),
    decreases n
{
    if k < n { globals_stay(s, k, n - 1); }
}

proof fn defs_stay(s: Seq<Statement>, k: int, n: int)
    requires 0 <= k <= n <= s.len(), defs(s, n) is Some,
    ensures defs(s, k) is Some, within(defs(s, k)->0, defs(s, n)->0),
    decreases n
{
    if k < n { defs_stay(s, k, n - 1); }
}

/// C06, C08: a label means the position at which it stands, wherever it may be used
proof fn label_means_position(s: Seq<Statement>, names: Names, k: int, u: int)
    requires wf_all(s), tables(s, names), 0 <= k < s.len(), 0 <= u <= s.len(), !twice(s, s.len() as int),
        at(s, s.len() as int) is Some, s[k] is Label,
    ensures
        !dotted(s[k]->Label_1@) ==> at_label(names, region_at(s, u))(lower(s[k]->Label_1@)) == Some(at(s, k)->0 as i32),
        dotted(s[k]->Label_1@) && region_at(s, u) == region_at(s, k)
            ==> at_label(names, region_at(s, u))(lower(s[k]->Label_1@)) == Some(at(s, k)->0 as i32),
{
    let n = s.len() as int;
    lower_dot(s[k]->Label_1@);
    globals_stay(s, k + 1, n);
    defs_stay(s, 0, n);
    own_region(s, k + 1, n);
    own_region(s, u, n);
    if !dotted(s[k]->Label_1@) { assert(glabels(s, k + 1).dom().contains(lower(s[k]->Label_1@))); }
    else {
        assert(llabels(s, k + 1).dom().contains(lower(s[k]->Label_1@)));
        assert(alocals(s).dom().contains(region_at(s, k)));
    }
}

/// C08: a definition means its value, in every operand
proof fn definition_means_value(s: Seq<Statement>, names: Names, k: int, u: int)
    requires tables(s, names), 0 <= k < s.len(), 0 <= u <= s.len(),
        match s[k] { Statement::Variable(_, n, _) | Statement::Alias(_, n, _) => !dotted(lower(n@)), _ => false },
    ensures match s[k] {
        Statement::Variable(_, n, e) | Statement::Alias(_, n, e) => {
            &&& ev(e, in_map(defs(s, k)->0)) is Some
            &&& at_label(names, region_at(s, u))(lower(n@)) == Some(ev(e, in_map(defs(s, k)->0))->0 as i32)
        },
        _ => false,
    },
{
    defs_stay(s, k + 1, s.len() as int);
    match s[k] {
        Statement::Variable(_, n, e) | Statement::Alias(_, n, e) => { assert(defs(s, k + 1)->0.dom().contains(lower(n@))); },
        _ => {},
    }
}
"""

LOWER_FACTS = """
pub axiom fn lower_dot(s: Seq<char>)
    ensures dotted(lower(s)) == dotted(s);
pub axiom fn lower_len(s: Seq<char>)
    ensures s.len() > 0 ==> lower(s).len() > 0;
"""

EMIT = """
/// the bytes of one item of .byte
spec fn item_bytes(b: ByteValue, m: spec_fn(Seq<char>) -> Option<i32>) -> Option<Seq<u8>> {
    match b {
        ByteValue::Expr(e) => match ev(e, m) {
            Some(v) => if -128 <= v <= 255 { Some(seq![(v % 256) as u8]) } else { None },
            None => None,
        },
        ByteValue::String(_, v) => Some(v@),
    }
}
spec fn byte_list(s: Seq<ByteValue>, n: int, m: spec_fn(Seq<char>) -> Option<i32>) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (byte_list(s, n - 1, m), item_bytes(s[n - 1], m)) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
/// .word: low byte first
spec fn word_list(s: Seq<Expr>, n: int, m: spec_fn(Seq<char>) -> Option<i32>) -> Option<Seq<u8>>
    decreases n
{
    if n <= 0 { Some(Seq::empty()) } else {
        match (word_list(s, n - 1, m), ev(s[n - 1], m)) {
            (Some(a), Some(v)) => if -32768 <= v <= 65535 { Some(a.push((v % 256) as u8).push((v % 65536 / 256) as u8)) } else { None },
            _ => None,
        }
    }
}
spec fn padded(b: Seq<u8>, size: int, p: u8) -> Option<Seq<u8>> {
    if b.len() <= size { Some(b + Seq::new((size - b.len()) as nat, |i: int| p)) } else { None }
}

/// C07: the bytes that a directive emits; None when it is an error
spec fn data(d: Directive, m: spec_fn(Seq<char>) -> Option<i32>) -> Option<Seq<u8>> {
    match d {
        Directive::Byte(_, b) => byte_list(b@, b@.len() as int, m),
        Directive::Word(_, w) => word_list(w@, w@.len() as int, m),
        Directive::Text(_, n, b) => padded(b@, n as int, 32),
        Directive::String(_, n, b) => padded(b@, n as int, 0),
        Directive::Org(_, l) => if l <= 0xFFFF { Some(Seq::empty()) } else { None },
        _ => Some(Seq::empty()),
    }
}

/// why an evaluation error of the assembler arose
pub open spec fn awhy(x: AssemblyError) -> Option<Why> {
    match x {
        AssemblyError::NameNotFound(_, _) => Some(Why::NoName),
        AssemblyError::DivideByZero(_, _) => Some(Why::DivZero),
        AssemblyError::ArithmeticOverflow(_) => Some(Why::Overflow),
        AssemblyError::MacroLabelOutsideOfMacro(_) => Some(Why::MacroLabel),
        AssemblyError::MacroArgOutsideOfMacro(_) => Some(Why::MacroArg),
        AssemblyError::MustBeLiteralNumber(_) => Some(Why::Other),
        AssemblyError::ImmediateValueNotAllowedHere(_) => Some(Why::Other),
        AssemblyError::IndirectionModeNotAllowedHere(_) => Some(Why::Other),
        AssemblyError::InvalidMacroArg(_) => Some(Why::Other),
        _ => None,
    }
}
/// the assembler's error for an operand that is rejected
pub open spec fn same_enc(y: EncodingError, x: AssemblyError) -> bool {
    match y {
        EncodingError::NumOutOfRange { bits, value, .. } =>
            x is NumOutOfRange && x->NumOutOfRange_bits == bits && x->NumOutOfRange_value == value,
        EncodingError::SignedNumOutOfRange { bits, value, .. } =>
            x is SignedNumOutOfRange && x->SignedNumOutOfRange_bits == bits && x->SignedNumOutOfRange_value == value,
        EncodingError::InvalidAddress { value, .. } => x is InvalidAddress && x->InvalidAddress_value == value,
        EncodingError::AddrBitsDontMatch { pos, value, .. } =>
            x is AddrBitsDontMatch && x->AddrBitsDontMatch_pos == pos && x->AddrBitsDontMatch_value == value,
        EncodingError::EvalError(e) => awhy(x) == Some(why(e)),
    }
}
/// x says that this expression has no value
spec fn no_value(e: Expr, m: spec_fn(Seq<char>) -> Option<i32>, x: AssemblyError) -> bool {
    match awhy(x) { Some(w) => ev(e, m) is None && fails(e, m, w), None => false }
}
/// x is a reason to reject this directive
spec fn bad_data(d: Directive, m: spec_fn(Seq<char>) -> Option<i32>, x: AssemblyError) -> bool {
    match d {
        Directive::Byte(_, b) => exists|k: int| 0 <= k < b@.len() && match #[trigger] b@[k] {
            ByteValue::Expr(e) => no_value(e, m, x) || match x {
                AssemblyError::ByteOutOfRange { value, .. } => ev(e, m) == Some(value as int) && !(-128 <= value <= 255),
                _ => false,
            },
            _ => false,
        },
        Directive::Word(_, w) => exists|k: int| 0 <= k < w@.len() && (no_value(#[trigger] w@[k], m, x) || match x {
            AssemblyError::WordOutOfRange { value, .. } => ev(w@[k], m) == Some(value as int) && !(-32768 <= value <= 65535),
            _ => false,
        }),
        Directive::Text(_, n, b) | Directive::String(_, n, b) =>
            x is NumberOfBytesIsLongerThanLength && b@.len() > n,
        Directive::Org(_, l) => x is InvalidCodeLocation && l > 0xFFFF,
        _ => false,
    }
}

/// writing c at pos
spec fn put(out: Seq<u8>, pos: int, c: Seq<u8>) -> Seq<u8> {
    Seq::new(out.len(), |i: int| if pos <= i < pos + c.len() { c[i - pos] } else { out[i] })
}
/// C06: every statement's bytes at its position, later ones over earlier ones
spec fn laid(s: Seq<Statement>, cs: Seq<Seq<u8>>, n: int, out: Seq<u8>) -> Seq<u8>
    decreases n
{
    if n <= 0 { out } else { put(laid(s, cs, n - 1, out), at(s, n - 1)->0, cs[n - 1]) }
}
/// a statement's bytes fill the space reserved for it
spec fn fills(st: Statement, pos: int, c: Seq<u8>) -> bool {
    match st {
        Statement::Directive(Directive::Org(_, _)) | Statement::Directive(Directive::Cnop(_, _, _)) => c.len() == 0,
        _ => goes_to(st, pos) == Some(pos + c.len()),
    }
}
"""

EMIT_LEMMAS = """
proof fn put_push(out: Seq<u8>, pos: int, c: Seq<u8>, b: u8)
    requires 0 <= pos, pos + c.len() < out.len(),
    ensures put(out, pos, c).update(pos + c.len(), b) =~= put(out, pos, c.push(b)),
{
}

proof fn byte_list_none(s: Seq<ByteValue>, k: int, n: int, m: spec_fn(Seq<char>) -> Option<i32>)
    requires 0 < k <= n <= s.len(), byte_list(s, k, m) is None,
    ensures byte_list(s, n, m) is None,
    decreases n
{
    if k < n { byte_list_none(s, k, n - 1, m); }
}

proof fn word_list_none(s: Seq<Expr>, k: int, n: int, m: spec_fn(Seq<char>) -> Option<i32>)
    requires 0 < k <= n <= s.len(), word_list(s, k, m) is None,
    ensures word_list(s, n, m) is None,
    decreases n
{
    if k < n { word_list_none(s, k, n - 1, m); }
}

/// C07: a directive is rejected only when it has no bytes
proof fn bad_has_no_bytes(d: Directive, m: spec_fn(Seq<char>) -> Option<i32>, x: AssemblyError)
    requires bad_data(d, m, x),
    ensures data(d, m) is None,
{
    match d {
        Directive::Byte(_, b) => {
            let k = choose|k: int| 0 <= k < b@.len() && match #[trigger] b@[k] {
                ByteValue::Expr(e) => no_value(e, m, x) || match x {
                    AssemblyError::ByteOutOfRange { value, .. } => ev(e, m) == Some(value as int) && !(-128 <= value <= 255),
                    _ => false,
                },
                _ => false,
            };
            assert(item_bytes(b@[k], m) is None);
            assert(byte_list(b@, k + 1, m) is None);
            byte_list_none(b@, k + 1, b@.len() as int, m);
        },
        Directive::Word(_, w) => {
            let k = choose|k: int| 0 <= k < w@.len() && (no_value(#[trigger] w@[k], m, x) || match x {
                AssemblyError::WordOutOfRange { value, .. } => ev(w@[k], m) == Some(value as int) && !(-32768 <= value <= 65535),
                _ => false,
            });
            assert(word_list(w@, k + 1, m) is None);
            word_list_none(w@, k + 1, w@.len() as int, m);
        },
        _ => {},
    }
}

/// C06: what a statement leaves alone stays as it was, and what it writes is there until something writes over it
proof fn laid_keeps(s: Seq<Statement>, cs: Seq<Seq<u8>>, k: int, n: int, out: Seq<u8>, i: int)
    requires 0 <= k <= n <= cs.len(), 0 <= i < out.len(),
        forall|j: int| k <= j < n ==> !(at(s, j)->0 <= i < at(s, j)->0 + (#[trigger] cs[j]).len()),
    ensures laid(s, cs, n, out).len() == out.len(), laid(s, cs, n, out)[i] == laid(s, cs, k, out)[i],
    decreases n
{
    laid_len(s, cs, k, out);
    if k < n { laid_keeps(s, cs, k, n - 1, out, i); assert(cs[n - 1].len() >= 0); }
}

proof fn laid_len(s: Seq<Statement>, cs: Seq<Seq<u8>>, n: int, out: Seq<u8>)
    ensures laid(s, cs, n, out).len() == out.len(),
    decreases n
{
    if n > 0 { laid_len(s, cs, n - 1, out); }
}

proof fn laid_same(s: Seq<Statement>, cs: Seq<Seq<u8>>, ds: Seq<Seq<u8>>, n: int, out: Seq<u8>)
    requires 0 <= n <= cs.len(), n <= ds.len(), forall|j: int| 0 <= j < n ==> #[trigger] cs[j] == ds[j],
    ensures laid(s, cs, n, out) == laid(s, ds, n, out),
    decreases n
{
    if n > 0 { laid_same(s, cs, ds, n - 1, out); assert(cs[n - 1] == ds[n - 1]); }
}
"""


def valued_text():
    """The instruction of values that an instruction of expressions stands for."""
    o = ["/// what an instruction of expressions stands for; None when an operand is rejected",
         "spec fn valued(i: Instr<Expr, IndirectionMode>, m: %s, pos: int) -> Option<Instr<i32, u8>> { match i {" % core.EVM]
    for n, (kinds, _) in isa.FORMS.items():
        K = range(len(kinds))
        es = "(%s)" % ", ".join("e%d" % x for x in K) if kinds else ""
        if not kinds:
            o.append("    Instr::%s => Some(Instr::%s)," % (n, n))
            continue
        lhs, pats, args = [], [], []
        for x, k in enumerate(kinds):
            if k == "ri":
                args.append("mode_of(e%d) as u8" % x)
            else:
                lhs.append("op_%s(e%d, m%s)" % (k, x, ", pos" if k in core.WITHPOS else ""))
                pats.append("Some(o%d)" % x)
                args.append("o%d as i32" % x)
        val = "Some(Instr::%s(%s))" % (n, ", ".join(args))
        if not lhs:
            o.append("    Instr::%s%s => %s," % (n, es, val))
        elif len(lhs) == 1:
            o.append("    Instr::%s%s => match %s { %s => %s, None => None }," % (n, es, lhs[0], pats[0], val))
        else:
            o.append("    Instr::%s%s => match (%s) { (%s) => %s, _ => None }," % (n, es, ", ".join(lhs), ", ".join(pats), val))
    o.append("} }")
    return "\n".join(o)


def enc_len_text():
    o = []
    for n, (kinds, fs) in isa.FORMS.items():
        K = range(len(kinds))
        o.append("proof fn len_%s(%s)\n    ensures enc_%s(%s).len() == %d,\n{ reveal(enc_%s); }\n" % (
            n, ", ".join("o%d: int" % k for k in K), n, ", ".join("o%d" % k for k in K), len(fs), n))
    o.append("proof fn enc_len(i: Instr<i32, u8>)\n    ensures enc(i).len() == ilen(i), 1 <= ilen(i) <= 3,\n{\n    match i {")
    for n, (kinds, fs) in isa.FORMS.items():
        o.append("        %s => len_%s(%s)," % (isac.arm(n, range(len(kinds))), n, ", ".join("o%d as int" % k for k in range(len(kinds)))))
    o.append("    }\n}\n")
    return "\n".join(o)


VALUED = """
#[verifier::spinoff_prover]
proof fn valued_rejected(i: Instr<Expr, IndirectionMode>, m: spec_fn(Seq<char>) -> Option<i32>, pos: int, x: EncodingError)
    requires rejected(i, m, pos, x),
    ensures valued(i, m, pos) is None,
{
    hide(rejected); hide(valued);
    match i {
%s    }
}
"""
OK_SIG = """i: Instr<Expr, IndirectionMode>, m: spec_fn(Seq<char>) -> Option<i32>, pos: int, r: Instr<i32, u8>)
    requires ok_values(i, m, pos, r), ok_targets(i, m, pos, r), """
OK_HIDE = "    hide(ok_values); hide(ok_targets); hide(valued); hide(wf); hide(ilen);\n"
OK_ENS = "    ensures valued(i, m, pos) == Some(r), wf(r), ilen(r) == ilen(i),\n"


def valued_lemmas():
    o, c1, c2 = [], [], []
    for n, (kinds, _) in isa.FORMS.items():
        K = range(len(kinds))
        es = "(%s)" % ", ".join("e%d" % x for x in K) if kinds else ""
        ps = "".join("e%d: %s, " % (x, "IndirectionMode" if k == "ri" else "Expr") for x, k in enumerate(kinds))
        vs = "".join("e%d, " % x for x in K)
        i = "Instr::<Expr, IndirectionMode>::%s%s" % (n, es)
        o.append("proof fn ok_%s(%sm: %s, pos: int, r: Instr<i32, u8>)\n    requires ok_values(%s, m, pos, r), ok_targets(%s, m, pos, r),\n"
                 "    ensures valued(%s, m, pos) == Some(r), wf(r), ilen(r) == ilen(%s),\n{ }\n" % (n, ps, core.EVM, i, i, i, i))
        c1.append((n, "        Instr::%s%s => ok_%s(%sm, pos, r),\n" % (n, es, n, vs)))
        if any(k != "ri" for k in kinds):
            o.append("proof fn no_%s(%sm: %s, pos: int, x: EncodingError)\n    requires rejected(%s, m, pos, x),\n"
                     "    ensures valued(%s, m, pos) is None,\n{ }\n" % (n, ps, core.EVM, i, i))
            c2.append("        Instr::%s%s => no_%s(%sm, pos, x),\n" % (n, es, n, vs))
    c2.append("        _ => { reveal(rejected); },\n")
    top = []
    for k in range(0, len(c1), 8):
        part = c1[k:k + 8]
        cond = " || ".join("i is %s" % n for n, _ in part)
        o.append("proof fn ok_some%d(" % k + OK_SIG + cond + ",\n" + OK_ENS + "{\n" + OK_HIDE + "    match i {\n"
                 + "".join(a for _, a in part) + "        _ => {},\n    }\n}\n")
        top.append("if %s { ok_some%d(i, m, pos, r); }" % (cond, k))
    o.append("proof fn valued_ok(" + OK_SIG + "\n" + OK_ENS + "{\n" + OK_HIDE + "    " + "\n    else ".join(top) + "\n}\n")
    return "\n".join(o) + VALUED % "".join(c2)


STEP = """
broadcast proof fn vals_dom(m: Map<Seq<char>, NameValue>)
    ensures #![trigger vals(m)] vals(m).dom() == m.dom(), forall|x: Seq<char>| m.dom().contains(x) ==> vals(m)[x] == m[x].value,
{ assert(vals(m).dom() =~= m.dom()); }

broadcast proof fn vals_insert(m: Map<Seq<char>, NameValue>, k: Seq<char>, v: NameValue)
    ensures #[trigger] vals(m.insert(k, v)) == vals(m).insert(k, v.value),
{ assert(vals(m.insert(k, v)) =~= vals(m).insert(k, v.value)); }

broadcast proof fn vals_empty()
    ensures #[trigger] vals(Map::empty()) == Map::<Seq<char>, i32>::empty(),
{ assert(vals(Map::empty()) =~= Map::<Seq<char>, i32>::empty()); }
broadcast group table_facts { a_conversion, a_enc_conversion, vals_dom, vals_insert, vals_empty }

/// after an error in the first k statements there is no way back

proof fn stuck(s: Seq<Statement>, k: int, n: int)
    requires 0 <= k <= n,
    ensures at(s, k) is None ==> at(s, n) is None, twice(s, k) ==> twice(s, n),
        defs(s, k) is None ==> defs(s, n) is None, redefined(s, k) ==> redefined(s, n),
        forall|w: Why| undefined(s, k, w) ==> undefined(s, n, w),
    decreases n
{
    if k < n { stuck(s, k, n - 1); }
}

/// everything that is to be known of statement k in the loops of the two passes

proof fn step(s: Seq<Statement>, k: int)
    requires 0 <= k < s.len(), wf_all(s),
    ensures
        wf_st(s[k]),
        at(s, k + 1) is None ==> at(s, s.len() as int) is None,
        twice(s, k + 1) ==> twice(s, s.len() as int),
        at(s, k) is Some ==> at(s, k)->0 >= 0 && (at(s, k + 1) is Some ==> at(s, k + 1)->0 >= 0),
        !twice(s, k) ==> !ended_at(s, k).dom().contains(region_at(s, k)),
{
    stuck(s, k + 1, s.len() as int);
    if at(s, k) is Some { at_there(s, k, k); }
    if at(s, k + 1) is Some { at_there(s, k + 1, k + 1); }
    if !twice(s, k) { ended_known(s, k); }
}
"""


def types(u, srcs):
    core.op_types(u, srcs, "assume")
    a, b = srcs["src/ast.rs"], srcs["src/asm.rs"]
    u.raw(FOREIGN, "assumed")
    u.dropped.append("the contents of foreign types (PathBuf, io::Error, ImageError, Token, Location)")
    core.items(u, srcs["src/expression.rs"], "enum Arg")
    core.items(u, a, "enum ArgType", "enum ByteValue", "enum IncludeHeader", "enum SpriteType", "enum IncludeType", "enum Directive", "enum Statement",
               "struct MacroIdentifier", "struct MacroDefinition", "enum MacroStatement", "struct Statements")
    core.items(u, b, "enum AssemblyError", "struct NameValue", "struct NamesBuilder")
    u.raw("impl KeyView for MacroIdentifier { type KV = MacroIdentifier; open spec fn kv(&self) -> MacroIdentifier { *self } }")
    u.raw(PANIC)
    u.raw(LAYOUT)
    u.lemmas(LAYOUT_LEMMAS)
    u.raw(EMIT)
    u.raw(LOWER_FACTS, "assumed")
    u.raw(valued_text())
    for t, g in (("EvaluationError", "awhy(r) == Some(why(error))"), ("EncodingError", "same_enc(error, r)")):
        f = Fn(b.find("impl From<%s>for AssemblyError" % t, "fn from").text)
        u.open("impl From<%s> for AssemblyError {" % t)
        # a contract on a trait function's implementation: ensures only
        u.fn(f, "src/asm.rs: From<%s> for AssemblyError" % t, impl="From<%s>" % t, vac=False, ens=[g])
        u.close()
        u.raw("impl vstd::std_specs::convert::FromSpecImpl<%s> for AssemblyError {\n"
              "    open spec fn obeys_from_spec() -> bool { false }\n"
              "    open spec fn from_spec(e: %s) -> AssemblyError { arbitrary() }\n}" % (t, t))
    u.raw("""
pub broadcast axiom fn a_conversion(e: EvaluationError, r: AssemblyError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<AssemblyError, EvaluationError>(e, r) ==> awhy(r) == Some(why(e));
pub broadcast axiom fn a_enc_conversion(e: EncodingError, r: AssemblyError)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<AssemblyError, EncodingError>(e, r) ==> same_enc(e, r);
""", "assumed")
    u.assumed.append("`?` in the assembler converts with From::from (whose contract is proved)")


def statements_iter(f, srcs):
    """`statements.iter()` is `statements.statements.iter()`: the body of Statements::iter, checked here, put in its place."""
    body = Fn(srcs["src/ast.rs"].find("impl Statements", "fn iter").text)
    T = body.toks
    inner = "".join(t.s for t in T[body.ibody + 1:match_close(T, body.ibody)])
    if inner != "self.statements.iter()":
        raise Lost("Statements::iter")
    f.replace("statements.iter()", "statements.statements.iter()", 1)


def c_sizes(u, srcs, cnop="verify", size="verify"):
    a = srcs["src/ast.rs"]
    I, H = "impl Directive", "impl Directive"
    f = Fn(a.find(I, "fn eval_cnop_expr").text)
    u.fn(f, "src/ast.rs: Directive::eval_cnop_expr", impl=H, mode=cnop,
         ens=["match r { Ok(v) => literal(*expr) == Some(v as int), Err(x) => literal(*expr) is None && why(x) == Why::Other }"])
    f = Fn(a.find(I, "fn checked_pos").text)
    u.fn(f, "src/ast.rs: Directive::checked_pos", impl=H, mode=cnop,
         ens=["match r { Ok(v) => pos == Some(v), Err(x) => pos is None && why(x) == Why::Overflow }"])
    f = Fn(a.find(I, "fn eval_cnop").text)
    if cnop == "verify":
        f.loop(0, None, "            invariant literal(*add) == Some(add_val as int), add_val >= 0, literal(*multiple) == Some(multiple_val as int), multiple_val > 0, pos >= 0, mult >= 0, mult % multiple_val == 0, mult == 0 || mult - multiple_val < pos,\n"
                        "            ensures multiple_val > 0, pos >= 0, mult >= 0, mult % multiple_val == 0, mult == 0 || mult - multiple_val < pos, pos <= mult,\n"
                        "            decreases pos - mult + multiple_val,",
               start="proof { next_mult(mult as int, multiple_val as int); align_bounds(pos as int, multiple_val as int); "
                     "if pos <= mult { align_is(pos as int, multiple_val as int, mult as int); } "
                     "else if mult + multiple_val > 0x7fff_ffff { align_over(pos as int, multiple_val as int, mult as int); } }",
               after="proof { align_is(pos as int, multiple_val as int, mult as int); }")
    u.fn(f, "src/ast.rs: Directive::eval_cnop", impl=H, mode=cnop,
         req=["pos >= 0", "literal(*add) is Some ==> literal(*add)->0 >= 0"],
         ens=["match r { Ok(v) => literal(*add) is Some && literal(*multiple) is Some && v == align(pos as int, literal(*multiple)->0) + literal(*add)->0, "
              "Err(x) => if literal(*add) is Some && literal(*multiple) is Some "
              "{ why(x) == Why::Overflow && align(pos as int, literal(*multiple)->0) + literal(*add)->0 > 0x7fff_ffff } else { why(x) == Why::Other } }"])
    f = Fn(a.find(I, "fn size").text)
    if size == "verify":
        f.loop(0, "it", "                    invariant it.seq() =~= bytes@.as_ref_seq(), count == bytes_len(bytes@, it.index() as int), bytes_len(bytes@, bytes@.len() as int) <= 0x7fff_ffff,".replace("it.seq() =~= bytes@.as_ref_seq(), ", "it.seq().len() == bytes@.len(), "),
               start="proof { bytes_len_grows(bytes@, it.index() as int + 1, bytes@.len() as int); bytes_len_grows(bytes@, it.index() as int, it.index() as int); }")
    u.fn(f, "src/ast.rs: Directive::size", impl=H, mode=size,
         req=["wf_st(Statement::Directive(*self))", "pos >= 0"],
         ens=["match r { Ok(v) => if pos + v <= 0x7fff_ffff { goes_to(Statement::Directive(*self), pos as int) == Some(pos + v) } else { goes_to(Statement::Directive(*self), pos as int) is None }, "
              "Err(x) => goes_to(Statement::Directive(*self), pos as int) is None && *self is Cnop }"])


ALIGN_OVER = """
proof fn align_over(pos: int, m: int, x: int)
    requires m > 0, pos >= 0, x >= 0, x % m == 0, x < pos, x + m > 0x7fff_ffff,
    ensures align(pos, m) > 0x7fff_ffff,
{
    let y = align(pos, m);
    align_bounds(pos, m);
    let q = x / m;
    let p = (pos + m - 1) / m;
    assert(x == q * m) by (nonlinear_arith) requires x % m == 0, m > 0, q == x / m;
    assert(y == p * m);
    assert(p > q) by (nonlinear_arith) requires p * m > q * m, m > 0;
    assert(p * m >= (q + 1) * m) by (nonlinear_arith) requires p > q, m > 0;
    assert((q + 1) * m == q * m + m) by (nonlinear_arith);
}
"""


def build_sizes(srcs, gen):
    u = Unit("sizes")
    types(u, srcs)
    u.lemmas(ALIGN_OVER)
    c_sizes(u, srcs)
    return u


def index_by_key(u, f, *maps, exprs=(), deref=False):
    """`m[k]` on the hash maps named becomes `m.at_key(k)` (same place expression, auto-dereferenced);
    `for x in m.keys()` becomes `let l = m.key_list(); for x in l.iter()`."""
    T = f.toks
    ends = {}
    for i in range(f.ibody, f.iend):
        if T[i].k == "id" and T[i].s in maps and T[i + 1].s == "[" and T[i - 1].s != ".":
            j = i + 1
            if deref:
                ends[i] = "*" + T[i].s
            while T[j].s == "[":
                e = match_close(T, j)
                ends[j], ends[e] = ".at_key(", ")"
                j = e + 1
    for x in exprs:
        N = [t.s for t in lex(x)]
        for i in range(f.ibody, f.iend):
            if [t.s for t in T[i:i + len(N) + 1]] == N + ["["]:
                e = match_close(T, i + len(N))
                ends[i + len(N)], ends[e] = ".at_key(", ")"
    n = 0
    for idx, (kind, i, kin, ob, cb) in enumerate(f.loops):
        if kind == "for" and [t.s for t in T[ob - 4:ob]] == [".", "keys", "(", ")"]:
            e = "".join(ends.pop(j, T[j].s) for j in range(kin + 1, ob - 4))
            f.rep(T[kin + 1].a, T[ob - 1].b, "vx_keys%d.iter()" % idx)
            f.ins(T[i].a, "let vx_keys%d = %s.key_list();\n" % (idx, e), -2)
            n += 1
    for j, t in ends.items():
        f.rep(T[j].a, T[j].b, t)
    if ends:
        u.rewrites.append("%s: `m[k]` on a HashMap is written `m.at_key(k)`" % f.name)
    if n:
        u.rewrites.append("%s: `for x in m.keys()` is written `let l = m.key_list(); for x in l.iter()`" % f.name)
    return f


def one_level(u, srcs, mode="verify"):
    """Statement::span, advance: no names, no bytes."""
    a, b = srcs["src/ast.rs"], srcs["src/asm.rs"]
    u.open("impl Positioned for Statement {")
    u.raw("    #[verifier::external_body]\n    fn span(&self) -> Span { unimplemented!() }")
    u.close()
    u.fn(Fn(b.find("fn advance").text), "src/asm.rs: advance", mode=mode,
         ens=["match r { Ok(v) => v == pos + size, Err(x) => !i32ok(pos + size) && x is InvalidCodeLocation }"])


def c_add_name(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn add_name").text)
    if mode == "verify":
        index_by_key(u, f, "names")
    u.fn(f, "src/asm.rs: add_name", mode=mode,
         ens=["match r { Ok(_) => !old(names)@.dom().contains(name@) && final(names)@ == old(names)@.insert(name@, value), "
              "Err(x) => old(names)@.dom().contains(name@) && final(names)@ == old(names)@ && x is NameAlreadyExists }"])


ITER = "it.index()"
LBL_INV = """            invariant
                it.seq().len() == statements.statements@.len(),
                wf_all(statements.statements@),
                at(statements.statements@, it.index() as int) == Some(pos as int), pos >= 0,
                !twice(statements.statements@, it.index() as int),
                so_far(statements.statements@, it.index() as int, globals, local, locals),
                current_global@ == region_at(statements.statements@, it.index() as int),
"""


def c_compute_labels(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn compute_labels").text)
    if mode == "verify":
        statements_iter(f, srcs)
        core.starts_with(u, f)
        f.loop(0, "it", LBL_INV,
               start="broadcast use table_facts;\nproof { step(statements.statements@, it.index() as int); }")
        f.body_start("broadcast use table_facts;\nlet ghost n = statements.statements@.len() as int;\nproof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); }")
        f.at("if !locals", "proof { ended_known(statements.statements@, n); }")
    s = "statements.statements@"
    u.fn(f, "src/asm.rs: compute_labels", mode=mode,
         req=["wf_all(%s)" % s],
         ens=["match r {{ Ok(b) => at({0}, {0}.len() as int) is Some && !twice({0}, {0}.len() as int) && label_tables({0}, b), "
              "Err(x) => if x is NameAlreadyExists {{ twice({0}, {0}.len() as int) }} else {{ at({0}, {0}.len() as int) is None }} }}".format(s)],
         attrs=["verifier::rlimit(100)"])


NAMES_INV = """            invariant
                it.seq().len() == statements.statements@.len(),
                wf_all(statements.statements@),
                !twice(statements.statements@, statements.statements@.len() as int),
                at(statements.statements@, statements.statements@.len() as int) is Some,
                at(statements.statements@, it.index() as int) == Some(pos as int), pos >= 0,
                max_pos == top(statements.statements@, it.index() as int),
                defs(statements.statements@, it.index() as int) == Some(vals(globals@)),
"""

KEYS_SPEC = """
pub open spec fn all_keys<V>(m: Map<Seq<char>, V>, ks: Seq<String>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains((#[trigger] ks[i])@)
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k
}
/// one of the first n keys
pub open spec fn seen(ks: Seq<String>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] ks[i])@ == k }
pub open spec fn copied(src: HashMap<String, NameValue>, ks: Seq<String>, n: int, dst: HashMap<String, i32>) -> bool {
    &&& all_keys(src@, ks)
    &&& forall|k: Seq<char>| #[trigger] dst@.dom().contains(k) <==> seen(ks, n, k)
    &&& forall|k: Seq<char>| #[trigger] dst@.dom().contains(k) ==> dst@[k] == src@[k].value
}
pub open spec fn copied_all(src: HashMap<String, HashMap<String, NameValue>>, ks: Seq<String>, n: int, dst: HashMap<String, HashMap<String, i32>>) -> bool {
    &&& all_keys(src@, ks)
    &&& forall|k: Seq<char>| #[trigger] dst@.dom().contains(k) <==> seen(ks, n, k)
    &&& forall|k: Seq<char>| #[trigger] dst@.dom().contains(k) ==> dst@[k]@ =~= vals(src@[k]@)
}
"""


SEEN = """
proof fn seen_step(ks: Seq<String>, n: int)
    requires 0 <= n < ks.len(),
    ensures forall|k: Seq<char>| #[trigger] seen(ks, n + 1, k) <==> seen(ks, n, k) || k == ks[n]@,
{
    assert forall|k: Seq<char>| #[trigger] seen(ks, n + 1, k) <==> seen(ks, n, k) || k == ks[n]@ by {
        if seen(ks, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] ks[i])@ == k; assert(ks[i]@ == k); }
        if k == ks[n]@ { assert(ks[n]@ == k); }
    }
}

proof fn copied_done(src: HashMap<String, NameValue>, ks: Seq<String>, dst: HashMap<String, i32>)
    requires copied(src, ks, ks.len() as int, dst),
    ensures dst@ == vals(src@),
{
    assert(dst@.dom() =~= src@.dom());
    assert(dst@ =~= vals(src@));
}

proof fn copied_all_done(src: HashMap<String, HashMap<String, NameValue>>, ks: Seq<String>, dst: HashMap<String, HashMap<String, i32>>)
    requires copied_all(src, ks, ks.len() as int, dst),
    ensures dst@.dom() == src@.dom(), forall|k: Seq<char>| #[trigger] dst@.dom().contains(k) ==> dst@[k]@ == vals(src@[k]@),
{
    assert(dst@.dom() =~= src@.dom());
}
"""


def map_env(u, srcs, mode="verify"):
    b = srcs["src/asm.rs"]
    core.items(u, b, "struct MapEnv")
    f = Fn(b.find("impl<'a,'b>MapEnv<'a,'b>", "fn new").text)
    u.fn(f, "src/asm.rs: MapEnv::new", impl="impl<'a, 'b> MapEnv<'a, 'b>", mode=mode, ens=["r.map@ == map@"])
    u.open("impl<'a, 'b> Env<i32> for MapEnv<'a, 'b> {\n"
           "    open spec fn all(&self) -> spec_fn(Seq<char>) -> Option<i32> { in_map(vals(self.map@)) }")
    for n in ("name", "get"):
        f = Fn(b.find("impl<'a,'b>Env<i32>for MapEnv<'a,'b>", "fn " + n).text)
        if n == "get" and mode == "verify":
            f.body_start("broadcast use table_facts;")
            for k in range(len(f.closures)):
                i, j, _, _ = f.closures[k]
                x = [t.s for t in f.toks[i + 1:j]]
                f.closure(k, "|%s: &NameValue| -> (vx_r: i32) ensures vx_r == %s.value" % (x[0], x[0]))
        u.fn(f, "src/asm.rs: MapEnv::" + n, impl="MapEnv", mode=mode, vac=False)
    u.close()


def c_compute_names(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn compute_names").text)
    s = "statements.statements@"
    if mode == "verify":
        statements_iter(f, srcs)
        index_by_key(u, f, "globals", "locals")
        f.body_start("broadcast use table_facts;\nlet ghost n = %s.len() as int;" % s)
        f.loop(0, "it", NAMES_INV,
               start="broadcast use table_facts;\nproof { step(%s, it.index() as int); stuck(%s, it.index() as int + 1, %s.len() as int); at_there(%s, it.index() as int + 1, %s.len() as int); }" % (s, s, s, s, s))
        inv = "            invariant %s,\n"
        f.loop(1, "ik", inv % "ik.seq().len() == vx_keys1@.len(), copied(globals, vx_keys1@, ik.index() as int, new_globals)",
               start="broadcast use table_facts;\nproof { seen_step(vx_keys1@, ik.index() as int); }",
               after="proof { copied_done(globals, vx_keys1@, new_globals); }")
        f.loop(2, "ik", inv % "ik.seq().len() == vx_keys2@.len(), copied_all(locals, vx_keys2@, ik.index() as int, new_locals)",
               start="broadcast use table_facts;\nproof { seen_step(vx_keys2@, ik.index() as int); }",
               after="proof { copied_all_done(locals, vx_keys2@, new_locals); }")
        f.loop(3, "il", inv % "locals@.dom().contains(key@), il.seq().len() == vx_keys3@.len(), copied(locals@[key@], vx_keys3@, il.index() as int, new_local)",
               start="broadcast use table_facts;\nproof { seen_step(vx_keys3@, il.index() as int); }")
    u.fn(f, "src/asm.rs: compute_names", mode=mode,
         req=["wf_all(%s)" % s],
         ens=["match r {{ Ok(v) => at({0}, {0}.len() as int) is Some && !twice({0}, {0}.len() as int) && v.0 == top({0}, {0}.len() as int) + 1 && tables({0}, v.1), "
              "Err(x) => names_error({0}, x) }}".format(s)],
         attrs=["verifier::rlimit(100)"])


def chunk_spec(parts):
    code = "match valued(i, m, pos + ilen(i)) { Some(v) => c == enc(v), None => false }" if "code" in parts else "true"
    data = "data(d, m) == Some(c)" if "data" in parts else "true"
    bcode = "exists|y: EncodingError| rejected(i, m, pos + ilen(i), y) && #[trigger] same_enc(y, x)" if "code" in parts else "true"
    bdata = "bad_data(d, m, x)" if "data" in parts else "true"
    return """
/// c is what the statement emits
spec fn chunk(st: Statement, m: spec_fn(Seq<char>) -> Option<i32>, pos: int, c: Seq<u8>) -> bool {
    fills(st, pos, c) && match st { Statement::Instr(_, i) => %s, Statement::Directive(d) => %s, _ => true }
}
/// x is a reason to reject the statement
spec fn bad(st: Statement, m: spec_fn(Seq<char>) -> Option<i32>, pos: int, x: AssemblyError) -> bool {
    match st { Statement::Instr(_, i) => %s, Statement::Directive(d) => %s, _ => false }
}
/// what each statement emits, with the names it sees, at its position
spec fn emitted(s: Seq<Statement>, names: Names, cs: Seq<Seq<u8>>, n: int) -> bool {
    cs.len() == n && forall|k: int| 0 <= k < n ==> chunk(s[k], at_label(names, region_at(s, k)), at(s, k)->0, #[trigger] cs[k])
}
spec fn refused(s: Seq<Statement>, names: Names, x: AssemblyError) -> bool {
    exists|k: int| 0 <= k < s.len() && bad(#[trigger] s[k], at_label(names, region_at(s, k)), at(s, k)->0, x)
}
spec fn ready(s: Seq<Statement>, names: Names, room: int) -> bool {
    &&& wf_all(s)
    &&& at(s, s.len() as int) is Some
    &&& top(s, s.len() as int) <= room <= 0x7ffe_0000
    &&& forall|k: int| 0 <= k <= s.len() ==> names.locals@.dom().contains(#[trigger] region_at(s, k))
}
""" % (code, data, bcode, bdata)


BITS = """
broadcast proof fn b_low_byte(v: i32)
    ensures #![trigger v & 0xFF] (v & 0xFF) == v as int % 256,
{ assert((v & 0xFF) as int == v as int % 256) by (bit_vector); }
broadcast proof fn b_low_word(v: i32)
    ensures #![trigger v & 0xFFFF] (v & 0xFFFF) == v as int % 65536,
{ assert((v & 0xFFFF) as int == v as int % 65536) by (bit_vector); }
broadcast proof fn b_low_half(w: u16)
    ensures #![trigger w & 0xFF] (w & 0xFF) == w as int % 256,
{ assert((w & 0xFF) as int == w as int % 256) by (bit_vector); }
broadcast proof fn b_high_half(w: u16)
    ensures #![trigger w >> 8] ((w >> 8) & 0xFF) == w as int / 256, (w >> 8) == w as int / 256,
{ assert(((w >> 8) & 0xFF) as int == w as int / 256) by (bit_vector); assert((w >> 8) as int == w as int / 256) by (bit_vector); }
broadcast group bit_facts { b_low_byte, b_low_word, b_low_half, b_high_half }
"""

FAILING = """
/// an item that has no bytes makes the directive fail
proof fn emit_step(s: Seq<Statement>, names: Names, k: int, room: int)
    requires ready(s, names, room), 0 <= k < s.len(),
    ensures
        wf_st(s[k]),
        at(s, k) is Some, 0 <= at(s, k)->0 <= room,
        at(s, k + 1) is Some, at(s, k + 1) == goes_to(s[k], at(s, k)->0), at(s, k + 1)->0 <= room,
        s[k] is Directive && s[k]->Directive_0 is Org || at(s, k + 1)->0 >= at(s, k)->0,
        forall|x: AssemblyError| bad(s[k], at_label(names, region_at(s, k)), at(s, k)->0, x) ==> #[trigger] refused(s, names, x),
        names.locals@.dom().contains(region_at(s, k)), names.locals@.dom().contains(region_at(s, k + 1)),
{
    at_there(s, k, s.len() as int);
    at_there(s, k + 1, s.len() as int);
    goes_up(s[k], at(s, k)->0);
}

proof fn emitted_push(s: Seq<Statement>, names: Names, cs: Seq<Seq<u8>>, k: int, c: Seq<u8>, out: Seq<u8>)
    requires emitted(s, names, cs, k), k >= 0, chunk(s[k], at_label(names, region_at(s, k)), at(s, k)->0, c),
    ensures emitted(s, names, cs.push(c), k + 1), laid(s, cs.push(c), k + 1, out) == put(laid(s, cs, k, out), at(s, k)->0, c),
{
    laid_same(s, cs, cs.push(c), k, out);
    assert forall|j: int| 0 <= j < k + 1 implies chunk(s[j], at_label(names, region_at(s, j)), at(s, j)->0, #[trigger] cs.push(c)[j]) by {
        if j < k { assert(cs.push(c)[j] == cs[j]); }
    }
}
"""


def c_generate_bytes(u, srcs, parts, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn generate_bytes").text)
    S = "statements.statements@"
    if mode == "verify":
        data = "data" in parts
        statements_iter(f, srcs)
        core.starts_with(u, f)
        use = "broadcast use table_facts;"
        bits = "broadcast use table_facts, bit_facts;"
        f.body_start("hide(valued); hide(rejected); hide(wf); hide(enc); hide(ilen);\n" + use + "\nlet ghost mut cs: Seq<Seq<u8>> = Seq::empty();\nlet ghost out_in = output@;\n"
                     "proof { reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty()); }")
        M = "at_label(*names, region_at(%s, it.index() as int))" % S
        f.loop(0, "it", """            invariant
                it.seq().len() == {0}.len(), ready({0}, *names, out_in.len() as int),
                pos == at({0}, it.index() as int)->0,
                current_global@ == region_at({0}, it.index() as int),
                emitted({0}, *names, cs, it.index() as int),
                output@ =~= laid({0}, cs, it.index() as int, out_in),
                output@.len() == out_in.len(),
""".format(S), start=use + "\nlet ghost out0 = output@;\nlet ghost p0 = pos as int;\nlet ghost mut c: Seq<u8> = Seq::empty();\n"
                     "let ghost m = %s;\nproof { emit_step(%s, *names, it.index() as int, out_in.len() as int); }" % (M, S),
               end="proof { emitted_push(%s, *names, cs, it.index() as int, c, out_in); cs = cs.push(c); }" % S)
        ctx = ("*statement == Statement::Directive(*dir), out0.len() <= 0x7ffe_0000, "
               "forall|x: AssemblyError| bad(*statement, m, p0, x) ==> #[trigger] refused(%s, *names, x), " % S)
        frame = "0 <= p0, pos == p0 + c.len(), output@.len() == out0.len(), output@ =~= put(out0, p0, c)"
        one = "proof { c = c.push(output@[pos - 1]); }"

        def inv(*xs):
            return "            invariant\n" + "".join("                %s,\n" % x for x in xs if x)

        def when(x):
            return x if data else ""
        is_bytes = "dir is Byte && dir->Byte_1 == *bytes"
        f.loop(1, "ib", inv(ctx[:-2], is_bytes, frame, "ib.seq().len() == bytes@.len()", "c.len() == bytes_len(bytes@, ib.index() as int)",
                            "p0 + bytes_len(bytes@, bytes@.len() as int) <= out0.len()", "env.all() == m",
                            when("byte_list(bytes@, ib.index() as int, m) == Some(c)")),
               start=bits + "\nlet ghost c1 = c;\nproof { bytes_len_grows(bytes@, ib.index() as int + 1, bytes@.len() as int); bytes_len_grows(bytes@, 0, ib.index() as int); }")
        f.at("pos = pos + 1 ;", one, "after", 0)
        f.loop(2, "iv", inv(frame, "iv.seq().len() == vec@.len()", "c.len() == c1.len() + iv.index()", "p0 + c1.len() + vec@.len() <= out0.len()",
                            "out0.len() <= 0x7ffe_0000", when("c =~= c1 + vec@.subrange(0, iv.index() as int)")),
               end=one, after="proof { assert(vec@.subrange(0, vec@.len() as int) =~= vec@); }")
        for a, pad in ((3, 32), (5, 0)):
            f.loop(a, "it%d" % a, inv(frame, "it%d.seq().len() == bytes@.len()" % a, "c.len() == it%d.index()" % a, "bytes@.len() <= *size", "p0 + *size <= out0.len()",
                                      "out0.len() <= 0x7ffe_0000", when("c =~= bytes@.subrange(0, it%d.index() as int)" % a)), end=one, after="proof { assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); }")
            f.loop(a + 1, "it%d" % (a + 1), inv(frame, "c.len() == bytes@.len() + it%d.index()" % (a + 1), "bytes@.len() <= *size", "p0 + *size <= out0.len()",
                                                "out0.len() <= 0x7ffe_0000",
                                                when("c =~= bytes@ + Seq::new(it%d.index() as nat, |i: int| %du8)" % (a + 1, pad))), end=one)
        f.loop(7, "iw", inv(ctx[:-2], "dir is Word && dir->Word_1 == *words", frame, "iw.seq().len() == words@.len()", "c.len() == 2 * iw.index()",
                            "p0 + 2 * words@.len() <= out0.len()", "env.all() == m", when("word_list(words@, iw.index() as int, m) == Some(c)")),
               start=bits, end="proof { c = c.push(output@[pos - 2]).push(output@[pos - 1]); }")
        f.loop(8, "ii", inv(frame, "ii.seq().len() == bytes@.len()", "c.len() == ii.index()", "p0 + bytes@.len() <= out0.len()", "out0.len() <= 0x7ffe_0000",
                            "c =~= bytes@.subrange(0, ii.index() as int)"), end=one,
               after="proof { assert(c =~= bytes@); assert(fills(*statement, p0, c)); assert(chunk(*statement, m, p0, c)); }")
        instr_hint(f)
        std_consts(u, f)
    u.fn(f, "src/asm.rs: generate_bytes", mode=mode,
         req=["ready(%s, *names, old(output)@.len() as int)" % S],
         ens=["match r {{ Ok(_) => exists|cs: Seq<Seq<u8>>| emitted({0}, *names, cs, {0}.len() as int) && "
              "final(output)@ == #[trigger] laid({0}, cs, {0}.len() as int, old(output)@), Err(x) => refused({0}, *names, x) }}".format(S)],
         attrs=["verifier::rlimit(200)"])


def std_consts(u, f):
    """`std::T::MAX` (the deprecated module constant) is `T::MAX`."""
    T = f.toks
    n = 0
    for i in range(f.ibody, f.iend - 4):
        if T[i].s in ("std", "core") and T[i + 1].s == "::" and T[i + 2].s in ("i8", "u8", "i16", "u16", "i32", "u32") \
                and T[i + 3].s == "::" and T[i + 4].s in ("MIN", "MAX") and T[i - 1].s != "::":
            f.rep(T[i].a, T[i + 2].a, "")
            n += 1
    if n:
        u.rewrites.append("%s: `std::T::MIN`/`MAX` is written `T::MIN`/`MAX`" % f.name)


def instr_hint(f):
    """The value of `instr.eval(..)?` is bound to a name, so that lemmas can be applied to it."""
    T = f.toks
    for i in range(f.ibody, f.iend):
        if [t.s for t in T[i:i + 3]] == ["instr", ".", "eval"]:
            e = match_close(T, i + 3)
            if T[e + 1].s != "?":
                raise Lost("generate_bytes: instr.eval")
            # statement start: `let bytes = instr.eval(..)?.encode();`
            j = i
            while T[j].s not in (";", "{", "}"):
                j -= 1
            f.ins(T[j].b, "\nlet vx_v = %s;\nproof { valued_ok(*instr, m, p0 + ilen(*instr), vx_v); enc_len(vx_v); }\n" % f.text[T[i].a:T[e + 1].b], 1)
            f.rep(T[i].a, T[e + 1].b, "vx_v")
            return
    raise Lost("generate_bytes: instr.eval")


def build_bytes(srcs, gen, parts=("code", "data"), name="bytes"):
    u = Unit(name)
    types(u, srcs)
    u.raw(OWNED, "assumed")
    u.raw(TABLES)
    u.lemmas(TABLE_LEMMAS)
    u.lemmas(STEP)
    u.lemmas(EMIT_LEMMAS)
    u.lemmas(valued_lemmas())
    u.lemmas(enc_len_text())
    u.lemmas(BITS)
    u.raw(chunk_spec(parts))
    u.lemmas(FAILING)
    isac.c_size(u, gen, "assume")
    isac.c_encode(u, gen, "assume")
    core.c_instr_eval(u, srcs, ["values", "targets"], "assume")
    c_sizes(u, srcs, "assume", "assume")
    c_generate_bytes(u, srcs, parts)
    return u


ASSEMBLED = """
spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
/// C06, C07, C08: what the assembler returns for a program
spec fn assembled(s: Seq<Statement>, names: Names, cs: Seq<Seq<u8>>, out: Seq<u8>) -> bool {
    let n = s.len() as int;
    &&& at(s, n) is Some && !twice(s, n) && tables(s, names)
    &&& emitted(s, names, cs, n)
    &&& out == laid(s, cs, n, zeros(top(s, n)))
}
spec fn output_of(s: Seq<Statement>, out: Seq<u8>) -> bool {
    exists|names: Names, cs: Seq<Seq<u8>>| #[trigger] assembled(s, names, cs, out)
}
/// x is a legitimate reason to reject the program
spec fn at_fault(s: Seq<Statement>, x: AssemblyError) -> bool {
    ||| names_error(s, x)
    ||| exists|names: Names| tables(s, names) && #[trigger] refused(s, names, x)
}
"""

ASSEMBLED_LEMMAS = """
proof fn is_output(s: Seq<Statement>, names: Names, out: Seq<u8>)
    requires at(s, s.len() as int) is Some, !twice(s, s.len() as int), tables(s, names),
        exists|cs: Seq<Seq<u8>>| emitted(s, names, cs, s.len() as int)
            && out == #[trigger] laid(s, cs, s.len() as int, zeros(top(s, s.len() as int))),
    ensures output_of(s, out),
{
    let cs = choose|cs: Seq<Seq<u8>>| emitted(s, names, cs, s.len() as int)
            && out == #[trigger] laid(s, cs, s.len() as int, zeros(top(s, s.len() as int)));
    assert(assembled(s, names, cs, out));
}

proof fn refused_fault(s: Seq<Statement>, names: Names)
    requires tables(s, names),
    ensures forall|x: AssemblyError| #[trigger] refused(s, names, x) ==> at_fault(s, x),
{
}

proof fn names_fault(s: Seq<Statement>)
    ensures forall|x: AssemblyError| #[trigger] names_error(s, x) ==> at_fault(s, x),
{
}

proof fn regions_there(s: Seq<Statement>, names: Names)
    requires wf_all(s), !twice(s, s.len() as int), tables(s, names),
    ensures forall|k: int| 0 <= k <= s.len() ==> names.locals@.dom().contains(#[trigger] region_at(s, k)),
{
    assert forall|k: int| 0 <= k <= s.len() implies names.locals@.dom().contains(#[trigger] region_at(s, k)) by {
        own_region(s, k, s.len() as int);
    }
}

/// C06: the output ends where the last statement ends, and every byte of it is the byte of the last statement that covers it, or zero
proof fn every_byte(s: Seq<Statement>, names: Names, cs: Seq<Seq<u8>>, out: Seq<u8>, i: int, k: int)
    requires assembled(s, names, cs, out), 0 <= i < out.len(), -1 <= k < s.len(),
        forall|j: int| k < j < s.len() ==> !(at(s, j)->0 <= i < at(s, j)->0 + (#[trigger] cs[j]).len()),
        k >= 0 ==> at(s, k)->0 <= i < at(s, k)->0 + cs[k].len(),
    ensures out.len() == top(s, s.len() as int), k >= 0 ==> out[i] == cs[k][i - at(s, k)->0], k < 0 ==> out[i] == 0,
{
    let n = s.len() as int;
    let z = zeros(top(s, n));
    top_up(s, n);
    laid_len(s, cs, n, z);
    laid_keeps(s, cs, k + 1, n, z, i);
    laid_len(s, cs, k, z);
}

proof fn top_up(s: Seq<Statement>, n: int)
    ensures top(s, n) >= 0,
    decreases n
{
    if n > 0 { top_up(s, n - 1); }
}
"""


def c_assemble(u, srcs, mode="verify"):
    f = Fn(srcs["src/asm.rs"].find("fn assemble").text)
    S = "statements.statements@"
    if mode == "verify":
        f.body_start("hide(output_of); hide(tables); hide(emitted); hide(laid); hide(at_fault); hide(names_error); hide(refused); "
                     "proof {{ names_fault({0}); }}".format(S))
        let_q(f, u, "compute_names", "vx_names", "vx_names.1")
        f.at("generate_bytes (", "proof {{ assert(output@ =~= zeros(top({0}, {0}.len() as int))); }}\n".format(S), "before")
        f.at("Ok ( output )", "proof {{ is_output({0}, names, output@); }}\n".format(S), "before")
    u.fn(f, "src/asm.rs: assemble", mode=mode,
         req=["wf_all(%s)" % S, "top({0}, {0}.len() as int) <= 0x7ffe_0000".format(S)],
         ens=["match r {{ Ok(v) => output_of({0}, v@), Err(x) => at_fault({0}, x) }}".format(S)])


def let_q(f, u, callee, name, tables):
    """`let p = callee(..)?;` is split into `let name = callee(..)?; let p = name;` so that a lemma can be applied to it."""
    T = f.toks
    for i in range(f.ibody, f.iend):
        if T[i].s == callee and T[i + 1].s == "(":
            e = match_close(T, i + 1)
            if T[e + 1].s != "?" or T[e + 2].s != ";" or T[i - 1].s != "=":
                break
            j = i
            while T[j].s not in (";", "{", "}"):
                j -= 1
            S = "statements.statements@"
            f.ins(T[j].b, "\nlet %s = %s;\nproof { refused_fault(%s, %s); regions_there(%s, %s); at_there(%s, %s.len() as int, %s.len() as int); }\n" % (
                name, f.text[T[i].a:T[e + 1].b], S, tables, S, tables, S, S, S), 1)
            f.rep(T[i].a, T[e + 1].b, name)
            u.rewrites.append("assemble: the result of %s(..)? is bound to a name before it is taken apart" % callee)
            return
    raise Lost("%s: call of %s" % (f.name, callee))


def build_assemble(srcs, gen, parts=("code", "data"), name="assemble"):
    u = Unit(name)
    types(u, srcs)
    u.raw(OWNED, "assumed")
    u.raw(TABLES)
    u.lemmas(TABLE_LEMMAS)
    u.lemmas(EMIT_LEMMAS)
    u.raw(chunk_spec(parts))
    u.raw(ASSEMBLED)
    u.lemmas(ASSEMBLED_LEMMAS)
    c_compute_names(u, srcs, "assume")
    c_generate_bytes(u, srcs, parts, "assume")
    c_assemble(u, srcs)
    return u


def build_labels(srcs, gen):
    u = Unit("labels")
    types(u, srcs)
    u.raw(OWNED, "assumed")
    u.raw(KEYS, "assumed")
    u.assumed.append("HashMap::keys visits each key once")
    u.raw(KEYS_SPEC)
    u.raw(TABLES)
    u.lemmas(TABLE_LEMMAS)
    u.lemmas(STEP)
    u.lemmas(SEEN)
    isac.c_size(u, gen, "assume")
    c_sizes(u, srcs, "assume", "assume")
    one_level(u, srcs)
    c_add_name(u, srcs)
    c_compute_labels(u, srcs)
    map_env(u, srcs)
    c_compute_names(u, srcs)
    return u


def build_bytes_code(srcs, gen):
    return build_bytes(srcs, gen, ("code",), "bytes")


def build_bytes_data(srcs, gen):
    return build_bytes(srcs, gen, ("data",), "bytes")


def build_assemble_code(srcs, gen):
    return build_assemble(srcs, gen, ("code",), "assemble")
