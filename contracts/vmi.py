"""Contracts of the VMI file (C14)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
import core  # noqa: E402
from rustx import Fn, Lost, lex, match_close, norm  # noqa: E402,F401
from vunit import Unit  # noqa: E402

LIB = "src/lib.rs"

STD = """
use vstd::utf8::*;
use vstd::string::*;
#[derive(Debug)]
pub struct IoError { pub x: u8 }
/// what a file holds when it is opened
pub uninterp spec fn held(path: Seq<char>, data: Seq<u8>) -> bool;
/// the program has written exactly this to a new file of this name
pub uninterp spec fn wrote(path: Seq<char>, data: Seq<u8>) -> bool;
/// a file of this name can be made and written
pub uninterp spec fn writable(path: Seq<char>) -> bool;
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn data(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open(p: &str) -> (r: Result<File, IoError>)
        ensures r is Ok ==> held(p@, r->Ok_0.data()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create(p: &str) -> (r: Result<File, IoError>)
        ensures writable(p@) ==> r is Ok, r is Ok ==> r->Ok_0.path() == p@ && r->Ok_0.data().len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> final(v)@ == (if old(v)@.len() == 0 { old(self).data() } else { old(v)@ + old(self).data() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>)
        requires old(self).data().len() == 0,
        ensures writable(old(self).path()) ==> r is Ok, r is Ok ==> wrote(old(self).path(), b@) && final(self).data() == b@,
            final(self).path() == old(self).path(),
    { unimplemented!() }
}
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
/// digit i of x in base 256
pub open spec fn digit(x: int, i: int) -> int
    decreases i
{ if i <= 0 { x % 256 } else { digit(x / 256, i - 1) } }
pub trait VxLe<const N: usize>: Sized {
    spec fn val(self) -> int;
    fn vx_le(self) -> (r: [u8; N])
        ensures forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == digit(self.val(), i);
}
impl VxLe<8> for usize { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vx_le(self) -> (r: [u8; 8]) { unimplemented!() } }
impl VxLe<8> for u64 { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vx_le(self) -> (r: [u8; 8]) { unimplemented!() } }
impl VxLe<4> for u32 { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vx_le(self) -> (r: [u8; 4]) { unimplemented!() } }
impl VxLe<2> for u16 { open spec fn val(self) -> int { self as int } #[verifier::external_body] fn vx_le(self) -> (r: [u8; 2]) { unimplemented!() } }
/// what stands behind the last c
pub open spec fn after_last(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 || s.last() == c { seq![] } else { after_last(s.drop_last(), c).push(s.last()) } }
pub trait VxSplit { fn vx_split(&self, c: char) -> Vec<&str>; }
#[verifier::external_body]
fn vx_split(s: &str, c: char) -> (r: Vec<&str>)
    ensures r@.len() > 0, r@.last()@ == after_last(s@, c),
{ unimplemented!() }
pub open spec fn dot_vms() -> Seq<char> { seq!['.', 'v', 'm', 's'] }
/// the name without the ending `.vms`
pub open spec fn stem(s: Seq<char>) -> Seq<char> {
    if s.len() >= 4 && s.subrange(s.len() - 4, s.len() as int) == dot_vms() { s.subrange(0, s.len() - 4) } else { s }
}
#[derive(Debug)]
pub struct RegexError { pub x: u8 }
#[verifier::external_body]
pub struct Regex { x: u8 }
#[verifier::external_body]
pub struct Replaced<'a> { x: &'a u8 }
impl<'a> Replaced<'a> {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.v() { unimplemented!() }
}
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>)
        ensures p@ == "\\\\.vms$"@ ==> r is Ok, r is Ok ==> r->Ok_0.pat() == p@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace<'a>(&self, text: &'a str, by: &str) -> (r: Replaced<'a>)
        ensures self.pat() == "\\\\.vms$"@ && by@ == ""@ ==> r.v() == stem(text@),
    { unimplemented!() }
}
"""

CHRONO = """
pub enum Weekday { Mon, Tue, Wed, Thu, Fri, Sat, Sun }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DateTime<T> { x: T }
pub struct Local { pub x: u8 }
/// the clock showed this
pub uninterp spec fn shown(d: DateTime<Local>) -> bool;
impl Local {
    #[verifier::external_body]
    pub fn now() -> (r: DateTime<Local>) ensures shown(r) { unimplemented!() }
}
impl<T> DateTime<T> {
    pub uninterp spec fn spec_year(&self) -> i32;
    pub uninterp spec fn spec_month(&self) -> u32;
    pub uninterp spec fn spec_day(&self) -> u32;
    pub uninterp spec fn spec_hour(&self) -> u32;
    pub uninterp spec fn spec_minute(&self) -> u32;
    pub uninterp spec fn spec_second(&self) -> u32;
    pub uninterp spec fn spec_weekday(&self) -> Weekday;
    #[verifier::external_body] pub fn year(&self) -> (r: i32) ensures r == self.spec_year() { unimplemented!() }
    #[verifier::external_body] pub fn month(&self) -> (r: u32) ensures r == self.spec_month() { unimplemented!() }
    #[verifier::external_body] pub fn day(&self) -> (r: u32) ensures r == self.spec_day() { unimplemented!() }
    #[verifier::external_body] pub fn hour(&self) -> (r: u32) ensures r == self.spec_hour() { unimplemented!() }
    #[verifier::external_body] pub fn minute(&self) -> (r: u32) ensures r == self.spec_minute() { unimplemented!() }
    #[verifier::external_body] pub fn second(&self) -> (r: u32) ensures r == self.spec_second() { unimplemented!() }
    #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) ensures r == self.spec_weekday() { unimplemented!() }
}
/// the names that the code imports from chrono
pub mod chrono { pub mod prelude { pub use crate::{DateTime, Local, Weekday}; } }
"""

SPEC = """
/// byte i of a text that is cut off or padded with NULs
pub open spec fn at(s: Seq<u8>, i: int) -> u8 { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn text_at(b: Seq<u8>, lo: int, n: int, s: Seq<u8>) -> bool { forall|k: int| lo <= k < lo + n ==> #[trigger] b[k] == at(s, k - lo) }
pub open spec fn day_number(w: Weekday) -> u8 {
    match w { Weekday::Sun => 0, Weekday::Mon => 1, Weekday::Tue => 2, Weekday::Wed => 3, Weekday::Thu => 4, Weekday::Fri => 5, Weekday::Sat => 6 }
}
/// C14: the date and time
pub open spec fn dated(b: Seq<u8>, d: DateTime<Local>) -> bool {
    &&& b[0x44] == digit((d.spec_year() as u16) as int, 0) && b[0x45] == digit((d.spec_year() as u16) as int, 1)
    &&& b[0x46] == d.spec_month() as u8 && b[0x47] == d.spec_day() as u8
    &&& b[0x48] == d.spec_hour() as u8 && b[0x49] == d.spec_minute() as u8 && b[0x4A] == d.spec_second() as u8
    &&& b[0x4B] == day_number(d.spec_weekday())
}
/// C14: the file, but for the date
pub open spec fn vmi(b: Seq<u8>, vms: Seq<u8>, input: Seq<char>, copyright: Seq<char>, offset: int) -> bool {
    let name = encode_utf8(after_last(input, '/'));
    let base = encode_utf8(stem(after_last(input, '/')));
    &&& b.len() == 108
    &&& b[0] == at(base, 0) & 0x53 && b[1] == at(base, 1) & 0x45 && b[2] == at(base, 2) & 0x47 && b[3] == at(base, 3) & 0x41
    &&& forall|k: int| 4 <= k < 36 ==> #[trigger] b[k] == at(vms, offset + 12 + k)
    &&& text_at(b, 0x24, 32, encode_utf8(copyright))
    &&& b[0x4C] == 0 && b[0x4D] == 0 && b[0x4E] == 1 && b[0x4F] == 0
    &&& text_at(b, 0x50, 8, base)
    &&& text_at(b, 0x58, 12, name)
    &&& b[0x64] == (if offset > 0 { 2u8 } else { 0 }) && b[0x65] == 0 && b[0x66] == 0 && b[0x67] == 0
    &&& forall|k: int| 0x68 <= k < 0x6C ==> #[trigger] b[k] == digit(vms.len() as int, k - 0x68)
}
pub open spec fn made(path: Seq<char>, b: Seq<u8>, vms: Seq<u8>, input: Seq<char>, copyright: Seq<char>, offset: int, d: DateTime<Local>) -> bool {
    wrote(path, b) && held(input, vms) && shown(d) && vmi(b, vms, input, copyright, offset) && dated(b, d)
}
/// nothing but these bytes changed
pub open spec fn only(a: Seq<u8>, b: Seq<u8>, lo: int, n: int) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() && !(lo <= k < lo + n) ==> #[trigger] b[k] == a[k]
}
"""

# loops by the bytes they copy: first byte, value of byte i
FIELDS = [
    ("vms_bytes", "4", "at(vms_bytes@, offset + 16 + K)"),
    ("copyright_bytes", "0x24", "at(copyright_bytes@, K)"),
    ("basename_bytes", "0x50", "at(basename_bytes@, K)"),
    ("filename_bytes", "0x58", "at(filename_bytes@, K)"),
    ("le_bytes", None, "le_bytes@[K]"),
]


def fields(f):
    T = f.toks
    for idx, (kind, i, kin, ob, cb) in enumerate(f.loops):
        if kind != "for":
            raise Lost("generate_vmi: a loop that is not a for loop")
        body = [t.s for t in T[ob:cb]]
        which = [(k, lo, v) for k, lo, v in FIELDS if k in body]
        # bytes[LO + var]
        var = T[i + 1].s
        los = {T[j + 2].s for j in range(ob, cb) if T[j].s == "bytes" and T[j + 1].s == "[" and T[j + 3].s == "+" and T[j + 4].s == var}
        if len(which) != 1 or len(los) != 1:
            raise Lost("generate_vmi: loop %d: which field it writes" % idx)
        k, lo, v = which[0]
        lo = lo or los.pop()
        g = "b__%d" % idx
        f.loop(idx, it="it",
               before="    let ghost %s = bytes@;" % g,
               inv="    invariant bytes@.len() == 108, only(%s, bytes@, %s as int, it.index() as int), offset <= 0x200,\n" % (g, lo) +
                   "        forall|k: int| %s <= k < %s + it.index() ==> #[trigger] bytes@[k] == %s,\n" % (lo, lo, v.replace("K", "k - %s" % lo)))


def build(srcs, gen):
    u = Unit("vmi")
    u.raw(STD, "assumed")
    u.raw(CHRONO, "assumed")
    u.assumed += ["std::fs::File: what open, read_to_end, create and write_all do; the output file can be made and written",
                  "str::split: the last part is what stands behind the last separator",
                  "Regex: replacing `\\\\.vms$` by nothing drops the ending .vms",
                  "to_le_bytes gives the digits in base 256", "chrono: the clock and the fields of a date",
                  "String::as_bytes gives the UTF-8 encoding"]
    t = core.strip_item(srcs["src/disasm.rs"].find("enum DisasmError").text).replace("std::io::Error", "IoError")
    u.item("pub " + t, "src/disasm.rs: enum DisasmError")
    u.rewrites.append("std::io::Error is a stand-in type IoError")
    u.raw(SPEC)
    f = Fn(srcs[LIB].find("fn generate_vmi").text)
    T = f.toks
    # `x.split('/').collect()` becomes vx_split(x, '/')
    n = 0
    for i in range(f.ibody, f.iend):
        if [t.s for t in T[i + 1:i + 3]] == [".", "split"] and T[i].k == "id" and T[i + 4].k == "char" \
                and [t.s for t in T[i + 5:i + 10]] == [")", ".", "collect", "(", ")"]:
            f.rep(T[i].a, T[i + 9].b, "vx_split(%s, %s)" % (T[i].s, T[i + 4].s))
            n += 1
    if n:
        u.rewrites.append("generate_vmi: `x.split(c).collect()` is one call")
    if any(t.s == "to_le_bytes" for t in T):
        f.replace("to_le_bytes", "vx_le")
        u.rewrites.append("generate_vmi: to_le_bytes is called through a trait with a contract")
    fields(f)
    f.replace("use chrono::prelude::*;", "use crate::chrono::prelude::*;")
    f.at("Ok(())", "    proof { assert(made(output_file@, bytes@, vms_bytes@, input_file@, copyright@, offset as int, datetime)); }")
    u.fn(f, LIB + ": generate_vmi", req=["offset == 0 || offset == 0x200", "writable(output_file@)"],
         ens=["r is Ok ==> exists|b: Seq<u8>, vms: Seq<u8>, d: DateTime<Local>|"
              " #[trigger] made(output_file@, b, vms, input_file@, copyright@, offset as int, d)"])
    return u
