"""Contracts of icons (C13)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "spec"))
import asm  # noqa: E402
import core  # noqa: E402
import img  # noqa: E402
from rustx import Fn, Lost, lex, match_close  # noqa: E402,F401
from vunit import Unit  # noqa: E402

PAL = """
impl KeyView for Color { type KV = Color; open spec fn kv(&self) -> Color { *self } }
impl<K: KeyView, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
}
/// memory bounds a map
#[verifier::external_body]
proof fn map_small<K: KeyView, V>(m: &HashMap<K, V>)
    ensures m@.dom().len() < 0x7fff_ffff_ffff_ffff,
{ }
/// 255 becomes 15; rounded
pub open spec fn four(x: u8) -> u8 { ((30 * x + 255) / 510) as u8 }
pub open spec fn four_bits(c: Color) -> Color { Color { red: four(c.red), green: four(c.green), blue: four(c.blue), alpha: four(c.alpha) } }
/// the word that stands for a colour
pub open spec fn pal(c: Color) -> int { (c.alpha % 16) * 4096 + (c.red % 16) * 256 + (c.green % 16) * 16 + c.blue % 16 }

pub open spec fn row_set(s: Set<Color>, row: Seq<Color>, n: int) -> Set<Color>
    decreases n
{ if n <= 0 { s } else { row_set(s, row, n - 1).insert(row[n - 1]) } }
pub open spec fn rows_set(s: Set<Color>, rows: Seq<Vec<Color>>, n: int) -> Set<Color>
    decreases n
{ if n <= 0 { s } else { row_set(rows_set(s, rows, n - 1), rows[n - 1]@, rows[n - 1]@.len() as int) } }
pub open spec fn frames_set(frames: Seq<Frame>, n: int) -> Set<Color>
    decreases n
{ if n <= 0 { Set::empty() } else { rows_set(frames_set(frames, n - 1), frames[n - 1].rows@, frames[n - 1].rows@.len() as int) } }
/// the colours of an image
pub open spec fn colors(i: Image) -> Set<Color> { frames_set(i.frames@, i.frames@.len() as int) }

/// different colours have different entries, and the entries are 0, 1, ...
pub open spec fn indexed(m: Map<Color, usize>) -> bool {
    &&& forall|c: Color| m.contains_key(c) ==> #[trigger] m[c] < m.dom().len()
    &&& forall|c: Color, d: Color| m.contains_key(c) && m.contains_key(d) && #[trigger] m[c] == #[trigger] m[d] ==> c == d
}
pub open spec fn has_size(i: Image, w: int, h: int) -> bool {
    forall|k: int| 0 <= k < i.frames@.len() ==> frame_size(#[trigger] i.frames@[k], w, h)
}
pub open spec fn frame_size(f: Frame, w: int, h: int) -> bool {
    f.rows@.len() == h && forall|k: int| 0 <= k < h ==> (#[trigger] f.rows@[k])@.len() == w
}
pub open spec fn scaled_row(a: Seq<Color>, b: Seq<Color>) -> bool {
    b.len() == a.len() && forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == four_bits(a[k])
}
pub open spec fn scaled_rows(a: Seq<Vec<Color>>, b: Seq<Vec<Color>>, n: int) -> bool {
    b.len() == n && forall|k: int| 0 <= k < n ==> scaled_row(a[k]@, (#[trigger] b[k])@)
}
pub open spec fn scaled_frames(a: Seq<Frame>, b: Seq<Frame>, n: int) -> bool {
    b.len() == n && forall|k: int| 0 <= k < n ==> scaled_frame(a[k], #[trigger] b[k])
}
pub open spec fn scaled_frame(a: Frame, b: Frame) -> bool {
    scaled_rows(a.rows@, b.rows@, a.rows@.len() as int)
}
/// the image in four bits per channel
pub open spec fn scaled(a: Image, b: Image) -> bool {
    scaled_frames(a.frames@, b.frames@, a.frames@.len() as int)
}
"""

PAL_LEMMAS = """
proof fn nibbles(a: i32, r: i32, g: i32, b: i32)
    by (bit_vector)
    requires 0 <= a < 256, 0 <= r < 256, 0 <= g < 256, 0 <= b < 256,
    ensures (((a & 0xF) << 12) | ((r & 0xF) << 8) | ((g & 0xF) << 4) | (b & 0xF)) == (a % 16) * 4096 + (r % 16) * 256 + (g % 16) * 16 + b % 16,
{
}
proof fn row_grows(s: Set<Color>, row: Seq<Color>, n: int, k: int)
    requires 0 <= n <= row.len(),
    ensures
        s.subset_of(row_set(s, row, n)),
        0 <= k < n ==> row_set(s, row, n).contains(row[k]),
    decreases n,
{
    if n > 0 { row_grows(s, row, n - 1, k); }
}
proof fn rows_grows(s: Set<Color>, rows: Seq<Vec<Color>>, n: int, y: int, x: int)
    requires 0 <= n <= rows.len(),
    ensures
        s.subset_of(rows_set(s, rows, n)),
        0 <= y < n && 0 <= x < rows[y]@.len() ==> rows_set(s, rows, n).contains(rows[y]@[x]),
    decreases n,
{
    if n > 0 {
        rows_grows(s, rows, n - 1, y, x);
        row_grows(rows_set(s, rows, n - 1), rows[n - 1]@, rows[n - 1]@.len() as int, x);
    }
}
proof fn frames_grows(frames: Seq<Frame>, n: int, f: int, y: int, x: int)
    requires 0 <= n <= frames.len(), 0 <= f < n, 0 <= y < frames[f].rows@.len(), 0 <= x < frames[f].rows@[y]@.len(),
    ensures frames_set(frames, n).contains(frames[f].rows@[y]@[x]),
    decreases n,
{
    if f < n - 1 { frames_grows(frames, n - 1, f, y, x); }
    rows_grows(frames_set(frames, n - 1), frames[n - 1].rows@, frames[n - 1].rows@.len() as int, y, x);
}
/// every pixel is one of the colours
proof fn pixel_in(i: Image, f: int, y: int, x: int)
    requires 0 <= f < i.frames@.len(), 0 <= y < i.frames@[f].rows@.len(), 0 <= x < i.frames@[f].rows@[y]@.len(),
    ensures colors(i).contains(i.frames@[f].rows@[y]@[x]),
{
    frames_grows(i.frames@, i.frames@.len() as int, f, y, x);
}
"""


def c_colors(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    C = "impl Color"
    u.fn(Fn(i.find(C, "fn scale_channels").text), "src/img.rs: Color::scale_channels", impl=C, mode="assume",
         ens=["max == 15 ==> r == four_bits(*self)"])
    f = Fn(i.find(C, "fn to_palette_color").text)
    if mode == "verify":
        f.body_start("proof { nibbles(self.alpha as i32, self.red as i32, self.green as i32, self.blue as i32); }")
    u.fn(f, "src/img.rs: Color::to_palette_color", impl=C, mode=mode, ens=["r == pal(*self)"])
    u.fn(Fn(i.find("impl std::default::Default for Color", "fn default").text), "src/img.rs: Color::default", impl=C, mode=mode)


ROW_IN = "self.frames@[{f}].rows@[{y}]@"


def c_images(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    F, I = "impl Frame", "impl Image"
    it = img.iters if mode == "verify" else lambda t: t
    f = Fn(it(i.find(F, "fn is_size").text))
    if mode == "verify":
        f.loop(0, "it", """            invariant
                it.seq().len() == self.rows@.len(), self.rows@.len() == height,
                forall|k: int| 0 <= k < it.index() ==> (#[trigger] self.rows@[k])@.len() == width,
""", start="proof { assert(self.rows@[it.index() as int] == *row); }")
    u.fn(f, "src/img.rs: Frame::is_size", impl=F, mode=mode, ens=["r == frame_size(*self, width as int, height as int)"])
    f = Fn(it(i.find(I, "fn is_size").text))
    if mode == "verify":
        f.loop(0, "it", """            invariant
                it.seq().len() == self.frames@.len(),
                forall|k: int| 0 <= k < it.index() ==> frame_size(#[trigger] self.frames@[k], width as int, height as int),
""", start="proof { assert(self.frames@[it.index() as int] == *frame); }")
    u.fn(f, "src/img.rs: Image::is_size", impl=I, mode=mode, ens=["r == has_size(*self, width as int, height as int)"])
    u.fn(Fn(i.find(I, "fn as_still").text), "src/img.rs: Image::as_still", impl=I, mode=mode,
         req=["self.frames@.len() > 0"], ens=["r.frames@ =~= seq![self.frames@[0]]"])
    f = Fn(it(i.find(I, "fn scale_channels").text))
    if mode == "verify":
        f.loop(0, "it", """            invariant
                max == 15,
                it.seq().len() == self.frames@.len(), scaled_frames(self.frames@, frames@, it.index() as int),
""", start="proof { assert(self.frames@[it.index() as int] == *frame); }")
        f.loop(1, "ij", """                invariant
                    max == 15,
                    ij.seq().len() == frame.rows@.len(), scaled_rows(frame.rows@, rows@, ij.index() as int),
""", start="proof { assert(frame.rows@[ij.index() as int] == *row); }")
        f.loop(2, "ik", """                    invariant
                        max == 15,
                        ik.seq().len() == row@.len(), new_row@.len() == ik.index(),
                        forall|k: int| 0 <= k < ik.index() ==> #[trigger] new_row@[k] == four_bits(row@[k]),
""", start="proof { assert(row@[ik.index() as int] == *color); }")
    u.fn(f, "src/img.rs: Image::scale_channels", impl=I, mode=mode, req=["max == 15"], ens=["scaled(*self, r)"])
    f = Fn(it(i.find(I, "fn get_palette").text))
    if mode == "verify":
        P = "index == palette@.dom().len(), indexed(palette@), palette@.dom() == "
        f.loop(0, "it", "            invariant it.seq().len() == self.frames@.len(), %s frames_set(self.frames@, it.index() as int),\n" % P,
               start="proof { assert(self.frames@[it.index() as int] == *frame); }\nlet ghost d0 = palette@.dom();",
               before="proof { assert(palette@.dom() =~= Set::empty()); }")
        f.loop(1, "ij", "                invariant ij.seq().len() == frame.rows@.len(), %s rows_set(d0, frame.rows@, ij.index() as int),\n" % P,
               start="proof { assert(frame.rows@[ij.index() as int] == *row); }\nlet ghost d1 = palette@.dom();")
        f.loop(2, "ik", "                    invariant ik.seq().len() == row@.len(), %s row_set(d1, row@, ik.index() as int),\n" % P,
               start="proof { assert(row@[ik.index() as int] == *color); }\nlet ghost m0 = palette@;\nproof { map_small(&palette); }",
               end="""proof {
    if m0.contains_key(*color) { assert(m0.dom().insert(*color) =~= m0.dom()); }
    else { assert(palette@.dom() =~= m0.dom().insert(*color)); }
}""")
    u.fn(f, "src/img.rs: Image::get_palette", impl=I, mode=mode, ens=["r@.dom() == colors(*self)", "indexed(r@)"])


def build_palette(srcs, gen):
    u = Unit("icon_palette")
    img.types(u, srcs)
    u.raw(PAL, "assumed")
    u.assumed.append("a HashMap has fewer than 2^63 entries")
    u.lemmas(PAL_LEMMAS)
    core.clones(u, "Frame")
    c_colors(u, srcs)
    c_images(u, srcs)
    return u


ICON = """
pub open spec fn slots(n: nat) -> int { if n <= 16 { 16 } else if n <= 256 { 256 } else { 0 } }
/// the palette that is written: where a colour's number says, there is that colour
pub open spec fn pal_ok(p: Seq<Color>, m: Map<Color, usize>) -> bool {
    &&& p.len() == slots(m.dom().len())
    &&& p.len() > 0 ==> forall|c: Color| m.contains_key(c) ==> #[trigger] m[c] < p.len() && p[m[c] as int] == c
}
pub open spec fn pals(p: Seq<Color>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| pal(p[i])) }
/// the first n pairs of pixels, left one in the high half
pub open spec fn pairs(row: Seq<Color>, m: Map<Color, usize>, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| (m[row[2 * i]] * 16 + m[row[2 * i + 1]]) as u8)
}
pub open spec fn singles(row: Seq<Color>, m: Map<Color, usize>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| m[row[i]] as u8) }
pub open spec fn pix_row(size: int, row: Seq<Color>, m: Map<Color, usize>) -> Seq<u8> {
    if size == 16 { pairs(row, m, (row.len() / 2) as int) } else if size == 256 { singles(row, m, row.len() as int) }
    else { words_bytes(pals(row, row.len() as int)) }
}
pub open spec fn pix_rows(size: int, rows: Seq<Vec<Color>>, m: Map<Color, usize>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { seq![] } else { pix_rows(size, rows, m, n - 1) + pix_row(size, rows[n - 1]@, m) } }
pub open spec fn pix_frames(size: int, frames: Seq<Frame>, m: Map<Color, usize>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { seq![] } else { pix_frames(size, frames, m, n - 1) + pix_rows(size, frames[n - 1].rows@, m, frames[n - 1].rows@.len() as int) } }
/// palette and pixels
pub open spec fn icon_bytes(i: Image, m: Map<Color, usize>, p: Seq<Color>) -> Seq<u8> {
    words_bytes(pals(p, p.len() as int)) + pix_frames(p.len() as int, i.frames@, m, i.frames@.len() as int)
}
pub open spec fn even_rows(i: Image) -> bool {
    forall|f: int, y: int| 0 <= f < i.frames@.len() && 0 <= y < i.frames@[f].rows@.len() ==> (#[trigger] i.frames@[f].rows@[y])@.len() % 2 == 0
}
pub open spec fn are_bytes(r: Seq<ByteValue>, b: Seq<u8>) -> bool {
    r.len() == b.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i] matches ByteValue::Expr(e) && e is Number && num_of(e) == b[i])
}
pub open spec fn are_words(r: Seq<Expr>, w: Seq<int>) -> bool {
    r.len() == w.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] is Number && num_of(r[i]) == w[i] && 0 <= w[i] <= 65535
}
pub open spec fn key_at(keys: Seq<Color>, m: Map<Color, usize>, p: Seq<Color>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> p[m[#[trigger] keys[i]] as int] == keys[i]
}
"""

ICON_LEMMAS = """
proof fn push_bytes(s: Seq<Statement>, b: Seq<u8>, r: Seq<ByteValue>, c: Seq<u8>, st: Statement)
    requires writes(s, b), are_bytes(r, c), st matches Statement::Directive(Directive::Byte(_, v)) && v@ == r,
    ensures writes(s.push(st), b + c),
{
    byte_row(c, r, st);
    push_one(s, b, st);
}
proof fn push_words(s: Seq<Statement>, b: Seq<u8>, r: Seq<Expr>, w: Seq<int>, st: Statement)
    requires writes(s, b), are_words(r, w), st matches Statement::Directive(Directive::Word(_, v)) && v@ == r,
    ensures writes(s.push(st), b + words_bytes(w)),
{
    assert forall|i: int| 0 <= i < r.len() implies small(#[trigger] r[i], 65535) by { assert(r[i] is Number); }
    assert(Seq::new(r.len(), |i: int| num_of(r[i])) =~= w) by {
        assert forall|i: int| 0 <= i < r.len() implies num_of(#[trigger] r[i]) == w[i] by { }
    }
    assert(plain(st));
    push_one(s, b, st);
}
proof fn words_more(a: Seq<int>, b: Seq<int>)
    ensures words_bytes(a + b) == words_bytes(a) + words_bytes(b),
{
    assert forall|i: int| 0 <= i < 2 * (a.len() + b.len()) implies words_bytes(a + b)[i] == #[trigger] (words_bytes(a) + words_bytes(b))[i] by {
        if i < 2 * a.len() { assert((a + b)[i / 2] == a[i / 2]); }
        else { assert((i - 2 * a.len()) / 2 == i / 2 - a.len() && (i - 2 * a.len()) % 2 == i % 2); assert((a + b)[i / 2] == b[i / 2 - a.len()]); }
    }
    assert(words_bytes(a + b) =~= words_bytes(a) + words_bytes(b));
}
proof fn pal_small(c: Color)
    ensures 0 <= pal(c) <= 65535,
{
}
proof fn nibble_pair(a: usize, b: usize)
    by (bit_vector)
    requires a < 16, b < 16,
    ensures (((a & 0xF) << 4) | (b & 0xF)) == a * 16 + b,
{
}
proof fn low_byte(a: usize)
    by (bit_vector)
    requires a < 256,
    ensures a & 0xFF == a,
{
}
proof fn low_word(a: i32)
    by (bit_vector)
    requires 0 <= a <= 65535,
    ensures a & 0xFFFF == a,
{
}
"""


def stepped(u, text):
    """`for x in (a..b).step_by(n) { B }` becomes `let mut k = a; while k < b { let x = k; B; k = k + n; }`."""
    f = Fn(text)
    T = f.toks
    for n, (kind, i, kin, ob, cb) in enumerate(f.loops):
        if kind == "for" and T[kin + 1].s == "(" and [t.s for t in T[match_close(T, kin + 1) + 1:match_close(T, kin + 1) + 4]] == [".", "step_by", "("]:
            c = match_close(T, kin + 1)
            if any(t.k == "id" and t.s in ("continue", "break") for t in T[ob:cb]) or kin - i != 2:
                raise Lost("step_by loop with continue or break")
            dd = [k for k in range(kin + 2, c) if T[k].s == ".."]
            if len(dd) != 1 or match_close(T, c + 3) != ob - 1:
                raise Lost("step_by over something else")
            a, b, st = f.text[T[kin + 1].b:T[dd[0]].a], f.text[T[dd[0]].b:T[c].a], f.text[T[c + 3].b:T[ob - 1].a]
            f.rep(T[i].a, T[ob].b, "let mut vx_k%d: usize = %s;\nwhile vx_k%d < %s {\nlet %s = vx_k%d;\n" % (n, a, n, b, T[i + 1].s, n))
            f.ins(T[cb].a, "vx_k%d = vx_k%d + %s;\n" % (n, n, st), -1)
            u.rewrites.append("`for x in (a..b).step_by(n)` is written as a while loop")
    return f.render()


def c_image_icon(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    I = "impl Image"
    text = i.find(I, "fn to_icon").text
    f = Fn(stepped(u, img.iters(text)) if mode == "verify" else text)
    f.replace("impl std::fmt::Display", "impl Shows")
    if mode == "verify":
        asm.index_by_key(u, f, "palette_map", deref=True)
        M = "palette_map@"
        GOOD = "indexed(palette_map@), colors(*self).subset_of(palette_map@.dom()), self.frames@.len() < 0x7fff_ffff"
        f.loop(0, "it", """                invariant
                    it.seq().len() == vx_keys0@.len(), indexed(palette_map@), palette_map@.dom().len() <= palette@.len(), key_at(vx_keys0@, palette_map@, palette@, it.index() as int),
                    palette@.len() == slots(palette_map@.dom().len()),
                    forall|i: int| 0 <= i < vx_keys0@.len() ==> palette_map@.dom().contains((#[trigger] vx_keys0@[i]).kv()),
                    forall|i: int, j: int| 0 <= i < j < vx_keys0@.len() ==> (#[trigger] vx_keys0@[i]).kv() != (#[trigger] vx_keys0@[j]).kv(),
""", start="proof { assert(vx_keys0@[it.index() as int] == *key); assert(palette_map@.contains_key(*key)); }",
               after="""proof {
    assert forall|c: Color| palette_map@.contains_key(c) implies #[trigger] palette_map@[c] < palette@.len() && palette@[palette_map@[c] as int] == c by {
        let k = choose|k: int| 0 <= k < vx_keys0@.len() && (#[trigger] vx_keys0@[k]).kv() == c;
        assert(vx_keys0@[k] == c);
    }
    assert(pal_ok(palette@, palette_map@));
}
let ghost p = palette@;
let ghost m = palette_map@;
let ghost size = p.len() as int;""")
        f.at("for y in 0", """let ghost c1 = stmts@;
proof { writes_none(); assert(c1 =~= seq![].push(c1.last())); push_nothing(seq![], seq![], c1.last()); assert(words_bytes(pals(p, 0)) =~= seq![]); }""")
        f.loop(1, "it", """                invariant
                    palette@ == p, p.len() == 16 || p.len() == 256,
                    writes(stmts@, words_bytes(pals(p, 8 * it.index()))),
""", start="let ghost s0 = stmts@;", end="""proof {
    let st = stmts@.last();
    assert(stmts@ =~= s0.push(st));
    let part = Seq::new(8, |i: int| pal(p[8 * y + i]));
    push_words(s0, words_bytes(pals(p, 8 * y)), ww, part, st);
    words_more(pals(p, 8 * y), part);
    assert(pals(p, 8 * y) + part =~= pals(p, 8 * (y + 1)));
}""", after="""let ghost w = words_bytes(pals(p, p.len() as int));
let ghost c2 = stmts@;""")
        f.loop(2, "ij", """                    invariant
                        palette@ == p, p.len() == 16 || p.len() == 256, y < p.len() / 8,
                        are_words(words@, Seq::new(ij.index() as nat, |i: int| pal(p[8 * y + i]))),
""", start="proof { pal_small(p[8 * y + x]); }", end="", after="let ghost ww = words@;")
        f.at("if palette.len() == 16", """proof { assert(stmts@ =~= c2.push(stmts@.last())); push_nothing(c2, w, stmts@.last()); assert(w + pix_frames(size, self.frames@, m, 0) =~= w); }""")
        FR = """            invariant
                %s, it.seq().len() == self.frames@.len(), palette_map@ == m, size == %%s, %%s%%s
                writes(stmts@, w + pix_frames(size, self.frames@, m, it.index() as int)),
""" % GOOD
        FS = "proof { assert(self.frames@[it.index() as int] == *frame); }\nlet ghost k = it.index() as int;\nlet ghost b0 = w + pix_frames(size, self.frames@, m, k);"
        FE = "proof { assert(b0 + pix_rows(size, frame.rows@, m, frame.rows@.len() as int) =~= w + pix_frames(size, self.frames@, m, k + 1)); }"
        RI = """            invariant
                %s, ij.seq().len() == frame.rows@.len(), palette_map@ == m, size == %%s, %%s 0 <= k < self.frames@.len(), self.frames@[k] == *frame,
                writes(stmts@, b0 + pix_rows(size, frame.rows@, m, ij.index() as int)),
""" % GOOD
        RS = "proof { assert(frame.rows@[ij.index() as int] == *row); }\nlet ghost s1 = stmts@;\nlet ghost y = ij.index() as int;"
        RB = "proof { assert(b0 + pix_rows(size, frame.rows@, m, 0) =~= b0); }"

        def row_end(call):
            return """proof {
    let st = stmts@.last();
    assert(stmts@ =~= s1.push(st));
    let b = b0 + pix_rows(size, frame.rows@, m, y);
    %s
    assert(b + pix_row(size, row@, m) =~= b0 + pix_rows(size, frame.rows@, m, y + 1));
}""" % call
        EVEN = "even_rows(*self), m.dom().len() <= 16,"
        PIX = "%s, row@ == self.frames@[k].rows@[y]@, 0 <= k < self.frames@.len(), 0 <= y < self.frames@[k].rows@.len(), palette_map@ == m," % GOOD
        # 16 colours
        f.loop(3, "it", FR % ("16", EVEN, "\n                frame_idx == it.index() + 1,"), start=FS + "\nlet ghost s0 = stmts@;", end=FE)
        f.loop(4, "ij", RI % ("16", EVEN), start=RS, before="""proof {
    if stmts@.len() > s0.len() { let st = stmts@.last(); assert(stmts@ =~= s0.push(st)); push_nothing(s0, b0, st); } else { assert(stmts@ =~= s0); }
    assert(b0 + pix_rows(size, frame.rows@, m, 0) =~= b0);
}""", end=row_end("push_bytes(s1, b, bb, pix_row(size, row@, m), st);"))
        f.loop(5, None, """                            invariant
                                %s %s vx_k5 %% 2 == 0, vx_k5 <= row.len(), row@.len() %% 2 == 0,
                                are_bytes(bytes@, pairs(row@, m, (vx_k5 / 2) as int)),
                            decreases row.len() - vx_k5,
""" % (PIX, EVEN), start="""proof {
    pixel_in(*self, k, y, vx_k5 as int);
    pixel_in(*self, k, y, vx_k5 + 1);
    assert(m.contains_key(row@[vx_k5 as int]) && m.contains_key(row@[vx_k5 + 1]));
    nibble_pair(m[row@[vx_k5 as int]], m[row@[vx_k5 + 1]]);
    assert(2 * (vx_k5 / 2) == vx_k5);
}""", after="let ghost bb = bytes@;")
        # 256 colours
        f.loop(6, "it", FR % ("256", "m.dom().len() <= 256,", ""), start=FS, end=FE)
        f.loop(7, "ij", RI % ("256", "m.dom().len() <= 256,"), start=RS, before=RB, end=row_end("push_bytes(s1, b, bb, pix_row(size, row@, m), st);"))
        f.loop(8, "ik", """                            invariant
                                %s m.dom().len() <= 256, ik.seq().len() == row@.len(),
                                are_bytes(bytes@, singles(row@, m, ik.index() as int)),
""" % PIX, start="""proof {
    let x = ik.index() as int;
    assert(row@[x] == *color);
    pixel_in(*self, k, y, x);
    assert(m.contains_key(*color));
    low_byte(m[*color]);
}""", after="let ghost bb = bytes@;")
        # direct colours
        f.loop(9, "it", FR % ("0", "", ""), start=FS, end=FE, before="""let ghost p: Seq<Color> = seq![];
let ghost m = palette_map@;
let ghost size = 0int;
let ghost w: Seq<u8> = seq![];
proof { writes_none(); assert(stmts@ =~= seq![]); assert(w + pix_frames(size, self.frames@, m, 0) =~= w); assert(pal_ok(p, m)); }""",
               after="proof { assert(words_bytes(pals(p, 0)) =~= w); }")
        f.loop(10, "ij", RI % ("0", ""), start=RS, before=RB, end=row_end("push_words(s1, b, ww, pals(row@, row@.len() as int), st);"))
        f.loop(11, "ik", """                            invariant
                                ik.seq().len() == row@.len(), are_words(words@, pals(row@, ik.index() as int)),
""", start="""proof {
    assert(row@[ik.index() as int] == *color);
    pal_small(*color);
    low_word(pal(*color) as i32);
}""", after="let ghost ww = words@;")
    u.fn(f, "src/img.rs: Image::to_icon", impl=I, mode=mode,
         req=["indexed(palette_map@)", "colors(*self).subset_of(palette_map@.dom())", "palette_map@.dom().len() <= 16 ==> even_rows(*self)",
              "self.frames@.len() < 0x7fff_ffff"],
         ens=["exists|p: Seq<Color>| #[trigger] pal_ok(p, palette_map@) && writes(r.statements@, icon_bytes(*self, palette_map@, p))"])


def build_pixels(srcs, gen):
    u = Unit("icon_pixels")
    img.types(u, srcs)
    u.raw(PAL, "assumed")
    u.raw(asm.KEYS, "assumed")
    u.assumed += ["a HashMap has fewer than 2^63 entries", "keys() visits every key once"]
    u.lemmas(PAL_LEMMAS)
    u.lemmas(img.ROWS_LEMMAS)
    u.raw(ICON)
    u.lemmas(ICON_LEMMAS)
    u.raw("pub trait Shows {}")
    u.rewrites.append("`impl std::fmt::Display` (only used in comments) is written as a trait without methods")
    core.clones(u, "Frame")
    img.makers(u, srcs, "assume")
    c_colors(u, srcs, "assume")
    c_image_icon(u, srcs)
    return u


FILES = """
use vstd::std_specs::convert::*;
#[verifier::external_body] pub struct Path { x: u8 }
/// stands for std::convert::AsRef
pub trait AsRef<T> {
    spec fn target(&self) -> T;
    fn as_ref(&self) -> (r: &T)
        ensures *r == self.target();
}
impl AsRef<Path> for Path { open spec fn target(&self) -> Path { *self } fn as_ref(&self) -> (r: &Path) { self } }
impl<T: AsRef<Path>> AsRef<Path> for &T { open spec fn target(&self) -> Path { (**self).target() } fn as_ref(&self) -> (r: &Path) { (**self).as_ref() } }
pub uninterp spec fn buf_path(b: PathBuf) -> Path;
impl AsRef<Path> for PathBuf {
    open spec fn target(&self) -> Path { buf_path(*self) }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &Path) { unimplemented!() }
}
/// text for messages
#[verifier::external_body] pub struct Shown { x: u8 }
impl Shown { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
pub trait Shows {}
impl Shows for Shown {}
impl<T: Shows> Shows for &T {}
impl Path {
    #[verifier::external_body] pub fn display(&self) -> Shown { unimplemented!() }
    #[verifier::external_body] pub fn to_string_lossy(&self) -> Shown { unimplemented!() }
}
/// the image in a file, if there is one
pub uninterp spec fn image_in(p: Path) -> Option<Image>;
/// what the loader guarantees
pub open spec fn loaded(i: Image) -> bool {
    &&& 0 < i.frames@.len() < 0x7fff_ffff
    &&& forall|k: int| 0 <= k < i.frames@.len() ==> width_of(#[trigger] i.frames@[k]) == width_of(i.frames@[0]) && height_of(i.frames@[k]) == height_of(i.frames@[0])
}
"""

TOP = """
/// C13: these bytes are a palette and, pixel by pixel, the numbers of the colours in it
pub open spec fn coded(i: Image, b: Seq<u8>) -> bool {
    exists|m: Map<Color, usize>, p: Seq<Color>| indexed(m) && m.dom() == colors(i) && pal_ok(p, m) && #[trigger] icon_bytes(i, m, p) == b
}
pub open spec fn eye_type(e: Option<Image>) -> int {
    match e { None => 0, Some(i) => if colors(i).len() <= 16 { 3 } else if colors(i).len() <= 256 { 2 } else { 1 } }
}
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// the first 32 bytes
pub open spec fn icon_head(frames: int, speed: int, typ: int) -> Seq<u8> {
    words_bytes(seq![frames, speed]) + words_bytes(seq![typ]) + words_bytes(seq![0int]) + words_bytes(seq![0int, 0int]) + zeros(10) + zeros(10)
}
pub open spec fn still(x: Image, e: Image) -> bool { x.frames@.len() > 0 && scaled_frames(seq![x.frames@[0]], e.frames@, 1) }
pub open spec fn eye_ok(x: Option<Image>, e: Option<Image>, b: Seq<u8>) -> bool {
    match (x, e) { (None, None) => b == Seq::<u8>::empty(), (Some(x), Some(e)) => still(x, e) && has_size(e, 72, 56) && coded(e, b), _ => false }
}
pub open spec fn icon_made(x: Image, speed: int, y: Option<Image>, s: Seq<Statement>, i: Image, e: Option<Image>, a: Seq<u8>, b: Seq<u8>) -> bool {
    &&& scaled(x, i) && colors(i).len() <= 16 && has_size(i, 32, 32) && coded(i, a)
    &&& eye_ok(y, e, b)
    &&& i.frames@.len() <= 65535 ==> writes(s, icon_head(i.frames@.len() as int, speed, eye_type(e)) + a + b)
}
/// the statements of an icon
pub open spec fn icon_ok(x: Image, speed: int, y: Option<Image>, s: Seq<Statement>) -> bool {
    exists|i: Image, e: Option<Image>, a: Seq<u8>, b: Seq<u8>| #[trigger] icon_made(x, speed, y, s, i, e, a, b)
}
/// no icon can be made of this
pub open spec fn icon_bad(x: Option<Image>, has_eye: bool, y: Option<Image>) -> bool {
    ||| x is None
    ||| exists|i: Image| #[trigger] scaled(x->0, i) && (colors(i).len() > 16 || !has_size(i, 32, 32))
    ||| has_eye && y is None
    ||| has_eye && exists|e: Image| #[trigger] still(y->0, e) && !has_size(e, 72, 56)
}
pub open spec fn word_is(st: Statement, w: Seq<int>) -> bool { st matches Statement::Directive(Directive::Word(_, v)) && are_words(v@, w) }
pub open spec fn byte_is(st: Statement, b: Seq<u8>) -> bool { st matches Statement::Directive(Directive::Byte(_, v)) && are_bytes(v@, b) }
"""

TOP_LEMMAS = """
proof fn head(t: Seq<Statement>, frames: int, speed: int, typ: int)
    requires
        t.len() == 11, t[0] is Comment, word_is(t[1], seq![frames, speed]), t[2] is Comment, word_is(t[3], seq![typ]), t[4] is Comment,
        word_is(t[5], seq![0int]), t[6] is Comment, word_is(t[7], seq![0int, 0int]), t[8] is Comment, byte_is(t[9], zeros(10)), byte_is(t[10], zeros(10)),
    ensures writes(t, icon_head(frames, speed, typ)),
{
    writes_none();
    assert(t.take(0) =~= seq![]);
    let z: Seq<u8> = seq![];
    let b1 = words_bytes(seq![frames, speed]);
    let b2 = b1 + words_bytes(seq![typ]);
    let b3 = b2 + words_bytes(seq![0int]);
    let b4 = b3 + words_bytes(seq![0int, 0int]);
    let b5 = b4 + zeros(10);
    step_c(t, 0, z);
    step_w(t, 1, z, seq![frames, speed]);
    assert(z + b1 =~= b1);
    step_c(t, 2, b1); step_w(t, 3, b1, seq![typ]);
    step_c(t, 4, b2); step_w(t, 5, b2, seq![0int]);
    step_c(t, 6, b3); step_w(t, 7, b3, seq![0int, 0int]);
    step_c(t, 8, b4); step_b(t, 9, b4, zeros(10)); step_b(t, 10, b5, zeros(10));
    assert(t.take(11) =~= t);
}
proof fn step_c(t: Seq<Statement>, k: int, b: Seq<u8>)
    requires 0 <= k < t.len(), writes(t.take(k), b), t[k] is Comment,
    ensures writes(t.take(k + 1), b),
{
    assert(t.take(k + 1) =~= t.take(k).push(t[k]));
    push_nothing(t.take(k), b, t[k]);
}
proof fn step_w(t: Seq<Statement>, k: int, b: Seq<u8>, w: Seq<int>)
    requires 0 <= k < t.len(), writes(t.take(k), b), word_is(t[k], w),
    ensures writes(t.take(k + 1), b + words_bytes(w)),
{
    assert(t.take(k + 1) =~= t.take(k).push(t[k]));
    match t[k] { Statement::Directive(Directive::Word(_, v)) => push_words(t.take(k), b, v@, w, t[k]), _ => {} }
}
proof fn step_b(t: Seq<Statement>, k: int, b: Seq<u8>, c: Seq<u8>)
    requires 0 <= k < t.len(), writes(t.take(k), b), byte_is(t[k], c),
    ensures writes(t.take(k + 1), b + c),
{
    assert(t.take(k + 1) =~= t.take(k).push(t[k]));
    match t[k] { Statement::Directive(Directive::Byte(_, v)) => push_bytes(t.take(k), b, v@, c, t[k]), _ => {} }
}
/// the property's wording: the pixel's number leads to the pixel's colour
proof fn looks_up(i: Image, m: Map<Color, usize>, p: Seq<Color>, f: int, y: int, x: int)
    requires
        indexed(m), m.dom() == colors(i), pal_ok(p, m), 0 <= f < i.frames@.len(), 0 <= y < i.frames@[f].rows@.len(),
        0 <= x < i.frames@[f].rows@[y]@.len(),
    ensures
        p.len() == 16 && i.frames@[f].rows@[y]@.len() % 2 == 0 ==> ({
            let row = i.frames@[f].rows@[y]@;
            let b = pix_row(16, row, m)[x / 2];
            let n = if x % 2 == 0 { b as int / 16 } else { b as int % 16 };
            0 <= n < 16 && p[n] == row[x] && pals(p, 16)[n] == pal(row[x])
        }),
        p.len() == 256 ==> ({
            let row = i.frames@[f].rows@[y]@;
            let n = pix_row(256, row, m)[x] as int;
            0 <= n < 256 && p[n] == row[x] && pals(p, 256)[n] == pal(row[x])
        }),
{
    pixel_in(i, f, y, x);
    let row = i.frames@[f].rows@[y]@;
    assert(m.contains_key(row[x]));
    if p.len() == 16 && row.len() % 2 == 0 {
        let k = x / 2;
        pixel_in(i, f, y, 2 * k);
        pixel_in(i, f, y, 2 * k + 1);
        assert(m.contains_key(row[2 * k]) && m.contains_key(row[2 * k + 1]));
        assert(m[row[2 * k]] < 16 && m[row[2 * k + 1]] < 16);
    }
}
proof fn even_width(i: Image, w: int, h: int)
    requires has_size(i, w, h), w % 2 == 0,
    ensures even_rows(i),
{
    assert forall|f: int, y: int| 0 <= f < i.frames@.len() && 0 <= y < i.frames@[f].rows@.len() implies (#[trigger] i.frames@[f].rows@[y])@.len() % 2 == 0 by {
        assert(frame_size(i.frames@[f], w, h));
    }
}
"""


def c_statements(u, srcs, mode="verify"):
    a = srcs["src/ast.rs"]
    S = "impl Statements"
    u.fn(Fn(a.find(S, "fn as_slice").text), "src/ast.rs: Statements::as_slice", impl=S, mode=mode, ens=["r@ == self.statements@"])
    u.fn(Fn(a.find(S, "fn push").text), "src/ast.rs: Statements::push", impl=S, mode=mode,
         ens=["final(self).statements@ == old(self).statements@.push(statement)"])
    f = Fn(a.find(S, "fn append").text.replace("in statements {", "in statements.iter() {"))
    if mode == "verify":
        f.body_start("let ghost s0 = self.statements@;")
        f.loop(0, "it", """            invariant
                it.seq().len() == statements@.len(), self.statements@ == s0 + statements@.take(it.index() as int),
""", start="proof { assert(statements@[it.index() as int] == *statement); assert(statements@.take(it.index() + 1) =~= statements@.take(it.index() as int).push(*statement)); }",
               before="proof { assert(self.statements@ =~= s0 + statements@.take(0)); }",
               after="proof { assert(statements@.take(statements@.len() as int) =~= statements@); }")
    u.fn(f, "src/ast.rs: Statements::append", impl=S, mode=mode,
         ens=["final(self).statements@ == old(self).statements@ + statements@"])


LOADED = "match r { Ok(i) => image_in(path.target()) == Some(i) && loaded(i), Err(_) => image_in(path.target()) is None }"


def appended(u, text):
    """`s.append(&e.as_slice());` is `let v = e; s.append(v.as_slice());`"""
    f = Fn(text)
    T = f.toks
    n = 0
    for i in range(f.ibody, f.iend):
        if [t.s for t in T[i:i + 5]] == ["stmts", ".", "append", "(", "&"] and T[i - 1].s in ("{", "}", ";"):
            e = match_close(T, i + 3)
            c = e - (T[e - 1].s == ",")
            if [t.s for t in T[c - 4:c]] != [".", "as_slice", "(", ")"] or T[e + 1].s != ";":
                raise Lost("append of something else")
            f.rep(T[i].a, T[e].b, "let vx_a%d = %s;\nstmts.append(vx_a%d.as_slice())" % (n, f.text[T[i + 4].b:T[c - 4].a], n))
            n += 1
    u.rewrites.append("`s.append(&e.as_slice());` is written `let v = e; s.append(v.as_slice());`")
    return f.render()


def c_top(u, srcs, mode="verify"):
    i = srcs["src/img.rs"]
    u.fn(Fn(i.find("fn load_image").text), "src/img.rs: load_image", mode="assume", ens=[LOADED])
    u.fn(Fn(i.find("fn eyecatch_type").text), "src/img.rs: eyecatch_type", mode=mode,
         ens=["r == match *palette { None => 0int, Some(p) => if p@.dom().len() <= 16 { 3int } else if p@.dom().len() <= 256 { 2int } else { 1int } }"])
    I = "impl Image"
    f = Fn(i.find(I, "fn to_frame_count_and_speed").text)
    f.replace("impl std::fmt::Display", "impl Shows")
    u.fn(f, "src/img.rs: Image::to_frame_count_and_speed", impl=I, mode=mode, req=["self.frames@.len() < 0x7fff_ffff"],
         ens=["r.statements@.len() == 2", "r.statements@[0] is Comment",
              "self.frames@.len() <= 65535 ==> word_is(r.statements@[1], seq![self.frames@.len() as int, speed as int])"])
    text = i.find("fn to_icon").text
    f = Fn(appended(u, text) if mode == "verify" else text)
    if mode == "verify":
        if len(f.closures) == 2:
            f.closure(0, "|eyecatch_file: &E| -> (vx_r: &Path) ensures *vx_r == eyecatch_file.target()")
            f.closure(1, "|img: &Image| -> (vx_r: HashMap<Color, usize>) ensures vx_r@.dom() == colors(*img), indexed(vx_r@)")
        f.at("let icon_path = icon_path.as_ref();", "let ghost pth = icon_path.target();", "before")
        f.at("let palette = image.get_palette();", "proof { assert(scaled(image_in(pth)->0, image)); }")
        f.at("let eyecatch_palette", """proof {
    if eyecatch_file is Some { assert(still(image_in(*eyecatch_file->0)->0, eyecatch->0)); }
    assert(eyecatch is Some == eyecatch_file is Some);
}""")
        f.at("let vx_a0", """let ghost n = image.frames@.len() as int;
let ghost sp = (if speed is Some { speed->0 } else { 10 }) as int;
let ghost hd = icon_head(n, sp, eyecatch_type as int);
let ghost t = stmts.statements@;
proof {
    assert(are_words(seq![], seq![]));
    if n <= 65535 { head(t, n, (if speed is Some { speed->0 } else { 10 }) as int, eyecatch_type as int); }
    even_width(image, 32, 32);
}""")
        f.at("stmts.append(vx_a0.as_slice());", """let ghost p0 = choose|p: Seq<Color>| #[trigger] pal_ok(p, palette@) && writes(vx_a0.statements@, icon_bytes(image, palette@, p));
let ghost a = icon_bytes(image, palette@, p0);
let ghost t1 = stmts.statements@;
let ghost mut b = Seq::<u8>::empty();
let ghost y = match eyecatch_file { Some(e) => image_in(*e), None => None };
proof {
    assert(coded(image, a));
    if n <= 65535 { push_all(t, hd, vx_a0.statements@, a); }
    assert(hd + a + b =~= hd + a);
    if eyecatch is None { assert(icon_made(image_in(pth)->0, sp, y, t1, image, eyecatch, a, b)); }
}""", "after")
        f.at("let vx_a1", "let ghost eye = eyecatch->0;\nlet ghost em = eyecatch_palette->0@;\nproof { even_width(eye, 72, 56); }")
        f.at("stmts.append(vx_a1.as_slice());", """proof {
    let p1 = choose|p: Seq<Color>| #[trigger] pal_ok(p, em) && writes(vx_a1.statements@, icon_bytes(eye, em, p));
    b = icon_bytes(eye, em, p1);
    assert(coded(eye, b));
    if n <= 65535 { push_all(t1, hd + a, vx_a1.statements@, b); }
    assert(icon_made(image_in(pth)->0, sp, y, stmts.statements@, image, Some(eye), a, b));
}""", "after")
    u.fn(f, "src/img.rs: to_icon", mode=mode,
         ens=["""match r {
            Ok(s) => image_in(icon_path.target()) is Some && (eyecatch_file is Some ==> image_in(eyecatch_file->0.target()) is Some)
                && icon_ok(image_in(icon_path.target())->0, (if speed is Some { speed->0 } else { 10 }) as int,
                    (match eyecatch_file { Some(e) => image_in(e.target()), None => None }), s.statements@),
            Err(_) => icon_bad(image_in(icon_path.target()), eyecatch_file is Some, match eyecatch_file { Some(e) => image_in(e.target()), None => None }),
        }"""])


def build_icon(srcs, gen):
    u = Unit("icon_top")
    img.types(u, srcs)
    u.raw(PAL, "assumed")
    u.assumed += ["a HashMap has fewer than 2^63 entries"]
    u.lemmas(PAL_LEMMAS)
    u.lemmas(img.ROWS_LEMMAS)
    u.raw(ICON)
    u.lemmas(ICON_LEMMAS)
    u.raw(FILES, "assumed")
    u.assumed += ["load_image: what is in a file does not change during the run; at least one and less than 2^31 frames, all of one size (image crate)"]
    u.rewrites.append("Path, AsRef and Display (only used for messages) are stand-ins of the same name")
    u.raw(TOP)
    u.lemmas(TOP_LEMMAS)
    u.raw(asm.PANIC, "assumed")
    core.items(u, srcs["src/img.rs"], "enum IconError", "enum ImageLoadError")
    f = Fn(srcs["src/img.rs"].find("impl std::convert::From<ImageLoadError> for IconError", "fn from").text)
    u.open("impl From<ImageLoadError> for IconError {")
    u.fn(f, "src/img.rs: From<ImageLoadError> for IconError", impl="From", vac=False)
    u.close()
    u.raw("impl vstd::std_specs::convert::FromSpecImpl<ImageLoadError> for IconError {\n"
          "    open spec fn obeys_from_spec() -> bool { false }\n"
          "    open spec fn from_spec(e: ImageLoadError) -> IconError { arbitrary() }\n}")
    core.clones(u, "Frame", "ByteValue")
    img.makers(u, srcs, "assume")
    c_colors(u, srcs, "assume")
    c_images(u, srcs, "assume")
    c_image_icon(u, srcs, "assume")
    c_statements(u, srcs)
    c_top(u, srcs)
    return u
