"""Contracts of the disassembler (C04, C10, C11)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "spec"))
import asm as asmc  # noqa: E402
import core  # noqa: E402
import isa as isac  # noqa: E402
import isatab as isa  # noqa: E402
from rustx import Fn, Lost, uncontinue  # noqa: E402,F401
from vunit import Unit  # noqa: E402

HASHSET = """
/// stands for std::collections::HashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K: KeyView> { k: std::marker::PhantomData<K> }
impl<K: KeyView> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::KV>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<K::KV>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: KeyView<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains(k.kv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()),
    { unimplemented!() }
}
"""

NOFALL = ("Jmp", "Jmpf", "Br", "Brf", "Ret", "Reti")

GRAPH = """
type IGraph = InstructionGraph<i32, u8>;

/// the last step before pos was, as far as the graph knows, `not1 ext, 0`
spec fn to_flash(g: IGraph, pos: int) -> bool {
    &&& pos >= 2
    &&& g.instrs@.dom().contains((pos - 2) as usize) && g.instrs@[(pos - 2) as usize] == Instr::<i32, u8>::Not1(0x10D, 0)
    &&& g.jump_from@.dom().contains(pos as usize) && g.jump_from@[pos as usize]@.contains((pos - 2) as usize)
}

/// an address below zero or above 16 bits is outside every image; it appears as some position outside
spec fn addr(x: int) -> usize { if x < 0 { (0x1_0000_0000_0000_0000 + x) as usize } else { x as usize } }
"""


def targets_spec():
    o = ["/// the position a branch, jump or call at pos leads to",
         "spec fn goes(i: Instr<i32, u8>, next: int) -> Option<usize> { match i {"]
    rest = []
    for n, (kinds, _) in isa.FORMS.items():
        t = [(x, k) for x, k in enumerate(kinds) if k in core.TARGET]
        if t:
            x, k = t[0]
            e = {"a12": "addr(next %% 65536 / 4096 * 4096 + o%d as int)", "a16": "addr(o%d as int)",
                 "r8": "addr(next + o%d as int)", "r16": "addr(next - 1 + o%d as int)"}[k] % x
            o.append("    %s => Some(%s)," % (isac.arm(n, (x,)), e))
        else:
            rest.append(n)
    o.append("    _ => None,\n} }")
    o.append("/// execution can continue behind this instruction")
    o.append("spec fn falls(i: Instr<i32, u8>) -> bool { match i {\n    %s => false,\n    _ => true,\n} }" % " | ".join(isac.arm(n, ()) for n in NOFALL))
    o.append("""
/// where execution can continue after the instruction i at pos
spec fn onward(i: Instr<i32, u8>, pos: int) -> Seq<usize> {
    let next = pos + ilen(i);
    match goes(i, next) {
        Some(t) => if falls(i) { seq![t, next as usize] } else { seq![t] },
        None => if falls(i) { seq![next as usize] } else { seq![] },
    }
}
/// the same, within this image, as far as the graph knows
spec fn succ(g: IGraph, i: Instr<i32, u8>, pos: int) -> Seq<usize> {
    if i is Jmpf && to_flash(g, pos) { seq![] } else { onward(i, pos) }
}
""")
    return "\n".join(o)


JUMPS = """
broadcast proof fn b_top(x: usize)
    ensures #![trigger x & 0xF000usize] x & 0xF000usize == x as int % 65536 / 4096 * 4096,
{
    assert(x & 0xF000usize == (x % 65536usize) / 4096usize * 4096usize) by (bit_vector);
}
broadcast proof fn b_low(x: usize)
    ensures #![trigger x & 0x0FFFusize] x & 0x0FFFusize == x as int % 4096,
{
    assert(x & 0x0FFFusize == x % 4096usize) by (bit_vector);
}
broadcast proof fn b_join(x: usize, y: usize)
    ensures #![trigger (x & 0xF000usize) | (y & 0x0FFFusize)]
        (x & 0xF000usize) | (y & 0x0FFFusize) == (x & 0xF000usize) + (y & 0x0FFFusize),
{
    assert((x & 0xF000usize) | (y & 0x0FFFusize) == ((x & 0xF000usize) + (y & 0x0FFFusize)) as usize) by (bit_vector);
    assert((x & 0xF000usize) <= 0xF000usize) by (bit_vector);
    assert((y & 0x0FFFusize) <= 0x0FFFusize) by (bit_vector);
}
broadcast group jump_facts { b_top, b_low, b_join }
broadcast proof fn b_addr(x: i32)
    ensures #![trigger x as usize] x as usize == addr(x as int),
{
    assert(x < 0i32 ==> x as usize == sub(0xffff_ffff_ffff_ffffusize, sub(-1i32, x) as usize)) by (bit_vector);
}
"""

SAME = """
/// C04: for an instruction that the assembler accepts, the disassembler finds the target that was written
proof fn same_target(v: int, next: int)
    requires 0 <= next <= 0x7fff_0000,
    ensures
        core_a12(v, next) is Some ==> addr(next % 65536 / 4096 * 4096 + core_a12(v, next)->0) == v,
        fit_r8(v, next) is Some ==> addr(next + fit_r8(v, next)->0) == v,
        fit_r16(v, next) is Some ==> addr(next - 1 + fit_r16(v, next)->0) == v,
        fit_a16(v) is Some ==> addr(fit_a16(v)->0) == v,
{
}
""".replace("core_a12", "fit_a12")


def graph_types(u, srcs):
    d = srcs["src/disasm.rs"]
    u.raw(HASHSET, "assumed")
    u.assumed.append("std HashSet (new, contains, insert) behaves as a finite set")
    u.raw("#[verifier::external_type_specification]\n#[verifier::external_body]\npub struct ExIoError(std::io::Error);", "assumed")
    core.items(u, d, "struct InstructionGraph", "enum DisasmError")
    u.raw(GRAPH)
    u.raw(targets_spec())


def c_graph_get(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    G = "impl<Ex,IM>InstructionGraph<Ex,IM>"
    H = "impl<Ex, IM> InstructionGraph<Ex, IM>"
    u.fn(Fn(d.find(G, "fn instrs").text), "src/disasm.rs: InstructionGraph::instrs", impl=H, mode=mode, ens=["*r == self.instrs"])
    u.fn(Fn(d.find(G, "fn instr_arrived_from").text), "src/disasm.rs: InstructionGraph::instr_arrived_from", impl=H, mode=mode,
         ens=["r == (self.jump_from@.dom().contains(instr_pos) && self.jump_from@[instr_pos]@.contains(pos))"])
    u.fn(Fn(d.find(G, "fn contains_instr").text), "src/disasm.rs: InstructionGraph::contains_instr", impl=H, mode=mode,
         ens=["r == self.instrs@.dom().contains(pos)"])


def c_targets(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    for n, back in (("rel8", 0), ("rel16", 1)):
        f = Fn(d.find("fn " + n).text)
        if mode == "verify":
            f.body_start("broadcast use b_addr;")
        u.fn(f, "src/disasm.rs: " + n, mode=mode, req=["next <= 0x7fff_0000", "-32768 <= rel <= 32767"],
             ens=["r == addr(next - %d + rel)" % back])
    f = Fn(d.find("fn targets").text)
    if mode == "verify":
        f.body_start("broadcast use jump_facts;")
    u.fn(f, "src/disasm.rs: targets", mode=mode,
         req=["wf(*instr)", "pos <= 0x7ffe_0000"], ens=["r@ =~= succ(*graph, *instr, pos as int)"],
         attrs=["verifier::rlimit(200)"])


REACH = """
/// the instruction that the image holds at p, if any
spec fn stands(b: Seq<u8>, p: usize, i: Instr<i32, u8>) -> bool {
    wf(i) && p + ilen(i) <= b.len() && enc(i) == b.subrange(p as int, p + ilen(i))
}
spec fn instr_at(b: Seq<u8>, p: usize) -> Option<Instr<i32, u8>> {
    if exists|i: Instr<i32, u8>| stands(b, p, i) { Some(choose|i: Instr<i32, u8>| stands(b, p, i)) } else { None }
}
/// `not1 ext, 0`, which switches to flash
spec fn is_flash(b: Seq<u8>, p: usize) -> bool { instr_at(b, p) == Some(Instr::<i32, u8>::Not1(0x10D, 0)) }
spec fn far(b: Seq<u8>, p: usize) -> bool { instr_at(b, p) is Some && instr_at(b, p)->0 is Jmpf }
/// execution can continue at t after the instruction at q
spec fn leads(b: Seq<u8>, q: usize, t: usize) -> bool { instr_at(b, q) is Some && onward(instr_at(b, q)->0, q as int).contains(t) }
spec fn after_flash(b: Seq<u8>, r: usize, q: usize) -> bool { r + 2 == q && is_flash(b, r) }

/// p is an entry point, or one of the steps s arrives there
spec fn from(e: Seq<usize>, s: spec_fn(usize, usize) -> bool, p: usize) -> bool { e.contains(p) || exists|q: usize| #[trigger] s(q, p) }
/// the same, other than by a switch to flash
spec fn freely(e: Seq<usize>, b: Seq<u8>, s: spec_fn(usize, usize) -> bool, p: usize) -> bool {
    e.contains(p) || exists|q: usize| #[trigger] s(q, p) && !after_flash(b, q, p)
}
/// after the steps s: q is reached and leads to t; a far jump only if it is reached other than by a switch to flash
spec fn onwards(e: Seq<usize>, b: Seq<u8>, s: spec_fn(usize, usize) -> bool, q: usize, t: usize) -> bool {
    from(e, s, q) && leads(b, q, t) && (far(b, q) ==> freely(e, b, s, q))
}
spec fn steps(e: Seq<usize>, b: Seq<u8>, n: nat) -> spec_fn(usize, usize) -> bool
    decreases n,
{
    if n == 0 { |q: usize, t: usize| false } else { let s = steps(e, b, (n - 1) as nat); |q: usize, t: usize| onwards(e, b, s, q, t) }
}
spec fn step(e: Seq<usize>, b: Seq<u8>, n: nat, q: usize, t: usize) -> bool { steps(e, b, n)(q, t) }
/// C10: p is reached from an entry point in at most n steps
spec fn reach(e: Seq<usize>, b: Seq<u8>, n: nat, p: usize) -> bool { from(e, steps(e, b, n), p) }
spec fn free(e: Seq<usize>, b: Seq<u8>, n: nat, q: usize) -> bool { freely(e, b, steps(e, b, n), q) }
spec fn reached(e: Seq<usize>, b: Seq<u8>, p: usize) -> bool { exists|n: nat| reach(e, b, n, p) }
spec fn stepped(e: Seq<usize>, b: Seq<u8>, q: usize, t: usize) -> bool { exists|n: nat| step(e, b, n, q, t) }

spec fn inside(g: IGraph, p: usize) -> bool { g.instrs@.dom().contains(p) }
/// a jump from r to t has been recorded
spec fn jf(g: IGraph, t: usize, r: usize) -> bool { g.jump_from@.dom().contains(t) && g.jump_from@[t]@.contains(r) }
spec fn arrived(e: Seq<usize>, g: IGraph, x: usize) -> bool { e.contains(x) || exists|r: usize| jf(g, x, r) }
/// still to be looked at
spec fn todo(a: Seq<usize>, c: Seq<usize>, k: int, x: usize) -> bool { a.contains(x) || exists|j: int| k <= j < c.len() && #[trigger] c[j] == x }

/// every position of the graph holds the instruction of the image and is reached
spec fn sound(e: Seq<usize>, b: Seq<u8>, g: IGraph) -> bool {
    forall|p: usize| inside(g, p) ==> p < b.len() && #[trigger] instr_at(b, p) == Some(g.instrs@[p]) && reached(e, b, p)
}
/// every recorded jump is a step from a position of the graph
spec fn jumps(e: Seq<usize>, b: Seq<u8>, g: IGraph) -> bool {
    forall|t: usize, r: usize| #[trigger] jf(g, t, r) ==> inside(g, r) && stepped(e, b, r, t)
}
spec fn queued(e: Seq<usize>, g: IGraph, a: Seq<usize>, c: Seq<usize>) -> bool {
    (forall|j: int| 0 <= j < a.len() ==> arrived(e, g, #[trigger] a[j])) && (forall|j: int| 0 <= j < c.len() ==> arrived(e, g, #[trigger] c[j]))
}
/// whatever an instruction of the graph leads to is in the graph or still to be looked at
spec fn closing(b: Seq<u8>, g: IGraph, a: Seq<usize>, c: Seq<usize>, k: int) -> bool {
    forall|p: usize, t: usize| inside(g, p) && #[trigger] succ(g, g.instrs@[p], p as int).contains(t) && t < b.len() ==> inside(g, t) || todo(a, c, k, t)
}
spec fn begun(e: Seq<usize>, b: Seq<u8>, g: IGraph, a: Seq<usize>, c: Seq<usize>, k: int) -> bool {
    forall|x: usize| #[trigger] e.contains(x) && x < b.len() ==> inside(g, x) || todo(a, c, k, x)
}
spec fn tracing(e: Seq<usize>, b: Seq<u8>, g: IGraph, a: Seq<usize>, c: Seq<usize>, k: int) -> bool {
    sound(e, b, g) && jumps(e, b, g) && queued(e, g, a, c) && closing(b, g, a, c, k) && begun(e, b, g, a, c, k)
}
/// C10: the graph holds exactly the reachable code
spec fn exact(e: Seq<usize>, b: Seq<u8>, g: IGraph) -> bool {
    &&& sound(e, b, g)
    &&& forall|x: usize| #[trigger] e.contains(x) && x < b.len() ==> inside(g, x)
    &&& forall|p: usize, t: usize| inside(g, p) && #[trigger] leads(b, p, t) && t < b.len() && !(far(b, p) && p >= 2 && inside(g, (p - 2) as usize) && is_flash(b, (p - 2) as usize)) ==> inside(g, t)
}
/// the first j targets of pos have been recorded
spec fn recorded(g: IGraph, h: IGraph, pos: usize, ts: Seq<usize>, j: int) -> bool {
    forall|t: usize, r: usize| #[trigger] jf(h, t, r) <==> jf(g, t, r) || (r == pos && exists|i: int| 0 <= i < j && #[trigger] ts[i] == t)
}
/// those of the first j targets that are new have been queued
spec fn pushed(g: IGraph, ts: Seq<usize>, j: int, a: Seq<usize>, c: Seq<usize>) -> bool {
    &&& a.len() <= c.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] c[i] == a[i]
    &&& forall|i: int| a.len() <= i < c.len() ==> ts.contains(#[trigger] c[i]) && !inside(g, c[i])
    &&& forall|i: int| 0 <= i < j ==> inside(g, #[trigger] ts[i]) || c.contains(ts[i])
}
/// the number of positions below n that are not in the graph
spec fn missing(d: Set<usize>, n: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else { missing(d, (n - 1) as nat) + (if d.contains((n - 1) as usize) { 0nat } else { 1nat }) }
}
spec fn old_news(b: Seq<u8>, d: Set<usize>, c: Seq<usize>) -> bool { forall|j: int| 0 <= j < c.len() && #[trigger] c[j] < b.len() ==> d.contains(c[j]) }
spec fn outside(b: Seq<u8>, c: Seq<usize>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] c[j] >= b.len() }
spec fn stage(b: Seq<u8>, d: Set<usize>, c: Seq<usize>) -> int {
    if c.len() == 0 { 0 } else if outside(b, c, c.len() as int) { 1 } else if old_news(b, d, c) { 2 } else { 3 }
}
/// what the current round has done: a is the next round, c this one, of which k have been looked at
spec fn round(b: Seq<u8>, g: IGraph, d0: Set<usize>, a: Seq<usize>, c: Seq<usize>, k: int) -> bool {
    &&& forall|p: usize| d0.contains(p) ==> #[trigger] inside(g, p)
    &&& forall|j: int| 0 <= j < k && #[trigger] c[j] < b.len() ==> inside(g, c[j])
    &&& old_news(b, d0, c) ==> (forall|p: usize| #[trigger] inside(g, p) ==> d0.contains(p)) && outside(b, a, a.len() as int)
    &&& outside(b, c, k) ==> a.len() == 0
}
spec fn left(b: Seq<u8>, d: Set<usize>, c: Seq<usize>) -> int { 4 * missing(d, b.len()) + stage(b, d, c) }
"""

REACH_LEMMAS = """
proof fn stands_once(b: Seq<u8>, p: usize, i: Instr<i32, u8>)
    requires stands(b, p, i),
    ensures instr_at(b, p) == Some(i),
{
    let j = instr_at(b, p)->0;
    enc_opcode(i);
    enc_opcode(j);
    assert(enc(i)[0] == b[p as int] && enc(j)[0] == b[p as int]);
    inj_cases(i, j);
}
proof fn nothing_stands(b: Seq<u8>, p: usize)
    requires p < b.len(), !(oplen(b[p as int]) >= 1 && p + oplen(b[p as int]) <= b.len()),
    ensures instr_at(b, p) is None,
{
    if instr_at(b, p) is Some {
        let j = instr_at(b, p)->0;
        enc_opcode(j);
        assert(enc(j)[0] == b[p as int]);
    }
}
proof fn step_is(e: Seq<usize>, b: Seq<u8>, n: nat, q: usize, t: usize)
    ensures step(e, b, n + 1, q, t) == (reach(e, b, n, q) && leads(b, q, t) && (far(b, q) ==> free(e, b, n, q))),
{
}
/// what the code follows is a step in the sense of C10
proof fn follows(e: Seq<usize>, b: Seq<u8>, g: IGraph, pos: usize, t: usize)
    requires sound(e, b, g), jumps(e, b, g), arrived(e, g, pos), instr_at(b, pos) is Some, succ(g, instr_at(b, pos)->0, pos as int).contains(t),
    ensures stepped(e, b, pos, t),
{
    if e.contains(pos) {
        step_is(e, b, 0, pos, t);
        assert(step(e, b, 1, pos, t));
    } else {
        let r = choose|r: usize| jf(g, pos, r);
        let n = choose|n: nat| step(e, b, n, r, pos);
        assert(step(e, b, n, r, pos));
        assert(steps(e, b, n)(r, pos));
        if far(b, pos) {
            if after_flash(b, r, pos) {
                assert(inside(g, r) && instr_at(b, r) == Some(g.instrs@[r]));
                assert(r == (pos - 2) as usize);
                assert(to_flash(g, pos as int));
            }
        }
        step_is(e, b, n, pos, t);
        assert(step(e, b, n + 1, pos, t));
    }
}
proof fn arrives(e: Seq<usize>, b: Seq<u8>, g: IGraph, pos: usize)
    requires jumps(e, b, g), arrived(e, g, pos),
    ensures reached(e, b, pos),
{
    if e.contains(pos) {
        assert(reach(e, b, 0, pos));
    } else {
        let r = choose|r: usize| jf(g, pos, r);
        let n = choose|n: nat| step(e, b, n, r, pos);
        assert(step(e, b, n, r, pos));
        assert(steps(e, b, n)(r, pos));
        assert(reach(e, b, n, pos));
    }
}
/// what decode says about the bytes from pos on
proof fn looking(e: Seq<usize>, b: Seq<u8>, g: IGraph, pos: usize)
    requires pos < b.len(), jumps(e, b, g), arrived(e, g, pos),
    ensures
        reached(e, b, pos),
        b.subrange(pos as int, b.len() as int)[0] == b[pos as int],
        forall|n: int| 0 <= n && pos + n <= b.len() ==> #[trigger] b.subrange(pos as int, b.len() as int).subrange(0, n) == b.subrange(pos as int, pos + n),
        forall|i: Instr<i32, u8>| wf(i) && pos + ilen(i) <= b.len() && #[trigger] enc(i) == b.subrange(pos as int, pos + ilen(i)) ==> instr_at(b, pos) == Some(i),
        !(oplen(b[pos as int]) >= 1 && pos + oplen(b[pos as int]) <= b.len()) ==> instr_at(b, pos) is None,
{
    arrives(e, b, g, pos);
    assert forall|n: int| 0 <= n && pos + n <= b.len() implies #[trigger] b.subrange(pos as int, b.len() as int).subrange(0, n) == b.subrange(pos as int, pos + n) by {
        assert(b.subrange(pos as int, b.len() as int).subrange(0, n) =~= b.subrange(pos as int, pos + n));
    }
    assert forall|i: Instr<i32, u8>| wf(i) && pos + ilen(i) <= b.len() && #[trigger] enc(i) == b.subrange(pos as int, pos + ilen(i)) implies instr_at(b, pos) == Some(i) by {
        stands_once(b, pos, i);
    }
    if !(oplen(b[pos as int]) >= 1 && pos + oplen(b[pos as int]) <= b.len()) { nothing_stands(b, pos); }
}
proof fn todo_step(a: Seq<usize>, a2: Seq<usize>, c: Seq<usize>, k: int, x: usize)
    requires 0 <= k < c.len(), todo(a, c, k, x), forall|y: usize| a.contains(y) ==> a2.contains(y),
    ensures x == c[k] || todo(a2, c, k + 1, x),
{
}
/// a position outside the image, or one that has been looked at, is skipped
proof fn skipping(e: Seq<usize>, b: Seq<u8>, g: IGraph, d0: Set<usize>, a: Seq<usize>, c: Seq<usize>, k: int)
    requires 0 <= k < c.len(), tracing(e, b, g, a, c, k), round(b, g, d0, a, c, k), b.len() <= 0x7ffe_0000,
    ensures c[k] >= b.len() || inside(g, c[k]) ==> tracing(e, b, g, a, c, k + 1) && round(b, g, d0, a, c, k + 1), arrived(e, g, c[k]),
{
    if c[k] >= b.len() || inside(g, c[k]) {
        assert forall|p: usize, t: usize| inside(g, p) && #[trigger] succ(g, g.instrs@[p], p as int).contains(t) && t < b.len() implies inside(g, t) || todo(a, c, k + 1, t) by {
            if !inside(g, t) { todo_step(a, a, c, k, t); }
        }
        assert forall|x: usize| #[trigger] e.contains(x) && x < b.len() implies inside(g, x) || todo(a, c, k + 1, x) by {
            if !inside(g, x) { todo_step(a, a, c, k, x); }
        }
        assert(outside(b, c, k + 1) ==> outside(b, c, k));
    }
}
proof fn starting(e: Seq<usize>, b: Seq<u8>, g: IGraph, p0: Seq<usize>)
    requires tracing(e, b, g, p0, seq![], 0),
    ensures tracing(e, b, g, seq![], p0, 0), round(b, g, g.instrs@.dom(), seq![], p0, 0),
{
    assert forall|x: usize| todo(p0, seq![], 0, x) implies #[trigger] todo(seq![], p0, 0, x) by {
        let j = choose|j: int| 0 <= j < p0.len() && p0[j] == x;
        assert(p0[j] == x);
    }
    assert(closing(b, g, seq![], p0, 0)) by {
        assert forall|p: usize, t: usize| inside(g, p) && #[trigger] succ(g, g.instrs@[p], p as int).contains(t) && t < b.len() implies inside(g, t) || todo(seq![], p0, 0, t) by {
            assert(inside(g, t) || todo(p0, seq![], 0, t));
        }
    }
    assert(begun(e, b, g, seq![], p0, 0)) by {
        assert forall|x: usize| #[trigger] e.contains(x) && x < b.len() implies inside(g, x) || todo(seq![], p0, 0, x) by {
            assert(inside(g, x) || todo(p0, seq![], 0, x));
        }
    }
}
proof fn todo_none(a: Seq<usize>, c: Seq<usize>, x: usize)
    requires todo(a, c, c.len() as int, x),
    ensures todo(a, seq![], 0, x),
{
}
proof fn round_done(e: Seq<usize>, b: Seq<u8>, g: IGraph, d0: Set<usize>, p0: Seq<usize>, a: Seq<usize>, c: Seq<usize>)
    requires c == p0, p0.len() > 0, tracing(e, b, g, a, c, c.len() as int), round(b, g, d0, a, c, c.len() as int), b.len() <= 0x7ffe_0000,
    ensures tracing(e, b, g, a, seq![], 0), 0 <= left(b, g.instrs@.dom(), a) < left(b, d0, p0),
{
    let d = g.instrs@.dom();
    assert forall|p: usize, t: usize| inside(g, p) && #[trigger] succ(g, g.instrs@[p], p as int).contains(t) && t < b.len() implies inside(g, t) || todo(a, seq![], 0, t) by {
        if !inside(g, t) { todo_none(a, c, t); }
    }
    assert forall|x: usize| #[trigger] e.contains(x) && x < b.len() implies inside(g, x) || todo(a, seq![], 0, x) by {
        if !inside(g, x) { todo_none(a, c, x); }
    }
    assert forall|p: usize| d0.contains(p) implies d.contains(p) by { assert(inside(g, p)); }
    missing_less(d0, d, b.len());
    if !old_news(b, d0, c) {
        let j = choose|j: int| 0 <= j < c.len() && c[j] < b.len() && !d0.contains(c[j]);
        assert(inside(g, c[j]));
        assert(c[j] < b.len() && d.contains(c[j]) && !d0.contains(c[j]));
    }
}
proof fn record_step(g0: IGraph, g1: IGraph, g: IGraph, pos: usize, ts: Seq<usize>, j: int)
    requires 0 <= j < ts.len(), recorded(g0, g1, pos, ts, j), forall|t: usize, r: usize|
        #![trigger jf(g, t, r)] (g.jump_from@.dom().contains(t) && g.jump_from@[t]@.contains(r)) == ((g1.jump_from@.dom().contains(t) && g1.jump_from@[t]@.contains(r)) || (t == ts[j] && r == pos)),
    ensures recorded(g0, g, pos, ts, j + 1),
{
    assert forall|t: usize, r: usize| #[trigger] jf(g, t, r) <==> jf(g0, t, r) || (r == pos && exists|i: int| 0 <= i < j + 1 && #[trigger] ts[i] == t) by {
        assert(jf(g1, t, r) <==> jf(g0, t, r) || (r == pos && exists|i: int| 0 <= i < j && #[trigger] ts[i] == t));
        if r == pos && t == ts[j] { assert(ts[j] == t); }
    }
}
proof fn recorded_same(g0: IGraph, g1: IGraph, g: IGraph, pos: usize, ts: Seq<usize>, j: int)
    requires recorded(g0, g1, pos, ts, j), g1.jump_from@ == g.jump_from@,
    ensures recorded(g0, g, pos, ts, j),
{
    assert forall|t: usize, r: usize| #[trigger] jf(g, t, r) <==> jf(g0, t, r) || (r == pos && exists|i: int| 0 <= i < j && #[trigger] ts[i] == t) by {
        assert(jf(g1, t, r) == jf(g, t, r));
    }
}
proof fn push_step(g: IGraph, ts: Seq<usize>, j: int, a0: Seq<usize>, a: Seq<usize>)
    requires 0 <= j < ts.len(), pushed(g, ts, j, a0, a),
    ensures pushed(g, ts, j + 1, a0, a) || !inside(g, ts[j]), !inside(g, ts[j]) ==> pushed(g, ts, j + 1, a0, a.push(ts[j])),
{
    let a2 = a.push(ts[j]);
    if !inside(g, ts[j]) {
        assert(a2[a2.len() - 1] == ts[j]);
        assert forall|i: int| 0 <= i < j + 1 implies inside(g, #[trigger] ts[i]) || a2.contains(ts[i]) by {
            if i < j && !inside(g, ts[i]) { let m = choose|m: int| 0 <= m < a.len() && a[m] == ts[i]; assert(a2[m] == ts[i]); }
        }
    }
}
/// the instruction at pos has been looked at
proof fn one_more(e: Seq<usize>, b: Seq<u8>, g0: IGraph, g: IGraph, d0: Set<usize>, pos: usize, ts: Seq<usize>, a0: Seq<usize>, a: Seq<usize>, c: Seq<usize>, k: int)
    requires
        0 <= k < c.len(), pos == c[k], pos < b.len(), b.len() <= 0x7ffe_0000,
        tracing(e, b, g0, a0, c, k), round(b, g0, d0, a0, c, k),
        instr_at(b, pos) is Some, ts == succ(g0, instr_at(b, pos)->0, pos as int),
        recorded(g0, g, pos, ts, ts.len() as int), g.instrs@ == g0.instrs@.insert(pos, instr_at(b, pos)->0),
        pushed(g, ts, ts.len() as int, a0, a),
    ensures tracing(e, b, g, a, c, k + 1), round(b, g, d0, a, c, k + 1),
{
    let i = instr_at(b, pos)->0;
    assert(arrived(e, g0, pos));
    arrives(e, b, g0, pos);
    assert(sound(e, b, g));
    assert forall|t: usize, r: usize| #[trigger] jf(g, t, r) implies inside(g, r) && stepped(e, b, r, t) by {
        if !jf(g0, t, r) {
            assert(ts.contains(t));
            follows(e, b, g0, pos, t);
        }
    }
    assert forall|t: usize, r: usize| #[trigger] jf(g0, t, r) implies jf(g, t, r) by { }
    assert forall|x: usize| arrived(e, g0, x) implies #[trigger] arrived(e, g, x) by {
        if !e.contains(x) { let r = choose|r: usize| jf(g0, x, r); assert(jf(g, x, r)); }
    }
    assert forall|j: int| 0 <= j < a.len() implies arrived(e, g, #[trigger] a[j]) by {
        if j < a0.len() { assert(arrived(e, g0, a0[j])); }
        else {
            let m = choose|m: int| 0 <= m < ts.len() && ts[m] == a[j];
            assert(ts[m] == a[j]);
            assert(jf(g, a[j], pos));
        }
    }
    assert forall|j: int| 0 <= j < c.len() implies arrived(e, g, #[trigger] c[j]) by { assert(arrived(e, g0, c[j])); }
    assert forall|y: usize| a0.contains(y) implies a.contains(y) by {
        let m = choose|m: int| 0 <= m < a0.len() && a0[m] == y;
        assert(a[m] == y);
    }
    assert forall|p: usize, t: usize| inside(g, p) && #[trigger] succ(g, g.instrs@[p], p as int).contains(t) && t < b.len() implies inside(g, t) || todo(a, c, k + 1, t) by {
        if to_flash(g0, p as int) { assert(jf(g0, p, (p - 2) as usize)); assert(jf(g, p, (p - 2) as usize)); assert(inside(g0, (p - 2) as usize)); assert(to_flash(g, p as int)); }
        if p == pos {
            assert(succ(g0, i, pos as int).contains(t));
            let m = choose|m: int| 0 <= m < ts.len() && ts[m] == t;
            assert(inside(g, ts[m]) || a.contains(ts[m]));
        } else {
            assert(inside(g0, p) && g0.instrs@[p] == g.instrs@[p]);
            assert(succ(g0, g0.instrs@[p], p as int).contains(t));
            if !inside(g, t) { todo_step(a0, a, c, k, t); }
        }
    }
    assert forall|x: usize| #[trigger] e.contains(x) && x < b.len() implies inside(g, x) || todo(a, c, k + 1, x) by {
        if !inside(g, x) { todo_step(a0, a, c, k, x); }
    }
    assert(round(b, g, d0, a, c, k + 1)) by {
        if old_news(b, d0, c) {
            assert(d0.contains(c[k]));
            assert(inside(g0, pos));
            assert(sound(e, b, g0));
            assert(g0.instrs@[pos] == i);
            assert forall|p: usize| #[trigger] inside(g, p) implies d0.contains(p) by { assert(inside(g0, p)); }
            assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] >= b.len() by {
                if j >= a0.len() && a[j] < b.len() {
                    assert(succ(g0, g0.instrs@[pos], pos as int).contains(a[j]));
                    assert(!inside(g0, a[j]));
                    assert(todo(a0, c, k, a[j]));
                    if a0.contains(a[j]) { let m = choose|m: int| 0 <= m < a0.len() && a0[m] == a[j]; assert(a0[m] >= b.len()); }
                    else { let m = choose|m: int| k <= m < c.len() && c[m] == a[j]; assert(d0.contains(c[m])); assert(inside(g0, c[m])); }
                }
            }
        }
        assert(!outside(b, c, k + 1)) by { assert(c[k] < b.len()); }
        assert forall|p: usize| d0.contains(p) implies #[trigger] inside(g, p) by { assert(inside(g0, p)); }
        assert forall|j: int| 0 <= j < k + 1 && #[trigger] c[j] < b.len() implies inside(g, c[j]) by { if j < k { assert(inside(g0, c[j])); } }
    }
}
proof fn finished(e: Seq<usize>, b: Seq<u8>, g: IGraph)
    requires tracing(e, b, g, seq![], seq![], 0),
    ensures exact(e, b, g),
{
    assert forall|x: usize| #[trigger] e.contains(x) && x < b.len() implies inside(g, x) by { }
    assert forall|p: usize, t: usize| inside(g, p) && #[trigger] leads(b, p, t) && t < b.len() && !(far(b, p) && p >= 2 && inside(g, (p - 2) as usize) && is_flash(b, (p - 2) as usize)) implies inside(g, t) by {
        assert(instr_at(b, p) == Some(g.instrs@[p]));
        if far(b, p) && to_flash(g, p as int) { assert(jf(g, p, (p - 2) as usize)); assert(instr_at(b, (p - 2) as usize) == Some(g.instrs@[(p - 2) as usize])); }
        assert(succ(g, g.instrs@[p], p as int).contains(t));
    }
}
proof fn missing_less(d: Set<usize>, d2: Set<usize>, n: nat)
    requires forall|p: usize| d.contains(p) ==> d2.contains(p), n <= 0x7fff_ffff,
    ensures missing(d2, n) <= missing(d, n), (exists|p: usize| p < n && d2.contains(p) && !d.contains(p)) ==> missing(d2, n) < missing(d, n),
    decreases n,
{
    if n > 0 { missing_less(d, d2, (n - 1) as nat); }
}
"""


def types(u, srcs):
    u.raw("global size_of usize == 8;", "assumed")
    u.assumed.append("usize has 64 bits")
    u.raw(core.HASHMAP, "assumed")
    u.assumed.append("std HashMap (new, get, contains_key, insert, index) behaves as a finite map")
    isac.add_types(u, srcs)
    u.raw("mod instruction { pub use super::*; }")
    graph_types(u, srcs)


def build_targets(srcs, gen):
    u = Unit("disasm_targets")
    types(u, srcs)
    u.raw(core.FIT)
    u.lemmas(core.FIT_LEMMAS)
    u.lemmas(SAME)
    u.lemmas(JUMPS)
    isac.c_size(u, gen, "assume")
    c_graph_get(u, srcs)
    c_targets(u, srcs)
    return u


GETMUT = """
impl<K: KeyView, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get_mut<Q: KeyView<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures
            r is Some == old(self)@.dom().contains(k.kv()),
            r is Some ==> *r->0 == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(r->0)),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }
}
/// `x.iter().map(|x| *x).collect()`
#[verifier::external_body]
fn vx_copy(x: &[usize]) -> (r: Vec<usize>)
    ensures r@ == x@,
{ unimplemented!() }
/// the message on standard error
fn vx_note() { }
"""


def c_graph_put(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    G = "impl<Ex,IM>InstructionGraph<Ex,IM>"
    H = "impl<Ex, IM> InstructionGraph<Ex, IM>"
    u.fn(Fn(d.find(G, "fn new").text), "src/disasm.rs: InstructionGraph::new", impl=H, mode=mode,
         ens=["r.instrs@ == Map::<usize, Instr<i32, u8>>::empty()", "r.jump_from@ == Map::<usize, HashSet<usize>>::empty()"])
    u.fn(Fn(d.find(G, "fn instr").text), "src/disasm.rs: InstructionGraph::instr", impl=H, mode=mode,
         ens=["final(self).instrs@ == old(self).instrs@.insert(pos, instr)", "final(self).jump_from@ == old(self).jump_from@"])
    jf = "(%s.jump_from@.dom().contains(%s) && %s.jump_from@[%s]@.contains(%s))"
    n, o = [jf % (g, "t", g, "t", "r") for g in ("final(self)", "old(self)")]
    u.fn(Fn(d.find(G, "fn jump_to").text), "src/disasm.rs: InstructionGraph::jump_to", impl=H, mode=mode,
         ens=["final(self).instrs@ == old(self).instrs@",
              "forall|t: usize, r: usize| #![trigger final(self).jump_from@[t]@.contains(r)] #![trigger old(self).jump_from@[t]@.contains(r)] "
              "%s == (%s || (t == to && r == from))" % (n, o)])


def c_trace(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    f = Fn(uncontinue(d.find("fn build_instruction_graph").text) if mode == "verify" else d.find("fn build_instruction_graph").text)
    E, B = "entry_points@", "bytes@"
    if mode == "verify":
        f.replace("entry_points.iter().map(|x| *x).collect()", "vx_copy(entry_points)")
        f.replace('eprintln!("Invalid instruction position found: {}", pos)', "vx_note()")
        f.loop(0, None, """            invariant
                bytes@.len() <= 0x7ffe_0000,
                tracing({e}, {b}, graph, positions@, seq![], 0),
            decreases left({b}, graph.instrs@.dom(), positions@),
""".format(e=E, b=B), start="let ghost p0 = positions@;\nlet ghost d0 = graph.instrs@.dom();",
               end="proof { round_done(%s, %s, graph, d0, p0, positions@, locs@); }" % (E, B), after="proof { assert(positions@ =~= seq![]); finished(%s, %s, graph); }" % (E, B))
        f.loop(1, "it", """                invariant
                    bytes@.len() <= 0x7ffe_0000, it.seq().len() == locs@.len(),
                    tracing({e}, {b}, graph, positions@, locs@, it.index() as int),
                    round({b}, graph, d0, positions@, locs@, it.index() as int),
""".format(e=E, b=B), start="let ghost g0 = graph;\nlet ghost k = it.index() as int;\nlet ghost q0 = positions@;\nproof { assert(locs@[k] == *pos); skipping(%s, %s, g0, d0, q0, locs@, k); if *pos < bytes@.len() { looking(%s, %s, g0, *pos); } }" % (E, B, E, B))
        f.at("locs.append(&mut positions);", "proof { assert(locs@ =~= p0); assert(positions@ =~= seq![]); starting(%s, %s, graph, p0); }" % (E, B), "after")
        f.loop(2, "ij", """                        invariant
                            ij.seq().len() == targets@.len(), graph.instrs@ == g0.instrs@,
                            recorded(g0, graph, *pos, targets@, ij.index() as int),
""", start="let ghost g1 = graph;", end="proof { assert(targets@[ij.index() as int] == *target); record_step(g0, g1, graph, *pos, targets@, ij.index() as int); }", after="let ghost gj = graph;")
        f.loop(3, "ik", """                        invariant
                            ik.seq().len() == targets@.len(),
                            pushed(graph, targets@, ik.index() as int, q0, positions@),
""", start="let ghost a1 = positions@;\nproof { push_step(graph, targets@, ik.index() as int, q0, a1); assert(targets@[ik.index() as int] == *target); }", after="proof { recorded_same(g0, gj, graph, *pos, targets@, targets@.len() as int); one_more(%s, %s, g0, graph, d0, *pos, targets@, q0, positions@, locs@, k); }" % (E, B))
    u.fn(f, "src/disasm.rs: build_instruction_graph", mode=mode,
         req=["bytes@.len() <= 0x7ffe_0000"],
         ens=["match r { Ok(g) => exact(%s, %s, g), Err(x) => match x { DisasmError::NoInstruction(p, v) => "
              "p < bytes@.len() && v == bytes@[p as int] && reached(%s, %s, p) && instr_at(%s, p) is None, _ => false } }" % (E, B, E, B, B)],
         attrs=["verifier::rlimit(60)"])


def build_trace(srcs, gen):
    u = Unit("disasm_trace")
    types(u, srcs)
    u.raw(GETMUT, "assumed")
    u.raw(isac.opform_text())
    u.raw(REACH)
    u.lemmas(isac.basic_lemmas())
    u.lemmas(isac.inj_lemmas())
    u.lemmas(REACH_LEMMAS)
    isac.c_size(u, gen, "assume")
    isac.c_decode(u, srcs["src/instruction.rs"], "assume")
    c_graph_get(u, srcs, "assume")
    c_targets(u, srcs, "assume")
    c_graph_put(u, srcs)
    c_trace(u, srcs)
    return u


MASK = """
/// position i is part of an instruction at a position below k
spec fn covered<Ex, IM>(m: Map<usize, Instr<Ex, IM>>, k: int, i: int) -> bool {
    exists|p: usize| #[trigger] m.dom().contains(p) && p < k && p <= i < p + ilen(m[p])
}
spec fn fitting<Ex, IM>(m: Map<usize, Instr<Ex, IM>>, n: int) -> bool {
    forall|p: usize| #[trigger] m.dom().contains(p) ==> p + ilen(m[p]) <= n
}
spec fn marked<Ex, IM>(m: Map<usize, Instr<Ex, IM>>, k: int, extra: int, s: Seq<bool>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (covered(m, k, i) || k <= i < k + extra)
}
proof fn mark_step<Ex, IM>(m: Map<usize, Instr<Ex, IM>>, k: int, s: Seq<bool>)
    requires 0 <= k < 0x7fff_ffff, marked(m, k, if m.dom().contains(k as usize) { ilen(m[k as usize]) as int } else { 0 }, s),
    ensures marked(m, k + 1, 0, s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == (covered(m, k + 1, i) || k + 1 <= i < k + 1) by {
        if covered(m, k, i) {
            let p = choose|p: usize| #[trigger] m.dom().contains(p) && p < k && p <= i < p + ilen(m[p]);
            assert(m.dom().contains(p) && p < k + 1 && p <= i < p + ilen(m[p]));
        }
        if m.dom().contains(k as usize) && k <= i < k + ilen(m[k as usize]) { assert(covered(m, k + 1, i)); }
        if covered(m, k + 1, i) && !covered(m, k, i) {
            let p = choose|p: usize| #[trigger] m.dom().contains(p) && p < k + 1 && p <= i < p + ilen(m[p]);
            assert(p == k as usize);
        }
    }
}
"""


def c_mask(u, srcs, mode="verify"):
    f = Fn(srcs["src/disasm.rs"].find("fn build_byte_mask").text)
    M = "graph.instrs@"
    if mode == "verify":
        f.loop(0, "it", "            invariant\n                it.seq() =~= Seq::new(bytes@.len(), |i: int| i as usize), ".replace("it.seq() =~= Seq::new(bytes@.len(), |i: int| i as usize), ", "")
               + "seen@.len() == bytes@.len(), bytes@.len() <= 0x7ffe_0000, fitting(%s, bytes@.len() as int), marked(%s, pos as int, 0, seen@),\n" % (M, M),
               end="proof { mark_step(%s, pos as int, seen@); }" % M)
        f.loop(1, "ij", "                    invariant\n                        seen@.len() == bytes@.len(), bytes@.len() <= 0x7ffe_0000, pos < bytes@.len(), %s.dom().contains(pos), *instr == %s[pos], fitting(%s, bytes@.len() as int), "
               "marked(%s, pos as int, idx as int, seen@),\n" % (M, M, M, M))
    u.fn(f, "src/disasm.rs: build_byte_mask", mode=mode,
         req=["bytes@.len() <= 0x7ffe_0000", "fitting(%s, bytes@.len() as int)" % M],
         ens=["r@.len() == bytes@.len()", "forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == covered(%s, bytes@.len() as int, i)" % M])


def build_mask(srcs, gen):
    u = Unit("disasm_mask")
    types(u, srcs)
    u.raw(MASK.split("proof fn")[0])
    u.lemmas("proof fn" + MASK.split("proof fn", 1)[1])
    isac.c_size(u, gen, "assume")
    c_graph_get(u, srcs, "assume")
    c_mask(u, srcs)
    return u


def aim_spec():
    o = ["/// the address that a branch, jump or call leads to, before it is made a position",
         "spec fn aim(i: Instr<i32, u8>, next: int) -> int { match i {"]
    for n, (kinds, _) in isa.FORMS.items():
        t = [(x, k) for x, k in enumerate(kinds) if k in core.TARGET]
        if t:
            x, k = t[0]
            e = {"a12": "next %% 65536 / 4096 * 4096 + o%d", "a16": "o%d as int", "r8": "next + o%d", "r16": "next - 1 + o%d"}[k] % x
            o.append("    %s => %s," % (isac.arm(n, (x,)), e))
    o.append("    _ => 0,\n} }")
    return "\n".join(o)


LIFT = """
/// every name of the listing has the value it is defined with
spec fn means(t: HashMap<usize, String>, m: spec_fn(Seq<char>) -> Option<i32>) -> bool {
    forall|k: usize| #[trigger] t@.dom().contains(k) ==> m(lower(t@[k]@)) == Some(k as i32)
}
spec fn agrees(n: Names, m: spec_fn(Seq<char>) -> Option<i32>) -> bool {
    means(n.labels, m) && means(n.aliases, m) && means(n.psw_bits, m)
}
/// C11: the operands of the listing stand for the values that were decoded
spec fn restored(l: Instr<Expr, IndirectionMode>, m: spec_fn(Seq<char>) -> Option<i32>, next: int, i: Instr<i32, u8>) -> bool {
    ok_values(l, m, next, i) && ok_targets(l, m, next, i)
}
/// every branch target lies within 0 to 65535
spec fn aims_well(i: Instr<i32, u8>, next: int) -> bool { 0 <= aim(i, next) <= 65535 }
"""

# macro: panic with a message is not reached
PANIC = """
macro_rules! panic { ($($t:tt)*) => { vx_panic() } }
#[verifier::external_body]
fn vx_panic() -> !
    requires false,
{ unimplemented!() }
"""


def lift_types(u, srcs):
    u.raw("global size_of usize == 8;", "assumed")
    u.assumed.append("usize has 64 bits")
    u.raw(core.HASHMAP, "assumed")
    u.assumed.append("std HashMap (new, get, contains_key, insert, index) behaves as a finite map")
    core.ev_types(u, srcs)
    isac.add_types(u, srcs)
    graph_types(u, srcs)
    core.items(u, srcs["src/disasm.rs"], "struct Names")
    core.items(u, srcs["src/instruction.rs"], "enum EncodingError")
    u.raw(core.FIT)
    u.raw(core.operand_specs())
    u.raw(aim_spec())
    u.raw(LIFT)


def c_names_get(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    for n, fld in (("alias", "aliases"), ("psw_bit", "psw_bits"), ("label", "labels")):
        f = Fn(d.find("impl Names", "fn " + n).text)
        if mode == "verify":
            annotate(f, "&String", "&str", "vx_r@ == {x}@")
        u.fn(f, "src/disasm.rs: Names::" + n, impl="impl Names", mode=mode,
             ens=["r is Some == self.%s@.dom().contains(pos)" % fld, "r is Some ==> r->0@ == self.%s@[pos]@" % fld])


def annotate(f, ty, ret, ens, req=None):
    """Contracts for closures of one argument."""
    for k, (a, b, _, _) in enumerate(f.closures):
        ps = [t.s for t in f.toks[a + 1:b]]
        if len(ps) != 1:
            raise Lost("%s: closure" % f.name)
        f.closure(k, "|%s: %s| -> (vx_r: %s) %s ensures %s" % (ps[0], ty, ret, "requires %s" % req.format(x=ps[0]) if req else "", ens.format(x=ps[0])))


def c_lift(u, srcs, mode="verify"):
    d, e = srcs["src/disasm.rs"], srcs["src/expression.rs"]
    SD = "impl Expr"
    u.raw("impl Span {\n    #[verifier::external_body]\n    pub fn default() -> Span { unimplemented!() }\n}", "assumed")
    for n, ens in (("num", "r matches Expr::Number(_, v, _) && v == num"), ("name", "r matches Expr::Name(_, v) && v@ == name@")):
        u.fn(Fn(e.find(SD, "fn " + n).text), "src/expression.rs: Expr::" + n, impl=SD, ens=[ens], mode=mode)
    u.raw(PANIC, "spec")
    u.rewrites.append("panic!(..) is a call of a function that must not be reached")
    u.fn(Fn(e.find("impl IndirectionMode", "fn from").text), "src/expression.rs: IndirectionMode::from", impl="impl IndirectionMode",
         req=["num <= 3"], ens=["mode_of(r) == num"], mode=mode)
    c_names_get(u, srcs, mode)
    for n, ps, req, val in (("label_expr", "", ["addr <= 0x7fff_ffff"], "addr as int"), ("mem_expr", "", ["addr >= 0"], "addr as int"),
                            ("bits_expr", "", ["addr >= 0"], "addr as int")):
        f = Fn(d.find("fn " + n).text)
        if mode == "verify":
            annotate(f, "&str", "Expr", "vx_r matches Expr::Name(_, v) && v@ == {x}@")
        u.fn(f, "src/disasm.rs: " + n, mode=mode, req=req,
             ens=["forall|m: spec_fn(Seq<char>) -> Option<i32>| #[trigger] agrees(*names, m) ==> ev(r, m) == Some(%s)" % val])
    f = Fn(d.find("fn lift_instr").text)
    if mode == "verify":
        f.body_start("broadcast use jump_facts;")
    u.fn(f, "src/disasm.rs: lift_instr", mode=mode, req=["wf(*instr)", "pos <= 0x7ffe_0000", "aims_well(*instr, pos + ilen(*instr))"],
         ens=["forall|m: spec_fn(Seq<char>) -> Option<i32>| #[trigger] agrees(*names, m) ==> restored(r, m, pos + ilen(*instr), *instr)"],
         attrs=["verifier::rlimit(200)", "verifier::spinoff_prover"])


def build_lift(srcs, gen):
    u = Unit("disasm_lift")
    lift_types(u, srcs)
    u.lemmas(JUMPS)
    isac.c_size(u, gen, "assume")
    c_graph_get(u, srcs, "assume")
    d = srcs["src/disasm.rs"]
    for n, back in (("rel8", 0), ("rel16", 1)):
        u.fn(Fn(d.find("fn " + n).text), "src/disasm.rs: " + n, mode="assume", req=["next <= 0x7fff_0000", "-32768 <= rel <= 32767"],
             ens=["r == addr(next - %d + rel)" % back])
    c_lift(u, srcs)
    return u


LABELS = """
/// what `format!("label_{:04X}", pos)` gives
uninterp spec fn label_text(pos: usize) -> Seq<char>;
spec fn labelled(n: Names) -> bool { forall|k: usize| #[trigger] n.labels@.dom().contains(k) ==> n.labels@[k]@ == label_text(k) }
spec fn within(n: Names, g: IGraph) -> bool { forall|k: usize| #[trigger] n.labels@.dom().contains(k) ==> g.instrs@.dom().contains(k) }
spec fn in_order(g: IGraph) -> bool { forall|p: usize| #[trigger] g.instrs@.dom().contains(p) ==> wf(g.instrs@[p]) && p <= 0x7ffe_0000 }
"""


def c_labels(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    H = "impl Names"
    u.fn(Fn(d.find(H, "fn contains_label").text), "src/disasm.rs: Names::contains_label", impl=H, mode=mode,
         ens=["r == self.labels@.dom().contains(pos)"])
    u.raw("#[verifier::external_body]\nfn vx_label_text(pos: usize) -> (r: String)\n    ensures r@ == label_text(pos),\n{ unimplemented!() }", "assumed")
    u.assumed.append("format!(\"label_{:04X}\", pos) is a function of pos")
    f = Fn(d.find(H, "fn gen_label").text)
    if mode == "verify":
        f.replace('format!("label_{:04X}", pos)', "vx_label_text(pos)", 1)
    u.fn(f, "src/disasm.rs: Names::gen_label", impl=H, mode=mode,
         ens=["labelled(*old(self)) ==> labelled(*final(self))", "final(self).aliases == old(self).aliases", "final(self).psw_bits == old(self).psw_bits",
              "forall|k: usize| #[trigger] final(self).labels@.dom().contains(k) <==> old(self).labels@.dom().contains(k) || k == pos"])
    u.fn(Fn(d.find(H, "fn retain_labels").text), "src/disasm.rs: Names::retain_labels", impl=H, mode="assume",
         req=["forall|k: usize| call_requires(keep, (k,))"],
         ens=["final(self).aliases == old(self).aliases", "final(self).psw_bits == old(self).psw_bits",
              "forall|k: usize| #[trigger] final(self).labels@.dom().contains(k) ==> old(self).labels@.dom().contains(k) && final(self).labels@[k] == old(self).labels@[k] && call_ensures(keep, (k,), true)",
              "forall|k: usize| #[trigger] old(self).labels@.dom().contains(k) && !final(self).labels@.dom().contains(k) ==> call_ensures(keep, (k,), false)"])
    u.assumed.append("HashMap::retain keeps the entries for which the closure is true (Names::retain_labels)")
    f = Fn(d.find("fn compute_labels").text)
    if mode == "verify":
        asmc.index_by_key(u, f, exprs=["graph.instrs()"])
        f.body_start("broadcast use jump_facts;")
        f.loop(0, "it", "            invariant in_order(*graph), labelled(*names), names.aliases == old(names).aliases, names.psw_bits == old(names).psw_bits, "
               "it.seq().len() == vx_keys0@.len(), forall|i: int| 0 <= i < vx_keys0@.len() ==> graph.instrs@.dom().contains((#[trigger] vx_keys0@[i]).kv()),\n",
               start="broadcast use jump_facts;\nproof { assert(vx_keys0@[it.index() as int].kv() == *pos); }")
        annotate(f, "usize", "bool", "vx_r == graph.instrs@.dom().contains({x})")
    u.fn(f, "src/disasm.rs: compute_labels", mode=mode, req=["in_order(*graph)", "labelled(*old(names))"],
         ens=["labelled(*final(names))", "within(*final(names), *graph)", "final(names).aliases == old(names).aliases", "final(names).psw_bits == old(names).psw_bits"],
         attrs=["verifier::rlimit(100)"])


def c_chunks(u, srcs, mode="verify"):
    d = srcs["src/disasm.rs"]
    f = Fn(d.find("fn all_zeros").text)
    if mode == "verify":
        f.loop(0, "it", "            invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < it.index() ==> #[trigger] bytes@[i] == 0,\n",
               start="proof { assert(bytes@[it.index() as int] == *byte); }")
    u.fn(f, "src/disasm.rs: all_zeros", mode=mode, ens=["r == (forall|i: int| 0 <= i < bytes@.len() ==> #[trigger] bytes@[i] == 0)"])
    f = Fn(d.find("fn read_chunk").text)
    if mode == "verify":
        f.loop(0, None, "            invariant end <= bytes@.len(), end <= size,\n            ensures end == bytes@.len() || end == size, end <= bytes@.len(), end <= size,\n            decreases bytes@.len() - end,\n")
    u.fn(f, "src/disasm.rs: read_chunk", mode=mode,
         ens=["r@ == bytes@.subrange(0, if bytes@.len() < size { bytes@.len() as int } else { size as int })"])
    f = Fn(d.find("fn byte_range").text)
    if mode == "verify":
        f.loop(0, None, "            invariant pos <= end <= bytes@.len(), mask@.len() == bytes@.len(), forall|i: int| pos <= i < end ==> !#[trigger] mask@[i],\n"
               "            ensures end == bytes@.len() || mask@[end as int], pos <= end <= bytes@.len(), forall|i: int| pos <= i < end ==> !#[trigger] mask@[i],\n            decreases bytes@.len() - end,\n")
        f.body_start("proof { assert(forall|i: int| pos <= i < pos ==> !#[trigger] mask@[i]); }")
    u.fn(f, "src/disasm.rs: byte_range", mode=mode, req=["pos <= bytes@.len()", "mask@.len() == bytes@.len()"],
         ens=["r@ == bytes@.subrange(pos as int, pos + r@.len())", "pos + r@.len() <= bytes@.len()", "forall|i: int| pos <= i < pos + r@.len() ==> !#[trigger] mask@[i]",
              "pos + r@.len() == bytes@.len() || mask@[pos + r@.len()]"])


def build_names(srcs, gen):
    u = Unit("disasm_names")
    lift_types(u, srcs)
    u.raw(asmc.KEYS, "assumed")
    u.raw(LABELS)
    u.lemmas(JUMPS)
    isac.c_size(u, gen, "assume")
    c_graph_get(u, srcs, "assume")
    d = srcs["src/disasm.rs"]
    for n, back in (("rel8", 0), ("rel16", 1)):
        u.fn(Fn(d.find("fn " + n).text), "src/disasm.rs: " + n, mode="assume", req=["next <= 0x7fff_0000", "-32768 <= rel <= 32767"],
             ens=["r == addr(next - %d + rel)" % back])
    c_labels(u, srcs)
    c_chunks(u, srcs)
    return u
