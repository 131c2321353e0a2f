//! C07: data directives with boundary operands, against the reference assembler.
use crate::vh_core::*;
use crate::vh_model::*;

pub fn run(r: &mut Report) {
    r.rule = ".byte, .word, .text, .string, .org and .cnop over boundary operands at several positions, then random directives; \
              non-trivial when it assembles"
        .into();
    let mut rng = Rng::new(r.seed);
    let mut vals: Vec<i64> = edges().iter().map(|x| *x as i64).filter(|x| *x > i32::MIN as i64).collect();
    vals.extend(-300..=300);
    for v in vals.iter() {
        let mut g = Gen::new(&mut rng);
        let e = g.with_value(*v);
        compare(r, ".byte", &[St::Byte(vec![Bv::Val(E::Num(7)), Bv::Val(e.clone()), Bv::Val(num(*v))])]);
        compare(r, ".word", &[St::Word(vec![e.clone(), num(*v)])]);
        compare(r, ".word", &[St::Byte(vec![Bv::Val(E::Num(1))]), St::Word(vec![E::Num(258), e]), St::Byte(vec![Bv::Val(E::Num(2))])]);
    }
    for n in 0..12usize {
        for k in 0..12usize {
            let b: Vec<u8> = (0..k).map(|i| b'A' + (i as u8)).collect();
            for pre in [0usize, 3] {
                let mut p = vec![];
                if pre > 0 {
                    p.push(St::Byte(vec![Bv::Str(vec![b'z'; pre])]));
                }
                for t in [St::Text(n, b.clone()), St::Str(n, b.clone())] {
                    let mut q = p.clone();
                    q.push(t);
                    q.push(St::Byte(vec![Bv::Val(E::Num(255))]));
                    compare(r, "padding", &q);
                }
            }
        }
    }
    for o in [0usize, 1, 255, 256, 4095, 4096, 65534, 65535, 65536, 65537, 70000, 131072] {
        compare(r, ".org", &[St::Org(o), St::Byte(vec![Bv::Val(E::Num(1))])]);
        compare(r, ".org", &[St::Byte(vec![Bv::Str(b"abc".to_vec())]), St::Org(o), St::Label("x".into()), St::Word(vec![E::Name("x".into())])]);
    }
    for pos in [0usize, 1, 2, 3, 7, 8, 9, 255, 256, 257, 65535] {
        for m in [0i64, 1, 2, 3, 4, 7, 8, 16, 100, 256, 1000] {
            for a in [0i64, 1, 3, 8, 300] {
                if !r.more() {
                    return;
                }
                compare(
                    r,
                    ".cnop",
                    &[St::Org(pos), St::Cnop(E::Num(a), E::Num(m)), St::Label("x".into()), St::Word(vec![E::Name("x".into())])],
                );
            }
        }
    }
    for (a, m) in [(2147483647i64, 1i64), (1, 2147483647), (2147483647, 2147483647), (0, 2147483647)] {
        // too far to be laid out: an error or nothing is read from the output
        let p = [St::Byte(vec![Bv::Val(E::Num(1))]), St::Cnop(E::Num(a), E::Num(m)), St::Label("x".into()), St::Org(2)];
        if layout(&p).is_err() {
            compare(r, ".cnop", &p);
        }
    }
    compare(r, ".cnop", &[St::Cnop(E::Name("x".into()), E::Num(4)), St::Def("x".into(), E::Num(1), false)]);
    compare(r, ".cnop", &[St::Cnop(E::Num(1), E::Bin('+', Box::new(E::Num(1)), Box::new(E::Num(2))))]);
    while r.more() {
        let mut g = Gen::new(&mut rng);
        let mut p = vec![];
        for _ in 0..1 + g.g.below(5) {
            let k = g.g.below(6);
            p.push(match k {
                0 => St::Byte(
                    (0..1 + g.g.below(4))
                        .map(|_| match g.g.below(4) {
                            0 => Bv::Str((0..g.g.below(9)).map(|_| b' ' + g.g.below(2) as u8).collect()),
                            1 => Bv::Val(g.expr(2)),
                            _ => {
                                let v = g.g.range(-130, 258);
                                Bv::Val(g.with_value(v))
                            }
                        })
                        .collect(),
                ),
                1 => St::Word(
                    (0..1 + g.g.below(4))
                        .map(|_| {
                            if g.g.chance(1, 4) {
                                return g.expr(2);
                            }
                            let v = g.g.range(-32800, 65560);
                            g.with_value(v)
                        })
                        .collect(),
                ),
                2 | 3 => {
                    let b: Vec<u8> = (0..g.g.below(40)).map(|_| b'!' + 2 + g.g.below(50) as u8).filter(|c| *c != b'\\' && *c != b'"').collect();
                    let n = (b.len() as i64 + g.g.range(-1, 60)).max(0) as usize;
                    if k == 2 {
                        St::Text(n, b)
                    } else {
                        St::Str(n, b)
                    }
                }
                4 => St::Org(g.g.below(600)),
                _ => St::Cnop(g.small(300), g.small(300)),
            });
        }
        compare(r, "directive", &p);
    }
}
