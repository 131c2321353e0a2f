//! C06: the layout of whole programs, against the reference assembler.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::*;

/// one statement of kind k
fn statement(g: &mut Gen, k: usize, pos: i64) -> St {
    let bytes = |g: &mut Gen, hi: usize| {
        let n = g.g.below(hi);
        (0..n).map(|_| b'a' + g.g.below(26) as u8).collect::<Vec<u8>>()
    };
    match k {
        0 => St::Byte((0..1 + g.g.below(3)).map(|_| if g.g.chance(1, 3) { Bv::Str(bytes(g, 6)) } else { Bv::Val(g.small(255)) }).collect()),
        1 => St::Word((0..1 + g.g.below(3)).map(|_| g.small(65535)).collect()),
        2 => {
            let b = bytes(g, 5);
            St::Text(b.len() + g.g.below(4), b)
        }
        3 => {
            let b = bytes(g, 5);
            St::Str(b.len() + g.g.below(4), b)
        }
        4 => St::Org((pos + g.g.range(-9, 9)).max(0) as usize),
        5 => St::Cnop(g.small(5), g.small(20)),
        _ => {
            let f = g.g.below(FORMS.len());
            g.ins(f, pos, None)
        }
    }
}

fn with_labels(body: &[St]) -> Vec<St> {
    let mut p = vec![];
    for (i, s) in body.iter().enumerate() {
        p.push(St::Label(format!("l{}", i)));
        p.push(s.clone());
    }
    p.push(St::Label("last".into()));
    let mut w: Vec<E> = (0..body.len()).map(|i| E::Name(format!("l{}", i))).collect();
    w.push(E::Name("last".into()));
    p.push(St::Word(w));
    p
}

pub fn run(r: &mut Report) {
    r.rule = "all sequences of up to three statements over the seven kinds, then random programs of up to forty statements, \
              with a label before each statement and a .word of all labels at the end; non-trivial when it assembles"
        .into();
    let mut rng = Rng::new(r.seed);
    // the size of every instruction form, between labels
    for f in 0..FORMS.len() {
        let mut g = Gen::new(&mut rng);
        let p = with_labels(&[g.ins(f, 0, None), St::Byte(vec![Bv::Val(E::Num(1))]), g.ins(f, LEN[f] as i64 + 1, None)]);
        compare(r, "layout", &p);
    }
    for n in 1..4u32 {
        for c in 0..7usize.pow(n) {
            if !r.more() {
                return;
            }
            let mut g = Gen::new(&mut rng);
            let mut body: Vec<St> = vec![];
            let mut x = c;
            for _ in 0..n {
                let pos = layout(&body).map(|p| *p.last().unwrap()).unwrap_or(0);
                body.push(statement(&mut g, x % 7, pos));
                x /= 7;
            }
            compare(r, "layout", &with_labels(&body));
        }
    }
    // text, blank and other lines that emit nothing
    while r.more() {
        let mut g = Gen::new(&mut rng);
        let n = 1 + g.g.below(40);
        let mut body: Vec<St> = vec![];
        let base = *g.g.pick(&[0usize, 0, 0, 250, 4090, 65500]);
        body.push(St::Org(base));
        for _ in 0..n {
            let pos = layout(&body).map(|p| *p.last().unwrap()).unwrap_or(0);
            let k = g.g.below(9);
            if k == 4 && pos > 65000 {
                continue;
            }
            body.push(statement(&mut g, k, pos));
        }
        if g.g.chance(1, 4) {
            // a branch to a label, forwards or backwards
            let f = g.g.below(FORMS.len());
            let to = E::Name(format!("l{}", g.g.below(body.len())));
            let at = g.g.below(body.len() + 1);
            let i = g.ins(f, 0, Some(to));
            body.insert(at, i);
        }
        let pos = layout(&body).map(|p| *p.iter().max().unwrap()).unwrap_or(0);
        if pos < 1 << 20 {
            compare(r, "layout", &with_labels(&body));
        }
    }
}
