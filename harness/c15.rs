//! C15: number and string literals, assembled, against their written value.
use crate::vh_core::*;

/// A literal and its bytes; `None`: to be rejected.
type Lit = (String, Option<Vec<u8>>);

fn number(text: &str, digits: &str, base: i128) -> Lit {
    let mut v: i128 = 0;
    for c in digits.chars() {
        if c == '\'' {
            continue;
        }
        v = (v * base + c.to_digit(base as u32).unwrap() as i128).min(1 << 100);
    }
    let bytes = if v > 0x7fff_ffff {
        None
    } else {
        let (h, l) = ((v >> 16) as u16, (v & 0xffff) as u16);
        Some(vec![l as u8, (l >> 8) as u8, h as u8, (h >> 8) as u8])
    };
    // the number in the low and the high half
    (format!(".word {} & 65535, {} / 65536", text, text), bytes)
}

/// A string from its contents, written as characters which may be escaped.
fn string(parts: &[(bool, char)]) -> Lit {
    let mut t = String::new();
    let mut v = String::new();
    for (esc, c) in parts {
        if *esc {
            t.push('\\');
            t.push(*c);
            v.push(match c {
                'r' => '\r',
                'n' => '\n',
                't' => '\t',
                'b' => '\u{8}',
                '0' => '\0',
                c => *c,
            });
        } else {
            t.push(*c);
            v.push(*c);
        }
    }
    // what follows a line break is another statement
    let end = !parts.contains(&(false, '\n'));
    let bytes = [&[1u8][..], v.as_bytes(), if end { &[2u8][..] } else { &[] }].concat();
    (format!(".byte 1, \"{}\"{}", t, if end { ", 2" } else { "" }), Some(bytes))
}

fn one(r: &mut Report, l: &Lit) {
    let o = assemble_text(&r.dir.clone(), &format!("{}\n", l.0));
    let ok = match (&o, &l.1) {
        (Ok(b), Some(w)) => b == w,
        (Err(e), None) => !e.starts_with("panic"),
        _ => false,
    };
    if !ok {
        let want = match &l.1 {
            Some(b) => hex(b),
            None => "rejected: above 2147483647".to_string(),
        };
        r.fail("literal", l.0.clone(), want, show(&o));
    }
}

fn all(r: &mut Report, what: &str, lits: &[Lit]) {
    for l in lits.iter().filter(|l| l.1.is_none()) {
        if r.stop() {
            return;
        }
        r.case(&l.0, false);
        one(r, l);
    }
    let good: Vec<&Lit> = lits.iter().filter(|l| l.1.is_some()).collect();
    for ch in good.chunks(400) {
        if r.stop() {
            return;
        }
        let text: String = ch.iter().map(|l| l.0.clone() + "\n").collect();
        let want: Vec<u8> = ch.iter().flat_map(|l| l.1.clone().unwrap()).collect();
        for l in ch {
            r.case(&l.0, true);
        }
        r.sample(format!("{}: {}", what, ch[ch.len() - 1].0));
        if let Ok(b) = assemble_text(&r.dir.clone(), &text) {
            if b == want {
                continue;
            }
        }
        let before = r.stop();
        for l in ch {
            one(r, l);
            if r.stop() {
                return;
            }
        }
        if !before && !r.stop() {
            r.fail("literals", text, hex(&want), "other bytes for these literals together".into());
        }
    }
}

const BASES: [(&str, i128, &str); 8] = [
    ("", 10, "0123456789"),
    ("$", 16, "0123456789abcdefABCDEF"),
    ("0x", 16, "0123456789abcdefABCDEF"),
    ("0X", 16, "0123456789abcdefABCDEF"),
    ("%", 2, "01"),
    ("0b", 2, "01"),
    ("0B", 2, "01"),
    ("0o", 8, "01234567"),
];

fn write(mut v: u64, base: u64, rng: &mut Rng) -> String {
    let mut d = vec![];
    loop {
        let c = std::char::from_digit((v % base) as u32, base as u32).unwrap();
        d.push(if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c });
        v /= base;
        if v == 0 {
            break;
        }
    }
    if rng.chance(1, 3) {
        for _ in 0..rng.below(6) {
            d.push('0');
        }
    }
    d.iter().rev().collect()
}

fn separated(d: &str, rng: &mut Rng, num: usize) -> String {
    let mut s = String::new();
    for (i, c) in d.chars().enumerate() {
        if i > 0 && rng.chance(num, 4) {
            s.push('\'');
        }
        s.push(c);
    }
    s
}

pub fn run(r: &mut Report) {
    r.rule = "all short digit strings, boundary and random values in every base with separators; every escaped character, short \
              and random strings; non-trivial when it assembles"
        .into();
    let mut rng = Rng::new(r.seed);
    for (p, b, ds) in BASES.iter() {
        let ds: Vec<char> = ds.chars().collect();
        let max = if *b == 2 { 9 } else if *b == 16 { 2 } else { 3 };
        let mut lits = vec![];
        let mut cur = vec![String::new()];
        for _ in 0..max {
            let mut next = vec![];
            for s in cur.iter() {
                for d in ds.iter() {
                    next.push(format!("{}{}", s, d));
                    if !s.is_empty() {
                        next.push(format!("{}'{}", s, d));
                    }
                }
            }
            lits.extend(next.iter().map(|s| number(&format!("{}{}", p, s), s, *b)));
            cur = next;
        }
        all(r, &format!("short {}", p), &lits);
        let mut lits = vec![];
        let mut vals: Vec<u64> = vec![];
        for k in 0..34 {
            for d in [-2i64, -1, 0, 1, 2] {
                vals.push(((1i64 << k) + d).max(0) as u64);
            }
        }
        for k in 0..10u32 {
            vals.push(10u64.pow(k));
            vals.push(10u64.pow(k) - 1);
        }
        vals.extend([2147483646, 2147483647, 2147483648, 2147483649, 4294967295, 4294967296, 9999999999, u64::MAX]);
        for v in vals {
            for k in [0usize, 1, 4] {
                let d = write(v, *b as u64, &mut rng);
                let d = separated(&d, &mut rng, k);
                lits.push(number(&format!("{}{}", p, d), &d, *b));
            }
        }
        // far beyond any machine word
        let d = format!("1{}", "0".repeat(300));
        lits.push(number(&format!("{}{}", p, d), &d, *b));
        let d = format!("{}1", "0".repeat(300));
        lits.push(number(&format!("{}{}", p, d), &d, *b));
        all(r, &format!("value {}", p), &lits);
    }
    let plain = |c: char| c != '"' && c != '\\';
    let mut chars: Vec<char> = (0u32..256).map(|c| char::from_u32(c).unwrap()).collect();
    chars.extend(['Ā', '߿', 'ࠀ', '€', '\u{feff}', '\u{ffff}', '𐀀', '😀', '\u{10ffff}', '\u{301}', '\u{2028}']);
    let mut lits = vec![string(&[])];
    for c in chars.iter() {
        if plain(*c) {
            lits.push(string(&[(false, *c)]));
            lits.push(string(&[(true, '\\'), (false, *c)]));
            lits.push(string(&[(false, 'a'), (false, *c), (false, 'b')]));
        }
        if *c != '\n' {
            lits.push(string(&[(true, *c)]));
            lits.push(string(&[(true, *c), (true, *c)]));
            lits.push(string(&[(false, 'x'), (true, *c), (false, 'n')]));
            lits.push(string(&[(true, *c), (true, '\\')]));
        }
    }
    all(r, "characters", &lits);
    let few = ['r', 'n', '0', 'a', '"', '\\', ';', '\'', 'é'];
    let mut units: Vec<(bool, char)> = few.iter().map(|c| (true, *c)).collect();
    units.extend(few.iter().filter(|c| plain(**c)).map(|c| (false, *c)));
    let mut lits = vec![];
    for a in units.iter() {
        for b in units.iter() {
            lits.push(string(&[*a, *b]));
            for c in units.iter() {
                lits.push(string(&[*a, *b, *c]));
            }
        }
    }
    all(r, "short strings", &lits);
    while r.more() {
        let mut lits = vec![];
        for _ in 0..400 {
            if rng.chance(1, 2) {
                let (p, b, _) = *rng.pick(&BASES);
                let sh = rng.below(34);
                let v = (rng.next() & 0xffff_ffff_ffff) >> (14 + sh.min(33));
                let d = write(v, b as u64, &mut rng);
                let k = rng.below(5);
                let d = separated(&d, &mut rng, k);
                lits.push(number(&format!("{}{}", p, d), &d, b));
            } else {
                let n = rng.below(40);
                let parts: Vec<(bool, char)> = (0..n)
                    .map(|_| {
                        let c = if rng.chance(1, 2) { *rng.pick(&few) } else { *rng.pick(&chars) };
                        (c != '\n' && (!plain(c) || rng.chance(1, 3)), c)
                    })
                    .collect();
                lits.push(string(&parts));
            }
        }
        all(r, "random", &lits);
    }
}
