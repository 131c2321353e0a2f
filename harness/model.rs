//! A reference assembler written from the properties, for comparison with the real one.
//! It shares no code with the repository.
#![allow(dead_code)]
use crate::vh_core::*;
use crate::vh_isa::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum E {
    Num(i64),
    Name(String),
    Neg(Box<E>),
    Hi(Box<E>),
    Lo(Box<E>),
    Bin(char, Box<E>, Box<E>),
}

pub fn num(x: i64) -> E {
    if x < 0 {
        E::Neg(Box::new(E::Num(-x)))
    } else {
        E::Num(x)
    }
}

fn lit(x: i64) -> String {
    match x % 5 {
        0 => format!("${:x}", x),
        1 => format!("%{:b}", x),
        _ => format!("{}", x),
    }
}

pub fn text(e: &E) -> String {
    match e {
        E::Num(x) => lit(*x),
        E::Name(n) => n.clone(),
        E::Neg(x) => format!("-({})", text(x)),
        E::Hi(x) => format!(">({})", text(x)),
        E::Lo(x) => format!("<({})", text(x)),
        E::Bin(o, a, b) => format!("({} {} {})", text(a), o, text(b)),
    }
}

/// The exact value, or the reasons why there is none.
pub fn value(e: &E, env: &dyn Fn(&str) -> Option<i64>) -> Result<i64, Vec<&'static str>> {
    let fit = |x: i128| {
        if x < -(1 << 31) || x >= 1 << 31 {
            Err(vec!["ArithmeticOverflow"])
        } else {
            Ok(x as i64)
        }
    };
    match e {
        E::Num(x) => Ok(*x),
        E::Name(n) => env(&n.to_lowercase()).ok_or(vec!["NameNotFound"]),
        E::Neg(x) => fit(-(value(x, env)? as i128)),
        E::Hi(x) => Ok(value(x, env)?.rem_euclid(65536) / 256),
        E::Lo(x) => Ok(value(x, env)?.rem_euclid(256)),
        E::Bin(o, a, b) => match (value(a, env), value(b, env)) {
            (Ok(a), Ok(b)) => match o {
                '+' => fit(a as i128 + b as i128),
                '-' => fit(a as i128 - b as i128),
                '*' => fit(a as i128 * b as i128),
                '/' => {
                    if b == 0 {
                        Err(vec!["DivideByZero"])
                    } else {
                        let q = (a.abs() / b.abs()) as i128;
                        fit(if (a < 0) != (b < 0) { -q } else { q })
                    }
                }
                '&' | '|' | '^' => {
                    let (x, y) = (a.rem_euclid(1 << 32), b.rem_euclid(1 << 32));
                    let mut z = 0i64;
                    for i in 0..32 {
                        let (p, q) = ((x >> i) & 1 == 1, (y >> i) & 1 == 1);
                        let bit = match o {
                            '&' => p && q,
                            '|' => p || q,
                            _ => p != q,
                        };
                        if bit {
                            z += 1 << i;
                        }
                    }
                    Ok(if z >= 1 << 31 { z - (1 << 32) } else { z })
                }
                _ => unreachable!(),
            },
            (Err(mut x), Err(y)) => {
                x.extend(y);
                Err(x)
            }
            (Err(x), _) | (_, Err(x)) => Err(x),
        },
    }
}

#[derive(Clone, Debug)]
pub enum Bv {
    Val(E),
    Str(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Ex(E),
    Ri(u8),
}

#[derive(Clone, Debug)]
pub enum St {
    Label(String),
    Def(String, E, bool),
    Byte(Vec<Bv>),
    Word(Vec<E>),
    Text(usize, Vec<u8>),
    Str(usize, Vec<u8>),
    Org(usize),
    Cnop(E, E),
    Ins(usize, Vec<Opd>),
}

pub fn mnemonic(f: usize) -> String {
    FORMS[f].0.split('_').next().unwrap().to_lowercase()
}

pub fn st_text(s: &St) -> String {
    let q = |b: &Vec<u8>| format!("\"{}\"", String::from_utf8_lossy(b));
    match s {
        St::Label(n) => format!("{}:", n),
        St::Def(n, e, equ) => format!("{} {} {}", n, if *equ { "equ" } else { "=" }, text(e)),
        St::Byte(v) => format!(
            "    .byte {}",
            v.iter()
                .map(|x| match x {
                    Bv::Val(e) => text(e),
                    Bv::Str(b) => q(b),
                })
                .collect::<Vec<_>>()
                .join(", ")
        ),
        St::Word(v) => format!("    .word {}", v.iter().map(text).collect::<Vec<_>>().join(", ")),
        St::Text(n, b) => format!("    .text {} {}", n, q(b)),
        St::Str(n, b) => format!("    .string {} {}", n, q(b)),
        St::Org(n) => format!("    .org {}", n),
        St::Cnop(a, m) => format!("    .cnop {}, {}", text(a), text(m)),
        St::Ins(f, o) => {
            let k = FORMS[*f].1;
            format!(
                "    {} {}",
                mnemonic(*f),
                o.iter()
                    .enumerate()
                    .map(|(i, x)| match x {
                        Opd::Ri(r) => format!("@R{}", r),
                        Opd::Ex(e) => format!("{}{}", if k[i] == "i8" { "#" } else { "" }, text(e)),
                    })
                    .collect::<Vec<_>>()
                    .join(", ")
            )
        }
    }
}

pub fn program(p: &[St]) -> String {
    let mut s = String::new();
    for x in p {
        s.push_str(&st_text(x));
        s.push('\n');
    }
    s
}

fn next_pos(s: &St, pos: i64) -> Result<i64, Vec<&'static str>> {
    let n = match s {
        St::Label(_) | St::Def(..) => pos,
        St::Byte(v) => {
            pos + v
                .iter()
                .map(|x| match x {
                    Bv::Val(_) => 1,
                    Bv::Str(b) => b.len() as i64,
                })
                .sum::<i64>()
        }
        St::Word(v) => pos + 2 * v.len() as i64,
        St::Text(n, _) | St::Str(n, _) => pos + *n as i64,
        St::Org(n) => *n as i64,
        St::Cnop(a, m) => match (a, m) {
            (E::Num(a), E::Num(m)) => {
                let base = if *m == 0 { pos } else { (pos + m - 1) / m * m };
                if base >= 1 << 31 || base + a >= 1 << 31 {
                    return Err(vec!["ArithmeticOverflow"]);
                }
                base + a
            }
            _ => return Err(vec!["MustBeLiteralNumber"]),
        },
        St::Ins(f, _) => pos + LEN[*f] as i64,
    };
    if n >= 1 << 31 {
        return Err(vec!["InvalidCodeLocation"]);
    }
    Ok(n)
}

/// Value of operand kind `k`, encoded for an instruction whose successor is at `next`.
pub fn operand(k: &str, v: i64, next: i64) -> Result<i32, &'static str> {
    let (lo, hi) = match k {
        "i8" => (0, 255),
        "d9" => (0, 511),
        "b3" => (0, 7),
        "a16" | "a12" => (0, 65535),
        "r8" | "r16" => (0, 65535),
        _ => unreachable!(),
    };
    if v < lo || v > hi {
        return Err(if k == "r8" || k == "r16" { "InvalidAddress" } else { "NumOutOfRange" });
    }
    match k {
        "a12" => {
            if v / 4096 != next.rem_euclid(65536) / 4096 {
                Err("AddrBitsDontMatch")
            } else {
                Ok((v % 4096) as i32)
            }
        }
        "r8" => {
            let d = v - next;
            if d < -128 || d > 127 {
                Err("SignedNumOutOfRange")
            } else {
                Ok(d as i32)
            }
        }
        "r16" => {
            let d = v - (next - 1);
            if d < -32768 || d > 32767 {
                Err("SignedNumOutOfRange")
            } else {
                Ok(d as i32)
            }
        }
        _ => Ok(v as i32),
    }
}

/// Positions of the statements, or why there are none.
pub fn layout(p: &[St]) -> Result<Vec<i64>, Vec<&'static str>> {
    let mut pos = vec![0i64];
    for s in p {
        let n = next_pos(s, *pos.last().unwrap())?;
        pos.push(n);
    }
    Ok(pos)
}

pub fn assemble(p: &[St]) -> Result<Vec<u8>, Vec<&'static str>> {
    let mut errs: Vec<&'static str> = vec![];
    let pos = match layout(p) {
        Ok(x) => x,
        Err(x) => {
            // names may be reported first
            let mut x = x;
            x.push("NameAlreadyExists");
            return Err(x);
        }
    };
    // labels
    let mut globals: HashMap<String, i64> = HashMap::new();
    let mut region = vec![0usize; p.len()];
    let mut locals: Vec<HashMap<String, i64>> = vec![HashMap::new()];
    for (i, s) in p.iter().enumerate() {
        if let St::Label(n) = s {
            let n = n.to_lowercase();
            if n.starts_with('.') {
                if locals.last_mut().unwrap().insert(n, pos[i]).is_some() {
                    errs.push("NameAlreadyExists");
                }
            } else {
                if globals.insert(n, pos[i]).is_some() {
                    errs.push("NameAlreadyExists");
                }
                locals.push(HashMap::new());
            }
        }
        region[i] = locals.len() - 1;
    }
    if !errs.is_empty() {
        return Err(errs);
    }
    // definitions, in order
    for s in p.iter() {
        if let St::Def(n, e, _) = s {
            let v = value(e, &|n| globals.get(n).copied());
            match v {
                Err(x) => {
                    errs.extend(x);
                    return Err(errs);
                }
                Ok(v) => {
                    if globals.insert(n.to_lowercase(), v).is_some() {
                        errs.push("NameAlreadyExists");
                        return Err(errs);
                    }
                }
            }
        }
    }
    let mut out = vec![0u8; *pos.iter().max().unwrap() as usize];
    for (i, s) in p.iter().enumerate() {
        let at = pos[i] as usize;
        let loc = &locals[region[i]];
        let env = |n: &str| {
            if n.starts_with('.') {
                loc.get(n).copied()
            } else {
                globals.get(n).copied()
            }
        };
        let mut bytes: Vec<u8> = vec![];
        match s {
            St::Byte(v) => {
                for x in v {
                    match x {
                        Bv::Str(b) => bytes.extend(b),
                        Bv::Val(e) => match value(e, &env) {
                            Err(x) => errs.extend(x),
                            Ok(v) if v < -128 || v > 255 => errs.push("ByteOutOfRange"),
                            Ok(v) => bytes.push(v.rem_euclid(256) as u8),
                        },
                    }
                }
            }
            St::Word(v) => {
                for e in v {
                    match value(e, &env) {
                        Err(x) => errs.extend(x),
                        Ok(v) if v < -32768 || v > 65535 => errs.push("WordOutOfRange"),
                        Ok(v) => {
                            bytes.push(v.rem_euclid(256) as u8);
                            bytes.push((v.rem_euclid(65536) / 256) as u8);
                        }
                    }
                }
            }
            St::Text(n, b) | St::Str(n, b) => {
                if b.len() > *n {
                    errs.push("NumberOfBytesIsLongerThanLength");
                }
                bytes.extend(b);
                while bytes.len() < *n {
                    bytes.push(if let St::Text(..) = s { 32 } else { 0 });
                }
            }
            St::Org(n) => {
                if *n > 65535 {
                    errs.push("InvalidCodeLocation");
                }
            }
            St::Ins(f, o) => {
                let next = pos[i] + LEN[*f] as i64;
                let mut v = [0i32; 3];
                let mut ok = true;
                for (j, x) in o.iter().enumerate() {
                    match x {
                        Opd::Ri(r) => v[j] = *r as i32,
                        Opd::Ex(e) => match value(e, &env) {
                            Err(x) => {
                                errs.extend(x);
                                ok = false;
                            }
                            Ok(val) => match operand(FORMS[*f].1[j], val, next) {
                                Ok(w) => v[j] = w,
                                Err(x) => {
                                    errs.push(x);
                                    ok = false;
                                }
                            },
                        },
                    }
                }
                if ok {
                    bytes = ref_encode(*f, v);
                }
            }
            _ => {}
        }
        if errs.is_empty() {
            for (j, b) in bytes.iter().enumerate() {
                out[at + j] = *b;
            }
        }
    }
    if errs.is_empty() {
        Ok(out)
    } else {
        Err(errs)
    }
}

/// Assembles with the real assembler and compares; reports a difference.
pub fn compare(r: &mut Report, what: &str, p: &[St]) -> bool {
    let t = program(p);
    let want = assemble(p);
    let got = assemble_text(&r.dir.clone(), &t);
    r.case(&t, want.is_ok());
    let same = match (&want, &got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(k), Err(g)) => k.iter().any(|x| x == g),
        _ => false,
    };
    if !same {
        let w = match &want {
            Ok(b) => format!("{} bytes: {}", b.len(), hex(b)),
            Err(k) => format!("error {}", k.join(" or ")),
        };
        r.fail(what, t.clone(), w, show(&got));
    } else if want.is_ok() {
        r.sample(format!("{} -> {}", t.replace('\n', " / "), show(&got).chars().take(200).collect::<String>()));
    }
    same
}

// ---------------------------------------------------------------- generators

pub struct Gen<'a> {
    pub g: &'a mut Rng,
    pub names: Vec<String>,
    pub edges: Vec<i32>,
}

pub fn vary_case(g: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if g.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}

impl<'a> Gen<'a> {
    pub fn new(g: &'a mut Rng) -> Gen<'a> {
        Gen { g, names: vec![], edges: edges() }
    }
    pub fn n(&mut self) -> i64 {
        match self.g.below(4) {
            0 => self.g.range(0, 20),
            1 => self.g.range(-300, 600),
            2 => *self.g.pick(&self.edges.clone()) as i64,
            _ => self.g.range(-70000, 70000),
        }
    }
    pub fn small(&mut self, hi: i64) -> E {
        E::Num(self.g.range(0, hi))
    }
    pub fn expr(&mut self, depth: usize) -> E {
        if depth == 0 || self.g.chance(1, 4) {
            if !self.names.is_empty() && self.g.chance(1, 3) {
                let n = self.names.clone();
                let s = self.g.pick(&n).clone();
                return E::Name(vary_case(self.g, &s));
            }
            let x = self.n();
            if x == i32::MIN as i64 {
                return E::Bin('-', Box::new(num(x + 1)), Box::new(E::Num(1)));
            }
            return num(x);
        }
        match self.g.below(11) {
            0 => E::Neg(Box::new(self.expr(depth - 1))),
            1 => E::Hi(Box::new(self.expr(depth - 1))),
            2 => E::Lo(Box::new(self.expr(depth - 1))),
            k => {
                let o = ['+', '-', '*', '/', '&', '|', '^', '/'][k - 3];
                E::Bin(o, Box::new(self.expr(depth - 1)), Box::new(self.expr(depth - 1)))
            }
        }
    }
    /// an expression with this value
    pub fn with_value(&mut self, v: i64) -> E {
        match self.g.below(6) {
            0 => {
                let d = self.g.range(-1000, 1000);
                E::Bin('+', Box::new(num(v - d)), Box::new(num(d)))
            }
            1 => {
                let d = self.g.range(-1000, 1000);
                E::Bin('-', Box::new(num(v + d)), Box::new(num(d)))
            }
            2 if v % 2 == 0 => E::Bin('*', Box::new(num(v / 2)), Box::new(E::Num(2))),
            _ => num(v),
        }
    }
    /// an instruction of form f at position pos with operands in range; a branch goes to `to`, when it is given
    pub fn ins(&mut self, f: usize, pos: i64, to: Option<E>) -> St {
        let next = pos + LEN[f] as i64;
        let mut o = vec![];
        for k in FORMS[f].1 {
            o.push(match *k {
                "ri" => Opd::Ri(self.g.below(4) as u8),
                "i8" => Opd::Ex(self.small(255)),
                "d9" => Opd::Ex(self.small(511)),
                "b3" => Opd::Ex(self.small(7)),
                _ => Opd::Ex(match &to {
                    Some(e) => e.clone(),
                    None => {
                        let near = match *k {
                            "r8" => self.g.range(-128, 127) + next,
                            "a12" => next / 4096 * 4096 + self.g.range(0, 4095),
                            _ => self.g.range(0, 65535),
                        };
                        E::Num(if near < 0 { 0 } else { near })
                    }
                }),
            });
        }
        St::Ins(f, o)
    }
}

/// An image made of instructions that lead to each other.
pub fn image(g: &mut Rng, n: usize, base: usize) -> Vec<u8> {
    let mut b = vec![0u8; base + n];
    let mut p = base;
    while p < base + n {
        let jump = g.chance(1, 3);
        let f = loop {
            let f = g.below(FORMS.len());
            let t = FORMS[f].1.iter().any(|k| ["r8", "r16", "a12", "a16"].contains(k));
            if t == jump {
                break f;
            }
        };
        if !jump && g.chance(1, 6) && p + 5 <= base + n {
            // switch to flash, then a far jump
            let t = base + g.below(n);
            let not1 = FORMS.iter().position(|x| x.0 == "Not1").unwrap();
            let jmpf = FORMS.iter().position(|x| x.0 == "Jmpf").unwrap();
            let bit = if g.chance(5, 6) { 0 } else { 1 };
            let adr = if g.chance(5, 6) { 0x10D } else { 0x10C };
            let mut c = ref_encode(not1, [adr, bit, 0]);
            if g.chance(1, 8) {
                c.push(0);
            }
            c.extend(ref_encode(jmpf, [t as i32, 0, 0]));
            for x in c {
                if p < b.len() {
                    b[p] = x;
                    p += 1;
                }
            }
            continue;
        }
        let next = (p + LEN[f]) as i64;
        let mut o = [0i32; 3];
        for (x, k) in FORMS[f].1.iter().enumerate() {
            let t = base as i64 + g.below(n) as i64;
            o[x] = match *k {
                "r8" if g.chance(9, 10) => (t - next).max(-128).min(127) as i32,
                "r16" if g.chance(9, 10) => (t - next + 1).max(-32768).min(32767) as i32,
                "a16" if g.chance(9, 10) => t as i32,
                "a12" if g.chance(9, 10) => (t % 4096) as i32,
                k => g.range(range(k).0 as i64, range(k).1 as i64) as i32,
            };
        }
        for x in ref_encode(f, o) {
            if p < b.len() {
                b[p] = x;
                p += 1;
            }
        }
    }
    for _ in 0..g.below(3) {
        let k = base + g.below(n);
        b[k] = *g.pick(&[0u8, 0xA0, 0xB0, 0xA8, 0xB8, 0xB8, 0xFF, 0x01]);
    }
    if g.chance(1, 3) {
        // a place where execution ends, at the end
        let k = b.len() - 1;
        b[k] = 0xA0;
    }
    b
}

