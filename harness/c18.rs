//! C18: what the command `expand` prints, assembled, against the program itself, assembled.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::*;

fn string(g: &mut Rng, max: usize) -> (String, usize) {
    let n = g.below(max + 1);
    let mut s = String::from("\"");
    let mut len = 0;
    for _ in 0..n {
        let p = match g.below(20) {
            0 => ("\\\"", 1),
            1 => ("\\\\", 1),
            2 => ("\\n", 1),
            3 => ("\\r", 1),
            4 => ("\\t", 1),
            5 => ("\\b", 1),
            6 => ("\\0", 1),
            7 => ("\\a", 1),
            8 => ("\\v", 1),
            9 => ("\x07", 1),
            10 => ("\x0b", 1),
            11 => ("\x0c", 1),
            12 => (";", 1),
            13 => ("é", 2),
            14 => ("中", 3),
            15 => ("'", 1),
            16 => ("%", 1),
            17 => ("\u{b}", 1),
            18 => ("\r", 1),
            _ => ("x", 1),
        };
        s.push_str(p.0);
        len += p.1;
    }
    s.push('"');
    (s, len)
}

fn lit(g: &mut Rng, v: i64) -> String {
    match g.below(6) {
        0 => format!("${:x}", v),
        1 => format!("0X{:04X}", v),
        2 => format!("%{:b}", v),
        3 => format!("0o{:o}", v),
        _ => v.to_string(),
    }
}

/// a text whose value is v
fn spelled(g: &mut Rng, v: i64, depth: usize) -> String {
    if v < 0 {
        return format!("-{}", spelled(g, -v, 0));
    }
    if depth == 0 {
        return lit(g, v);
    }
    match g.below(10) {
        0 => {
            let d = g.range(0, 300);
            format!("{} + ({}) - {}", spelled(g, d, 0), spelled(g, v, depth - 1), lit(g, d))
        }
        1 => {
            let d = g.range(0, 300);
            format!("{} - ({})", lit(g, v + d), spelled(g, d, depth - 1))
        }
        2 => format!("{} * 2 / 2", lit(g, v)),
        3 => format!("({}) ^ 0", spelled(g, v, depth - 1)),
        4 => format!("{} & 65535 | {} & 0", lit(g, v & 65535), lit(g, v)),
        5 => format!("-(-{})", lit(g, v)),
        6 if v < 256 => format!("<({})", spelled(g, v, depth - 1)),
        7 if v < 256 => format!(">({} * 256)", lit(g, v)),
        _ => lit(g, v),
    }
}

struct P<'a> {
    g: &'a mut Rng,
    head: String,
    body: String,
    n: usize,
    locals: bool,
}

impl<'a> P<'a> {
    fn fresh(&mut self, s: &str) -> String {
        self.n += 1;
        format!("{}{}", s, self.n)
    }
    fn put(&mut self, l: &str) {
        self.body.push_str(l);
        self.body.push('\n');
    }
    fn operand(&mut self, k: &str, to: &str) -> String {
        let v = match k {
            "ri" => {
                let n = self.g.below(4);
                return if self.g.chance(1, 2) { format!("@R{}", n) } else { format!("@r{}", n) };
            }
            "i8" => {
                let v = self.g.range(0, 255);
                return format!("#{}", spelled(self.g, v, 2));
            }
            "d9" => self.g.range(0, 511),
            "b3" => self.g.range(0, 7),
            _ => return to.to_owned(),
        };
        spelled(self.g, v, 2)
    }
    fn instruction(&mut self, f: usize, to: &str) -> (String, Vec<String>) {
        let ops = FORMS[f].1.iter().map(|k| self.operand(k, to)).collect();
        (mnemonic(f), ops)
    }
    fn block(&mut self) {
        match self.g.below(16) {
            0 => {
                let n = 1 + self.g.below(4);
                let v: Vec<String> = (0..n)
                    .map(|_| {
                        if self.g.chance(1, 2) {
                            string(self.g, 8).0
                        } else {
                            let x = self.g.range(-128, 255);
                            spelled(self.g, x, 3)
                        }
                    })
                    .collect();
                self.put(&format!("  .byte {}", v.join(", ")));
            }
            1 => {
                let n = 1 + self.g.below(4);
                let v: Vec<String> = (0..n)
                    .map(|_| {
                        let x = self.g.range(-32768, 65535);
                        spelled(self.g, x, 3)
                    })
                    .collect();
                self.put(&format!("  .word {}", v.join(",")));
            }
            2 | 3 => {
                let (s, len) = string(self.g, 8);
                let d = if self.g.chance(1, 2) { ".text" } else { ".string" };
                let n = len + self.g.below(4);
                let n = lit(self.g, n as i64);
                self.put(&format!("  {} {} {}", d, n, s));
            }
            4 => {
                let (a, m) = (self.g.range(0, 9), self.g.range(0, 40));
                let (a, m) = (lit(self.g, a), lit(self.g, m));
                self.put(&format!("  .cnop {}, {}", a, m));
            }
            5 => {
                let (x, v) = (self.fresh("Var_"), self.g.range(-5, 255));
                let v = spelled(self.g, v, 3);
                self.put(&format!("{} = {}", x, v));
                if self.g.chance(1, 2) {
                    self.put(&format!("  .word {} + 1", x.to_uppercase()));
                }
            }
            6 => {
                let (x, v) = (self.fresh("al.i$as"), self.g.range(0, 255));
                let v = spelled(self.g, v, 3);
                self.put(&format!("{} EqU {}", x, v));
                self.put(&format!("  .byte {}", x));
            }
            7 => {
                let l = self.fresh("Label");
                self.locals = true;
                let ins = if self.g.chance(1, 2) { " nop" } else { "" };
                self.put(&format!("{}:{}", l, ins));
                self.put(&format!("  .word {}, <{}, >{}", l.to_uppercase(), l, l));
            }
            8 if self.locals => {
                let l = self.fresh(".Loc");
                let colon = if self.g.chance(1, 2) { ":" } else { "" };
                self.put(&format!("{}{}", l, colon));
                self.put(&format!("  brf {}", l));
            }
            9 | 10 => self.call(),
            11 => {
                let c = self.g.pick(&["; a comment", "* not at the start", ";; \"", ""]).to_string();
                self.put(&format!("  nop {}", if c.starts_with('*') { "" } else { &c }));
            }
            12 => {
                let l = self.fresh("stmt");
                self.locals = true;
                self.put(&format!("{}:", l));
            }
            _ => {
                let f = self.g.below(FORMS.len());
                let to = self.fresh("T");
                self.put(&format!("{}:", to));
                self.locals = true;
                let (m, ops) = self.instruction(f, &to);
                self.put(&format!("  {} {}", m, ops.join(", ")));
            }
        }
    }
    /// a macro of one or more instructions, and a call
    fn call(&mut self) {
        let name = self.fresh("mac");
        let mut body = String::new();
        let mut params = vec![];
        let mut args = vec![];
        let local = self.g.chance(1, 2);
        let to = if local { ".again%".to_owned() } else { self.fresh("M") };
        if local && !self.locals {
            let g = self.fresh("G");
            self.put(&format!("{}:", g));
            self.locals = true;
        }
        body.push_str(&if local && self.g.chance(1, 2) { format!("{}\n", to) } else { format!("{}:\n", to) });
        self.locals = true;
        for _ in 0..1 + self.g.below(3) {
            let f = self.g.below(FORMS.len());
            let (m, mut ops) = self.instruction(f, &to);
            for (i, k) in FORMS[f].1.iter().enumerate() {
                let far = ["r8", "r16", "a12", "a16"].contains(k);
                if far || !self.g.chance(1, 2) {
                    continue;
                }
                let p = format!("%p{}", params.len());
                let arg = ops[i].clone();
                if *k == "i8" && self.g.chance(1, 2) {
                    // the value is the argument, the # is in the macro, and more is added to it
                    ops[i] = format!("#{} & 255", p);
                    args.push(arg[1..].to_owned());
                } else {
                    ops[i] = if *k == "d9" && self.g.chance(1, 2) { format!("{} * 1", p) } else { p.clone() };
                    args.push(arg);
                }
                params.push(p);
            }
            body.push_str(&format!("  {} {}\n", m, ops.join(", ")));
        }
        self.head.push_str(&format!("%macro {} {}\n{}%end\n", name, params.join(", "), body));
        self.put(&format!("  {} {}", name, args.join(", ")));
    }
}

fn check(r: &mut Report, what: &str, text: &str, dir: &std::path::Path) -> bool {
    let want = assemble_text(&dir.to_path_buf(), text);
    r.case(text, want.is_ok());
    let want = match want {
        Ok(b) => b,
        Err(e) => {
            r.sample(format!("rejected ({}): {}", e, text.replace('\n', " / ").chars().take(300).collect::<String>()));
            return true;
        }
    };
    let (code, out, err) = cli(dir, &["expand", "case.s"]);
    let out = String::from_utf8_lossy(&out).to_string();
    if code != 0 {
        r.fail(what, text.to_owned(), "the expanded program".into(), format!("exit {}: {}{}", code, out, String::from_utf8_lossy(&err)));
        return false;
    }
    std::fs::write(dir.join("expanded.s"), &out).expect("write");
    let got = assemble_path(&dir.join("expanded.s"));
    if got.as_ref().ok() != Some(&want) {
        r.fail(what, text.to_owned(), show(&Ok(want)), format!("{}\nexpanded:\n{}", show(&got), out));
        return false;
    }
    true
}

fn files(dir: &std::path::Path, g: &mut Rng) {
    let n = g.below(40);
    let b: Vec<u8> = (0..n).map(|_| g.below(256) as u8).collect();
    std::fs::write(dir.join("data.bin"), b).expect("write");
    std::fs::write(dir.join("empty.bin"), b"").expect("write");
    std::fs::write(dir.join("two.s"), "inc_two: nop\n  .byte \"\\\"two\\\\\"\n").expect("write");
    std::fs::write(dir.join("c.h"), "#define CX 0x10 // ten\n#define Cy (CX + 2)\n/* x */\n").expect("write");
    for name in ["s.png", "a;b.png", "a\nnop.png", "a\r\nnop.png", "q\u{e9} 'x'.png"] {
        let (w, h) = (1 + g.below(20), 1 + g.below(5));
        let mut i = image::RgbaImage::new(w as u32, h as u32);
        for y in 0..h {
            for x in 0..w {
                let c = (g.below(2) * 255) as u8;
                i.put_pixel(x as u32, y as u32, image::Rgba([c, c, c, (g.below(2) * 255) as u8]));
            }
        }
        i.save(dir.join(name)).expect("png");
    }
    let mut i = image::RgbaImage::new(32, 32);
    for p in 0..1024u32 {
        let c = (g.below(4) * 80) as u8;
        i.put_pixel(p % 32, p / 32, image::Rgba([c, 0, 255 - c, 255]));
    }
    i.save(dir.join("i.png")).expect("png");
    let mut i = image::RgbaImage::new(72, 56);
    for p in 0..72 * 56u32 {
        let c = (g.below(4) * 80) as u8;
        i.put_pixel(p % 72, p / 72, image::Rgba([c, 0, 255 - c, 255]));
    }
    i.save(dir.join("e.png")).expect("png");
}

pub fn run(r: &mut Report) {
    r.rule = "the instruction forms with random operands, every printable byte and escape in strings, every kind of .include, then random programs of \
              data, text, names, local labels and macros; non-trivial when the program is accepted"
        .into();
    let mut rng = Rng::new(r.seed);
    let dir = r.dir.clone();
    files(&dir, &mut rng);
    // all forms
    let mut t = String::new();
    let mut m = String::new();
    for f in 0..FORMS.len() {
        let mut p = P { g: &mut rng, head: String::new(), body: String::new(), n: 0, locals: false };
        let to = format!("at{}", f);
        let (mn, ops) = p.instruction(f, &to);
        t.push_str(&format!("{}: {} {}\n", to, mn, ops.join(", ")));
        let names: Vec<String> = (0..ops.len()).map(|i| format!("%p{}", i)).collect();
        m.push_str(&format!("%macro m_{} {}\n {} {}\n%end\n", f, names.join(", "), mn, names.join(", ")));
        t.push_str(&format!(" m_{} {}\n", f, ops.join(", ")));
    }
    check(r, "expanded program", &format!("{}{}", m, t), &dir);
    // all bytes of ASCII in strings, plain and after a backslash
    let mut t = String::new();
    for c in 1..128u8 {
        if c != b'"' && c != b'\\' {
            t.push_str(&format!("  .byte \"<{}>\"\n  .text 4 \"{}\"\n  .string 4 \"{}z\"\n", c as char, c as char, c as char));
        }
        if c != b'\n' {
            t.push_str(&format!("  .byte \"<\\{}>\"\n  .text 4 \"\\{}\"\n  .string 4 \"\\{}z\"\n", c as char, c as char, c as char));
        }
    }
    check(r, "expanded program", &t, &dir);
    // every small place, and some large ones
    let mut t = String::new();
    for n in (0..600).chain((600..65000).step_by(611)) {
        let o = lit(&mut rng, n);
        t.push_str(&format!("  .org {}\n  .byte {}\n", o, n & 255));
    }
    check(r, "expanded program", &t, &dir);
    // every small number and length in every base
    let mut t = String::new();
    for n in (0..300i64).chain((300..65536).step_by(977)) {
        t.push_str(&format!("  .word {}, ${:x}, %{:b}, 0o{:o}\n", n, n, n, n));
        if n < 80 {
            t.push_str(&format!("  .text {} \"\"\n  .string {} \"x\"\n  .cnop {}, {}\n  .byte {}\n", n, n + 2, n, n + 1, n));
        }
    }
    check(r, "expanded program", &t, &dir);
    // two operators next to each other, in every way
    let (mut t, mut n) = (String::new(), 0);
    let ops = ["+", "-", "*", "/", "&", "|", "^"];
    for a in ops {
        for b in ops {
            for e in [format!("71 {} (23 {} 5)", a, b), format!("(71 {} 23) {} 5", a, b), format!("71 {} 23 {} 5", a, b), format!("-71 {} -(23 {} 5)", a, b), format!("<(71 {} 23) {} >(5000 {} 3)", a, b, a), format!("-(71 {} 23) {} <-5", a, b)] {
                n += 1;
                if let Err(x) = assemble_text(&dir.to_path_buf(), &format!("v = {}\n  .word v & 65535\n", e)) {
                    r.sample(format!("left out ({}): {}", x, e));
                    continue;
                }
                t.push_str(&format!("v{} = {}\n  .word v{} & 65535\n  .word v{} / 65536 & 65535\n", n, e, n, n));
            }
        }
    }
    check(r, "expanded program", &t, &dir);
    let includes = [
        ".include \"two.s\"",
        ".include asm \"two.s\"",
        ".include bytes \"data.bin\"",
        ".include bytes \"empty.bin\"",
        ".include cpp \"c.h\"\n .byte cx, CY",
        ".include sprite \"s.png\"",
        ".include sprite \"s.png\" type=\"masked\", header=\"no\"",
        ".include sprite \"s.png\" type=\"masked\"",
        ".include sprite \"a;b.png\" type=\"masked\"",
        ".include sprite \"a\\nnop.png\" header=\"no\"",
        ".include sprite \"a\\r\\nnop.png\" type=\"masked\", header=\"yes\"",
        ".include sprite \"q\u{e9} 'x'.png\"",
        ".include icon \"i.png\"",
        ".include icon \"i.png\" speed=$12",
        ".include icon \"i.png\" speed=3, eyecatch=\"e.png\"",
    ];
    for i in includes.iter() {
        for before in ["", "  nop\n", "l: jmpf m\n"] {
            check(r, "expanded program", &format!("{}{}\nm: .byte 1, 2\n", before, i).replace(": .byte", ":\n .byte"), &dir);
        }
        if r.stop() {
            return;
        }
    }
    while r.more() {
        let n = 1 + rng.below(60);
        let mut p = P { g: &mut rng, head: String::new(), body: String::new(), n: 0, locals: false };
        let org = *p.g.pick(&[0i64, 0, 0x200, 0xEF0]);
        if org > 0 || p.g.chance(1, 3) {
            let o = lit(p.g, org);
            p.put(&format!("  .org {}", o));
        }
        for _ in 0..n {
            p.block();
            if p.g.chance(1, 12) {
                let i = p.g.below(includes.len());
                if i > 1 && i != 4 {
                    p.put(includes[i]);
                }
            }
        }
        let t = format!("{}{}", p.head, p.body);
        check(r, "expanded program", &t, &dir);
    }
    // listed in known_findings.txt
    if !r.stop() {
        check(r, "equ-operand", "equ = 5\nfoo: ld equ\n", &dir);
    }
}
