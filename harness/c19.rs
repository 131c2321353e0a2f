//! C19: every mnemonic with every list of operand kinds, through the real assembler.
use crate::vh_core::*;
use crate::vh_isa::*;
use crate::vh_model::*;

/// like assemble_text, but an error is printed in full
fn run_text(dir: &std::path::PathBuf, text: &str) -> Outcome {
    let path = dir.join("case.s");
    std::fs::write(&path, text).expect("write case");
    let name = path.to_string_lossy().to_string();
    match guarded(|| {
        let mut files = crate::files::SourceFiles::new();
        crate::asm::assemble_file(&mut files, &name).map_err(|e| format!("{:?}", e))
    }) {
        Ok(x) => x,
        Err(p) => Err(p),
    }
}

fn kinds_of(f: usize) -> Vec<char> {
    FORMS[f].1.iter().map(|k| if *k == "i8" { '#' } else if *k == "ri" { '@' } else { 'x' }).collect()
}

/// the forms of a mnemonic, as a message lists them
fn listed(mn: &str) -> Vec<String> {
    let mut v: Vec<String> = (0..FORMS.len())
        .filter(|f| mnemonic(*f) == mn && !FORMS[*f].1.is_empty())
        .map(|f| {
            let ks: Vec<&str> = FORMS[f]
                .1
                .iter()
                .map(|k| match *k {
                    "i8" => "Imm",
                    "d9" => "D9",
                    "ri" => "IM",
                    "b3" => "B3",
                    "r8" => "R8",
                    "r16" => "R16",
                    "a12" => "A12",
                    _ => "A16",
                })
                .collect();
            format!("[{}]", ks.join(", "))
        })
        .collect();
    v.sort();
    v
}

/// the forms in the rendering of an error
fn forms_in(e: &str) -> Option<Vec<String>> {
    let at = e.rfind("\", [")?;
    let s: Vec<char> = e[at + 4..].chars().collect();
    let mut out = vec![];
    let mut cur: Option<String> = None;
    for c in s {
        match (c, &mut cur) {
            ('[', _) => cur = Some("[".into()),
            (']', Some(x)) => {
                x.push(']');
                if x != "[]" {
                    out.push(x.clone());
                }
                cur = None;
            }
            (']', None) => break,
            (c, Some(x)) => x.push(c),
            _ => {}
        }
    }
    out.sort();
    Some(out)
}

/// operands of the given kinds: their text and, for form f, their encoded values
fn operands(g: &mut Rng, kinds: &[char], f: Option<usize>) -> (Vec<String>, [i32; 3]) {
    let mut t = vec![];
    let mut o = [0; 3];
    for (j, k) in kinds.iter().enumerate() {
        if *k == '@' {
            let n = g.below(4);
            t.push(format!("{}{}", if g.chance(1, 2) { "@R" } else { "@r" }, n));
            if let Some(_) = f {
                o[j] = n as i32;
            }
            continue;
        }
        let mut v = g.range(3, 7);
        if let Some(f) = f {
            let next = LEN[f] as i64;
            let k = FORMS[f].1[j];
            v = match k {
                "i8" => g.range(0, 255),
                "d9" => g.range(0, 511),
                "b3" => g.range(0, 7),
                "a12" => g.range(0, 4095),
                "r8" => next + g.range(-next, 127),
                "r16" => g.range(0, 32767),
                _ => g.range(0, 65535),
            };
            o[j] = operand(k, v, next).expect("in range");
        }
        let e = match g.below(4) {
            0 => format!("{} + {}", v - v / 2, v / 2),
            1 => format!("${:x}", v),
            2 => format!("({} - {})", v + 9, 9),
            _ => v.to_string(),
        };
        t.push(if *k == '#' { format!("#{}", e) } else { e });
    }
    (t, o)
}

fn wrap(g: &mut Rng, way: usize, mn: &str, ops: &[String]) -> String {
    let mn = vary_case(g, mn);
    match way {
        0 => format!("    {} {}\n    nop\n", mn, ops.join(", ")),
        1 => format!("lab: {} {}\n    nop\n", mn, ops.join(", ")),
        2 => format!("%macro zz\n    {} {}\n%end\n    zz\n    nop\n", mn, ops.join(", ")),
        _ => {
            let ps: Vec<String> = (0..ops.len()).map(|i| format!("%p{}", i)).collect();
            format!("%macro zz {}\n    {} {}\n%end\n    zz {}\n    nop\n", ps.join(", "), mn, ps.join(", "), ops.join(", "))
        }
    }
}

fn one(r: &mut Report, g: &mut Rng, mn: &str, kinds: &[char], way: usize) {
    let f = (0..FORMS.len()).find(|f| mnemonic(*f) == mn && kinds_of(*f) == kinds);
    let (t, o) = operands(g, kinds, f);
    let text = wrap(g, way, mn, &t);
    r.case(&text, f.is_some());
    let got = run_text(&r.dir.clone(), &text);
    match f {
        Some(f) => {
            let mut want = ref_encode(f, o);
            want.push(0);
            if got != Ok(want.clone()) {
                r.fail("a documented form", text, format!("{} ({})", hex(&want), FORMS[f].0), show(&got));
            }
        }
        None => {
            let ok = match &got {
                Err(e) => kind_text(e) == "WrongInstructionArgs" && forms_in(e) == Some(listed(mn)),
                Ok(_) => false,
            };
            if !ok {
                r.fail("operands of no form", text, format!("WrongInstructionArgs, {:?}", listed(mn)), show(&got));
            }
        }
    }
}

fn kind_text(e: &str) -> String {
    e.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

fn all_kinds(n: usize) -> Vec<Vec<char>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for v in all_kinds(n - 1) {
        for c in ['#', 'x', '@'] {
            let mut w = v.clone();
            w.push(c);
            out.push(w);
        }
    }
    out
}

fn names(r: &mut Report, g: &mut Rng, mns: &[String]) {
    // a name is an instruction exactly when it is a mnemonic
    let mut all: Vec<String> = mns.to_vec();
    for m in mns {
        for x in ["s", "c", "f", "r", "1", "_i8", "_d9", "_ri", "a", "n"] {
            all.push(format!("{}{}", m, x));
        }
        if m.len() > 2 {
            all.push(m[..m.len() - 1].to_string());
            all.push(m[1..].to_string());
        }
    }
    for x in ["lda", "sta", "bra", "beq", "jsr", "adc", "sbc", "cmp", "eor", "ora", "inca", "dbz", "clr", "set", "not", "halt", "bnc", "bc", "sleep"] {
        all.push(x.to_string());
    }
    all.sort();
    all.dedup();
    for n in all {
        if !n.chars().next().map(|c| c.is_ascii_alphabetic()).unwrap_or(false) {
            continue;
        }
        let known = mns.contains(&n);
        for k in 0..4usize {
            let args: Vec<String> = (0..k).map(|_| "#3".to_string()).collect();
            let ps: Vec<String> = (0..k).map(|i| format!("%p{}", i)).collect();
            let cased = vary_case(g, &n);
            let text = format!("%macro {} {}\n    ret\n%end\n    {} {}\n", cased, ps.join(", "), vary_case(g, &n), args.join(", "));
            r.case(&text, known);
            let got = run_text(&r.dir.clone(), &text);
            let ok = match &got {
                Ok(b) => !known && b == &vec![0xa0],
                Err(e) => known && kind_text(e) == "MacroNameConflictsWithInstruction",
            };
            if !ok {
                r.fail("a macro of this name", text, if known { "MacroNameConflictsWithInstruction".into() } else { "a0".into() }, show(&got));
            }
            if known {
                continue;
            }
            // no such instruction: a call of a macro that is not there
            for (inside, want) in [(false, "NoSuchMacro"), (true, "UnknownInstruction")] {
                let text = if inside {
                    format!("%macro outer\n    {} {}\n%end\n    outer\n", cased, args.join(", "))
                } else {
                    format!("    {} {}\n", cased, args.join(", "))
                };
                r.case(&text, false);
                let got = run_text(&r.dir.clone(), &text);
                let ok = match &got {
                    Ok(_) => false,
                    Err(e) => ["NoSuchMacro", "UnknownInstruction"].contains(&kind_text(e).as_str()),
                };
                if !ok {
                    r.fail("a name that is no mnemonic", text, want.to_string(), show(&got));
                }
            }
            if r.stop() {
                return;
            }
        }
    }
}

pub fn run(r: &mut Report) {
    r.rule = "every mnemonic with every list of up to four operand kinds, in a program and in a macro, and up to six at random; \
              names around the mnemonics; non-trivial when the form exists"
        .into();
    let mut mns: Vec<String> = (0..FORMS.len()).map(mnemonic).collect();
    mns.dedup();
    let mut g = Rng::new(r.seed);
    names(r, &mut g, &mns);
    for n in 0..5 {
        for ks in all_kinds(n) {
            for m in mns.iter() {
                let fits = (0..FORMS.len()).any(|f| &mnemonic(f) == m && kinds_of(f) == ks);
                let ways: Vec<usize> = if fits { vec![0, 1, 2, 3, 0, 0, 0, 0] } else { vec![g.below(4)] };
                for w in ways {
                    one(r, &mut g, m, &ks, w);
                }
                if r.stop() {
                    return;
                }
            }
        }
    }
    while r.more() {
        let m = g.pick(&mns).clone();
        let fs: Vec<usize> = (0..FORMS.len()).filter(|f| mnemonic(*f) == m).collect();
        let ks: Vec<char> = if g.chance(2, 3) {
            kinds_of(*g.pick(&fs))
        } else {
            (0..g.below(7)).map(|_| *g.pick(&['#', 'x', '@'])).collect()
        };
        let w = g.below(4);
        one(r, &mut g, &m, &ks, w);
    }
}
