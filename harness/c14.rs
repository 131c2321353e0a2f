//! C14: VMI files made by the command line against a reference.
use crate::vh_core::*;
use chrono::prelude::*;

fn cut(s: &[u8], n: usize) -> Vec<u8> {
    (0..n).map(|i| *s.get(i).unwrap_or(&0)).collect()
}

fn one(r: &mut Report, name: &str, vms: &[u8], copyright: Option<&str>, game: bool) {
    let dir = r.dir.clone();
    let path = dir.join(name);
    std::fs::write(&path, vms).unwrap();
    let input = format!(
        "vmi {:?}, {} bytes (from 0x10: {}, from 0x210: {}), copyright {:?}, game {}",
        name,
        vms.len(),
        hex(&vms.iter().skip(0x10).take(32).cloned().collect::<Vec<_>>()),
        hex(&vms.iter().skip(0x210).take(32).cloned().collect::<Vec<_>>()),
        copyright,
        game
    );
    std::fs::write(dir.join("case.txt"), &input).unwrap();
    let out = dir.join("o.vmi");
    let _ = std::fs::remove_file(&out);
    let mut args = vec!["vmi", name, "-o", "o.vmi"];
    if let Some(c) = copyright {
        args.push("-c");
        args.push(c);
    }
    if game {
        args.push("-g");
    }
    let before = Local::now().naive_local();
    let (rc, _, err) = cli(&dir, &args);
    let after = Local::now().naive_local();
    let got = std::fs::read(&out).unwrap_or_default();
    let file = name.rsplit('/').next().unwrap();
    let base = file.strip_suffix(".vms").unwrap_or(file);
    let mut want = cut(base.as_bytes(), 4).iter().zip(b"SEGA").map(|(a, b)| a & b).collect::<Vec<u8>>();
    want.extend(cut(vms.get(if game { 0x210 } else { 0x10 }..).unwrap_or(&[]), 32));
    want.extend(cut(copyright.unwrap_or("").as_bytes(), 32));
    let date = want.len();
    want.extend(got.get(date..date + 8).unwrap_or(&[0; 8]));
    want.extend([0, 0, 1, 0]);
    want.extend(cut(base.as_bytes(), 8));
    want.extend(cut(file.as_bytes(), 12));
    want.extend([if game { 2 } else { 0 }, 0, 0, 0]);
    want.extend([(vms.len() % 256) as u8, (vms.len() >> 8) as u8, (vms.len() >> 16) as u8, (vms.len() >> 24) as u8]);
    r.case(&input, true);
    r.sample(format!("{}: {}", input, hex(&got)));
    if got != want || rc != 0 {
        r.fail(
            "VMI file",
            input.clone(),
            hex(&want),
            format!("exit code {}, {} {}", rc, hex(&got), String::from_utf8_lossy(&err)),
        );
        return;
    }
    // the date and time: a moment of the run
    let d = &got[date..date + 8];
    let day = NaiveDate::from_ymd_opt(d[0] as i32 + 256 * d[1] as i32, d[2] as u32, d[3] as u32);
    let t = day.and_then(|x| x.and_hms_opt(d[4] as u32, d[5] as u32, d[6] as u32));
    let sec = |t: NaiveDateTime| t.with_nanosecond(0).unwrap();
    let ok = match t {
        Some(t) => sec(before) <= t && t <= sec(after) && d[7] as u32 == t.weekday().num_days_from_sunday(),
        None => false,
    };
    if !ok {
        r.fail("date of a VMI file", input, format!("between {} and {}", before, after), hex(d));
    }
}

pub fn run(r: &mut Report) {
    r.rule = "VMS sizes around every field end up to 17 MB, names and copyright texts of every length up to 40 with and without \
              directories and non-ASCII characters, both kinds; non-trivial: all"
        .into();
    let mut g = Rng::new(r.seed);
    let dir = r.dir.clone();
    std::fs::create_dir_all(dir.join("sub.vms/d")).unwrap();
    let mut bytes = |n: usize| (0..n).map(|i| (g.next() as u8) | (i % 3 == 0) as u8).collect::<Vec<u8>>();
    let sizes: Vec<usize> = (0..70usize).step_by(3).chain([16, 17, 47, 48, 49, 0x200, 0x20f, 0x210, 0x211, 0x22e, 0x22f, 0x230, 0x231]).chain([
        255, 256, 257, 0x300, 0x7fff, 0x8000, 65535, 65536, 65537, 0x12345, 0xffffff, 0x1000000, 0x1020304,
    ]).collect();
    for n in sizes {
        let b = bytes(n);
        for game in [false, true] {
            one(r, "game.vms", &b, Some("me"), game);
        }
    }
    let b = bytes(0x400);
    let long = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOP";
    for n in 0..=40usize {
        one(r, "x.vms", &b, Some(&long[..n]), n % 2 == 0);
        let name = format!("{}.vms", &long[..n.min(36)]);
        one(r, &name, &b, None, n % 3 == 0);
        if n > 0 {
            one(r, &long[..n], &b, None, n % 3 == 1);
        }
        if !r.more() {
            return;
        }
    }
    for name in [
        "é.vms", "日本語ファイル.vms", "abcdefgé.vms", "a.vms.vms", "a.VMS", "a.vmsx", "avms", ".vms", "sub.vms/d/g.vms", "sub.vms/x", "a.vms ", "SEGA", "~~~~~~~~~.vms",
    ] {
        for c in [Some("é©日本語ファイルabcdefghijklmnopq"), Some("123456789012345678901234567890é"), Some("1234567890123456789012345678901é"), Some(" "), None] {
            one(r, name, &b, c, c.is_none());
        }
    }
    while r.thorough && r.more() {
        let n = *Rng::new(r.cases as u64).pick(&[3usize, 20, 40, 0x212, 0x230, 700, 3000]);
        let b = bytes(n);
        one(r, &format!("{}.vms", &long[..r.cases as usize % 20]), &b, Some(&long[r.cases as usize % 40..]), r.cases % 2 == 0);
    }
}
