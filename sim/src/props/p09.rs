//! Damaged problem files are refused, or read as what they then say.
use std::path::Path;

use relp::data::linear_program::general_form::GeneralForm;
use relp::io::{import, mps as real};

use crate::conv::RB;
use crate::ctx;
use crate::lpgen;
use crate::mps::{self, Format};
use crate::runner::{Fail, Property, fail};
use crate::simfs::{self, Plan};

pub const PROPERTY: Property = Property {
    id: "P09",
    title: "Damaged problem files are refused or read as what they then say",
    scenario,
    quick_runs: 900_000,
    thorough_secs: 500,
    rule: "a run counts when a file was damaged and the importer's answer compared with the reference reader's; distinct by its complete history (file, damage, answer)",
    state_measure: "distinct damaged contents",
    real: &["opening and reading of files down to the C library's entry points", "MPS parsing in both layouts and conversion"],
    stub: &["the file system is in memory behind replaced open, read, fstat, statx, lseek and close"],
    assumptions: &["the reference reader of the format is right, which P03 checks against an independent writer"],
    must_reach: &["file of several blocks", 
        "file cut off", "torn between two versions", "block of zeros", "bit flipped", "line lost", "line repeated", "lines swapped", "word lost", "word repeated", "word replaced",
        "character lost", "character inserted", "lines of another file", "line repeated with a difference", "refused", "accepted", "accepted with another meaning", "accepted in the fixed layout",
    ],
};

pub fn damage(bytes: &mut Vec<u8>, other: &[u8]) {
    if bytes.is_empty() {
        return;
    }
    let n = bytes.len();
    let fault = |kind: &'static str| ctx::fault(kind);
    let lines = |b: &[u8]| -> Vec<Vec<u8>> { b.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect() };
    match ctx::below(15) {
        0 => {
            fault("torn between two versions");
            // The new version was written up to a point, often a block boundary, over the old one.
            let k = if ctx::chance(1, 2) { (ctx::below(n / 64 + 1) * 64).min(n) } else { ctx::below(n + 1) };
            bytes.truncate(k);
            if k < other.len() {
                bytes.extend_from_slice(&other[k..]);
            }
        }
        1 => {
            fault("block of zeros");
            let k = ctx::below(n);
            let end = (k + 1 + ctx::below(64)).min(n);
            bytes[k..end].fill(0);
        }
        2 => {
            fault("bit flipped");
            let k = ctx::below(n);
            bytes[k] ^= 1 << ctx::below(8);
        }
        3 => {
            fault("line lost");
            let mut l = lines(bytes);
            l.remove(ctx::below(l.len()));
            *bytes = l.concat();
        }
        4 => {
            fault("line repeated");
            let mut l = lines(bytes);
            let k = ctx::below(l.len());
            let to = if ctx::chance(1, 2) { k } else { ctx::below(l.len()) };
            l.insert(to, l[k].clone());
            *bytes = l.concat();
        }
        5 => {
            fault("lines swapped");
            let mut l = lines(bytes);
            let (a, b) = (ctx::below(l.len()), ctx::below(l.len()));
            l.swap(a, b);
            *bytes = l.concat();
        }
        k @ 6..=8 => {
            // Words of a line.
            let mut l = lines(bytes);
            let at = ctx::below(l.len());
            let text = String::from_utf8_lossy(&l[at]).into_owned();
            let starts: Vec<(usize, usize)> = {
                let mut v = Vec::new();
                let mut from = None;
                for (i, c) in text.char_indices().chain([(text.len(), ' ')]) {
                    match (c.is_whitespace(), from) {
                        (false, None) => from = Some(i),
                        (true, Some(f)) => {
                            v.push((f, i));
                            from = None;
                        }
                        _ => {}
                    }
                }
                v
            };
            if starts.is_empty() {
                return;
            }
            let (f, t) = starts[ctx::below(starts.len())];
            let word = &text[f..t];
            let new = match k {
                6 => {
                    fault("word lost");
                    String::new()
                }
                7 => {
                    fault("word repeated");
                    format!("{word} {word}")
                }
                _ => {
                    fault("word replaced");
                    let known = [
                        "0", "1", "-1", "1e3", "1E-2", "1.5e", ".", "-", "+", "--1", "1.2.3", "inf", "nan", "1/2", "0x10", "18446744073709551615", "18446744073709551616",
                        "9223372036854775808", "0.00000000000000000001", "99999999999999999999.5", "FR", "MI", "PL", "BV", "UP", "LO", "FX", "SC", "UI", "LI", "N", "E", "L", "G",
                        "'MARKER'", "'INTORG'", "'INTEND'", "RHS", "RANGES", "BOUNDS", "ENDATA", "COLUMNS", "ROWS", "x0", "x1", "r0", "r1", "*",
                    ];
                    if ctx::chance(1, 2) {
                        ctx::pick(&known).to_string()
                    } else {
                        let all = String::from_utf8_lossy(other);
                        let w: Vec<&str> = all.split_whitespace().collect();
                        if w.is_empty() { "0".to_string() } else { ctx::pick(&w).to_string() }
                    }
                }
            };
            l[at] = format!("{}{}{}", &text[..f], new, &text[t..]).into_bytes();
            *bytes = l.concat();
        }
        9 => {
            fault("character lost");
            bytes.remove(ctx::below(n));
        }
        10 => {
            fault("character inserted");
            let c = *ctx::pick(&[b' ', b'\n', b'\t', b'\r', b'*', b'-', b'.', b'0', b'1', b'e', b'E', b'$', b'N', 0u8, 0x0b, 0x0c, 0xa0, 0xc2]);
            bytes.insert(ctx::below(n + 1), c);
        }
        11 => {
            fault("lines of another file");
            let mut l = lines(bytes);
            let o = lines(other);
            let from = ctx::below(o.len());
            let to = (from + 1 + ctx::below(4)).min(o.len());
            let at = ctx::below(l.len() + 1);
            l.splice(at..at, o[from..to].iter().cloned());
            *bytes = l.concat();
        }
        12 | 13 => {
            fault("line repeated with a difference");
            let mut l = lines(bytes);
            let kinds = ["FR", "MI", "PL", "BV", "UP", "LO", "FX", "UI", "LI"];
            // Among the bounds, as a whole; elsewhere one word.
            let bounds: Vec<usize> = (0..l.len())
                .filter(|&k| String::from_utf8_lossy(&l[k]).split_whitespace().next().is_some_and(|w| kinds.contains(&w)))
                .collect();
            let k = if bounds.is_empty() || ctx::chance(1, 2) { ctx::below(l.len()) } else { *ctx::pick(&bounds) };
            let text = String::from_utf8_lossy(&l[k]).into_owned();
            let words: Vec<&str> = text.split_whitespace().collect();
            if words.is_empty() {
                return;
            }
            let new = if bounds.contains(&k) && words.len() >= 3 {
                let kind = *ctx::pick(&kinds);
                let value = *ctx::pick(&["0", "1", "-1", "2", "-2", "0.5", words.get(3).copied().unwrap_or("3")]);
                let mut t = format!(" {kind} {:<9} {:<9}", words[1], words[2]);
                if !matches!(kind, "FR" | "MI" | "PL" | "BV") {
                    t.push_str(&format!(" {value:<12}"));
                }
                t + "\n"
            } else {
                let all = String::from_utf8_lossy(bytes).into_owned();
                let w: Vec<&str> = all.split_whitespace().collect();
                let at = ctx::below(words.len());
                text.replacen(words[at], *ctx::pick(&w), 1)
            };
            let at = if ctx::chance(1, 2) { k + ctx::below(2) } else { (k + ctx::below(4)).min(l.len()) };
            l.insert(at, new.into_bytes());
            *bytes = l.concat();
        }
        _ => {
            fault("digit changed");
            let digits: Vec<usize> = (0..n).filter(|&k| bytes[k].is_ascii_digit()).collect();
            if !digits.is_empty() {
                let k = *ctx::pick(&digits);
                bytes[k] = b'0' + ctx::below(10) as u8;
            }
        }
    }
}

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[1usize, 2, 3, 4]);
    let doc = mps::write(lpgen::gen_for_file(size));
    let original = doc.bytes();
    // The version that the storage held before.
    let other = {
        let mut lp = doc.lp.clone();
        for v in &mut lp.vars {
            if ctx::chance(1, 3) {
                v.cost = crate::rat::Q::int(ctx::small(5));
            }
        }
        if ctx::chance(1, 3) { lpgen::gen_for_file(size) } else { lp }
    };
    let other = mps::write(other).bytes();
    let mut bytes = original.clone();
    let mut plan = Plan::default();
    if ctx::chance(1, 5) {
        plan.truncate_at = Some(ctx::below(bytes.len()));
    } else {
        for _ in 0..*ctx::pick(&[1usize, 1, 1, 2, 3]) {
            damage(&mut bytes, &other);
        }
    }
    let arrives = match plan.truncate_at {
        Some(k) => bytes[..k].to_vec(),
        None => bytes.clone(),
    };
    ctx::event(ctx::hash_dbg(&arrives));
    ctx::state(ctx::hash_dbg(&arrives));
    ctx::log(|| format!("--- file\n{}\n---", String::from_utf8_lossy(&arrives)));
    let shown = || format!("{:?}", String::from_utf8_lossy(&arrives));

    let expected = mps::read(&arrives, Format::Free);
    simfs::mount(vec![("/simfs/damaged.mps".to_string(), bytes)], plan);
    ctx::set_step_limit(100_000);
    let imported: Result<GeneralForm<RB>, String> = match import(Path::new("/simfs/damaged.mps")) {
        Err(e) => Err(e.to_string()),
        Ok(p) => p.try_into().map_err(|e| format!("{e:?}")),
    };
    ctx::clear_step_limit();
    if arrives != original {
        ctx::nontrivial();
    }
    match (&imported, &expected) {
        (Ok(g), Ok(m)) => {
            ctx::note("accepted");
            let meant = m.general_form();
            if mps::read(&original, Format::Free).is_ok_and(|o| o.general_form() != meant) {
                ctx::note("accepted with another meaning");
            }
            if *g != meant {
                return fail("other problem", format!("imported\n{g:?}\ninstead of\n{meant:?}\nfrom {}", shown()));
            }
        }
        (Err(_), Err(_)) => ctx::note("refused"),
        (Ok(g), Err(why)) => {
            return fail("accepted", format!("imported {g:?}, but this is no problem file ({}): {}", why.0, shown()));
        }
        (Err(e), Ok(_)) => return fail("refused", format!("refused with {e}, but this is a proper problem file: {}", shown())),
    }
    // The same content as fixed format. relp is stricter than the format about alignment.
    if let Ok(text) = std::str::from_utf8(&arrives) {
        let as_fixed: Option<GeneralForm<RB>> = real::parse_fixed::<relp_num::Rational64>(&text).ok().and_then(|p| p.try_into().ok());
        if let Some(g) = as_fixed {
            match mps::read(&arrives, Format::Fixed) {
                Ok(m) if m.general_form() == g => ctx::note("accepted in the fixed layout"),
                Ok(m) => {
                    return fail("other problem in fixed layout", format!("read\n{g:?}\ninstead of\n{:?}\nfrom {}", m.general_form(), shown()));
                }
                Err(why) => return fail("accepted in fixed layout", format!("read {g:?}, but this is no problem file ({}): {}", why.0, shown())),
            }
        }
    }
    Ok(())
}
