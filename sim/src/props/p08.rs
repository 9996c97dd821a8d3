//! Storage failures while importing are reported, never absorbed, and leave nothing behind.
use std::error::Error;
use std::ffi::{OsStr, c_int};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

use relp::data::linear_program::general_form::GeneralForm;
use relp::io::error::Import;
use relp::io::import;

use crate::conv::RB;
use crate::ctx;
use crate::lpgen;
use crate::mps::{self, Format};
use crate::props::p03::benign_plan;
use crate::runner::{Fail, Property, fail};
use crate::simfs::{self, Plan};

pub const PROPERTY: Property = Property {
    id: "P08",
    title: "Storage failures while importing are reported, never absorbed",
    scenario,
    quick_runs: 450_000,
    thorough_secs: 400,
    rule: "a run counts when at least one import met a failure that it could not recover from, or an interruption, short delivery or wrong size that it had to recover from; distinct by its complete history (files, faults, deliveries, answers)",
    state_measure: "distinct combinations of the answer of an import and the faults it met",
    real: &["opening, sizing and reading of files in relp and the standard library, down to the C library's entry points", "MPS parsing and conversion"],
    stub: &["the file system is in memory behind replaced open, read, pread, fstat, statx, lseek and close"],
    assumptions: &["the reference reader of the format is right, which P03 checks against an independent writer"],
    must_reach: &["file of several blocks", "error on open", "error on read", "error on stat", "error after data arrived", "error after all data arrived", "EINTR on open", "EINTR on read", "short read", "one byte read", "wrong size from stat", "missing file", "wrong extension", "recovered after a failure", "not text"],
};

const ERRORS: [c_int; 22] = [
    simfs::EIO,
    simfs::EIO,
    simfs::EIO,
    simfs::EACCES,
    simfs::EMFILE,
    simfs::ENOENT,
    simfs::EISDIR,
    simfs::ENOMEM,
    simfs::ESTALE,
    simfs::ETIMEDOUT,
    simfs::EAGAIN,
    simfs::EAGAIN,
    simfs::EBADF,
    simfs::EPERM,
    simfs::ENXIO,
    simfs::EINVAL,
    simfs::ENFILE,
    simfs::EFBIG,
    simfs::ENOSPC,
    simfs::EPIPE,
    simfs::EOVERFLOW,
    simfs::ECONNRESET,
];

fn scenario() -> Result<(), Fail> {
    let nr_files = 1 + ctx::below(2);
    let mut files = Vec::new();
    let mut expected: Vec<Option<GeneralForm<RB>>> = Vec::new();
    for k in 0..nr_files {
        let size = *ctx::pick(&[1usize, 2, 3, 5]);
        let doc = mps::write(lpgen::gen_for_file(size));
        let mut bytes = doc.bytes();
        let mut meaning = match mps::read(&bytes, Format::Free) {
            Ok(m) => Some(m.general_form()),
            Err(e) => panic!("the reference reader refuses the writer's file: {e:?}"),
        };
        if ctx::chance(1, 10) {
            // Somewhere in it, bytes that no text has.
            let at = ctx::below(bytes.len());
            bytes[at] = *ctx::pick(&[0xff, 0xc0, 0xfe]);
            ctx::note("not text");
            meaning = None;
        }
        ctx::log(|| format!("--- file {k}\n{}\n---", String::from_utf8_lossy(&bytes)));
        let extension = *ctx::pick(&["mps", "mps", "mps", "SIF", "SIF", "lp", "MPS", "", "mps\u{fffd}", "mps.gz"]);
        let dot = if extension.is_empty() { "" } else { "." };
        files.push((format!("/simfs/file{k}{dot}{extension}"), bytes));
        expected.push(meaning);
    }
    ctx::event(ctx::hash_dbg(&files));
    simfs::mount(files.clone(), Plan::default());
    ctx::set_step_limit(200_000);
    let mut failed_before = false;
    for _ in 0..1 + ctx::below(4) {
        let k = ctx::below(nr_files);
        let mut plan = benign_plan();
        let missing = ctx::chance(1, 12);
        let path = if missing { "/simfs/elsewhere.mps".to_string() } else { files[k].0.clone() };
        match ctx::below(6) {
            1 => plan.open_error = Some(*ctx::pick(&ERRORS)),
            2 => {
                let bytes = &files[k].1;
                let ends: Vec<usize> = bytes.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).collect();
                let from = match ctx::below(5) {
                    0 => ctx::below(bytes.len() + 1),
                    1 => bytes.len(),
                    _ if ends.is_empty() => bytes.len(),
                    2 => ends[ends.len() - 1],
                    _ => ends[ctx::below(ends.len())],
                };
                plan.bad_from = Some((from, *ctx::pick(&ERRORS)));
            }
            3 => {
                let at = *ctx::pick(&[0u64, 0, 1, 2, 3, 5, 9]);
                if at > 0 {
                    // So that there are so many reads.
                    plan.short_read = 1;
                    if ctx::chance(1, 2) {
                        plan.stat_size = Some(*ctx::pick(&[0u64, 1]));
                    }
                }
                plan.read_error_at = Some((at, *ctx::pick(&ERRORS)));
            }
            4 => plan.stat_error = Some(*ctx::pick(&ERRORS)),
            5 if ctx::chance(1, 3) => plan.stat_size = Some(*ctx::pick(&[1 << 40, 1 << 62, u64::MAX >> 1])),
            _ => {}
        }
        let absurd = plan.stat_size.is_some_and(|s| s > 1 << 30);
        simfs::set_plan(plan.clone());
        let before = simfs::with(|d| {
            d.hard_error = false;
            (d.opened, d.closed)
        })
        .unwrap();
        let faults = |kinds: &[&str]| ctx::with(|c| kinds.iter().map(|k| c.faults.get(k).copied().unwrap_or(0)).sum::<u64>());
        let recoverable = ["EINTR on open", "EINTR on read", "short read", "one byte read", "wrong size from stat", "error on stat"];
        let recoverable_before = faults(&recoverable);
        // A name that isn't text.
        let raw = path.bytes().collect::<Vec<u8>>();
        let raw: Vec<u8> = match path.find('\u{fffd}') {
            Some(at) => [&raw[..at], &[0xff], &raw[at + 3..]].concat(),
            None => raw,
        };
        let result = import::<RB>(Path::new(OsStr::from_bytes(&raw)));
        if let Err(e) = &result {
            // What a user does with it.
            let mut told = e.to_string();
            let mut cause = e.source();
            while let Some(c) = cause {
                told.push_str(&c.to_string());
                cause = c.source();
            }
            ctx::log(|| format!("the error says: {told}"));
        }
        let (opened, closed, hard) = simfs::with(|d| (d.opened - before.0, d.closed - before.1, d.hard_error)).unwrap();
        if opened != closed {
            return fail("file left open", format!("{opened} files were opened and {closed} closed"));
        }
        let known_extension = path.ends_with(".mps") || path.ends_with(".SIF");
        let name = match &result {
            Ok(_) => "problem",
            Err(Import::IO(_)) => "input/output error",
            Err(Import::FileExtension(_)) => "extension refused",
            Err(_) => "content refused",
        };
        ctx::log(|| format!("import of {path}: {name}"));
        ctx::state(ctx::hash_dbg(&(name, hard, missing, known_extension, faults(&recoverable) - recoverable_before, opened)));
        let errno = plan.open_error.or(plan.read_error_at.map(|e| e.1)).or(plan.bad_from.map(|e| e.1));
        // What went wrong for good.
        if hard || missing {
            ctx::nontrivial();
            failed_before = true;
            if missing {
                ctx::note("missing file");
            }
            if hard && (plan.read_error_at.is_some_and(|(at, _)| at > 0) || plan.bad_from.is_some_and(|(from, _)| from > 0)) && plan.open_error.is_none() {
                ctx::note("error after data arrived");
            }
            match &result {
                Err(Import::IO(e)) => {
                    let expected = if hard { errno } else { Some(simfs::ENOENT) };
                    if e.raw_os_error() != expected {
                        return fail("cause lost", format!("the error is {e:?}, but the cause was {expected:?}"));
                    }
                }
                // Nothing was read from a file that couldn't be a problem.
                Err(Import::FileExtension(_)) if !known_extension => {}
                Err(e) => return fail("failure misreported", format!("an input/output failure is reported as {e:?}")),
                Ok(_) => return fail("failure absorbed", format!("a problem is returned although reading failed with error {errno:?}")),
            }
            continue;
        }
        if faults(&recoverable) > recoverable_before {
            ctx::nontrivial();
        }
        if !known_extension {
            ctx::note("wrong extension");
            if !matches!(result, Err(Import::FileExtension(_)) | Err(Import::IO(_))) {
                return fail("wrong extension accepted", format!("{path} is not a known type of file, but: {name}"));
            }
            continue;
        }
        match (&expected[k], result) {
            (None, Err(_)) => {}
            (None, Ok(_)) => return fail("not text accepted", "a file that isn't text is imported".to_string()),
            // Having been told about a failure or an absurd size, giving up is allowed.
            (Some(_), Err(Import::IO(_))) if plan.stat_error.is_some() || absurd => {}
            (Some(_), Err(e)) => {
                return fail("transient failure reported", format!("import fails with {e:?} although everything could be read"));
            }
            (Some(expected), Ok(p)) => {
                let general: GeneralForm<RB> = match p.try_into() {
                    Ok(g) => g,
                    Err(e) => return fail("content refused", format!("{e:?}, although everything could be read")),
                };
                if general != *expected {
                    return fail("other problem", format!("imported\n{general:?}\ninstead of\n{expected:?}"));
                }
                if failed_before {
                    ctx::note("recovered after a failure");
                }
            }
        }
    }
    ctx::clear_step_limit();
    Ok(())
}
