//! A problem file, however it is notated and delivered, is imported as what it says and solved.
use std::path::Path;

use relp::data::linear_program::general_form::GeneralForm;
use relp::io::{import, mps as real};

use crate::conv::RB;
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::mps::{self, Format};
use crate::oracle::{Lp, Verdict};
use crate::pipeline::*;
use crate::rat::Q;
use crate::runner::{Fail, Property, fail};
use crate::seam;
use crate::simfs::{self, Plan};

pub const PROPERTY: Property = Property {
    id: "P03",
    title: "A problem file is solved as what it says, however it is notated and delivered",
    scenario,
    quick_runs: 450_000,
    thorough_secs: 500,
    rule: "a run counts when a file was imported and the imported problem solved; distinct by its complete history (file, delivery, pivots, answer)",
    state_measure: "distinct imported problems",
    real: &["opening and reading of files down to the C library's entry points", "MPS parsing and conversion", "presolve", "standardisation", "both simplex phases", "solution reconstruction"],
    stub: &["the file system is in memory behind replaced open, read, fstat, statx, lseek and close; how data is delivered is decided by the simulator"],
    assumptions: &["the reference model (exact rational arithmetic, Bland's rule) is right", "the writer's and the reference reader's understanding of the format, which are checked against each other in every run"],
    must_reach: &["file of several blocks", "other units", "short read", "one byte read", "EINTR on read", "EINTR on open", "wrong size from stat", "fixed layout", "free layout", "several right-hand sides for a row", "explicit zero in a column"],
};

/// Deliveries that lose nothing.
pub fn benign_plan() -> Plan {
    let mut p = Plan::default();
    if ctx::chance(1, 3) {
        return p;
    }
    p.open_eintr = *ctx::pick(&[0u64, 0, 2]);
    p.read_eintr = *ctx::pick(&[0u64, 0, 2, 4]);
    p.short_read = *ctx::pick(&[0u64, 0, 1, 2]);
    p.one_byte_reads = ctx::chance(1, 8);
    p.stat_size = *ctx::pick(&[None, None, None, Some(0), Some(1), Some(5000)]);
    p
}

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[2usize, 3, 4, 6]);
    let planted = ctx::chance(1, 40).then(|| {
        let cfg = GenCfg { decimal: true, large: true, ..GenCfg::standard(size, size) };
        let (lp, verdict) = lpgen::gen_answered(&cfg, if ctx::chance(1, 2) { 1 } else { 0 });
        let (lp, verdict) = if ctx::chance(1, 3) { lpgen::other_units(&lp, &verdict, true) } else { (lp, verdict) };
        // The format has no fixed cost.
        let lp = Lp { fixed: Q::ZERO, ..lp };
        let verdict = match verdict {
            Verdict::Optimal(_, x) => Verdict::Optimal(lp.cost_of(&x), x),
            v => v,
        };
        (lp, verdict)
    });
    let doc = mps::write(match &planted {
        Some((lp, _)) => lp.clone(),
        None => lpgen::gen_lp(&GenCfg::standard(size, size)),
    });
    let planted = planted.filter(|(lp, _)| *lp == doc.lp).map(|(_, verdict)| verdict);
    let bytes = doc.bytes();
    let text = String::from_utf8(bytes.clone()).expect("text");
    ctx::log(|| format!("--- file\n{text}\n---"));
    ctx::event(ctx::hash_str(&text));
    ctx::note(if doc.fixed { "fixed layout" } else { "free layout" });

    // The writer and the reference reader agree.
    let meaning = match mps::read(&bytes, Format::Free) {
        Ok(m) => m,
        Err(e) => panic!("the reference reader refuses the writer's file: {e:?}\n{text}"),
    };
    let verdict = match planted {
        Some(verdict) => verdict,
        None => {
            let verdict = doc.lp.solve();
            match (&verdict, &meaning.lp().solve()) {
                (a, b) if a.name() != b.name() => panic!("the reference reader misunderstands the writer's file\n{text}"),
                (Verdict::Optimal(a, _), Verdict::Optimal(b, _)) if a != b => {
                    panic!("the reference reader misunderstands the writer's file\n{text}")
                }
                _ => {}
            }
            verdict
        }
    };

    let path = *ctx::pick(&["/simfs/problem.mps", "/simfs/dir.d/problem.SIF", "/simfs/x.y.mps"]);
    simfs::mount(vec![(path.to_string(), bytes)], benign_plan());
    ctx::set_step_limit(SOLVE_STEPS);
    let general: GeneralForm<RB> = match import(Path::new(path)) {
        Err(e) => return fail("refused", format!("import fails with {e} on\n{text}")),
        Ok(p) => match p.try_into() {
            Err(e) => return fail("refused", format!("conversion fails with {e:?} on\n{text}")),
            Ok(g) => g,
        },
    };
    let open = simfs::with(|d| d.opened - d.closed).unwrap();
    if open != 0 {
        return fail("file left open", format!("{open} files are still open after importing"));
    }
    let expected = meaning.general_form();
    if general != expected {
        return fail("imported problem", format!("imported\n{general:?}\ninstead of\n{expected:?}\nfrom\n{text}"));
    }
    if doc.fixed {
        match real::parse_fixed::<relp_num::Rational64>(&text).map(TryInto::<GeneralForm<RB>>::try_into) {
            Ok(Ok(g)) if g == expected => {}
            Ok(Ok(g)) => return fail("fixed layout", format!("read\n{g:?}\ninstead of\n{expected:?}\nfrom\n{text}")),
            Ok(Err(e)) => return fail("fixed layout refused", format!("{e:?} on\n{text}")),
            Err(e) => return fail("fixed layout refused", format!("{e} on\n{text}")),
        }
    }
    ctx::state(ctx::hash_dbg(&general));

    let engine = draw_engine();
    let mut knobs = draw_knobs();
    knobs.presolve = *ctx::pick(&[0u64, 0, 3]);
    describe(&doc.lp, engine, Route::Standard, &knobs);
    seam::set_knobs(knobs);
    seam::install_hooks();
    seam::limit_pivots(SOLVE_PIVOTS);
    let mut general = general;
    let decided = if ctx::chance(1, 2) { presolve(&mut general) } else { None };
    let reported = match decided {
        Some(r) => r,
        None => finish(general, engine, Route::Standard),
    };
    seam::limit_pivots(u64::MAX);
    ctx::clear_step_limit();
    ctx::nontrivial();
    judge(&doc.lp, &verdict, &reported, &doc.names)
}
