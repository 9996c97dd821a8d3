//! MPS files: a writer that varies everything the format leaves open, and a reference reader,
//! written from the format's description and independent of relp's.
use std::collections::HashMap;

use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};

use crate::conv::{RB, rb};
use crate::ctx;
use crate::oracle::{Kind, Lp, Row, Var};
use crate::rat::Q;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Format {
    Free,
    Fixed,
}

/// What a file says.
#[derive(Clone, Debug, PartialEq)]
pub struct Meaning {
    pub maximize: bool,
    pub row_names: Vec<String>,
    pub kinds: Vec<Kind>,
    pub b: Vec<Q>,
    pub columns: Vec<Col>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: String,
    pub integer: bool,
    pub cost: Q,
    pub entries: Vec<(usize, Q)>,
    pub lo: Option<Q>,
    pub up: Option<Q>,
}

impl Meaning {
    pub fn lp(&self) -> Lp {
        let mut rows: Vec<Row> = self.kinds.iter().zip(&self.b).map(|(k, b)| Row { coefs: Vec::new(), kind: *k, b: *b }).collect();
        for (j, c) in self.columns.iter().enumerate() {
            for &(i, v) in &c.entries {
                rows[i].coefs.push((j, v));
            }
        }
        Lp {
            maximize: self.maximize,
            fixed: Q::ZERO,
            vars: self.columns.iter().map(|c| Var { cost: c.cost, lo: c.lo, up: c.up }).collect(),
            rows,
        }
    }
    pub fn names(&self) -> Vec<String> {
        self.columns.iter().map(|c| c.name.clone()).collect()
    }
    /// The problem as relp would represent it, the rows in order of their names.
    pub fn general_form(&self) -> GeneralForm<RB> {
        let m = self.kinds.len();
        let n = self.columns.len();
        let values = self.columns.iter().map(|c| c.entries.iter().map(|&(i, v)| (i, rb(v))).collect()).collect();
        let constraints = ColumnMajor::new(values, m, n);
        let types = self
            .kinds
            .iter()
            .map(|k| match *k {
                Kind::Eq => RangedConstraintRelation::Equal,
                Kind::Le => RangedConstraintRelation::Less,
                Kind::Ge => RangedConstraintRelation::Greater,
                Kind::Range(w) => RangedConstraintRelation::Range(rb(w)),
            })
            .collect();
        let variables = self
            .columns
            .iter()
            .map(|c| Variable {
                variable_type: if c.integer { VariableType::Integer } else { VariableType::Continuous },
                cost: rb(c.cost),
                lower_bound: c.lo.map(rb),
                upper_bound: c.up.map(rb),
                shift: rb(Q::ZERO),
                flipped: false,
            })
            .collect();
        let objective = if self.maximize { Objective::Maximize } else { Objective::Minimize };
        GeneralForm::new(
            objective,
            constraints,
            types,
            DenseVector::new(self.b.iter().map(|&b| rb(b)).collect(), m),
            variables,
            self.names(),
            rb(Q::ZERO),
        )
    }
}

// ---------------------------------------------------------------------------------------------
// The reference reader.

/// Why a file isn't one.
#[derive(Clone, Debug, PartialEq)]
pub struct Refused(pub &'static str);

struct Lines<'a> {
    lines: Vec<&'a str>,
    next: usize,
}
impl<'a> Lines<'a> {
    fn take(&mut self) -> Option<&'a str> {
        let l = self.lines.get(self.next).copied();
        self.next += 1;
        l
    }
    /// Lines of the same section, and the header of the next.
    fn section(&mut self) -> Result<(Vec<&'a str>, &'a str), Refused> {
        let mut inside = Vec::new();
        loop {
            match self.take() {
                None => return Err(Refused("the file ends within a section")),
                Some(l) if l.starts_with(' ') => inside.push(l),
                Some(l) => return Ok((inside, l)),
            }
        }
    }
}

fn words(line: &str) -> Vec<&str> {
    line.split_whitespace().collect()
}
/// Byte columns of the fixed format, first to last.
const COLUMNS: [(usize, usize); 6] = [(1, 3), (4, 12), (14, 22), (24, 36), (39, 47), (49, 61)];
fn fixed_field(line: &str, k: usize) -> Result<&str, Refused> {
    let (from, to) = COLUMNS[k];
    line.get(from.min(line.len())..to.min(line.len())).ok_or(Refused("a character crosses a field boundary"))
}
fn fixed_fields(line: &str) -> Result<Vec<&str>, Refused> {
    // A name may start with a space, a type or a value may not.
    (0..6).map(|k| fixed_field(line, k).map(|s| if [1, 2, 4].contains(&k) { s.trim_end() } else { s.trim() })).collect()
}

pub fn number(text: &str) -> Result<Q, Refused> {
    let bad = Refused("not a number");
    let (negative, digits) = match text.as_bytes().first() {
        Some(b'-') => (true, &text[1..]),
        Some(b'+') => (false, &text[1..]),
        _ => (false, text),
    };
    let (whole, part) = digits.split_once('.').unwrap_or((digits, ""));
    if whole.is_empty() && part.is_empty() || !whole.bytes().chain(part.bytes()).all(|b| b.is_ascii_digit()) {
        return Err(bad);
    }
    // Everything has to fit in 64 bits, scaled to an integer.
    let mut n: u128 = 0;
    let mut d: u128 = 1;
    for b in whole.bytes() {
        n = n.saturating_mul(10).saturating_add((b - b'0') as u128);
    }
    for b in part.bytes() {
        n = n.saturating_mul(10).saturating_add((b - b'0') as u128);
        d = d.saturating_mul(10);
    }
    if n > u64::MAX as u128 || d > u64::MAX as u128 {
        return Err(Refused("a number is too large"));
    }
    let n = if negative { -(n as i128) } else { n as i128 };
    Ok(Q::new(n, d as i128))
}

/// (first, pairs) of a line in the columns, right-hand side or ranges section.
fn pairs(line: &str, format: Format) -> Result<(&str, Vec<(&str, &str)>), Refused> {
    match format {
        Format::Free => {
            let w = words(line);
            match w.len() {
                3 => Ok((w[0], vec![(w[1], w[2])])),
                5 => Ok((w[0], vec![(w[1], w[2]), (w[3], w[4])])),
                _ => Err(Refused("wrong number of fields")),
            }
        }
        Format::Fixed => {
            let f = fixed_fields(line)?;
            let mut all = vec![(f[2], f[3])];
            match (f[4].is_empty(), f[5].is_empty()) {
                (true, true) => {}
                (false, false) => all.push((f[4], f[5])),
                _ => return Err(Refused("wrong number of fields")),
            }
            Ok((f[1], all))
        }
    }
}

fn lookup(index: &HashMap<&str, usize>, name: &str) -> Result<usize, Refused> {
    index.get(name).copied().ok_or(Refused("unknown name"))
}

pub fn read(bytes: &[u8], format: Format) -> Result<Meaning, Refused> {
    let text = std::str::from_utf8(bytes).map_err(|_| Refused("not text"))?;
    let lines: Vec<&str> = text
        .split('\n')
        .map(|l| l.strip_suffix('\r').unwrap_or(l))
        .filter(|l| !l.is_empty() && !l.trim_start().starts_with('*'))
        .collect();
    // `lines` of the standard library keeps a lone carriage return at the very end of the text.
    let lines = if text.ends_with('\r') { text.lines().filter(|l| !l.is_empty() && !l.trim_start().starts_with('*')).collect() } else { lines };
    let mut lines = Lines { lines, next: 0 };

    let name = lines.take().and_then(|l| l.strip_prefix("NAME")).ok_or(Refused("no name line"))?;
    if words(name).is_empty() {
        return Err(Refused("no name"));
    }
    let mut maximize = false;
    match lines.take().map(|l| l.trim_end()) {
        Some("ROWS") => {}
        Some("OBJSENSE") => {
            maximize = match lines.take().map(|l| l.trim_end()) {
                Some("  MAX" | "  MAXIMIZE") => true,
                Some("  MIN" | "  MINIMIZE") => false,
                _ => return Err(Refused("unknown direction")),
            };
            if !lines.take().is_some_and(|l| l.trim_end() == "ROWS") {
                return Err(Refused("no rows section"));
            }
        }
        _ => return Err(Refused("no rows section")),
    }

    // Rows.
    let (inside, mut header) = lines.section()?;
    let mut cost: Option<&str> = None;
    let mut rows: Vec<(&str, char)> = Vec::new();
    for l in inside {
        let (kind, name) = match format {
            Format::Free => {
                let w = words(l);
                if w.len() < 2 {
                    return Err(Refused("wrong number of fields"));
                }
                (w[0], w[1])
            }
            Format::Fixed => {
                let f = (fixed_field(l, 0)?.trim(), fixed_field(l, 1)?.trim_end());
                if f.1.is_empty() {
                    return Err(Refused("no row name"));
                }
                f
            }
        };
        match kind {
            "N" if cost.is_none() => cost = Some(name),
            "N" => return Err(Refused("two cost rows")),
            "L" | "G" | "E" => rows.push((name, kind.chars().next().unwrap())),
            _ => return Err(Refused("unknown row type")),
        }
    }
    let cost = cost.ok_or(Refused("no cost row"))?;
    rows.sort();
    let index: HashMap<&str, usize> = rows.iter().enumerate().map(|(i, r)| (r.0, i)).collect();
    if index.len() < rows.len() || index.contains_key(cost) {
        return Err(Refused("row declared twice"));
    }

    // Columns.
    if header != "COLUMNS" {
        return Err(Refused("no columns section"));
    }
    let (inside, next) = lines.section()?;
    header = next;
    let mut columns: Vec<Col> = Vec::new();
    let mut costs_given: Vec<bool> = Vec::new();
    let mut integer = false;
    let mut open = false;
    for l in inside {
        let marker = match format {
            Format::Free => {
                let w = words(l);
                if w.len() < 3 {
                    return Err(Refused("wrong number of fields"));
                }
                (w[1] == "'MARKER'").then(|| w[2])
            }
            Format::Fixed => {
                // What comes after the kind of the marker is not read.
                (fixed_field(l, 2)?.trim_end() == "'MARKER'").then_some(fixed_field(l, 4)?.trim_end())
            }
        };
        if let Some(m) = marker {
            integer = match m {
                "'INTORG'" => true,
                "'INTEND'" => false,
                _ => return Err(Refused("unknown marker")),
            };
            open = false;
            continue;
        }
        let (name, list) = pairs(l, format)?;
        if !open || columns.last().is_none_or(|c| c.name != name) {
            columns.push(Col { name: name.to_string(), integer, cost: Q::ZERO, entries: Vec::new(), lo: None, up: None });
            costs_given.push(false);
            open = true;
        }
        let c = columns.last_mut().unwrap();
        for (row, value) in list {
            let value = number(value)?;
            match index.get(row) {
                Some(&i) => {
                    if c.entries.iter().any(|e| e.0 == i) {
                        return Err(Refused("entry given twice"));
                    }
                    c.entries.push((i, value));
                }
                None if row == cost => {
                    if std::mem::replace(costs_given.last_mut().unwrap(), true) {
                        return Err(Refused("cost given twice"));
                    }
                    c.cost = value;
                }
                None => return Err(Refused("unknown name")),
            }
        }
    }
    for c in &mut columns {
        // Nothing is added by a zero.
        c.entries.retain(|e| !e.1.is_zero());
        c.entries.sort_by_key(|e| e.0);
    }
    let names: HashMap<String, usize> = columns.iter().enumerate().map(|(j, c)| (c.name.clone(), j)).collect();
    if names.len() < columns.len() {
        return Err(Refused("column given twice"));
    }

    // Right-hand sides and ranges: (set, row, value).
    let mut rhs: Vec<(usize, usize, Q)> = Vec::new();
    let mut ranges: Vec<(usize, Q)> = Vec::new();
    if header == "RHS" {
        let (inside, next) = lines.section()?;
        header = next;
        let (mut set, mut last) = (0, None);
        for l in inside {
            let (name, list) = pairs(l, format)?;
            if last != Some(name) {
                set += 1;
                last = Some(name);
            }
            for (row, value) in list {
                let (i, v) = (lookup(&index, row)?, number(value)?);
                if rhs.iter().any(|r| r.0 == set && r.1 == i) {
                    return Err(Refused("right hand side given twice"));
                }
                rhs.push((set, i, v));
            }
        }
    }
    if header == "RANGES" {
        let (inside, next) = lines.section()?;
        header = next;
        for l in inside {
            for (row, value) in pairs(l, format)?.1 {
                let (i, v) = (lookup(&index, row)?, number(value)?);
                if ranges.iter().any(|r| r.0 == i) {
                    return Err(Refused("range given twice"));
                }
                ranges.push((i, v));
            }
        }
    }

    // Bounds.
    let mut free = vec![false; columns.len()];
    let mut signed = vec![false; columns.len()];
    if header == "BOUNDS" {
        let (inside, next) = lines.section()?;
        header = next;
        for l in inside {
            let w = match format {
                Format::Free => words(l),
                Format::Fixed => fixed_fields(l)?,
            };
            if w.len() < 3 {
                return Err(Refused("wrong number of fields"));
            }
            let j = *names.get(w[2]).ok_or(Refused("unknown name"))?;
            let c = &mut columns[j];
            let value = || number(w.get(3).copied().unwrap_or(""));
            let zero = Q::ZERO;
            let (mut lower, mut upper) = (None, None);
            match w[0] {
                "FR" => {
                    // Also when the other bound comes first.
                    free[j] = true;
                }
                "MI" => upper = Some(zero),
                "PL" => lower = Some(zero),
                "BV" => (lower, upper) = (Some(zero), Some(Q::ONE)),
                "LO" | "LI" => lower = Some(value()?),
                "UP" | "UI" => upper = Some(value()?),
                "FX" => (lower, upper) = (Some(value()?), Some(value()?)),
                _ => return Err(Refused("unknown bound type")),
            }
            c.integer |= matches!(w[0], "BV" | "LI" | "UI");
            signed[j] |= !matches!(w[0], "UP" | "UI");
            if let Some(l) = lower {
                c.lo = Some(c.lo.map_or(l, |o| if l > o { l } else { o }));
            }
            if let Some(u) = upper {
                c.up = Some(c.up.map_or(u, |o| if u < o { u } else { o }));
            }
        }
    }
    if header != "ENDATA" {
        return Err(Refused("sections out of order"));
    }
    if lines.take().is_some() {
        return Err(Refused("something follows the end"));
    }

    for (j, c) in columns.iter_mut().enumerate() {
        if free[j] {
            if c.lo.is_some() || c.up.is_some() {
                return Err(Refused("free and bounded"));
            }
        } else if !signed[j] {
            c.lo = Some(Q::ZERO);
        }
        if matches!((c.lo, c.up), (Some(l), Some(u)) if l > u) {
            return Err(Refused("no feasible value"));
        }
    }

    let mut kinds = Vec::new();
    let mut b = Vec::new();
    for (i, &(_, kind)) in rows.iter().enumerate() {
        let values: Vec<Q> = rhs.iter().filter(|r| r.1 == i).map(|r| r.2).collect();
        let range = ranges.iter().find(|r| r.0 == i).map(|r| r.1);
        if (range.is_some() || kind == 'E') && values.windows(2).any(|w| w[0] != w[1]) {
            return Err(Refused("contradicting right hand sides"));
        }
        let tightest = match kind {
            'L' => values.iter().copied().reduce(|a, b| if b < a { b } else { a }),
            _ => values.iter().copied().reduce(|a, b| if b > a { b } else { a }),
        }
        .unwrap_or(Q::ZERO);
        let (k, bound) = match range {
            Some(r) if r.is_zero() => (Kind::Eq, tightest),
            Some(r) => {
                let up = match kind {
                    'L' => tightest,
                    'G' => tightest + r.abs(),
                    _ if r > Q::ZERO => tightest + r,
                    _ => tightest,
                };
                (Kind::Range(r.abs()), up)
            }
            None => match kind {
                'L' => (Kind::Le, tightest),
                'G' => (Kind::Ge, tightest),
                _ => (Kind::Eq, tightest),
            },
        };
        kinds.push(k);
        b.push(bound);
    }
    Ok(Meaning { maximize, row_names: rows.iter().map(|r| r.0.to_string()).collect(), kinds, b, columns })
}

// ---------------------------------------------------------------------------------------------
// The writer.

pub struct Doc {
    pub lines: Vec<String>,
    pub crlf: bool,
    pub last_newline: bool,
    /// The layout is that of the fixed format (which is also free format here).
    pub fixed: bool,
    /// The problem that was written, and the name of each variable.
    pub lp: Lp,
    pub names: Vec<String>,
}
impl Doc {
    pub fn bytes(&self) -> Vec<u8> {
        let mut s = self.lines.join(if self.crlf { "\r\n" } else { "\n" });
        if self.last_newline {
            s.push_str(if self.crlf { "\r\n" } else { "\n" });
        }
        s.into_bytes()
    }
}

fn decimal(q: Q) -> bool {
    let mut d = q.d;
    while d % 2 == 0 {
        d /= 2;
    }
    while d % 5 == 0 {
        d /= 5;
    }
    d == 1 && q.d <= 1_000_000_000
}
fn as_decimal(q: Q) -> Q {
    if decimal(q) { q } else { Q::int((q.n % 1000) as i64) }
}

/// The problem, restricted to what the format can say.
pub fn expressible(mut lp: Lp) -> Lp {
    lp.fixed = Q::ZERO;
    for v in &mut lp.vars {
        v.cost = as_decimal(v.cost);
        v.lo = v.lo.map(as_decimal);
        v.up = v.up.map(as_decimal);
        match (v.lo, v.up) {
            (None, Some(u)) if u > Q::ZERO => v.up = Some(-u),
            (Some(l), Some(u)) if l > u => v.up = Some(l),
            _ => {}
        }
    }
    for r in &mut lp.rows {
        for c in &mut r.coefs {
            c.1 = as_decimal(c.1);
            if c.1.is_zero() {
                c.1 = Q::ONE;
            }
        }
        r.b = as_decimal(r.b);
        if let Kind::Range(w) = &mut r.kind {
            *w = as_decimal(*w);
            if *w <= Q::ZERO {
                *w = Q::ONE;
            }
        }
    }
    lp
}

pub fn number_text(q: Q) -> String {
    let negative = q.n < 0;
    let (mut n, mut d) = (q.n.unsigned_abs(), q.d.unsigned_abs());
    // Scale to a power of ten.
    let mut places = 0usize;
    while d != 1 {
        if d % 2 == 0 && d % 5 == 0 {
            d /= 10;
        } else if d % 2 == 0 {
            d /= 2;
            n *= 5;
        } else {
            d /= 5;
            n *= 2;
        }
        places += 1;
    }
    let mut digits = n.to_string();
    while digits.len() <= places {
        digits.insert(0, '0');
    }
    let (whole, part) = digits.split_at(digits.len() - places);
    let (mut whole, mut part) = (whole.to_string(), part.to_string());
    let mut point = places > 0;
    match ctx::below(8) {
        0 => {
            point = true;
            let zeros = match ctx::below(4) {
                // As many digits as a number may have.
                3 => 18usize.saturating_sub(digits.len()).saturating_sub(ctx::below(8)),
                k => k,
            };
            part.push_str(&"0".repeat(zeros));
        }
        1 => whole.insert(0, '0'),
        2 if whole == "0" && !part.is_empty() => whole.clear(),
        _ => {}
    }
    if point && part.is_empty() && whole.is_empty() {
        whole.push('0');
    }
    let sign = if negative {
        "-"
    } else if ctx::chance(1, 12) {
        "+"
    } else if q.is_zero() && ctx::chance(1, 6) {
        "-"
    } else {
        ""
    };
    format!("{sign}{whole}{}{part}", if point { "." } else { "" })
}

/// Without what doesn't matter to a number.
fn plain(text: &str) -> String {
    let (sign, digits) = text.strip_prefix('-').map_or(("", text.trim_start_matches('+')), |rest| ("-", rest));
    let mut digits = digits.trim_start_matches('0');
    if digits.contains('.') {
        digits = digits.trim_end_matches('0').trim_end_matches('.');
    }
    if digits.is_empty() { "0".into() } else { format!("{sign}{digits}") }
}

/// Whether all numbers fit in the fields of the fixed layout.
fn fits(lp: &Lp) -> bool {
    let narrow = |q: Q| {
        let places = (0..).find(|&k| (q * Q { n: 10i128.pow(k), d: 1 }).d == 1).unwrap();
        let digits = (q.n.unsigned_abs() * 10u128.pow(places) / q.d as u128).to_string().len().max(places as usize);
        digits + usize::from(places > 0) + usize::from(q.n < 0) <= 12
    };
    lp.vars.iter().all(|v| narrow(v.cost) && v.lo.is_none_or(narrow) && v.up.is_none_or(narrow))
        && lp.rows.iter().all(|r| {
            let limits = match r.kind {
                Kind::Range(w) => narrow(w) && narrow(r.b - w),
                _ => true,
            };
            limits && narrow(r.b) && r.coefs.iter().all(|&(_, c)| narrow(c))
        })
}

/// Unique names.
fn names(n: usize, prefix: &str, fixed: bool) -> Vec<String> {
    let style = ctx::below(if fixed { 4 } else { 6 });
    let mut all: Vec<String> = (0..n)
        .map(|i| match style {
            0 => format!("{prefix}{i}"),
            1 => format!("{prefix}{:03}", (i * 7) % 1000),
            2 => format!("{}{prefix}", (b'Z' - (i % 26) as u8) as char).chars().chain(i.to_string().chars()).collect(),
            3 => ["RHS", "COLUMNS", "ENDATA", "-1", "N", "UP", "'M'", "0", "BOUNDS", "MARKER", "1.5", "NAME"].get(i).map_or(format!("{prefix}{i}"), |s| format!("{s}{}", &prefix[..1])),
            4 => format!("{prefix}_a_rather_long_name_{i}"),
            _ => format!("{prefix}é{i}ß"),
        })
        .collect();
    // In no particular order.
    ctx::shuffle(&mut all);
    all
}

struct Writer {
    fixed: bool,
    lines: Vec<String>,
}
impl Writer {
    fn gap(&self) -> &'static str {
        *ctx::pick(&[" ", "  ", "   ", "\t", " \t ", "          "])
    }
    fn header(&mut self, s: &str) {
        self.noise();
        self.lines.push(s.to_string());
    }
    fn noise(&mut self) {
        while ctx::chance(1, 12) {
            let l = *ctx::pick(&["", "* a comment", "  * indented", "*", "* ROWS", "\t* ENDATA"]);
            self.lines.push(l.to_string());
        }
    }
    /// A data line. `fields` by number, from 1 (as in the format's description).
    fn data(&mut self, fields: &[(usize, &str)]) {
        self.noise();
        let mut l = String::from(" ");
        if self.fixed {
            const START: [usize; 7] = [0, 1, 4, 14, 24, 39, 49];
            for &(k, text) in fields {
                let mut start = START[k];
                let mut text = text.to_string();
                // Numbers are aligned right.
                if k == 4 || k == 6 {
                    if text.len() > 12 {
                        text = plain(&text);
                    }
                    start += 12 - text.len();
                }
                while l.len() < start {
                    l.push(' ');
                }
                l.truncate(start);
                l.push_str(&text);
            }
            if ctx::chance(1, 10) {
                l.push_str("   ");
            }
        } else {
            if ctx::chance(1, 2) {
                l.push_str(self.gap());
            }
            for (k, &(_, text)) in fields.iter().enumerate() {
                if k > 0 {
                    l.push_str(self.gap());
                }
                l.push_str(text);
            }
            if ctx::chance(1, 8) {
                l.push_str(self.gap());
            }
        }
        self.lines.push(l);
    }
    /// Lines with one or two pairs each.
    fn pairs(&mut self, first: &str, mut list: Vec<(String, String)>) {
        while !list.is_empty() {
            let (r1, v1) = list.remove(0);
            if !list.is_empty() && ctx::chance(1, 2) {
                let (r2, v2) = list.remove(0);
                self.data(&[(2, first), (3, &r1), (4, &v1), (5, &r2), (6, &v2)]);
            } else {
                self.data(&[(2, first), (3, &r1), (4, &v1)]);
            }
        }
    }
}

/// Write a problem down, with everything the format leaves open decided by the simulator.
/// Bound lines for a variable that say nothing that the others don't say already, anywhere among
/// the others.
fn repeat_bounds(bounds: &mut Vec<(&'static str, usize, Option<Q>)>, j: usize, lo: Option<Q>, up: Option<Q>) {
    for _ in 0..1 + ctx::below(2) {
        // A lower bound of zero may only be implied, and a line about the lower bound ends that.
        let explicit = bounds.iter().any(|b| b.1 == j && !matches!(b.0, "UP" | "UI"));
        let mut choices: Vec<(&'static str, Option<Q>)> = Vec::new();
        let weaker = Q::int(ctx::below(3) as i64);
        let letter = |a, b| if ctx::chance(1, 4) { b } else { a };
        match (lo, up) {
            (None, None) => choices.push(("FR", None)),
            _ => {
                if let Some(u) = up {
                    choices.push((letter("UP", "UI"), Some(u + weaker)));
                    if u <= Q::ZERO && explicit {
                        choices.push(("MI", None));
                    }
                }
                if let Some(l) = lo {
                    let weaker = if explicit { weaker } else { Q::ZERO };
                    choices.push((letter("LO", "LI"), Some(l - weaker)));
                    if l >= Q::ZERO {
                        choices.push(("PL", None));
                        if up.is_some_and(|u| u <= Q::ONE) {
                            choices.push(("BV", None));
                        }
                    }
                    if up == lo {
                        choices.push(("FX", Some(l)));
                    }
                }
            }
        }
        let (kind, value) = *ctx::pick(&choices);
        ctx::note("bound said again");
        let at = ctx::below(bounds.len() + 1);
        bounds.insert(at, (kind, j, value));
    }
}

pub fn write(lp: Lp) -> Doc {
    let lp = expressible(lp);
    let fixed = ctx::chance(1, 2) && fits(&lp);
    let (n, m) = (lp.vars.len(), lp.rows.len());
    let vars = names(n, "x", fixed);
    let mut rows = names(m + 1, "r", fixed);
    let cost = rows.pop().unwrap();
    let mut w = Writer { fixed, lines: Vec::new() };
    w.noise();
    if ctx::chance(1, 100) {
        // What follows crosses the boundaries of the blocks and buffers in which files are read.
        ctx::note("file of several blocks");
        let size = *ctx::pick(&[4096usize, 8192, 16_384, 65_536]) - ctx::below(400);
        let filling = *ctx::pick(&["c", "é", "* "]);
        w.lines.push(format!("*{}", filling.repeat(size / filling.len())));
    }
    let title = *ctx::pick(&["NAME          TEST", "NAME TEST extra", "NAME  test", "NAME     ROWS"]);
    w.lines.push(title.to_string());
    if lp.maximize || ctx::chance(1, 6) {
        w.header("OBJSENSE");
        w.noise();
        let d = if lp.maximize { *ctx::pick(&["  MAX", "  MAXIMIZE", "  MAX  "]) } else { *ctx::pick(&["  MIN", "  MINIMIZE"]) };
        w.lines.push(d.to_string());
    }
    w.header("ROWS");
    // How a row with a range is written: (letter, right-hand side, range).
    let mut shape: Vec<(&str, Q, Option<Q>)> = Vec::new();
    for r in &lp.rows {
        let s = match r.kind {
            Kind::Le => ("L", r.b, None),
            Kind::Ge => ("G", r.b, None),
            Kind::Eq if ctx::chance(1, 10) => (*ctx::pick(&["L", "G", "E"]), r.b, Some(Q::ZERO)),
            Kind::Eq => ("E", r.b, None),
            Kind::Range(width) => match ctx::below(4) {
                0 => ("L", r.b, Some(if ctx::chance(1, 4) { -width } else { width })),
                1 => ("G", r.b - width, Some(if ctx::chance(1, 4) { -width } else { width })),
                2 => ("E", r.b - width, Some(width)),
                _ => ("E", r.b, Some(-width)),
            },
        };
        shape.push(s);
    }
    let mut order: Vec<usize> = (0..=m).collect();
    if ctx::chance(1, 2) {
        ctx::shuffle(&mut order);
    }
    for i in order {
        if i == m {
            w.data(&[(1, "N"), (2, &cost)]);
        } else {
            w.data(&[(1, shape[i].0), (2, &rows[i])]);
        }
    }
    w.header("COLUMNS");
    let mut integer = false;
    for (j, v) in lp.vars.iter().enumerate() {
        if ctx::chance(1, 8) {
            integer = !integer;
            w.data(&[(2, "M1"), (3, "'MARKER'"), (5, if integer { "'INTORG'" } else { "'INTEND'" })]);
        }
        let mut list: Vec<(String, String)> = Vec::new();
        for (i, r) in lp.rows.iter().enumerate() {
            if let Some(c) = r.coefs.iter().find(|c| c.0 == j) {
                list.push((rows[i].clone(), number_text(c.1)));
            } else if ctx::chance(1, 40) {
                ctx::note("explicit zero in a column");
                list.push((rows[i].clone(), number_text(Q::ZERO)));
            }
        }
        if !v.cost.is_zero() || list.is_empty() || ctx::chance(1, 20) {
            list.push((cost.clone(), number_text(v.cost)));
        }
        if ctx::chance(1, 2) {
            ctx::shuffle(&mut list);
        }
        w.pairs(&vars[j], list);
    }
    if integer && ctx::chance(3, 4) {
        w.data(&[(2, "M2"), (3, "'MARKER'"), (5, "'INTEND'")]);
    }
    // Right-hand sides, possibly in several sets of which the tightest counts.
    let sets = 1 + ctx::below(3) * (ctx::chance(1, 3) as usize);
    let mut lists: Vec<Vec<(String, String)>> = vec![Vec::new(); sets];
    for (i, &(letter, b, range)) in shape.iter().enumerate() {
        if b.is_zero() && !ctx::chance(1, 4) {
            continue;
        }
        let home = ctx::below(sets);
        lists[home].push((rows[i].clone(), number_text(b)));
        for (s, list) in lists.iter_mut().enumerate() {
            if s != home && ctx::chance(1, 4) {
                ctx::note("several right-hand sides for a row");
                let slack = Q::int(ctx::below(3) as i64);
                let other = match (letter, range) {
                    ("L", None) => b + slack,
                    ("G", None) => b - slack,
                    _ => b,
                };
                list.push((rows[i].clone(), number_text(other)));
            }
        }
    }
    if lists.iter().any(|l| !l.is_empty()) || ctx::chance(1, 3) {
        w.header("RHS");
        for (s, mut list) in lists.into_iter().enumerate() {
            if ctx::chance(1, 2) {
                ctx::shuffle(&mut list);
            }
            w.pairs(&format!("B{s}"), list);
        }
    }
    if shape.iter().any(|s| s.2.is_some()) || ctx::chance(1, 8) {
        w.header("RANGES");
        let sets = *ctx::pick(&[1, 2, 2, 4]);
        let mut lists = vec![Vec::new(); sets];
        for (i, s) in shape.iter().enumerate() {
            if let Some(r) = s.2 {
                let k = if ctx::chance(1, 2) { 0 } else { ctx::below(sets) };
                lists[k].push((rows[i].clone(), number_text(r)));
            }
        }
        for (k, mut list) in lists.into_iter().enumerate() {
            if ctx::chance(1, 2) {
                ctx::shuffle(&mut list);
            }
            w.pairs(["RNG", "RNG2", "R", "rng"][k], list);
        }
    }
    let mut bounds: Vec<(&str, usize, Option<Q>)> = Vec::new();
    for (j, v) in lp.vars.iter().enumerate() {
        let zero = Q::ZERO;
        match (v.lo, v.up) {
            (None, None) => bounds.push(("FR", j, None)),
            (Some(l), None) if l.is_zero() => match ctx::below(8) {
                0 => bounds.push(("PL", j, None)),
                1 => bounds.push(("LO", j, Some(zero))),
                _ => {}
            },
            (Some(l), None) => {
                bounds.push((if ctx::chance(1, 8) { "LI" } else { "LO" }, j, Some(l)));
                if l > zero && ctx::chance(1, 6) {
                    bounds.push(("PL", j, None));
                }
            }
            (None, Some(u)) => {
                bounds.push(("MI", j, None));
                if !u.is_zero() || ctx::chance(1, 2) {
                    bounds.push(("UP", j, Some(u)));
                }
            }
            (Some(l), Some(u)) if l == u && ctx::chance(3, 4) => bounds.push(("FX", j, Some(l))),
            (Some(l), Some(u)) if l.is_zero() && u == Q::ONE && ctx::chance(1, 2) => bounds.push(("BV", j, None)),
            (Some(l), Some(u)) => {
                let at = bounds.len();
                bounds.push((if ctx::chance(1, 8) { "UI" } else { "UP" }, j, Some(u)));
                if !l.is_zero() || ctx::chance(1, 8) {
                    let lower = ("LO", j, Some(l));
                    if ctx::chance(1, 2) { bounds.insert(at, lower) } else { bounds.push(lower) }
                }
                if ctx::chance(1, 10) {
                    bounds.push(("UP", j, Some(u + Q::ONE)));
                }
            }
        }
    }
    if ctx::chance(1, 3) {
        for (j, v) in lp.vars.iter().enumerate() {
            if ctx::chance(1, 3) {
                repeat_bounds(&mut bounds, j, v.lo, v.up);
            }
        }
    }
    if !bounds.is_empty() || ctx::chance(1, 8) {
        w.header("BOUNDS");
        if ctx::chance(1, 3) {
            ctx::shuffle(&mut bounds);
        }
        let sets = *ctx::pick(&[1, 1, 1, 2, 4]);
        for (kind, j, value) in bounds {
            let set = ["BND", "BND2", "B", "bnd"][if ctx::chance(1, 2) { 0 } else { ctx::below(sets) }];
            match value {
                Some(v) => {
                    let t = number_text(v);
                    w.data(&[(1, kind), (2, set), (3, &vars[j]), (4, &t)]);
                }
                None => w.data(&[(1, kind), (2, set), (3, &vars[j])]),
            }
        }
    }
    w.header("ENDATA");
    w.noise();
    Doc { lines: w.lines, crlf: ctx::chance(1, 4), last_newline: ctx::chance(3, 4), fixed, lp, names: vars }
}
