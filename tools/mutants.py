#!/usr/bin/env python3
"""How strong are the checks? Plant small random changes in scratch copies and see which checks notice.

  mutants.py DIR N SEED WORKERS [FILE-PATTERN]

Everything happens in DIR (outside /repo and /verif); results are appended to DIR/results.jsonl.
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

DIR, N, SEED, WORKERS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
PATTERN = re.compile(sys.argv[5]) if len(sys.argv) > 5 else re.compile(".")
CHECKS = os.environ.get("CHECKS", "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15").split()
SECS = os.environ.get("SECS", "6")
THREADS = max(1, os.cpu_count() // WORKERS)

SWAPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "),
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r" /= ", " *= "), (r" \|= ", " = "), (r" &= ", " = "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"\.is_zero\(\)", ".is_not_zero()"), (r"\.is_not_zero\(\)", ".is_zero()"),
    (r"\bis_positive\b", "is_negative"), (r"\bis_negative\b", "is_positive"),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bmin_by", "max_by"), (r"\bmax_by", "min_by"),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""),
    (r"Ordering::Less\b", "Ordering::Greater"), (r"Ordering::Greater\b", "Ordering::Less"), (r"Ordering::Equal\b", "Ordering::Less"),
    (r"BoundDirection::Lower\b", "BoundDirection::Upper"), (r"BoundDirection::Upper\b", "BoundDirection::Lower"),
    (r"\blower_bound\b", "upper_bound"), (r"\bupper_bound\b", "lower_bound"),
    (r"if !", "if "), (r"\(!", "("), (r"if (?=[a-z])", "if true || "), (r"if (?=[a-z])", "if false && "),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"= -", "= "), (r"\(-", "("), (r"\.\.=", ".."),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.find\(", ".rfind("), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"),
    (r"::Positive\b", "::Negative"), (r"::Negative\b", "::Positive"), (r"::Less\b", "::Greater"), (r"::Greater\b", "::Less"),
    (r"\.cloned\(\)\.unwrap_or\(", ".cloned().or(None).unwrap_or("),
]
STATEMENT = re.compile(r"^\s+(?!let |return |use |debug_|assert|//|pub |break|continue|fn |type |const |impl |mod |where )[\w*&][^;{}]*;\s*$")


def candidates(repo):
    found = []
    for base, _, files in os.walk(os.path.join(repo, "src")):
        for name in sorted(files):
            path = os.path.join(base, name)
            rel = os.path.relpath(path, repo)
            if not name.endswith(".rs") or "/test" in rel or rel == "src/sim.rs" or not PATTERN.search(rel):
                continue
            lines = open(path).read().split("\n")
            depth_assert = 0
            for k, line in enumerate(lines):
                if line.strip().startswith("#[cfg(test)]"):
                    break
                stripped = line.strip()
                if depth_assert:
                    depth_assert += line.count("(") - line.count(")")
                    continue
                if stripped.startswith(("debug_assert", "assert")):
                    depth_assert = line.count("(") - line.count(")")
                    continue
                if stripped.startswith(("//", "#", "use ", "impl", "pub trait", "where", "for<", "im_ops", "ops::", "write!", "writeln!")) or "->" in line or "fmt(" in line or "SparseElement" in line or "width" in line or re.search(r"\bfor<'r>|: *(Zero|One|Add|Sub|Field|NonZero|Ord|Neg|Element)\b", line) or "relp_sim" in line or "crate::sim" in line:
                    continue
                code = line.split("//")[0]
                for a, b in SWAPS:
                    for m in re.finditer(a, code):
                        found.append((rel, k, line, line[:m.start()] + b + line[m.end():]))
                if STATEMENT.match(code):
                    found.append((rel, k, line, re.match(r"\s*", line).group() + "();"))
    return found


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def prepare(w):
    root = f"{DIR}/w{w}"
    os.makedirs(root + "/verif", exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", root + "/repo/"])
    sh(["rsync", "-a", "--delete", "--exclude", "target", "/verif/sim/", root + "/verif/sim/"])
    toml = root + "/verif/sim/Cargo.toml"
    s = open(toml).read().replace('incremental = false', 'incremental = true').replace("opt-level = 3", "opt-level = 2")
    open(toml, "w").write(s)
    return root


def run(w, queue, lock, out):
    root = prepare(w)
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="nightly-2025-03-01", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTFLAGS="--cfg relp_sim -Awarnings",
               CARGO_TARGET_DIR=root + "/verif/sim/target", RELP_SIM_DIR=root + "/verif", CARGO_BUILD_JOBS=str(THREADS), CARGO_TERM_COLOR="never", RELP_SIM_SHRINK_SECS="0")
    binary = root + "/verif/sim/target/release/relp-sim"
    while True:
        with lock:
            if not queue:
                return
            rel, k, old, new = queue.pop()
        path = f"{root}/repo/{rel}"
        original = open(path).read()
        lines = original.split("\n")
        lines[k] = new
        open(path, "w").write("\n".join(lines))
        started = time.time()
        record = {"file": rel, "line": k + 1, "old": old.strip(), "new": new.strip()}
        b = sh(["cargo", "build", "--release", "--offline"], cwd=root + "/verif/sim", env=env)
        if b.returncode:
            record["result"] = "does not build"
        else:
            record["result"] = "survived"
            order = CHECKS[:]
            for p in order:
                try:
                    r = sh([binary, "check", p, "--tier", "quick", "--seed", "1", "--secs", SECS, "--workers", str(THREADS)], env=env, timeout=240)
                except subprocess.TimeoutExpired:
                    record.update(result="harness timeout", by=p)
                    break
                if r.returncode == 1:
                    record.update(result="caught", by=p, how=r.stdout.strip().split("\n")[1][:160] if "\n" in r.stdout else r.stdout[:160])
                    break
                if r.returncode:
                    record.update(result=f"exit {r.returncode}", by=p, how=(r.stdout + r.stderr)[-300:])
                    break
        record["secs"] = round(time.time() - started)
        open(path, "w").write(original)
        with lock:
            out.write(json.dumps(record) + "\n")
            out.flush()


def main():
    os.makedirs(DIR, exist_ok=True)
    found = candidates("/repo")
    random.Random(SEED).shuffle(found)
    # At most one per line.
    seen, queue = set(), []
    for c in found:
        if c[:2] not in seen:
            seen.add(c[:2])
            queue.append(c)
    print(len(found), "candidates on", len(queue), "lines")
    queue = queue[:N]
    lock = threading.Lock()
    with open(DIR + "/results.jsonl", "a") as out:
        threads = [threading.Thread(target=run, args=(w, queue, lock, out)) for w in range(WORKERS)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()


main()
