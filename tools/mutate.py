#!/usr/bin/env python3
"""Mutants of the library, to test the checks with.
  mutate.py gen SEED N OUT.json          N small changes to /repo's code (text only)
  mutate.py filter IN.json OUT.json DIR  keeps those which compile and pass the tests, tried in DIR, a clone of /repo
Nothing is ever applied to /repo itself here."""
import json, os, random, re, subprocess, sys

FILES = "document node entry identifier value fmt v2_parser error de se".split()
OPS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>(?=\s)", ">="), (r"(?<=\s)<=(?=\s)", "<"), (r"(?<=\s)>=(?=\s)", ">"),
    (r"&&", "||"), (r"(?<=\s)\|\|(?=\s)", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"(?<=[ (])!(?=[a-z(])", ""),
    (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\b0\.\.(?!=)", "1.."), (r"\b1\.\.(?!=)", "0.."), (r"\.\.=(?=\S)", ".."), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"),
    (r"\b0\b(?![.x'])", "1"), (r"\b1\b(?![.x'])", "2"), (r"\b1\b(?![.x'])", "0"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bbreak;", "continue;"), (r"\bSome\(([a-z_]+)\)(?=[,;)]|$)", "None"),
    (r"\.rev\(\)", ""), (r"\.next\(\)", ".next_back()"), (r"\bstarts_with\b", "ends_with"), (r"\bcontains\b", "starts_with"),
    (r"\.unwrap_or\(0\)", ".unwrap_or(1)"), (r"\.take\(\)", ".clone()"), (r"\.trim_start\(\)", ""), (r"\.trim\(\)", ""), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
    (r" \| '[^']+'", ""), (r"'[^']{1,8}' \| ", ""), (r" \| \"[^\"]+\"", ""), (r"\bopt\(", "("), (r"\bif let Some\((\w+)\) = ", r"if let (Some(\1), true) = (None.or("),
    (r"\belse if (?!let)(.+) \{$", "else if false {"), (r"(?<!else )\bif (?!let)(.+) \{$", r"if true {"), (r"(?<!else )\bif (?!let)(.+) \{$", r"if false {"), (r" if (?!let)([^{]+) => ", " => "),
    (r"\"([^\"\\]{1,6})\"", '""'), (r"\\u\{([0-9A-Fa-f]+)\}", r"\\u{E000}"), (r"\bnewline\b(?=[,)])", "unicode_space"), (r"\bnode_space\b(?=[,)])", "ws"), (r"\bwss\b(?=[,)])", "ws"), (r"\bnode_space\b(?=[,)])", "node_space1"),
    (r"repeat\(0\.\.", "repeat(1.."), (r"repeat\(1\.\.", "repeat(0.."), (r"cut_err\(", "("), (r"not\(", "peek("), (r"peek\(", "("),
    (r"i128", "i64"), (r"u128", "u64"), (r"\.push\((.+)\);$", r"{ let _ = \1; }"), (r"\?;$", ".ok();"),
]
STMT = re.compile(r"^\s+(?!let\b|return\b|use\b|//|#|\}|pub\b|const\b|type\b)[a-z_*][^{}]*;$")
ARM = re.compile(r"^\s+[A-Za-z_:'\"|(). {}\\0-9]+=> .*,$")
LIST = re.compile(r"^\s+[a-z_]+(\([^()]*\))?(\.[a-z_]+\([^()]*\))?,$")
FIELD = re.compile(r"^\s+&& .*$")

def code_lines(path):
    lines = open(path).read().split("\n")
    skip = None
    for i, l in enumerate(lines):
        if skip is None and l.strip() == "#[cfg(test)]":
            skip = len(l) - len(l.lstrip())
            opened = False
            continue
        if skip is not None:
            if l.startswith(" " * skip + "}") or (not opened and l.endswith(";")):
                skip = None
            if l.endswith("{"):
                opened = True
            continue
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("assert"):
            continue
        yield i, l
def gen(seed, n, out):
    r = random.Random(seed)
    all = {}
    for f in FILES:
        p = f"src/{f}.rs"
        for i, l in code_lines("/repo/" + p):
            code = l.split(" // ")[0]
            for pat, rep in OPS:
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if "None.or((" in new or "(None.or(" in new:
                        new = re.sub(r" \{$", "), false) {", new).replace("(None.or(", "(None.or(")
                    all.setdefault(f, []).append((p, i, l, new))
            for pat in (STMT, ARM, LIST, FIELD):
                if pat.match(code):
                    all.setdefault(f, []).append((p, i, l, ""))
    pool = [x for f in FILES for x in all.get(f, [])]
    print({f: len(all.get(f, [])) for f in FILES}, file=sys.stderr)
    r.shuffle(pool)
    seen, ms = set(), []
    for p, i, old, new in pool:
        if (p, i, new) in seen or new == old:
            continue
        seen.add((p, i, new))
        ms.append({"file": p, "line": i, "old": old, "new": new})
        if len(ms) == n:
            break
    json.dump(ms, open(out, "w"), indent=0)
def apply(m, d):
    p = f"{d}/{m['file']}"
    lines = open(p).read().split("\n")
    assert lines[m["line"]] == m["old"], m
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))
def filter(inp, out, d, target, part=0, of=1):
    env = dict(os.environ, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="0")
    ok, tried, built = [], 0, 0
    for k, m in enumerate(json.load(open(inp))):
        if k % of != part:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
        apply(m, d)
        tried += 1
        c = lambda a, t: subprocess.run(["timeout", str(t), "nice", "-n", "19", "cargo"] + a, cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if c(["check", "--all-features", "--offline", "-j", "2"], 120) != 0:
            continue
        built += 1
        if c(["test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "-j", "3", "--", "--test-threads", "3"], 240) == 0:
            ok.append(m)
            json.dump(ok, open(out, "w"), indent=0)
            print(f"{tried} tried {built} built {len(ok)} pass: {m['file']}:{m['line']+1}: {m['old'].strip()[:80]} -> {m['new'].strip()[:80]}", flush=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=d, check=True)
    print("done", tried, built, len(ok), flush=True)
if sys.argv[1] == "gen":
    gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
elif sys.argv[1] == "filter":
    filter(*sys.argv[2:6], *map(int, sys.argv[6:8]))
