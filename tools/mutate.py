#!/usr/bin/env python3
"""Mutation testing of the checks: changes /repo's code one token or statement at a time, keeps the
changes that build and pass the existing tests, and reports those that no check notices.

    mutate.py DIR SLOT/SLOTS [FILTER]      DIR/SLOT holds the scratch copies; log in DIR/SLOT.log

Works on copies only.  Not part of any check.
"""
import glob, json, os, re, shutil, subprocess, sys, time

FILES = {
    "src/binary/merkle_tree.rs": "B", "src/binary/node.rs": "B", "src/binary/primitive.rs": "B", "src/binary/hash.rs": "B",
    "src/binary/in_memory.rs": "B", "src/sparse/merkle_tree.rs": "S", "src/sparse/node.rs": "S",
    "src/sparse/primitive.rs": "S", "src/sparse/hash.rs": "S", "src/sparse/in_memory.rs": "S",
    "src/sum/merkle_tree.rs": "M", "src/sum/node.rs": "M", "src/sum/hash.rs": "M",
    "src/common.rs": "*", "src/common/prefix.rs": "*", "src/common/position_path.rs": "PB", "src/common/msb.rs": "PS",
    "src/common/path_iterator.rs": "PSB", "src/common/subtree.rs": "BM", "src/common/path.rs": "PS",
    "src/common/storage_map.rs": "CBSM", "src/common/node.rs": "*", "src/common/position.rs": "PB",
    "src/storage.rs": "CBSM",
    "test-helpers/src/binary/verify.rs": "H", "test-helpers/src/binary/node.rs": "H", "test-helpers/src/binary/hash.rs": "H",
    "test-helpers/src/binary/merkle_tree.rs": "H", "test-helpers/src/data/sparse.rs": "H",
    "test-helpers/src/data/binary.rs": "H", "test-helpers/src/data/encoded_value.rs": "H",
}
PROPS = "B01 B02 B03 B04 B05 B06 B07 P01 P02 S01 S02 S03 S04 S05 S06 S07 M01 M02 M03 C01 H01 H02 D01 E01".split()

SWAPS = [
    (r"==", "!="), (r"!=", "=="), (r"(?<![<\-=])<(?![<=\w'])", "<="), (r"(?<![<\-=])<(?=\s)(?!=)", ">="), (r"(?<![>=\-])>(?=\s)(?![>=])", ">="),
    (r"<=", "<"), (r">=(?!=)", ">"), (r" \+ ", " - "), (r" - ", " + "), (r"&&", "||"), (r"\|\|(?= )", "&&"), (r" \* ", " / "),
    (r" / ", " * "), (r"<<", ">>"), (r">>(?= )", "<<"), (r" & ", " | "), (r" \| ", " & "), (r" % ", " / "), (r" \+= ", " -= "),
    (r" \^ ", " & "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bLeft\b", "Right"), (r"\bRight\b", "Left"),
    (r"\bleft", "right"), (r"\bright", "left"), (r"\blhs", "rhs"), (r"\brhs", "lhs"), (r"bytes_lo", "bytes_hi"), (r"bytes_hi", "bytes_lo"),
    (r"Prefix::Leaf", "Prefix::Node"), (r"Prefix::Node", "Prefix::Leaf"), (r"cmp::max", "cmp::min"), (r"\.rev\(\)", ""),
    (r"\bis_leaf\b", "is_node"), (r"\bis_node\b", "is_leaf"), (r"\.or\(", ".and("), (r"is_some", "is_none"), (r"is_none", "is_some"),
    (r"LoadError", "InvalidProofIndex"), (r"\.first\(\)", ".last()"), (r"\.next\(\)", ".last()"), (r"\bif (?!let)", "if !"), (r"\bif !", "if "),
    (r"trailing_zeros", "leading_zeros"), (r"leading_zeros", "trailing_zeros"), (r"to_be_bytes", "to_le_bytes"), (r"from_be_bytes", "from_le_bytes"),
    (r"\bfee\b", "height"), (r"\bNone\b", "Default::default()"), (r"path_node", "side_node"), (r"side_node", "path_node"),
    (r"\bcurrent\b", "next"), (r"\.unwrap\(\)\?", ".unwrap()"), (r"wrapping_|checked_", "saturating_"), (r"is_placeholder\(\)", "is_node()"),
    (r"\?;", ".ok();"), (r"!self\.", "self."), (r"height\(\)", "height() + 1"), (r"\.take\((\w+)\)", r".take(\1 + 1)"), (r"\.skip\((\w+)\)", r".skip(\1 + 1)"),
    (r"(?<![\w.])(\d+)(?=(u\d+|usize|i\d+)?\b)(?![.x])", "INC"), (r"(?<![\w.])([1-9]\d*)(?=(u\d+|usize|i\d+)?\b)(?![.x])", "DEC"),
]


def code_end(text):
    i = text.find("#[cfg(test)]")
    return i if i >= 0 else len(text)


def mutants(file):
    text = open("/repo/" + file).read()
    end = code_end(text)
    lines = text[:end].splitlines(keepends=True)
    seen, out = set(), []

    def add(new, what):
        if new != text and new not in seen:
            seen.add(new)
            out.append((f"{file}:{what}", new))

    at = 0
    for n, line in enumerate(lines, 1):
        s = line.strip()
        skip = not s or s.startswith(("//", "use ", "#[", "pub use", "mod ", "pub mod", "error(", "impl", "where")) or "-> " in s and "fn " in s
        if not skip:
            for pat, rep in SWAPS:
                for m in re.finditer(pat, line):
                    if "//" in line[:m.start()]:
                        continue
                    if rep == "INC":
                        r = str(int(m.group(1)) + 1)
                    elif rep == "DEC":
                        r = str(int(m.group(1)) - 1)
                    else:
                        r = m.expand(rep)
                    add(text[:at + m.start()] + r + text[at + m.end():], f"{n}: {s}   [{m.group(0)} -> {r}]")
            # statement deletion: from a line that starts one to its `;`
            k = n - 2
            while k >= 0 and (not lines[k].strip() or lines[k].strip().startswith("//")):
                k -= 1
            prev = lines[k].strip() if k >= 0 else "{"
            if prev.endswith(("{", ";", "}")) and not s.startswith(("let ", "}", "fn ", "pub ", "const ", "type ", "struct")):
                depth, j = 0, at
                while j < end:
                    c = text[j]
                    if c in "([{":
                        depth += 1
                    elif c in ")]}":
                        depth -= 1
                        if depth < 0:
                            break
                        if depth == 0 and c == "}" and s.startswith(("if ", "for ", "while ", "loop")) and not text[j + 1:j + 6].strip().startswith("else"):
                            j += 1
                            add(text[:at] + text[j:], f"{n}: {s}   [block deleted]")
                            break
                    elif c == ";" and depth == 0:
                        j += 1
                        add(text[:at] + text[j:], f"{n}: {s}   [statement deleted]")
                        break
                    j += 1
        at += len(line)
    return out


def main():
    base, slot, *rest = sys.argv[1:]
    slot, slots = (int(x) for x in slot.split("/"))
    pick = rest[0] if rest else ""
    d = f"{base}/{slot}"
    repo, har = d + "/repo", d + "/harness"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("target"))
    shutil.copytree("/verif/harness", har, ignore=shutil.ignore_patterns("target"))
    t = open(har + "/Cargo.toml").read().replace('"/repo', f'"{repo}')
    open(har + "/Cargo.toml", "w").write(t)
    log = open(f"{base}/{slot}.log", "a")

    def say(*a):
        print(*a, file=log, flush=True)

    env = dict(os.environ, CARGO_TARGET_DIR=d + "/target", CARGO_NET_OFFLINE="true")
    henv = dict(os.environ, CARGO_TARGET_DIR=d + "/htarget", CARGO_NET_OFFLINE="true")
    todo = []
    for f, which in FILES.items():
        if pick and not re.search(pick, f):
            continue
        todo += [(f, which, *m) for m in mutants(f)]
    # Mutants that an earlier run's logs (DONE=FILE:FILE) have judged.
    done = set()
    for f in filter(None, os.environ.get("DONE", "").split(":")):
        done |= {l[15:].rstrip("\n") for l in open(f) if not l.startswith("#")}
    todo = [t for t in todo if t[2] not in done][slot::slots]
    say(f"# {len(todo)} mutants")
    counts = {}
    for f, which, what, new in todo:
        old = open("/repo/" + f).read()
        open(f"{repo}/{f}", "w").write(new)
        verdict = one(repo, har, env, henv, d, which)
        open(f"{repo}/{f}", "w").write(old)
        counts[verdict.split()[0]] = counts.get(verdict.split()[0], 0) + 1
        say(f"{verdict:14} {what}")
    say("#", json.dumps(counts))


def run(cmd, cwd, env, limit):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit, start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-KILL", "-f", cwd + "/"], stdout=subprocess.DEVNULL)
        return "timeout", ""


def one(repo, har, env, henv, d, which):
    rc, out = run(["cargo", "test", "--workspace", "--offline", "-q", "--", "--test-threads", "4"], repo, env, 120)
    if rc != 0:
        return "nobuild" if "could not compile" in out else "tests"
    rc, out = run(["cargo", "build", "--offline", "--profile", "checked", "-q"], har, henv, 600)
    if rc != 0:
        return "harness?"
    props = [p for p in PROPS if which == "*" or p[0] in which or p[0] in "DE" and which != "H"]
    for p in props:
        rc, out = run([d + "/htarget/checked/fm-harness", "run", p, "--share", "0.15", "--enum-share", "0.2", "--threads", "4", "--watch", d, "--limit", "20"], d, henv, 240)
        if rc != 0:
            return "caught " + p
    return "SURVIVES"


main()
