#!/usr/bin/env python3
"""Development tool (no check uses it): random operator-level mutants of /repo's
sources, to find what the checks miss.

usage: mutate.py WORKER COUNT SEED [FILE...]   (works in /tmp/mut/WORKER)

Prints one line per mutant: caught by which check, or SURVIVED with its diff.
"""
import os, random, re, shutil, subprocess, sys

C = "include/ygopen/client/"
FILES = {
    C + "frame.hpp": ["C01", "C03", "C02", "C04"],
    C + "frame_limbo.hpp": ["C04", "C02", "C01", "C03"],
    C + "parse_event.hpp": ["C05", "C06"],
    C + "undo_parse_event.hpp": ["C06"],
    C + "parse_query.hpp": ["C07"],
    C + "default_card_traits.hpp": ["C07"],
    C + "card.hpp": ["C07"],
    C + "board.hpp": ["C05"],
    C + "undoable.hpp": ["C19", "C06"],
    "include/ygopen/server/basic_encode_context.hpp": ["C22", "C12"],
    "include/ygopen/server/room.hpp": ["C15", "C16", "C17", "C18"],
    "include/ygopen/bit.hpp": ["C20"],
    "include/ygopen/proto/duel/data.hpp": ["C21"],
    "include/ygopen/duel/constants/location.hpp": ["C21", "C01"],
    "src/codec/edo9300_ocgcore_encode.cpp":
        ["C09", "C10", "C11", "C08", "C12", "C14", "C13"],
    "src/codec/edo9300_ocgcore_decode.cpp": ["C13"],
}
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "),
    (r" <= ", " < "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+ ", " - "), (r" - ", " + "), (r"\+\+", "--"), (r" \| ", " & "),
    (r" & ", " | "), (r" << ", " >> "), (r" >> ", " << "), (r" \+= ", " = "),
    (r" \|= ", " = "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0U\b", "1U"), (r"\b1U\b", "0U"), (r"\b1\b", "2"), (r"\b0\b", "1"),
    (r"!(?=[a-z(])", ""), (r"\bif\((?!constexpr)", "if(!("),
    (r"uint64_t", "uint32_t"), (r"uint32_t", "uint16_t"),
    (r"int32_t", "int16_t"), (r"uint16_t", "uint8_t"), (r"int64_t", "int32_t"),
    (r"\bfrom\b", "to"), (r"\bto\b", "from"), (r"\bp1\b", "p2"),
    (r"\bz1\b", "z2"), (r"\bz2\b", "z1"), (r"\bza\b", "zb"), (r"\bzb\b", "za"),
    (r"\bprev\b", "curr"), (r"\bcurr\b", "prev"), (r"team0", "team1"),
    (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bi\b", "j"), (r"\bCSeq\b", "CSCount"),
    (r"\bCSLoc\b", "CSSeq"), (r"\bCSPos\b", "uint8_t"), (r"\bCSCon\b", "CSLoc"),
    (r"CONTROLLER_0", "CONTROLLER_1"), (r"CONTROLLER_1", "CONTROLLER_0"),
    (r"\breverse\(", "("), (r"\bbegin\(\)", "end()"), (r"first", "second"),
    (r"\.back\(\)", ".front()"), (r"\.front\(\)", ".back()"),
    (r"push_back", "pop_back"), (r"con\b", "1U - con"),
    (r"min\(", "max("), (r"max\(", "min("), (r"seq\(\)", "oseq()"),
    (r"\.seq\b", ".oseq"), (r"set_seq", "set_oseq"),
    ("DELETE", ""), ("SWAPLINES", ""),
]
if os.environ.get("RARE"):
    OPS = [("RARE", "")]
# Statements skipped under a condition that seldom holds.
RARE = ["%s == 3", "%s == 5", "%s > 9", "%s > 40", "%s %% 8 == 7", "%s & 0x80",
        "%s >= 0x100", "%s >= 0x10000", "%s == 0", "%s.size() == 3",
        "%s.size() > 9", "%s.size() > 40", "%s.empty()"]


def mutants(text, rnd):
    lines = text.split("\n")
    start = next(i for i, l in enumerate(lines) if l.startswith("namespace"))
    for _ in range(3000):
        i = rnd.randrange(start, len(lines))
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(("//", "*", "#", "assert", "static_assert",
                                  "using", "template", "namespace")):
            continue
        pat, rep = rnd.choice(OPS)
        new = list(lines)
        if pat == "DELETE":
            if not s.endswith(";") or rnd.random() < 0.3:
                continue
            new[i] = re.match(r"\s*", l).group(0) + ";"
        elif pat == "RARE":
            if not s.endswith(";") or s.startswith(("return", "case", "}", "requires", "break")):
                continue
            if s.count("(") != s.count(")"):
                continue
            ids = set(re.findall(r"(?<![\w:.>])[a-z]\w*(?:\.[a-z_]+\(\))?",
                                 "\n".join(lines[max(start, i - 8):i + 1])))
            ids -= {"auto", "const", "if", "for", "else", "return", "constexpr",
                    "noexcept", "std", "template", "typename", "case", "void"}
            if not ids:
                continue
            c = rnd.choice(RARE) % rnd.choice(sorted(ids))
            new[i] = re.match(r"\s*", l).group(0) + "if(!(" + c + ")) " + s
        elif pat == "SWAPLINES":
            if not s.endswith(";") or not lines[i + 1].strip().endswith(";"):
                continue
            new[i], new[i + 1] = lines[i + 1], l
        else:
            m = list(re.finditer(pat, l.split("//")[0]))
            if not m:
                continue
            k = rnd.choice(m)
            new[i] = l[:k.start()] + rep + l[k.end():]
            if rep == "if(!(":
                if not l.rstrip().endswith(")"):
                    continue
                new[i] = new[i].rstrip() + ")"
        if new[i] == l and pat != "SWAPLINES":
            continue
        yield i, "\n".join(new), l.strip() + "  =>  " + new[i].strip()


def main():
    worker, count, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    only = sys.argv[4:]
    base = "/tmp/mut/" + worker
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.check_call(["git", "clone", "-q", "/verif", base + "/verif"])
    repo = base + "/repo"
    shutil.copytree("/repo", repo, symlinks=True,
                    ignore=shutil.ignore_patterns(".git", "_build"))
    env = dict(os.environ, VERIF_REPO=repo)
    rnd = random.Random(seed)
    files = [f for f in FILES if not only or any(o in f for o in only)]
    size = [len(open(repo + "/" + f).read()) ** 0.5 for f in files]
    seen = set()
    n = 0
    while n < count:
        f = rnd.choices(files, size)[0]
        path = repo + "/" + f
        orig = open("/repo/" + f).read()
        i, text, what = next(mutants(orig, rnd), (0, orig, ""))
        if not what or (f, i, what) in seen:
            continue
        seen.add((f, i, what))
        open(path, "w").write(text)
        verdict = "SURVIVED"
        for p in FILES[f]:
            try:
                r = subprocess.run([sys.executable, base + "/verif/run.py", p,
                                    "--scale", os.environ.get("SCALE", "0.5")],
                                   env=env, timeout=600,
                                   stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT)
            except subprocess.TimeoutExpired:
                verdict = "timeout " + p
                break
            out = r.stdout.decode(errors="replace")
            if r.returncode == 1:
                verdict = "caught " + p
                break
            if r.returncode != 0:
                verdict = "invalid" if "BUILD ERROR" in out else "error " + p
                break
        open(path, "w").write(orig)
        if verdict != "invalid":
            n += 1
            print("%s %s:%d %s" % (verdict, os.path.basename(f), i + 1, what),
                  flush=True)
            subprocess.run("find %s/verif/build -mmin +20 -name '*.o' ! -name "
                           "'*pb_cc*' -delete; find %s/verif/build -mmin +20 "
                           "-name 'check-*' -delete" % (base, base), shell=True)
    shutil.rmtree(base)


main()
