#!/usr/bin/env python3
"""Builds and runs the check of one property against /repo's working tree.

usage: run.py ID [--tier quick|thorough] [--seed N] [--scale X]
              [--replay FILE] [--build-only]

VERIF_SEED and VERIF_TIER give the seed and tier when the options don't.
Exit status: 0 held on everything explored, 1 violated, 2 error of the check.
"""
import argparse
import concurrent.futures
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
PROTO_DIR = os.path.join(REPO, "include/ygopen/proto")

# Property -> harness source (without .cpp) and the objects it needs.
PROPS = json.load(open(os.path.join(HARNESS, "properties.json")))

SAN = [
    "-fsanitize=address,undefined",
    "-fno-sanitize=alignment,pointer-overflow,nonnull-attribute,"
    "returns-nonnull-attribute,vptr,function,enum",
    "-fno-sanitize-recover=all",
    "-fno-omit-frame-pointer",
]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
COV = [
    "-fsanitize-coverage=inline-8bit-counters,trace-cmp",
    "-fsanitize-coverage-allowlist=" + os.path.join(HARNESS, "coverage.txt"),
]
BASE = ["-std=c++17", "-O1", "-gline-tables-only", "-include", "array",
        "-ftrivial-auto-var-init=pattern", "-Wno-everything"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, subdirs, files in os.walk(d):
            subdirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write("BUILD ERROR in %s\n%s\n%s\n" % (
            what, " ".join(cmd), r.stdout.decode(errors="replace")[:3000]))
        raise SystemExit(2)


def prune(limit_bytes=1500 << 20):
    entries = []
    for name in os.listdir(BUILD):
        p = os.path.join(BUILD, name)
        if name == "lock":
            continue
        size = 0
        if os.path.isdir(p):
            for root, _, files in os.walk(p):
                size += sum(os.path.getsize(os.path.join(root, f))
                            for f in files)
        else:
            size = os.path.getsize(p)
        entries.append((os.path.getmtime(p), size, p))
    total = sum(e[1] for e in entries)
    for mtime, size, p in sorted(entries):
        if total <= limit_bytes or time.time() - mtime < 1800:
            break
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        total -= size


def build(props):
    """Returns {property: executable}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(props)


def build_locked(props):
    prune()
    protoc_ver = subprocess.check_output(["protoc", "--version"])
    protos = sorted(f for f in os.listdir(PROTO_DIR) if f.endswith(".proto"))
    proto_hash = sha(protoc_ver, *[open(os.path.join(PROTO_DIR, f), "rb").read()
                                   for f in protos], *protos)
    gen = os.path.join(BUILD, "gen-" + proto_hash)
    if not os.path.exists(os.path.join(gen, "done")):
        shutil.rmtree(gen, ignore_errors=True)
        os.makedirs(gen)
        run(["protoc", "--proto_path=" + PROTO_DIR, "--cpp_out=" + gen] +
            protos, "protoc")
        open(os.path.join(gen, "done"), "w").close()
    os.utime(gen)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + gen, "-I" + HARNESS]
    repo_hash = tree_hash(os.path.join(REPO, "include"))
    harness_hash = sha(*[open(os.path.join(HARNESS, f), "rb").read()
                         for f in sorted(os.listdir(HARNESS))
                         if f.endswith((".hpp", ".txt"))])
    jobs = {}

    def obj(src, flags, *deps):
        text = open(src, "rb").read()
        key = sha(text, " ".join(flags), *deps)
        out = os.path.join(
            BUILD, os.path.basename(src).replace(".", "_") + "-" + key + ".o")
        if os.path.exists(out):
            os.utime(out)
        else:
            jobs[out] = [CXX] + flags + ["-c", src, "-o", out + ".tmp"]
        return out

    def pb(flags):
        return [obj(os.path.join(gen, f[:-6] + ".pb.cc"),
                    ["-std=c++17", "-O1", "-w", "-I" + gen] + flags,
                    proto_hash) for f in protos]

    codec_dir = os.path.join(REPO, "src/codec")
    codec_hash = tree_hash(codec_dir)
    exes = {}
    for p in props:
        spec = PROPS[p]
        # Races are looked for with ThreadSanitizer (in all the code: it has
        # to see what orders things), the rest with the others.
        races = "with" in spec
        san = TSAN if races else SAN
        flags = BASE + san + inc + ["-D_GLIBCXX_ASSERTIONS"]
        if not races:
            flags += COV
        deps = (repo_hash, harness_hash, proto_hash)
        objs = [obj(os.path.join(HARNESS, spec["harness"] + ".cpp"), flags,
                    *deps)]
        objs += [obj(os.path.join(HARNESS, h + ".cpp"),
                     flags + ["-DPBT_PROPERTIES=%s_properties" % h], *deps)
                 for h in spec.get("with", [])]
        if spec.get("codec"):
            for f in sorted(os.listdir(codec_dir)):
                if f.endswith(".cpp"):
                    objs.append(obj(os.path.join(codec_dir, f), flags,
                                    repo_hash, codec_hash, proto_hash))
        objs.append(obj(os.path.join(HARNESS, "engine.cpp"),
                        BASE + san + ["-I" + HARNESS], harness_hash))
        objs += pb(TSAN if races else [])
        exe = os.path.join(BUILD, "check-%s-%s" % (
            spec["harness"], sha(*objs)))
        exes[p] = (exe, objs, san)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        def compile_one(item):
            out, cmd = item
            run(cmd, out)
            os.rename(out + ".tmp", out)
        # Slowest first.
        list(ex.map(compile_one, sorted(
            jobs.items(), key=lambda j: "/gen-" in j[1][-3])))

        def link(item):
            exe, (objs, san) = item
            if os.path.exists(exe):
                os.utime(exe)
                return
            run([CXX] + san + objs + ["-lprotobuf", "-lpthread", "-o",
                                      exe + ".tmp"], exe)
            os.rename(exe + ".tmp", exe)
        list(ex.map(link, {e: (o, s) for e, o, s in exes.values()}.items()))
    return {p: x[0] for p, x in exes.items()}


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", default="1")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.property == "all" and a.build_only:
        build(sorted(PROPS))
        return 0
    prop = a.property
    if prop not in PROPS:
        sys.stderr.write("unknown property %s\n" % prop)
        return 2
    try:
        seed = int(a.seed) & ((1 << 63) - 1)
    except ValueError:
        seed = int(sha(a.seed)[:15], 16)
    start = time.time()
    exe = build([prop])[prop]
    if a.build_only:
        return 0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=66:"
                           "handle_abort=1:allocator_may_return_null=0:"
                           "max_allocation_size_mb=1024:quarantine_size_mb=16:"
                           "max_malloc_fill_size=4096:malloc_fill_byte=190:"
                           "detect_stack_use_after_return=0"
                           + ("" if a.replay else ":malloc_context_size=0"))
    env["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:report_bugs=1:"
                           "report_signal_unsafe=0"
                           + ("" if a.replay else ":symbolize=0"))
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    try:
        if a.replay:
            r = subprocess.run([exe, "--property", prop, "--tmp", tmp,
                                "--replay", a.replay], env=env)
            return r.returncode
        replay_dir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(replay_dir, exist_ok=True)
        replay = os.path.join(replay_dir, "%s-seed%d.replay" % (prop, seed))
        if os.path.exists(replay):
            os.remove(replay)
        out = os.path.join(tmp, "result.json")
        cmd = [exe, "--property", prop, "--seed", str(seed), "--scale",
               a.scale, "--tmp", tmp, "--out", out, "--replay-out", replay]
        thorough = a.tier == "thorough"
        if thorough:
            cmd += ["--thorough", "--time-cap", "780"]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE)
        sys.stdout.write(r.stdout.decode(errors="replace"))
        if r.returncode not in (0, 1) or not os.path.exists(out):
            sys.stderr.write("check %s ended with %d\n" % (prop, r.returncode))
            return 2
        res = json.load(open(out))
        violated = r.returncode == 1
        coverage = {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": res["rule"],
            "samples": res["samples"] or [res["what"] or "none"],
            "nontrivial": res["nontrivial"],
            "cases_planned": res["cases_planned"],
            "classes": res["labels"],
            "operation_counts": res["counters"],
            "coverage_guided_corpus": res["corpus"],
            "search_s": round(res["wall_s"], 2),
        }
        evidence = {
            "property": prop,
            "tier": "thorough" if thorough else "quick",
            "seed": seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": PROPS[prop].get("assumptions", []),
            "wall_s": round(time.time() - start, 2),
            "violations": 1 if violated else 0,
        }
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k)
        if violated:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
            prop, res["evaluations"], res["distinct_nontrivial"],
            time.time() - start))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
