#!/usr/bin/env python3
"""Decides one property: builds its harness against /repo's working tree, explores, and reports.

usage: run.py <property> [--tier quick|thorough] [--only SCENARIO] [--deadline S]
       run.py --replay replay/<file>.json
Exit 0: the property held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed.
"""
import glob, json, os, subprocess, sys, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/source"
sys.path.insert(0, VERIF)
from checks.table import CHECKS, FLAVORS  # noqa: E402

# Sources that need headers which are not on this machine (dr_wav.h, Iir.h: stand-ins in stubs); checks that need them say so ('all').
UNBUILDABLE = {"WavParser.cpp", "Filterbank.cpp", "PcmEncoder.cpp"}
MODULES = {
    "types": "Types", "tools": "Tools", "io": "IOHaptics", "spiht": "Spiht", "filterbank": "FilterBank",
    "wavdec": "WaveletDecoder", "encoder": "Encoder", "synth": "Synthesizer", "psycho": "PsychohapticModel",
}


def module_sources(mod, all_of_them=False):
    """Sources of one module; 'io:IOBinary' narrows it to files with that prefix (plus any file not known)."""
    res = []
    name, _, skip = mod.partition("!")
    skipped = set(skip.split(",")) if skip else set()
    for f in sorted(glob.glob(f"{SRC}/{MODULES[name]}/src/**/*.cpp", recursive=True)):
        b = os.path.basename(f)
        if (b in UNBUILDABLE and not all_of_them) or b == "main.cpp" or b in skipped:
            continue
        res.append(f)
    return res


def build(pid, cfg):
    flavor = cfg.get("flavor", "asan")
    out = f"{VERIF}/build/{flavor}"
    os.makedirs(out, exist_ok=True)
    flags = FLAVORS[flavor]
    base = (f"-std=gnu++17 {flags} -include cstdint -I/opt/vp/deps/rapidjson-shim -I{SRC} -I{VERIF}/mc -I{VERIF}/checks "
            f"-I{VERIF}/stubs '-DJSON_SCHEMA_PATH=\"{REPO}/_build/_deps/hjif_specs-src/Specifications\"' -w -pthread")
    srcs = []
    for m in cfg["modules"]:
        srcs += module_sources(m, cfg.get("all", False))
    own = [f"{VERIF}/mc/mc.cpp"] + [f"{VERIF}/checks/{h}" for h in cfg["sources"]]
    lines = [f"builddir = {out}", f"cxx = g++", f"base = {base}", "",
             "rule cc", "  command = $cxx $base $extra -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "",
             "rule ld", "  command = $cxx $base $in -o $out -lpugixml", ""]
    objs = []
    for s in srcs:
        rel = os.path.relpath(s, SRC)
        o = f"{out}/repo/{rel}.o"
        lines.append(f"build {o}: cc {s}")
        objs.append(o)
    for tool in cfg.get("mains", []):
        o = f"{out}/repo/{tool}/{tool}_main.{pid}.o"
        lines.append(f"build {o}: cc {SRC}/{tool}/src/main.cpp")
        lines.append(f"  extra = -Dmain={tool}_main -Dhelp={tool}_help")
        objs.append(o)
    for s in own:
        o = f"{out}/own/{os.path.basename(s)}.o"
        lines.append(f"build {o}: cc {s}")
        objs.append(o)
    exe = f"{out}/{pid}"
    lines.append(f"build {exe}: ld {' '.join(objs)}")
    nf = f"{out}/{pid}.ninja"
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-j", "8", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"check error: {pid} does not build")
        sys.exit(2)
    return exe


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


def known_findings():
    res = []
    p = f"{VERIF}/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            body = line[len("finding:"):].strip()
            d = {}
            for part in body.split(" ", 2):
                k, _, v = part.partition("=")
                d[k] = v
            res.append(d)
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        rp = json.load(open(args[1]))
        exe = build(rp["property"], CHECKS[rp["property"]])
        r = subprocess.run([exe, "--replay", rp["scenario"], ",".join(map(str, rp["choices"]))], env=env())
        sys.exit(1 if r.returncode == 1 else 0 if r.returncode == 0 else 2)
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, deadline = "", None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--only":
            only = args[i + 1]
        elif args[i] == "--deadline":
            deadline = float(args[i + 1])
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    exe = build(pid, cfg)
    t_build = time.time() - t0
    if deadline is None:
        deadline = cfg.get("deadline_" + tier, 300 if tier == "quick" else 3000)
    rep = f"{VERIF}/build/{pid}.report.json"
    if os.path.exists(rep):
        os.remove(rep)
    cmd = [exe, "--tier", tier, "--workers", str(os.cpu_count() or 4), "--deadline", str(deadline), "--report", rep]
    if only:
        cmd += ["--only", only]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(rep):
        print(r.stdout[-3000:])
        print(f"check error: {pid} explorer gave no report (status {r.returncode})")
        sys.exit(2)
    # Generated strings can hold any byte.
    d = json.loads(open(rep, encoding="latin-1").read())
    known = {(k.get("key")): k for k in known_findings() if k.get("property") == pid}
    violations, flaky = [], []
    seen_known = {}
    for f in d["found"]:
        ident = f["scenario"] + "|" + f["key"]
        if ident in known:
            seen_known[ident] = f
            continue
        if not f["reproduced"]:
            flaky.append(f)
            continue
        violations.append(f)
    os.makedirs(f"{VERIF}/replay", exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    for old in glob.glob(f"{VERIF}/replay/{pid}-*.json"):
        os.remove(old)
    cov = {
        "states": d["states"], "transitions": d["transitions"],
        "traces_validated_against_impl": d["evaluations"],
        "evaluations": d["evaluations"], "choices_made": d["choices"], "max_choice_depth": d["max_depth"],
        "scenarios": d["scenarios"], "samples": d["samples"],
        "exhaustive": not d["truncated"] and not only,
        "truncated_scenarios": d["truncated"],
        "bounds": cfg.get("bounds", ""), "build_s": round(t_build, 2),
        "note": "every explored execution runs the real code; states = distinct canonical results observed, "
                "transitions = operations performed on the real code",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier}: {d['evaluations']} executions, {d['states']} distinct results, {d['transitions']} operations, "
          f"build {t_build:.1f}s explore {d['wall']:.1f}s" + (f" TRUNCATED {d['truncated']}" if d["truncated"] else ""))
    for ident, f in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {ident} {known[ident].get('what', '')} (x{f['count']})")
    for f in flaky:
        print(f"check error: not reproduced when replayed: {f['scenario']} {f['key']} {f['choices']}\n{f['message'][:1500]}")
    for n, f in enumerate(violations):
        path = f"replay/{pid}-{n}.json"
        json.dump({"property": pid, "scenario": f["scenario"], "choices": f["choices"], "key": f["key"],
                   "message": f["message"]}, open(f"{VERIF}/{path}", "w"), indent=1)
        if n < 12:
            print(f"--- {f['scenario']} key={f['key']} (x{f['count']}) choices={f['choices']}\n{f['message'][:1600]}")
        print(f"VIOLATION property={pid} replay={path}")
    if violations:
        sys.exit(1)
    if flaky or not d["evaluations"]:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except BrokenPipeError:
        os._exit(2)
