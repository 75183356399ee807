#!/usr/bin/env python3
"""C29: builds mapping-algorithms in every feature configuration and runs the same bounded case space in each.

usage: features.py [--replay FILE]
"""
import hashlib, itertools, json, math, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.environ.get("VERIF_DIR", "/verif")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
PROBE = os.path.join(VERIF, "cfgprobe")
BUILD = os.path.join(VERIF, ".build", "cfg")
NAMES = ["std", "pregenerated", "tracing", "cuda"]
T0 = time.time()


def configurations():
    out = []
    for r in range(len(NAMES) + 1):
        for c in itertools.combinations(NAMES, r):
            # cuda only adds build dependencies: alone, with the defaults and with everything; in all combinations when thorough
            if "cuda" in c and TIER == "quick" and set(c) not in ({"cuda"}, {"std", "pregenerated", "cuda"}, set(NAMES)):
                continue
            out.append(c)
    return out


def label(c):
    return "+".join(c) or "none"


def sources():
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo/crates"):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    for p in ["/repo/Cargo.toml", "/repo/README.md"]:
        if os.path.exists(p):
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(job):
    """-> (configuration, path of the probe or None, build log)"""
    c, jobs = job
    target = os.path.join(BUILD, label(c))
    stamp = os.path.join(target, ".sources")
    now = sources()
    base = ["--offline", "--manifest-path", os.path.join(PROBE, "Cargo.toml")]
    env = dict(os.environ, CARGO_TARGET_DIR=target)
    if os.path.exists(stamp) and open(stamp).read() != now:
        subprocess.run(["cargo", "clean", "-q", *base, "-p", "mapping-algorithms"], env=env, capture_output=True)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    features = ["--no-default-features"] + (["--features", ",".join(c)] if c else [])
    r = subprocess.run(["cargo", "build", "-q", "-j", str(jobs), *base, *features], env=env, capture_output=True, text=True)
    exe = os.path.join(target, "debug", "cfgprobe")
    return c, (exe if r.returncode == 0 else None), r.stderr


def run(exe, *args):
    r = subprocess.run([exe, *args], capture_output=True, text=True, timeout=800)
    return r.returncode, r.stdout


def parse(text):
    blocks, errors, spans = [], {}, 0
    for l in text.splitlines():
        w = l.split("\t")
        if w[0] == "block":
            blocks.append((int(w[1]), w[2], int(w[3]), int(w[4]), w[5]))
        elif w[0] == "error":
            errors[w[1]] = w[2]
        elif w[0] == "spans":
            spans = int(w[1])
    return blocks, errors, spans


def same(a, b, tol):
    """two result lines, equal up to rounding of their numbers"""
    if a == b:
        return True
    x, y = a.split(), b.split()
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if u == v:
            continue
        if not (u.startswith("~") and v.startswith("~")):
            return False
        p, q = float(u[1:]), float(v[1:])
        if math.isnan(p) or math.isnan(q) or math.isinf(p) or math.isinf(q) or abs(p - q) > tol * max(10.0, abs(p), abs(q)):
            return False
    return True


class Violation(Exception):
    pass


# The explorers of the other properties, which compare with their own oracles, run in configurations of their own too:
# (features, most cases of a space, properties whose large spaces are few or cheap and stay)
EXPLORERS = {
    "kd": ["C01", "C02", "C03", "C04"], "clouds": ["C05", "C06", "C07", "C08"], "icp": ["C09", "C10", "C11", "C12", "C13", "C14", "C15"],
    "hull": ["C16", "C17", "C18", "C19"], "pip": ["C20", "C21", "C22", "C23"], "geo": ["C24", "C25"], "lines": ["C26", "C27"], "pregen": ["C28"],
    "special": ["C31", "C32"],
}
ELSEWHERE = [(("pregenerated",), 20_000), (("std", "pregenerated", "tracing"), 2_000)]
WHOLE = {"C09", "C24", "C25", "C31"}
LATEST = 480  # no further explorer is started after so many seconds (quick)


def build_explorers(c):
    """-> (directory of the explorers or None, build log)"""
    target = os.path.join(BUILD, "explorers", label(c))
    stamp = os.path.join(target, ".sources")
    now = sources()
    base = ["--offline", "--manifest-path", os.path.join(VERIF, "mc", "Cargo.toml")]
    env = dict(os.environ, CARGO_TARGET_DIR=target)
    if os.path.exists(stamp) and open(stamp).read() != now:
        subprocess.run(["cargo", "clean", "-q", *base, "-p", "mapping-algorithms"], env=env, capture_output=True)
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)
    bins = [x for b in EXPLORERS for x in ("--bin", b)]
    r = subprocess.run(["cargo", "build", "-q", *base, *bins, "--no-default-features", "--features", ",".join("lib-" + f for f in c)], env=env, capture_output=True, text=True)
    return (os.path.join(target, "debug") if r.returncode == 0 else None), r.stderr


def explore(where, b, prop, most):
    """-> (status, output, evidence) of one explorer"""
    home = os.path.join(where, "home")
    os.makedirs(home, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), home)
    env = dict(os.environ, VERIF_DIR=home)
    if prop not in WHOLE:
        env["MC_MAX_CASES"] = str(most)
    env["MC_BUDGET_S"] = "120"
    r = subprocess.run(["bash", "-c", 'ulimit -v 25165824; exec "$0" "$1"', os.path.join(where, b), prop], env=env, capture_output=True, text=True)
    try:
        e = json.load(open(os.path.join(home, "evidence", prop + ".json")))
    except (OSError, ValueError):
        e = {}
    return r.returncode, r.stdout + r.stderr, e


def explorers_elsewhere(report):
    """runs them; a violation counts here only if the default configuration does not show it as well"""
    default = ("std", "pregenerated")
    evaluations = 0
    for c, most in ELSEWHERE:
        where, log = build_explorers(c)
        if where is None:
            if build_explorers(default)[0] is None:
                print("\n".join(log.splitlines()[-40:]), file=sys.stderr)
                print("features.py: the explorers build in no configuration", file=sys.stderr)
                sys.exit(2)
            first = next((l for l in log.splitlines() if l.startswith("error")), "error")
            raise Violation(f"with features [{label(c)}] a user of the library does not build ({first}), while it does with [{label(default)}]")
        for b, props in EXPLORERS.items():
            for prop in props:
                if TIER == "quick" and time.time() - T0 > LATEST:
                    report.append({"configuration": label(c), "explorer_of": prop, "skipped": "out of time"})
                    continue
                cap = most if prop != "C14" else min(most, 1500)
                t = time.time()
                rc, out, e = explore(where, b, prop, cap)
                cov = e.get("coverage", {})
                evaluations += cov.get("evaluations", 0)
                report.append({"configuration": label(c), "explorer_of": prop, "evaluations": cov.get("evaluations", 0), "exhaustive": cov.get("exhaustive", False), "wall_s": round(time.time() - t, 1)})
                if rc == 0:
                    continue
                at_default, log = build_explorers(default)
                if at_default is not None and explore(at_default, b, prop, cap)[0] != 0:
                    report[-1]["also_in_the_default_configuration"] = True
                    continue
                if rc != 1:
                    print(out[-2000:], file=sys.stderr)
                    print(f"features.py: the explorer of {prop} in [{label(c)}] ended with status {rc}", file=sys.stderr)
                    sys.exit(2)
                what = " ".join(l for l in out.splitlines()[-4:] if "VIOLATION" not in l)
                raise Violation(f"with features [{label(c)}], and not with [{label(default)}], the explorer of {prop} finds: {what[:800]}")
    return evaluations


def main():
    os.makedirs(BUILD, exist_ok=True)
    confs = configurations()
    evaluations, distinct, samples, rounding = 0, 0, [], {}
    violation, elsewhere = None, []
    try:
        with ThreadPoolExecutor(8) as pool:
            built = list(pool.map(build, [(c, 2) for c in confs]))
        good = [(c, e) for c, e, _ in built if e]
        bad = [(c, log) for c, e, log in built if not e]
        if not good:
            print("\n".join(bad[0][1].splitlines()[-40:]), file=sys.stderr)
            print("features.py: the probe builds in no configuration", file=sys.stderr)
            return 2
        for c, log in bad:
            if "could not compile `mapping-algorithms`" in log or "could not compile `cfgprobe`" in log:
                first = next((l for l in log.splitlines() if l.startswith("error")), "error")
                who = "the library" if "could not compile `mapping-algorithms`" in log else "a user of the library"
                raise Violation(f"with features [{label(c)}] {who} does not build ({first}), while it does with [{label(good[0][0])}]")
            print("\n".join(log.splitlines()[-40:]), file=sys.stderr)
            print(f"features.py: building [{label(c)}] failed", file=sys.stderr)
            return 2
        with ThreadPoolExecutor(3) as pool:
            ran = list(pool.map(lambda g: (g[0], g[1], *run(g[1])), good))
        results = {}
        for c, exe, rc, text in ran:
            if rc != 0:
                raise Violation(f"with features [{label(c)}] the probe ends with status {rc}")
            results[c] = (exe, *parse(text))
        ref = ("std", "pregenerated")
        rexe, rblocks, rerrors, _ = results[ref]
        distinct = sum(b[3] for b in rblocks)
        for c, (exe, blocks, errors, spans) in results.items():
            evaluations += sum(b[2] for b in blocks)
            for a, b in zip(rblocks, blocks):
                if a[4] == b[4]:
                    continue
                tol = 1e-4 if a[1].startswith("f32") else 1e-9
                la, lb = run(rexe, "--dump", str(a[0]))[1].splitlines(), run(exe, "--dump", str(b[0]))[1].splitlines()
                if len(la) != len(lb):
                    raise Violation(f"block '{a[1]}': [{label(c)}] computes {len(lb)} cases, [{label(ref)}] {len(la)}")
                n = 0
                for i, (x, y) in enumerate(zip(la, lb)):
                    if x != y:
                        n += 1
                        if not same(x, y, tol):
                            raise Violation(f"block '{a[1]}' case {i}: with features [{label(c)}] {y.strip()[:500]}, with [{label(ref)}] {x.strip()[:500]}")
                rounding[f"{a[1]} in {label(c)}"] = n
            if "std" in c:
                for variant, message in errors.items():
                    evaluations += 1
                    if not message.strip():
                        raise Violation(f"with features [{label(c)}] ICPError::{variant} is no standard error with a message")
                if len(set(errors.values())) != len(errors):
                    raise Violation(f"with features [{label(c)}] two ICP errors have the same message: {errors}")
        for a in rblocks:
            line = run(rexe, "--dump", str(a[0]))[1].splitlines()
            samples.append({"block": a[1], "case": a[2] // 2, "result": line[a[2] // 2].strip()[:300]})
        evaluations += explorers_elsewhere(elsewhere)
    except Violation as v:
        violation = str(v)
    spaces = [{"configuration": label(c), "builds": bool(e)} for c, e, _ in built]
    evidence = {
        "property": "C29", "tier": TIER, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": "every case of a bounded space over all public functions, in every feature configuration built; compared case by case with the default configuration, exactly or (numbers) up to rounding; then the explorers of the other properties, without their largest spaces, in two further configurations against their own oracles; non-trivial: distinct results of a block in the default configuration",
            "exhaustive": violation is None and all(e.get("exhaustive") for e in elsewhere), "configurations": spaces, "explorers_in_other_configurations": elsewhere, "cases_equal_up_to_rounding_only": rounding,
            "samples": samples or [{"configurations": [label(c) for c in confs]}],
        },
        "assumptions": ["without the standard library, the library is compiled as no_std for this (hosted) target; its dependencies take their features from the same configuration"],
        "wall_s": round(time.time() - T0, 3), "violations": int(violation is not None),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "C29.json"), "w") as f:
        json.dump(evidence, f)
        f.write("\n")
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "C29.json")
        with open(path, "w") as f:
            json.dump({"property": "C29", "tier": TIER, "failure": violation}, f)
            f.write("\n")
        print(violation)
        print(f"VIOLATION property=C29 replay={path}")
        return 1
    print(f"C29 held: {len(confs)} configurations, {evaluations} evaluations, rounding only: {rounding}, {time.time() - T0:.1f}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
