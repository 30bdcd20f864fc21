#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py PROPERTY [--tier quick|thorough]   explore seeded simulated runs (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE [--verbose]          re-run a reported history exactly
  check.py --setup                            build every simulator
Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: the check failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
sys.path.insert(0, VERIF)
from components import COMPONENTS, PROPERTIES, BUILDS

SAN_ENV = {"ASAN_OPTIONS": "symbolize=0:detect_leaks=0:exitcode=43", "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=43"}
JOBS = os.cpu_count() or 4


def fail(message):
    """No answer: neither exit status 0 nor 1."""
    print(message, flush=True)
    os._exit(2)


def tree_hash(component, build):
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, "include")):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    files += [os.path.join(VERIF, "sim", n) for n in sorted(os.listdir(os.path.join(VERIF, "sim")))
              if n in ("sim.hpp", "sim.cpp", component + ".cpp") or n.endswith(".inc.hpp")]
    h.update(" ".join(BUILDS[build]["cxx"]).encode())
    for f in files:
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build(component, build_name):
    out_dir = os.path.join(VERIF, "build")
    os.makedirs(out_dir, exist_ok=True)
    exe = os.path.join(out_dir, f"{component}.{build_name}.{tree_hash(component, build_name)}")
    if os.path.exists(exe):
        return exe, [u for u in COMPONENTS[component].get("uses", []) if os.path.exists(f"{exe}.{u['macro']}")]
    for old in os.listdir(out_dir):          # builds of other trees are of no further use
        if old.startswith(f"{component}.{build_name}."):
            try:
                os.unlink(os.path.join(out_dir, old))
            except OSError:
                pass
    tmp = f"{exe}.tmp{os.getpid()}"
    cmd = BUILDS[build_name]["cxx"] + ["-I" + os.path.join(REPO, "include"),
           os.path.join(VERIF, "sim", component + ".cpp"), os.path.join(VERIF, "sim", "sim.cpp"), "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    broken = []
    if r.returncode != 0:
        # Uses of the interface that did not compile before they were repaired: simulate without them.
        broken = [u for u in COMPONENTS[component].get("uses", []) if compile_use(u["file"], build_name).returncode != 0]
        if broken:
            r = subprocess.run(cmd + ["-D" + u["macro"] for u in broken], capture_output=True, text=True)
    if r.returncode != 0 and rejected_by_interface(component, build_name):
        # The simulator only uses the documented interface: calls that are no longer accepted break every history made of them.
        return None, [{"property": None, "component": component, "what": first_error(r.stderr)}]
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        fail(f"error: {component} ({build_name}) does not build against {REPO}/include")
    for u in broken:
        open(f"{exe}.{u['macro']}", "w").close()
    os.replace(tmp, exe)
    return exe, broken


def compile_use(name, build_name):
    return subprocess.run(BUILDS[build_name]["cxx"] + ["-fsyntax-only", "-I" + os.path.join(REPO, "include"), os.path.join(VERIF, "sim", "uses", name)],
                          capture_output=True, text=True)


def first_error(text):
    for line in text.splitlines():
        if " error: " in line:
            return re.sub(r"^.*/(include|verif)/", "", line)
    return "no diagnostic"


def rejected_by_interface(component, build_name):
    """True when the compiler itself rejects the simulator's use of the headers, which do compile on their own."""
    src = os.path.join(VERIF, "sim", component + ".cpp")
    base = BUILDS[build_name]["cxx"] + ["-fsyntax-only", "-I" + os.path.join(REPO, "include"), "-x", "c++"]
    r = subprocess.run(base + [src], capture_output=True, text=True)
    if r.returncode == 0 or " error: " not in r.stderr or re.search(r"internal compiler error|Killed|No space left|out of memory|No such file", r.stderr):
        return False
    includes, pending = [], [src]
    while pending:
        for line in open(pending.pop(), encoding="utf-8"):
            m = re.match(r'#include\s+([<"])([^>"]+)[>"]', line)
            if not m:
                continue
            if m.group(1) == "<":
                includes.append(f"#include <{m.group(2)}>\n")
            elif m.group(2) != "sim.hpp":
                pending.append(os.path.join(VERIF, "sim", m.group(2)))
    r = subprocess.run(base + ["-"], input="".join(includes) + "int main() {}\n", capture_output=True, text=True)
    return r.returncode == 0


def build_all(pairs):
    with ThreadPoolExecutor(max_workers=JOBS) as ex:
        return list(ex.map(lambda p: build(*p), pairs))


def run_env(tmp):
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["SIM_TMP"] = tmp
    return env


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) replay=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"replay": m.group(2), "class": m.group(3), "what": m.group(4)})
    return out


def replay_file(path, verbose=False):
    meta = {}
    for line in open(path, encoding="utf-8"):
        parts = line.split("#")[0].split(None, 1)
        if len(parts) == 2 and parts[0] in ("component", "build", "property", "class", "use"):
            meta[parts[0]] = parts[1].strip()
    if "use" in meta:
        r = compile_use(meta["use"], meta["build"])
        r.stdout = "".join(l + "\n" for l in r.stderr.splitlines() if "error" in l) + f"{meta['use']} {'does not compile' if r.returncode else 'compiles'}\n"
        r.returncode = 1 if r.returncode else 0
        return meta, r
    exe, broken = build(meta["component"], meta["build"])
    if meta.get("class") == "does-not-compile":
        return meta, subprocess.CompletedProcess([], 0 if exe else 1, stdout=f"the simulator {'compiles' if exe else 'does not compile: ' + broken[0]['what']}\n", stderr="")
    if not exe:
        fail(f"error: {meta['component']} ({meta['build']}) does not build: {broken[0]['what']}")
    with tempfile.TemporaryDirectory() as tmp:
        env = run_env(tmp)
        if verbose:
            env["SIM_VERBOSE"] = "1"
        r = subprocess.run([exe, "replay", "--file", path], capture_output=True, text=True, env=env, errors="replace")
    return meta, r


def decide(prop, tier, seed):
    t0 = time.time()
    comp = PROPERTIES[prop]["component"]
    spec = COMPONENTS[comp]
    builds = spec["builds"]
    exes = build_all([(comp, b) for b in builds])
    build_s = time.time() - t0
    parts, violation, error = [], None, None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for b, (exe, broken) in zip(builds, exes):
        if not exe:
            rep = os.path.join(VERIF, "replays", f"{prop}-{b}-build.replay")
            with open(rep, "w") as f:
                f.write(f"# calls of the public interface do not compile; check it with: python3 /verif/check.py --replay <this file>\n# {broken[0]['what']}\ncomponent {comp}\nbuild {b}\nproperty {prop}\nclass does-not-compile\n")
            violation = {"class": "does-not-compile", "message": "a call of the public interface which a history is made of is rejected: " + broken[0]["what"], "build": b, "replay": rep, "seed": seed, "run": 0,
                         "variant": f"compilation of sim/{comp}.cpp", "ops_before": 1, "ops_after": 1, "plan": broken[0]["what"]}
            break
        for u in broken:
            if u["property"] == prop and not violation:
                rep = os.path.join(VERIF, "replays", f"{prop}-{b}-use.replay")
                with open(rep, "w") as f:
                    f.write(f"# {u['what']}; check it with: python3 /verif/check.py --replay <this file>\ncomponent {comp}\nbuild {b}\nproperty {prop}\nclass does-not-compile\nuse {u['file']}\n")
                violation = {"class": "does-not-compile", "message": u["what"], "build": b, "replay": rep, "seed": seed, "run": 0, "variant": "compilation of sim/uses/" + u["file"],
                             "ops_before": 1, "ops_after": 1, "plan": open(os.path.join(VERIF, "sim", "uses", u["file"])).read()}
        if violation:
            break
        runs = spec["runs"][tier][b]
        limit = spec.get("time", {"quick": 60, "thorough": 900})[tier]
        first, done_time = 0, 0.0
        for attempt in range(6):
            with tempfile.TemporaryDirectory() as tmp:
                out = os.path.join(tmp, "out.json")
                rep = os.path.join(VERIF, "replays", f"{prop}-{b}.replay")
                r = subprocess.run([exe, "explore", "--prop", prop, "--seed", str(seed), "--runs", str(runs - first), "--first", str(first),
                                    "--self-test", "0" if attempt > 1 else "1", "--time", str(max(5.0, limit - done_time)), "--jobs", str(JOBS), "--out", out, "--replay-out", rep, "--build", b],
                                   env=run_env(tmp), capture_output=True, text=True, errors="replace")
                try:
                    part = json.load(open(out))
                except Exception as e:
                    fail(f"error: simulator {comp}/{b} ended with {r.returncode} and no report ({e}): {r.stderr[-2000:]}")
            parts.append(part)
            done_time += part["explore_s"]
            if r.returncode == 3:
                # A failing run that does not repeat identically alone: look for one that does.
                error = part.get("error", "unknown")
                m = re.match(r"run (\d+) ", error)
                if not m:
                    break
                first = int(m.group(1)) + 1
                if first >= runs:
                    break
                continue
            break
        if r.returncode == 1:
            v = part["violation"]
            meta, rr = replay_file(rep)
            if rr.returncode != 1:
                error = f"the reported history did not replay identically: {rr.stdout}"
                continue
            violation = dict(v, build=b, replay=rep)
            break
        if r.returncode not in (0, 3):
            fail(f"error: simulator {comp}/{b} ended with {r.returncode}: {r.stderr[-2000:]}")
    write_evidence(prop, tier, seed, parts, violation, time.time() - t0, build_s)
    known_hit = []
    for k in known_findings(prop):
        meta, rr = replay_file(os.path.join(VERIF, k["replay"]))
        if rr.returncode == 1:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violation:
        print(f"{prop} {violation['class']}: {violation['message']}")
        print(f"  component {comp} [{violation['variant']}], build {violation['build']}, seed {violation['seed']}, run {violation['run']}, minimised from {violation['ops_before']} to {violation['ops_after']} operations")
        print("  " + violation["plan"].replace("\n", "\n  ").rstrip())
        print(f"VIOLATION property={prop} replay={violation['replay']}")
        return 1
    if error:
        print(f"error: {error}")
        return 2
    n = sum(p["runs"] for p in parts)
    print(f"{prop}: held on {n} simulated runs ({', '.join(b for b in builds)}), seed {seed}, {time.time() - t0:.0f} s")
    return 0


def write_evidence(prop, tier, seed, parts, violation, wall, build_s):
    comp = PROPERTIES[prop]["component"]
    spec = COMPONENTS[comp]
    counters = {}
    for p in parts:
        for k, v in p["counters"].items():
            counters[k] = counters.get(k, 0) + v
    runs = sum(p["runs"] for p in parts)
    explore_s = sum(p["explore_s"] for p in parts) or 1e-9
    by_build = {}
    for p in parts:
        e = by_build.setdefault(p["build"], {"runs": 0, "operations": 0, "explore_s": 0.0, "distinct_executions": 0, "distinct_states": 0, "runs_executed_twice_for_determinism": 0})
        e["runs"] += p["runs"]
        e["operations"] += p["steps"]
        e["explore_s"] = round(e["explore_s"] + p["explore_s"], 2)
        e["distinct_executions"] += p["distinct_traces"]
        e["distinct_states"] += p["distinct_states"]
        e["runs_executed_twice_for_determinism"] += p["determinism_checked"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": max([p["distinct_traces"] for p in parts] or [0]),
        "rule": "One evaluation is one simulated run: a seed decides clients, schedule, operations, callback scripts and faults. "
                "Distinct: the 64-bit hash of the whole execution (operations, faults that fired, results) differs from every other run of the same build; "
                "the largest build's count is given, since builds replay the same seeds. "
                "Non-trivial: at least two simulated clients ran, or an injected fault fired.",
        "samples": [s for p in parts[:1] for s in p["samples"]],
        "runs_per_hour": int(runs / explore_s * 3600),
        "seeds_per_hour": int(runs / explore_s * 3600),
        "simulated_time": {"unit": "operations executed (the library has no clock; logical steps are its only time)",
                           "covered": sum(p["steps"] for p in parts)},
        "faults_injected": {k.split(":", 1)[1]: v for k, v in sorted(counters.items()) if k.startswith("fault-fired:")},
        "situations_reached": {k.split(":", 1)[1]: v for k, v in sorted(counters.items()) if k.startswith("reach:")},
        "operations_executed": {k.split(":", 1)[1]: v for k, v in sorted(counters.items()) if k.startswith("op:")},
        "distinct_states": {"count": max([p["distinct_states"] for p in parts] or [0]), "measure": spec["state_measure"]},
        "builds": by_build,
        "real_code": spec["real"],
        "stubs": spec["stubs"],
        "build_s": round(build_s, 1),
    }
    if violation:
        cov["violation"] = {k: violation[k] for k in ("class", "message", "seed", "run", "variant", "build", "replay")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec["assumptions"] + ["Sampled search: schedules and fault positions that no seed of this run produced are not covered."],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        built = build_all([(c, b) for c in COMPONENTS for b in COMPONENTS[c]["builds"]])
        for exe, broken in built:
            if not exe:
                print(f"{broken[0]['component']} does not build: {broken[0]['what']}")
        print("built", len(COMPONENTS), "simulators")
        return 0
    if args and args[0] == "--replay":
        meta, r = replay_file(args[1], "--verbose" in args)
        print(r.stdout, end="")
        if r.returncode == 1:
            print(f"VIOLATION property={meta['property']} replay={args[1]}")
        return r.returncode
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    return decide(prop, tier, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
