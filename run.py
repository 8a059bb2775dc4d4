#!/usr/bin/env python3
"""Builds the harness of a property from /repo's working tree, explores, writes the evidence file.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep]
exit:  0 the property held on everything explored, 1 VIOLATION line printed, 2 error of the check
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr"]
WRAP = ["-Wl,--wrap=gf_init_easy", "-Wl,--wrap=gf_free"]
BASE = ["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "harness")]

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(extra):
    h = hashlib.sha256(repr(extra).encode())
    files = []
    for root in (os.path.join(REPO, "netcode"), os.path.join(REPO, "tools"), os.path.join(VERIF, "harness")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs if f.endswith((".hh", ".h", ".cc", ".c", ".hpp", ".cpp", ".inl", ".ipp"))]
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "netcode")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cc", ".cpp"))]
    return sorted(out)


def compile_(c):
    """A leading define enables a part of a harness that uses an internal function no test fixes; it is
    left out if that function is not there any more."""
    if c[0].startswith("-D"):
        r = sh([c[1], c[0], *c[2:]])
        if r.returncode == 0:
            return r
        print("note: built without " + c[0][2:])
        c = c[1:]
    return sh(c)


def build(spec):
    """Returns the directory with the built binaries."""
    h = tree_hash([spec["builds"], BASE, SAN])
    final = os.path.join(BUILD, h)
    if os.path.exists(os.path.join(final, "ok")):
        os.utime(final)
        return final
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD, prefix="tmp.")
    jobs, links = [], []
    for b in spec["builds"]:
        san = b.get("san", SAN)
        flags = BASE + san + b.get("flags", [])
        objs = []
        srcs = []
        for s in b["src"]:
            srcs.append((os.path.join(VERIF, "harness", s), ["-std=c++14"]))
        plain = {os.path.join(VERIF, "harness", s) for s in b.get("plain", [])}  # not instrumented
        srcs += [(s, ["-std=c++14"]) for s in sorted(plain)]
        if b.get("lib", True):
            for s in lib_sources():
                srcs.append((s, ["-std=c++11"]))
        for s in b.get("repo_src", []):
            srcs.append((os.path.join(REPO, s), ["-std=c++11"] + b.get("repo_flags", [])))
        for s, std in srcs:
            o = os.path.join(tmp, b["name"] + "." + s.replace("/", "_") + ".o")
            objs.append(o)
            cxx = b.get("cxx", "g++")
            opt = b.get("opt", {}).get(os.path.basename(s))
            jobs.append([*([opt] if opt else []), cxx, *std, *(BASE if s in plain else flags), *(["-x", "c"] if s.endswith(".c") else []), "-c", s, "-o", o])
        links.append([b.get("cxx", "g++"), *san, *objs, *b.get("link", WRAP), "-o", os.path.join(tmp, b["name"]),
                      "-lgf_complete", "-lpthread", *b.get("libs", [])])
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r, c in zip(ex.map(compile_, jobs), jobs):
            if r.returncode:
                sys.stderr.write("BUILD FAILED: " + " ".join(c) + "\n" + r.stdout[-6000:] + "\n")
                shutil.rmtree(tmp, ignore_errors=True)
                sys.exit(2)
        for r, c in zip(ex.map(sh, links), links):
            if r.returncode:
                sys.stderr.write("LINK FAILED: " + " ".join(c) + "\n" + r.stdout[-6000:] + "\n")
                shutil.rmtree(tmp, ignore_errors=True)
                sys.exit(2)
    for o in glob.glob(os.path.join(tmp, "*.o")):
        os.remove(o)
    open(os.path.join(tmp, "ok"), "w").close()
    try:
        os.rename(tmp, final)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the few most recent builds only
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-12]:
        shutil.rmtree(d, ignore_errors=True)
    return final


def known_for(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line:
                continue
            k = json.loads(line)
            if k.get("status") == "known" and k["property"] == prop:
                out[k["id"]] = k
    return out


def setup():
    """Nothing is kept between runs: every check builds what it needs. This only tells early that it can."""
    for tool in ("g++",):
        if not shutil.which(tool):
            sys.stderr.write(tool + " is missing\n")
            return 2
    build(CHECKS["C20"])
    print("ready")
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    spec = CHECKS[prop]
    t0 = time.time()
    bdir = build(spec)
    t_build = time.time() - t0
    rdir = os.path.join(VERIF, "replays", prop)
    os.makedirs(rdir, exist_ok=True)
    if a.replay:
        last = 2
        for run in spec["runs"]:
            r = subprocess.run([os.path.join(bdir, run["bin"]), "--property", prop, "--replay-dir", rdir, "--replay", a.replay])
            last = r.returncode
            if last in (0, 1):
                break
        return last
    for f in glob.glob(os.path.join(rdir, "*")):
        os.remove(f) if os.path.isfile(f) else shutil.rmtree(f, ignore_errors=True)
    known = known_for(prop)
    budget = (780 if tier == "quick" else 3000) - t_build
    total, violation, rc = {}, None, 0
    runs_out = []
    for run in spec["runs"]:
        out = os.path.join(rdir, run["bin"] + ".json")
        left = max(20.0, budget - (time.time() - t0 - t_build))
        scratch = tempfile.mkdtemp(prefix="ntcmc.")
        env = dict(os.environ, MC_SCRATCH=scratch, MC_BIN=bdir, **run.get("env", {}))
        try:
            cmd = [os.path.join(bdir, run["bin"]), "--property", prop, "--tier", tier, "--out", out, "--replay-dir", rdir,
                   "--deadline", "%.0f" % left, "--known", ",".join(known), *run.get("args", [])]
            if a.only:
                cmd += ["--only", a.only]
            r = subprocess.run(cmd, env=env, timeout=left + 600)
        except subprocess.TimeoutExpired:
            sys.stderr.write("timeout\n")
            return 2
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if not os.path.exists(out):
            sys.stderr.write("the harness ended with %d and wrote no result\n" % r.returncode)
            return 2
        j = json.load(open(out))
        runs_out.append(j)
        if j["violation"]:
            violation = j["violation"]
            rc = 1
            break
        if r.returncode not in (0, 1):
            rc = 2
    cov = {
        "states": sum(j["states"] for j in runs_out),
        "transitions": sum(j["transitions"] for j in runs_out),
        "traces_validated_against_impl": sum(j["executions"] for j in runs_out),
        "samples": ([s for j in runs_out for s in j["samples"]] + ["job: " + n for j in runs_out for n in j["job_names"]])[:24],
        "exhaustive": all(j["exhaustive"] for j in runs_out),
        "distinct_outcomes": sum(j["distinct_outcomes"] for j in runs_out),
        "longest_choice_sequence": max(j["max_choices"] for j in runs_out),
        "jobs": sum(j["jobs"] for j in runs_out),
        "work_units_completed": "%d of %d" % (sum(j["units_done"] for j in runs_out), sum(j["units"] for j in runs_out)),
        "counters": {k: v for j in runs_out for k, v in j["counters"].items()},
        "bounds": spec["bounds"],
        "method": "stateless exhaustive enumeration of the real code; states = nodes of the choice tree, "
                  "transitions = operations executed on the implementation, every trace runs on the implementation",
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "model_checking"),
        "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    seen = {}
    for j in runs_out:
        seen.update(j["known"])
    for k, msg in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[k]["what"], msg))
    print("%s %s: %d executions, %d states, %d transitions, %d outcomes, exhaustive=%s, build %.1fs, total %.1fs"
          % (prop, tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], cov["distinct_outcomes"],
             cov["exhaustive"], t_build, time.time() - t0))
    if violation:
        print("  %s [%s] %s (job: %s)" % (violation["kind"], violation["oracle"], violation["msg"], violation["job"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
