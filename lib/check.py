#!/usr/bin/env python3
"""Runs the symbolic executor for one property and judges what it reports.

exit 0   the property held on everything explored
exit 1   VIOLATION property=<id> replay=<path>: a counterexample that the
         native build of the harness reproduces
exit 2   the check itself failed
"""
import json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import table

NATIVE = os.path.join(V, "harness/target/h")
ENGINE = os.path.join(V, "engine/target/release/engine")
IR = os.path.join(V, "harness/target/h.ll")


def die(msg):
    print("CHECK ERROR: " + msg)
    sys.exit(2)


def native(h, p, inputs, timeout=20):
    """(kind, message, notes, known tags) of one concrete run of the real code."""
    try:
        r = subprocess.run([NATIVE, str(h), str(p)] + [str(x) for x in inputs], capture_output=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = e.stdout or b"", None
    notes, known, kind, msg = [], [], "end", ""
    for line in out.decode("utf-8", "replace").split("\n"):
        if line.startswith("NOTE "):
            notes.append(line[5:])
        elif line.startswith("KNOWN "):
            known.append(line[6:])
        elif line.startswith("VIOLATED "):
            kind, msg = "violated", line[9:]
        elif line.startswith("ASSUME"):
            kind = "assume"
        elif line.startswith("BADINPUT"):
            kind = "badinput"
    if rc is None:
        kind, msg = "hang", "no answer within %d s" % timeout
    elif kind == "end" and rc != 0:
        kind, msg = "panic", "exit status %d" % rc
        if "r" in dir() and r.stderr:
            m = re.search(rb"panicked at ([^\n]*)\n([^\n]*)", r.stderr)
            if m:
                msg = (m.group(1) + b" " + m.group(2)).decode("utf-8", "replace")
    return kind, msg, notes, known


def text(hexes):
    out = []
    for h in hexes:
        try:
            out.append(bytes.fromhex(h).decode("utf-8", "backslashreplace"))
        except ValueError:
            out.append(h)
    return out


def short(name):
    """A readable form of a v0-mangled name."""
    if not name.startswith("_R"):
        return name
    out, i = [], 2
    while i < len(name):
        m = re.compile(r"(\d+)_?").match(name, i)
        if m and m.group(1)[0] != "0":
            n = int(m.group(1))
            j = m.end()
            s = name[j:j + n]
            if len(s) == n and re.match(r"[A-Za-z_]\w*$", s):
                out.append(s)
                i = j + n
                continue
        # disambiguators contain digits: skip them as a whole
        m = re.compile(r"Cs[0-9A-Za-z]+?_(?=\d)").match(name, i)
        i = m.end() if m else i + 1
    return "::".join(out)


def known_findings():
    f = {}
    path = os.path.join(V, "known-findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d["kind"] == "known":
                    f[(d["property"], d["tag"])] = d["what"]
    return f


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = table.CHECKS[pid]
    jobs = spec.get("thorough", spec["jobs"]) if tier == "thorough" else spec["jobs"]
    # all of the exploration has to end well before the 900 s of a check
    budget = spec.get("budget", 560) if tier == "quick" else spec.get("thorough_budget", 5400)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)

    b = subprocess.run([os.path.join(V, "build.sh")], capture_output=True, text=True)
    if b.returncode != 0:
        die("the harness does not build against /repo:\n" + (b.stdout + b.stderr)[-4000:])
    build_s = time.time() - t0

    tmp = os.path.join(V, "evidence", ".%s.%d.json" % (pid, os.getpid()))
    cmd = [ENGINE, IR, tmp, "--threads", str(os.cpu_count() or 4), "--seed", str(seed), "--budget", str(budget), "--first"]
    cmd += ["%d:%d:%g" % j for j in jobs]
    env = dict(os.environ)
    env.pop("RUST_BACKTRACE", None)
    r = subprocess.run(cmd, capture_output=True, text=True, env=env)
    if r.returncode != 0 or not os.path.exists(tmp):
        die("the symbolic executor failed (%d): %s" % (r.returncode, r.stderr[-3000:]))
    res = json.load(open(tmp))
    os.unlink(tmp)
    J = res["jobs"]

    known = known_findings()
    problems, findings, violations = [], {}, []
    # ---- counterexamples, replayed against the real code
    replayed = failed = 0
    for j in J:
        per = {}
        for v in j["violations"]:
            key = (v["msg"], v["known"])
            n = per.get(key, 0)
            if n >= 6:
                continue
            per[key] = n + 1
            hang = "step limit" in v["msg"]
            kind, msg, notes, tags = native(j["harness"], j["param"], v["inputs"])
            replayed += 1
            if hang and kind == "end":
                # slow, but it returns: not a violation, and not explored
                j["limits_slow"] = j.get("limits_slow", 0) + 1
                continue
            if kind not in ("violated", "panic", "hang"):
                failed += 1
                problems.append("a counterexample does not reproduce: harness %d:%d inputs %s: %s / native %s %s" % (
                    j["harness"], j["param"], v["inputs"], v["msg"], kind, msg))
                continue
            tag = tags[-1] if tags else None
            if tag is not None and (pid, tag) in known:
                findings.setdefault(tag, (known[(pid, tag)], text(notes)))
                continue
            violations.append(dict(harness=j["harness"], param=j["param"], inputs=v["inputs"], message=msg if kind != "violated" else msg,
                                   kind=kind, notes=text(notes), trace=v["bt"][:12]))
    # ---- the executor agrees with the real code on explored paths
    validated, samples, mism = 0, [], 0
    t1 = time.time()
    for j in J:
        for s in j["samples"]:
            if time.time() - t1 > 60:
                break
            kind, msg, notes, tags = native(j["harness"], j["param"], s["inputs"])
            want = s["notes"]
            if kind != "end" or notes != want:
                mism += 1
                problems.append("executor and real code disagree: harness %d:%d inputs %s: notes %s / native %s %s %s" % (
                    j["harness"], j["param"], s["inputs"], text(want), kind, msg, text(notes)))
            else:
                validated += 1
                if len(samples) < 12 and validated % 7 == 1:
                    samples.append(dict(harness=j["harness"], param=j["param"], inputs=s["inputs"], notes=text(notes)))
    # ---- vacuity
    for h, need in spec.get("covers", {}).items():
        got = {}
        for j in J:
            if j["harness"] == h:
                for k, n in j["covers"].items():
                    got[int(k)] = got.get(int(k), 0) + n
        for c in need:
            if not got.get(c):
                problems.append("cover point %d of harness %d was not reached" % (c, h))
    errors = sorted({e.split("; inputs")[0] for j in J for e in j["errors"]})
    paths = sum(j["paths"] for j in J)
    nerr = sum(len(j["errors"]) for j in J)
    if nerr and not paths:
        problems.append("no path was explored: " + "; ".join(errors)[:2000])
    exhaustive = all(j["exhaustive"] and not j["inconclusive"] and not j["unknowns"] and not j["errors"] and not j.get("limits_slow") for j in J) and len(J) == len(jobs)

    fns = set()
    for j in J:
        fns.update(j["functions"])
    mine = sorted({short(f) for f in fns if "jsonpath_rfc9535" in f})
    tot = lambda k: sum(j[k] for j in J)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": tot("branches"),
            "traces_validated_against_impl": validated + replayed - failed,
            "samples": samples,
            "exhaustive": exhaustive,
            "explanation": "states: path classes of the real code's LLVM IR explored to their end, each standing for every input that "
                           "satisfies its path condition; transitions: symbolic branches decided.  The solver decides the feasibility of every "
                           "branch and the assertion on every path; executor and native build were compared on the sampled paths.",
            "functions_encoded": mine,
            "functions_encoded_count": len(fns),
            "bounds": spec["bounds"],
            "paths": paths, "assumed_away": tot("assumed"), "ir_steps": tot("steps"),
            "queries": tot("queries"), "lemmas": tot("lemmas"), "cache_hits": tot("cache_hits"),
            "assertions": tot("checks"), "assertions_by_solver": tot("checks_solver"),
            "solver_s": round(tot("solver_s"), 2), "solver": res["z3"],
            "unknown_queries": tot("unknowns"), "inconclusive_branches": tot("inconclusive"),
            "unsupported": errors[:10], "unsupported_paths": nerr,
            "cover_points": {"%d:%d" % (j["harness"], j["param"]): j["covers"] for j in J},
            "jobs": [{"harness": j["harness"], "param": j["param"], "paths": j["paths"], "exhaustive": j["exhaustive"], "wall_s": j["wall_s"]} for j in J],
            "jobs_not_started": len(jobs) - len(J),
            "known_findings_seen": sorted(findings),
        },
        "assumptions": table.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for tag, (what, notes) in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s [%s] e.g. %s" % (pid, what, tag, json.dumps(notes, ensure_ascii=True)[:300]))
    print("%s %s: %d paths, %d branches, %d queries + %d lemmas, %.1f s solver, %d replays, %s, build %.0f s, total %.0f s" % (
        pid, tier, paths, tot("branches"), tot("queries") - tot("lemmas"), tot("lemmas"), tot("solver_s"), validated + replayed,
        "exhaustive within the bounds" if exhaustive else "NOT exhaustive", build_s, time.time() - t0))
    if errors:
        print("unsupported on %d path(s): %s" % (nerr, "; ".join(errors)[:1500]))
    if violations:
        v = violations[0]
        path = os.path.join("evidence", "%s-replay.json" % pid)
        v["replay"] = "harness/target/h %d %d %s" % (v["harness"], v["param"], " ".join(map(str, v["inputs"])))
        with open(os.path.join(V, path), "w") as f:
            json.dump(violations[:20], f, indent=1)
        print("counterexample: %s: %s  notes %s" % (v["kind"], v["message"], json.dumps(v["notes"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if problems:
        for p in problems[:10]:
            print("PROBLEM: " + p[:1500])
        sys.exit(2)
    sys.exit(0)


main()
