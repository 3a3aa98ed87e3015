#!/usr/bin/env python3
"""Decides one property: check.py ID

Runs the property's proofs (Kani: /verif/kani, Verus: /verif/verus) on /repo's current source,
rewrites evidence/ID.json, and ends with
  0  every obligation discharged (listed findings are printed as KNOWN-FINDING)
  1  VIOLATION property=ID replay=PATH [no-failing-input-found]
  2  no answer (does not compile, tool limit, time limit)
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import plan  # noqa: E402

BUILD = os.path.join(V, ".build")
KT = os.path.join(BUILD, "kani")
NT = os.path.join(BUILD, "native")
CRATE = os.path.join(V, "kani")
REPO = os.environ.get("TELDA_REPO", "/repo")
T0 = time.time()
BUDGET = int(os.environ.get("TELDA_BUDGET", "860"))
JOBS = int(os.environ.get("TELDA_JOBS", "8"))
NOT_OURS = ("unsupported_construct", "missing_definition", "unwind", "internal")


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e["RUSTFLAGS"] = "--cfg telda_verif"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def left(reserve=0):
    return max(5, BUDGET - reserve - (time.time() - T0))


def sh(cmd, timeout, cwd=V, out=None):
    """Runs a command in a process group of its own, ends all of it when the time is up."""
    with open(out or os.devnull, "wb") as f:
        p = subprocess.Popen(
            cmd, cwd=cwd, env=env(), start_new_session=True,
            stdout=f if out else subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, (o or b"").decode(errors="replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            o, _ = p.communicate()
            return None, (o or b"").decode(errors="replace")


def kani_cmd(extra):
    return ["cargo", "kani", "--target-dir", KT, "-Z", "function-contracts", "-Z", "stubbing",
            "-Z", "unstable-options", "--no-assertion-reach-checks", "--exact"] + extra


class NoAnswer(Exception):
    pass


def is_obl(c):
    return c["category"] != "cover"


def kani(names, tag):
    """name -> result of that proof"""
    out = os.path.join(BUILD, tag + ".json")
    log = os.path.join(BUILD, tag + ".log")
    if os.path.exists(out):
        os.unlink(out)
    cmd = kani_cmd(["--export-json", out, "--output-format", "terse", "-j", str(JOBS),
                    "--harness-timeout", "%ds" % int(left(60))])
    for n in names:
        cmd += ["--harness", n]
    rc, _ = sh(cmd, left(20), CRATE, log)
    text = open(log, errors="replace").read()
    if not os.path.exists(out):
        print(text[-6000:])
        raise NoAnswer("the proofs could not be run (exit %s)" % rc)
    d = json.load(open(out))
    res = {}
    stats = {c["harness_id"]: c.get("cbmc_stats", {}) for c in d.get("cbmc", [])}
    for r in d["verification_results"]["results"]:
        res[r["harness_id"]] = summarize(r, stats.get(r["harness_id"], {}))
    for n in names:
        if n not in res:
            raise NoAnswer("proof %s was not run" % n)
    return res, text


def summarize(r, stats):
    cs = r.get("checks", [])
    bad = [c for c in cs if is_obl(c) and c["status"] in ("Failure", "Failed")]
    covers = [c for c in cs if c["category"] == "cover"]
    real, limit = [], []
    for c in bad:
        d = c["description"]
        if c["category"] in NOT_OURS or "unwinding assertion" in d or "is not currently supported" in d:
            limit.append(d)
        else:
            real.append({"obligation": d, "function": c["function"],
                         "at": "%s:%s" % (c["location"]["file"], c["location"]["line"])})
    undet = [c for c in cs if is_obl(c) and c["status"] not in ("Success", "Failure", "Failed", "Unreachable")]
    obls = [c for c in cs if is_obl(c)]
    return {
        "status": r["status"],
        "obligations": len(obls),
        "discharged": sum(1 for c in obls if c["status"] in ("Success", "Unreachable")),
        "named": sorted({c["description"][4:] for c in obls if c["description"].startswith("OBL ")}),
        "covers": len(covers),
        "reached": sorted(c["description"].replace("cover condition: ", "") for c in covers
                          if c["status"] == "Satisfied"),
        "failed": real,
        "limit": limit,
        "undetermined": len(undet),
        "functions": sorted({c["function"] for c in cs
                             if c["function"] and re.match(r"<?telda2::", c["function"])}),
        "seconds": round(r.get("duration_ms", 0) / 1000, 2),
        "vccs": stats.get("vccs_generated"),
        "vccs_solver": stats.get("vccs_remaining"),
        "solver_s": stats.get("runtime_decision_procedure_s"),
        "bounded": None,
    }


def settled(r):
    """passed, violated or limit"""
    if r["failed"] and not r["limit"]:
        return "violated"
    if r["failed"]:
        # some loop goes on for longer than the proof unrolls it: what fails may come of that
        return "violated"
    if r["status"] == "Success" and not r["limit"] and not r["undetermined"]:
        if not r["reached"]:
            return "vacuous"
        if not r["obligations"]:
            return "vacuous"
        return "passed"
    return "limit"


# ---------------------------------------------------------------- counterexamples

def playback(name):
    """Value lists of the counterexamples of the obligations that fail"""
    rc, o = sh(kani_cmd(["-Z", "concrete-playback", "--concrete-playback=print", "--harness", name]),
               left(60), CRATE)
    found = []
    for m in re.finditer(r"```\n(.*?)```", o, re.S):
        t = m.group(1)
        c = re.search(r"Check for (\S+?): \"?(.*)", t)
        if c and "cover" in c.group(1):
            continue
        vals = []
        body = t[t.find("concrete_vals"):]
        for v in re.finditer(r"^\s*vec!\[([0-9, ]*)\],?$", body, re.M):
            vals.append([int(x) for x in v.group(1).replace(" ", "").split(",") if x])
        found.append((c.group(2) if c else "", vals))
    return found, o


def native_replay(name, found, limit=6):
    rc, o = sh(["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--target-dir", NT],
               left(40), CRATE)
    if rc != 0:
        return None, "the replay does not build:\n" + o[-3000:]
    outs = []
    for i, (what, vals) in enumerate(found[:limit]):
        f = os.path.join(BUILD, "values-%d.txt" % i)
        with open(f, "w") as h:
            for v in vals:
                h.write(" ".join(map(str, v)) + "\n")
        rc, o = sh([os.path.join(NT, "debug", "replay"), name, f], 60)
        outs.append("%s\n  exit %s\n%s" % (what, rc, o[-3000:]))
        if rc == 0:
            return vals, "\n".join(outs)
    return None, "\n".join(outs)


def random_search(name, seconds=25):
    """Values on which the code, run natively, fails the obligations of the proof"""
    if name in plan.NATIVE_DIFFERS:
        return []
    rc, o = sh(["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--target-dir", NT], left(40), CRATE)
    f = os.path.join(BUILD, "values-found.txt")
    if rc != 0 or sh([os.path.join(NT, "debug", "replay"), name, "--search", str(seconds), f], seconds + 30)[0] != 0:
        return []
    return [("found by running the proof on random values", [[int(x) for x in l.split()] for l in open(f)])]


def report(pid, name, r, log):
    """Writes the replay file, prints the VIOLATION line"""
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.txt" % (pid, name.replace("::", "-")))
    vals, text, pb = None, "", ""
    if left() > 90:
        try:
            found = random_search(name)
            if found:
                vals, text = native_replay(name, found)
            if vals is None and left() > 90:
                found, pb = playback(name)
                if found:
                    vals, text = native_replay(name, found)
                else:
                    text = "the verifier gave no values"
        except Exception as e:  # the violation stands without it
            text = "no replay: %r" % e
    else:
        text = "no time left for a replay"
    with open(path, "w") as f:
        f.write("property %s\nproof %s\n\nfailed obligations:\n" % (pid, name))
        for x in r["failed"]:
            f.write("  %(obligation)s\n    in %(function)s at %(at)s\n" % x)
        f.write("\nreplay of the counterexample on the real code, natively:\n%s\n" % text)
        if vals is not None:
            f.write("\ncounterexample (bytes of each value in the order the proof asks for them):\n")
            for v in vals:
                f.write(" ".join(map(str, v)) + "\n")
            f.write("\nreplay with: cd %s && cargo run --offline --bin replay -- %s VALUES\n" % (CRATE, name))
        bad = [b for b in re.split(r"\n\n(?=Check \d+:)", pb or "") if "Status: FAILURE" in b[:400]]
        f.write("\nverifier output:\n%s\n" % ("\n\n".join(bad) if bad else log[-6000:])[:20000])
    print("failed: %s: %s" % (name, "; ".join(x["obligation"] for x in r["failed"][:4])))
    end = "" if vals is not None else " no-failing-input-found"
    print("VIOLATION property=%s replay=%s%s" % (pid, path, end), flush=True)


# ---------------------------------------------------------------- known findings

def known():
    fs = []
    for l in open(os.path.join(V, "KNOWN-FINDINGS.txt")):
        m = re.match(r"finding: property=(\S+) proof=(\S+) now=(\S+) (.*)", l)
        if m:
            fs.append(m.groups())
    return fs


# ---------------------------------------------------------------- main

def setup():
    """Builds everything once, to see that it does"""
    os.makedirs(BUILD, exist_ok=True)
    rc, o = sh(kani_cmd(["--only-codegen", "--harness", "regs::regs_align"]), 900, CRATE)
    if rc == 0:
        rc, o = sh(["cargo", "build", "--offline", "--quiet", "--bin", "replay", "--target-dir", NT], 300, CRATE)
    if rc != 0:
        print(o[-4000:])
        return 2
    print("ready")
    return 0


def main():
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = plan.PROPS[pid]
    names = list(p["proofs"]) + (list(p.get("thorough", [])) if tier == "thorough" else [])
    finds = [f for f in known() if f[0] == pid]
    for f in finds:
        for n in (f[1], f[2]):
            if n not in names:
                names.append(n)
    readme = {f[1]: f for f in finds}
    pinned = {f[2] for f in finds}

    res, log = ({}, "") if not names else kani(names, "run-" + pid)
    # a loop that goes on for longer than it is unrolled: unroll it further, once
    again = [n for n in names if settled(res[n]) == "limit" and any("unwinding" in x for x in res[n]["limit"])]
    for n in again:
        if left() > 120:
            out = os.path.join(BUILD, "again.json")
            sh(kani_cmd(["--export-json", out, "--output-format", "terse", "--harness", n,
                         "--unwind", "80"]), min(300, left(30)), CRATE)
            if os.path.exists(out):
                d = json.load(open(out))
                for r in d["verification_results"]["results"]:
                    res[n] = summarize(r, {})
                os.unlink(out)

    verus = []
    if p.get("verus"):
        import verus_run
        for j in p["verus"]:
            v = verus_run.run(j, left(120))
            if (v["violated"] or v["noanswer"]) and v["by_kani"] and all(
                    n in res and settled(res[n]) == "passed" for n in v["kani"]):
                # Verus does not follow the bodies as they are now; Kani does, and proved the same contracts
                w = verus_run.run(j, left(120), True)
                if not w["violated"] and not w["noanswer"]:
                    w["trusted"].append("Verus did not verify the bodies on this run; their contracts are proved by Kani: "
                                        + ", ".join(v["kani"]))
                    v = w
            verus.append(v)

    violated, noanswer, findings = [], [], []
    for n in names:
        s = settled(res[n])
        if n in readme:
            f = readme[n]
            if s == "passed":
                continue  # as documented: no finding any more
            t = settled(res[f[2]])
            if s == "violated" and t == "passed":
                findings.append(f)
            elif s == "violated" and t == "violated":
                violated.append(n)
            else:
                noanswer.append("%s: %s, %s: %s" % (n, s, f[2], t))
        elif n in pinned:
            pass
        elif s == "violated":
            violated.append(n)
        elif s != "passed":
            noanswer.append("%s: %s %s" % (n, s, "; ".join(res[n]["limit"][:3])))

    # bounded: on the real code, never counted as proved
    native = {}
    for j in p.get("native", []):
        import verus_run
        native[j] = verus_run.replay(j, NT, CRATE, sh, left)
    write_evidence(pid, p, tier, names, res, verus, findings, violated, native)
    for j, (found, text) in native.items():
        if found:
            path = os.path.join(V, "replays", "%s-%s.txt" % (pid, j))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write("property %s, bounded check %s\n\ninput on the real code:\n%s\n\nfailed obligations:\n%s\n" % (
                    pid, j, text, "\n".join("  " + x for v in verus for x in v["violated"])))
            print("failed: input found by the bounded check " + j)
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        if not text.startswith("exit 0"):
            noanswer.append("bounded check %s: %s" % (j, text[:500]))
    if violated:
        n = next((x for x in violated[:4] if random_search(x, 10)), violated[0]) if len(violated) > 1 else violated[0]
        report(pid, n, res[n], log)
        return 1
    for v in verus:
        found, text = None, ""
        if (v["violated"] or v["noanswer"]) and v["search"]:
            found, text = verus_run.replay(v["search"], NT, CRATE, sh, left)
        if v["violated"] or found:
            path = os.path.join(V, "replays", "%s-verus.txt" % pid)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write("property %s, verus job %s\n\nfailed obligations:\n%s\n\nsearch for an input on the real code:\n%s\n"
                        "\nverifier output:\n%s\n" % (pid, v["job"], "\n".join("  " + x for x in v["violated"]), text,
                                                     v["output"] or v["noanswer"]))
            print("failed: " + "; ".join(v["violated"][:4] or ["input found by the search that stands in"]))
            print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if found else " no-failing-input-found"), flush=True)
            return 1
        if v["noanswer"]:
            # stated in the evidence: no proof of this part on this run
            print("NOTE: verus job %s gave no answer, %s stands in (bounded): %s" % (
                v["job"], v["stand_in"] or "nothing", v["noanswer"].split("\n")[0]))
            if not v["stand_in"]:
                noanswer.append("verus: " + v["noanswer"])
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f[3]))
    if noanswer:
        for x in noanswer:
            print("NO ANSWER: " + x)
        return 2
    n = sum(r["obligations"] for r in res.values()) + sum(v["obligations"] for v in verus)
    print("%s holds: %d proofs, %d obligations, %.0f s" % (pid, len(names), n, time.time() - T0))
    return 0


def write_evidence(pid, p, tier, names, res, verus, findings, violated, native={}):
    skip = {f[1] for f in findings}
    use = [res[n] for n in names if n not in skip]
    obl = sum(r["obligations"] for r in use) + sum(v["obligations"] for v in verus)
    dis = sum(r["discharged"] for r in use) + sum(v["discharged"] for v in verus)
    bounded = {n: plan.BOUNDED[n] for n in names if n in plan.BOUNDED}
    cov = {
        "obligations": obl,
        "discharged": dis,
        "checker_cmd": "cd /verif/kani && cargo kani -Z function-contracts -Z stubbing "
                       "--harness %s ... --exact" % (names[0] if names else "(none)")
        if names else verus[0]["cmd"],
        "trusted_base": plan.TRUSTED + p.get("trusted", []) + sorted({t for v in verus for t in v["trusted"]}),
        "back_end": "CBMC 6.11.0 with CaDiCaL, through Kani 0.68.0"
                    + ("; Verus with Z3" if verus else ""),
        "named_obligations": sorted({o for r in use for o in r["named"]}),
        "proofs": {n: {k: res[n][k] for k in ("status", "obligations", "discharged", "vccs", "vccs_solver",
                                              "solver_s", "seconds", "reached", "covers")} for n in names},
        "functions_under_contract": sorted({f for r in use for f in r["functions"]}
                                           | {x for v in verus for x in v["functions"]}),
        "contracts_used_instead_of_bodies": p.get("stubs", []),
        "solver_s": round(sum(r["solver_s"] or 0 for r in use) + sum(v["seconds"] for v in verus), 2),
        "bounded_not_proved": bounded,
        "known_findings": [f[3] for f in findings],
        "failed_proofs": violated,
    }
    if verus:
        cov["verus"] = {v["job"]: {k: v[k] for k in ("obligations", "discharged", "functions", "extraction", "seconds")} for v in verus}
        gone = {"verus job " + v["job"]: "no answer on this run (%s); %s stands in" % (v["noanswer"].split("\n")[0], v["stand_in"])
                for v in verus if v["noanswer"]}
        cov["bounded_not_proved"].update(gone)
    for j, (found, text) in native.items():
        cov["bounded_not_proved"]["native check " + j] = plan.BOUNDED[j]
        cov["failed_proofs"] = cov["failed_proofs"] + [j] * bool(found)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "proof",
        "coverage": cov,
        "assumptions": plan.ASSUMPTIONS + p.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violated) + sum(1 for v in verus if v["violated"]) + sum(1 for f, _ in native.values() if f),
    }
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        sys.exit(2)
