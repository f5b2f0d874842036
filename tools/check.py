#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

For every class (and language mode) the property ranges over, `irv verify` compiles the real headers with a driver that
only wraps the public operations, generates the proof obligations of the operations' contracts from the compiler's IR and
discharges them.  This script selects the obligations that state the property, replays failed ones on the real code, and
reports."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import native

VERIF = native.VERIF
IRV = native.IRV
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

G = {
    "C01": ["SHA1", "SHA2_224", "SHA2_256", "SHA2_384", "SHA2_512", "SHA2_512_224", "SHA2_512_256"],
    "C02": ["SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512"],
    "C03": ["Blake1_224", "Blake1_256", "Blake1_384", "Blake1_512", "Blake2", "Blake2s"],
    "C04": ["MD2", "MD4", "MD5"],
    "C05": ["RIPEMD_128", "RIPEMD_160", "RIPEMD_256", "RIPEMD_320"],
    "C06": ["SM3", "HAS_160", "Tiger1_128", "Tiger1_160", "Tiger1_192", "Tiger2_128", "Tiger2_160", "Tiger2_192", "Whirlpool"],
    "C07": ["CRC_32", "FNV32_0", "FNV32_1", "FNV32_1a", "FNV64_0", "FNV64_1", "FNV64_1a"],
    "C08": ["SipHash", "SipHash_4_8", "SipHash_1_3"],
}
# SHAKE takes its output length as a constructor argument: verified for each of these lengths (0, small, one byte beyond the
# rate, several squeezes), for all messages
SHAKE_D = ["SHAKE_128:32", "SHAKE_256:64"]
SHAKE_MORE = ["SHAKE_128:0", "SHAKE_128:169", "SHAKE_256:137"]
SHAKE_DEEP = ["SHAKE_128:1", "SHAKE_128:167", "SHAKE_128:168", "SHAKE_128:337", "SHAKE_128:1000", "SHAKE_256:0", "SHAKE_256:1", "SHAKE_256:135", "SHAKE_256:136", "SHAKE_256:273", "SHAKE_256:1000"]
# cSHAKE takes d, N and S: verified for these (#k: k arbitrary bytes), for all messages; TupleHash is verified against the
# contract of its cSHAKE member for all d, S and elements, the cSHAKE wrapper (CShake_n) against the contract of its sponge for
# all d and all contents of N and S (lengths from a fixed set)
CSHAKE_Q = ["CSHAKE_128:32:TupleHash:#13", "CSHAKE_256:64:TupleHash:-", "CSHAKE_128:32:#5:#16", "CSHAKE_256:300:#200:#0", "CSHAKE_128:0:-:-", "CSHAKE_256:64:-:-"]
CSHAKE_DEEP = ["CSHAKE_128:169:-:#300", "CSHAKE_256:32:#33:#31", "CSHAKE_256:64:-:Email_Signature", "CSHAKE_128:32:#156:#0", "CSHAKE_256:137:#1:#0"]
TUPLE = ["TupleHash_128", "TupleHash_256", "CShake_128", "CShake_256"]
ALL = [c for g in G.values() for c in g] + SHAKE_D + ["CSHAKE_128:32:#5:#16"] + TUPLE
G["C09"] = CSHAKE_Q + TUPLE + (CSHAKE_DEEP if TIER != "quick" else [])
G["C02"] = G["C02"] + SHAKE_D + SHAKE_MORE + (SHAKE_DEEP if TIER != "quick" else [])
# rough cost order so that the long runs start first
SLOW = CSHAKE_DEEP + ["CSHAKE_256:300:#200:#0", "CSHAKE_128:32:TupleHash:#13", "CSHAKE_128:32:#5:#16"] + CSHAKE_Q + ["SHAKE_128:169", "SHAKE_128:0", "SHAKE_256:137", "SHAKE_128:32", "SHAKE_256:64", "Blake2", "Whirlpool", "SHA2_384", "SHA2_512", "SHA2_512_224", "SHA2_512_256", "Blake2", "Blake1_384", "Blake1_512", "SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512", "SM3", "CRC_32", "Blake2s", "SHA1"]
NATIVE_ONLY = ["SHAKE_128", "SHAKE_256", "CSHAKE_128", "CSHAKE_256", "TupleHash_128", "TupleHash_256"]
CFG_ALL = ["cxx14", "cxx17", "cxx20", "cxx14-ndebug", "cxx17-ndebug", "cxx20-ndebug", "i386", "s390x", "powerpc"]
STD = {"cxx14": "c++14", "cxx17": "c++17", "cxx20": "c++20", "cxx14-ndebug": "c++14", "cxx17-ndebug": "c++17", "cxx20-ndebug": "c++20"}

FUN = ("ctor", "step", "fin", "out")
# property -> (classes, verifier categories, stages that must be complete, native script families)
P = {}
for k, v in G.items():
    P[k] = (v, FUN, ("ctor", "step", "fin", "out"), ("fun", "step"))
P["C10"] = (ALL, ("step",), ("ctor", "step"), ("step",))
P["C11"] = (ALL, ("ctor", "reset", "copy"), ("ctor", "step", "fin", "reset", "copy"), ("life",))
P["C12"] = (ALL, ("out", "acc"), ("out", "acc"), ("acc",))
P["C13"] = (ALL, ("eq",), ("eq",), ("eq",))
P["C14"] = (ALL, ("safety",), ("safety",), ("fun", "step", "life", "acc", "overload"))
P["C15"] = (ALL, ("overload", "overload-bounded"), ("overload",), ("overload",))
P["C16"] = (ALL, FUN + ("reset", "copy", "acc", "eq", "overload", "safety"), ("safety",), ("fun", "step"))
P["C17"] = (ALL, ("step", "fin"), ("ctor", "step", "fin"), ("step",))
NATIVE_EXTRA = {"C02": ["SHAKE_128", "SHAKE_256"], "C09": ["CSHAKE_128", "CSHAKE_256", "TupleHash_128", "TupleHash_256"]}
for k in ("C10", "C11", "C12", "C13", "C14", "C15"):
    NATIVE_EXTRA[k] = NATIVE_ONLY

def configs(prop):
    if prop == "C16":
        return ["cxx20-ndebug", "i386", "s390x"] if TIER == "quick" else CFG_ALL
    return ["cxx14"] if TIER == "quick" else ["cxx14", "cxx20"]

def fname(c):
    return c.replace(":", "-").replace("#", "n").replace("@", "g")

def run_irv(cls, cfg, tmp, limit, extra_env=None):
    out = os.path.join(tmp, "%s.%s.json" % (fname(cls), cfg) + ("" if not extra_env else ".x"))
    env = dict(os.environ, IRV_TMP=tmp, IRV_TIMEOUT=str(int(limit)), IRV_VERIF=VERIF, IRV_REPO=native.REPO)
    env.update(extra_env or {})
    log = ""
    try:
        r = subprocess.run([IRV, "verify", cls, cfg, "--json", out], capture_output=True, text=True, env=env, timeout=limit + 60)
        log = r.stdout[-6000:] + r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        log = "time limit"
    try:
        d = json.load(open(out))
    except Exception:
        d = {"class": cls, "config": cfg, "engine_error": log[-1500:]}
    d.setdefault("class", cls); d.setdefault("config", cfg)
    d["log"] = log
    return d

def ensure_built():
    if not os.path.exists(IRV):
        r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "irv"), capture_output=True, text=True)
        if r.returncode:
            print(r.stderr[-3000:]); sys.exit(2)

def main():
    prop = sys.argv[1]
    t0 = time.time()
    ensure_built()
    classes, cats, stages, fam = P.get(prop, ([], (), (), ("fun", "step", "life")))
    cfgs = configs(prop)
    tmp = tempfile.mkdtemp(prefix="irv-%s-" % prop)
    try:
        return decide(prop, classes, cats, stages, fam, cfgs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(prop, classes, cats, stages, fam, cfgs, tmp, t0):
    budget = 780 if TIER == "quick" else 6000
    per = 330 if TIER == "quick" else 1500
    tasks = [(c, g) for g in cfgs for c in classes]
    tasks.sort(key=lambda t: SLOW.index(t[0]) if t[0] in SLOW else 99)
    known = load_known(prop)
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        def one(t):
            left = budget - (time.time() - t0) - 130
            if left < 10:
                return t, {"class": t[0], "config": t[1], "engine_error": "no time left"}
            return t, run_irv(t[0], t[1], tmp, min(per, left))
        for t, d in ex.map(one, tasks):
            res[t] = d
    failed, undecided, proved = {}, {}, []
    n_ob = n_ok = 0
    byname = {}
    for t in tasks:
        d = res[t]
        if "build_error" in d:
            failed[t] = [dict(cat="build", name="driver-compiles", msg=d["build_error"], definite=False)]
            n_ob += 1
            continue
        if "engine_error" in d:
            undecided[t] = "verifier gave no answer: " + d["engine_error"][-200:]
            n_ob += 1
            continue
        for c, n, k in d["ok"]:
            if c in cats:
                n_ob += k; n_ok += k
                byname[n] = byname.get(n, 0) + k
        if "safety" in cats:
            for n, k in d["safety"].items():
                n_ob += k; n_ok += k
                byname[n] = byname.get(n, 0) + k
        fl = [f for f in d["fails"] if f["cat"] in cats and attributable(prop, f)]
        other = [f for f in d["fails"] if f["cat"] == "engine"]
        if fl and prop == "C17" and not long_only(t, d, fl, tmp):
            undecided[t] = "the functional contract fails for short messages as well, the length count cannot be separated: " + fl[0]["name"]
            fl = []
        if fl:
            failed[t] = fl
            n_ob += len(fl)
        missing = [s for s in stages if s not in d["done"]]
        if missing and not fl and t not in undecided:
            why = "; ".join(f["msg"] for f in (other or d["fails"]))[:300]
            undecided[t] = "stage(s) %s not completed: %s" % (",".join(missing), why)
            n_ob += 1
        if not fl and t not in undecided:
            proved.append(t)
    # --- replay of failed obligations; bounded stand-in where there is no verdict
    viol, standins = [], []
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    jobs = []
    for t in list(failed) + list(undecided):
        jobs.append((t[0], t[1], t in failed))
    for c in NATIVE_EXTRA.get(prop, []):
        jobs.append((c, "cxx14", False))
    seen = set()
    jobs = [j for j in jobs if not ((j[0], STD.get(j[1], "x")) in seen or seen.add((j[0], STD.get(j[1], "x"))))] if prop != "C16" else jobs
    found = {}
    def nat(j):
        c, g, f = j
        if g not in STD:
            return j, (0, None, "cross target: cannot be executed here")
        try:
            flags = None
            if g.endswith("ndebug"):
                flags = ["-O2", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
            n, r = native.search(c.split(":")[0].replace("CShake", "CSHAKE"), fam, SEED, 300 if TIER == "quick" else 3000, tmp, STD[g], flags)
            return j, (n, r, "")
        except Exception as e:
            return j, (0, None, "stand-in failed: %r" % e)
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in ex.map(nat, jobs):
            found[(j[0], j[1])] = r
    kf = []
    for (c, g), (n, r, why) in found.items():
        if r is not None:
            if "error" in r:
                if (c, g) not in failed:
                    failed[(c, g)] = [dict(cat="build", name="harness-compiles", msg=r["error"], definite=False)]
                continue
            path = os.path.join(ev, "replay-%s-%s-%s.json" % (prop, fname(c), g))
            r = dict(r, property=prop, failed_obligations=failed.get((c, g), []), how="python3 tools/native.py replay " + path)
            json.dump(r, open(path, "w"), indent=1)
            viol.append((path, True, "%s [%s]: %s" % (c, g, r["what"])))
        elif (c, g) in failed:
            pass
        else:
            standins.append(dict(cls=c, config=g, scripts=n, reason=undecided.get((c, g), "class outside the verifier's reach") + (" " + why if why else "")))
    for t, fl in failed.items():
        hit = [v for (c, g), v in found.items() if (c, g) == t and v[1] is not None and "error" not in v[1]]
        if hit:
            continue
        # the same class in another mode already has a failing input
        path = os.path.join(ev, "replay-%s-%s-%s.json" % (prop, fname(t[0]), t[1]))
        json.dump(dict(property=prop, cls=t[0], config=t[1], failed_obligations=fl, scripts_tried=found.get(t, (0,))[0],
                       verifier_output=res[t].get("log", "")), open(path, "w"), indent=1)
        viol.append((path, False, "%s [%s]: obligation %s/%s: %s" % (t[0], t[1], fl[0]["cat"], fl[0]["name"], fl[0]["msg"][:200])))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for path, real, msg in viol:
        print("# " + msg)
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if real else " no-failing-input-found"))
    funcs, assum, ext, be = set(), set(), set(), {}
    loops = 0
    for d in res.values():
        funcs |= set(d.get("functions", [])); assum |= set(d.get("assumptions", [])); ext |= set(d.get("externals", []))
        loops += d.get("loops_cut", 0)
        for k, v in d.get("stats", {}).items():
            be[k] = be.get(k, 0) + v
    lib = sorted(f for f in funcs if "Chocobo1" in f and not f.startswith("_ZN3gsl") and not f.startswith("_ZNK3gsl"))
    cov = dict(
        obligations=n_ob, discharged=n_ok, checker_cmd="python3 tools/check.py %s (irv verify CLASS CONFIG per class)" % prop,
        trusted_base=["clang 18 front end and opt mem2reg (C++ to LLVM IR)", "irv symbolic executor and normaliser (/verif/irv)", "z3 4.8.12 for the equalities counted under smt",
                      "specifications in /verif/irv/src/spec.rs (validated against published vectors and hashlib)", "contracts of external functions: " + ", ".join(sorted(ext))],
        classes_proved=sorted("%s/%s" % t for t in proved), obligations_by_name=byname,
        failed={"%s/%s" % t: [f["cat"] + "/" + f["name"] for f in fl] for t, fl in failed.items()},
        bounded_standins=standins, functions_under_contract=len(lib), functions=[f for f in lib][:400],
        loop_invariants_checked=loops, backends={k: v for k, v in be.items() if not k.endswith("_ms")},
        solver_s=be.get("smt_ms", 0) / 1000.0, prover_s=be.get("prover_ms", 0) / 1000.0)
    json.dump(dict(property=prop, tier=TIER, seed=SEED, level="proof", coverage=cov,
                   assumptions=sorted(assum) + ["the caller respects the documented call sequences", "message length below the limit of the algorithm's length field (2^64 bytes where only memory limits it)"],
                   wall_s=round(time.time() - t0, 1), violations=len(viol)), open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d class runs proved, %d bounded stand-ins, %d violations, %.0f s" % (prop, n_ok, n_ob, len(proved), len(standins), len(viol), time.time() - t0))
    return 1 if viol else 0

def attributable(prop, f):
    if prop in ("C10", "C17") and f["name"] == "chaining-words":
        return False
    return True

def long_only(t, d, fl, tmp):
    """does the failed obligation hold when the message is short? (then the length count is what is wrong)"""
    x = run_irv(t[0], t[1], tmp, 200, {"IRV_PMAX": "9"})
    if "done" not in x:
        return False
    names = {(f["cat"], f["name"]) for f in x["fails"]}
    return not any((f["cat"], f["name"]) in names for f in fl) and "fin" in x["done"]

def load_known(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    except OSError:
        pass
    return out

if __name__ == "__main__":
    sys.exit(main())
