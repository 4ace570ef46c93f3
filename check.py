"""check.py ID [quick|thorough] - decides one property on /repo's current working tree.

Builds what the property's explorer needs, runs it, repeats every finding in a fresh process, writes evidence/ID.json.
Exit 0: the property held on everything explored.  Exit 1: `VIOLATION property=ID replay=PATH`.  Exit 2: no answer."""
import glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import mcbuild

PY = mcbuild.PY
FAM = {"C01": "elementwise", "C02": "window", "C03": "recursive", "C04": "oscillator", "C05": "trend", "C06": "volume", "C07": "filter", "C08": "cycle"}
# property -> (explorer mode, build variant, bars fed in the quick tier, in the thorough tier)
MODES = {
    "C09": ("stream", "rel", 1e7, 3e8), "C10": ("ref", "rel", 2e7, 4e8), "C11": ("extent", "rel", 0, 0), "C12": ("memory", "asan", 1e7, 2e8), "C13": ("leak", "rel", 0, 0),
    "C14": ("purity", "rel", 0, 0), "C15": ("options", "rel", 0, 0), "C16": ("causal", "rel", 4e7, 1e9), "C17": ("oom", "rel", 0, 0), "C18": ("isolate", "rel", 0, 0),
    "C25": ("range", "rel", 1e7, 5e8), "C26": ("scale", "rel", 1e7, 5e8), "C27": ("forget", "rel", 2e7, 5e8), "C28": ("nonfinite", "asan", 0, 0), "C29": ("handle", "rel", 0, 0), "C30": ("identity", "rel", 5e7, 1e9), "C31": ("work", "work", 0, 0),
}
FAMBUDGET = {"elementwise": (2e8, 4e9), "window": (3e7, 1e9), "recursive": (2e8, 2e9), "oscillator": (6e7, 2e9), "trend": (8e7, 2e9), "volume": (3e8, 5e9), "filter": (8e7, 1e9), "cycle": (4e7, 1e9)}
OTHER = {"C19": "sched", "C20": "registry", "C21": "binding", "C22": "generate", "C23": "contain", "C24": "lean"}
LIMIT = {"quick": 780, "thorough": 6 * 3600}


def known():
    """Open findings: lines `open: property=ID match=<text the finding contains> -- what fails`."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"open: property=(\S+) match=(.*?) -- (.*)", l)
        if m:
            r.append(m.groups())
    return r


def run(cmd, env, limit):
    t = time.time()
    p = subprocess.Popen(cmd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "", "timed out after %d s" % (time.time() - t)
    return p.returncode, o, e


def plan(pid, tier, out):
    """(command, env, replay command for a case file, level, how to read the statistics)"""
    th = tier == "thorough"
    if pid in FAM or pid in MODES:
        if pid in FAM:
            mode, variant, env = "conform", "rel", {"MC_FAMILY": FAM[pid], "MC_BUDGET": str(FAMBUDGET[FAM[pid]][th])}
        else:
            mode, variant, q, t = MODES[pid]
            env = {"MC_BUDGET": str(t if th else q)} if q else {}
        exe, _ = mcbuild.explorer(variant)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_segv=1:abort_on_error=0"
        return [exe, mode, out, tier], env, lambda f: [exe, "--replay", mode, f], explore_cov
    if pid == "C19":
        exe, _ = mcbuild.sched()
        return [exe, out, tier], {}, lambda f: [exe, "--replay", f], sched_cov
    if pid == "C20":
        exe, _ = mcbuild.registry()
        return [exe, out, tier], {}, lambda f: [exe, "--replay", f], registry_cov
    if pid == "C21":
        d, decl = mcbuild.binding()
        base = [PY, "-B", os.path.join(VERIF, "mc", "binding.py"), d, decl]
        return base + [out, tier], {}, lambda f: base + ["--replay", f], binding_cov
    if pid == "C24":
        base = [PY, "-B", os.path.join(VERIF, "mc", "lean.py")] + list(mcbuild.lean())
        return base + [out, tier], {}, lambda f: base + ["--replay", f], lean_cov
    if pid == "C22":
        o, snap = mcbuild.generate()
        base = [PY, "-B", os.path.join(VERIF, "mc", "generate.py"), snap, o, os.path.join(mcbuild.BUILD, "gen")]
        return base + [out, tier], {}, lambda f: base + ["--replay", f], generate_cov
    if pid == "C23":
        exe, _ = mcbuild.contain()
        return [exe, out, tier], {"ASAN_OPTIONS": "detect_leaks=0"}, lambda f: [exe, "--replay", f], contain_cov
    raise SystemExit("unknown property " + pid)


def explore_cov(s, out):
    smp = []
    for f in sorted(glob.glob(os.path.join(out, "sample*.txt"))):
        smp.append(open(f).read()[:700])
    c = dict(states=s["states"], transitions=s["transitions"], traces_validated_against_impl=s["traces"], samples=smp or ["(no sample)"], calls_of_the_implementation=s["calls"], values_compared=s["values_compared"], values_left_undecided=s["values_undecided"],
             indicators=s["indicators"], option_vectors=s["option_vectors"], traces_longer_than_warm_up=s["nontrivial_traces"], exhaustive=True,
             explanation="states: distinct bar-history prefixes (indicator, options, history); transitions: bars fed; every trace runs on the compiled implementation itself")
    return c


def oom_cov(s, out):
    c = explore_cov(s, out)
    return dict(evaluations=s["calls"], distinct_nontrivial=s["nontrivial_traces"] or s["values_compared"], rule="one case per (indicator, options, length, entry point, index of the allocation that fails); non-trivial: the injected failure was reached", samples=c["samples"], states=s["states"], transitions=s["transitions"],
                option_vectors=s["option_vectors"], indicators=s["indicators"], exhaustive=True)


def sched_cov(s, out):
    return dict(states=s["pairs"], transitions=s["transitions"], traces_validated_against_impl=s["executions"], exhaustive=s["capped_pairs"] == 0, conflicting_pairs=s["conflicting_pairs"], capped_pairs=s["capped_pairs"], preemption_bound=s["preemption_bound"],
                memory_accesses_monitored=s["memory_accesses_monitored"], visible_accesses=s["visible_accesses"], shared_cells_written=s["shared_cells_written"], selftest=dict(executions=s["selftest_executions"], transitions=s["selftest_transitions"]),
                samples=[s.get("sample", "every pair of entry points; a pair without conflicting accesses is one Mazurkiewicz trace")], explanation="states: pairs of concurrent calls; an execution is one schedule run on the instrumented implementation")


def registry_cov(s, out):
    return dict(states=s["rows"], transitions=s["queries"], traces_validated_against_impl=s["queries"], fields_compared=s["fields"], hits=s["hits"], exhaustive=True, samples=["lookup of every string over [a-z0-9] up to length %d, of every name, prefix and one-edit neighbour" % s["longest_exhaustive"]])


def binding_cov(s, out):
    return dict(states=s["shapes"], transitions=s["calls"], traces_validated_against_impl=s["calls"], indicators=s["indicators"], rejected_option_vectors=s["rejected"], exhaustive=True, samples=["sma(2) on 7 bars, 1 positional, ndarray, pad=True, float options: binding result == direct C result, bit for bit"])


def lean_cov(s, out):
    return dict(states=s["states"], transitions=s["transitions"], traces_validated_against_impl=s["words"], values_compared=s["values"], values_left_undecided=s["undecided"], indicators=s["indicators"], classes=s["classes"], rejected_option_vectors=s["rejected"], injected_failures=s["injected"],
                native_allocations=s["allocations"], exhaustive=True, samples=["Streaming.SimpleMovingAverage(2) after bars AB: SMA == direct native stream, IsReady, no native block left"],
                explanation="states: (class, options, window size, history prefix); the generated C# text is executed by the front end in mc/csharp.py on stand-ins for the Lean base classes, its native calls on the compiled library")


def generate_cov(s, out):
    return dict(states=s["states"], transitions=s["transitions"], traces_validated_against_impl=s["generator_runs"], compilations=s["compilations"], documents=s["documents"], tables=s["tables"], exhaustive=True, samples=["nothing yet | add ab [] first | generate | give ab ['ref', 'stream'] | generate"])


def contain_cov(s, out):
    return dict(states=s["states"], transitions=s["transitions"], traces_validated_against_impl=s["sequences"], queries=s["queries"], exhaustive=True, samples=["ringbuf<3>: step;=2, [1]=-1.5, step, =0; every accessor compared with the list model"])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    out = os.path.join(mcbuild.BUILD, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    try:
        cmd, env, replay, cov = plan(pid, tier, out)
    except mcbuild.BuildError as e:
        print("no answer: the tree does not build\n%s" % e)
        return 2
    tb = time.time()
    rc, o, e = run(cmd, env, LIMIT[tier])
    if rc not in (0, 1):
        print("no answer: the explorer ended with %s\n%s%s" % (rc, o[-2000:], e[-2000:]))
        return 2
    found = re.findall(r"^FOUND (\S+) (.*)$", o, flags=re.M)
    opens = known()
    shown, bad, dropped = set(), [], 0
    for path, text in found:
        k = next((x for x in opens if x[0] == pid and x[1] in text), None)
        if k:
            shown.add(k)
            continue
        if len(bad) >= 3:
            bad.append((path, text))
            continue
        confirmed = False
        for _ in range(2):  # a fresh process has to show it again
            rrc, ro, _e = run(replay(path), env, 120)
            if rrc != 0 and rrc != 2:
                confirmed = True
                break
        if not confirmed and re.search(r"hang|died with signal 9\b", text):
            dropped += 1  # a slow or starved machine, not the code
            continue
        if not confirmed:
            text += " (only after the calls made before it in the same process)"
        bad.append((path, text))
    stats = json.load(open(os.path.join(out, "stats.json")))
    level = "fault_enumeration" if pid == "C17" else "model_checking"
    c = (oom_cov if pid == "C17" else cov)(stats, out)
    c["build_s"] = round(tb - t0, 1)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=c, wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in shown:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    if dropped:
        print("note: %d unrepeatable time-outs ignored" % dropped)
    for path, text in bad:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + text[:600])
    if not bad:
        print("%s held: %s" % (pid, ", ".join("%s=%s" % (k, v) for k, v in c.items() if isinstance(v, int))))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
