"""runs the operation-sequence driver over a range of cases on 8 workers and files its findings"""
import os, json, subprocess, build, shlex
ENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=203:detect_stack_use_after_return=0:handle_abort=0",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=1", OMP_WAIT_POLICY="passive", TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=2:report_signal_unsafe=0:report_thread_leaks=0", OPENBLAS_NUM_THREADS="1")
DERIVED = {"extract_submatrix": ["assign_submatrix"], "submatrix_index": ["matrix2submatrix", "submatrix2matrix", "submatrix_index_graph"], "file": ["write", "read"],
           "clear": [], "drop": ["deallocate"]}
FUNC = {"value", "struct", "meta", "read", "mem", "refuse", "hang", "const"}
W = 8
MPN = {"regions": "messages_delivered", "members": "collective_calls", "decisions": "rank_switches", "syncs": "synchronous_sends", "preempts": "delayed_packings"}
def seq(own, quick, thorough, setup="import:8 zero:1 identity:1", types=15, precs=15, mmode=0, flags=0, nmax=20, nmin=0, mn=2, mx=6, maxthr=3, oom=0, classes=FUNC, names=None, kind="asan", timeout=20, extra_args=(), asan_extra=''):
    """names: operation names whose failures this property owns (None: the own list; 'ALL': every operation)"""
    def part(res):
        exe = getattr(build, kind)()
        n = quick if res.tier == "quick" else thorough
        base = [exe, "--own", own, "--setup", setup, "--types", str(types), "--precs", str(precs), "--mmode", str(mmode), "--flags", str(flags), "--nmax", str(nmax), "--nmin", str(nmin), "--min", str(mn), "--max", str(mx),
                "--maxthr", str(maxthr), "--oom", str(oom), "--seed", str(res.seed), "--salt", res.prop, "--timeout", str(timeout)] + list(extra_args)
        EN = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + asan_extra); env = dict(os.environ, **EN)
        if names == "ALL": owned = None
        elif isinstance(names, str): raise TypeError("names is a list or ALL")
        else:
            owned = set()
            for o in (names or [x.split(":")[0] for x in own.split()]):
                owned.add(o); owned.update(DERIVED.get(o, []))
        ps = []
        for w in range(W):
            d = os.path.join(res.tmp, f"w{w}"); os.makedirs(d, exist_ok=True)
            ps.append((w, d, subprocess.Popen(base + ["--from", str(w), "--to", str(n), "--step", str(W), "--out", os.path.join(d, "out"), "--tmp", d], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for w, d, p in ps:
            _, err = p.communicate()
            if p.returncode != 0: raise build.BuildError(f"driver worker exited {p.returncode}: {err[-500:]!r}")
            for l in open(os.path.join(d, "out")):
                j = json.loads(l)
                if j["t"] == "sum":
                    res.evals += j["cases"]; res.distinct.update((id(part), k) for k in j["keys"])
                    for k in ("ops", "checks", "elems", "owned", "refused", "overflow_calls", "oomruns", "oomrefused", "accepted", "regions", "members", "decisions", "syncs", "preempts", "sites"): res.counts[MPN.get(k) if kind == "mpisim" and k in MPN else {"ops": "library_operations", "checks": "monitor_checks", "elems": "elements_compared", "owned": "operations_of_this_property", "refused": "cases_refused_with_reported_error", "overflow_calls": "calls_that_must_overflow_or_refuse", "oomruns": "fault_injection_runs", "oomrefused": "faults_reported", "accepted": "damaged_files_accepted_well_formed", "regions": "parallel_regions_observed", "members": "team_members_run", "decisions": "scheduling_decisions", "syncs": "lock_and_atomic_events", "preempts": "preemptions_between_memory_accesses", "sites": "request_sites_refused_summed_over_workers"}[k]] += j[k]
                    res.opcount.update(j["opcount"])
                    if j["sample"] and len(res.samples) < 6: res.samples.append(j["sample"][:900])
                    continue
                ty = j["hist"].split("\n")[0].split(" ")[2].split("/")[0] if j["hist"] else "?"
                mine = (owned is None or j["op"] in owned) and j["cls"] in classes
                short = f"{j['cls']} in {j['op']} ({ty}): {j['text'][:300]}"
                if j["cls"] == "harness" or "signal 9:" in j["text"][:12]: res.inconclusive.append(short); continue
                if not mine: res.blocked.append(short); continue
                if len(res.fails) >= 12: res.counts["further_failing_cases"] += 1; continue
                cmd = base + ["--case", str(j["case"])] + (["--failat", str(j["failat"])] if j["failat"] else []) + ["--tmp", "/tmp"]
                if j["cls"] == "hang":
                    r = subprocess.run(cmd, env=env, capture_output=True)
                    if r.returncode != 3: res.inconclusive.append("not reproduced: " + short); continue
                replay = "cd /verif && python3 -c \"import sys;sys.path.insert(0,'tools');import build;build.%s()\"\n" % kind + " ".join(f"{k}='{v}'" for k, v in EN.items()) + " \\\n" + " ".join(shlex.quote(str(x)) for x in cmd)
                res.fail(short + f"\ncase {j['case']}\n" + j["text"] + "\n" + j["hist"], replay, op=j["op"], type=ty, cls=j["cls"])
    return part
