#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current working tree (see DESIGN.md)."""
import collections, json, os, sys, tempfile, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import codectab, jobs, vp

T0 = time.time()
BUDGET = {"quick": 420, "thorough": 3300}
NSAMPLES = {"quick": 420, "thorough": 4000}
CAVEATS = [
    "symbolic execution of LLVM IR (clang 18, -O1, scalar loops) generated from /repo/src on this run; the native build used for replay is clang 18 -O2 of the same sources",
    "bytes behind the input / stream and uninitialised memory are unconstrained symbolic bytes unless the bound says otherwise",
    "inputs are the segment shapes enumerated in lib/jobs.py (sizes, run and range lengths, alignments, instruction set levels are concrete per query; the free bytes are symbolic)",
]


def load_known():
    with open(os.path.join(vp.VERIF, "known_findings.json")) as f:
        return json.load(f)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.quick = prop, tier, tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.stop = threading.Event()
        self.violations, self.unconfirmed, self.known_hits = [], [], []
        self.tot, self.status, self.fam = collections.Counter(), collections.Counter(), collections.defaultdict(collections.Counter)
        self.fns, self.covers, self.partition, self.undecided, self.truncated = set(), set(), collections.Counter(), [], []
        self.samples, self.validated, self.mismatch, self.unsupported = [], 0, [], 0
        self.known = {(k["property"], k["codec"], k["probe"]): k for k in load_known()["known"]}
        self.asan = None

    # -- counterexample handling
    def write_values(self, j, model, path):
        with open(path, "w") as f:
            f.write(vp.values_text(j["params"], model))

    def confirm(self, j, v):
        """replays a counterexample against the natively built library; (confirmed, what was seen)"""
        with tempfile.TemporaryDirectory(prefix="vp_") as d:
            p = os.path.join(d, "values")
            self.write_values(j, v["model"], p)
            st, msg, _ = vp.replay(vp.native("nat", self.mod), j["entry"], p)
            if st == "viol":
                return True, "native: " + msg
            if st == "unsupported":
                return True, "native replay needs an instruction set this host lacks; symbolic verdict stands"
            if st == "done" or st == "assume":
                st2, msg2, _ = vp.replay(vp.native("asan", self.mod), j["entry"], p)
                if st2 == "viol":
                    return True, "native, AddressSanitizer: " + msg2
            if any(n.startswith(("undef:", "stack:")) for n in v["model"]):
                try:
                    vp.native("junk", self.mod)
                except vp.BuildError as e:
                    return False, "build failed: %s" % str(e)[-300:]
                for k in range(16):
                    st3, msg3, _ = vp.replay(vp.native("junk", self.mod), j["entry"], p, junk=k)
                    if st3 == "viol":
                        return True, "native, uninitialised variables with arbitrary contents (VP_JUNK=%d): %s" % (k, msg3)
            return False, "native run: " + st

    def report(self, j, v, seen):
        d = os.path.join(vp.OUT, self.prop, "%s_%d" % (j["id"], len(self.violations)))
        os.makedirs(d, exist_ok=True)
        self.write_values(j, v["model"], os.path.join(d, "values.txt"))
        info = dict(property=self.prop, entry=j["entry"], label=j["label"], kind=v["kind"], message=v["msg"], where=v["where"], native=seen, params=j["params"], model=v["model"])
        with open(os.path.join(d, "info.json"), "w") as f:
            json.dump(info, f, indent=1)
        path = os.path.join(d, "replay.sh")
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# %s: %s\n# %s\nexec python3 %s/replay.py %s %s/values.txt\n" % (self.prop, j["label"], v["msg"].replace("\n", " "), vp.VERIF, j["entry"], d))
        os.chmod(path, 0o755)
        self.violations.append(info)
        print("violation: %s: %s (%s) in %s; %s" % (j["label"], v["msg"], v["kind"], v["where"][:160], seen), flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.stop.set()

    def on_result(self, r):
        j = r["job"]
        st = r["status"]
        self.status[st] += 1
        f = self.fam[j["fam"]]
        f["jobs"] += 1
        f["paths"] += r.get("paths", 0)
        f[st] += 1
        for k in ("paths", "killed", "instrs", "forks", "queries", "sat", "unsat", "unknown", "repaired", "cache", "checks_solver", "checks_simplified", "bytes_compared", "bytes_symbolic", "audits"):
            self.tot[k] += r.get(k, 0)
        self.tot["solver_s"] += r.get("solver_s", 0)
        self.tot["engine_s"] += r.get("sec", 0)
        self.fns.update(r.get("fns", []))
        self.covers.update(r.get("covers", []))
        self.partition[r.get("partition", "none")] += 1
        if st in ("inconclusive", "error"):
            self.undecided.append((j["label"], r.get("info", "")))
        if st == "truncated":
            self.truncated.append(j["label"])
        for s in r.get("samples", []):
            self.samples.append((j, s))
        for v in r.get("viol", []):
            if self.violations:
                return
            k = self.known.get((self.prop, j.get("codec"), j.get("probe")))
            ok, seen = self.confirm(j, v)
            if not ok:
                self.unconfirmed.append(dict(label=j["label"], kind=v["kind"], msg=v["msg"], where=v["where"], native=seen))
                continue
            if k and v["msg"] in k["messages"]:
                self.known_hits.append((k, v["msg"]))
                continue
            self.report(j, v, seen)

    def validate(self, deadline):
        """sampled path models replayed against the native library: same observations, no violation"""
        lim = NSAMPLES[self.tier]
        if len(self.samples) > lim:
            step = len(self.samples) / lim
            self.samples = [self.samples[int(i * step)] for i in range(lim)]
        exe = vp.native("nat", self.mod)
        d = tempfile.mkdtemp(prefix="vp_s_")
        lock = threading.Lock()
        it = iter(list(enumerate(self.samples)))

        def work():
            while True:
                with lock:
                    n = next(it, None)
                if n is None or time.time() > deadline or self.violations:
                    return
                i, (j, s) = n
                p = os.path.join(d, "v%d" % i)
                self.write_values(j, s["model"], p)
                st, msg, obs = vp.replay(exe, j["entry"], p)
                os.unlink(p)
                with lock:
                    if st == "unsupported":
                        self.unsupported += 1
                    elif st == "viol":
                        if not self.violations:
                            self.report(j, dict(kind="native", msg=msg, where="(native run of a sampled path)", model=s["model"]), "native: " + msg)
                    elif st == "done" and obs == s["obs"]:
                        self.validated += 1
                    else:
                        self.mismatch.append(dict(label=j["label"], status=st, native=obs[:4], engine=s["obs"][:4]))
        ts = [threading.Thread(target=work) for _ in range(os.cpu_count() or 4)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        os.rmdir(d)

    def evidence(self, skipped, all_jobs, err=None):
        lim = "quick" if self.quick else "thorough"
        cov = dict(
            states=int(self.tot["paths"]), transitions=int(self.tot["instrs"]), traces_validated_against_impl=self.validated, samples=[dict(case=j['label'], entry=j['entry'], parameters=' '.join(map(str, j['params']))[:400], free_bytes=dict(list(s_['model'].items())[:24]), observed=s_['obs'][:4]) for j, s_ in self.samples[:: max(1, len(self.samples) // 6)][:8]], sampled_traces=len(self.samples),
            jobs=all_jobs, jobs_by_status=dict(self.status), jobs_skipped_for_time=len(skipped), families={k: dict(v) for k, v in self.fam.items()},
            symbolic_paths=int(self.tot["paths"]), infeasible_or_assumed_away=int(self.tot["killed"]), solver=dict(name="Z3", queries=int(self.tot["queries"]), sat=int(self.tot["sat"]), unsat=int(self.tot["unsat"]), unknown=int(self.tot["unknown"]), answered_from_query_cache=int(self.tot["cache"]), seconds=round(self.tot["solver_s"], 2)),
            assertions_discharged_by_solver=int(self.tot["checks_solver"]), assertions_discharged_by_rewriting=int(self.tot["checks_simplified"]), bytes_compared=int(self.tot["bytes_compared"]), of_these_symbolic=int(self.tot["bytes_symbolic"]), rewriter_results_audited_by_solver=int(self.tot["audits"]),
            path_partition_proofs=dict(self.partition), functions_encoded=sorted(self.fns), functions_encoded_count=len(self.fns), covers=sorted(self.covers),
            bounds=jobs.bounds_text(self.prop, self.quick), truncated_jobs=self.truncated[:50], undecided=self.undecided[:50], unconfirmed=self.unconfirmed[:20], native_mismatches=self.mismatch[:20], native_unsupported=self.unsupported, known_findings=[k["what"] for k, _ in self.known_hits], violations=[dict(label=v["label"], message=v["message"], native=v["native"]) for v in self.violations])
        if err:
            cov["error"] = err
        ev = dict(property=self.prop, tier=lim, seed=self.seed, level="model_checking", coverage=cov, wall_s=round(time.time() - T0, 2), assumptions=CAVEATS, violations=len(self.violations))
        os.makedirs(os.path.join(vp.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vp.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def run(self):
        J = jobs.JOBS[self.prop](self.quick)
        J.sort(key=lambda j: j["prio"])
        self.mod = vp.module_of(J[0]["entry"])
        step = max(1, len(J) // NSAMPLES[self.tier])
        for i, j in enumerate(J):
            j["id"] = str(i)
            j["samples"] = 1 if (i + self.seed) % step == 0 and not j.get("probe") else 0
            j["viol"] = 2
        try:
            bg = []
            th = threading.Thread(target=lambda: bg.append(self._native()))
            th.start()
            bc = vp.bitcode(self.mod)
            pool = vp.Pool(bc)
            th.join()
            if bg and bg[0]:
                raise vp.BuildError(bg[0])
        except vp.BuildError as e:
            print("build failed: %s" % e)
            self.evidence([], len(J), str(e)[-2000:])
            return 2
        deadline = T0 + float(os.environ.get("VP_BUDGET", BUDGET[self.tier]))
        skipped = pool.run(J, deadline, self.on_result, self.stop)
        if not self.violations:
            self.validate(deadline + 120)
        self.evidence(skipped, len(J))
        for k, m in self.known_hits:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, k["what"], m))
        print("%s %s: %d jobs, %s; %d paths, %d instructions, %d solver queries in %.1f s, %d assertions by solver, %d by rewriting, %d native traces agree, %d mismatches, %d unconfirmed; %.1f s" % (
            self.prop, self.tier, len(J), dict(self.status), self.tot["paths"], self.tot["instrs"], self.tot["queries"], self.tot["solver_s"], self.tot["checks_solver"], self.tot["checks_simplified"], self.validated, len(self.mismatch), len(self.unconfirmed), time.time() - T0))
        for u in self.unconfirmed[:5]:
            print("note: symbolic violation not reproduced natively, not reported: %s: %s (%s)" % (u["label"], u["msg"], u["native"]))
        for u in self.undecided[:5]:
            print("note: not decided: %s: %s" % u)
        if self.violations:
            return 1
        if not self.covers:
            print("no verdict: no harness was completed on any path")
            return 2
        decided = self.status["ok"] + self.status["truncated"]
        if decided == 0 or self.status["error"] + self.status["inconclusive"] > decided:
            print("no verdict: too few queries could be decided")
            return 2
        return 0

    def _native(self):
        try:
            vp.native("nat", self.mod)
        except vp.BuildError as e:
            return str(e)


if __name__ == "__main__":
    try:
        rc = Check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick").run()
    except Exception:  # a failure of the machinery is no verdict
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
