"""python3 lib/check.py <property> [--tier quick|thorough] [--replay file]"""
import argparse
import json
import os
import random
import shutil
import sys
import time
import traceback
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbt
from mbt import Failure, CompileError, log
import registry


def save_replay(prop, data):
    d = os.path.join(mbt.OUT, prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "violation-%d.json" % (len(
        [x for x in os.listdir(d) if x.startswith("violation-")]) + 1))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.jobs = registry.CHECKS[prop]
        self.wd = os.path.join(mbt.OUT, prop)
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd, exist_ok=True)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        steps_replayed=0, values_compared=0, jobs=[], samples=[])
        self.violations = []

    def violation(self, msg, data):
        data.update(property=self.prop, message=msg, seed=self.seed)
        p = save_replay(self.prop, data)
        log("VIOLATION property=%s replay=%s" % (self.prop, p))
        log("  " + msg[:1500])
        self.violations.append(p)

    def model(self, job):
        """Runs TLC; returns a list of (file, stats)."""
        consts = dict(job.get("consts", {}))
        if self.tier == "thorough":
            consts.update(job.get("thorough", {}))
        if job.get("sim"):
            sim = dict(job["sim"])
            if self.tier == "thorough":
                sim.update(job.get("thorough_sim", {}))
            n = job.get("procs", mbt.CORES)
            with cf.ThreadPoolExecutor(mbt.CORES) as ex:
                return list(ex.map(
                    lambda i: mbt.tlc(job, consts, self.wd,
                                      (self.seed * 1000003 + i * 7919) % 2**31,
                                      sim=sim, tag="-%d" % i,
                                      timeout=self.limit()), range(n)))
        return [mbt.tlc(job, consts, self.wd, self.seed, timeout=self.limit())]

    def limit(self):
        return 600 if self.tier == "quick" else 5400

    def trace_job(self, job, exes):
        """Records traces of the implementation; TLC judges them."""
        exe = exes(job["harness"])
        if exe is None:
            return
        h = registry.H[job["harness"]]
        n = job["num"] if self.tier == "quick" else job["tnum"]
        procs = job.get("procs", mbt.CORES)
        t = time.time()
        with cf.ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(lambda i: mbt.record(
                exe, h, job["kind"], self.seed * 100 + i, n // procs, self.wd,
                self.limit()), range(procs)))
        rec = time.time() - t
        traces = []
        for i, (lines, bad) in enumerate(res):
            traces += [(l, self.seed * 100 + i) for l in lines]
            if bad and len(self.violations) < 3:
                self.violation("%s: %s" % (job["name"], bad),
                               dict(kind="trace", harness=job["harness"],
                                    tkind=job["kind"], num=n // procs,
                                    monitor=job.get("monitor", "LoopTrace"),
                                    tseed=self.seed * 100 + i,
                                    line=lines[-1] if lines else None))
        if not traces:
            if self.violations:
                return
            raise Failure("job %s recorded nothing" % job["name"])
        fakes = mbt.corrupt([l for l, _ in traces], self.seed)
        verdict, st = mbt.judge(job, [l for l, _ in traces] + fakes, self.wd)
        for i in range(len(traces), len(verdict)):
            if verdict[i] is None:
                raise Failure("the monitor accepts a trace that was tampered with")
        events = {}
        for l, _ in traces:
            for e in json.loads(l)["h"]:
                events[e["e"]] = events.get(e["e"], 0) + 1
        for (l, sd), v in zip(traces, verdict):
            if v is not None and len(self.violations) < 3:
                self.violation("%s: event %d: %s" % (job["name"], v[0], v[1]),
                               dict(kind="trace", harness=job["harness"],
                                    tkind=job["kind"], tseed=sd, num=n // procs,
                                    monitor=job.get("monitor", "LoopTrace"),
                                    line=l))
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["generated"]
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["steps_replayed"] += sum(events.values())
        self.cov["jobs"].append(dict(
            job=job["name"], module=job.get("monitor", "LoopTrace"), states=st["states"],
            transitions=st["generated"], behaviours=len(traces), ops=events,
            tampered_rejected=len(fakes), replay_s=round(rec, 1),
            tlc_s=round(st["wall"], 1)))
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(traces[len(traces) // 2][0][:3000])
        log("  %s/%s: %d traces (%d events) judged, %d tampered ones rejected, "
            "recording %.1fs tlc %.1fs" % (
                self.prop, job["name"], len(traces), sum(events.values()),
                len(fakes), rec, st["wall"]))

    def model_job(self, job):
        """Only explores the specification."""
        (out, st), = self.model(job)
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["generated"]
        self.cov["jobs"].append(dict(job=job["name"], module=job["module"],
                                     states=st["states"], behaviours=0,
                                     transitions=st["generated"],
                                     tlc_s=round(st["wall"], 1)))
        log("  %s/%s: %d states, tlc %.1fs" % (self.prop, job["name"], st["states"],
                                               st["wall"]))

    def run_job(self, job, exes):
        if job.get("type") == "trace":
            return self.trace_job(job, exes)
        if job.get("type") == "model":
            return self.model_job(job)
        hname = job["harness"]
        h = registry.H[hname]
        outs = self.model(job)
        exe = exes(hname)
        if exe is None:
            return
        if job.get("group"):
            for o in outs:
                o[1]["behaviours"] = mbt.group(o[0], *job["group"])
        mask = job.get("mask", "")
        jc = dict(job=job["name"], module=job["module"], states=0, transitions=0,
                  behaviours=0, steps=0, ops={})
        t = time.time()

        def one(o):
            return mbt.replay(exe, h, o[0], self.wd, self.seed, mask,
                              job.get("replay_limit", self.limit()),
                              shards=1 if job.get("sim") else
                              job.get("shards", mbt.CORES))
        with cf.ThreadPoolExecutor(mbt.CORES if job.get("sim") else 1) as ex:
            res = list(ex.map(one, outs))
        for (beh, st), (fails, rs) in zip(outs, res):
            self.cov["states"] += st["states"] or st["generated"]
            self.cov["transitions"] += st["generated"]
            self.cov["traces_validated_against_impl"] += rs["behaviours"]
            self.cov["steps_replayed"] += rs["steps"]
            self.cov["values_compared"] += rs["compared"]
            jc["states"] += st["states"] or st["generated"]
            jc["transitions"] += st["generated"]
            jc["behaviours"] += rs["behaviours"]
            jc["steps"] += rs["steps"]
            for k, v in rs["ops"].items():
                jc["ops"][k] = jc["ops"].get(k, 0) + v
            for no, msg in fails:
                if len(self.violations) >= 3:
                    break
                self.confirm(job, exe, h, beh, no, msg, mask)
        if outs and len(self.cov["samples"]) < 3 and outs[0][1]["behaviours"]:
            n = outs[0][1]["behaviours"]
            self.cov["samples"].append(
                mbt.raw_line(outs[0][0], n * 2 // 3).strip()[:3000])
        jc["replay_s"] = round(time.time() - t, 1)
        if not any(r[0] for r in res):
            # would the replay notice if it was otherwise?
            for more in range(6):
                jc["tampered"], jc["tampered_rejected"] = mbt.tamper(
                    exe, h, outs[0][0], self.wd, self.seed + more, mask,
                    200 + 200 * more)
                if jc["tampered_rejected"] or not jc["tampered"]:
                    break
            if jc["tampered"] >= 20 and not jc["tampered_rejected"]:
                raise Failure("job %s accepts whatever is expected" % job["name"])
        jc["tlc_s"] = round(max(o[1]["wall"] for o in outs), 1)
        self.cov["jobs"].append(jc)
        if jc["behaviours"] == 0 and not self.violations:
            raise Failure("job %s replayed nothing" % job["name"])
        log("  %s/%s: %d states, %d transitions, %d behaviours replayed (%d steps),"
            " %d of %d tampered ones rejected, tlc %.1fs replay %.1fs" % (
                self.prop, job["name"], jc["states"], jc["transitions"],
                jc["behaviours"], jc["steps"], jc.get("tampered_rejected", 0),
                jc.get("tampered", 0), jc["tlc_s"], jc["replay_s"]))
        for beh, _ in outs:
            try:
                os.unlink(beh)
            except OSError:
                pass

    def confirm(self, job, exe, h, beh, no, msg, mask):
        if no < 0:
            self.violation(msg, dict(kind="behaviour", harness=job["harness"],
                                     mask=mask, line=None))
            return
        line = mbt.raw_line(beh, no)
        again = None
        for _ in range(job.get("confirm", 2)):
            again = mbt.replay_one(exe, h, line, self.wd, self.seed, mask)
            if again:
                break
        if not again and job.get("threads"):
            # depends on the schedule: believe the observation that was made
            again = msg
        if not again:
            # it may need the behaviours before it: run the shard again
            fails, _ = mbt.replay(exe, h, beh, self.wd, self.seed, mask, self.limit(),
                                  shards=1 if job.get("sim") else
                                  job.get("shards", mbt.CORES))
            if not fails:
                raise Failure("a departure was not confirmed: %s\n%s" % (msg, line[:2000]))
            again = msg
        self.violation("%s: %s" % (job["name"], again),
                       dict(kind="behaviour", harness=job["harness"], mask=mask,
                            job=job["name"], line=line))

    def run(self):
        t0 = time.time()
        needed = []
        for j in self.jobs:
            if j.get("harness") and j["harness"] not in needed:
                needed.append(j["harness"])
        pool = cf.ThreadPoolExecutor(2)
        futs = {}
        broken = set()
        for n in needed:
            futs[n] = pool.submit(mbt.build, registry.H[n])

        def exes(n):
            try:
                return futs[n].result()
            except CompileError as e:
                if n not in broken:
                    broken.add(n)
                    self.violation(
                        "programs that use the interface of this property do not "
                        "compile: " + e.text[:1500],
                        dict(kind="compile", harness=n, line=None))
                return None
        for j in self.jobs:
            if len(self.violations) >= 3:
                break
            self.run_job(j, exes)
        for k in registry.KNOWN.get(self.prop, []):
            self.known(k, exes)
        pool.shutdown()
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level="model_checking", coverage=self.cov,
                  assumptions=registry.ASSUMPTIONS,
                  wall_s=round(time.time() - t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(mbt.WORK, "evidence"), exist_ok=True)
        with open(os.path.join(mbt.WORK, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        log("%s %s: %d behaviours of %d states replayed, %d violations, %.1fs" % (
            self.prop, self.tier, self.cov["traces_validated_against_impl"],
            self.cov["states"], len(self.violations), time.time() - t0))
        return 1 if self.violations else 0

    def known(self, k, exes):
        """A recorded defect: say so if it is still there."""
        h = k.get("harness", "flow")
        if h not in registry.H:
            return
        try:
            exe = mbt.build(registry.H[h])
        except CompileError:
            return
        if k.get("trace"):
            lines, bad = mbt.record(exe, registry.H[h], k["trace"], 1, 1, self.wd, 60)
            if bad or any(mbt.judge(dict(name="known"), lines, self.wd)[0]):
                log("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            return
        with open(os.path.join(mbt.VERIF, "known", k["file"])) as f:
            line = f.read()
        if mbt.replay_one(exe, registry.H[h], line, self.wd, self.seed,
                          k.get("mask", "v")):
            log("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    h = registry.H[d["harness"]]
    try:
        exe = mbt.build(h)
    except CompileError as e:
        log(e.text[:4000])
        log("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    wd = os.path.join(mbt.OUT, "replay")
    os.makedirs(wd, exist_ok=True)
    if d["kind"] == "trace":
        # schedules vary: record again with the same seed, several times
        bad = None
        for _ in range(5):
            lines, bad = mbt.record(exe, h, d["tkind"], d["tseed"], d["num"], wd, 600)
            if bad:
                break
            for i, v in enumerate(mbt.judge(dict(name="replay", monitor=d.get(
                    "monitor", "LoopTrace")), lines, wd)[0]):
                if v is not None:
                    bad = "%s\n%s" % (v[1], lines[i])
            if bad:
                break
        if bad:
            log(bad)
            log("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        log("conforms")
        return 0
    if not d.get("line"):
        log("nothing to replay")
        return 0
    r = mbt.replay_one(exe, h, d["line"], wd, d["seed"], d.get("mask", ""))
    if r:
        log(r)
        log("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    log("conforms")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay_file(a.replay)
        return Check(a.property, a.tier, a.seed).run()
    except Failure as e:
        log("CHECK FAILED:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
