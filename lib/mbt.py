"""Model-based checking: run TLC on a specification, replay the behaviours that
it prints into harnesses compiled against /repo, and report departures.

A check is a list of jobs.  A job names a module and a TLC configuration, the
harness that replays its behaviours, and what is compared.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
WORK = os.environ.get("VERIF_WORK", VERIF)
BUILD = os.path.join(WORK, "build")
OUT = os.path.join(WORK, "out")
CORES = min(8, os.cpu_count() or 8)


class Failure(Exception):
    """The check itself failed (exit 2)."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "lager"), os.path.join(REPO, "cereal"),
             os.path.join(REPO, "resources"), HARN]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


_hash = None


def cached_hash():
    global _hash
    if _hash is None:
        _hash = tree_hash()
    return _hash


class CompileError(Exception):
    def __init__(self, what, text):
        super().__init__(what)
        self.text = text


def run_cmd(cmd, timeout=800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout, **kw)


def compile_one(cmd):
    r = run_cmd(cmd)
    if r.returncode != 0:
        r = run_cmd(cmd)        # once more: was it the machine?
        if r.returncode != 0:
            if " error: " in r.stdout and "internal compiler error" not in r.stdout:
                raise CompileError(" ".join(cmd), r.stdout)
            raise Failure("compiler failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build(h):
    """h: dict(name, srcs, std, flags, libs, moc).  Returns the executable."""
    key = hashlib.sha256(json.dumps(h, sort_keys=True).encode()).hexdigest()[:8]
    d = os.path.join(BUILD, "%s-%s-%s" % (h["name"], cached_hash(), key))
    exe = os.path.join(d, h["name"])
    if os.path.exists(exe):
        return exe
    for old in (os.listdir(BUILD) if os.path.isdir(BUILD) else []):
        # leftovers of other trees
        if old.startswith(h["name"] + "-") and cached_hash() not in old:
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + REPO, "-I" + HARN, "-I" + d]
    base = [h.get("cxx", "g++"), "-std=" + h.get("std", "c++17"), "-O0", "-g1"] \
        + h.get("flags", []) + inc
    if h.get("gen"):
        h["gen_fn"](d) if "gen_fn" in h else None
    for src in h.get("moc", []):
        r = run_cmd([h.get("moc_cmd", "/usr/lib/qt5/bin/moc")] + inc +
                    [os.path.join(HARN, src), "-o",
                     os.path.join(d, "moc_" + os.path.splitext(src)[0] + ".cpp")])
        if r.returncode != 0:
            raise CompileError("moc " + src, " error: " + r.stdout)
    jobs = []
    for s in h["srcs"]:
        p = s if s.startswith("/") else os.path.join(HARN, s)
        o = os.path.join(d, os.path.basename(s) + ".o")
        jobs.append((base + ["-c", p, "-o", o], o))
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda j: compile_one(j[0]), jobs))
    tmp = exe + ".tmp"
    compile_one([h.get("cxx", "g++")] + h.get("flags", []) + [j[1] for j in jobs] +
                ["-o", tmp] + h.get("libs", []))
    os.rename(tmp, exe)
    return exe


# ----------------------------------------------------------------------- tlc
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, str):
        return '"' + v + '"'
    return str(v)


class Def(str):
    """A constant replaced by a definition of the module."""


def write_cfg(path, job, consts):
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\n" % job.get("spec", "Spec"))
        if consts:
            f.write("CONSTANTS\n")
        for k, v in sorted(consts.items()):
            f.write("  %s %s %s\n" % ((k, "<-", str(v)) if isinstance(v, Def)
                                      else (k, "=", tla(v))))
        if job.get("view") and not job.get("sim"):
            f.write("VIEW %s\n" % job["view"])
        for i in job.get("inv", []):
            f.write("INVARIANT %s\n" % i)
        if not job.get("sim"):
            for p in job.get("prop", []):
                f.write("PROPERTY %s\n" % p)
        if job.get("constraint"):
            f.write("CONSTRAINT %s\n" % job["constraint"])
        if job.get("emit"):
            f.write("ACTION_CONSTRAINT %s\n" % job["emit"])
        f.write("CHECK_DEADLOCK FALSE\n")


JAVA = ["java", "-XX:+UseParallelGC", "-Xmx%s" % os.environ.get("VERIF_HEAP", "6g"),
        "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
        "tlc2.TLC"]


def tlc(job, consts, wd, seed, sim=None, tag="", workers=CORES, timeout=800):
    """Returns (output file, dict of statistics)."""
    cfg = os.path.join(wd, job["name"] + tag + ".cfg")
    out = os.path.join(wd, job["name"] + tag + ".out")
    meta = os.path.join(wd, "meta-" + job["name"] + tag)
    shutil.rmtree(meta, ignore_errors=True)
    write_cfg(cfg, job, consts)
    env = dict(os.environ)
    java = list(JAVA)
    if sim:
        java[2] = "-Xmx1500m"
        java[1] = "-XX:+UseSerialGC"
    cmd = java + ["-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if sim:
        cmd += ["-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]),
                "-seed", str(seed), "-workers", "1"]
    else:
        cmd += ["-workers", str(workers)]
    cmd += [job["module"] + ".tla"]
    t = time.time()
    # (experiments with many changes of the implementation reuse the output: the
    # registered checks never do)
    cache = "TraceFile" not in consts and os.environ.get("VERIF_TLC_CACHE")
    if cache:
        k = hashlib.sha256(json.dumps([cmd[-1], sim, seed if sim else 0,
                                       open(cfg).read()]).encode())
        for m in sorted(os.listdir(SPEC)):
            if m.endswith(".tla"):
                with open(os.path.join(SPEC, m), "rb") as f:
                    k.update(f.read())
        cache = os.path.join(cache, k.hexdigest()[:24])
        if os.path.exists(cache + ".json"):
            shutil.copy(cache, out)
            with open(cache + ".json") as f:
                return out, json.load(f)
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT,
                               env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Failure("TLC did not finish: " + job["name"])
        finally:
            shutil.rmtree(meta, ignore_errors=True)
    st = {"wall": time.time() - t, "states": 0, "generated": 0, "behaviours": 0}
    text = []
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"B'):
                st["behaviours"] += 1
            else:
                text.append(line)
    text = "".join(text)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        st["generated"], st["states"] = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", text)
    if m:
        st["generated"] = int(m.group(1))
    ok = p.returncode == 0 and ("No error has been found" in text or
                                (sim and "Simulation using seed" in text
                                 and "Error:" not in text))
    if not ok:
        raise Failure("TLC rejects the specification (%s):\n%s" %
                      (job["name"], "".join(
                            [l for l in text.splitlines(True)
                             if l.startswith("Error")][:4]) + text[-6000:]))
    if cache:
        shutil.copy(out, cache)
        with open(cache + ".json", "w") as f:
            json.dump(st, f)
    return out, st


def group(path, key, val, name):
    """Puts the behaviours with the same key together: one line each."""
    d = {}
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith('"B'):
                j = json.loads(json.loads(line)[1:])
                k = json.dumps(j[key])
                d.setdefault(k, {})[json.dumps(j[val])] = j[val]
    with open(path, "w") as f:
        for k, v in sorted(d.items()):
            f.write(json.dumps("B" + json.dumps(
                {key: json.loads(k), name: list(v.values())})) + "\n")
    return len(d)


# -------------------------------------------------------------------- replay
def harness_env(h):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=%d:abort_on_error=1:handle_abort=0" % \
        (1 if h.get("leaks") else 0)
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=66"
    e["QT_QPA_PLATFORM"] = "offscreen"
    e["SDL_VIDEODRIVER"] = "dummy"
    e["QT_LOGGING_RULES"] = "*=false"
    e["QT_QUICK_BACKEND"] = "software"
    e["XDG_RUNTIME_DIR"] = BUILD
    e.update(h.get("env", {}))
    return e


def raw_line(path, no):
    n = -1
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith('"B'):
                n += 1
                if n == no:
                    return line
    raise Failure("no behaviour %d in %s" % (no, path))


def replay_one(exe, h, line, wd, seed, mask, timeout=60):
    """Replays one behaviour in a fresh process; None, or what went wrong."""
    p = os.path.join(wd, "one-%d.beh" % os.getpid())
    with open(p, "w") as f:
        f.write(line)
    try:
        r = run_cmd([exe, p, "--seed", str(seed)] + (["--mask", mask] if mask else []),
                    timeout=timeout, env=harness_env(h), cwd=wd)
    except subprocess.TimeoutExpired:
        return "it does not terminate"
    finally:
        os.unlink(p)
    for l in r.stdout.splitlines():
        if l.startswith("FAIL "):
            return l.split(" ", 2)[2]
        if l.startswith("BADINPUT"):
            raise Failure(l)
    if r.returncode != 0:
        return "it crashes (exit %d): %s" % (r.returncode, tail(r.stdout))
    if "DONE " not in r.stdout:
        return "it ends the process early: " + tail(r.stdout)
    return None


def tail(s, n=1200):
    s = s.strip()
    m = re.search(r"(==\d+==ERROR|WARNING: ThreadSanitizer|.*runtime error|.*[Aa]ssert).*",
                  s, re.S)
    s = m.group(0) if m else s
    return s[:n].replace("\n", " | ")


def replay(exe, h, beh, wd, seed, mask, timeout, shards=CORES, maxfail=3):
    """Replays a file of behaviours.  Returns (failures, stats)."""
    procs = []
    tag = hashlib.sha256(beh.encode()).hexdigest()[:6]
    for i in range(shards):
        cur = os.path.join(wd, "cur-%s-%d" % (tag, i))
        cmd = [exe, beh, "--shard", str(i), "--shards", str(shards), "--seed",
               str(seed), "--cur", cur, "--maxfail", str(maxfail)]
        if mask:
            cmd += ["--mask", mask]
        o = open(cur + ".log", "w+")
        procs.append((subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT,
                                       env=harness_env(h), cwd=wd), cur, o))
    fails, stats = [], {"behaviours": 0, "steps": 0, "compared": 0, "ops": {}}
    end = time.time() + timeout
    for p, cur, o in procs:
        hang = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            hang = True
            p.kill()
            p.wait()
        o.seek(0)
        text = o.read()
        o.close()
        done = False
        for l in text.splitlines():
            if l.startswith("FAIL "):
                _, no, msg = l.split(" ", 2)
                fails.append((int(no), msg))
            elif l.startswith("DONE "):
                done = True
                w = l.split()
                stats["behaviours"] += int(w[1])
                stats["steps"] += int(w[2])
                stats["compared"] += int(w[3])
                for x in w[4:]:
                    k, v = x.rsplit("=", 1)
                    stats["ops"][k] = stats["ops"].get(k, 0) + int(v)
            elif l.startswith("BADINPUT"):
                raise Failure(l)
        if not done or p.returncode != 0:
            no = 0
            try:
                with open(cur, "rb") as f:
                    no = int.from_bytes(f.read(8), "little", signed=True)
            except OSError:
                pass
            if no > 0:
                fails.append((no - 1, "hang" if hang else
                              "it crashes (exit %d): %s" % (p.returncode, tail(text))))
            elif p.returncode != 0 and done:
                fails.append((-1, "it crashes when it ends: " + tail(text)))
            else:
                raise Failure("harness failed (exit %s): %s" % (p.returncode, text[-2000:]))
        for x in (cur, cur + ".log"):
            try:
                os.unlink(x)
            except OSError:
                pass
    return fails, stats


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, int):
        yield path


def tamper(exe, h, beh, wd, seed, mask, num=100):
    """Replays behaviours in which one expected observation was changed: how
    many, and how many of them the replay rejects (it can not reject those
    whose change is masked or allowed)."""
    import random
    rnd = random.Random(seed)
    lines = []
    with open(beh, errors="replace") as f:
        for n, line in enumerate(l for l in f if l.startswith('"B')):
            if len(lines) < num:
                lines.append(line)
            elif rnd.randrange(n + 1) < num:
                lines[rnd.randrange(num)] = line
    out = []
    for line in lines:
        b = json.loads(json.loads(line)[1:])
        if not isinstance(b, dict) or not b.get("h") or "o" not in b["h"][-1]:
            return 0, 0
        steps = [(i, p) for i in range(1, len(b["h"])) for p in leaves(b["h"][i]["o"])]
        if not steps:
            continue
        i, p = rnd.choice(steps)
        o = b["h"][i]["o"]
        for k in p[:-1]:
            o = o[k]
        o[p[-1]] = not o[p[-1]] if isinstance(o[p[-1]], bool) else o[p[-1]] + 1
        out.append(json.dumps("B" + json.dumps(b)))
    if not out:
        return 0, 0
    f = os.path.join(wd, "tampered.beh")
    rejected = 0
    while out and rejected < 10:       # it may crash at one of them
        with open(f, "w") as o:
            o.write("".join(l + "\n" for l in out))
        try:
            r = run_cmd([exe, f, "--seed", str(seed), "--maxfail", "1000"] +
                        (["--mask", mask] if mask else []),
                        timeout=60, env=harness_env(h), cwd=wd)
        except subprocess.TimeoutExpired:
            break
        rejected += len({l.split(" ")[1] for l in r.stdout.splitlines()
                         if l.startswith("FAIL ")})
        if "DONE " in r.stdout:
            break
        out = out[len(out) // 2:]
    os.unlink(f)
    return len(lines), rejected


# -------------------------------------------------------------------- traces
def record(exe, h, kind, seed, num, wd, timeout):
    """Records traces.  Returns (lines, what went wrong or None)."""
    try:
        r = run_cmd([exe, "--kind", kind, "--seed", str(seed), "--traces", str(num)],
                    timeout=timeout, env=harness_env(h), cwd=wd)
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        return [], "the loop does not end: " + o[-500:]
    lines = [l[1:] for l in r.stdout.splitlines() if l.startswith("T{")
             and l.endswith("}")]
    for l in r.stdout.splitlines():
        if l.startswith("BADINPUT"):
            raise Failure(l)
        if l.startswith("HANG"):
            return lines, "the loop does not end, trace %s of %s, seed %d" % (
                l[5:], kind, seed)
    if r.returncode != 0 or "DONE " not in r.stdout:
        rest = "\n".join(l for l in r.stdout.splitlines() if not l.startswith("T{"))
        return lines, "it crashes (exit %d): %s" % (r.returncode, tail(rest))
    return lines, None


def corrupt(lines, seed):
    """Traces that no correct implementation produces."""
    import random
    rnd = random.Random(seed)
    out = []
    for l in rnd.sample(lines, min(5, len(lines))):
        h = json.loads(l)
        if "s" in h:            # of HTTP clients
            for i, e in enumerate(h["h"]):
                if e["e"] == "ga":
                    out.append(json.dumps(dict(h, h=h["h"][:i] + [
                        dict(e, c=e["n"] + 1)] + h["h"][i + 1:])))
                    break
            for i, e in enumerate(h["h"]):
                if e["e"] == "gs" and e["v"]:
                    out.append(json.dumps(dict(h, h=h["h"][:i] + [
                        dict(e, v=e["v"][1:])] + h["h"][i + 1:])))
                    break
    if out:
        return out
    for l in rnd.sample(lines, min(5, len(lines))):
        h = json.loads(l)
        ks = [e["k"] for e in h["h"] if e["e"] == "re"]
        if not ks:
            continue
        k = rnd.choice(ks)
        run = [e for e in h["h"] if e["e"] in ("r", "re") and e["k"] == k]
        dup = dict(h, h=[])
        for e in h["h"]:
            dup["h"].append(e)
            if e in run and e["e"] == "re":
                dup["h"] += run
        out.append(json.dumps(dup))
        out.append(json.dumps(dict(h, h=[
            dict(e, t=1 if e["t"] != 1 else 2) if e == run[0] else e
            for e in h["h"]])))
    return out


def judge(job, lines, wd, timeout=600):
    """Validates traces, in parts of 20000."""
    verdict, st = [], {"states": 0, "generated": 0, "wall": 0}
    for i in range(0, len(lines), 20000):
        v, s = judge_part(job, lines[i:i + 20000], wd, timeout)
        verdict += v
        for k in st:
            st[k] += s[k]
    return verdict, st


def judge_part(job, lines, wd, timeout):
    """Validates traces with LoopTrace.tla.  Returns (verdicts, stats): None for
    an accepted trace, (event, reason) otherwise."""
    nd = os.path.join(wd, job["name"] + ".ndjson")
    with open(nd, "w") as f:
        for l in lines:
            f.write(l + "\n")
    j = dict(name=job["name"], module=job.get("monitor", "LoopTrace"), emit="Emit")
    out, st = tlc(j, dict(TraceFile=nd), wd, 1, timeout=timeout)
    verdict = ["?"] * len(lines)
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"A{'):
                verdict[json.loads(json.loads(line)[1:])["t"] - 1] = None
            elif line.startswith('"N{'):
                d = json.loads(json.loads(line)[1:])
                verdict[d["t"] - 1] = (d["i"], d["w"])
    os.unlink(nd)
    if "?" in verdict:
        raise Failure("trace %d was not judged" % verdict.index("?"))
    return verdict, st
