"""Mutation testing of the checks.

python3 tools/mutate.py list FILE...       counts the mutants of headers of lager
python3 tools/mutate.py run RESULTS FILE:PROP,PROP... [--every N] [--offset K]

Run under tools/mutns.sh, which mounts a scratch copy over /repo.  Every mutant
is tried against the quick checks in the order given until one reports; for the
ones that none of them reports the tests of the repository are run.  Results are
appended to RESULTS, one JSON object for each mutant."""
import json
import os
import re
import subprocess
import sys
import time

REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SKIP = re.compile(r"^\s*(//|/\*|\*|#|template|using|typedef|friend|static_assert|"
                  r"namespace|class|struct|enum|public|private|protected|LAGER_STATIC|"
                  r"BOOST_HANA|Q_|extern)")
STMT = re.compile(r"^(\s+)([^\s].*;)\s*\\?$")


def mutants(path):
    lines = open(path).read().split("\n")
    out = []
    doc = False

    def put(i, new, what, n=1):
        out.append((i, n, new, what))

    for i, l in enumerate(lines):
        if "/*" in l:
            doc = True
        if doc:
            if "*/" in l:
                doc = False
            continue
        code = l.split("//")[0].rstrip()
        if not code.strip() or SKIP.match(code):
            continue
        prev = ""
        for j in range(i - 1, -1, -1):
            if lines[j].split("//")[0].strip():
                prev = lines[j].split("//")[0].strip()
                break
        bs = " \\" if code.endswith("\\") else ""
        body = code[:-1].rstrip() if bs else code
        st = body.strip()
        starts = prev.rstrip("\\").rstrip()[-1:] in "{};):" or prev.startswith("else")
        if (starts and st.endswith(";") and st.count("(") == st.count(")")
                and st.count("{") == st.count("}") and
                not re.match(r"(return|auto|const|constexpr|static|break|continue|"
                             r"mutable|virtual|throw|default|case|~)\b", st)
                and re.search(r"\(|=|\+\+|--", st)
                and not re.search(r"\)\s*(const)?\s*(noexcept)?\s*(override|= 0|= default"
                                  r"|= delete)", st)):
            ind = body[:len(body) - len(body.lstrip())]
            put(i, ind + "(void) 0;" + bs, "delete")
            nxt = lines[i + 1] if i + 1 < len(lines) else ""
            ns = nxt.split("//")[0].rstrip().rstrip("\\").strip()
            if (ns.endswith(";") and ns.count("(") == ns.count(")") and
                    not re.match(r"(using|typedef)\b", ns) and "(" in ns
                    and "return" not in ns):
                put(i, None, "swap", 2)
        if re.match(r"return\b", st) and st.endswith(";") and 0:
            pass
        m = re.search(r"\bif \((.*)\)( \{)?$", body)
        if m and not re.search(r"\bif constexpr", body) and \
                m.group(1).count("(") == m.group(1).count(")"):
            put(i, body[:m.start()] + "if (!(" + m.group(1) + "))" + (m.group(2) or "")
                + bs, "negate")
        for a, b in ((r" == ", " != "), (r" != ", " == "), (r" && ", " || "),
                     (r" \|\| ", " && "), (r" < ", " <= "), (r" <= ", " < "),
                     (r" > ", " >= "), (r" >= ", " > "), (r" \+ 1\b", ""),
                     (r" - 1\b", ""), (r"\btrue\b(?!_)", "false"),
                     (r"\bfalse\b(?!_)", "true"), (r"\bfront\(", "back("),
                     (r"\bback\(", "front("),                                           (r"\bauto& ", "auto "),
                     (r"\bbegin\(", "end("), (r" \+= ", " -= "), (r"(?<![\w+])\+\+(?=\w)", "--"),
                     (r"\bcurrent\(\)", "last()"), (r"\blast\(\)", "current()"),
                     (r"\bcurrent_", "last_"), (r"\blast_", "current_"),
                     (r"!(?=[\w(])", ""),                                           (r"<0>", "<1>"), (r"<1>", "<0>"), (r"\b0\b(?!>)", "1"), (r"\b1\b(?!>)", "0")):
            for m in re.finditer(a, body):
                put(i, body[:m.start()] + b + body[m.end():] + bs,
                    "%s -> %s" % (a.strip(), b.strip()))
    return lines, out


def apply(path, lines, m):
    i, n, new, what = m
    l = list(lines)
    if what == "swap":
        l[i], l[i + 1] = l[i + 1], l[i]
    else:
        l[i] = new
    with open(path, "w") as f:
        f.write("\n".join(l))


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout,
                           start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-f", "mutwork"])
        return 124, ""


def tests():
    r, o = sh(["bash", "/opt/vp/build.sh"], 900)
    if r:
        return "does not build"
    sh(["bash", "/opt/vp/test.sh", "/tmp/mut-res.json"], 300)
    b = json.load(open("/opt/vp/BASELINE.json"))
    b = b.get("stable") or b.get("passed") or b.get("tests") or b
    names = [x if isinstance(x, str) else x.get("name") for x in b]
    try:
        got = set(json.load(open("/tmp/mut-res.json"))["passed"])
    except OSError:
        return "fail"
    miss = [x for x in names if x not in got]
    return ("fail: " + miss[0]) if miss else "pass"


def main():
    if sys.argv[1] == "list":
        t = 0
        for f in sys.argv[2:]:
            n = len(mutants(os.path.join(REPO, f))[1])
            t += n
            print(n, f)
        print(t)
        return
    res = sys.argv[2]
    every = int(sys.argv[sys.argv.index("--every") + 1]) if "--every" in sys.argv else 1
    off = int(sys.argv[sys.argv.index("--offset") + 1]) if "--offset" in sys.argv else 0
    done = set()
    if os.path.exists(res):
        for l in open(res):
            d = json.loads(l)
            done.add((d["f"], d["l"], d["new"], d["what"]))
    for a in sys.argv[3:]:
        if ":" not in a:
            continue
        f, props = a.split(":")
        p = os.path.join(REPO, f)
        lines, ms = mutants(p)
        for k, m in enumerate(ms):
            if k % every != off:
                continue
            key = (f, m[0] + 1, (m[2] or "").strip(), m[3])
            if key in done:
                continue
            t = time.time()
            apply(p, lines, m)
            verdict = "survives"
            why = ""
            for c in props.split(","):
                r, o = sh(["python3", V + "/lib/check.py", c], 900)
                v = [x for x in o.splitlines() if x.startswith("  ") and not
                     x.startswith("  %s/" % c)]
                if r == 1:
                    verdict = c
                    why = (v[0] if v else "")[:300]
                    if "do not compile" in why:
                        verdict = "nocompile"
                    break
                if r:
                    verdict = "%s exits %d" % (c, r)
                    why = o[-400:]
                    break
            tst = tests() if verdict == "survives" or " exits " in verdict else ""
            with open(p, "w") as g:
                g.write("\n".join(lines))
            with open(res, "a") as g:
                g.write(json.dumps(dict(f=f, l=m[0] + 1, old=lines[m[0]].strip(),
                                        new=(m[2] or "").strip(), what=m[3],
                                        verdict=verdict, tests=tst, why=why,
                                        s=round(time.time() - t))) + "\n")


main()
