"""Replays specification behaviours into the real code and compares every observation.

A behaviour is a list of steps {"op": str, "args": [...], "exp": [...]}. The harness reads one line
per step ("op tok tok ...") and answers with one line ("= tok tok ..." or "! ExceptionKind").

Values used in args and exp (all exact; they come from the specification):
  int                      exact integer
  "text"                   string token (percent-encoded on the wire)
  {"n":a,"d":b}            rational a/b
  {"q":[x,y,z,w]}          the unit quaternion (x,y,z,w)/norm; in exp: up to sign
  {"qs":[x,y,z,w]}         the same with sign
  {"v":[..],"d":b}         vector of rationals with a common denominator
  {"h":[..]}               exp only: homogeneous vector/matrix, equal up to a nonzero factor
  {"sq":a,"d":b}           exp only: sqrt(a/b)
  {"any":k}                exp only: k arbitrary tokens
  {"exc":kind}             exp only, alone: the call must throw (kind: "" any, or the kind name)
  {"tol":t,"x":value}      value with its own relative/absolute tolerance
  {"rng":[lo,hi]}          exp only: number in the closed range
  {"one":[[..],..]}        exp only: one of several alternatives
  {"fn":name,"x":[..]}     a function of values: sum prod inv sqrt exp log atan sin cos acos deg pi
"""
import math, os, subprocess, urllib.parse, time

DEF_TOL = 1e-9


def fnum(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    return repr(float(x))


FNS = {"sum": lambda *a: math.fsum(a), "prod": lambda *a: math.prod(a), "inv": lambda a: 1.0 / a,
       "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "atan": math.atan, "sin": math.sin, "cos": math.cos,
       "acos": math.acos, "deg": math.degrees, "pi": lambda: math.pi}


def num(x):
    """the value of a scalar expression"""
    if isinstance(x, (int, float)):
        return x
    if "fn" in x:
        return FNS[x["fn"]](*[num(a) for a in x["x"]])
    if "sq" in x:
        return math.sqrt(x["sq"] / x.get("d", 1))
    if "x" in x:
        return num(x["x"])
    return x["n"] / x["d"]


def enc(v):
    """encodes an argument into wire tokens"""
    if isinstance(v, bool):
        return ["1" if v else "0"]
    if isinstance(v, (int, float)):
        return [fnum(v)]
    if isinstance(v, str):
        return ["~" + urllib.parse.quote(v, safe="")]
    if isinstance(v, list):
        r = []
        for e in v:
            r += enc(e)
        return r
    if "fn" in v:
        return [fnum(float(num(v)))]
    if "x" in v:
        return enc(v["x"])
    if "n" in v:
        return [fnum(v["n"] / v["d"])]
    if "q" in v or "qs" in v:
        q = v.get("q", v.get("qs"))
        n = math.sqrt(sum(c * c for c in q))
        return [fnum(c / n) for c in q]
    if "v" in v:
        d = v.get("d", 1)
        return [fnum(c / d) if d != 1 else fnum(c) for c in flat(v["v"])]
    raise ValueError(f"cannot encode {v!r}")


def flat(l):
    r = []
    for e in l:
        if isinstance(e, list):
            r += flat(e)
        else:
            r.append(e)
    return r


class Mismatch(Exception):
    pass


def _close(a, e, tol):
    if math.isnan(a) or math.isinf(a):
        return False
    return abs(a - e) <= tol * max(1.0, abs(e))


def _f(tok):
    try:
        return float(tok)
    except ValueError:
        raise Mismatch(f"expected a number, got {tok!r}")


def compare(exp, toks, tol=DEF_TOL):
    """consumes tokens; raises Mismatch"""
    rest = list(toks)

    def take(n=1):
        nonlocal rest
        if len(rest) < n:
            raise Mismatch("too few values in the answer")
        r, rest = rest[:n], rest[n:]
        return r

    def cmp(e, tol):
        nonlocal rest
        if isinstance(e, bool):
            t, = take()
            if t != ("1" if e else "0"):
                raise Mismatch(f"expected {e}, got {t}")
        elif isinstance(e, int):
            t, = take()
            try:
                ok = int(t) == e
            except ValueError:
                f = _f(t)
                ok = _close(f, float(e), tol)
            if not ok:
                raise Mismatch(f"expected {e}, got {t}")
        elif isinstance(e, float):
            t, = take()
            if not _close(_f(t), e, tol):
                raise Mismatch(f"expected {e}, got {t}")
        elif isinstance(e, str):
            t, = take()
            s = urllib.parse.unquote(t[1:]) if t.startswith("~") else t
            if s != e:
                raise Mismatch(f"expected {e!r}, got {s!r}")
        elif isinstance(e, list):
            for x in e:
                cmp(x, tol)
        elif "tol" in e:
            cmp(e["x"], eval_tol(e["tol"]))
        elif "any" in e:
            take(e["any"])
        elif "one" in e:
            before = list(rest)
            for alt in e["one"]:
                rest = list(before)
                try:
                    cmp(alt, tol)
                    break
                except Mismatch:
                    pass
            else:
                raise Mismatch(f"none of {len(e['one'])} alternatives: {' '.join(before[:40])}")
        elif "fn" in e:
            t, = take()
            v = num(e)
            if not _close(_f(t), v, tol):
                raise Mismatch(f"expected {v!r}, got {t}")
        elif "rng" in e:
            t, = take()
            lo, hi = [num(x) for x in e["rng"]]
            f = _f(t)
            if not (lo - tol * max(1, abs(lo)) <= f <= hi + tol * max(1, abs(hi))):
                raise Mismatch(f"expected a value in [{lo},{hi}], got {t}")
        elif "n" in e:
            t, = take()
            v = e["n"] / e["d"]
            if not _close(_f(t), v, tol):
                raise Mismatch(f"expected {e['n']}/{e['d']}={v!r}, got {t}")
        elif "sq" in e:
            t, = take()
            v = math.sqrt(e["sq"] / e.get("d", 1))
            if not _close(_f(t), v, tol):
                raise Mismatch(f"expected sqrt({e['sq']}/{e.get('d', 1)})={v!r}, got {t}")
        elif "q" in e or "qs" in e:
            q = e.get("q", e.get("qs"))
            n = math.sqrt(sum(c * c for c in q))
            q = [c / n for c in q]
            a = [_f(t) for t in take(4)]
            ok = all(_close(x, y, tol) for x, y in zip(a, q))
            if not ok and "q" in e:
                ok = all(_close(x, -y, tol) for x, y in zip(a, q))
            if not ok:
                raise Mismatch(f"expected quaternion {q}, got {a}")
        elif "v" in e:
            fl = flat(e["v"])
            d = e.get("d", 1)
            a = take(len(fl))
            # one scale for the whole vector: its largest entry
            sc = max([1.0] + [abs(x / d) for x in fl])
            for i, (t, x) in enumerate(zip(a, fl)):
                f = _f(t)
                if not (abs(f - x / d) <= tol * sc):
                    raise Mismatch(f"component {i}: expected {x}/{d}={x / d!r}, got {t} (vector {a})")
        elif "h" in e:
            fl = [float(x) for x in flat(e["h"])]
            a = [_f(t) for t in take(len(fl))]
            if any(math.isnan(x) or math.isinf(x) for x in a):
                raise Mismatch(f"not finite: {a}")
            na = math.sqrt(sum(x * x for x in a))
            ne = math.sqrt(sum(x * x for x in fl))
            if na == 0:
                raise Mismatch("zero homogeneous entity")
            dot = sum(x * y for x, y in zip(a, fl)) / (na * ne)
            s = 1.0 if dot > 0 else -1.0
            if not all(abs(x / na - s * y / ne) <= tol for x, y in zip(a, fl)):
                raise Mismatch(f"expected {fl} up to scale, got {a}")
        else:
            raise ValueError(f"bad expectation {e!r}")

    for e in exp:
        cmp(e, tol)
    if rest:
        raise Mismatch(f"unexpected extra values {rest[:8]}")


def eval_tol(t):
    # tolerances in specs are given as -log10, e.g. 6 -> 1e-6
    return 10.0 ** (-t)


def step_line(step):
    toks = [step["op"]]
    for a in step["args"]:
        toks += enc(a)
    return " ".join(toks)


class Result:
    def __init__(self):
        self.behaviours = 0
        self.steps = 0
        self.ops = {}
        self.violations = []   # dicts


def run_harness(binary, lines, timeout, env=None, cwd=None):
    """feeds lines to the harness. returns (answers, ended) where ended is 'ok', 'crash rc' or 'timeout'"""
    p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         text=True, errors="replace", env=env, cwd=cwd)
    try:
        out, _ = p.communicate("\n".join(lines) + "\n", timeout=timeout)
        ended = "ok" if p.returncode == 0 else f"crash rc={p.returncode}"
    except subprocess.TimeoutExpired as ex:
        p.kill()
        out, _ = p.communicate()
        ended = "timeout"
    return [l for l in out.split("\n") if l[:1] in ("=", "!")], ended


def replay(binary, docs, tol=DEF_TOL, timeout=300, env=None, cwd=None, max_viol=5, post=None, per_doc=False):
    """replays every behaviour. A behaviour starts with the implicit command 'case'."""
    res = Result()
    i = 0
    deadline = time.time() + timeout
    hangs = 0
    while i < len(docs):
        batch = docs[i:i + 1] if per_doc else docs[i:]
        lines = []
        for b in batch:
            lines.append("case")
            lines += [step_line(s) for s in b]
        ans, ended = run_harness(binary, lines, max(5, deadline - time.time()), env, cwd)
        pos = 0
        done = 0
        stop = False
        for b in batch:
            need = 1 + len(b)
            got = ans[pos:pos + need]
            bad = None
            for k in range(1, min(need, len(got))):
                s = b[k - 1]
                res.steps += 1
                res.ops[s["op"]] = res.ops.get(s["op"], 0) + 1
                try:
                    check_answer(s, got[k], tol)
                except Mismatch as m:
                    bad = (k - 1, str(m), got[k])
                    break
            if len(got) < need:
                stop = True
                hangs += ended in ("timeout", "crash rc=-27", "crash rc=-14")
                if bad is None:
                    bad = (max(len(got) - 1, 0), f"the code did not answer this step ({ended})", "")
            res.behaviours += 1
            done += 1
            if bad is not None:
                res.violations.append({"behaviour": b, "step": bad[0], "why": bad[1], "answer": bad[2]})
                if len(res.violations) >= max_viol or hangs >= 2:
                    return res
            if stop:
                break
            pos += need
        i += done
        if time.time() > deadline and i < len(docs):
            if res.violations:
                return res
            raise TimeoutError(f"replay budget of {timeout}s used up after {i} of {len(docs)} behaviours")
    return res


def check_answer(s, a, tol):
    exp = s["exp"]
    kind = a[0]
    toks = a[1:].split()
    if len(exp) == 1 and isinstance(exp[0], dict) and "exc" in exp[0]:
        if kind != "!":
            raise Mismatch(f"expected an exception, got a result: {a[:200]}")
        want = exp[0]["exc"]
        if want and (not toks or toks[0] != want):
            raise Mismatch(f"expected exception {want}, got {a[:200]}")
        return
    if kind == "!":
        raise Mismatch(f"unexpected exception: {a[:300]}")
    compare(exp, toks, tol)
