"""Running TLC: exhaustive model checking, behaviour generation, trace validation."""
import json, os, re, shutil, subprocess, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")


class ModelError(Exception):
    """the specification itself failed (a defect of /verif, never of the code under test)"""


def _stage(work, extra_files=()):
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    for f in glob.glob(os.path.join(SPEC, "*.tla")) + glob.glob(os.path.join(SPEC, "*.cfg")):
        shutil.copy(f, d)
    for f in extra_files:
        shutil.copy(f, d)
    return d


def _run(d, args, env, timeout, heap="4g"):
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -Dtlc2.TLC.ide=verif"
    e.update({k: str(v) for k, v in (env or {}).items()})
    try:
        r = subprocess.run(["tlc"] + args, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        raise ModelError(f"TLC timed out after {timeout}s: {' '.join(args)}\n{o[-2000:]}")
    return r.returncode, r.stdout


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states checked", out)
        if m2:
            n = int(m2[-1].replace(",", ""))
            return n, n
        m3 = re.findall(r"number of states generated: ([\d,]+)", out)
        if m3:
            n = int(m3[-1].replace(",", ""))
            return n, n
        return 0, 0
    g, dd = m[-1]
    return int(g.replace(",", "")), int(dd.replace(",", ""))


def model_check(work, module, cfg, workers=4, timeout=600, env=None, heap="6g", coverage=False):
    d = _stage(work)
    args = ["-workers", str(workers), "-config", cfg, "-metadir", os.path.join(d, "states")]
    if coverage:
        args += ["-coverage", "1"]
    rc, out = _run(d, args + [module], env, timeout, heap)
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or "No error has been found" not in out:
        if workers > 1:      # TLC's shared lazy values are not safe under contention; a real error shows up again
            return model_check(work, module, cfg, 1, timeout, env, heap, coverage)
        raise ModelError(f"TLC {module}/{cfg} rc={rc}\n{out[-5000:]}")
    gen, dist = _stats(out)
    if dist == 0:
        raise ModelError("no states")
    return {"module": module, "cfg": cfg, "generated": gen, "distinct": dist, "out": out}


def generate(work, module, cfg, seed=1, num=100, depth=30, timeout=600, env=None, exhaustive=False,
             workers=1, heap="4g", unique=True):
    """Runs the generator configuration and returns the list of JSON documents that the
    specification wrote with CSVWrite to IOEnv.OUT (one per line)."""
    d = _stage(work)
    outf = os.path.join(d, "out.ndjson")
    ev = {"OUT": outf, "DEPTH": depth}
    ev.update(env or {})
    if exhaustive:
        args = ["-workers", str(workers), "-config", cfg, "-metadir", os.path.join(d, "states"), module]
    else:
        args = ["-workers", str(workers), "-simulate", f"num={num}", "-depth", str(depth + 5), "-seed", str(seed),
                "-config", cfg, "-metadir", os.path.join(d, "states"), module]
    rc, out = _run(d, args, ev, timeout, heap)
    if rc != 0 or "Error:" in out:
        raise ModelError(f"TLC generate {module}/{cfg} rc={rc}\n{out[-5000:]}")
    docs = []
    seen = set()
    if os.path.exists(outf):
        with open(outf) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                if unique:
                    if line in seen:
                        continue
                    seen.add(line)
                doc = json.loads(line)
                docs.append(json.loads(doc) if isinstance(doc, str) else doc)
    shutil.rmtree(d, ignore_errors=True)
    gen, dist = _stats(out)
    if not docs:
        raise ModelError(f"generator {module}/{cfg} produced no behaviour\n{out[-3000:]}")
    return docs, {"module": module, "cfg": cfg, "generated": gen, "docs": len(docs)}


def validate(work, module, cfg, trace_lines, timeout=600, env=None, heap="4g", dfs=False):
    """Trace validation. Returns (accepted, info). A trace is a list of dicts, one event each."""
    d = _stage(work)
    tf = os.path.join(d, "trace.ndjson")
    with open(tf, "w") as f:
        for t in trace_lines:
            f.write(json.dumps(t) + "\n")
    ev = {"TRACE": tf}
    ev.update(env or {})
    if dfs:
        ev["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -Dtlc2.tool.queue.IStateQueue=StateDeque"
    args = ["-workers", "1", "-config", cfg, "-metadir", os.path.join(d, "states"), module]
    rc, out = _run(d, args, ev, timeout, heap)
    shutil.rmtree(d, ignore_errors=True)
    gen, dist = _stats(out)
    if rc == 0 and "No error has been found" in out:
        return True, {"generated": gen, "distinct": dist, "out": out}
    # rejection = postcondition false or a trace-level invariant violated
    if re.search(r"[Pp]ostcondition|is violated", out):
        return False, {"generated": gen, "distinct": dist, "out": out[-6000:]}
    raise ModelError(f"TLC validate {module}/{cfg} rc={rc}\n{out[-5000:]}")


def rejected(work, module, cfg, path, n, timeout=600, heap="4g"):
    """batch trace validation: the module walks through the n traces in the ndjson file; None or the index of the first rejected trace"""
    d = _stage(work)
    rc, out = _run(d, ["-workers", "1", "-config", cfg, "-metadir", os.path.join(d, "states"), module], {"TRACE": path}, timeout, heap)
    shutil.rmtree(d, ignore_errors=True)
    gen, dist = _stats(out)
    if rc == 0 and "No error has been found" in out:
        if dist != n + 1:
            raise ModelError(f"{module}: {dist} states for {n} traces\n{out[-3000:]}")
        return None
    ks = re.findall(r"/\\ k = (\d+)", out)
    if "is violated" in out and ks:
        return int(ks[-1]) - 1
    raise ModelError(f"TLC {module}/{cfg} rc={rc}\n{out[-5000:]}")
