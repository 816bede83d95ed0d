#!/usr/bin/env python3
"""check <property-id>: decides one property for /repo's current working tree.

exit 0  the property held on everything explored
exit 1  with a line VIOLATION property=<id> replay=<path>
exit 2  the machinery itself failed (no verdict)
"""
import concurrent.futures as cf
import copy, json, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc, mbt
import registry

VERIF = build.VERIF


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{pid}_", dir=os.path.join(VERIF, "work"))
        self.models, self.gens, self.samples = [], [], []
        self.violations = []          # {"sig","why","text"}
        self.known_hits = []
        self.behaviours = self.steps = self.traces = 0
        self.ops = {}
        self.notes = []

    def quick(self):
        return self.tier == "quick"

    # -- reporting ---------------------------------------------------------------------------
    def violation(self, sig, why, text):
        k = known_match(self.pid, sig)
        if k is not None:
            if k not in self.known_hits:
                self.known_hits.append(k)
            return
        self.violations.append({"sig": sig, "why": why, "text": text})

    # -- the standard pipeline ----------------------------------------------------------------
    def model(self, module, cfg, timeout=600, env=None):
        r = tlc.model_check(self.work, module, cfg, timeout=timeout, env=env)
        r.pop("out", None)
        self.models.append(r)
        print(f"model {module}/{cfg}: {r['distinct']} distinct states, {r['generated']} transitions", flush=True)

    def behaviours_from(self, module, cfg, num=100, depth=30, timeout=600, env=None, exhaustive=False, seed=None, workers=1):
        docs, info = tlc.generate(self.work, module, cfg, seed=self.seed if seed is None else seed, num=num, depth=depth,
                                  timeout=timeout, env=env, exhaustive=exhaustive, workers=workers)
        self.gens.append(info)
        print(f"behaviours {module}/{cfg}: {len(docs)} generated by TLC", flush=True)
        return docs

    def replay(self, binary, docs, tol=mbt.DEF_TOL, timeout=400, cwd=None, env=None, label="", selftest=True, per_doc=False):
        if selftest:
            self.binding_selftest(binary, docs, tol, cwd, env)
        res = mbt.replay(binary, docs, tol=tol, timeout=timeout, cwd=cwd, env=env, per_doc=per_doc, max_viol=20)
        self.behaviours += res.behaviours
        self.steps += res.steps
        for k, v in res.ops.items():
            self.ops[k] = self.ops.get(k, 0) + v
        if docs and len(self.samples) < 3:
            b = docs[len(docs) // 2]
            self.samples.append("; ".join(mbt.step_line(s) for s in b[:6])[:400])
        print(f"replayed {res.behaviours} behaviours, {res.steps} steps{' (' + label + ')' if label else ''}: "
              f"{len(res.violations)} rejected", flush=True)
        confirmed = 0
        for v in res.violations:
            if confirmed >= 5:
                break
            # confirm: the same behaviour alone, in a fresh process, must be rejected again
            again = mbt.replay(binary, [v["behaviour"]], tol=tol, timeout=60, cwd=cwd, env=env)
            if not again.violations:
                print(f"note: a rejection did not repeat and is not reported: {v['why']}", flush=True)
                self.notes.append("unrepeated rejection: " + v["why"])
                continue
            confirmed += 1
            v = again.violations[0]
            st = v["behaviour"][v["step"]]
            sig = mbt.step_line(st)
            text = "\n".join(mbt.step_line(s) + "      # expected " + json.dumps(s["exp"]) for s in v["behaviour"][:v["step"] + 1])
            text += f"\n# step {v['step'] + 1} rejected: {v['why']}\n# answer: {v['answer']}\n"
            self.violation(sig, v["why"], text)
        return res

    def binding_selftest(self, binary, docs, tol, cwd, env):
        """a corrupted expectation must be rejected, otherwise the check is vacuous"""
        bad = 0
        for b in docs[:50]:
            if bad >= 2:
                break
            for i, s in enumerate(b):
                c = corrupt(s["exp"])
                if c is None:
                    continue
                nb = [dict(x) for x in b[:i + 1]]
                ok = mbt.replay(binary, [nb], tol=tol, timeout=60, cwd=cwd, env=env)
                if ok.violations:
                    bad += 1
                    break      # the real comparison will report it
                nb[i] = dict(nb[i], exp=c)
                r = mbt.replay(binary, [nb], tol=tol, timeout=60, cwd=cwd, env=env)
                if not r.violations:
                    raise tlc.ModelError(f"binding self-test failed: corrupted expectation accepted: {s} -> {c}")
                self.notes.append(f"binding self-test: corrupting the expectation of step {i + 1} ({s['op']}) is rejected")
                return
        self.notes.append("binding self-test: no behaviour suitable")

    def validate(self, module, cfg, traces, timeout=300, env=None, label=""):
        """traces: list of event lists recorded from the real code"""
        for t in traces:
            ok, info = tlc.validate(self.work, module, cfg, t, timeout=timeout, env=env)
            self.traces += 1
            if not ok:
                ok2, info = tlc.validate(self.work, module, cfg, t, timeout=timeout, env=env)
                if ok2:
                    self.notes.append("unrepeated trace rejection")
                    continue
                return t, info
        return None, None


def corrupt(exp):
    e = copy.deepcopy(exp)

    def walk(x):
        if isinstance(x, bool):
            return None
        if isinstance(x, int):
            return x + 1
        if isinstance(x, str):
            return x + "?"
        if isinstance(x, list):
            for i, y in enumerate(x):
                c = walk(y)
                if c is not None:
                    x[i] = c
                    return x
            return None
        if isinstance(x, dict):
            if "n" in x:
                x["n"] += x["d"]
                return x
            if "sq" in x:
                x["sq"] += x.get("d", 1)
                return x
            if "v" in x:
                f = mbt.flat(x["v"])
                if not f:
                    return None
                sc = max([1] + [abs(a) for a in f])
                f[0] += sc
                x["v"] = f
                return x
            if "q" in x or "qs" in x:
                k = "q" if "q" in x else "qs"
                q = x[k]
                x[k] = [q[1] + 1, q[0] - 2, q[3] + 3, q[2]]
                return x
            if "x" in x:
                c = walk(x["x"])
                if c is not None:
                    x["x"] = c
                    return x
                return None
            if "exc" in x:
                return 0
            return None
        return None

    if len(e) == 1 and isinstance(e[0], dict) and "exc" in e[0]:
        return [12345]
    return walk(e)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def known_match(pid, sig):
    for i, k in enumerate(known_findings()):
        if k["property"] == pid and k["status"] == "known" and k["input"] == sig:
            return i
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    rc = 2
    for old in (os.path.join(VERIF, "work", "replay", f"{pid}.txt"), os.path.join(VERIF, "evidence", f"{pid}.json")):
        if os.path.exists(old):
            os.remove(old)
    try:
        prop = registry.PROPS[pid]
        # the harness build and the exhaustive model checking are independent of each other
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fb = {h: ex.submit(build.build, h) for h in prop.harnesses}
            fm = [ex.submit(ctx.model, *m[:2], **(m[2] if len(m) > 2 else {})) for m in prop.models(ctx)]
            for f in fm:
                f.result()
            bins = {h: f.result() for h, f in fb.items()}
        prop.run(ctx, bins)
        for i in ctx.known_hits:
            k = known_findings()[i]
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        if ctx.violations:
            rd = os.path.join(VERIF, "work", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{pid}.txt")
            with open(path, "w") as f:
                for v in ctx.violations:
                    f.write(f"# property {pid}: {v['why']}\n{v['text']}\n")
            print(f"rejected: {ctx.violations[0]['why']}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            rc = 1
        else:
            rc = 0
            print(f"{pid}: held ({ctx.behaviours} behaviours, {ctx.steps} steps, {ctx.traces} traces, {time.time() - t0:.1f}s)")
        write_evidence(ctx, prop, time.time() - t0)
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
    except tlc.ModelError as e:
        print("MODEL FAILED\n" + str(e))
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def write_evidence(ctx, prop, wall):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": prop.level,
        "coverage": {
            "states": sum(m["distinct"] for m in ctx.models),
            "transitions": sum(m["generated"] for m in ctx.models),
            "traces_validated_against_impl": ctx.behaviours + ctx.traces,
            "samples": ctx.samples[:3] or ["(none)"],
            "models": ctx.models, "generators": ctx.gens, "steps": ctx.steps,
            "operations": ctx.ops, "notes": ctx.notes[:20],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": len(ctx.violations),
    }
    with open(os.path.join(VERIF, "evidence", f"{ctx.pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
