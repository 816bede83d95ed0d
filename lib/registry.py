"""What decides each property: exhaustive models, behaviour generators and the harness they are replayed in."""
import concurrent.futures as cf

COMMON = ["the harness drives the public interface of the library compiled from /repo's working tree with g++ -O2 -DNDEBUG",
          "TLC 1.8.0 evaluates the specification correctly"]


class G:
    """one generator: TLC module/cfg -> behaviours -> harness"""
    def __init__(self, module, harness, q=(100, 30), t=(1000, 60), tol=None, exhaustive=False, cfg=None, env=None,
                 per_doc=False, seeds_t=4, selftest=True, cwd=False, timeout=500):
        self.module, self.harness, self.q, self.t = module, harness, q, t
        self.cfg = cfg or module + ".cfg"
        self.tol, self.exhaustive, self.env, self.per_doc, self.seeds_t = tol, exhaustive, env, per_doc, seeds_t
        self.selftest, self.cwd, self.timeout = selftest, cwd, timeout


class Prop:
    level = "model_checking"

    def __init__(self, title, gens, models_q, models_t=None, harnesses=None, assumptions=(), custom=None):
        self.title = title
        self.gens = gens
        self.mq = models_q
        self.mt = models_t if models_t is not None else []
        self.harnesses = harnesses or sorted({g.harness for g in gens})
        self.assumptions = COMMON + list(assumptions)
        self.custom = custom

    def models(self, ctx):
        return self.mq + ([] if ctx.quick() else self.mt)

    def run(self, ctx, bins):
        jobs = []
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            for g in self.gens:
                n, depth = g.q if ctx.quick() else g.t
                seeds = [ctx.seed] if (ctx.quick() or g.exhaustive) else [ctx.seed + 1000 * k for k in range(g.seeds_t)]
                for s in seeds:
                    jobs.append((g, ex.submit(ctx.behaviours_from, g.module, g.cfg, num=n, depth=depth, seed=s, env=g.env,
                                              exhaustive=g.exhaustive, timeout=700 if ctx.quick() else 3000)))
            for g, f in jobs:
                docs = f.result()
                kw = {}
                if g.tol is not None:
                    kw["tol"] = g.tol
                if g.cwd:
                    kw["cwd"] = ctx.work
                ctx.replay(bins[g.harness], docs, label=g.module, per_doc=g.per_doc, selftest=g.selftest, timeout=g.timeout, **kw)
        if self.custom:
            self.custom(ctx, bins)


PROPS = {}

PROPS["P01"] = Prop("measurement handles",
    [G("MeasurementGen", "measurement", q=(250, 40), t=(1500, 120))],
    [("Measurement", "Measurement.cfg")], [("Measurement", "Measurement_big.cfg", {"timeout": 3000})],
    assumptions=["27 payload types of the library plus strings; 8 representative 64-bit timestamps incl. 0, 1, 2^32, 2^63, 2^64-1"])

PROPS["P02"] = Prop("serialisation",
    [G("SerializationGen", "serialization", q=(300, 80), t=(2500, 120))],
    [("Serialization", "Serialization.cfg")], [("Serialization", "Serialization_big.cfg", {"timeout": 1500})],
    assumptions=["36 payload types, plain and as measurements, 9 values each (full mantissas, denormals, extreme exponents, signed zeros, empty and long lists, control and NUL characters in strings); NaN and infinities excluded (the text format cannot carry them)"])

PROPS["P03"] = Prop("clock synchronisation and calendar time",
    [G("ClockGen", "clock", cfg="ClockGen_kf.cfg", q=(250, 40), t=(2500, 120)),
     G("ClockGen", "clock", cfg="ClockGen_ls.cfg", q=(250, 40), t=(2500, 120)),
     G("ClockShiftGen", "clock", q=(60, 12), t=(500, 12)),
     G("CalendarGen", "clock", q=(40, 100), t=(400, 200))],
    [("Clock", "Clock_kf.cfg"), ("Clock", "Clock_ls.cfg"), ("Calendar", "Calendar.cfg")],
    assumptions=["convergence bounds of the estimator are derived from its gains with a wide margin"])

PROPS["P04"] = Prop("rigid transforms",
    [G("RigidGen", "rigid", q=(1000, 60), t=(2500, 150))],
    [("Rigid", "Rigid.cfg")],
    assumptions=["rotations are given by integer quaternions (cube group, half turns, small and generic angles), translations by small rationals; results compared to 1e-9 (interpolation 1e-7)"])

PROPS["P05"] = Prop("rotation representations",
    [G("RotationGen", "rotation", q=(1000, 80), t=(2500, 200))],
    [("Rotation", "Rotation.cfg")],
    assumptions=["rotations by integer quaternions: cube group, exact and near half turns, near identity, generic; compared as matrices to 1e-6 (single precision 1e-2; close to the Euler gimbal lock 0.1)"])

PROPS["P06"] = Prop("uncertainty propagation",
    [G("ErrPoseGen", "errpose", q=(500, 40), t=(2500, 60)), G("KalmanGen", "kalman", q=(500, 50), t=(2500, 80))],
    [("ErrPose", "ErrPose.cfg"), ("Kalman", "Kalman.cfg")],
    assumptions=["rotations by small integer quaternions, covariances by small integers over small denominators"])

PROPS["P07"] = Prop("pose and rotation tracking",
    [G("TrackerGen", "tracker", q=(500, 25), t=(2500, 40)), G("TrackerSpinGen", "tracker", q=(800, 40), t=(2500, 60))],
    [("Tracker", "Tracker.cfg"), ("TrackerSpin", "TrackerSpin.cfg")],
    assumptions=["motion models of position order 0..2 and orientation order 0..1; linearised exactly for small rotations about any orientation (1e-3), exactly for measurements consistent with a constant angular velocity"])

PROPS["P08"] = Prop("registration",
    [G("AlignGen", "registration", q=(500, 60), t=(2500, 120)), G("TipGen", "registration", q=(400, 50), t=(2000, 100)), G("HandEyeGen", "registration", q=(400, 50), t=(2000, 100))],
    [("Align", "Align.cfg"), ("Tip", "Tip.cfg"), ("HandEye", "HandEye.cfg")],
    assumptions=["rotations by small integer quaternions, points and translations by small rationals; unique solutions only (points not collinear, motions about two axes, no exact half turns between hand-eye poses); tolerances 1e-6 (double), 1e-2 (float), 1e-4 (iterative)"])

PROPS["P09"] = Prop("assignment",
    [G("MunkresGen", "assignment", q=(600, 40), t=(4000, 60))],
    [("Munkres", "Munkres.cfg"), ("Munkres", "MunkresCert.cfg")],
    assumptions=["matrices up to 8 x 11 with finite entries (integer multiples of 1, 1/3, 1/7); optimality judged by cost, so any of several optimal assignments is accepted"])

PROPS["P10"] = Prop("projective geometry",
    [G("CameraGen", "camera", q=(700, 30), t=(4000, 60))],
    [("MCCamera", "MCCamera.cfg")],
    assumptions=["cameras with integer intrinsics and small integer quaternions, points with small integer coordinates in front of them; point sets with a unique solution (box corners and more for the projection matrix, no three collinear points for homographies, sixteen or more random points for the fundamental matrix); tolerances 1e-6 relative (double), 1e-2 (float)"])
PROPS["P11"] = Prop("pose from images",
    [G("PoseEstGen", "poseest", q=(500, 30), t=(3000, 60))],
    [("MCPoseEst", "MCPoseEst.cfg")],
    assumptions=["bodies with small integer coordinates at a distance of 22 to 30 that are not seen edge-on; covariances for cube rotations and depths 1 and 2; starts within about 0.9 in translation and 0.1 rad; tolerances 1e-6 (direct), 1e-4 (iterative), 1e-1 to 1e-3 (float)"])


def ransac_traces(ctx, bins):
    """records the calls RANSAC makes to a table-driven problem and has TLC check every trace against Ransac.tla"""
    import json, mbt, os, tlc
    docs = ctx.behaviours_from("RansacGen", "RansacGen.cfg", num=150 if ctx.quick() else 1500, depth=40)
    lines = [(s["args"], mbt.step_line(s)) for b in docs for s in b]
    out, ended = mbt.run_harness(bins["optimize"], ["case"] + [l for _, l in lines], timeout=300)
    out = out[1:] + [f"! the code did not answer ({ended})"]
    recs = []
    for (a, l), r in zip(lines, out):
        recs.append((l, r, ransac_record(a, r)))
    for l, r, t in recs:
        if t is None:
            ctx.violation(l, "RANSAC did not return: " + str(r)[:200], l + "\n# answer: " + str(r))
    good = [x for x in recs if x[2] is not None]

    def check(ts):
        p = os.path.join(ctx.work, "ransac.ndjson")
        with open(p, "w") as f:
            f.writelines(json.dumps(t) + "\n" for t in ts)
        return tlc.rejected(ctx.work, "RansacTrace", "RansacTrace.cfg", p, len(ts))
    bad = check([t for _, _, t in good])
    ctx.traces += len(good)
    ctx.ops["ransac trace"] = len(good)
    print(f"traces RansacTrace: {len(good)} recorded from the code, {'all accepted' if bad is None else 'number ' + str(bad + 1) + ' rejected'}", flush=True)
    if bad is not None:
        l, r, t = good[bad]
        ctx.violation(l, "the calls made by RANSAC are not a behaviour of Ransac.tla", l + "\n# trace: " + r)
        return
    if not good or len(good) < len(recs):
        return
    # a trace with one answer changed must be rejected
    t = json.loads(json.dumps(max((x[2] for x in good), key=lambda t: t["tr"][-1]["n"])))
    t["tr"][-1]["n"] += 1
    if check([t]) is None:
        raise tlc.ModelError("trace self-test failed: a corrupted trace was accepted")
    ctx.notes.append("trace self-test: a changed number of inliers is rejected")


def ransac_record(a, answer):
    import urllib.parse
    if not answer.startswith("= "):
        return None
    kind, n, sz, mn, lo, hi = a[:6]
    tr, flags = [], []
    for ev in urllib.parse.unquote(answer[2:].strip().lstrip("~")).split(";")[:-1]:
        k, (x, y) = ev[0], ev[1:].split(":")
        if k == "E":
            tr.append({"e": "est", "ids": [int(i) for i in x.split(",")[1:]], "h": int(y)})
        elif k == "V":
            tr.append({"e": "eval", "v": int(x), "in": y == "1"})
        elif k == "F":
            flags = [int(i) for i in x.split(",")[1:]]
        else:
            tr.append({"e": "ret", "n": int(x), "res": int(y), "flags": flags})
    return {"c": {"n": n, "sz": sz, "mn": mn, "lo": lo, "hi": hi, "twice": kind >= 3}, "tr": tr}


PROPS["P12"] = Prop("optimisation",
    [G("LMGen", "optimize", q=(500, 40), t=(3000, 80))],
    [("MCLM", "MCLM.cfg"), ("MCRansac", "MCRansac.cfg")],
    custom=ransac_traces,
    assumptions=["one-parameter scripted problems with damping 1/8 to 8; linear problems with up to three parameters and five equations; up to seven values in the RANSAC scenarios"])

PROPS["P13"] = Prop("lens distortion and camera intrinsics",
    [G("LensGen", "lens", q=(500, 40), t=(3000, 80))],
    [("MCLens", "MCLens.cfg")],
    assumptions=["sensor points up to (1, 1) in steps of 1/4, coefficients in hundredths; undistortion for coefficients that keep the radial factor within a quarter of one over the image (unique solution), to 1e-5 (double) or 1e-3 (float); no distortion with fisheye parameters"])

PROPS["P14"] = Prop("linear algebra",
    [G("AlgGen", "alg", q=(500, 50), t=(3000, 100))],
    [("MCAlg", "MCAlg.cfg")],
    assumptions=["vectors up to five entries, matrices up to 4 x 4, integer entries up to 900 (exact in both precisions) in the registers; inverses of matrices with entries up to 4"])

PROPS["P15"] = Prop("statistics: averages, Gaussians, clustering",
    [G("StatsGen", "stats", q=(500, 60), t=(3000, 120))],
    [("MCStats", "MCStats.cfg")],
    assumptions=["integer samples; rotation samples within 45 degrees of their mean; k-means where no decision is close; expectation maximisation on groups 200 apart"])

PROPS["P16"] = Prop("calibration files, directory listings, string archives",
    [G("FilesGen", "files", q=(400, 60), t=(3000, 120))],
    [("MCFiles", "MCFiles.cfg")],
    assumptions=["files are damaged by losing words (text) or bytes (binary) at the end or by being replaced; a full device is /dev/full"])

PROPS["P17"] = Prop("plane conics and images of quadrics",
    [G("ConicGen", "conic", q=(600, 60), t=(4000, 120))],
    [("MCConic", "MCConic.cfg")],
    assumptions=["conics with integer numerators up to 400 over denominators up to 512; decisions (kinds, missing centre) where the numbers are exact; single precision where the products are exact"])

PROPS["P18"] = Prop("model functions and their derivatives",
    [G("JacobianGen", "jacobian", q=(500, 60), t=(3000, 120))],
    [("MCJacobian", "MCJacobian.cfg")],
    assumptions=["rotations are rational unit quaternions, rotation vectors of up to 2.5 radians about rational axes, or quarter turns; points at least half a unit in front of or behind the camera; derivatives by a rotation velocity at zero velocity only"])

PROPS["P19"] = Prop("logging: categories, appenders, layouts",
    [G("LogGen", "log", q=(400, 60), t=(3000, 120)), G("LogFileGen", "logfile", q=(300, 60), t=(3000, 120)),
     G("LogConfGen", "logconf", q=(300, 50), t=(3000, 60))],
    [("MCLog", "MCLog.cfg"), ("MCLogFiles", "MCLogFiles.cfg")],
    assumptions=["category names and appender names from small sets; log files of up to a few kB in two directories, up to 11 backups, at least one backup; one process; formatted calls with more than one argument"])

PROPS["P20"] = Prop("XML documents",
    [G("XmlGen", "xml", q=(150, 60), t=(2000, 120)), G("XmlDomGen", "xml", q=(150, 80), t=(1500, 150))],
    [("MCXml", "MCXml.cfg")],
    assumptions=["names and characters from small sets that contain every special character and UTF-8 characters of two to four bytes; trees up to four levels; raw > in an attribute read from a stream, comments that begin with >, references to unknown entities, text that contains &#x when written, blank text and text beside text are not specified"])

PROPS["P21"] = Prop("serial ports, timers, exceptions",
    [G("DeviceGen", "device", q=(150, 80), t=(1500, 150))],
    [("MCDevice", "MCDevice.cfg")],
    assumptions=["serial devices are pseudo terminals; at most 300 bytes wait at a time; reads that would wait for ever are not asked for"])
