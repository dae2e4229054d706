"""Runs one property's check: fans units of work out to worker processes,
confirms every violation by running its unit again, writes the evidence file.

A check module defines
  PROP, LEVEL, RULE, ASSUMPTIONS
  UNITS = {"quick": n, "thorough": m}
  VARIANTS = ("plain",) / ("asan",) ...    servers a worker needs
  def unit(w, i, rng, rep): ...            one unit of work
`w` is a Worker (servers, scratch directory), `rep` a Report to fill in.
A unit's outcome depends only on (VERIF_SEED, tier, i) and the code under test.
"""
import collections, hashlib, importlib, json, multiprocessing as mp, os, random, re, shutil, signal, sys
import tempfile, time, traceback
from . import build, exec as ex
from .server import MEMCHECK, Server, base_env

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEADLINE = {"quick": 600, "thorough": 6 * 3600}


class Report:
    """What a unit observed."""

    def __init__(self):
        self.evals = 0
        self.sigs = set()
        self.counts = collections.Counter()
        self.cover = collections.defaultdict(set)
        self.viol = []            # (key, message, {file: bytes/str})
        self.inconclusive = []
        self.samples = []

    def eval(self, sig=None, sample=None):
        self.evals += 1
        if sig is not None:
            if not isinstance(sig, (str, bytes)):
                sig = repr(sig)
            if isinstance(sig, str):
                sig = sig.encode("utf-8", "surrogateescape")
            self.sigs.add(hashlib.blake2b(sig, digest_size=8).digest())
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def violation(self, key, msg, files=None):
        self.viol.append((key, msg, files or {}))

    def merge(self, o):
        self.evals += o.evals
        self.sigs |= o.sigs
        self.counts.update(o.counts)
        for k, v in o.cover.items():
            self.cover[k] |= v
        self.inconclusive += o.inconclusive
        self.samples += o.samples[:max(0, 6 - len(self.samples))]


class Worker:
    """Per-process resources."""

    def __init__(self, name, exes):
        self.dir = tempfile.mkdtemp(prefix="w%s-" % name, dir=build.scratch())
        os.environ["SKV_WORK"] = self.dir
        self.exes, self.srv, self.bat = exes, {}, {}

    def server(self, variant="plain", env=None, tag=""):
        k = (variant, tag)
        if k not in self.srv:
            if variant == "memcheck":
                self.srv[k] = Server(self.exes["server-plain"], env or base_env(), MEMCHECK)
            else:
                self.srv[k] = Server(self.exes["server-" + variant], env or base_env())
        return self.srv[k]

    def batch(self, variant="plain"):
        if variant not in self.bat:
            self.bat[variant] = ex.Batch(self.server(variant), os.path.join(self.dir, "b-" + variant))
        return self.bat[variant]

    def sub(self, name, clean=True):
        d = os.path.join(self.dir, name)
        if clean and os.path.exists(d):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        return d

    def close(self):
        for s in self.srv.values():
            try:
                s.close()
            except Exception:
                pass
        shutil.rmtree(self.dir, ignore_errors=True)


def unit_rng(prop, seed, i):
    return random.Random("%s/%d/%d" % (prop, seed, i))


def _work(mod, exes, seed, tier, inq, outq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = Worker(str(os.getpid()), exes)
    w.tier = tier
    m = mod if not isinstance(mod, str) else importlib.import_module("skv.checks." + mod)
    try:
        while True:
            i = inq.get()
            if i is None:
                break
            rep = Report()
            try:
                m.unit(w, i, unit_rng(m.PROP, seed, i), rep)
                outq.put((i, rep, None))
            except Exception:
                outq.put((i, None, traceback.format_exc()))
    finally:
        w.close()


def load_known():
    out = collections.defaultdict(dict)
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[m.group(1)][m.group(2)] = m.group(3)
    return out


def save_replay(prop, key, msg, files, extra):
    h = hashlib.sha1((key + msg).encode("utf-8", "surrogateescape")).hexdigest()[:10]
    d = os.path.join(HERE, "replays", "%s-%s" % (prop, h))
    os.makedirs(d, exist_ok=True)
    for n, b in list(files.items()) + [("WHAT.txt", "%s\n\n%s\n\n%s\n" % (key, msg, extra))]:
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "wb") as f:
            f.write(b if isinstance(b, bytes) else b.encode("utf-8", "surrogateescape"))
    return d


def main(mod):
    m = importlib.import_module("skv.checks." + mod)
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if len(sys.argv) > 2 and sys.argv[2] == "--thorough":
        tier = "thorough"
    t0 = time.time()
    n = m.UNITS[tier]
    if os.environ.get("SKV_UNITS"):
        n = int(os.environ["SKV_UNITS"])
    jobs = int(os.environ.get("SKV_JOBS") or min(8, os.cpu_count() or 4))
    try:
        exes = {"server-" + v: build.build_server(v) for v in m.VARIANTS}
        for mode in ("batch", "standalone"):
            ex.rt_obj(mode)
        if hasattr(m, "prepare"):
            m.prepare(exes, tier, seed)
    except build.BuildError as e:
        print("ERROR: the tree does not build:\n" + str(e)[:4000])
        return 2
    known = load_known().get(m.PROP, {})
    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    only = os.environ.get("SKV_ONLY")
    todo = [int(x) for x in only.split(",")] if only else list(range(n))
    for i in todo:
        inq.put(i)
    for _ in range(jobs):
        inq.put(None)
    procs = [ctx.Process(target=_work, args=(mod, exes, seed, tier, inq, outq), daemon=True) for _ in range(jobs)]
    for p in procs:
        p.start()
    tot, done, errors, bad, seen_known = Report(), 0, [], [], {}
    limit = t0 + DEADLINE[tier]
    stopped = None
    while done < len(todo):
        try:
            i, rep, err = outq.get(timeout=5)
        except Exception:
            if time.time() > limit:
                stopped = "deadline"
                break
            if not any(p.is_alive() for p in procs):
                errors.append("workers died")
                break
            continue
        done += 1
        if err:
            errors.append("unit %d: %s" % (i, err))
            if len(errors) > 3:
                break
            continue
        tot.merge(rep)
        new = [(i,) + v for v in rep.viol if v[0] not in known]
        for v in rep.viol:
            if v[0] in known:
                seen_known[v[0]] = seen_known.get(v[0], 0) + 1
        bad += new
        if new and tier == "quick" and not os.environ.get("SKV_ALL"):
            stopped = "violation"
            break
        if len(bad) > 40:
            stopped = "violations"
            break
        if time.time() > limit:
            stopped = "deadline"
            break
    for p in procs:
        p.terminate()
    for p in procs:
        p.join()
    # confirm: a violation must show again when its unit is repeated
    confirmed, flaky = [], 0
    if bad:
        w = Worker("confirm", exes)
        w.tier = tier
        cache = {}
        for i, key, msg, files in bad[:12]:
            if i not in cache:
                keys = set()
                for _ in range(3):
                    rep = Report()
                    try:
                        m.unit(w, i, unit_rng(m.PROP, seed, i), rep)
                    except Exception:
                        errors.append(traceback.format_exc())
                        break
                    keys |= {v[0] for v in rep.viol}
                    if key in keys:
                        break
                cache[i] = keys
            if key in cache[i]:
                confirmed.append((i, key, msg, files))
            else:
                flaky += 1
                tot.inconclusive.append("unit %d: %s did not show again" % (i, key))
        w.close()
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (m.PROP, known[k]))
    cov = {
        "evaluations": tot.evals, "distinct_nontrivial": len(tot.sigs), "rule": m.RULE,
        "samples": tot.samples[:4], "units": done, "units_planned": len(todo), "stopped": stopped,
        "observed": dict(sorted(tot.counts.items())),
        "covered": {k: (sorted(map(str, v)) if len(v) <= 60 else "%d distinct" % len(v))
                    for k, v in sorted(tot.cover.items())},
        "inconclusive": len(tot.inconclusive), "inconclusive_samples": tot.inconclusive[:5],
        "known_findings_seen": seen_known,
    }
    if hasattr(m, "finish"):
        m.finish(tot, cov)
    ev = {"property": m.PROP, "tier": tier, "seed": seed, "level": m.LEVEL, "coverage": cov,
          "assumptions": m.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", m.PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violation(s), %d inconclusive, %.1fs"
          % (m.PROP, tier, seed, tot.evals, len(tot.sigs), len(confirmed), len(tot.inconclusive), time.time() - t0))
    if confirmed:
        shown = set()
        for i, key, msg, files in confirmed:
            if key in shown:
                continue
            shown.add(key)
            d = save_replay(m.PROP, key, msg, files, "VERIF_SEED=%d VERIF_TIER=%s SKV_ONLY=%d python3 -m skv %s"
                            % (seed, tier, i, mod))
            print("  " + msg.replace("\n", "\n  ")[:1500])
            print("VIOLATION property=%s replay=%s" % (m.PROP, d))
        return 1
    if errors:
        print("ERROR:\n" + "\n".join(errors)[:6000])
        return 2
    if tot.evals == 0 or len(tot.sigs) == 0:
        print("ERROR: nothing was observed")
        return 2
    return 0
