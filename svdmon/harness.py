"""Runs one check: workers, watchdog, counters, verdict, evidence and replay files.

A check module provides
  ID, RULE            property id; how cases are made and what makes one non-trivial
  CASES               {"quick": n, "thorough": m} number of cases
  REQUIRED            names of counters that must be positive, else the run is inconclusive
  case(rng, ctx)      makes and judges one case
optionally
  extra(ctx)          fixed probes run once, in the first worker
  FINDINGS            {key: fn(ctx) -> bool}: does the recorded finding still show?
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")

WALL = {"quick": 100, "thorough": 600}
CASE_WATCHDOG = 40
MAX_REPLAYS = 3


class Watchdog(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Ctx:
    """What a case reports to."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.counts = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.index = None

    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, *sig):
        """A distinct, non-trivial case was judged."""
        self.distinct.add(hashlib.blake2b(repr(sig).encode("utf-8", "backslashreplace"), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s[:3000] if isinstance(s, str) else s)

    def fail(self, message, **witness):
        self.violations.append({"index": self.index, "message": message,
                                "witness": {k: _text(v) for k, v in witness.items()}})


def _text(v):
    if isinstance(v, bytes):
        return v.decode("utf-8", "backslashreplace")
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    return repr(v)


def rng_for(prop, seed, index):
    return random.Random(f"{prop}:{seed}:{index}")


def _alarm(*_):
    raise Watchdog()


def run_case(mod, ctx, index):
    """One case under the watchdog. Whatever the library does, the case ends in a verdict."""
    ctx.index = index
    signal.setitimer(signal.ITIMER_REAL, CASE_WATCHDOG)
    try:
        if index < 0:
            mod.extra(ctx)
        else:
            mod.case(rng_for(mod.ID, ctx.seed, index), ctx)
    except Watchdog:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if not getattr(mod, "STEPS", True):
            ctx.count("inconclusive:watchdog")
        elif _exceeds_steps(mod, ctx, index):
            ctx.fail("the call did not end within %d executed lines" % STEP_LIMIT)
        else:
            ctx.count("inconclusive:watchdog")
    except MemoryError:
        ctx.count("inconclusive:memory")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001 - output the oracle cannot digest is a deviation of the library
        if _before_the_library(e):
            ctx.count("inconclusive:generator")
            print(traceback.format_exc(limit=-6), file=sys.stderr)
            return
        ctx.fail("what the library returned could not be judged:\n" + traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


MAKERS = {"breakit", "disturb", "more_values", "chain_doc", "permuted", "clash", "move", "twist", "rename", "document", "damage",
          "irregular", "remove", "replace", "with_mark", "markup", "damage_processing", "decoy", "blocks", "bad_enum", "body", "carry"}


def _before_the_library(exc):
    """The exception comes from making the document, where nothing of the library is involved."""
    from . import emit, env, gen, profiles, raw, refproc
    made = {m.__file__ for m in (emit, gen, profiles, raw, refproc)}
    frames = traceback.extract_tb(exc.__traceback__)
    if any(f.filename.startswith(env.SRC) for f in frames):
        return False
    return any(f.filename in made or (f.filename.startswith(HERE) and f.name in MAKERS) for f in frames)


STEP_LIMIT = 60_000_000


def _exceeds_steps(mod, ctx, index):
    """Repeat the case counting executed lines of the library: decides endless loops on logical steps, not time."""
    from . import env
    steps = 0
    src = env.SRC
    mon = sys.monitoring

    def line(code, _no):
        nonlocal steps
        if not code.co_filename.startswith(src):
            return mon.DISABLE
        steps += 1
        if steps > STEP_LIMIT:
            raise StepLimit()

    mon.use_tool_id(mon.DEBUGGER_ID, "svdmon")
    mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, line)
    mon.set_events(mon.DEBUGGER_ID, mon.events.LINE)
    scratch = Ctx(ctx.tier, ctx.seed)
    scratch.index = index
    signal.setitimer(signal.ITIMER_REAL, 150)
    try:
        mod.case(rng_for(mod.ID, ctx.seed, index), scratch)
    except StepLimit:
        return True
    except BaseException:  # noqa: BLE001
        return False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        mon.set_events(mon.DEBUGGER_ID, 0)
        mon.free_tool_id(mon.DEBUGGER_ID)
    return False


def _worker(mod, tier, seed, wid, n, total, deadline, stop, conn):
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    ctx = Ctx(tier, seed)
    done = 0
    try:
        if wid == 0 and hasattr(mod, "extra"):
            run_case(mod, ctx, -1)
        for index in range(wid, total, n):
            if stop.is_set() or time.monotonic() > deadline:
                break
            run_case(mod, ctx, index)
            done += 1
            if len(ctx.violations) >= MAX_REPLAYS or ctx.counts["inconclusive:watchdog"] > 2:
                stop.set()
                break
        conn.send((done, dict(ctx.counts), ctx.distinct, ctx.samples, ctx.violations))
    except BaseException:  # noqa: BLE001
        conn.send(traceback.format_exc())
    conn.close()
    os._exit(0)


def known_findings(prop):
    """key -> text of the findings recorded for this property."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            if line.startswith("finding: "):
                head, _, text = line[9:].strip().partition(" -- ")
                kv = dict(x.split("=", 1) for x in head.split())
                if kv["property"] == prop:
                    out[kv["key"]] = text
    return out


def main(mod, argv):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in WALL:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1], encoding="utf-8"))
        seed, tier = replay["seed"], replay["tier"]
    t0 = time.monotonic()
    os.makedirs(EVIDENCE, exist_ok=True)
    if replay is not None:
        signal.signal(signal.SIGALRM, _alarm)
        ctx = Ctx(tier, seed)
        run_case(mod, ctx, replay["index"])
        for v in ctx.violations:
            print(v["message"])
            for k, w in v["witness"].items():
                print(f"--- {k}:\n{w}")
        print("VIOLATION reproduced" if ctx.violations else "no violation")
        return 1 if ctx.violations else 0

    findings_shown = []
    for key, text in known_findings(mod.ID).items():
        fn = getattr(mod, "FINDINGS", {}).get(key)
        if fn is not None and fn():
            findings_shown.append(key)
            print(f"KNOWN-FINDING: property={mod.ID} {text}")

    total = mod.CASES[tier]
    n = int(os.environ.get("SVDMON_WORKERS") or min(8, os.cpu_count() or 1))
    wall = float(os.environ.get("SVDMON_WALL") or WALL[tier])
    deadline = t0 + wall
    mp = multiprocessing.get_context("fork")
    stop = mp.Event()
    conns, procs = [], []
    for w in range(n):
        a, b = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(mod, tier, seed, w, n, total, deadline, stop, b))
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    counts, distinct, samples, violations, errors, done = collections.Counter(), set(), [], [], [], 0
    for a, p in zip(conns, procs):
        try:
            if not a.poll(wall + 300):
                errors.append("worker did not answer")
                p.kill()
                continue
            r = a.recv()
        except EOFError:
            errors.append("worker died")
            continue
        if isinstance(r, str):
            errors.append(r)
            continue
        done += r[0]
        for k, v in r[1].items():
            counts[k] = max(counts[k], v) if k.startswith("max") else counts[k] + v
        distinct |= r[2]
        samples += r[3]
        violations += r[4]
        p.join(10)

    violations.sort(key=lambda v: v["index"])
    missing = [c for c in mod.REQUIRED if not counts[c]]
    inconclusive = {k: v for k, v in counts.items() if k.startswith("inconclusive")}
    samples = sorted(samples, key=str)[:3]
    coverage = {"evaluations": done, "distinct_nontrivial": len(distinct), "rule": mod.RULE, "samples": samples,
                "monitor_counts": dict(sorted(counts.items())), "cases_planned": total}
    if findings_shown:
        coverage["known_findings_shown"] = findings_shown
    evidence = {"property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
                "coverage": coverage, "assumptions": getattr(mod, "ASSUMPTIONS", []),
                "wall_s": round(time.monotonic() - t0, 2), "violations": len(violations)}
    tmp = os.path.join(EVIDENCE, f".{mod.ID}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{mod.ID}.json"))

    for v in violations[:MAX_REPLAYS]:
        path = os.path.join(EVIDENCE, f"replay-{mod.ID}-{v['index']}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": mod.ID, "seed": seed, "tier": tier, **v}, f, indent=1, default=str)
        print(v["message"][:1500])
        print(f"VIOLATION property={mod.ID} replay={path}")
    top = ", ".join(f"{k}={v}" for k, v in sorted(counts.items())[:12])
    print(f"{mod.ID} {tier} seed={seed}: {done} cases, {len(distinct)} distinct, {evidence['wall_s']} s; {top}")
    if violations:
        return 1
    if errors or missing or sum(inconclusive.values()) > max(2, done // 100):
        print(f"INCONCLUSIVE property={mod.ID} errors={errors[:2]} monitors never reached={missing} {inconclusive}")
        return 3
    return 0
