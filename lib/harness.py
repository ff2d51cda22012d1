"""
Generated-input search driver.

A property module lists `Sub`s.  A Sub is a Hypothesis strategy that yields a
JSON-serialisable *case*, and a body that builds real tatc objects from the case,
runs the code under test and compares with an oracle.  The body raises
`Violation` (use `check`/`fail`) when the oracle disagrees; an exception that
escapes from the body is reported as a violation too, because every case is
inside the documented input domain.

The driver shards the cases over processes, seeds every shard from VERIF_SEED,
shrinks the first failure, writes it as a replay file and prints the VIOLATION
line; it rewrites evidence/<id>.json on every run.
"""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from collections import Counter

from lib import boot

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import errors as herr
from hypothesis.internal.conjecture import engine as _engine

_engine.MAX_SHRINKING_SECONDS = float(os.environ.get("VERIF_SHRINK_S", "45"))


def _even_integers():
    """Makes bounded integer draws mostly uniform.

    Recent Hypothesis versions draw integers from a heavy-tailed distribution: of
    integers(0, 10**6), two thirds are below 1 % of the range, which would leave
    most of the orbits, places and times unexplored.
    """
    from hypothesis.internal.conjecture.providers import HypothesisProvider

    name = "_draw_integer_from_distribution"
    orig = getattr(HypothesisProvider, name, None)
    if orig is None:
        return

    def draw(self, min_value, max_value):
        if min_value is not None and max_value is not None and self._random.random() < 0.9:
            return self._random.randint(min_value, max_value)
        return orig(self, min_value, max_value)

    setattr(HypothesisProvider, name, draw)


_even_integers()

QUICK_DEADLINE_S = 420.0
THOROUGH_DEADLINE_S = 3600.0
CASE_LIMIT_S = 150  # a single case takes at most a few seconds on the unchanged tree


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The check itself is broken: never reported as a violation."""


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def fail(msg):
    raise Violation(msg)


class Ev:
    """Per-case evidence recorder."""

    def __init__(self):
        self.labels = []
        self.is_nt = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nt = True


class Sub:
    """One generated-input check of a property."""

    def __init__(self, name, strategy, body, quick, thorough=None, shards=8):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards


def _hash(sub, case):
    return hashlib.sha1(
        (sub + json.dumps(case, sort_keys=True, default=str)).encode()
    ).hexdigest()[:16]


def _seed_for(base, prop, sub, shard):
    h = hashlib.sha256(f"{base}/{prop}/{sub}/{shard}".encode()).digest()
    return int.from_bytes(h[:8], "big")


def _describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:]
    return f"unexpected {type(exc).__name__}: {str(exc)[:400]} at {' > '.join(where)}"


def run_body(sub, case, ev):
    """Run one case; returns None or the violation message."""
    try:
        sub.body(case, ev)
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except herr.HypothesisException:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        return _describe(exc)
    return None


def _shard(prop, sub, n, seed, stop_at, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    res = {
        "sub": sub.name,
        "evaluations": 0,
        "truncated": 0,
        "nt": set(),
        "labels": Counter(),
        "samples": [],
        "violation": None,
        "error": None,
    }
    first = []
    best = []
    current = []

    def hang(_sig, _frame):
        res["violation"] = best[0] if best else (
            current[0],
            f"the case did not finish within {CASE_LIMIT_S} s",
        )
        q.put(res)
        q.close()
        q.join_thread()
        os._exit(0)

    signal.signal(signal.SIGALRM, hang)

    def t(case):
        if time.time() > stop_at and not first:
            res["truncated"] += 1
            return
        ev = Ev()
        current[:] = [case]
        signal.alarm(CASE_LIMIT_S)
        msg = run_body(sub, case, ev)
        signal.alarm(0)
        if not first:
            res["evaluations"] += 1
            for lab in ev.labels:
                res["labels"][lab] += 1
            if ev.is_nt:
                h = _hash(sub.name, case)
                if h not in res["nt"]:
                    res["nt"].add(h)
                    if len(res["nt"]) in (1, 8, 25):
                        # later cases are richer than the first ones
                        res["samples"] = [case]
        if msg is not None:
            if not first:
                first.append((case, msg))
            best[:] = [(case, msg)]
            raise Violation(msg)

    test = hypothesis.seed(seed)(
        settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )(given(sub.strategy())(t))
    )
    try:
        test()
    except Violation as exc:
        # the last execution Hypothesis makes is the minimal failing example
        res["violation"] = best[0] if best else (None, str(exc))
    except Exception as exc:  # pylint: disable=broad-except
        if first:
            # e.g. Flaky: the outcome depends on what ran before in this process
            res["violation"] = (
                first[0][0],
                first[0][1] + f" [not reproduced on replay: {type(exc).__name__}]",
            )
        else:
            res["error"] = "".join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )[-4000:]
    except BaseException as exc:  # pylint: disable=broad-except
        res["error"] = repr(exc)
    q.put(res)


def _corpus(prop):
    d = os.path.join(boot.VERIF, "corpus", prop)
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    out.append((f, json.load(fh)))
    return out


def _known(prop):
    path = os.path.join(boot.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("{"):
                    rec = json.loads(line)
                    if rec.get("property") == prop and rec.get("status") == "known":
                        out.append(rec)
    return out


def _corpus_worker(mod, items, q):
    subs = {s.name: s for s in mod.SUBS}
    out = []
    try:
        for f, rec in items:
            sub = subs.get(rec["sub"])
            if sub is None:
                raise HarnessError(f"corpus {f}: no sub {rec['sub']}")
            ev = Ev()
            msg = run_body(sub, rec["case"], ev)
            out.append((f, rec, msg))
        q.put({"corpus": out, "error": None})
    except BaseException:  # pylint: disable=broad-except
        q.put({"corpus": out, "error": traceback.format_exc()[-4000:]})


def _write_replay(prop, sub, case, msg, seed):
    d = os.path.join(boot.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}-{_hash(sub, case)}.json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump(
            {"property": prop, "sub": sub, "case": case, "message": msg, "seed": seed},
            fh,
            indent=1,
            default=str,
        )
    return path


def replay(prop, path):
    mod = importlib.import_module(f"props.{prop.lower()}")
    with open(path, encoding="utf-8") as fh:
        rec = json.load(fh)
    sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
    msg = run_body(sub, rec["case"], Ev())
    if msg is None:
        print(f"replay of {path}: property holds")
        return 0
    print(msg)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main(prop, tier, seed, only=None, scale=1.0, jobs=8):
    t0 = time.time()
    boot.load_tatc()
    mod = importlib.import_module(f"props.{prop.lower()}")
    if hasattr(mod, "warm"):
        try:
            mod.warm()
        except Exception:  # pylint: disable=broad-except
            pass  # only fills caches; the generated cases judge the code
    ctx = mp.get_context("fork")
    stop_at = t0 + (QUICK_DEADLINE_S if tier == "quick" else THOROUGH_DEADLINE_S)
    q = ctx.Queue()
    tasks = []
    corpus = _corpus(prop) if only is None else []
    known = _known(prop)
    if corpus or known:
        items = corpus + [("known:" + r["id"], r) for r in known]
        k = min(4, len(items))
        for i in range(k):
            tasks.append(("corpus", _corpus_worker, (mod, items[i::k], q)))
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = max(1, min(s.shards if tier == "quick" else 8, total))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            tasks.append(
                (
                    s.name,
                    _shard,
                    (prop, s, n, _seed_for(seed, prop, s.name, i), stop_at, q),
                )
            )
    running = []
    results = []
    pending = list(tasks)
    violation = None
    error = None
    grace = None
    while pending or running:
        while pending and len(running) < jobs and violation is None:
            name, fn, args = pending.pop(0)
            p = ctx.Process(target=fn, args=args, daemon=True)
            p.start()
            running.append((name, p))
        try:
            r = q.get(timeout=0.2)
        except Exception:  # queue.Empty
            r = None
        if r is not None:
            results.append(r)
            if r.get("error") and error is None:
                error = r["error"]
            if r.get("violation") is not None and violation is None:
                violation = (r["sub"],) + tuple(r["violation"])
            if "corpus" in r:
                for f, rec, msg in r["corpus"]:
                    if f.startswith("known:"):
                        continue
                    if msg is not None and violation is None:
                        violation = (rec["sub"], rec["case"], msg)
        alive = []
        for name, p in running:
            if p.is_alive():
                alive.append((name, p))
            else:
                p.join()
                if p.exitcode != 0 and error is None:
                    error = f"worker {name} died with exit code {p.exitcode}"
        running = alive
        if violation is not None:
            pending = []
            if grace is None:
                grace = time.time() + 1.0
            if time.time() > grace:
                for _, p in running:
                    p.terminate()
                for _, p in running:
                    p.join(5)
                break
    # drain
    while violation is None:
        try:
            r = q.get(timeout=0.2)
        except Exception:
            break
        results.append(r)
        if r.get("error") and error is None:
            error = r["error"]
        if r.get("violation") is not None and violation is None:
            violation = (r["sub"],) + tuple(r["violation"])
        if "corpus" in r and violation is None:
            for f, rec, msg in r["corpus"]:
                if not f.startswith("known:") and msg is not None:
                    violation = (rec["sub"], rec["case"], msg)
                    break

    evals = 0
    nt = set()
    labels = Counter()
    per = {}
    samples = []
    trunc = 0
    replayed = 0
    known_hit = []
    for r in results:
        if "corpus" in r:
            for f, rec, msg in r["corpus"]:
                replayed += 1
                if f.startswith("known:"):
                    if msg is not None:
                        known_hit.append(rec)
            continue
        evals += r["evaluations"]
        trunc += r["truncated"]
        nt |= r["nt"]
        d = per.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": set()})
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] |= r["nt"]
        for k, v in r["labels"].items():
            labels[f"{r['sub']}:{k}"] += v
        if r["samples"] and sum(1 for s in samples if s["sub"] == r["sub"]) < 2:
            samples.append({"sub": r["sub"], "case": r["samples"][0]})
    for d in per.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
    wall = time.time() - t0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals + replayed,
            "distinct_nontrivial": len(nt),
            "rule": mod.RULE,
            "samples": samples,
            "per_check": per,
            "labels": dict(sorted(labels.items())),
            "saved_inputs_replayed": replayed,
            "cases_skipped_by_time_budget": trunc,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(
        os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8"
    ) as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for rec in known_hit:
        print(f"KNOWN-FINDING: property={prop} {rec['what']}")
    if violation is not None:
        sub, case, msg = violation
        path = _write_replay(prop, sub, case, msg, seed)
        print(f"{prop}/{sub}: {msg}")
        print(f"case: {json.dumps(case, default=str)[:2000]}")
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        return 1
    if error is not None:
        print(error, file=sys.stderr)
        print(f"{prop}: check error", file=sys.stderr)
        return 3
    print(
        f"{prop}: held on {evals} generated cases ({len(nt)} distinct non-trivial), "
        f"{replayed} saved inputs, {wall:.1f}s"
        + (f", {trunc} skipped by time budget" if trunc else "")
    )
    return 0
