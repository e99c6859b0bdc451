"""Runs the sub-checks of one property over generated cases, in parallel, and writes the evidence.

A sub-check is a Hypothesis strategy of JSON-able cases (or an enumeration of them) and a function that drives the real
code with one case and raises when the property is broken. A failing case, shrunk by Hypothesis, is the replay file.

Exit: 0 nothing found, 1 violation (with its VIOLATION line), 2 the check itself could not run.
"""
import argparse
import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

CASE_CPU_SECONDS = 150      # a case takes well under ten; beyond this the code is taken not to terminate
SHRINK_SECONDS = 45
BUDGET = {"quick": 240, "thorough": 780}   # wall seconds after which no new case is started
MEMORY = 6 << 30


class Bad(Exception):
    """The property does not hold on this case."""


class NonTermination(BaseException):
    pass


class Skip(Exception):
    """The case is outside of the domain (counted, not an evaluation)."""


def expect(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args) if args else msg)


class Ctx:
    """Given to each case: collects its classes and whether it is non-trivial."""
    def __init__(self, scratch=None):
        self.tags = []
        self.nontrivial = False
        self.scratch = scratch

    def tag(self, *names):
        self.tags.extend(str(n) for n in names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    """One executable statement of the property.

    name: its name; run(case, ctx): drives the code; strategy(tier): Hypothesis strategy of cases; sweep(tier): or an
    iterable of all the cases of a bounded domain; quick, thorough: numbers of cases; shards: processes over which it is
    split.
    """
    def __init__(self, name, run, strategy=None, sweep=None, quick=100, thorough=None, shards=4, files=False):
        self.name, self.run, self.strategy, self.sweep = name, run, strategy, sweep
        self.quick, self.thorough, self.shards, self.files = quick, thorough or 12 * quick, shards, files


def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def derive(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big")


@contextlib.contextmanager
def scratch_dir(wanted):
    if not wanted:
        yield None
        return
    old = os.getcwd()
    path = tempfile.mkdtemp(prefix="vt-case-", dir=os.environ.get("VT_TMP"))
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
        shutil.rmtree(path, ignore_errors=True)


def run_case(sub, case):
    """Runs one case; returns (ctx, error text or None)."""
    import random
    import numpy as np
    key = case_key(case)
    case = json.loads(key)   # what a replay file gives back; cases never share objects
    seed = derive("case", key) % (1 << 32)
    random.seed(seed)
    np.random.seed(seed)

    def on_timer(signum, frame):
        raise NonTermination()
    signal.signal(signal.SIGPROF, on_timer)
    with scratch_dir(sub.files) as path:
        ctx = Ctx(path)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
        try:
            sub.run(case, ctx)
            return ctx, None
        except Skip:
            raise
        except Bad as exc:
            return ctx, "{}".format(exc)
        except NonTermination:
            return ctx, "no result after {} CPU seconds".format(CASE_CPU_SECONDS)
        except Exception as exc:
            if type(exc).__module__.startswith("hypothesis"):
                raise
            return ctx, "unexpected exception\n" + "".join(traceback.format_exception(exc)[-6:])
        except SystemExit as exc:
            return ctx, "unexpected exit: {!r}".format(exc)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)


class Job:
    def __init__(self, prop, sub, shard, nshards, tier, seed, deadline):
        self.prop, self.sub, self.shard, self.nshards = prop, sub, shard, nshards
        self.tier, self.seed, self.deadline = tier, seed, deadline

    def execute(self):
        sub = self.sub
        stats = {"sub": sub.name, "evaluations": 0, "skipped": 0, "late": 0, "hashes": set(), "tags": collections.Counter(),
                 "samples": [], "failure": None, "error": None}
        state = {"best": None, "first": None}

        def one(case):
            now = time.time()
            if state["first"] is not None:
                if now - state["first"] > SHRINK_SECONDS or state.get("stop"):
                    return
            elif now > self.deadline:
                stats["late"] += 1
                return
            try:
                ctx, error = run_case(sub, case)
            except Skip:
                stats["skipped"] += 1
                return
            if state["first"] is None:
                stats["evaluations"] += 1
                for t in ctx.tags:
                    stats["tags"][t] += 1
                if ctx.nontrivial:
                    h = hashlib.sha1((sub.name + case_key(case)).encode()).digest()[:12]
                    if h not in stats["hashes"]:
                        stats["hashes"].add(h)
                        n = len(stats["hashes"])
                        if n & (n - 1) == 0 and n >= 4 and len(stats["samples"]) < 6:
                            stats["samples"].append(case)
                        elif n == 1:
                            stats["first_sample"] = case
            if error is not None:
                if state["first"] is None:
                    state["first"] = time.time()
                size = len(case_key(case))
                if state["best"] is None or size <= state["best"][0]:
                    state["best"] = (size, json.loads(case_key(case)), error)
                if "CPU seconds" in error:
                    state["stop"] = True
                raise Bad(error)

        try:
            if sub.sweep is not None:
                for index, case in enumerate(sub.sweep(self.tier)):
                    if index % self.nshards == self.shard:
                        try:
                            one(case)
                        except Bad:
                            break
            else:
                self.hypothesis(one, state)
        except MemoryError:
            if state["best"] is None:
                stats["error"] = "memory exhausted"
        except Bad:
            pass
        except BaseException as exc:
            if state["best"] is None:
                stats["error"] = "".join(traceback.format_exception(exc))
        if state["best"] is not None:
            stats["failure"] = {"case": state["best"][1], "message": state["best"][2]}
        return stats

    def hypothesis(self, one, state):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        total = self.sub.quick if self.tier == "quick" else self.sub.thorough
        count = total // self.nshards + (1 if self.shard < total % self.nshards else 0)
        if count == 0:
            return

        @hypothesis.seed(derive(self.seed, self.prop, self.sub.name, self.shard))
        @settings(max_examples=count, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                  phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)
        @given(self.sub.strategy(self.tier))
        def test(case):
            one(case)
        test()


def child(job, conn):
    try:
        os.setsid()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        result = job.execute()
    except BaseException as exc:
        result = {"sub": job.sub.name, "error": "".join(traceback.format_exception(exc))}
    try:
        conn.send(result)
        conn.close()
    finally:
        os._exit(0)


def run_jobs(jobs, workers):
    ctx = multiprocessing.get_context("fork")
    pending, running, results = list(jobs), {}, []
    failed = False
    while pending or running:
        while pending and len(running) < workers and not failed:
            job = pending.pop(0)
            recv, send = ctx.Pipe(False)
            proc = ctx.Process(target=child, args=(job, send))
            proc.start()
            send.close()
            running[recv] = (proc, job)
        if failed:
            pending = []
        if not running:
            break
        for recv in multiprocessing.connection.wait(list(running), timeout=5):
            proc, job = running.pop(recv)
            try:
                res = recv.recv()
            except EOFError:
                proc.join(10)
                res = {"sub": job.sub.name, "error": "worker died (exit code {})".format(proc.exitcode)}
            recv.close()
            proc.join()
            results.append(res)
            if res.get("failure"):
                failed = True
                for p, _ in running.values():
                    p.kill()
                for r, (p, _) in list(running.items()):
                    p.join()
                    r.close()
                running = {}
                break
    return results


def known_findings(here, prop):
    """The findings of KNOWN_FINDINGS.txt for this property: {id: text}."""
    found = {}
    with open(os.path.join(here, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            if line.startswith("known: property={} ".format(prop)):
                rest = line.split(" ", 2)[2].strip()
                ident, text = rest.split(" ", 1)
                found[ident.split("=", 1)[1]] = text
    return found


def report_known(here, prop, module):
    """Demonstrates each listed finding on the real code; one that no longer fails is not printed."""
    listed = known_findings(here, prop)
    demos = getattr(module, "KNOWN", {})
    shown = []
    for ident, text in listed.items():
        if ident not in demos:
            continue
        sub = Sub("known-" + ident, lambda case, ctx, d=demos[ident]: d(ctx), files=True)
        read, write = os.pipe()
        pid = os.fork()
        if pid == 0:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                _, error = run_case(sub, {"known": ident})
                os.write(write, b"1" if error else b"0")
            finally:
                os._exit(0)
        os.close(write)
        if os.read(read, 1) == b"1":
            print("KNOWN-FINDING: property={} {}".format(prop, text), flush=True)
            shown.append(ident)
        os.close(read)
        os.waitpid(pid, 0)
    return shown


def main(argv, here, repo):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=None)
    parser.add_argument("--replay")
    parser.add_argument("--only")
    parser.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    parser.add_argument("--no-evidence", action="store_true")
    args = parser.parse_args(argv)
    prop, tier = args.property.upper(), args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = derive(os.environ["VERIF_SEED"]) % (1 << 31)
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="vt-{}-".format(prop))
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "hypothesis")
    os.environ["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    os.environ["VT_TMP"] = tmp
    try:
        module = importlib.import_module("vt.props." + prop.lower())
        if args.replay:
            return replay(args.replay, prop, module)
        return check(args, prop, tier, seed, module, here, start)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path, prop, module):
    with open(path) as f:
        data = json.load(f)
    sub = [s for s in module.SUBS if s.name == data["sub"]][0]
    _, error = run_case(sub, data["case"])
    if error:
        print(error)
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    print("the case passes")
    return 0


def check(args, prop, tier, seed, module, here, start):
    deadline = start + BUDGET[tier]
    jobs = []
    for sub in module.SUBS:
        if args.only and sub.name != args.only:
            continue
        shards = max(1, sub.shards if tier == "quick" else max(sub.shards, 8))
        if sub.sweep is None:
            shards = min(shards, sub.quick if tier == "quick" else sub.thorough)
        jobs += [Job(prop, sub, i, shards, tier, seed, deadline) for i in range(shards)]
    known = report_known(here, prop, module)
    results = run_jobs(jobs, args.workers)

    evaluations = sum(r.get("evaluations", 0) for r in results)
    hashes = set().union(*[r.get("hashes", set()) for r in results])
    tags, subs, samples = collections.Counter(), {}, []
    for r in results:
        tags.update(r.get("tags", {}))
        s = subs.setdefault(r["sub"], {"evaluations": 0, "nontrivial": set(), "skipped": 0, "not_started_out_of_time": 0})
        s["evaluations"] += r.get("evaluations", 0)
        s["nontrivial"] |= r.get("hashes", set())
        s["skipped"] += r.get("skipped", 0)
        s["not_started_out_of_time"] += r.get("late", 0)
    for name in subs:
        mine = [r for r in results if r["sub"] == name]
        picked = [c for r in mine for c in r.get("samples", [])][:2] or [r["first_sample"] for r in mine if "first_sample" in r][:1]
        samples += [{"sub": name, "case": c} for c in picked]
        subs[name]["nontrivial"] = len(subs[name]["nontrivial"])
    failures = [r for r in results if r.get("failure")]
    errors = [r for r in results if r.get("error")]
    wall = time.time() - start
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": module.RULE,
            "samples": shorten(samples), "sub_checks": subs, "classes": dict(sorted(tags.items())),
            "violations": [f["sub"] for f in failures], "known_findings_shown": known,
        },
        "wall_s": round(wall, 2),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
        with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
    print("{} {}: {} cases, {} distinct non-trivial, {:.1f} s".format(prop, tier, evaluations, len(hashes), wall), flush=True)
    if failures:
        os.makedirs(os.path.join(here, "replays"), exist_ok=True)
        for r in failures:
            name = "{}-{}-{}.json".format(prop, r["sub"], hashlib.sha1(case_key(r["failure"]["case"]).encode()).hexdigest()[:10])
            path = os.path.join(here, "replays", name)
            with open(path, "w") as f:
                json.dump({"property": prop, "sub": r["sub"], "case": r["failure"]["case"], "message": r["failure"]["message"]}, f, indent=1)
            print("{}: {}".format(r["sub"], r["failure"]["message"][:1500]))
            print("VIOLATION property={} replay={}".format(prop, path), flush=True)
        return 1
    if errors:
        for r in errors:
            print("error in {}: {}".format(r["sub"], r["error"][-3000:]), file=sys.stderr)
        return 2
    return 0


def shorten(samples):
    out = []
    for s in samples:
        text = json.dumps(s)
        out.append(s if len(text) < 2500 else {"sub": s["sub"], "case_json_prefix": text[:2000]})
    return out
