"""Runner: ./check <property> [quick|thorough] [--replay FILE]"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import core
from .props import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def derive(seed, shard, pid):
    return int.from_bytes(core.h64(f"{pid}/{seed}/{shard}".encode()), "big") >> 1


def silence():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)


def worker(pid, tier, seed, shard, n_shards, cases, workdir, q):
    silence()
    d = tempfile.mkdtemp(dir=workdir)
    os.chdir(d)
    check = registry.load(pid)
    ctx = core.Ctx(check, tier, derive(seed, shard, pid), shard, n_shards, cases)
    err = None
    try:
        check.setup()
        check.shard(ctx)
    except Exception:
        err = traceback.format_exc()
    q.put((shard, ctx.stats, ctx.found, err))
    q.close()
    q.join_thread()
    os._exit(0)


def shrink_worker(pid, case, msg, budget, workdir, q):
    silence()
    os.chdir(tempfile.mkdtemp(dir=workdir))
    check = registry.load(pid)
    try:
        check.setup()
        case, msg = core.shrink(check, case, msg, budget)
    except Exception:
        pass
    q.put((case, msg))
    q.close()
    q.join_thread()
    os._exit(0)


def replay(pid, path):
    with open(path) as f:
        r = json.load(f)
    check = registry.load(pid)
    work = tempfile.mkdtemp(prefix="mjv-")
    cwd = os.getcwd()
    os.chdir(work)
    try:
        check.setup()
        try:
            with core.limit():
                core.guarded(check.check_case, r["case"])
        except core.Violation as v:
            print(v.msg)
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print(f"property {pid} holds on {path}")
        return 0
    finally:
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)


def known(pid):
    """Known findings of this property: list of (key, text)."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                parts = dict(x.split("=", 1) for x in line.split()[1:3])
                if parts.get("property") == pid:
                    out.append((parts["case"], line.split(None, 3)[3]))
    return out


def self_test():
    """Everything the checks need is there, and the reference agrees with itself."""
    import random
    hypothesis = core.load_hypothesis()
    import numpy
    import torch
    from .props import common
    from .ref import codec, hands, sim
    for pid in registry.WHERE:
        registry.load(pid)
    rnd = random.Random(1)
    for _ in range(20):
        game, _ = common.gen_game(sim.Tape(rnd.randbytes(4000)), 1)
        common.replay_game(game)
    for code, meld in codec.all_codes():
        assert codec.decode(code) == meld
    assert hands.shanten((3, 1, 1, 1, 1, 1, 1, 1, 3) + (0,) * 25) == 0
    print("self-test passed:", hypothesis.__version__, numpy.__version__, torch.__version__)
    return 0


def main():
    if sys.argv[1:] == ["--self-test"]:
        return self_test()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--evidence", default=os.path.join(VERIF, "evidence"))
    a = ap.parse_args()
    pid = a.property
    if a.replay:
        return replay(pid, os.path.abspath(a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    check = registry.load(pid)
    cases = a.cases or getattr(check, a.tier)
    n = a.shards or min(check.shards, os.cpu_count() or 1)
    n = check.shards if not a.shards else n
    work = tempfile.mkdtemp(prefix="mjv-")
    stats, found, errors = core.Stats(), [], []
    ctxm = mp.get_context("fork")
    try:
        q = ctxm.Queue()
        procs = [ctxm.Process(target=worker, args=(pid, a.tier, seed, s, n, cases, work, q))
                 for s in range(n)]
        for p in procs:
            p.start()
        got = {}
        while len(got) < n:
            try:
                s, st, fo, err = q.get(timeout=2)
                got[s] = (st, fo, err)
            except Exception:
                dead = [i for i, p in enumerate(procs) if not p.is_alive() and i not in got]
                if dead:
                    time.sleep(1)
                    while not q.empty():
                        s, st, fo, err = q.get()
                        got[s] = (st, fo, err)
                    for i in dead:
                        if i not in got:
                            got[i] = (core.Stats(), [], f"worker {i} died, exit {procs[i].exitcode}")
        for p in procs:
            p.join(10)
        for s in sorted(got):
            st, fo, err = got[s]
            stats.merge(st)
            found += fo
            if err:
                errors.append(err)
        path = None
        if found:
            case, msg = min(found, key=lambda f: (check.size(f[0]), core.h64(f[0])))
            sq = ctxm.Queue()
            p = ctxm.Process(target=shrink_worker,
                             args=(pid, case, msg, 60 if a.tier == "quick" else 180, work, sq))
            p.start()
            try:
                case, msg = sq.get(timeout=400)
            except Exception:
                pass
            p.join(5)
            if p.is_alive():
                p.kill()
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{pid}-{core.h64(case).hex()}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "message": msg, "seed": seed, "tier": a.tier,
                           "how": f"./check {pid} --replay {path}", "case": case}, f, indent=1)
                f.write("\n")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.hashes),
            "rule": check.rule,
            "samples": stats.samples,
            "classes": dict(sorted(stats.classes.items())),
            "shards": n,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(found),
    }
    os.makedirs(a.evidence, exist_ok=True)
    tmp = os.path.join(a.evidence, f".{pid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(a.evidence, pid + ".json"))
    for key, text in known(pid):
        print(f"KNOWN-FINDING: property={pid} {text}")
    if found:
        print(msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("harness error, no verdict:\n" + "\n".join(errors[:2]), file=sys.stderr)
        return 3
    print(f"{pid} {a.tier} seed={seed}: held on {stats.evaluations} cases, {len(stats.hashes)} "
          f"distinct non-trivial, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
