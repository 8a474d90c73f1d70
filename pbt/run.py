"""Entry point: decide one property, or replay one saved case."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
ROOT = HERE.parent
sys.path.insert(0, str(HERE))

import core  # noqa: E402

core.setup_paths()

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
TIME_CAP = {"quick": 150.0, "thorough": 780.0}


def load(prop: str):
    return importlib.import_module(f"props.{prop.lower()}")


def _limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass


def worker(prop, idx, tier, seed, deadline, stop_event, queue):
    _limit_memory()
    try:
        mod = load(prop)
        for test in mod.TESTS:
            if stop_event.is_set():
                break
            total = test.quick if tier == "quick" else (test.thorough or 12 * test.quick)
            share = total // WORKERS + (1 if idx < total % WORKERS else 0)
            if share == 0:
                continue
            t0 = time.monotonic()
            out = core.run_test(
                test,
                seed=core.derive_seed(seed, prop, test.name, idx),
                examples=share,
                deadline=deadline,
                stop=stop_event.is_set,
            )
            queue.put(
                (
                    "ok",
                    {
                        "worker": idx,
                        "test": out.test,
                        "evaluations": out.evaluations,
                        "keys": sorted(out.keys),
                        "labels": out.labels,
                        "samples": out.samples,
                        "failure": out.failure,
                        "capped": out.capped,
                        "wall": time.monotonic() - t0,
                    },
                ),
            )
            if out.failure:
                stop_event.set()
                break
        queue.put(("done", idx))
    except BaseException:
        queue.put(("harness", traceback.format_exc()))


def replay_one(payload: dict) -> str | None:
    """Re-run one saved case without Hypothesis; returns the error, if any."""
    mod = load(payload["property"])
    test = next((t for t in mod.TESTS if t.name == payload["test"]), None)
    if test is None:
        raise SystemExit(f"unknown test {payload['test']!r} in replay file")
    try:
        core.guarded(test, payload["case"])
    except core.Hang:
        return f"no answer within {test.cpu_limit:.0f} s of CPU time"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return None


def _replay_child(payload, conn):
    _limit_memory()
    try:
        conn.send(("ok", replay_one(payload)))
    except BaseException:
        conn.send(("harness", traceback.format_exc()))


def replay_fresh(payload: dict):
    """Replay in a fresh process, so nothing earlier in this one can matter."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe()
    p = ctx.Process(target=_replay_child, args=(payload, b))
    p.start()
    b.close()
    try:
        res = a.recv()
    except EOFError:
        res = ("ok", "the process died")
    p.join()
    return res


def known_findings(prop: str) -> list[dict]:
    out = []
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text(encoding="utf-8").splitlines():
            line = line.strip()
            if not line or line.startswith(("fixed:", "//")):
                continue
            entry = json.loads(line)
            if entry["property"] == prop:
                out.append(entry)
    return out


def save_replay(prop: str, failure: dict, tag: str) -> Path:
    d = ROOT / "evidence" / "replay"
    d.mkdir(parents=True, exist_ok=True)
    key = core.case_key(failure["test"], failure["case"])
    name = "".join(c if c.isalnum() else "-" for c in failure["test"])
    path = d / f"{prop}-{name}-{key}.json"
    path.write_text(
        json.dumps({"property": prop, "origin": tag, **failure}, indent=1),
        encoding="utf-8",
    )
    return path


def main(argv: list[str]) -> int:
    if argv and argv[0] == "--replay":
        payload = json.loads(Path(argv[1]).read_text(encoding="utf-8"))
        err = replay_one(payload)
        if err:
            print(err)
            print(f"VIOLATION property={payload['property']} replay={argv[1]}")
            return 1
        print("held")
        return 0

    if argv and argv[0] == "--selftest":
        import dynamicprompts

        for path in sorted((HERE / "props").glob("c[0-9]*.py")):
            mod = load(path.stem)
            for t in mod.TESTS:
                t.strategy().validate()
        print("ready:", Path(dynamicprompts.__file__).parent)
        return 0

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in TIME_CAP:
        print(f"unknown tier {tier}", file=sys.stderr)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    mod = load(prop)
    failure: dict | None = None
    replay_path: Path | None = None

    # 0. listed findings: reported, never counted as new violations
    known = known_findings(prop)
    for entry in known:
        kind, err = replay_fresh(entry)
        if kind == "harness":
            print(err, file=sys.stderr)
            return 2
        if err:
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")

    # 1. committed regression cases (shrunk failures of earlier runs)
    n_reg = 0
    reg_keys = set()
    for path in sorted((ROOT / "regressions").glob(f"{prop}-*.json")):
        payload = json.loads(path.read_text(encoding="utf-8"))
        n_reg += 1
        reg_keys.add(core.case_key(payload["test"], payload["case"]))
        kind, err = replay_fresh(payload)
        if kind == "harness":
            print(err, file=sys.stderr)
            return 2
        if err:
            failure = {**payload, "error": err}
            replay_path = path
            break

    # 2. generated search
    tests: dict[str, dict] = {}
    harness_errors = []
    if failure is None:
        ctx = mp.get_context("fork")
        stop_event = ctx.Event()
        queue = ctx.Queue()
        deadline = time.monotonic() + TIME_CAP[tier]
        procs = [
            ctx.Process(
                target=worker,
                args=(prop, i, tier, seed, deadline, stop_event, queue),
            )
            for i in range(WORKERS)
        ]
        for p in procs:
            p.start()
        pending = set(range(WORKERS))
        found = None  # when the first failure was reported
        while pending and (found is None or time.monotonic() - found < 10):
            try:
                kind, data = queue.get(timeout=1.0)
            except Exception:
                dead = [i for i in pending if not procs[i].is_alive()]
                if dead and queue.empty():
                    time.sleep(0.5)
                    if queue.empty():
                        harness_errors.append(
                            f"worker(s) {dead} died, "
                            f"exit codes {[procs[i].exitcode for i in dead]}",
                        )
                        pending -= set(dead)
                continue
            if kind == "done":
                pending.discard(data)
            elif kind == "harness":
                harness_errors.append(data)
                stop_event.set()
                break
            else:
                t = tests.setdefault(
                    data["test"],
                    {
                        "evaluations": 0,
                        "keys": set(),
                        "labels": {},
                        "samples": [],
                        "capped": False,
                        "wall": 0.0,
                    },
                )
                t["evaluations"] += data["evaluations"]
                t["keys"] |= set(data["keys"])
                t["capped"] |= data["capped"]
                t["wall"] = max(t["wall"], data["wall"])
                for k, v in data["labels"].items():
                    t["labels"][k] = t["labels"].get(k, 0) + v
                t["samples"] += data["samples"]
                if data["failure"] and failure is None:
                    failure = data["failure"]
                    found = time.monotonic()
        for p in procs:
            p.join(timeout=40 if failure is None else 1)
            if p.is_alive():
                p.kill()
                p.join()
        if failure is not None:
            kind, err = replay_fresh({"property": prop, **failure})
            failure["reproduced_in_fresh_process"] = bool(kind == "ok" and err)
            replay_path = save_replay(prop, failure, f"seed {seed} tier {tier}")

    wall = time.monotonic() - t0
    samples = []
    for name, t in tests.items():
        for s in t["samples"][:3]:
            samples.append({"test": name, "case": s})
    distinct = sum(len(t["keys"]) for t in tests.values()) + len(reg_keys)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(t["evaluations"] for t in tests.values()) + n_reg,
            "distinct_nontrivial": distinct,
            "rule": mod.RULE,
            "samples": samples[:12],
            "regression_cases": n_reg,
            "tests": {
                name: {
                    "evaluations": t["evaluations"],
                    "distinct_nontrivial": len(t["keys"]),
                    "labels": dict(sorted(t["labels"].items())),
                    "time_capped": t["capped"],
                    "wall_s": round(t["wall"], 2),
                }
                for name, t in tests.items()
            },
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 0 if failure is None else 1,
    }
    if failure is not None:
        evidence["coverage"]["violation"] = {
            "test": failure["test"],
            "error": failure["error"][:3000],
            "replay": str(replay_path),
        }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(
        json.dumps(evidence, indent=1, ensure_ascii=True),
        encoding="utf-8",
    )

    if failure is not None:
        print(f"{prop}/{failure['test']} failed:\n{failure['error'][:3000]}")
        print("case:", json.dumps(failure["case"])[:3000])
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if harness_errors:
        print("\n".join(harness_errors), file=sys.stderr)
        return 2
    print(
        f"{prop} held: {evidence['coverage']['evaluations']} cases, "
        f"{distinct} distinct non-trivial, {wall:.1f} s"
        + (" (time cap reached)" if any(t["capped"] for t in tests.values()) else ""),
    )
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
