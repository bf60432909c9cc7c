#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decides a property of /repo's working tree (see DESIGN.md)
   check.py --setup             builds what can be built ahead"""
import fcntl
import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build, runner  # noqa: E402
from lib.registry import ASSUMPTIONS, PROPERTIES  # noqa: E402
from lib.units import UNITS  # noqa: E402

VERIF = runner.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    out = []
    with open(FINDINGS) as f:
        for line in f:
            if line.startswith(f"known: property={prop} "):
                out.append(line[len(f"known: property={prop} "):].strip())
    return out


def setup():
    os.makedirs(runner.BUILD, exist_ok=True)
    native = build.Build(runner.NATIVE)
    seconds = native.run()
    print("native:", "failed\n" + native.error if native.error else f"built in {seconds:.0f} s")
    results = runner.kani(["pieces::corner_move_is_rigid"], 900, build.Build(None))
    print("kani:", results)
    sys.exit(2 if native.error or any(r.status != "proved" for r in results.values()) else 0)


def main():
    if sys.argv[1] == "--setup":
        setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPERTIES[prop]
    started = time.time()
    deadline = started + (840 if tier == "quick" else 6 * 3600)
    os.makedirs(runner.BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    lock = open(os.path.join(runner.BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)

    harnesses = list(spec.get("kani", []))
    if tier == "thorough":
        harnesses += spec.get("kani_thorough", [])

    # Verus and the native build beside Kani
    verus_results, verus_evidence = [], {}
    native, for_kani = build.Build(runner.NATIVE), build.Build(None)

    def other():
        native.run()
        for name in spec.get("verus", []):
            result, evidence = runner.verus(name, UNITS[name])
            verus_results.append(result)
            verus_evidence[name] = evidence

    thread = threading.Thread(target=other)
    thread.start()
    kani_results = runner.kani(harnesses, 480 if tier == "quick" else 4 * 3600, for_kani)
    thread.join()

    results = list(kani_results.values()) + verus_results
    failed = [r for r in results if r.status == "failed"]
    undecided = [r for r in results if r.status == "undecided"]
    proved = [r for r in results if r.status == "proved"]

    violations, bounded = [], []
    if native.error:
        builds, output = build.repo_builds()
        if not builds:
            print(output[-3000:])
            print("/repo does not build")
            if not failed:
                sys.exit(2)
        print("the obligations do not build against this tree: nothing is decided natively\n" + native.error[-3000:])
    else:
        # The bounded stand-ins: what is not within the reach of the verifiers, what they did not decide, and
        # the property itself on whole cubes (where the parts of the proof meet)
        stand_in = list(spec.get("bounded", [])) + spec.get("probes", [])
        seconds = 6 if tier == "quick" else 120
        if failed or undecided:
            stand_in += [r.name.split("::")[1] for r in failed + undecided if r.backend == "kani"]
            stand_in = list(dict.fromkeys(stand_in))
            seconds = 12 if tier == "quick" else 300
            # For many obligations, less time each: 8 run at a time
            room = max(60, min(240, deadline - time.time() - 120))
            seconds = max(2, min(seconds, room * 8 / max(1, len(stand_in))))
        found, bounded = runner.search(stand_in, seconds, seed)
        violations += found
        # What the verifier says fails, but holds natively for each and every input, is a limit of the verifier
        complete = {b["probe"] for b in bounded if b.get("complete")}
        for r in failed:
            checks = [line for line in r.detail.splitlines() if line.startswith("Failed Checks:")]
            if r.name.split("::")[-1] in complete and all("assertion failed" in line for line in checks):
                r.status = "undecided"
                r.detail = "the verifier rejects what holds for all inputs when run: " + r.detail
        failed = [r for r in results if r.status == "failed"]
        undecided = [r for r in results if r.status == "undecided"]
        # The counterexamples of the verifier, replayed
        for r in failed:
            if violations or r.backend != "kani" or time.time() > deadline - 200:
                continue
            choices = runner.kani_counterexample(r.name, min(300, deadline - time.time() - 60), for_kani)
            if choices is not None:
                hit = runner.replay(r.name.split("::")[1], choices)
                if hit:
                    hit["from"] = "counterexample of Kani"
                    violations.append(hit)

    for finding in known_findings(prop):
        print(f"KNOWN-FINDING: property={prop} {finding}")

    functions = sorted(set(spec.get("functions", [])) | {f for e in verus_evidence.values() for f in e["functions"]})
    trusted = sorted({t for e in verus_evidence.values() for t in e.get("trusted", [])})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": len(results),
            "discharged": len(proved),
            "checks_inside_the_obligations": sum(r.checks for r in results),
            "checker_cmd": " ; ".join(
                ([" ".join(runner.kani_command(["<module>::<obligation>"]))] if harnesses else [])
                + (["verus <extracted unit>"] if verus_results else [])),
            "trusted_base": ASSUMPTIONS + spec.get("trusted", []) + trusted,
            "functions_under_contract": functions,
            "by_obligation": [
                {"obligation": r.name, "back_end": "Kani 0.68 / CBMC 6.11 (CaDiCaL)" if r.backend == "kani" else "Verus 0.2026.09 / Z3",
                 "status": r.status, "checks": r.checks, "seconds": round(r.seconds, 2)}
                for r in results
            ],
            "solver_seconds": round(sum(r.seconds for r in results), 1),
            "bounded_not_counted_as_proved": bounded,
            "left_out_of_the_build": sorted(native.without | for_kani.without) + ([] if native.hooks and for_kani.hooks else ["hooks"]),
            "undecided": [{"obligation": r.name, "why": r.detail[-600:]} for r in undecided],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": 0.0,
        "violations": len(violations) or (1 if failed else 0),
    }

    code = 0
    if failed or violations:
        code = 1
        directory = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory, f"{prop}.txt")
        with open(path, "w") as f:
            for v in violations:
                f.write(f"failing input of {v['obligation']}: choices {v['choices']}\n")
                f.write(f"  {v['message']}\n")
                f.write(f"  replay: cd {VERIF} && RUSTFLAGS='--cfg barbarosa_verif' cargo run --offline --manifest-path kani/Cargo.toml "
                        f"--target-dir .build/native --bin replay -- run {v['obligation']} {v['choices']}\n")
            for r in failed:
                f.write(f"\nfailed obligation: {r.backend} {r.name}\n{r.detail}\n")
        for v in violations:
            print(f"failing input of {v['obligation']}: {v['choices']}: {v['message']}")
        for r in failed:
            print(f"failed obligation: {r.backend} {r.name}" + (f" ({r.detail.splitlines()[0]})" if r.backend == "verus" and r.detail else ""))
        tail = "" if violations else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}{tail}")
    evidence["wall_s"] = round(time.time() - started, 2)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for r in undecided:
        print(f"undecided (bounded stand-in only): {r.backend} {r.name}: {r.detail[:800]}")
    print(f"{prop} {tier}: {len(proved)} of {len(results)} obligations discharged, {len(bounded)} bounded, {evidence['wall_s']} s")
    sys.exit(code)


main()
