"""Runs Kani, Verus and native replays, and says what they said."""
import json
import os
import re
import subprocess
import tempfile
import time

from lib.rustsrc import LostAnchor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CRATE = os.path.join(VERIF, "kani")

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")


def sh(cmd, timeout, env=None, cwd=VERIF):
    """(exit code or None on timeout, output)"""
    start = time.time()
    try:
        p = subprocess.Popen(
            cmd, cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True,
        )
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out, time.time() - start
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return None, out, time.time() - start
    except OSError as e:
        return None, str(e), time.time() - start


class Result:
    """Of one obligation: `proved`, `failed` or `undecided`"""

    def __init__(self, name, backend, status, detail="", seconds=0.0, checks=0):
        self.name, self.backend, self.status = name, backend, status
        self.detail, self.seconds, self.checks = detail, seconds, checks

    def __repr__(self):
        return f"{self.backend}:{self.name}: {self.status}"


# Kani


def kani_command(names, jobs=8, extra=()):
    cmd = ["cargo", "kani", "--target-dir", os.path.join(BUILD, "kani"), "-Z", "stubbing", "--output-format", "terse"]
    if jobs:
        cmd += ["-j", str(jobs)]
    cmd += list(extra) + ["--exact"]
    for name in names:
        module, short = name.split("::")
        cmd += ["--harness", f"{module}::harness::{short}"]
    return cmd


TOOL_LIMITS = ("unwinding assertion", "is not currently supported by Kani", "unsupported", "recursion unwinding")


def kani(names, timeout, build):
    """Results of harnesses, by name (`module::obligation`)"""
    from lib.build import left_out, stubbed
    if not names:
        return {}
    stubs, deadline, all_names = stubbed(), time.time() + timeout, names
    while True:
        lost = {n: left_out(build, n.split("::")[0], n in stubs) for n in all_names}
        names = [n for n in all_names if lost[n] is None]
        if not names:
            code, out = 0, ""
            break
        code, out, _ = sh(kani_command(names, extra=build.flags()), max(10, deadline - time.time()), env=build.env(), cwd=CRATE)
        if code in (0, None) or "Checking harness" in out or "could not compile" not in out:
            break
        if not build.give_up(out):
            build.error = out
    results, current = {}, {}
    thread, block = None, None
    harness_of = {f"{n.split('::')[0]}::harness::{n.split('::')[1]}": n for n in names}
    blocks = {}
    for line in out.splitlines():
        m = re.match(r"(?:Thread (\d+): ?)?Checking harness ([\w:]+)\.\.\.", line)
        if m:
            current[m.group(1)] = m.group(2)
            thread = m.group(1)
            continue
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            thread = m.group(1)
            line = m.group(2)
        if thread in current:
            blocks.setdefault(current[thread], []).append(line)
    for harness, lines in blocks.items():
        text = "\n".join(lines)
        name = harness_of.get(harness)
        if name is None:
            continue
        t = re.search(r"Verification Time: ([\d.e+-]+)s", text)
        seconds = float(t.group(1)) if t else 0.0
        n = re.search(r"\*\* (\d+) of (\d+) failed", text)
        checks = int(n.group(2)) if n else 0
        cover = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", text)
        failed = re.findall(r"Failed Checks: (.*)", text)
        if "VERIFICATION:- SUCCESSFUL" in text:
            if checks == 0 or cover is None or cover.group(1) != cover.group(2) or cover.group(2) == "0":
                results[name] = Result(name, "kani", "undecided", "vacuous: the end of the harness is unreachable", seconds, checks)
            else:
                results[name] = Result(name, "kani", "proved", "", seconds, checks)
        elif "VERIFICATION:- FAILED" in text:
            real = [f for f in failed if not any(limit in f for limit in TOOL_LIMITS)]
            status = "failed" if real else "undecided"
            results[name] = Result(name, "kani", status, text.strip()[-3000:], seconds, checks)
    for name in all_names:
        if lost[name] is not None:
            results[name] = Result(name, "kani", "undecided", lost[name])
        elif name not in results:
            why = "timeout" if code is None else "no result from Kani"
            errors = "\n".join(l for l in out.splitlines() if l.startswith("error"))[:1500]
            results[name] = Result(name, "kani", "undecided", f"{why}: {errors}")
    return results


def kani_counterexample(name, timeout, build):
    """The choices of the verifier's counterexample, in the order in which the obligation makes them"""
    cmd = kani_command([name], jobs=0, extra=["-Z", "concrete-playback", "--concrete-playback=print"] + build.flags())
    _, out, _ = sh(cmd, timeout, env=build.env(), cwd=CRATE)
    m = re.search(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)
    if not m:
        return None
    values = re.findall(r"vec!\[([\d, ]*)\]", m.group(1))
    choices = []
    for v in values:
        bytes_ = [int(b) for b in v.split(",") if b.strip()]
        if len(bytes_) != 4:
            return None
        choices.append(int.from_bytes(bytes(bytes_), "little"))
    return choices


# Native


NATIVE = ["cargo", "build", "--offline", "--target-dir", os.path.join(BUILD, "native")]
REPLAY = os.path.join(BUILD, "native/debug/replay")


def replay(name, choices, timeout=60):
    """The failure of an obligation on these choices, if it fails"""
    code, out, _ = sh([REPLAY, "run", name, ",".join(map(str, choices))], timeout)
    m = re.search(r"^FAILED (\S+) (\S*) \| (.*)$", out, re.M)
    if code == 1 and m:
        return {"obligation": m.group(1), "choices": m.group(2), "message": m.group(3)}
    return None


def search(names, seconds, seed):
    """(first failures found, statistics)"""
    found, stats = [], []
    if not names:
        return found, stats
    # In parallel: one process each
    waiting, running, outputs = list(names), {}, {}
    while waiting or running:
        while waiting and len(running) < 8:
            name = waiting.pop(0)
            file = tempfile.TemporaryFile("w+")
            running[name] = (subprocess.Popen([REPLAY, "search", str(seconds), str(seed), name], stdout=subprocess.DEVNULL, stderr=file),
                             file, time.time() + seconds * 3 + 30)
        for name, (process, file, end) in list(running.items()):
            if process.poll() is None and time.time() < end:
                continue
            if process.poll() is None:
                process.kill()
                process.wait()
                stats.append({"probe": name, "runs": 0, "complete": False, "note": "did not end"})
            file.seek(0)
            outputs[name] = file.read()
            file.close()
            del running[name]
        time.sleep(0.02)
    for name in names:
        out = outputs[name]
        m = re.search(r"^FOUND (\S+) (\S*) \| (.*)$", out, re.M)
        if m:
            found.append({"obligation": m.group(1), "choices": m.group(2), "message": m.group(3)})
        m = re.search(r"^NONE (\S+) runs=(\d+) held=(\d+) complete=(\w+)", out, re.M)
        if m:
            stats.append({"probe": name, "runs": int(m.group(2)), "within_precondition": int(m.group(3)), "complete": m.group(4) == "true"})
    return found, stats


# Verus


ASSUMED = ("external_body", "assume(", "admit(", "assume_specification", "external_fn_specification", "uninterp", "axiom", "external_trait_specification", "external_type_specification")


def verus(name, unit, timeout=240):
    """The result of a unit (a function that gives the text and the functions under contract), and its evidence"""
    try:
        text, functions = unit()
    except LostAnchor as e:
        return Result(name, "verus", "undecided", f"lost anchor: {e}"), {"functions": []}
    except Exception as e:  # The sources are not as the extraction takes them to be
        return Result(name, "verus", "undecided", f"lost anchor: {type(e).__name__} {e}"), {"functions": []}
    directory = os.path.join(BUILD, "verus")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{name}.rs")
    with open(path, "w") as f:
        f.write(text)
    code, out, seconds = sh(["verus", path, "--output-json", "--time"], timeout, cwd=directory)
    evidence = {
        "functions": [f"{f.where()} {f.head[:100]}" for f in functions],
        "trusted": sorted({line.strip()[:160] for line in text.splitlines() if any(a in line for a in ASSUMED)}),
        "file": path,
    }
    m = re.search(r'"verified": (\d+),\s*"errors": (\d+)', out)
    verified, errors = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    if code == 0 and errors == 0 and verified > 0:
        return Result(name, "verus", "proved", "", seconds, verified), evidence
    # What is not the report in JSON
    detail = re.sub(r"^\{.*?^\}$", "", out, flags=re.S | re.M).strip()[:4000]
    # A failed obligation, and not a limit of the tool?
    failed = re.search(
        r"error: (postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
        r"possible arithmetic|decreases not satisfied|loop invariant|unable to prove|possible division|possible bit shift|"
        r"recommendation not met|constructed value may fail|possible overflow|index|cannot show|could not prove|loop must have)",
        detail,
    )
    # Which functions
    lines, which = text.splitlines(), []
    for m in re.finditer(r"^error: (.*)\n\s*--> [^\n]*?:(\d+):\d+$", detail, re.M):
        for n in range(min(int(m.group(2)), len(lines)) - 1, -1, -1):
            function = re.match(r"\s*(?:pub )?(?:proof )?fn (\w+)", lines[n])
            if function:
                which.append(f"{function.group(1)}: {m.group(1)}")
                break
    if errors and failed and "resource limit" not in detail.lower():
        detail = "; ".join(dict.fromkeys(which)) + "\n" + detail
        return Result(name, "verus", "failed", detail, seconds, verified), evidence
    return Result(name, "verus", "undecided", detail, seconds, verified), evidence
