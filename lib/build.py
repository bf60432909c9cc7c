"""Builds the crate of the obligations against /repo, leaving out what no longer builds against a changed tree.

A change of /repo may rename what a single module of obligations names (a private function that is stubbed, a
field that a hook names). What does not depend on it is still decided; the rest is reported as undecided."""
import os
import re

from lib import runner

MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(runner.CRATE, "src")))
           if f.endswith(".rs") and f not in ("lib.rs", "choice.rs", "geom.rs", "values.rs")]

HOOKS = "--cfg barbarosa_verif"


class Build:
    """What is left of the crate for one of its two compilers"""

    def __init__(self, command, base_timeout=700):
        self.command, self.timeout = command, base_timeout
        self.without, self.hooks, self.error = set(), True, None

    def flags(self):
        return ["--features", ",".join(f"without_{m}" for m in sorted(self.without))] if self.without else []

    def env(self):
        return {"RUSTFLAGS": HOOKS if self.hooks else ""}

    def run(self):
        """Builds; what was given up is in `without` and `hooks`, an `error` is final"""
        seconds = 0.0
        for _ in range(len(MODULES) + 3):
            code, out, took = runner.sh(self.command + self.flags(), self.timeout, env=self.env(), cwd=runner.CRATE)
            seconds += took
            if code == 0:
                return seconds
            if not self.give_up(out):
                self.error = out
                return seconds
        self.error = out
        return seconds

    def give_up(self, out):
        """Whether there is something to leave out for these errors"""
        changed = False
        blocks = re.split(r"\n(?=error)", "\n" + out)
        for block in blocks:
            if not block.startswith("error"):
                continue
            where = re.search(r"-->\s*(\S+?):\d+:\d+", block)
            if not where:
                continue
            path = where.group(1)
            if "failed to resolve" in block and "stub" in block:
                if "stubs" not in self.without:
                    self.without.add("stubs")
                    changed = True
                continue
            if "barbarosa/src" in path and self.hooks:
                self.hooks = False
                return True
            # Of a macro of choice.rs: the invocation is further down
            for name in re.findall(r"(?:-->|:::)\s*src/(\w+)\.rs", block):
                if name in MODULES and name not in self.without:
                    self.without.add(name)
                    changed = True
        return changed


def left_out(build, module, stubbed):
    if build.error:
        return "does not build against this tree"
    if module in build.without:
        return f"the module {module} of the obligations does not build against this tree"
    if stubbed and "stubs" in build.without:
        return "what it stubs is not in this tree"
    return None


def stubbed():
    """The obligations that have stubs"""
    names = set()
    for module in MODULES:
        with open(os.path.join(runner.CRATE, "src", module + ".rs")) as f:
            text = f.read()
        for m in re.finditer(r"((?:[ \t]*#\[[^\n]*\]\n|[ \t]*///[^\n]*\n)+)[ \t]*fn (\w+)\(g\)", text):
            if "#[stub(" in m.group(1):
                names.add(f"{module}::{m.group(2)}")
    return names


def repo_builds():
    """Whether /repo itself builds"""
    code, out, _ = runner.sh(
        ["cargo", "check", "--offline", "--manifest-path", "/repo/barbarosa/Cargo.toml", "--target-dir", os.path.join(runner.BUILD, "plain")], 600)
    return code == 0, out
