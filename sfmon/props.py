"""The checks, one per property."""
from __future__ import annotations
from dataclasses import dataclass, field


@dataclass
class Check:
    fn: object
    cases: tuple
    rule: str
    level: str = "exploration"
    assumptions: list = field(default_factory=list)
    exhaustive: str = ""
    kinds: tuple = ("debug",)

    def builds(self, tier):
        return self.kinds


CHECKS: dict = {}


def check(pid, cases, rule, **kw):
    def deco(fn):
        CHECKS[pid] = Check(fn, cases, rule, **kw)
        return fn
    return deco


from . import checks_reports, checks_envelopes, checks_files, checks_import, checks_robust, checks_more  # noqa: E402,F401
