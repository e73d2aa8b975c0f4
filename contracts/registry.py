from __future__ import annotations

from dataclasses import dataclass
from typing import Any, Callable

CONTRACTS: dict[str, "Contract"] = {}

# properties of which only small parts are proved: what the rest is, is what they are
MOSTLY_EXPLORED = {"C34"}


@dataclass
class Contract:
    name: str
    props: tuple[str, ...]
    fn: Callable[[Any], Any]
    functions: list[str]
    # or "unrolled": all values, but a loop followed for a stated number of rounds; or
    # "bounded": concrete runs only.  Neither is counted as proved.
    kind: str = "proof"
    note: str = ""
    max_paths: int = 20000
    weight: float = 1            # scheduling hint: seconds
    sweep_factor: float = 1
    assumes: tuple[str, ...] = ()

    def primary_for(self, pid): return True


def contract(name, props, functions, **kw):
    def deco(fn):
        CONTRACTS[name] = Contract(name, tuple(props.split()), fn, list(functions), **kw)
        return fn
    return deco
