"""Contract of what dockets call their keys (C31).  That a docket's code uses no other keys and
channels than these is an obligation of every contract (Env.uses)."""
from __future__ import annotations

from .world import *
from engine.env import Env, slot_of
from .registry import contract

NAMES = ["d", "dd", "d1", "d-d", "D", "my docket", "é", "a[b]*", "*", "c\\?", "docket", "runs", "x" * 200]
URLS = ["redis://localhost:6379/0", "rediss://h/1", "redis+cluster://h:7000", "rediss+cluster://h:7000", "redis+sentinel://a:1,b:2/mymaster/0", "memory://x"]


@contract("dockets.apart", "C31 C16", ["docket._redis:RedisConnection.prefix", "docket._redis:RedisConnection.is_cluster", "docket.docket:Docket.prefix",
          "docket.docket:Docket.key", "docket.strikelist:StrikeList.prefix", "docket.strikelist:StrikeList.strike_key"], kind="unrolled",
          note=f"{len(NAMES)} names without a colon or braces, {len(URLS)} kinds of URL; what is built from a name only concatenates it")
async def apart(c):
    """two dockets on one server, and what their keys are called"""
    from docket.docket import Docket
    from docket.strikelist import StrikeList
    from docket.worker import Worker
    env = await Env.make(c)
    w = W(env, "dockets.apart")
    url = c.pick(*URLS)
    a = c.choose(len(NAMES), "name")
    d = Docket(name=NAMES[a], url=url)
    names = [getattr(d, n) for n in ("queue_key", "stream_key", "workers_set", "results_collection") if hasattr(d, n)]
    for task in ("k", "a:b", "{x}", "é"):
        names += [d.key(task)] + [getattr(d, n)(task) for n in ("known_task_key", "parked_task_key", "stream_id_key", "runs_key", "worker_tasks_set", "task_workers_set")
                                  if hasattr(d, n)]
    names.append(StrikeList(url, NAMES[a]).strike_key)
    w.p("its-own", all(x.startswith(d.prefix + ":") for x in names), "C31", [d.prefix, names])
    w.p("strikes-are-the-docket's", names[-1] == d.key("strikes") and StrikeList(url, NAMES[a]).prefix == d.prefix, "C16 C31", names[-1])
    if "cluster" in url: w.p("one-slot", len({slot_of(x) for x in names}) == 1, "C31", names)
    w.p("the-same-for-everybody", Docket(name=NAMES[a], url=url).prefix == d.prefix, "C31 C16", "")
    for other in NAMES:
        if other == NAMES[a]: continue
        theirs = Docket(name=other, url=url).prefix + ":"
        w.p("nobody-else's", not any(x.startswith(theirs) for x in names), "C31", [theirs, names])
