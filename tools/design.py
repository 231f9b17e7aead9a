#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the table below and the seeds."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {
"C01": "Schedules of 2-3 concurrent `AddDirective` calls with equivalent, superseding and unrelated directives, racing with releases, the disposal timer and dispose callbacks that add directives again (`add-add-equiv`, `supersede-race`, `supersede-many`, `release-vs-add`, `timer-vs-add`, `distinct`, `readd-on-dispose`). Oracle: at quiescence the live instances computed from the events are pairwise not equivalent, every returned reference belongs to a live instance unless superseded, every superseded instance is disposed, no unrelated one is. `supersede-many` enumerates all layouts of 5 directives.",
"C02": "Schedules of `AddHandler`, removal, `AddDirective`, Close and superseding, also nested in `HandleDirective`. Oracle: each (live directive, handler) pair has exactly one `HandleDirective` event; resolvers of removed handlers are not running at quiescence; `bad-handlers` enumerates erroring, panicking and declining handlers next to a good one.",
"C03": "Schedules of releases, weak and strong references, the disposal timer, Close and `CloseIfUnreferenced`; and all sequential histories (`model`) against a reference model of references, delays and values (`mc/h/dcs/model.go`) with value options enumerated. Oracle: live exactly if the model says so, dispose events exactly once.",
"C04": "Schedules of values added/removed/cleared by two resolvers against references added, Close, and re-entrant callbacks; all histories against the model; `model-tree`: histories over trees of sub-resolvers and attached directives. Oracle: replay of the event log of each reference (`dct.CheckRef`): ascending ids, each once, removal after addition, nothing after disposal; held set equals attached set.",
"C05": "Schedules of handler removal against values, references, Close, and re-entrant removals at every placement; `many-directives` enumerates which of several directives/handlers go; `model-tree` all histories on sub-resolver trees. Oracle: values and resolver contexts of the removed subtree are gone, others untouched, callbacks exactly once.",
"C06": "Schedules of `MarkIdle`, returns and errors of resolvers against idle callbacks being added/released and handlers coming and going; all histories against the model (idle flag, errors, reports). Oracle: last report of each callback equals the true state; each report differs from the one before except for a new error; no idle report while an initial resolver is busy.",
"C07": "Schedules of resolvers racing for a hard/soft cap, of values going away while resolvers are stopped, re-entrant changes, attaching at the cap; all histories against the model. Oracle: number of attached values against the cap at every event, set of running resolvers at quiescence.",
"C08": "Schedules of stopping/restarting with slow resolvers, Close, removal. Oracle: start/end events of `Resolve` never nest, contexts are canceled when stopped, calls on a stale handler are rejected, no start after the directive ended.",
"C09": "For each of 11 kinds of callback, all placements of 17 engine operations called from inside it, plus panics, on all schedules up to the bound. Oracle: no deadlock, panic, race or lost callback.",
"C10": "All scripts of a resolver (9 step kinds, length 4 in quick) split at every position into before/during the call, for 7 variants of one-shot helpers x filters x idle callbacks, and `ExecCollectValues` (longer scripts over add/remove/idle); equal values from three sources (the dispose callback follows the *held* one); schedules of shorter scripts with cancelation; two resolvers; `RefCount`. Oracle: `plan.expect`, a reference interpretation of the script.",
"C11": "For each of 10 watch helpers all histories of values from one source (adding, removing, re-adding, references released, cancel), schedules of two sources changing concurrently, all map orders. Oracle: reported value is acceptable, present, and the one the selection rule picks; effects started/stopped balance.",
"C12": "PassThru/Transform handlers and the bus bridge: all histories of values, references, closing and bridges; schedules of pairs; two-way bridges. Oracle: images of the source's present values; directives on the target bus.",
"C13": "Transform, typed transform, watchable, watchable transform, getter, unique list/map and value resolvers: all histories of source changes incl. failing/rejecting derivations, removal, re-creation; schedules against stopping. Oracle: images of the current source; resource ledger (`bst.Res`): each release exactly once and not early.",
"C14": "Access, getter, keyed getter, refcount, keyed refcount, func and retry resolvers: all histories of obtaining/invalidating/failing/stopping (also invalidation before the value is returned), schedules of pairs; scripted backoffs under fake time. Oracle: ledger, number of getter calls, time of each retry.",
"C15": "In-memory bus: all histories of adding/executing/finishing/failing/panicking/removing two controllers incl. the same one attached twice, schedules of pairs, bus calls from within each controller callback. Oracle: listed/asked/executing sets from a model, exit callback exactly once with the right error.",
"C16": "Loader: all histories of results of `Execute` and `Construct`, retries under fake time with scripted backoff, loader removal, sharing and factory versions; schedules of the end of an execution vs release/removal/Close; `WaitExecControllerRunning`. Oracle: value of the directive step by step, one running instance, ledger of `Close`.",
"C17": "Resolver chain: all histories of four kinds of request and of loader, resolver, factory provider (plain or unloading) coming and going; schedules of pairs; of parts appearing while the request is added. Oracle: running controllers and values from a model.",
"C18": "Config set: all histories (push, persist, lookup, apply, fail, replace, release on two keys), settled or fast; schedules of two operations, outcome compared with all sequential interleavings of the model (linearizability style); re-entrant use from state callbacks.",
"C19": "As C18, with states, callbacks and directive values compared after each step; callbacks kept busy while errors/configs change; re-entrant callbacks. Oracle: last state called back = `GetState` = values of the directives, with the identity of the error.",
}
exec(open(os.path.join(HERE, "tools", "design_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "design_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
out = []
for p in props:
    out.append("* **%s %s.** %s" % (p["id"], p["title"], D[p["id"]]))
na = man.get("not_applicable") or []
if na:
    out.append("\nNot applicable: " + "; ".join("%s: %s" % (n["property"], n["reason"]) for n in na))
res = {}
rf = os.path.join(HERE, "tools", "seed_results.json")
if os.path.exists(rf):
    res = json.load(open(rf))
seeds = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], res.get(s, "?")))
t = open(os.path.join(HERE, "tools", "DESIGN.tmpl.md")).read()
open(os.path.join(HERE, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(seeds)))
