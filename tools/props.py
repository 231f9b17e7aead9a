#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, tests, files, mech, observe=None, note=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
    P[-1]["_note"] = note
    P[-1]["_claimed"] = claimed


DC = "directive/controller/"
SCHED = ["schedules", "histories", "configurations"]

prop("C01", "Equivalent directives share one live instance; superseding replaces it",
     "At every quiescent moment there is at most one live instance per set of equivalent directives: adding an equivalent directive returns the live instance with a new reference, unless the new directive supersedes the old, in which case every superseded instance is disposed and the new one takes its place. Directives that are not equivalent never share an instance and are never removed by such an addition. This holds for concurrent additions, for additions racing with the release of the last reference or with the disposal timer, and for callbacks that add or release directives while one is being superseded.",
     SCHED, "all interleavings of concurrent AddDirective/Release/Close calls and all layouts of superseded, unrelated and re-entrantly added directives",
     "The unit tests add single directives from one goroutine; none adds equivalent or superseding directives concurrently or from a callback.",
     [DC + "controller.go", DC + "instance.go"], [("Controller.AddDirective", DC + "controller.go"), ("directiveInstance.removeLocked", DC + "instance.go")],
     ["AddDirective", "GetDirectives", "Instance.GetContext"])
prop("C02", "Every handler is asked exactly once about every directive",
     "Each pair of a live directive and an attached handler leads to exactly one HandleDirective call, no matter in which order or how concurrently they are added, and the returned resolvers run until the handler or the directive goes away. After a handler was removed or the directive was disposed none of its resolvers is started or left running, even if the removal happens while HandleDirective is being called. A handler that fails, panics or declines does not affect what the other handlers are asked or deliver.",
     SCHED, "all interleavings of AddHandler, handler removal, AddDirective, superseding and Close, including calls made from within HandleDirective",
     "Tests add handlers before directives, sequentially; the window in which handlers are called with the controller unlocked is never raced.",
     [DC + "controller.go", DC + "instance.go", DC + "handler.go"], [("Controller.AddHandler / AddDirective", DC + "controller.go"), ("attachStartResolverLocked", DC + "instance.go")],
     ["HandleDirective", "Resolve", "HandleValueAdded"])
prop("C03", "A directive lives exactly as long as it is referenced",
     "An instance is disposed exactly when its last strong reference is released and the configured delay elapsed without a new strong reference (immediately if the delay is zero, or if it has no values and is configured so), or when it is closed; weak references do not keep it alive. Disposal cancels the instance's context, calls each unreleased dispose callback exactly once (in a new goroutine if added after disposal) and tells each remaining reference exactly once. A reference obtained before disposal keeps the instance alive until it is released, whatever races with it.",
     SCHED, "all interleavings of references, releases, timers, Close and CloseIfUnreferenced, and all operation sequences up to a depth against a reference model",
     "No test exercises the disposal delay, weak references, or any race with the timer.",
     [DC + "instance.go", DC + "reference.go"], [("removeReferenceLocked / handleUnreferencedLocked / handleReferencedLocked", DC + "instance.go"), ("CloseIfUnreferenced, Close, AddDisposeCallback", DC + "instance.go")],
     ["GetDirectives", "Instance.GetContext", "HandleInstanceDisposed", "AddDisposeCallback"])
prop("C04", "References see each value added and removed exactly once, in order",
     "A reference is told about every value present when it was added and every value added later, exactly once and in ascending order of value ids, and about its removal at most once and never before the addition; whatever it holds at a quiescent moment equals the set of values attached by the resolvers. Every value it was told about is withdrawn before it is told that the instance is disposed, and nothing follows that. Value-removed callbacks are called exactly once when their value goes away for any reason, and never after they were released.",
     SCHED, "all interleavings of AddValue, RemoveValue, ClearValues, new references, Close, and re-entrant callbacks; all sequential histories up to a depth against a reference model",
     "Tests observe single values through helpers with one reference at a time.",
     [DC + "instance.go", DC + "resolver-handler.go", DC + "value.go"], [("addValueLocked / onValuesRemovedLocked / addReferenceLocked / callCallbacksLocked", DC + "instance.go")],
     ["HandleValueAdded", "HandleValueRemoved", "HandleInstanceDisposed", "AddValueRemovedCallback"])
prop("C05", "Removing a handler or resolver withdraws everything it provided",
     "When a handler is removed, every resolver it provided to any directive is canceled, its values are withdrawn from all references, its sub-resolvers are removed with it, and each resolver-removed and value-removed callback is called exactly once; the resolvers and values of other handlers are untouched. Removing a sub-resolver does the same for its own sub-tree. This holds while resolvers add values, references come and go, directives are disposed, and callbacks remove further handlers or directives.",
     SCHED, "all interleavings of handler removal with values, sub-resolvers, references and disposal; all placements of re-entrant removals",
     "No test removes a handler with more than one directive or from within a callback.",
     [DC + "controller.go", DC + "instance.go", DC + "resolver-handler.go"], [("Controller.removeHandlerLocked", DC + "controller.go"), ("directiveInstance.removeHandlerLocked / removeResolverLocked", DC + "instance.go")],
     ["HandleValueRemoved", "AddResolverRemovedCallback", "AddResolver", "resolver context"])
prop("C06", "Idle callbacks report exactly the idle state of the directive",
     "An idle callback is told the current state when it is added, then each change exactly once, and again when a resolver which was already idle fails, so that its last report always equals the true state: idle if and only if the initial handlers were asked and each attached resolver marked itself idle, returned, or was stopped by the value cap. It is never told idle while a resolver of the initial handlers is still working. The report carries the errors returned by resolvers, and releasing one callback changes nothing for the others.",
     SCHED, "all interleavings of MarkIdle, resolvers returning, handlers coming and going, and callbacks being added and released at any time including from HandleDirective; sequential histories against a model",
     "TestMarkIdle checks one resolver and one callback on one schedule.",
     [DC + "instance.go", DC + "controller.go", DC + "resolver.go"], [("handleIdleStateLocked / checkIdleLocked / AddIdleCallback", DC + "instance.go")],
     ["AddIdleCallback", "GetResolverErrors"])
prop("C07", "The value cap stops and restarts resolvers and is never exceeded when hard",
     "With a hard cap no more than the maximum number of values is ever attached; with a soft cap additional values found are accepted. When the cap is reached working resolvers without values are stopped and the directive is idle; when the number of values drops below the cap, every resolver that was stopped, that failed, or that was attached in the meantime runs again. Callbacks made while reaching or leaving the cap may add or remove values, handlers and directives without leaving a resolver in the wrong state.",
     SCHED, "all interleavings of resolvers racing for the last places and values going away; all placements of re-entrant changes; sequential histories against a model",
     "No test uses a value cap with more than one resolver.",
     [DC + "instance.go", DC + "resolver.go"], [("handleFullLocked / handleNotFullLocked / checkFullLocked", DC + "instance.go")],
     ["AddValue", "Resolve", "AddIdleCallback"])
prop("C08", "Resolve calls never overlap and get a live, cancelable context",
     "Each resolver executes at most one Resolve call at a time, also when it is stopped and restarted repeatedly while an earlier call is slow to return. The context of a call is canceled when the resolver is stopped for any reason, after which that call can neither add nor remove values nor change the idle state, while a restarted call starts with a fresh context. A resolver that returned without error is not started again and its values stay; no call is started once the directive is gone.",
     SCHED, "all interleavings of stopping, restarting, slow returns, Close and handler removal",
     "Restarting resolvers is not tested at all.",
     [DC + "resolver.go", DC + "resolver-handler.go"], [("updateContextLocked / setContextLocked", DC + "resolver.go"), ("executeResolver", DC + "resolver-handler.go")],
     ["Resolve", "ResolverHandler"])
prop("C09", "Callbacks may call back into the engine: no deadlock, race or lost panic",
     "Every callback of the directive engine (values, disposal, idle, removal callbacks, HandleDirective, Resolve) may perform every operation of the engine, and panic, without a deadlock, data race, or the loss of another callback. Concurrent use of the engine from any number of goroutines is free of data races. A panic in a handler or callback is contained.",
     SCHED, "the product of callbacks and operations, under all interleavings with other activity up to the bound, also under the race detector",
     "Tests do not call back into the engine and are too few to meet the race windows.",
     [DC + "instance.go", DC + "controller.go"], [("callCallbacksLocked / callHandlerUnlocked / handlePanic", DC + "instance.go")],
     ["all callbacks of the directive engine"])

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

TECH = "stateless model checking: controlled scheduler in the Go runtime, exhaustive enumeration of schedules and inputs of the real code"
NOTE = "Every execution enumerated is an execution of the compiled repository. Complete for scenarios reported as complete; otherwise complete up to the deviation bound in the evidence. Trusts the patched runtime (mc/), the scenario oracles, and that interleavings beyond the bound and scenario sizes show nothing new."
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
M = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                      evidence_file="evidence/%s.json" % p["id"], technique=p.get("_tech", TECH) or TECH, level="model_checking", level_note=p["_note"] or NOTE) for p in P if p["_claimed"]],
         not_applicable=[dict(property=a, reason=b) for a, b in NA])
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
