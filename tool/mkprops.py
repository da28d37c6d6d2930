"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/" + f for f in files], mechanism=[dict(name=n, where="src/" + w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


prop("C01", "Coupling time never overshoots and advances by exactly the computed steps",
     "In every coupling scheme the time step offered to a solver is exactly the time left in its window, cut at max-time and zero after the end, and a larger step is rejected. "
     "Accepted steps add up without loss: a completed window starts the next one exactly at its end, a repeated window restarts at its start, and the coupling ends exactly when max-time or the maximum number of windows is reached. "
     "With the first participant prescribing the window size, the second participant's window has exactly the size the first one computed.",
     ["inputs", "histories", "configurations"], "all sequences of time steps, window sizes, max-time and max-time-windows values, serial, parallel and multi coupling, explicit and implicit",
     "the tests run a few fixed step sequences; truncated windows, repeated windows and prescribed sizes combine in unbounded ways",
     ["cplscheme/BaseCouplingScheme.cpp", "cplscheme/SerialCouplingScheme.cpp", "cplscheme/ParallelCouplingScheme.cpp", "cplscheme/MultiCouplingScheme.cpp", "cplscheme/impl/TimeHandler.cpp"],
     [("time bookkeeping", "cplscheme/impl/TimeHandler.cpp: TimeHandler"), ("step validation", "cplscheme/BaseCouplingScheme.cpp: addComputedTime"), ("window size exchange", "cplscheme/SerialCouplingScheme.cpp: receiveAndSetTimeWindowSize")],
     ["precice::Participant::getMaxTimeStepSize", "precice::Participant::advance", "precice::Participant::isCouplingOngoing"])
prop("C02", "Implicit windows repeat until convergence; checkpoints and counters follow",
     "A window of an explicit scheme completes at its end; a window of an implicit scheme completes at its end exactly when the deciding participant reports convergence, which it does no later than at the maximum number of iterations and not before the minimum number unless that maximum is reached. "
     "Reading a checkpoint is required exactly when a window is repeated, writing one exactly at the start and whenever an implicit window was completed and the coupling goes on, and continuing without having fulfilled a required action is rejected. "
     "Window and iteration counters follow: completed windows are counted once, iterations restart at one in every window.",
     ["histories", "configurations", "inputs"], "all histories of convergence decisions, iteration limits and time steps, for both roles in serial, parallel and multi coupling",
     "the tests fix a handful of iteration counts and convergence outcomes",
     ["cplscheme/BaseCouplingScheme.cpp", "cplscheme/SerialCouplingScheme.cpp", "cplscheme/ParallelCouplingScheme.cpp", "cplscheme/MultiCouplingScheme.cpp"],
     [("exchange phases", "cplscheme/BaseCouplingScheme.cpp: firstExchange, secondExchange"), ("implicit step", "cplscheme/BaseCouplingScheme.cpp: doImplicitStep"), ("actions", "cplscheme/BaseCouplingScheme.cpp: requireAction, checkCompletenessRequiredActions")],
     ["precice::Participant::isTimeWindowComplete", "precice::Participant::requiresReadingCheckpoint", "precice::Participant::requiresWritingCheckpoint"])
exec(open(os.path.join(V, "tool", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tool", "props_more.py")) else None

CLAIM = json.load(open(os.path.join(V, "spec", "index.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
NA = globals().get("NA", {})
checks = []
for p in P:
    if p["id"] in CLAIM:
        c = CLAIM[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3-vt -m dv.check %s quick" % p["id"], thorough_cmd="python3-vt -m dv.check %s thorough" % p["id"],
                           technique="contract-based deductive verification of the real C++ sources (clang AST extracted on every run, contracts in spec/, verification conditions discharged by Z3/cvc5)",
                           level="proof", level_note=c.get("note", "")))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no contract check registered yet")) for p in P if p["id"] not in CLAIM]
json.dump(dict(version=1, setup_cmd="python3-vt -m dv.setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
