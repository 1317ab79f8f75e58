"""Writes MANIFEST.json. Edit here, re-run."""
import json, os
M = "runtime monitoring: "
T = {
 "C01": M+"event log of a scripted bandit run, offline conservation checker",
 "C02": M+"recorded history compared with the logged states of spy arms",
 "C03": M+"soundness oracle over runs with valid scripted interval trajectories",
 "C04": M+"online reference monitor of the stopping rule over scripted trajectories",
 "C05": M+"trace checker of budget ends over scripted trajectories",
 "C06": M+"trace checker of LUCB selections over scripted and tied states",
 "C07": M+"reference elimination automaton run in lock-step on event logs",
 "C08": M+"tagged rows logged at arm and estimator boundaries, order and exactly-once checker",
 "C09": M+"log of the error levels passed to arms, plus rejected-configuration probes",
 "C10": M+"differential runs: reset object against fresh object, repeated seeded runs",
 "C11": M+"tagged rows followed through spy estimators, partition and fairness checkers",
 "C12": M+"spy estimators with scripted scores, independent recomputation after every update",
 "C13": M+"independent recomputation of every reported interval, metamorphic delta pairs",
 "C14": M+"hostile-data stress with well-formedness assertions after every update",
 "C15": M+"implied error levels summed over logged pulls",
 "C16": M+"log of all estimator calls in the bootstrap loop against an order-statistic oracle",
 "C17": M+"tagged rows, partition checker and frequency tests over many splits",
 "C18": M+"random operation sequences against a list-of-units model",
 "C19": M+"outputs of selectors against a column-list model, mutation watch",
 "C20": M+"fitted tables against empirical frequencies, metamorphic refits",
 "C21": M+"spy mechanisms on random DAGs, order and layout checker of the call log",
 "C22": M+"spy and failing mechanisms (fault injection), do-contrast oracle, state restored",
 "C23": M+"spied random draws against the stated equations; distribution tests",
 "C24": M+"generated data against the stated model, spied noise models; distribution tests",
 "C25": M+"closed forms against exact interventional moments from probing the returned model",
 "C26": M+"scores recomputed from the public fitted models; adjustment formula oracle",
 "C27": M+"scores recomputed from fitted tables; front-door formula by brute force",
 "C28": M+"scores against independently solved ridge regressions",
 "C29": M+"readiness and per-unit metamorphic checks around every minimum, mutation watch",
 "C30": M+"widths recomputed in extended form; monotonicity and limit checks on hostile data",
 "C31": M+"predictions after set_to_truth against the generator's own functions",
 "C32": M+"data reaching spy estimators, traced back to model variables by probing",
 "C33": M+"differential runs under perturbed global random state",
 "C36": M+"logged and re-invoked mechanisms of the models; conditional-independence and distribution tests",
 "C37": M+"differential runs: interleaved objects on shared data against each alone; mutation watch",
 "C38": M+"reference problems with known effects and variances; convergence and coverage statistics with error bounds",
 "C39": M+"the notebook's cells executed with smaller sizes, every bandit run logged and audited",
 "C40": M+"recording arms and generators under the single-arm runner; scores recomputed",
 "C41": M+"operations under watch (generator states, process settings, audit hooks), repeated in other processes",
 "C42": M+"values of hundreds of random functions whitened with the exact covariance; span residuals",
 "C34": M+"artists on the axes compared with the recorded history",
}
NOTE = {
 "C04": "Reference monitor is derived from the statement, with rounding-ambiguous cases skipped.",
 "C08": "One known finding: random folds are drawn from global state.",
 "C25": "Moments are recovered from the returned model by evaluating its mechanisms and by sampling; sampling part is statistical (false alarm < 1e-7).",
}
GEN = ("Holds on every execution explored (seeded random, boundary and hostile cases, counted in the evidence); "
       "not a proof for all inputs. Trusts numpy/scipy/scikit-learn and the oracle in /verif/harness. ")
checks = [{"property": p, "quick_cmd": f"./check {p} --tier quick",
           "thorough_cmd": f"./check {p} --tier thorough",
           "evidence_file": f"evidence/{p}.json", "technique": t,
           "level": "exploration", "level_note": GEN + NOTE.get(p, "")}
          for p, t in sorted(T.items())]
m = {"version": 1, "setup_cmd": "/bin/bash ./check --selfcheck", "checks": checks,
 "not_applicable": [{"property": "C35", "reason":
  "A probability over all sub-Gaussian distributions and an infinite horizon is not an observable of any finite set of executions; "
  "the finite-sample interval is so conservative that no miscoverage is ever observed, so a Monte-Carlo oracle would not separate right from wrong constants. "
  "The formulas behind the guarantee are decided by C13, C15 and C30, coverage on normal scores is watched by C38, its consequence for the bandits by C03 and C09."}],
 "notes": "No hooks in /repo: the monitors observe through injected arms, estimators, generators and mechanisms and through spies installed from the harness process. Replay: ./check ID --replay out/FILE.json."}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
  json.dump(m, f, indent=1); f.write("\n")
