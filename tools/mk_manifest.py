"""Writes MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive bounded enumeration of placement/detection histories on the real code, compared with a reference model after every step"
T = {
    "C01": SEQ, "C02": SEQ, "C03": SEQ, "C04": SEQ, "C05": SEQ, "C06": SEQ, "C07": SEQ,
    "C08": "exhaustive enumeration of sides, sites, bonds and operation histories on the real lattice, compared with a reference model",
    "C09": "exhaustive enumeration of all outcomes of the random draws (exact outcome counting) and of bounded operation histories",
    "C10": "exhaustive enumeration of site lists, forms and operation histories within bounds on the real code, against a reference model",
    "C11": "explicit-state exploration of reachable states; exact transition probabilities by exhausting all draws of a trial, against the rule",
    "C12": "explicit-state exploration of reachable states; exact transition probabilities by exhausting all draws of a trial, against the rule",
    "C13": "explicit-state exploration of interacting runs: all draw outcomes of trials within bounds, adversarial schedules of draws",
    "C14": "exhaustive enumeration of bounded operation histories before a reset, differential against a new object",
    "C15": "exhaustive enumeration of bounded operation histories and pollutions, compared across processes and hash seeds",
    "C16": "all interleavings of call sequences of two objects; thread schedules at line granularity with bounded preemptions under a controlled scheduler",
    "C17": "exhaustive enumeration of bounded operation histories, differential against step-by-step execution",
    "C18": "exhaustive enumeration of histories x queries, differential against executions without the query",
    "C19": "exhaustive bounded enumeration of placement orders on the real search, against a reference model",
    "C20": "exhaustive enumeration of driver configurations and scripted realizations on the real drivers, against exact averages",
    "C21": "all schedules of workers under a controlled scheduler, every failing subset and run (fault injection), on the real launchers",
    "C22": "exhaustive enumeration of bounded prefixes of random draws on the real recorder, replayed and compared with a reference model",
    "C23": "exhaustive enumeration of sign patterns, magnitudes and tables within bounds on the real helpers",
    "C24": "all sequences of saves up to a depth, all crash points, all schedules of concurrent processes/threads with bounded preemptions, controlled clock",
    "C25": "exhaustive enumeration of bounded operation histories on the real code; everything handed out is compared with a copy after every operation",
    "C26": "explicit-state exploration of small lattices and bounded histories on the real code; every view is judged in every state",
    "C27": "exhaustive fault injection: an operation is abandoned at every line, from every state of bounded runs; differential against a new object",
    "C28": "exhaustive enumeration of operation sequences of the real registry up to a depth, against a reference model after every step",
    "C29": "exhaustive enumeration of pairs of values and operation sequences within bounds on the real code, against a reference model",
    "C30": "exhaustive enumeration of clock readings, drivers, modes and worker numbers within bounds: the real code writes real files, the clock is controlled",
    "C31": "exhaustive enumeration of all outcomes of the random draws of a trial in every state of bounded small scopes of the real code; exact rational probabilities",
    "C32": "exhaustive bounded enumeration of histories (no self-check may fail) and of single corruptions (one has to fail) on the real code",
}
COMMON = ("Holds for every execution enumerated within the bounds stated in the evidence file (family by family); the real code of /repo is executed, "
          "no model stands in for it. Trusted: the reference model mc/ref.py, the Python interpreter and numpy, the interception of random draws in mc/env.py. ")
NOTE = {
    "C09": "Uniformity is exact: every outcome of every draw is enumerated and counted, assuming the generator's integer draws are uniform. ",
    "C11": "Odds are exact rationals over all draws of a trial, assuming uniform integer draws. ",
    "C12": "Odds are exact rationals over all draws of a trial, assuming uniform integer draws. ",
    "C16": "Preemption at every source line of the repository, not inside a line or inside numpy. ",
    "C21": "Workers are inline stand-ins for processes and threads in the schedule families, real processes in others. ",
    "C27": "An operation is abandoned between two lines of the repository, not inside a line or a library call. ",
    "C24": "Preemptions and crashes at every line of run_py, not inside a single open() or savetxt(); the clock is controlled. ",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
             notes="Every check imports /repo's working tree directly (nothing is built or cached); see DESIGN.md. ./check replay FILE replays a violation.")
    for p in props:
        i = p["id"]
        m["checks"].append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique="model checking: " + T[i], level="model_checking",
                                level_note=COMMON + NOTE.get(i, "")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
