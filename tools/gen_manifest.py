#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/engines.json and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
eng = json.load(open(V + "/harness/engines.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
decided = {p for e in eng.values() for p in e["properties"]}

SEQ = "exhaustive bounded enumeration of inputs and call sequences on the real code against a reference model"
T = {
 "C06": "exhaustive enumeration of (type, flags, error code, stream id) on the real decoder against the protocol's rule",
 "C09": "explicit exploration of all operation sequences on the real segment list against a byte-queue model",
 "C11": "exhaustive enumeration of payloads and connection faults, and of all interleavings of concurrent requests under a controlled scheduler, on the real requester",
 "C12": "exhaustive enumeration of fragment sequences on the real reassembly against a reference model",
 "C13": "explicit exploration of all provider states (full cycles) and all in-use sets on the real provider",
 "C14": "stateless model checking of the real provider: all thread interleavings up to a preemption bound under a controlled scheduler",
 "C15": "stateless model checking of the real counter: all thread interleavings under a controlled scheduler, with a linearizability check",
 "C20": "exhaustive enumeration of all error kinds and causes on the real code against the protocol's table",
 "C21": "exhaustive enumeration of event and timing sequences of the real supervisor under virtual time",
 "C25": "exhaustive enumeration of payloads and connection answers (incl. pending polls), and of all interleavings of concurrent pushes under a controlled scheduler, on the real requester",
 "C26": "stateless model checking of the real codec on OS threads under a controlled scheduler: all interleavings up to a preemption bound, each thread checked against what it gets alone",
 "C27": "exhaustive enumeration of pairs of frames and of payloads on the real comparison and copy operations against a reference model",
}
BASE = ("Holds on every execution of the trees of choices named in the evidence (alphabets, sizes and depths are bounded; "
        "inside them nothing is sampled), each run on the real code, built with and without debug assertions and overflow "
        "checks. Trusts the reference model in /verif/harness and the compiler. ")
N = {
 "C04": "Termination is judged by a 30 s watchdog; crashes and hangs are confirmed by replaying the execution in a new process. ",
 "C09": "Reaches the crate-private list through hooks (cfg binate_verif) that only forward. ",
 "C11": "Reaches the crate-private requester through hooks (cfg binate_verif) that only forward; the connection is a mock. Interleavings are sequentially consistent. ",
 "C12": "Reaches crate-private reassembly through hooks (cfg binate_verif) that only forward. ",
 "C14": "Interleavings are sequentially consistent, switching at every atomic and lock operation of the crate and at every lock the map takes. ",
 "C15": "Interleavings are sequentially consistent, switching at every atomic and lock operation of the crate. ",
 "C20": "Some errors are made through hooks (cfg binate_verif), as the crate has no public constructor for them. ",
 "C21": "Virtual time of a single-threaded tokio runtime; the connection is a mock. ",
 "C26": "Interleavings are sequentially consistent, switching at every atomic, lock and once operation of the crate and at every look at the input buffer; an unsynchronised access between two such points is not split. First uses are run in forked processes. ",
 "C25": "The connection is a mock; the requester is reached through hooks (cfg binate_verif). ",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in decided:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": T.get(i, SEQ), "level": "model_checking",
                       "level_note": BASE + N.get(i, "")})
    else:
        na.append({"property": i, "reason": "its check is still being built"})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "verification hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
json.dump({"version": 1, "setup_cmd": "./check --build",
           "hooks": {"guard": "binate_verif", "enable": "RUSTFLAGS='--cfg binate_verif'", "source_commits": hook},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. known_findings.txt lists the defects that were found and repaired."},
          open(V + "/MANIFEST.json", "w"), indent=1)
