#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "The space named in the evidence file is enumerated completely and every case runs through the real code, compared with an independent reference model. Trusted: that reference model, the harness, rustc and the libraries used by fix-rs. Nothing is said about cases outside the stated bounds."
ENG = "The real acceptor code (all tasks, the receiver thread, real tokio channels and BufReader) runs under a deterministic scheduler on a simulated network; all schedules and environment answers within the deviation bound named in the evidence are explored, statelessly, for every scenario. Trusted: the simulation of sockets and of task scheduling (shim/tokio), the oracles, and that code between two scheduling points of a task is atomic to the others."
T = {
 "C01": ("bounded exhaustive enumeration of texts against the real parser, with panic, hang and allocation monitors", SEQ),
 "C02": ("bounded exhaustive enumeration of texts, real parser against a reference parser (content of accepted messages)", SEQ),
 "C03": ("bounded exhaustive enumeration of texts, real parser against a reference parser (verdict and reason)", SEQ),
 "C04": ("bounded exhaustive enumeration of accepted messages, real encoder checked by a reference parser", SEQ),
 "C05": ("exhaustive exploration of builder operation sequences up to a depth against a reference message model", SEQ),
 "C06": ("exhaustive enumeration of identity component combinations and field placements against a reference", SEQ),
 "C07": ("exhaustive enumeration of small dictionary documents against a reference expansion, plus the whole shipped dictionary", SEQ),
 "C08": ("exhaustive defect injection at every place of a family of dictionary documents", SEQ),
 "C09": ("exhaustive enumeration of configurations and lookups against a reference resolver", SEQ),
 "C10": ("exhaustive enumeration of complete and incomplete configurations against a reference acceptance rule", SEQ),
 "C11": ("exhaustive enumeration of schedules x instants x time zones under a controlled clock against a reference window", SEQ),
 "C12": ("exhaustive enumeration of schedule settings placements against a reference, observed through a controlled clock", SEQ),
 "C13": ("stateless model checking of the real acceptor: all splits of the byte stream into reads, schedules within a deviation bound", ENG),
 "C14": ("stateless model checking of the real acceptor with hostile and failing peers, schedules within a deviation bound", ENG),
 "C15": ("stateless model checking of the real acceptor: outgoing traffic under all schedules and partial writes within a deviation bound", ENG),
 "C16": ("stateless model checking of the real acceptor: bind and accept faults, connection arrival orders", ENG),
 "C17": ("stateless model checking of the real acceptor: close and reset at every point, step-horizon livelock detection", ENG),
 "C18": ("stateless model checking of the real acceptor: several connections and sessions, schedules within a deviation bound", ENG),
 "C19": ("exhaustive enumeration of clock instants at all calendar boundaries under a controlled clock", SEQ),
}
done = [l.strip() for l in open(os.path.join(V, "tools/claimed.txt")) if l.strip()]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {
  "guard": "cfg(fix_rs_verif)",
  "enable": "RUSTFLAGS='--cfg fix_rs_verif' FIX_RS_VERIF_HARNESS=/verif/harness/root.rs (set by check.sh); the harness crate names /repo/src/main.rs as its library",
  "source_commits": ["699e6f9"],
 },
 "checks": [
  {"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"./check.sh --thorough {k}",
   "technique": "model checking: " + T[k][0], "level": "model_checking", "level_note": T[k][1]}
  for k in T if k in done],
 "not_applicable": [{"property": k, "reason": "check under construction"} for k in T if k not in done],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
