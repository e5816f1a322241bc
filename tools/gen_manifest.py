#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: python3 tools/gen_manifest.py"""
import json, os
BASE = "Searched, not proved: random generated inputs, reproducible from VERIF_SEED, each judged by an oracle that does not use /repo's code. "
T = {}
def c(id, technique, note): T[id] = (technique, BASE + note)
c("C01","property-based testing (proptest): reference formatter + format/parse round trip","Trusts the harness's reference formatter.")
c("C02","property-based testing: size arithmetic and canary bytes over buffer sizes around every boundary","Trusts the harness's reference formatter.")
c("C03","property-based testing: differential against an independent reference parser, grammar-derived, mutated and boundary inputs, small inputs enumerated","Trusts the reference parser; offsets are compared too.")
c("C04","property-based testing: metamorphic relations between a byte string, its prefixes and extensions","Relations only, no model needed.")
c("C05","property-based testing: model-based scripts of iterator operations against a queue","Trusts a queue model.")
c("C06","property-based testing: reference renderer and un-rendering round trip","Trusts the reference renderer and its inverse.")
c("C07","property-based testing: encode/decode round trip and announced sizes, all argument types","Integers up to 128 bit are drawn around every power-of-ten and power-of-two boundary.")
c("C08","property-based testing: near-miss strings, decode(x)=v iff encode(v)=x, plus independent language recognisers","Short strings over the critical alphabet are enumerated.")
c("C09","property-based testing: differential against hand-written language recognisers, accessors checked","Short strings over the critical alphabet are enumerated.")
c("C10","property-based testing: predefined messages, expected argument lists, round trip","Empty optional fields are excluded (they denote absence).")
c("C11","property-based testing: arbitrary messages against a table of kinds and field validity","Trusts the table.")
c("C12","property-based testing: pairs of derived IDs, reference encoding, prefix relation equals nesting relation","Very large indices are sampled sparsely since their IDs are up to 70 MB long.")
c("C13","property-based testing: string-prefix oracle and builder scripts","Complete for the small API.")
c("C14","property-based testing: generation histories, distinctness, alphabet, per-bit variation","Statistical: a bit that never varies in thousands of secrets is reported; cryptographic quality is the OS generator's.")
c("C15","property-based testing: generated streams, cuttings and carriers on descriptor 60 against the reference parser","Pieces are delivered one at a time by a second thread; a reader that waits for more than it needs is seen as a deadlock. Interruption of the reads by signals is not generated.")
c("C27","property-based testing: generated directory states and names, path and file tree compared before and after","Runs as root, so unreadable directories are not covered.")
c("C28","property-based testing: model-based histories against the example server run as a process on real sockets","Every step ends at a moment at which all threads of the server sleep; the once-a-second text and SIGINT are timed by the real clock with generous limits.")
c("C29","property-based testing: differential between two builds of the crate (with and without its standard-library feature) on generated operations","The other build answers in a child process; the properties C01-C12 judge the build with the standard library against reference models.")
c("C30","property-based testing: guard bytes and pointer ranges around every codec call","Observes ranges and guard bytes; does not run a memory sanitizer.")
M = "Runs /repo's message handling both over an in-memory dispatch and over the real Tokio server on Unix sockets; trusts the reference server model in harness/src/srv.rs."
c("C16","property-based testing: model-based histories of connections in the handshake (in-memory and real Tokio server)",M)
c("C17","property-based testing: model-based histories of messages on message connections, plus replies around the 1024-byte limit",M)
c("C18","property-based testing: model-based histories mixing malformed bytes and messages",M)
c("C19","property-based testing: metamorphic, one stream cut in different ways (in memory, byte by byte, over a socket)",M)
c("C20","property-based testing: model-based histories of client-make/client-end/redeeming over a small alphabet of IDs",M)
c("C21","property-based testing: model-based histories on stdin and stdout connections",M)
K = "Real Tokio server on real Unix sockets: exact histories on a single-threaded runtime that is run to rest after each group of operations, plus randomised multi-threaded runs (schedules sampled, not enumerated); a stuck server is recognised by all threads of the closed system sleeping. "
c("C22","property-based testing: stateful generation of queueing/reading histories, oracle = concatenation of what was queued; multi-threaded stress",K)
c("C23","property-based testing: stateful generation of broadcast trees from every source, oracle = exactly-once/order over the history; multi-threaded stress",K)
c("C24","property-based testing: stateful generation of connection lifecycles, oracle = counts, open set and ends of streams; multi-threaded stress",K)
c("C25","property-based testing: shutdown injected into generated server states, restart, and startup on occupied paths; multi-threaded stress",K)
c("C26","property-based fuzzing with grammar-aware hostile streams, in memory and over sockets, oracle = no panic/overflow/spin and other connections served",K+"Incomplete messages beyond some 300 KB are not sent (their repeated parsing is quadratic, which the property does not exclude).")
c("C31","property-based testing: generated states and look-alike screen names against a truth table; model-based routing histories over real sockets","Trusts the truth table.")
c("C32","property-based testing: generated client bytes through every log text, un-escaping round trip and character classes","Trusts the harness's un-escaping; offsets and kinds come from the reference parser.")
c("C33","property-based testing: scripts of formatter calls against a counter and the reference formatter","A panic is the documented refusal.")
c("C34","property-based testing: generated connection histories repeated over one server; sockets, dropped connectors and allocated bytes compared before and after",K)
NA = []
checks = [dict(property=k, quick_cmd=f"./run.sh {k}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {k}",
               evidence_file=f"evidence/{k}.json", technique=v[0], level="exploration", level_note=v[1]) for k, v in sorted(T.items())]
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
na = NA + [dict(property=p, reason="check not written yet") for p in props if p not in T and p not in [n["property"] for n in NA]]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="No hooks in /repo: everything is observed through the public API. The fix: commits and what they repaired are listed in KNOWN_FINDINGS.txt."),
  open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1)
