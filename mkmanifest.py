import json
from checks import CHECKS
T={p["id"]:p["title"] for p in map(json.loads,open("/verif/properties.jsonl"))}
tech={"C17":"exhaustive single-fault enumeration over all bounded call histories of the real code (explicit-state, stateless)",
"C18":"controlled scheduler on the real code: all interleavings up to a preemption bound, with race detection on every schedule",
"C20":"exhaustive enumeration of bounded matrix families on the real solver against a reference field",
"C21":"exhaustive enumeration of field elements, lengths and identifiers on the real code against a reference field",
"C13":"exhaustive enumeration of bounded packets and packetizer histories on the real code against a reference codec",
"C24":"stateless model checking of the real code and replay program over all bounded packet sequences",
"C26":"stateless model checking of the real loss models and the real proxy process over all bounded loss files",
"C27":"stateless model checking of the real forwarder process over all bounded datagram sequences"}
d="stateless model checking of the real code: every bounded history is executed and judged by a reference specification"
note="Bounded and exhaustive within the bounds. "
m={"version":1,"setup_cmd":"python3 run.py --setup","checks":[{"property":p,"quick_cmd":"python3 run.py %s"%p,"thorough_cmd":"python3 run.py %s --tier thorough"%p,
 "technique":tech.get(p,d),"level":"model_checking","level_note":note+"Bounds (quick/thorough): "+CHECKS[p]["bounds"]} for p in sorted(CHECKS)],"not_applicable":[]}
assert set(T)==set(CHECKS),set(T)^set(CHECKS)
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
