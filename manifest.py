#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NET="real server processes over TCP"
T={
"C01":"stateful property-based testing against a reference model, "+NET,
"C02":"property-based testing with timed histories against an interval oracle, library and "+NET,
"C03":"generated concurrent histories decided by a linearizability oracle, library and "+NET,
"C04":"metamorphic property-based testing (segmentation, pipelining, read pace) against a reference model, "+NET,
"C05":"structured fuzzing of the frame decoder against an independent RESP decoder, every prefix",
"C06":"round-trip and differential property-based testing of the frame encoder with generated short writes",
"C07":"property-based testing with hostile text against an independent RESP decoder, "+NET,
"C08":"fuzzing with generated attacks and bystander invariants, "+NET,
"C09":"property-based testing of generated endings with resource invariants, "+NET,
"C10":"generated concurrent histories against an ordering oracle, library and "+NET,
"C11":"stateful property-based testing against a model of the open connections, "+NET,
"C12":"stateful property-based testing against a model of the names, "+NET,
"C13":"metamorphic property-based testing (letter case, unsupported names) against a reference model, "+NET,
"C14":"round-trip property-based testing over sizes and read paces, "+NET,
"C15":"differential property-based testing against an independent CRC16",
"C16":"property-based testing of the partition invariant, every segment count",
"C17":"property-based testing of generated configurations against an expected-outcome oracle, "+NET,
"C18":"stateful property-based testing against a model of the served connections, "+NET,
"C19":"property-based testing with invariants over interleaved HELLO histories, "+NET,
"C20":"structured fuzzing with malformed commands against a reference model, "+NET,
"C21":"property-based fault injection (descriptor exhaustion) with invariants, "+NET,
"C22":"property-based testing with streams cut at generated and at all byte positions, "+NET,
"C23":"stateful property-based testing of the filters against a model of the open connections, "+NET,
"C24":"property-based testing of generated workloads with a memory invariant over the history, "+NET,
"C25":"fuzzing with generated attacks and a CPU invariant once the clients rest, "+NET,
"C26":"generated concurrent histories of listing, opening, ending and renaming against an interval oracle, "+NET,
"C27":"injection of output faults and suspensions under generated attacks, with a reference model of the well-behaved clients, "+NET,
"C28":"property-based testing over generated sets of processors and changes of them, against an echo oracle, "+NET,
"C29":"generated restart histories (clean ends and crashes at any moment), with invariants over the next run, "+NET,
}
fault={"C21","C22","C09"}
note={
"C02":"Trusts CLOCK_MONOTONIC; near the end of a time to live replies are only judged outside of a 30 ms slack after it (never before it).",
"C03":"Schedules are those the OS produces under generated load and delays, not enumerated.",
"C08":"A reply is missing only when the whole server has been idle without giving it, so slowness is no alarm.",
"C24":"A leak is growth by a third or more of what passed through, sustained over hundreds of megabytes; slower leaks are below the resolution.",
"C25":"Some window of 200 ms with less than a quarter of one processor used counts as rest.",
"C26":"Schedules are those the OS produces under generated load, not enumerated.",
"C16":"Exhaustive over the segment counts 1..=16384; the histories through parts are sampled.",
}
checks=[]
for i,t in T.items():
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"env VERIF_TIER=thorough ./check.sh {i}",
      "technique":"property-based testing and fuzzing: "+t,
      "level":"fault_enumeration" if i in fault and False else "exploration",
      "level_note":"No violation in the generated cases (counts, tags and samples in the evidence file); failures are shrunk and saved as a replay file. "+note.get(i,"Trusts the harness's own RESP codec and model, which share no code with the server.")})
m={"version":1,"setup_cmd":"./build.sh srv net lib",
"hooks":{"guard":"--cfg roster_verif","enable":"RUSTFLAGS=\"--cfg roster_verif\" cargo build of /verif/libcheck (build.sh lib); the server under network test is built without it",
"source_commits":["6ee414a35373da70949f5ec3911c425f91f16db7","10f05bba243a65d153e9ab61009a882298371ff2"]},
"checks":checks,"not_applicable":[],
"notes":"./check.sh Cxx --replay FILE runs one saved case again. See DESIGN.md."}
open("MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
