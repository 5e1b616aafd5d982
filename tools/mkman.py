import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech={
"C01":"runtime monitoring: crash/panic/hang monitor over exhaustive, guided and hostile workloads, checked build, small-stack phase",
"C02":"runtime monitoring: conservation monitor over the token stream",
"C03":"runtime monitoring: token stream against an executable reference lexer",
"C04":"runtime monitoring: recount of positions for every token",
"C05":"runtime monitoring: online push-down grammar monitor over the event stream",
"C06":"runtime monitoring: exactly-once and order monitor of events over source pieces",
"C07":"runtime monitoring: representation monitor over event content",
"C08":"runtime monitoring: differential monitor of the APIs and reference stack machine over mutated event streams",
"C09":"runtime monitoring: block structure against an executable reference parser",
"C10":"runtime monitoring: inline structure against an executable reference parser",
"C11":"runtime monitoring: list structure against an executable reference parser and level invariants",
"C12":"runtime monitoring: containers against an executable reference parser",
"C13":"runtime monitoring: front matter against a reference scan",
"C14":"runtime monitoring: round-trip monitor (parse, print, parse)",
"C15":"runtime monitoring: round-trip monitor over generated trees (print, parse)",
"C16":"runtime monitoring: metamorphic monitor (escape any character, in every context)",
"C17":"runtime monitoring: metamorphic monitor (LF and CRLF forms)",
"C18":"runtime monitoring: round-trip monitor through JSON and independent encoder",
"C19":"runtime monitoring: fresh-process reference histories, thread stress, AddressSanitizer, ThreadSanitizer, Miri",
"C20":"runtime monitoring: executed-edge counter (compiler instrumentation) on growing families",
"C21":"runtime monitoring: counting allocator on growing families, leak accounting",
"C22":"runtime monitoring: independent writer as oracle for parse and print",
"C23":"runtime monitoring: conservation and order monitor of words from source to tree",
"C24":"runtime monitoring: command output against reference token counts",
"C25":"runtime monitoring: output monitor of the command over settings",
"C26":"runtime monitoring: metamorphic monitor (one block in many places)",
"C27":"runtime monitoring: printing monitor over arbitrary trees (whole and parts, word conservation, stability)",
"C28":"runtime monitoring: content against the token texts it stands for",
"C29":"runtime monitoring: equality, clone and constructors against an independent encoding",
"C30":"runtime monitoring: round-trip monitor over histories of load, edit and save",
"C31":"runtime monitoring: differential monitor over builds (profiles, features) and interpreted foreign targets",
"C33":"runtime monitoring: event streams written from trees or edited, against the tree they denote",
"C34":"runtime monitoring: metamorphic monitor (other plain characters of any width)",
"C35":"runtime monitoring: metamorphic monitor (other words of any length)",
"C32":"runtime monitoring: printing under format options and into failing writers (fault injection)",
}
note={
"default":"Held on the executions counted in the evidence file, not proved: every short sequence of format symbols alone and inside each construct, size and depth families, and coverage-guided random texts or trees. Trusts the oracle (and, where it compares with one, the reference lexer and parser in harness/src/model_*.rs).",
"C01":"Held on the executions counted in the evidence file. Overflow checks and debug assertions are on; hangs are decided by executed code edges, not time. Trusts the build instrumentation. One listed known finding (stack exhaustion at extreme nesting).",
"C19":"Held on the histories, placements, threads and interleavings observed; sanitizers and the interpreter report only on code the workload reaches. References come from one fresh process per text.",
"C20":"Growth measured between sizes 400, 3200 and 25600 (linear families) and over doublings up to 160 (hostile families); deterministic edge counts, no clock. Trusts the counter build of crate, core and alloc.",
"C21":"Peak and leaked bytes measured by a counting allocator on the listed families and random texts; constants have a margin of about four over the measured maximum.",
"C24":"Held on the files counted in the evidence file; expected counts come from the reference lexer.",
"C31":"Held on the texts counted in the evidence file, for the four builds named there; the 32-bit and big-endian targets run a small part of the texts in Miri.",
"C25":"Held on the settings in the evidence file; the tool's own random numbers cannot be seeded, so marker and literal-length statistics use margins far beyond chance.",
}
m={"version":1,"setup_cmd":"./check.py --setup","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: every monitor observes the public API, the compiler's instrumentation of the unmodified crate, or the command line tool. Known findings: known_findings.txt."}
for p in props:
    i=p["id"]
    m["checks"].append({"property":i,"quick_cmd":f"./check.py {i}","thorough_cmd":f"./check.py {i} --thorough","evidence_file":f"evidence/{i}.json","technique":tech[i],"level":"exploration","level_note":note.get(i,note["default"])})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
