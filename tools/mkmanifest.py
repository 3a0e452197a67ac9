"""Writes MANIFEST.json from the list of checks below."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"P01":"calculator sessions against a reference evaluator, failing host calls and texts",
"P02":"random marked grammars against a reference matcher, failing callbacks",
"P03":"random extraction grammars against a reference matcher, failing conversions and texts",
"P04":"sessions of generated scripts against a reference interpreter, failing host calls",
"P05":"sessions of generated scripts against a reference interpreter, failures at host calls and tokens",
"P06":"scripts that end the simulated process, against a reference interpreter",
"P07":"simulated sessions as threads switched at chosen statements under the race detector, compared with each alone",
"P08":"a scanner used again and again, abandoned and failing at any token, against new scanners",
"P09":"sequences of tplconv processes on a simulated operating system with failing file operations and crashes",
"P10":"sequences of tplgen processes on a simulated operating system with failing file operations and crashes",
"P11":"the same compilations, extractions, imports and simulated sessions repeated under chosen orders of map iteration",
"P12":"evaluations nested in callbacks, against a reference matcher",
"P13":"rendering of every failure of simulated sessions, at once and later",
"P14":"imports conflicting at chosen places of a table in chosen iteration orders, against a model of the symbol table",
"P15":"compilations failing at any rule or mark, sharing compilers, hosts, options and scanners, against reference matchers",
"P16":"sessions of interpreters written as script classes against a reference matcher, failing methods",
}
NA={
"P30":"a pure function of the text: no schedule, fault, clock or history takes part (what history does to a scanner is P08)",
"P31":"a pure function of grammar and tokens: no schedule, fault or history takes part (what they do to a match is P02, P12)",
"P32":"a pure function of the grammar: nothing to simulate",
"P33":"a pure function of the expression: nothing to simulate (values are compared along the way in P01)",
"P34":"a comparison of two pure functions, one needing a Go build per sample: nothing to simulate (that the generated text is reproducible is P11)",
"P35":"pure functions of the operand types: nothing to simulate",
"P36":"a pure function of the literal: nothing to simulate (which leaves are there at all is P03)",
}
checks=[dict(property=k,quick_cmd=f"bash run.sh {k} quick",thorough_cmd=f"bash run.sh {k} thorough",
  technique="deterministic simulation with fault injection: "+v,level="exploration",
  level_note="seeded search over histories, schedules and faults of the real code in one simulated process; samples, does not enumerate; trusts the reference model and the overlay instrumentation (see DESIGN.md)")
  for k,v in T.items()]
m=dict(version=1,setup_cmd="bash run.sh setup",
  hooks=dict(guard="go build -overlay",enable="run.sh rewrites the packages of /repo into a scratch overlay (a yield point before every statement, map ranges, sync, os.Exit and file calls routed to the simulator) and builds with 'go build -overlay'; /repo itself holds no hooks",source_commits=[]),
  checks=checks,
  not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes="known_findings.json lists the findings and the repaired defects")
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
