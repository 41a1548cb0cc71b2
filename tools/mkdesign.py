#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the fixed text below, and per property what its check module and the records say."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = json.load(open(os.path.join(V, "known_findings.json")))
rec = json.load(open(os.path.join(V, "tools", "records.json")))

HEAD = """# Deciding selint's semantic properties by runtime monitoring

`tools/mkdesign.py` writes this file from the check modules, known_findings.json, seeded/ and tools/records.json.

## The common machinery

* **System under observation.** Every check rebuilds the real program from /repo's working tree in a scratch directory
  (lib/build.py, own flags, flex and bison run afresh): plain -O1, ASan+UBSan (gcc), MSan (clang), a step and stack counting build,
  and one with a ledger around allocation and stream calls.  There are no hooks in /repo; observation is at the program boundary
  (findings, status, summary, notes), through compiler instrumentation, link-time wrappers and LD_PRELOAD monitors.
* **Workloads.** lib/gen.py makes policy trees (modules, interfaces, templates, file contexts, access vectors, permission macros,
  modules.conf, configuration) as statement objects, aimed at the decisions the checks make: own/foreign/unknown names, names that
  are prefixes of one another, requires before, after and around uses, all blocks nested in each other, disable comments, and so on.
  lib/render.py lays them out (one per line, split, CRLF, m4 comments, very long lines) and records the line of each statement.
  lib/hostile.py and lib/corrupt.py make inputs of critical sizes and damaged ones; lib/grammar.py makes sentences of the language.
* **Oracles.** lib/model.py (with order.py, perms.py, fcmodel.py) computes the findings a policy deserves from the statement objects:
  it never parses text and shares no code with selint.  lib/grammar.py recognises the policy language (Earley).  The real m4 expands
  templates for C15.  Sanitizers, ledgers, step counters and file system snapshots judge the rest.  Many checks are metamorphic in
  addition (two runs of the real program that must agree), so that a mistake shared by model and program can still show.
* **Evidence.** Each run writes evidence/<id>.json: runs by kind, distinct non-trivial observations under the stated rule, how
  often each event was seen (findings per check, statuses, blocks executed, allocations ...), samples.  A run that observes too little is
  not a pass (exit 2).
* **Seeds and tiers.** Cases derive from (property, kind, VERIF_SEED, index) only.  quick: 10 to 60 s on 8 cores; thorough: the same
  kinds about twelve times as often, larger ones where noted.  A violation leaves its inputs in replays/ with the command that repeats it.
* **Reach over the tests.** The repository's tests judge fixed small inputs.  What they cannot do is quantify: the properties are about
  all combinations of statement kind, position, nesting, list length, name relation and option.  The checks observe tens of
  thousands of such combinations per run and judge each completely (every finding due and every finding made).
* **Honest limits.** All levels are "exploration": nothing is proved.  What the generator cannot build is not seen.  Names that start
  with `_`, `$*` in declarations, template calls with list arguments and other documented quirks below are kept out of the behavioural
  workloads (they are in those of C01 to C03 and C24).
"""

WHY = {
 "C01": "Sanitizers see each bad access on executed paths; reach comes from inputs at the sizes where buffers end (64, 100, 128, 256, 1000, 8192 ...), crossed names and damage.",
 "C02": "Counting executed basic blocks makes cost deterministic, so growth is compared without timing noise, and cycles show as blown budgets.",
 "C03": "The recogniser is an independent statement of the language, so both silent acceptance and false rejection are visible, and the position of the first error is checked too.",
 "C04": "Line numbers are known from rendering, never from parsing.",
 "C05": "With and without comments is metamorphic (needs no model); the model says in addition what is due.",
 "C06": "Precedence is a function of five lists, two modes and two level sources; the cases sample their product densely.",
 "C07": "The expected status is known by construction of the case.",
 "C08": "Conservation: findings seen = findings counted, in every presentation.",
 "C09": "Each file carries a probe that makes exactly one finding, so the set of analysed files is read off the output.",
 "C10": "Byte equality under perturbed memory, address layout, environment and order; file system snapshots and an interposed log for writes.",
 "C11": "Metamorphic (whole run minus moved files) and model.",
 "C12": "Exactness needs both directions: every W-001 due and none else, with its name and module.",
 "C13": "As C12, for the five interface rules.",
 "C14": "As C12, for calls.",
 "C15": "m4 itself is the oracle; probe statements make the otherwise invisible declaration tables observable.",
 "C16": "Every line of a random fc file is classified by an independent model of the entry syntax.",
 "C17": "As C12, for access rules over random class, permission and macro tables.",
 "C18": "An exhaustive search over all macros decides soundness and optimality of each suggestion.",
 "C19": "A reference implementation of the documented sections and of patience search decides the exact set; cited lines are checked too.",
 "C20": "Reference sort over all six-flavour orders and both switches.",
 "C21": "The effect of an item is observed on policies that use it, not in parsed structures.",
 "C22": "Metamorphic: union of the parts; no model needed.",
 "C23": "As C12, for the remaining simple rules.",
 "C24": "A ledger of every allocation and stream is exact on the executed paths, including each error path reached by damage.",
 "C25": "Interposing path lookups lets the mode run against any set of installed headers and class trees.",
}

out = [HEAD, "## The properties\n"]
for p in props:
    i = p["id"]
    m = importlib.import_module(i.lower())
    ev = rec["cost"].get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("Specified: " + p["statement"] + "\n")
    out.append("Monitored: " + m.RULE + "\n")
    out.append("Bounds and assumptions: " + ("; ".join(m.ASSUMPTIONS) or "none beyond the generator's reach") + ".  Cases, quick: " +
               ", ".join("%s %d" % k for k in m.plan("quick")) + "; thorough: " + ", ".join("%s %d" % k for k in m.plan("thorough")) + "." +
               (" Cost (quick): %s." % ev if ev else "") + "\n")
    out.append("Why this can decide it: " + WHY[i] + "\n")
out.append("## Not applicable\n\nNone: every property has observable consequences that the monitors can judge.\n")
out.append("## Genuine defects found\n\nRepaired (one `fix:` commit each):\n")
out += ["* " + f.replace("fixed: property=", "") for f in known["fixed"]]
out.append("\nRecorded, not repaired (known_findings.json):\n")
out += ["* %s `%s`: %s" % (f["property"], f["key"], f["what"]) for f in known["findings"]]
out.append("\nQuirks seen and left alone (outside what the properties claim):\n")
out += ["* " + q for q in rec["quirks"]]
out.append("\n## False alarms corrected\n")
out += ["* " + q for q in rec["false_alarms"]]
out.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (b, d["property"], d["needs"].replace("|", "\\|"), rec["caught"].get(b, "not tried")))
out.append("\n" + rec["notes"])
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
