#!/usr/bin/env python3
"""Writes /verif/known_findings.json (run by hand, never by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIND = [
 ("C10", "interface-template-call-order",
  "aa.if (interface calling bb_template(zz)) and bb.if (the template): zz_t is known as declared only if bb.if is read before aa.if"),
 ("C15", "list-argument",
  "a_template({ x y }, foo) with 'type $2_t;' in the template declares y_t instead of foo_t: a list in braces is counted as several arguments"),
]
FIXED = [
 ("C01", "d811634", "heap overflow: a template declaration that repeats a parameter ('type $1_$1_t;') called with a long argument"),
 ("C01", "5124c32", "NULL dereference: a template that calls another template without arguments, or with '$*', called from a te file"),
 ("C01", "bd5efc6", "read past the end of a string: 'mod =' (empty value) in modules.conf"),
 ("C19", "5945ded", "C-001 crashed or misplaced type_transition statements (source not used for the section)"),
 ("C01", "0231c18", "out of bounds reads: fc lines ending after the path, the object or inside gen_context("),
 ("C16", "f5ccb13", "false E-003 for well formed raw contexts in fc files (last field, <<none>>)"),
 ("C01", "7115866", "stack exhaustion: define(`a_perms',`{ a_perms }')"),
 ("C24", "cc51a3a", "leak of the second definition of the same permission macro"),
 ("C20", "685bc43", "C-006 without a configuration did not use the documented default order"),
 ("C20", "ee252b9", "an ifdef inside a require block ended the run with an internal error (70)"),
 ("C12", "466e4e9", "declarations inside an ifdef of a require block were ignored: false W-001/W-002"),
 ("C03", "e9bc853", "syntax error message printed bytes >= 0x80 as ffffffxx"),
 ("C24", "28c1b1a", "leak of a selint-disable comment next to a syntax error"),
 ("C05", "3b11ac3", "selint-disable silenced a following statement, or only the first node of its own"),
 ("C24", "48ec6b8", "leaks of support file paths found twice and of repeated custom_fc_macros"),
 ("C07", "c304332", "a directory named x.te, or modules.conf, was opened as a file: internal error (70)"),
 ("C02", "db5a8d9", "stack exhaustion by files of some ten thousand statements"),
 ("C15", "c779d8c", "garbage after a missing last argument in a declared name"),
 ("C19", "a4977ea", "C-001 reported statements that are in order with the whole ordered sequence"),
 ("C03", "a3d0c54", "valid contexts such as a:b:c:s0 lexed as IPv6 addresses: false syntax error"),
 ("C17", "4ba3300", "E-007 reported interface parameters ('$2') as unknown permissions"),
 ("C09", "1e44c22", "files below directories named '..foo' were checked although hidden"),
 ("C05", "f38ecfb", "selint-disable at a type declaration did not apply to its aliases"),
 ("C01", "391a0c3", "implicit declaration of sprintf"),
 ("C05", "ff3a926", "selint-disable:W-0011 disabled W-001 (ids matched as substrings)"),
 ("C01", "bba7b1e", "read past the end of an empty check id ('-e \"\"', disable = {\"\"})"),
 ("C21", "0650f3f", "a directory given with -c ended the run with status 2 from inside the configuration library"),
 ("C24", "fba83b9", "leak of the first two arguments of gen_user() next to a syntax error"),
 ("C24", "7cdeebe", "leak of the range of 'gen_context(u:r:t:s0, s0)'"),
 ("C24", "050a975", "leak of the name of an interface definition inside a te file (after the syntax error)"),
 ("C01", "b56c09e", "ordering an empty te file (or one of access vectors) read before the start of the node array"),
 ("C03", "3a53fb0", "a te, if or spt file containing 'common x { a }' was accepted"),
 ("C03", "950bd7f", "a comment, selint-disable comment or dnl comment at the very end of a file without final newline was a syntax error"),
 ("C01", "5bec26a", "an empty path argument or an empty --context path crashed (fts_read of a null pointer)"),
 ("C02", "839ca54", "permission macros that contain each other took exponential time"),
 ("C15", "b384d49", "templates calling each other in a cycle lost the other declarations of the looping template"),
 ("C17", "c71322b", "false C-005 for an ioctl range whose upper bound is a parameter ('{ $1 - $2 }')"),
]
json.dump({"findings": [{"property": p, "key": k, "what": w} for p, k, w in FIND],
           "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]},
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
