#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

OUT = ["standard output of the selint command", "exit status of the selint command"]

p("C01", "No memory error, undefined behaviour or crash on any input",
  "Whatever bytes the policy files, support files, configuration file and command line contain, selint never reads or writes outside an object, never uses freed or uninitialised memory, never executes undefined behaviour and never dies from a signal or an abort. It always ends by itself with one of its documented exit statuses (0, 64, 65, 70, 78).",
  ["inputs", "configurations"],
  "all contents of .te/.if/.fc files, access_vectors, modules.conf, obj_perm_sets.spt and the config file (valid, near-valid and arbitrary bytes, long tokens, long lists, deep nesting), and all command lines over scratch files",
  "The existing tests run about two hundred small well-formed inputs; buffer arithmetic for macro arguments, file-context tokens, macro lists and long lines depends on sizes and repetitions they never combine.",
  ["src/template.c", "src/parse_fc.c", "src/startup.c", "src/lex.l", "src/parse.y", "src/parse_functions.c", "src/string_list.c", "src/perm_macro.c", "src/ordering.c", "src/tree.c", "src/maps.c", "src/main.c", "src/check_hooks.c"],
  [("replace_m4 output buffer sizing", "src/template.c"), ("parse_fc_line tokenising", "src/parse_fc.c"), ("strip_space", "src/startup.c"), ("YY_INPUT line cache and yyerror excerpt", "src/lex.l, src/parse.y"), ("string_builder", "src/perm_macro.c")],
  OUT)

p("C02", "Every run terminates in time proportional to its input",
  "Every run ends on its own without running out of stack, also when templates, interfaces or permission macros call or contain each other in a cycle, when blocks are nested deeply, or when files hold very many statements. A cycle of templates may be diagnosed but never loops forever or crashes. When files of ordinary shape get longer, or there are more of them, the time grows in proportion to their size, apart from the cost of sorting and, for long lists and deep nesting, of comparing elements pairwise.",
  ["inputs"],
  "all call graphs between templates/interfaces (self loops, mutual cycles, long chains), all permission macro reference graphs, nesting depths and file sizes up to tens of thousands of statements",
  "Unit tests exercise one self-calling template and shallow nesting; non-termination and unbounded recursion need particular cyclic graphs or sizes.",
  ["src/template.c", "src/perm_macro.c", "src/startup.c", "src/tree.c", "src/ordering.c"],
  [("add_template_declarations loop detection", "src/template.c"), ("mark_transform_interfaces fixpoint", "src/startup.c"), ("compute_perm_mask recursion", "src/perm_macro.c"), ("free_policy_node", "src/tree.c"), ("get_ordering_reason search loop", "src/ordering.c")],
  OUT)

p("C03", "Syntax errors are never silent and valid policy is never rejected",
  "A policy file that does not follow the supported policy language makes the run print a syntax error (F-001) naming that file and the line at which the error is detected, and the run exits with status 70 without reporting any check finding as if analysis had succeeded (the first broken file in the order of analysis ends the run; a broken access_vectors or macro file is reported likewise, with a warning, and the analysis goes on without it). Every file that follows the supported language is accepted, however its constructs are combined, nested and laid out.",
  ["inputs"],
  "all combinations and nestings of the supported statements (accepted) and all single-token corruptions of them that leave the language (rejected), in any file of the run",
  "The tests parse one sample of most statements and about a dozen broken files; acceptance is a property of the whole language including nesting and file kind.",
  ["src/parse.y", "src/lex.l", "src/runner.c", "src/main.c"],
  [("grammar and yyerror", "src/parse.y"), ("token rules", "src/lex.l"), ("parse_all_files_in_list error propagation", "src/runner.c")],
  OUT)

p("C04", "Findings point at the statement, independent of layout",
  "Each finding names the base name of the file and the line on which the offending statement starts, including after multi-line statements, comments, m4 comments, blank lines, carriage returns and very long lines. Inserting blank or comment lines between statements, changing indentation or splitting a statement over several lines leaves the set of findings unchanged except for the corresponding shift of line numbers (the choice among equally good orders by C-001, which weighs line distances, excepted).",
  ["inputs"],
  "all layouts (blank lines, comments, dnl lines, indentation, CRLF, statement splitting, line lengths beyond 8 KiB buffers) of all policy files",
  "Tests compare line numbers for a few fixed files in one layout each.",
  ["src/lex.l", "src/parse.y", "src/parse_fc.c", "src/parse_functions.c", "src/check_hooks.c"],
  [("YY_USER_ACTION location tracking, YY_INPUT", "src/lex.l"), ("@$.first_line passed to insert functions", "src/parse.y"), ("line counter", "src/parse_fc.c"), ("display_check_result", "src/check_hooks.c")],
  OUT)

p("C05", "A disable comment silences exactly the listed checks on its statement",
  "A comment '#selint-disable:' with a list of check IDs at the end of a statement, or after the opening of an optional, require, gen_require, interface or template block, suppresses findings of exactly the listed checks on exactly that statement (with all names it declares or requires) or block opening. Findings of other checks on that statement, and findings on every other statement including those inside the block, are reported as without the comment; comments that do not have the documented form have no effect.",
  ["inputs"],
  "all policies, all sets of IDs, both spacing variants, all statement kinds and positions at which the comment is allowed",
  "Tests cover a handful of single-ID comments on fixed lines; the claim quantifies over statement kinds, ID lists and neighbours.",
  ["src/parse.y", "src/lex.l", "src/parse_functions.c", "src/check_hooks.c", "src/ordering.c"],
  [("SELINT_COMMAND grammar positions", "src/parse.y"), ("save_command", "src/parse_functions.c"), ("exception test in call_checks_for_node_type", "src/check_hooks.c"), ("ordering_next", "src/ordering.c")],
  OUT)

p("C06", "Which checks run follows the documented precedence",
  "A check's findings appear if and only if its severity is at or above the effective level (command line over config file over convention) and it is selected: config 'disable' is overridden by the config 'enable' list of the current mode (enable_source in source mode, enable_normal otherwise), that by -d, and that by -e; with -E exactly the checks given with -e are selected. Selecting or deselecting one check never changes the findings of another.",
  ["configurations", "inputs"],
  "all combinations of level, config severity, disable/enable_normal/enable_source lists, -d, -e, -E and source/normal mode over all check IDs",
  "Tests try isolated options one at a time; the precedence is a statement about all combinations of five lists, two modes and two level sources.",
  ["src/runner.c", "src/selint_config.c", "src/main.c"],
  [("is_check_enabled, register_checks", "src/runner.c"), ("parse_config lists", "src/selint_config.c"), ("option handling", "src/main.c")],
  OUT)

p("C07", "Exit status tells exactly what happened",
  "With -F the exit status is 65 if at least one check finding was made (printed, or counted but not printed because of --summary-only) and 0 if none was; without -F a completed analysis exits 0. A run that could not parse a policy file exits 70, a wrong command line (bad option or option value, no file, -E without -e, unreadable config file) exits 64, an invalid configuration exits 78, in each case whatever other options are given; help and version exit 0.",
  ["inputs", "configurations"],
  "all policies with and without findings (including suppressed, disabled and below-level ones) and all option combinations",
  "Tests check the status for a few runs; agreement of status and findings must hold for every policy and option mix.",
  ["src/main.c", "src/check_hooks.c", "src/runner.c"],
  [("exit code selection", "src/main.c"), ("found_issue", "src/check_hooks.c")],
  OUT, [("found_issue", "whether any enabled check reported a finding", "src/check_hooks.c")])

p("C08", "Summary and presentation options never change what is counted",
  "With -S the summary lists each check that made findings exactly once, with exactly the number of findings made by it, and '(none)' if there were none; --summary-only prints the same summary and none of the individual findings. Colour, verbosity and summary options change only presentation: the findings are the same with and without them, and with colour off (or output not a terminal) no escape sequence is printed.",
  ["inputs", "configurations"],
  "all policies, all selections of checks and all presentation options",
  "One functional test compares one summary; conservation is over every mixture of checks registered for several statement kinds.",
  ["src/check_hooks.c", "src/color.c", "src/main.c", "src/runner.c"],
  [("display_check_issue_counts", "src/check_hooks.c"), ("color functions", "src/color.c")],
  OUT)

p("C09", "Every policy file is found and checked exactly once",
  "With -r every regular .te, .if and .fc file below the given paths is analysed exactly once, at any depth, in any number and in any order of paths, and nothing else is analysed; directories whose name starts with a dot are skipped unless --scan-hidden-dirs is given (paths that do not overlap, no links named like policy files). Without -r only files named on the command line are analysed; support files (modules.conf, access_vectors, obj_perm_sets.spt) are picked up from the tree in source mode, the checked tree having preference over context trees.",
  ["inputs", "configurations"],
  "all directory trees (depth, width, hidden directories, other files, odd names, many files under a low descriptor limit) and path arguments",
  "Tests scan a few fixed directories.",
  ["src/main.c", "src/file_list.c", "src/runner.c"],
  [("fts traversal and suffix dispatch", "src/main.c"), ("file_list_push_back", "src/file_list.c"), ("fclose after parse", "src/runner.c, src/parse_fc.c")],
  OUT)

p("C10", "Results are deterministic, independent of order, and inputs stay untouched",
  "Running selint again on the same input gives byte-identical output and the same status; giving the same files in another order or as a directory gives the same set of findings, as long as no name is declared in two modules and templates are called from te files or other templates. A run never creates, changes or removes any file.",
  ["inputs", "histories", "schedules"],
  "all policy sets, repeated runs, environments (memory contents, address layout), argument orders, directory entry orders",
  "Tests run each input once in one order; dependence on uninitialised memory, hash order or input order does not show.",
  ["src/main.c", "src/maps.c", "src/runner.c", "src/perm_macro.c", "src/ordering.c", "src/startup.c"],
  [("all parsing precedes all checks", "src/runner.c"), ("hash maps", "src/maps.c"), ("transform-interface fixpoint", "src/startup.c")],
  OUT)

p("C11", "Context files inform the analysis but are never reported on",
  "Moving files from the checked paths to a --context path removes exactly the findings located in the moved te and if files: the names, interfaces and templates they define stay known, and findings in the remaining files are the same. No finding is ever reported for a context file, and a file given in both roles is checked once.",
  ["inputs", "configurations"],
  "all policy sets and all splits of their modules into checked and context parts, one or several context paths",
  "Tests use one small context directory with one interface.",
  ["src/main.c", "src/runner.c", "src/file_list.c", "src/startup.c"],
  [("context list construction", "src/main.c"), ("run_analysis", "src/runner.c"), ("file_name_in_file_list", "src/file_list.c")],
  OUT)

p("C12", "Use of another module's type or attribute in a te file (W-001) is exact",
  "In a te file a statement gets W-001 if and only if it uses a name (as source, target, default, argument, attribute, aliased, permissive or excluded name) that is known as a type, attribute or attribute role of a different module and that is not listed with the same kind in a require or gen_require block that precedes the statement in its own or an enclosing block. The message names such an identifier and the module declaring it.",
  ["inputs"],
  "all policies: statement kinds, list positions, exclusions, aliases, nesting of blocks and requires, multiple requires, names that are prefixes of others",
  "Tests check one or two statements per node kind; the rule quantifies over positions in lists and block structure.",
  ["src/te_checks.c", "src/tree.c", "src/maps.c", "src/parse_functions.c"],
  [("check_no_explicit_declaration, has_require", "src/te_checks.c"), ("get_names_in_node", "src/tree.c"), ("declaration maps", "src/maps.c")],
  OUT)

p("C13", "Interface require discipline is exact (W-002, W-003, W-011, S-004, S-005)",
  "Inside an interface or template: a statement using a known type, attribute, attribute role or role (other than system_r) not required earlier in the same definition gets W-002; a required type, attribute, attribute role or role not used after its require block gets W-003 (interfaces named *_stub exempt); a required non-class name declared in no module or another module gets W-011 (roles of module kernel and $-parameters exempt). A template called from an interface gets S-004 and a declaration in an interface outside require blocks gets S-005; none of these is reported in any other situation.",
  ["inputs"],
  "all interface and template bodies: statement kinds, nesting, several require blocks, uses in nested blocks, list positions, parameters, exclusions",
  "Tests use one hand-built tree per rule.",
  ["src/if_checks.c", "src/tree.c", "src/maps.c"],
  [("check_name_used_but_not_required_in_if", "src/if_checks.c"), ("check_name_required_but_not_used_in_if", "src/if_checks.c"), ("check_required_declaration_own", "src/if_checks.c"), ("dfs_next, get_names_required", "src/tree.c")],
  OUT)

p("C14", "Interface call findings are exact (W-005, W-006, W-007, W-010, E-006)",
  "A call gets W-005 iff it calls an interface defined in another module that modules.conf lists as something other than base and it is not inside an optional_policy block; W-006 iff it has no argument; W-007 iff an argument contains an unquoted space (mls ranges exempt). It gets W-010 iff an underscore-delimited prefix of its name (or the documented abbreviation) is a module in modules.conf and no interface of that name is known, and a declaration gets E-006 iff an interface or template has the declared name.",
  ["inputs"],
  "all calls (argument forms, nesting in optional/tunable/ifdef blocks and else branches, module states, name prefixes and abbreviations)",
  "Tests cover one call per rule.",
  ["src/te_checks.c", "src/maps.c", "src/util.h", "src/startup.c", "src/parse.y"],
  [("check_module_if_call_in_optional, check_space_if_call_arg, check_unknown_interface_call, check_declaration_interface_nameclash", "src/te_checks.c"), ("load_modules_source", "src/startup.c"), ("args/arg grammar", "src/parse.y")],
  OUT)

p("C15", "Template calls declare exactly the names m4 would produce",
  "After a template is called from a te file, every name its body declares (types, attributes, roles, booleans, aliases), also through nested template calls, with $1..$N replaced by the actual arguments as m4 does (missing arguments empty, multi-digit and repeated parameters included; arguments that are single words), is known as declared by the calling module, and nothing else is. Cyclic template calls are diagnosed or ignored without losing the other declarations of the run.",
  ["inputs"],
  "all template bodies, nesting graphs, argument lists (more than nine, repeated, missing, quoted lists) and call sites",
  "Tests substitute a few two-argument strings.",
  ["src/template.c", "src/maps.c", "src/parse_functions.c"],
  [("replace_m4, replace_m4_list, add_template_declarations", "src/template.c"), ("template map", "src/maps.c")],
  OUT)

p("C16", "File context findings are exact (E-002..E-005, S-002, S-007, W-004)",
  "Every line of an fc file is classified independently and by its own line number: malformed entries get E-002 and nothing else, well-formed ones get E-003/E-004/E-005 iff their user/role/type is unknown, S-002 iff the type belongs to another module (generated file names exempt unless configured), S-007 iff gen_context has no level, W-004 iff the path contains a potentially unescaped '.', '+' or '*'. Comments, empty lines, m4 ifdef framing, <<none>> entries and configured macros are never malformed.",
  ["inputs", "configurations"],
  "all fc files: path regexes with escapes and bracket groups, file type markers, gen_context and raw contexts with 0-2 level parts, spacing, line endings, long lines, final line without newline",
  "Tests parse about a dozen lines.",
  ["src/parse_fc.c", "src/fc_checks.c"],
  [("parse_fc_line, parse_context, parse_fc_file", "src/parse_fc.c"), ("fc checks", "src/fc_checks.c")],
  OUT)

p("C17", "Permission and class findings are exact (E-007/8, W-008, C-005, C-007, S-009)",
  "An access rule gets E-007 / E-008 iff it names a permission / class that neither the access vectors nor (for permissions) the permission macro file defines, W-008 iff it is an allow rule using * or a complement, C-005 iff its permission list is not strictly ascending, C-007 iff its single source type is repeated as its target instead of self, and S-009 iff a *_perms macro does not fit the rule's class; interface parameters ($1, ...) are never unknown. Each rule is judged on all its listed classes and permissions, wherever in the list the offender stands.",
  ["inputs"],
  "all access vector rules and extended rules over all class/permission/macro tables, list lengths and positions",
  "Tests call the checks on a few hand-made lists.",
  ["src/te_checks.c", "src/maps.c", "src/perm_macro.c", "src/parse.y", "src/startup.c"],
  [("check_unknown_permission, check_unknown_class, check_risky_allow_perm, check_unordered_perms, check_no_self, check_perm_macro_class_mismatch", "src/te_checks.c"), ("access vector and spt grammar", "src/parse.y")],
  OUT)

p("C18", "Permission macro suggestions (S-010) are sound and best",
  "A suggested macro is defined for the rule's class, covers at least two of the listed permission strings, adds only permissions that are reasonable extensions of the listed ones, and no other eligible macro covers more of the listed permissions or covers as many while adding fewer. The message lists exactly the replaced strings and exactly the added permissions; no suggestion is made iff no macro qualifies or the best one is already used. Macros that contain themselves are never suggested.",
  ["inputs"],
  "all permission macro tables and all permission lists of single-class allow rules",
  "Tests check a dozen lists against one table.",
  ["src/perm_macro.c", "src/te_checks.c", "src/maps.c"],
  [("permmacro_check, load_permission_macro, compute_perm_mask", "src/perm_macro.c"), ("check_perm_macro_available", "src/te_checks.c")],
  OUT)

p("C19", "Ordering findings (C-001) mark the complement of a maximal ordered run",
  "For each te file and ordering configuration (refpolicy, refpolicy-light, refpolicy-lax), the statements reported by C-001 are exactly those left out of the longest run of statements that is in order under the configured rules, as found by patience search; files that are fully in order get no finding and statements exempted by a disable comment take no part. Layers of modules are known from scanned directories. Each message cites an existing other line that the statement is out of order with.",
  ["inputs", "configurations"],
  "all te files: declarations, self/own/other rules, interface calls by module, layer and kind, optional/tunable/boolean/ifdef blocks, section positions, three variants",
  "Tests check a few fixed sequences.",
  ["src/ordering.c", "src/te_checks.c", "src/startup.c", "src/parse_functions.c"],
  [("calculate_longest_increasing_subsequence, compare_nodes_refpolicy_generic, get_section, get_ordering_reason", "src/ordering.c"), ("check_te_order", "src/te_checks.c"), ("mark_transform_interfaces", "src/startup.c")],
  OUT)

p("C20", "Require block findings are exact (C-006, S-001, S-008, E-009)",
  "A require or gen_require block gets C-006 iff its declarations are not ordered by the configured flavour order (and, if configured, by name ignoring a _t suffix) or repeat (declarations inside ifdef within the block take no part), S-001 iff it is in a te file and requires anything other than classes, S-008 iff a gen_require block is not quoted. An optional, require or gen_require block gets E-009 iff it contains no statement (comments and stray semicolons do not count).",
  ["inputs", "configurations"],
  "all require blocks and optional blocks in all positions, all six-flavour orders and both name-order settings",
  "Tests check some fixed blocks under the default order.",
  ["src/if_checks.c", "src/te_checks.c", "src/selint_config.c", "src/parse.y"],
  [("check_unordered_declaration_in_require", "src/if_checks.c"), ("check_require_block, check_empty_block", "src/te_checks.c"), ("check_unquoted_gen_require_block", "src/if_checks.c")],
  OUT)

p("C21", "Configuration means what it says and bad configuration is refused",
  "Every configuration item has exactly its documented effect: severity, disable/enable lists, assumed users and roles, custom fc macros, custom simple te macros, ordering rules, require order and name-order switch, and the generated-fc exemption; items left out take their documented defaults. A configuration file that is unparsable or contains an unknown option, value or require-flavour list makes the run exit 78 before any file is analysed; a missing -c file exits 64.",
  ["configurations", "inputs"],
  "all configuration files: every subset of items, values, list lengths, formatting, unknown and duplicate entries",
  "Tests load a few config files and inspect the parsed structures, not their effect.",
  ["src/selint_config.c", "src/main.c", "src/parse_fc.c", "src/te_checks.c"],
  [("parse_config", "src/selint_config.c"), ("EX_CONFIG path", "src/main.c")],
  OUT)

p("C22", "Unrelated modules do not influence each other's findings",
  "Adding modules that share no identifier with the rest of a policy to the scanned tree adds only findings located in the added files; all other findings stay the same. The result for a set of mutually unrelated modules is the union of the results of scanning each alone with the same support files.",
  ["inputs", "histories"],
  "all pairs of policies with disjoint identifiers, merged in any directory layout and traversal order",
  "Tests scan mostly single modules; state carried from one file to the next only shows in combinations.",
  ["src/runner.c", "src/maps.c", "src/te_checks.c", "src/ordering.c", "src/parse.y", "src/parse_functions.c"],
  [("per-file state reset (module name, current node, ordering data)", "src/runner.c, src/te_checks.c, src/parse_functions.c")],
  OUT)

p("C23", "Header, comment, semicolon and stray word findings are exact",
  "A te file gets S-006 iff it has a bare module header and W-009 iff the header's module name differs from the file name without extension; an interface or template gets C-004 iff it is not directly preceded by a comment line; every unnecessary semicolon gets S-003. A bare word used as a statement gets E-010 unless it is a configured simple macro or a comparison argument of ifelse.",
  ["inputs", "configurations"],
  "all files: headers, file names with several dots, comments between definitions, semicolons in any block, bare words in any ifelse position and nesting",
  "Tests check one instance each.",
  ["src/te_checks.c", "src/if_checks.c", "src/parse.y"],
  [("check_stray_word, check_module_file_name_mismatch, check_useless_semicolon, check_bare_module_statement", "src/te_checks.c"), ("check_interface_definitions_have_comment", "src/if_checks.c")],
  OUT)

p("C24", "A completed run releases all memory and files it acquired",
  "When selint finishes an analysis, successfully or after reporting a syntax error, every heap block it allocated has been released and no input file is still open (runs refused for their command line or configuration excepted). The number of simultaneously open files and the peak memory do not grow with the number of files beyond the size of their content.",
  ["inputs", "configurations", "histories"],
  "all policy sets, configurations and syntax errors at any point of any file",
  "The valgrind tests cover fixed inputs; leaks on error paths and rare constructs need those constructs.",
  ["src/main.c", "src/tree.c", "src/maps.c", "src/parse.y", "src/parse_functions.c", "src/template.c", "src/selint_config.c", "src/parse_fc.c", "src/ordering.c"],
  [("free_policy_node, free_file_list, cleanup_parsing, %destructor", "src/tree.c, src/file_list.c, src/parse_functions.c, src/parse.y")],
  ["LeakSanitizer report at exit", "open descriptors at exit"])

p("C25", "Normal mode uses the installed system policy as background",
  "Without source mode or context, the interface files below the system policy development directory are known but never reported on, classes and permissions come from the running kernel's class directory when it exists, and the findings for the given files are those obtained in source mode with the same definitions supplied as context. A missing system directory only disables the checks that need it, for the class directory with a note. In source mode or with a context the system directories are not looked at.",
  ["inputs", "configurations"],
  "all policy sets with all sets of installed interface headers and kernel class trees (present, empty or absent)",
  "Tests cannot install files below system paths and therefore never run this mode with headers present.",
  ["src/startup.c", "src/main.c"],
  [("load_devel_headers, load_access_vectors_kernel", "src/startup.c"), ("normal mode branch", "src/main.c")],
  OUT)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
