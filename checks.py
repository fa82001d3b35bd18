"""Property -> exhaustive suites (driver, suite, build variant) deciding it, plus manifest texts."""
CHECKS = {
    "C01": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_lex", "lex_strings", "rel"), ("d_lex", "lex_lexemes", "rel"), ("d_lex", "lex_tables", "rel"), ("d_lex", "lex_sizes", "rel")],
        "technique": "bounded-exhaustive enumeration of inputs vs reference lexer",
        "note": "All character/lexeme strings up to the bound; trusts the reference lexer in harness/d_lex.cpp.",
    },
    "C02": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_lex", "literals", "rel")],
        "technique": "bounded-exhaustive enumeration of literals vs exact arithmetic",
        "note": "All literals of the grid; trusts exact arithmetic in the harness.",
    },
    "C03": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_syntax", "syntax_tokens", "rel"), ("d_syntax", "syntax_edits", "rel"), ("d_syntax", "syntax_trees", "rel"), ("d_syntax", "syntax_depth", "rel")],
        "technique": "bounded-exhaustive enumeration of token sequences vs reference parser",
        "note": "All token sequences of the stated spaces; trusts the reference parser in harness/refbms.hpp.",
    },
    "C04": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_names", "names_globals", "rel"), ("d_names", "names_bodies", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C05": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_types", "operators", "rel"), ("d_types", "operators_constant", "rel"), ("d_types", "operators_partial", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C06": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_types", "typing_expressions", "rel"), ("d_types", "typing_statements", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C07": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_flow", "constant_flow", "rel"), ("d_flow", "constant_endless", "rel"), ("d_types", "operators_constant", "rel"), ("d_types", "operators_partial", "rel"), ("d_flow", "lazy_evaluation", "rel"), ("d_flow", "arguments", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C08": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_flow", "control_flow", "rel"), ("d_flow", "constant_flow", "rel"), ("d_flow", "constant_endless", "rel"), ("d_flow", "function_ends", "rel"), ("d_flow", "loops", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C09": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_flow", "calls", "rel"), ("d_flow", "arguments", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C10": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_generic", "generic_deduction", "rel"), ("d_generic", "generic_instances", "rel"), ("d_generic", "generic_chains", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C11": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_generic", "assertions", "rel"), ("d_generic", "assertions_dependent", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
    "C12": {
        "suites": [("d_scale", "scale", "rel"), ("d_scale", "sequences", "rel"), ("d_generic", "annotations", "rel")],
        "technique": "bounded-exhaustive enumeration of programs vs independent reference implementation",
        "note": "All programs of the stated spaces; trusts the reference implementation in harness/refbms.hpp.",
    },
}

QUICK = {"quick": "quick", "thorough": "quick"}
DEEP = {"thorough": "quick"}
CHECKS["C13"] = {
    "suites": [("d_total", "total_" + s, "san", QUICK) for s in ("limits", "scale", "sequences", "constant_endless", "lex_lexemes", "syntax_edits", "syntax_trees", "syntax_depth", "names_globals", "typing_statements", "operators_partial", "lazy_evaluation",
                                                                 "arguments", "function_ends", "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations")]
    + [("d_total", "total_bytes", "san")]
    + [("d_total", "total_typing_expressions", "san", QUICK), ("d_total", "total_loops", "san", QUICK)]
    + [("d_total", "total_" + s, "san", DEEP) for s in ("lex_strings", "syntax_tokens", "names_bodies", "control_flow", "calls")],
    "technique": "bounded-exhaustive enumeration of source texts on the sanitized library",
    "note": "All texts of the stated spaces under AddressSanitizer, UBSan and container assertions; each case in a supervised process.",
}
CHECKS["C14"] = {
    "suites": [("d_vm", "vm_instructions", "rel"), ("d_vm", "vm_histories", "rel"), ("d_vm", "vm_aborts", "rel"), ("d_vm", "vm_sizes", "rel")],
    "technique": "explicit-state exploration of the virtual machine against a reference machine",
    "note": "All instruction sequences and call histories of the stated spaces; trusts the reference machine in harness/d_vm.cpp.",
}
CHECKS["C28"] = {
    "suites": [("d_diag", "diag_values", "rel"), ("d_diag", "diag_token_dump", "rel"), ("d_diag", "diag_expected_syntax_edits", "rel"), ("d_diag", "diag_expected_syntax_trees", "rel"),
               ("d_diag", "diag_expected_syntax_tokens", "rel", QUICK)]
    + [("d_total", "total_" + s, "rel", QUICK) for s in ("bytes", "limits", "scale", "sequences", "lex_lexemes", "syntax_edits", "names_globals", "names_bodies", "typing_expressions", "typing_statements", "arguments", "generic_deduction", "assertions", "assertions_dependent", "annotations")]
    + [("d_total", "causes_" + s, "rel") for s in ("scale", "sequences", "names_globals", "names_bodies", "typing_expressions", "typing_statements", "operators_partial", "lazy_evaluation", "arguments", "constant_endless", "function_ends", "loops", "calls",
                                                   "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations")]
    + [("d_doc", m + s, "rel", QUICK) for s in ("directives", "arguments", "meta", "sizes", "sequences", "edits") for m in ("parse_", "html_")],
    "technique": "bounded-exhaustive enumeration of erroneous programs; rendered diagnostics vs independently computed facts",
    "note": "All erroneous programs of the stated spaces; positions, lines, values and expectations are recomputed from the source text.",
}
CHECKS["C15"] = {
    "suites": [("d_common", "symbol_tables", "rel"), ("d_common", "frame_stacks", "rel"), ("d_common", "table_sizes", "rel")],
    "technique": "explicit-state exploration of operation histories against a reference model",
    "note": "All operation histories of the stated length, every lookup after every operation; trusts the association-list model in harness/d_common.cpp.",
}
CHECKS["C24"] = {
    "suites": [("d_common", "variants", "san"), ("d_common", "results", "san"), ("d_common", "result_forms", "san")],
    "technique": "explicit-state exploration of operation histories against a reference model, on the sanitized library",
    "note": "All operation histories of the stated length; object lifetimes are counted and every state compared with a model.",
}
CHECKS["C26"] = {
    "suites": [("d_common", "tribools", "rel"), ("d_common", "matchers", "rel"), ("d_common", "numbers", "rel"), ("d_common", "files", "rel")],
    "technique": "bounded-exhaustive enumeration of inputs against reference functions",
    "note": "All inputs of the stated spaces; trusts the reference functions in harness/d_common.cpp and harness/ref_lex.hpp.",
}
BMD = ("strings", "spans", "directives", "arguments", "meta", "code", "raw", "sizes", "sequences", "edits")
CHECKS["C18"] = {
    "suites": [("d_doc", "html_" + s, "rel") for s in ("code", "raw", "sizes", "sequences", "edits")],
    "technique": "bounded-exhaustive enumeration of documents; the produced HTML is read back and compared with the code in the document",
    "note": "All code contents of the stated spaces; trusts the HTML reader and reference lexer in harness/ref_bmd.hpp and ref_lex.hpp.",
}
CHECKS["C19"] = {
    "suites": [("d_doc", "parse_" + s, "rel") for s in BMD],
    "technique": "bounded-exhaustive enumeration of documents vs reference parser",
    "note": "All documents of the stated spaces; trusts the reference parser in harness/ref_bmd.hpp.",
}
CHECKS["C20"] = {
    "suites": [("d_doc", "html_" + s, "rel") for s in BMD],
    "technique": "bounded-exhaustive enumeration of documents; the produced HTML is read back and compared with the document",
    "note": "All documents of the stated spaces; trusts the reference parser and HTML reader in harness/ref_bmd.hpp.",
}
CHECKS["C22"] = {
    "suites": [("d_doc", "total_" + s, "san") for s in BMD],
    "technique": "bounded-exhaustive enumeration of documents on the sanitized library",
    "note": "All documents of the stated spaces under AddressSanitizer, UBSan and container assertions; each case in a supervised process.",
}
CHECKS["C23"] = {
    "suites": [("d_doc", m + s, "rel") for s in ("directives", "meta", "spans", "sizes", "sequences", "edits", "raw") for m in ("parse_", "html_")],
    "technique": "bounded-exhaustive enumeration of documents vs reference parser and converter",
    "note": "All directives in all contexts and all \\meta contents of the stated spaces; trusts the rules written down in harness/ref_bmd.hpp.",
}
CHECKS["C21"] = {
    "suites": [("d_html", s, "rel") for s in ("writer_histories", "writer_gaps", "writer_values", "consumers")],
    "technique": "explicit-state exploration of operation histories against a reference model",
    "note": "All operation histories of the stated length, output and state compared after every operation; trusts the model in harness/d_html.cpp.",
}
CHECKS["C25"] = {
    "suites": [("d_html", s, "rel") for s in ("code_strings", "code_languages")],
    "technique": "explicit-state exploration of operation histories against a reference model",
    "note": "All operation histories of the stated length, with full iteration after every operation; trusts the model in harness/d_html.cpp.",
}
CHECKS["C27"] = {
    "suites": [("d_cli", "commands", "rel")],
    "needs": ["bm-cli"],
    "technique": "bounded-exhaustive exploration of command lines on the real executable",
    "note": "Every command, kind of file, extra argument and kind of standard output; exit status, output and files are compared with what the library says about the file.",
}
CHECKS["C17"] = {
    "suites": [("d_c", "c_" + s, "rel") for s in ("programs", "sizes", "signatures", "statements", "expressions")],
    "technique": "bounded-exhaustive enumeration of programs; generated code is compiled, run and compared with a reference interpreter",
    "note": "All programs of the stated spaces in 6 dialects on argument grids; trusts the reference interpreter in harness/refbms.hpp, gcc 13 and clang 18.",
}
CHECKS["C16"] = {
    "suites": [("d_gen", "gen_" + s, "rel") for s in ("expressions", "statements", "scale", "sequences", "syntax_depth", "names_globals", "typing_expressions", "typing_statements", "function_ends", "loops",
                                                      "generic_instances", "generic_chains", "assertions_dependent", "annotations")]
    + [("d_gen", "gen_" + s, "rel", DEEP) for s in ("syntax_trees", "names_bodies", "operators_partial", "lazy_evaluation", "arguments", "control_flow", "calls", "generic_deduction", "assertions")],
    "technique": "bounded-exhaustive enumeration of programs; generated text is parsed back by the reference parser",
    "note": "All accepted programs of the stated spaces under 7 option sets; trusts the reference parser in harness/refbms.hpp.",
}
CHECKS["C29"] = {
    "suites": [("d_mem", "memory_" + s, "rel") for s in ("sequences", "scale", "syntax_edits", "syntax_trees", "names_globals", "typing_statements", "lazy_evaluation", "arguments", "function_ends", "loops", "generic_instances",
                                                         "generic_deduction", "generic_chains", "assertions", "assertions_dependent", "annotations")]
    + [("d_mem", "memory_html_" + s, "rel") for s in BMD],
    "technique": "bounded-exhaustive enumeration of inputs with a checking memory resource and a counted heap",
    "note": "All programs and documents of the stated spaces, each processed twice; the heap must be as before the second time.",
}
CHECKS["C30"] = {
    "suites": [("d_conc", s, "calls") for s in ("histories", "turns", "schedules_steps", "schedules_calls")],
    "technique": "stateless exploration of all schedules of two tasks within a preemption bound, under a controlled scheduler, on the real code",
    "note": "Two threads, each with a memory resource of its own, of which the scheduler lets one run at a time; it can switch at every entry and exit of a function of the library (compiled with -finstrument-functions), at allocations, instructions of the virtual machine, tokens of HTML and stages. One preemption at the finest points, two at the coarser ones. On one thread: all sequences of two or three tasks, and all interleavings of the stages of two. What has to come out is what comes out in a fresh process.",
}
CHECKS["C31"] = {
    "suites": [("d_api", s, "rel") for s in ("entities", "operations", "instantiate_all", "enumeration_names", "listing", "consumer_histories", "instance_requests")]
    + [("d_api", "consumers_" + s, "rel") for s in ("lex_lexemes", "syntax_edits", "names_globals", "typing_statements", "sequences", "function_ends", "loops", "generic_deduction", "generic_instances", "assertions", "annotations")]
    + [("d_api", "consumers_" + s, "rel", DEEP) for s in ("lex_strings", "syntax_tokens", "names_bodies")],
    "technique": "bounded-exhaustive enumeration of inputs and states; each form of a function is compared with the others and with a model",
    "note": "All programs, types, values, enumerators and states of a program of the stated spaces; the entities, conversions and builtin functions are also compared with a model in harness/d_api.cpp.",
}

CHECKS["C32"] = {
    "suites": [("d_api", "tree_" + s, "rel") for s in ("syntax_edits", "syntax_depth", "syntax_trees", "names_globals", "typing_statements", "typing_expressions", "operators_partial", "sequences", "function_ends", "loops", "generic_deduction", "generic_instances", "generic_chains", "assertions", "assertions_dependent", "annotations", "lazy_evaluation", "arguments")]
    + [("d_api", "tree_" + s, "rel", DEEP) for s in ("names_bodies", "control_flow", "calls")],
    "technique": "bounded-exhaustive enumeration of programs; each node of the analyzed program is compared with the parsed program and with the nodes it depends on",
    "note": "All programs of the stated spaces. What operators compute is taken from evaluate_* and check_*, which C05 and C31 compare with models.",
}
