#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
NOTE = "Judges executed inputs only (counts in the evidence file); trusts the harness's oracle, generators and panic/CPU monitors. "
CHECKS = {
 "C01": (MON + "tree monitor over hostile texts and edit histories", NOTE + "Every tree of parses and reparses of all seven shipped languages is walked and compared with its text."),
 "C02": (MON + "panic, CPU-time and determinism monitors over hostile texts", NOTE + "Termination is judged by a CPU limit far above what is ever used; determinism by repeated parses on other threads, fresh objects and another process."),
 "C03": (MON + "differential monitor of incremental against fresh parses over edit histories", NOTE + "Shipped languages and random grammars with cached rules. One known finding (token lookahead) is recognised by its cause."),
 "C04": (MON + "differential monitor of text and file edits against a naive splice model", NOTE + "Edits of texts, of trees (insert, replace, delete, substring) and of trees through reparse are compared with plain string operations."),
 "C06": (MON + "engine against a reference interpreter on random grammars", NOTE + "Grammars use every operator and stay inside the documented preconditions (no left recursion, no repetition of the empty match)."),
 "C05": (MON + "lexers against a reference tokenizer", NOTE + "Shipped lexical rules are matched by hand-written automata, random rule sets by the regex crate; selection, custom rules and error tokens are judged. No finding."),
 "C08": (MON + "operator expressions generated as trees, printed and parsed back", NOTE + "Random operator tables (prefix, postfix, binary, circumfix operands, missing right operands) and the arithmetic test language."),
 "C10": (MON + "navigation and typed views against brute-force scans", NOTE + "Every accessor of every shipped language's typed views, every leaf offset query, and random ranges and neighbourhoods per tree."),
 "C11": (MON + "panic, range and edit monitors over every query of both editors", NOTE + "Broken, hostile and sound texts; every query at token borders, inside tokens and at both ends of the file."),
 "C12": (MON + "selection extension against a brute-force scan of all nodes", NOTE + "Chains of extensions are followed to the whole file."),
 "C13": (MON + "offered actions against applied ones, results against an independent reading of the tree", NOTE + "Swaps are undone, extracted rules inlined, results of sound files reparsed."),
 "C23": (MON + "programs generated as trees, printed in random layouts and parsed back", NOTE + "Generators for JSON, BNF, arithmetic, S-expressions, fall grammars and Rust; invalid JSON and BNF texts must contain an error node."),
 "C07": (MON + "tree outside of a damaged block compared before and after", NOTE + "Blocks of Rust items, expressions, patterns and macros, of fall definitions and of JSON objects; several damages per file."),
 "C14": (MON + "formatted grammars against the original's tokens, lines and tree, and against the spacing rules", NOTE + "Sound, broken and re-spaced grammars; spacing is judged for files without syntax errors, everything else always."),
 "C15": (MON + "definitions and usages against a brute-force resolution of every name", NOTE + "Every offset of the file is asked; the expected answer comes from the harness's own scan of declarations and scopes."),
 "C16": (MON + "diagnostics against an independent check of the same grammar, in random query orders", NOTE + "Grammars with planted problems of every kind; the expected list is computed from the tree by the harness."),
 "C18": (MON + "index contents against a scan of the disk after random file-system histories", NOTE + "Real inotify, real files in scratch directories, injected delays; a monitor thread reads the index all the time. Convergence is awaited for 20 s. Limited by the 128 inotify instances of a user."),
 "C19": (MON + "symbol search against a linear scan of the indexed files", NOTE + "Generated Rust trees with non-ASCII and clashing names; expected symbols come from the harness's own tree walk."),
 "C20": (MON + "place of every skipped token against the attachment rule", NOTE + "Shipped languages, Rust struct comments in every arrangement, and random grammars under random attachment rules (reference tree builder)."),
 "C24": (MON + "every editor query after edit histories against a freshly opened file", NOTE + "Rust and grammar files; old versions are asked again after newer ones exist. Edits that hit the known finding of C03 are recognised by its cause and counted."),
 "C09": (MON + "compiled generated parsers against a reference interpreter of the grammar they came from", NOTE + "Random grammar texts (every operator, template calls, contexts, pratt rules, AST blocks) are generated, compiled and run on random inputs; damaged grammars must be refused without a panic."),
 "C17": (MON + "answers of concurrent threads against sequential ones", NOTE + "Threads share languages, files, analyses and symbol indexes, start together and are jittered; a watchdog recognises deadlocks by sleeping threads. Interleavings are those of the scheduler, not enumerated."),
 "C25": ("AddressSanitizer, ThreadSanitizer and Miri (thorough: MemorySanitizer too) over the other checks' workloads", NOTE + "The standard library is instrumented as well; overflow checks and its debug assertions are on. Miri interprets small workloads only. Stack exhaustion and leaks are not judged."),
 "C22": (MON + "the real extensions and native modules in a stand-in editor, against the document and the library", NOTE + "The TypeScript sources run in Node over a stand-in for the vscode module, the native modules are compiled over a stand-in for neon: what the real editor and the real neon add is not exercised."),
 "C26": (MON + "highlights, outlines, breadcrumbs, assists against what the generator wrote and naive readings of the tree", NOTE + "Grammar and Rust files whose names and nesting are known from writing them, plus damaged texts."),
 "C21": (MON + "the library's work counters during reparses of large files", NOTE + "Bounds are generous multiples of what the neighbourhood and the edited item need; a regression has to lose locality to be seen."),
}
NOT = {
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
doc = {
 "version": 1,
 "setup_cmd": "bash -c '. /opt/vp/env.sh; cargo --version; python3 -c \"import json\"; test -d /verif/harness/src'",
 "hooks": {"guard": "none", "enable": "no hooks: the checks drive /repo's public API", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "One harness crate (/verif/harness) drives /repo's crates by path; check.py builds it from the working tree, runs one property's workload, and judges the report. DESIGN.md describes every oracle.",
}
for p in props:
    if p in CHECKS:
        tech, note = CHECKS[p]
        doc["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                              "technique": tech, "level": "exploration", "level_note": note})
    else:
        doc["not_applicable"].append({"property": p, "reason": NOT.get(p, "Its check is not built yet.")})
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
