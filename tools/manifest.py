"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = {
"C01": ("fuzzing with random token, line, mutated and deeply nested documents and random options", "exploration", "no panic, overflow or difference between runs or entry points on any generated case"),
"C02": ("property-based testing: structured document generator, format twice", "exploration", "byte equality of format(format(d)) and format(d) on every generated document and option set"),
"C03": ("property-based testing: structured document generator, comparison of canonical parse trees", "exploration", "the parse of the output equals the parse of the input up to the documented changes, on every generated case"),
"C04": ("property-based testing: code-heavy generator, comparison of code blocks and spans with the generated contents", "exploration", "exact content of every code block and span at every nesting level, for random fence options"),
"C05": ("property-based testing: link-heavy documents against a reference model of placement", "exploration", "links, titles and definition placement follow the model on every generated document"),
"C06": ("property-based testing: footnote-heavy documents against a reference model of placement", "exploration", "exactly one definition per referenced footnote, in the modelled section"),
"C07": ("property-based testing: documents with directives, verbatim containment and metamorphic relation", "exploration", "covered text verbatim, other text formatted as without the region"),
"C08": ("property-based testing: paragraphs and widths against an independent wrapping model", "exploration", "width bound, word sequence and keep-short-lines rule on every generated paragraph"),
"C09": ("property-based testing: block sequences in any source style, line-level oracle from the options", "exploration", "headings, fences, breaks and spacing follow the options"),
"C10": ("property-based testing: lists printed by an independent reference model", "exploration", "output equals the model's printing of the list"),
"C11": ("property-based testing: tables printed by an independent reference model", "exploration", "output equals the model's printing of the table"),
"C12": ("property-based testing: exhaustive short texts and random longer ones, reversal and per-rule oracle", "exploration", "each replacement is undone to the source, and follows the modelled rule"),
"C13": ("property-based testing: headings over a vocabulary against a word classification model", "exploration", "case of every word as the model says, nothing else changed"),
"C14": ("fault injection into formatter commands, outcome model", "exploration", "block content, warnings and received bytes as modelled, for every generated command behaviour"),
"C15": ("property-based testing: documents with known problems, exact warning set", "exploration", "the warnings are exactly the planted problems with their lines"),
"C16": ("stateful property-based testing of the command on file sets, model over the library's output", "exploration", "exit code, output and file contents as modelled for every generated run sequence"),
"C17": ("property-based testing: directory trees, globs and ignore files against an independent matcher", "exploration", "the processed files are exactly the modelled set, once, in order"),
"C18": ("property-based testing: settings assigned to configuration layers against an independent merge model", "exploration", "effective settings as modelled, in the library and the command"),
"C19": ("property-based testing: values of every setting as TOML, command-line and JavaScript options", "exploration", "accepted exactly when in range; command, library and JavaScript options agree"),
"C20": ("property-based testing: documents with verbatim fragments, containment once and in order", "exploration", "front matter, HTML and abbreviation lines exactly as written"),
}
import sys
src = open("harness/src/checks/mod.rs").read()
checks = [{
    "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
    "technique": t, "level": l, "level_note": n,
} for i, (t, l, n) in T.items() if f"{i.lower()}::check()" in src]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}
hooks = os.environ.get("HOOK_COMMITS") or (open("tools/hook-commits").read() if os.path.exists("tools/hook-commits") else "")
if hooks.strip():
    m["hooks"] = {"guard": "cargo feature verif-hooks", "enable": "the harness depends on hongdown with features = [\"verif-hooks\"]", "source_commits": hooks.split()}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
