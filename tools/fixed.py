#!/usr/bin/env python3
"""Writes the `fixed` part of known_findings.json from the fix commits of /repo.

    python3 tools/fixed.py
"""
import json, os, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property and what failed, in the order of the commits
FIXED = [
    ("C03", "numbers in tables, inline arrays, lists and nested fields kept exponents, '.0' and '-0': [1e21,-0.0] was written as is"),
    ("C01", "indent other than 2: list items were written with 2 spaces and nested content was misread, [[{\"a\":{\"b\":1}}]] with indent 4"),
    ("C04", "a key quoted in the text reached the value with an internal NUL marker when expansion was off: {\"a.b\": 1}"),
    ("C07", "content not deeper than its key was taken as its child: 'a:\\n- 1' and list items under shallower keys"),
    ("C02", "an array of empty objects was written as a table without columns: [{},{}]"),
    ("C05", "'- a:' followed by a sibling key lost the sibling or read null"),
    ("C05", "strict mode refused a comma in the rows of a single-column tab or pipe table"),
    ("C01", "the root string '@x' was read as a table without rows"),
    ("C08", "a legacy header with a non-ASCII delimiter panicked: '@\\u00e9 a'"),
    ("C03", "integral floats beyond the 64-bit range saturated: 1e19 was read as 9223372036854775807"),
    ("C06", "text after a closing quote was ignored: 'a: \"x\" y'"),
    ("C05", "trailing spaces became part of an unquoted string: 'a: x '"),
    ("C06", "keyless array headers (root, nested, in lists) were not checked for length or width: '[3]: 1,2'"),
    ("C07", "strict mode dropped content after the root value and stray lines: '[1]: 1\\nb: 2'"),
    ("C12", "folding ignored collisions with sibling keys at the root and in list items: {\"a\":{\"b\":1},\"a.b\":2}"),
    ("C09", "streaming wrote arrays unlike the value encoder: key folding inside list items"),
    ("C09", "streaming a struct with key folding wrote nothing"),
    ("C09", "a value refusing to be serialized was written as null and reported as success"),
    ("C09", "streaming wrote NaN and infinite fields as text instead of null"),
    ("C09", "streaming refused newtype, option and char map keys, and wrote float keys differently"),
    ("C10", "enum variants with data lost their name: struct, tuple and newtype variants when streaming"),
    ("C16", "without the json feature tuples, nested arrays, options and columns were written differently"),
    ("C10", "typed decoding refused Option, newtype, enum and non-string map keys and ignored tuple lengths"),
    ("C08", "path expansion overflowed the stack and copied quadratically for keys of many segments"),
    ("C08", "deep nesting overflowed the stack: 100,000 times '- '"),
    ("C06", "strict mode accepted blank lines inside an array after or within multi-line list items"),
    ("C05", "strict mode refused a blank line after an @ table"),
    ("C07", "values on the line of a tabular header were accepted and dropped: t[1]{a}: x"),
    ("C06", "strict mode accepted an array header without colon: x: 1 / k[2] a,b"),
    ("C22", "a later error replaced an earlier one in old tables: @x cols / - null,x"),
    ("C05", "a bare value holding an array header became part of the key: 'a: see [1]: b'"),
    ("C06", "columns separated by pipes in a table declared with tabs: t[1\\t]{a|b}:"),
    ("C11", "-0 was handed to types as a signed number, 0 as an unsigned one"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
commits = [l.split(" ", 1) for l in log.splitlines() if l.split(" ", 1)[1].startswith("fix:")]
assert len(commits) == len(FIXED), (len(commits), len(FIXED))
path = os.path.join(HERE, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
old["fixed"] = [f"fixed: property={p} {h} {w}" for (p, w), (h, _) in zip(FIXED, commits)]
open(path, "w").write(json.dumps(old, indent=1, ensure_ascii=False) + "\n")
