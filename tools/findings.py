#!/usr/bin/env python3
"""Rewrites known_findings.jsonl from this list (run by hand; no check runs it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "Word movements stop": "P09", "Markdown export of fragments keeps": "P16", "Reads through a cursor take": "P20", "NextWord crosses": "P09",
 "An explicit cell range beyond": "P07", "A cursor made beyond the end": "P07",
 "Lists can be made in quotes": "P25", "Markers of very high": "P25",  # fix commit subject (start) -> property
 "redo of structural edits": "P01", "inserting an empty formatted": "P05", "redo of typing merged": "P01",
 "keep stored block positions": "P05", "HTML, Markdown and LaTeX exports": "P15", "a list item added by insert_list": "P25",
 "character and block counters": "P05", "block positions follow": "P05", "deletions across tables": "P05",
 "failed and cancelled long": "P22", "the event loop no longer": "P18", "Markdown and HTML imports clear": "P02",
 "imports remove the tables": "P05", "replacing a block's text": "P05", "splitting a block in a table": "P05",
 "deletions across blocks no longer": "P05", "a table inserted from any": "P05", "the block of an inserted": "P05",
 "an empty first block": "P05", "removing a table keeps": "P05", "blocks return to flow": "P05", "removing the only": "P05",
 "cursors left behind": "P08", "a table row or column": "P24", "redo of a table removal": "P01",
 "an edit that fails after": "P03", "every change of undo": "P02", "a deletion keeps a nested": "P05",
 "deleting across a table inside": "P05", "cells are not merged": "P05", "pasting a table keeps": "P05",
 "a cursor at the end of a block": "P09", "set_block_format without": "P10", "insert_formatted_text leaves": "P10",
 "merge_selected_cells takes": "P24", "blocks_in_range does": "P06", "case-insensitive search": "P12",
 "replace_text does not": "P12", "searching and replacing use": "P12", "to_plain_text lists": "P06",
 "HTML import keeps text": "P15", "Markdown export escapes": "P16", "HTML export escapes the background": "P15",
 "HTML import rounds": "P15", "HTML export keeps adjacent": "P15", "a table imported behind": "P05",
 "Markdown export keeps nested": "P16", "HTML and LaTeX export keep": "P15", "Markdown export fences": "P16", "HTML import fills up": "P15",
 "A dropped subscription": "P18", "ModificationChanged is": "P19", "Undo and redo announce": "P19", "Delete and Backspace stop": "P11",
 "Creating and inserting lists": "P19", "Replacing a selection by text": "P19", "Inserting a fragment announces": "P19",
 "Imports and exports in": "P20", "Pasted blocks and frames": "P11", "Cursors and consumers follow": "P19",
 "Copying takes every block once": "P17", "Fragments keep code blocks": "P17", "Pasting keeps the format of": "P17", "A pasted table stays": "P17", "Pasting a table into cells": "P17",
 "Edits take place where": "P20",  "Beginning an edit block": "P28", "Pasting cells into cells": "P19", "Undo and redo wait": "P28", "Clearing the history clears": "P28", "A composite ": "P28",
 "Undo and redo set": "P26", "A name stands": "P26", "A highlight span": "P23", "Highlighting follows": "P23",
 "DOCX export": "P30", "LaTeX export keeps": "P30", "LaTeX export takes": "P30", "LaTeX export writes": "P30",
 "Delete and Backspace wait": "P20",
 "the snapshot of a nested": "P06", "find_element_at_position": "P06",
}
exec(open(os.path.join(ROOT, "tools", "findings_more.py")).read())
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    m = [p for k, p in PROP.items() if s.startswith(k)]
    assert len(m) == 1, s
    out.append({"property": m[0], "status": "fixed", "commit": h, "what": f"fixed: property={m[0]} {h} {s}"})
for k in KNOWN:
    out.append({"property": k[0], "status": "known", "sig": k[1], "what": k[2]})
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out))
