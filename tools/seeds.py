"""Rewrites the table of the planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GREW = {  # bugs which were missed at first -> what the check learnt
    "map-long-key": "texts which only differ far from their beginning or end, or have one checksum",
    "csv-bom": "first and last cells which other readers take for something else",
    "boolean-nameless": "spare parts without a name (found by mutation)",
    "autodetect-and-columns": "autodetected columns besides as many defined (found by mutation)",
    "predefined-parser-kept": "predefined names which are configured (found by mutation)",
    "index-closed-early": "every kind of index and input in the requests in flight",
    "json-deep-path": "paths to 100 levels", "json-record-size": "records of hundreds of kB", "error-quoted": "control characters in refused values",
    "route-cache-memory": "distinct and long requests", "compare-subtract": "extreme numbers", "route-regexp-shared": "typed twin routes",
    "relation-missing-parent": "holes in the match values", "noop-as-text": "values of mixed types", "eof-not-found": "files cut while serving",
    "csv-header-trim": "padded header names", "limit-preallocated": "huge maxima", "json-trailing": "cells near each parser's language",
    "float-comma-first": "cells near each parser's language", "xml-items-unchecked": "nested structures in the base configuration",
    "xml-object-many": "properties unsuited to the records", "index-version-older": "tampered versions",
    "json-empty-key": "empty keys in paths", "xml-property-fold": "names which differ by their case", "split-hundred": "lists of hundreds of items",
    "input-lstat": "inputs behind symbolic links", "wildcard-iterate-error": "every single read failing in turn", "string-cache": "long texts through every kind of parser",
}
rows = []
seeded = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, d, "meta.json")))
    rows.append((m["property"], d, m["needs"].split(". ")[0].rstrip("."), GREW.get(d, "")))
rows.sort()
table = "| check | planted bug | it takes | learnt from it |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in rows)
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n%s\n<!-- /seeds -->" % table, s)
open(p, "w").write(s)
print(len(rows), "planted bugs")
