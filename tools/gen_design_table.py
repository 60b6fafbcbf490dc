#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = {
    "c20-rabin-two-sessions": "alterations of the session alone",
    "c12-pub-equal-signs": "negated and reordered coefficients",
    "c10-length-lenient": "trailing bytes, doubled and prefixed signatures",
    "c22-error-leaks": "errors searched for secrets as well",
    "c18-rabin-timeout-skips-dealt": "law on episodes (complaint, timeout, bad or good justification)",
    "c22-rabin-reconstruct-few": "second reconstruct share of one node must not change the node",
    "c24-renew-cofactor": "renewal by a sharing whose constant commitment is moved by a torsion point",
    "c27-rabin-bad-dealer": "wrong justifications delivered before the restart",
    "c28-session-prefix": "messages signed by their author in another session",
    "c29-alternate-debug-share": "rendering of altered objects, `{:#?}` of every message view",
    "c02-marshal-short": "exact bytes required for unreduced scalars too (before: the residue)",
    "c04-small-order-mask": "encodings one byte away from small-order points",
    "c15-keystream-block": "law `long`: inputs and outputs up to 1 MiB",
    "c26-plaintext-index": "indices far out of range in the deal request",
}
rows = ["| planted bug | property | needs | caught by | strengthened for it |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | {m['property']} quick | {notes.get(d, '')} |")
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n".join(rows) + "\n" + b, s, flags=re.S)
open(p, "w").write(s)
