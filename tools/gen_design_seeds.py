#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 7) from seeded/*/meta.json; run by hand."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what a check did not see when the bug was planted, and what was added to it
LATER = {
    'c26-software-hash': '`software`', 'c16-window': '`counts`', 'c16-forwarded': '`decode-encode` with padding', 'c08-partial-reset': '`user*`',
    'c19-raw-type-kept': '`unstarted`', 'c07-eos-mark': '`user*`, empty reads', 'c05-lookahead': '`behind`', 'c24-known-buffer': '`texts`, `wide-values`',
    'c02-tid-cookie': '`tids-wide`', 'c26-integrity-clone': '`integrity`',
    'c22-abbreviate': '`format-wide`', 'c16-data-indication': '`headers`', 'c19-family-peek': '`family`', 'c25-swap-panic': 'hooks that replace their value',
    'c04-role': '`type-lists`', 'c18-cross-variant': '`lockstep-decoder`', 'c11-indication-relay': '`attr-headers`', 'c26-add-normalise': '`extended`',
    'c08-counter': '`received-marathon`', 'c28-data-log': '`headers`',
}
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), 'after adding ' + LATER[d] if d in LATER else 'yes'))
t = open(here + '/DESIGN.md').read()
a, b = t.index('<!-- seeds -->'), t.index('<!-- /seeds -->')
t = t[:a] + '<!-- seeds -->\n| seeded/ | by check | needs | caught |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + t[b:]
open(here + '/DESIGN.md', 'w').write(t)
