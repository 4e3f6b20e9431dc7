#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {'prefixed-id': 'missed at first; attributes whose local name is id or type added',
         'dump-by-index': 'missed at first; writing is a whole iteration now',
         'name-case': 'missed at first; near-equal strings added',
         'trailing-dash': 'missed at first; near misses of ids added',
         'remembered-tier': 'missed at first; structural edits in histories added',
         'remembered-corpus': 'missed at first; objects given to other corpora between askings added',
         'remembered-choice': 'missed at first; documents changed between walks added',
         'stale-lookup': 'missed at first; objects that became what they are added',
         'idless-items': 'missed at first; documents without ids added',
         'part-context': 'missed at first; parts are now also encoded standing alone',
         'swapped-ids': 'missed at first; ids are now handed round among objects',
         'unsorted-referents': 'missed at first; attributes are now listed in any order',
         'reset-numbers': 'missed at first; alignments without reference attributes added',
         'empty-owner-table': 'missed at first; prefix tables of owners are now observed'}
rows = ['| planted | property | caught by | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    rows.append('| %s | %s | %s%s | %s |' % (d, m['property'], m.get('caught', m['property']), ' (%s)' % NOTES[d] if d in NOTES else '', m['needs'].replace('|', '\\|')))
p = H + '/DESIGN.md'
s = open(p).read()
i = s.index('(`VERIF_SEED=1`, quick):') + len('(`VERIF_SEED=1`, quick):')
open(p, 'w').write(s[:i] + '\n\n' + '\n'.join(rows) + '\n')
