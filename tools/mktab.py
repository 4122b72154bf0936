#!/usr/bin/env python3
"""Writes spec/SysTab.tla (attributes of the System symbols) from `driver attrs`
output on stdin. Run by hand at the pinned commit; the result is committed and
is part of the specification, checks never regenerate it."""
import sys, collections
g = collections.defaultdict(list)
for l in sys.stdin:
    n, a = l.rstrip('\n').split('\t')
    if not n.startswith('System`'): continue
    n = n[7:]
    if '`' in n: continue
    g[tuple(sorted(a.strip('[]').split()))].append(n)
out = ['-------------------------------- MODULE SysTab --------------------------------',
       '(* The System symbols, grouped by their attributes. *)',
       'EXTENDS Integers, Sequences, TLC', 'SysGroups == <<']
rows = []
for a, ns in sorted(g.items()):
    rows.append('  << {%s},\n     {%s} >>' % (', '.join('"%s"' % x for x in a), ', '.join('"%s"' % x for x in sorted(ns))))
out.append(',\n'.join(rows) + ' >>')
out.append('SysNames == TLCEval(UNION {SysGroups[i][2] : i \\in 1..Len(SysGroups)})')
out.append('SysAttr == TLCEval([n \\in SysNames |-> SysGroups[CHOOSE i \\in 1..Len(SysGroups) : n \\in SysGroups[i][2]][1]])')
out.append('=' * 77)
open('/verif/spec/SysTab.tla', 'w').write('\n'.join(out) + '\n')
