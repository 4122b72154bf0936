#!/usr/bin/env python3
"""Writes spec/Prelude.tla (definitions that the library makes in the language
itself) from `driver prelude` output on stdin. Run by hand at the pinned commit;
the result is committed and is part of the specification, checks never
regenerate it: a change to the library that alters what one of these functions
computes disagrees with the committed definition."""
import sys, json, os
NAMES = """AddTo AllTrue AppendTo Block Boole ClearAll ClearAttributes ConstantArray Count Decrement
Distribute Element EulerPhi EvenQ Fibonacci First FixedPointList Fold FoldList For FreeQ FromDigits Identity Increment
IntegerDigits IntegerQ LCM Last ListQ Mean MinMax Multinomial Negative Nest NestWhile Not OddQ PowerMod PreDecrement
PreIncrement PrependTo Protect Quiet ReplacePart Rest SetAttributes Sign StringJoin SubtractFrom Table
Take Tally Total Tuples Unprotect Positive PossibleZeroQ Begin End BeginPackage EndPackage ToString Abs""".split()
OWN = "$ModuleNumber $Line $Version I $Context $ContextPath".split()
def tl(t):
    if isinstance(t, list): return '<<' + ', '.join(tl(x) for x in t) + '>>'
    if isinstance(t, str):
        return '"' + t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
    return str(t)
rules, own = {}, {}
for l in sys.stdin:
    n, rs = json.loads(l)
    if n in OWN:
        own[n] = rs[0][1]
    if n in NAMES:
        rules[n] = rs
missing = [n for n in NAMES if n not in rules] + [n for n in OWN if n not in own]
if missing: sys.exit('missing %s' % missing)
o = ['------------------------------- MODULE Prelude -------------------------------',
     '(* The definitions of library functions made in the language itself: for    *)',
     '(* each name its rules, <<left side, right side>>, in the order of trial.    *)',
     'EXTENDS Integers, Sequences, TLC', 'PreRules ==']
o.append(' @@\n'.join('  ("%s" :>\n    <<%s>>)' % (n, ',\n      '.join('<<%s,\n        %s>>' % (tl(a), tl(b)) for a, b in rules[n])) for n in sorted(rules)))
o.append('PreOwn ==')
o.append(' @@ '.join('("%s" :> <<%s>>)' % (n, tl(own[n])) for n in sorted(own)))
o.append('=' * 77)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../spec/Prelude.tla'), 'w').write('\n'.join(o) + '\n')
