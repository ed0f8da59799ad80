#!/usr/bin/env python3
"""Writes the code tables of spec/Codes.tla (done once; the rows were then reviewed against DSP0134).

Input: harness output of the `X <table>` and `F 0 65535` cases.  Not run by any check: Codes.tla is the
specification, the checks compare the code with it."""
import json, re, sys

def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

out = []
for l in open(sys.argv[1]):
    o = json.loads(l)
    if o['op'] == 'X':
        name, rows = o['n'], o['r']
    elif o['op'] == 'F':
        name, rows = 'ProcessorFamily', o['r']
    else:
        continue
    rows = [(i, x) for i, x in enumerate(rows) if not re.search(r'\(', x[0])]
    body = ',\n     '.join('<<%d, %s, %s, %s>>' % (i, q(x[0]), q(x[1]), q(x[2])) for i, x in rows)
    out.append('T_%s == Table(<<\n     %s >>)\n' % (name, body))
sys.stdout.write('''------------------------------- MODULE Codes -------------------------------
(* The enumerations of the standard: code, meaning, text, alternate text.   *)
(* Characters outside ASCII are written <U+XXXX>.  Codes that are not in a  *)
(* table follow the rule of the table (module Enums).                       *)
EXTENDS Naturals, Sequences

Table(rows) == [c \\in {rows[i][1] : i \\in DOMAIN rows} |->
                  LET i == CHOOSE i \\in DOMAIN rows : rows[i][1] = c
                  IN <<rows[i][2], rows[i][3], rows[i][4]>>]

''' + '\n'.join(out) + '=============================================================================\n')
