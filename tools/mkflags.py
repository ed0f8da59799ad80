#!/usr/bin/env python3
"""Writes spec/FlagTables.tla (done once; rows reviewed against DSP0134). Not run by any check."""
import json, sys

def q(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

names = {'bios_characteristics': 'BiosCharacteristics', 'bios_characteristics_exttension_1': 'BiosExtension1',
         'bios_characteristics_exttension_2': 'BiosExtension2', 'slot1': 'SlotCharacteristics1',
         'slot2': 'SlotCharacteristics2', 'status': 'LogStatus', 'post': 'PostResults', 'flags': 'LanguageFlags'}
out = []
for l in open(sys.argv[1]):
    o = json.loads(l)
    ws = o['ev'][0]['w'] if o['op'] == 'T' else {o['n']: o['w']}
    for n, w in ws.items():
        rows = ['Sig(%s, %s)' % (q(f['a']), q(f['b'])) if f['k'] == 'Significant' else 'Res(%s)' % q(f['a']) for f in w['all']]
        out.append('F_%s == <<\n  %s >>\n' % (names[n], ',\n  '.join(rows)))
print('''----------------------------- MODULE FlagTables -----------------------------
(* Bit-field layouts of the standard: one entry per bit, from bit 0.        *)
(* Sig(short, long): a flag with a meaning;  Res(note): a reserved position.    *)
Sig(short, long) == <<"Significant", short, long>>
Res(note) == <<"Reserved", note, "">>
Unk == <<"Unknown", "", "">>

''' + '\n'.join(out) + '=============================================================================')
