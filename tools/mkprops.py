#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
T = 'src/bin_xml_types.cpp'; U = 'src/utils.cpp'; X = 'src/bin_xml.cpp'; C = 'src/bin_xml_creator.cpp'; K = 'src/bin_xml_packer.cpp'; W = 'src/bin_write_plugin.cpp'; J = 'src/bin_json_plugin.cpp'; N = 'src/missings.cpp'
exec(open(os.path.join(V, 'tools', 'props.txt')).read())
assert len({d['id'] for d in P}) == len(P)
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(d) + '\n' for d in P))
print(len(P), 'properties')
