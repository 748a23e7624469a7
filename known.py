# -*- coding: utf-8 -*-
"""Known findings: specific inputs on which the code breaks a property.

known_findings.json is written by hand and never changed at run time."""
import json
import os
import env


def entries():
    with open(os.path.join(env.HERE, 'known_findings.json')) as fh:
        return json.load(fh)


def probe(prop):
    out = []
    for e in entries():
        if e.get('status') != 'open' or e['property'] != prop:
            continue
        try:
            ns = {}
            exec(e['probe'], ns)
            bad = ns['fails']()
        except Exception as ex:
            bad = False
        if bad:
            out.append('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    return out
