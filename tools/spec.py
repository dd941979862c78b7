"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
R = 'heat_load_calc/'


def at(f):
    """place in the repository; '../' leaves the package"""
    return f[3:] if f.startswith('../') else R + f


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, level='model_checking', na=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
         'anchors': {'files': [at(f) for f in files], 'mechanism': [{'name': n, 'where': at(w)} for n, w in mech], 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': at(w)} for n, m, w in state]
    P.append((d, technique, note, level, na))


def main():
    assert len({d['id'] for d, *_ in P}) == len(P)
    P.sort(key=lambda p: p[0]['id'])
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for d, *_ in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks, na = [], []
    for d, technique, note, level, reason in P:
        i = d['id']
        if not os.path.exists('%s/checks/%s.py' % (ROOT, i.lower())):
            reason = reason or 'no check has been built for it yet'
        if reason:
            na.append({'property': i, 'reason': reason})
            continue
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i.lower(), 'thorough_cmd': './run.sh %s thorough' % i.lower(),
                       'evidence_file': 'evidence/%s.json' % i, 'technique': technique, 'level': level, 'level_note': note})
    m = {'version': 1, 'setup_cmd': './run.sh selftest',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: every check imports the code of /repo as it is and drives its real functions. Findings: KNOWN_FINDINGS.txt.'}
    with open(ROOT + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    import sys
    sys.path.insert(0, ROOT)
    from tools import props_core, props_init, props_convert
    for mod in (props_core, props_init, props_convert):
        mod.define(prop)
    main()
