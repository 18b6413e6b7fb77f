#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json:  python3 -B tool/props.py  rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, state=state, observe=observe))


def N(id, title, statement, over, text, why, files, mechanism, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, reason=reason, state=(), observe=()))


exec(open(os.path.join(ROOT, 'tool', 'props_data.py')).read())


def main():
    PROPS.sort(key=lambda p: p['id'])
    lines = []
    checks, na = [], []
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert len({q['id'] for q in PROPS}) == len(PROPS)
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        for f in p['files']:
            assert os.path.exists('/repo/' + f), f
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['why'], 'anchors': a}))
        if 'reason' in p:
            na.append({'property': p['id'], 'reason': p['reason']})
        else:
            checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    open(os.path.join(ROOT, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks are static analyses of /repo\'s current sources; no hook is needed in /repo. See DESIGN.md.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
    try:
        import jsonschema
    except ImportError:
        return
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in lines:
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))


main()
