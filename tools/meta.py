"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(pid, title, statement, over, text, why, files, mech, note, technique, state=(), observe=()):
    PROPS.append(dict(
        row=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                              hook_needed=None)),
        note=note, technique=technique))


exec(open(os.path.join(ROOT, 'tools', 'props.py'), encoding='utf8').read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['row']['title']) <= 80, p['row']['title']
        fh.write(json.dumps(p['row']) + '\n')
na = {n['property'] for n in NA}
man = dict(version=1, setup_cmd='bash bin/setup',
           checks=[dict(property=p['row']['id'], quick_cmd=f'bin/check {p["row"]["id"]} quick',
                        thorough_cmd=f'bin/check {p["row"]["id"]} thorough', technique=p['technique'],
                        level='model_checking', level_note=p['note']) for p in PROPS if p['row']['id'] not in na],
           not_applicable=NA,
           notes='TLA+ specifications in spec/, checked with TLC; the harness (harness/) binds them to the code: '
                 'instances and behaviours are generated (by TLC or at random from VERIF_SEED), run through the real '
                 'code, and the recorded traces are validated by TLC, which names the failing clauses. No hooks in /repo.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(PROPS), 'properties,', len(man['checks']), 'checks')
