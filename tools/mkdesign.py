"""Tables of DESIGN.md (between markers) from seeded/ and known_findings.jsonl."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(f'{ROOT}/DESIGN.md', encoding='utf8').read()
notes = json.load(open(f'{ROOT}/tools/seednotes.json'))
rows = ['| bug | property | needs | breaks | caught by; strengthened |', '|---|---|---|---|---|']
for f in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m, i = json.load(open(f)), f.split('/')[-2]
    rows.append(f'| {i} | {m["property"]} | {m["needs"]} | {m["what_it_breaks"]} | {notes.get(i, m["property"])} |')
fixed = [json.loads(x) for x in open(f'{ROOT}/known_findings.jsonl')]
frows = [f'* {e["property"]} `{e["commit"]}` {e["what"]}' for e in fixed if e['status'] == 'fixed']


def put(d, name, text):
    return re.sub(f'<!-- {name} -->.*?<!-- /{name} -->', lambda _: f'<!-- {name} -->\n{text}\n<!-- /{name} -->', d, flags=re.S)


d = put(put(d, 'seeded', '\n'.join(rows)), 'fixed', '\n'.join(frows))
open(f'{ROOT}/DESIGN.md', 'w', encoding='utf8').write(d)
