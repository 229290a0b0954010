"""Rewrites the generated tables of DESIGN.md (between the markers) from props.py, MANIFEST.json and a detection record
(tools/detection.json: planted change -> properties whose checks report it)."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pz.props import PROPS

titles = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l)
    titles[d['id']] = d['title']
na = {x['property']: x['reason'] for x in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['not_applicable']}
det = json.load(open(os.path.join(HERE, 'tools', 'detection.json')))

rows = ['| planted change | property | needs, in order to manifest | reported by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
    n = os.path.basename(d)
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| `%s` | %s | %s | %s |' % (n, m['property'], m['needs'], ', '.join(det.get(n, [])) or '-'))
text = open(os.path.join(HERE, 'DESIGN.md')).read()


def put(mark, body):
    global text
    text = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % mark, lambda m: m.group(1) + body + '\n' + m.group(2), text, flags=re.S)


put('seeds', '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)
