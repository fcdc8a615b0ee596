"""fills the generated sections of DESIGN.md from tools/DESIGN.tmpl"""
import sys, os, json, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import props
t = open(V + '/tools/DESIGN.tmpl').read()
o = ''
for k in sorted(props.PROPS):
    p = props.PROPS[k]
    o += '### %s %s\n%s\n\n*Units:* %s. *How:* %s *Over:* %s. *Why tests cannot:* %s' % (k, p['text']['title'], p['text']['statement'], ', '.join('units/%s.cpp' % u for u, _ in p['units']), p['note'], p['text']['quantifier']['text'], p['text']['why_tests_cant'])
    if p['assumptions']:
        o += ' *Assumes:* ' + '; '.join(p['assumptions']) + '.'
    if p['bounded']:
        o += ' *Bounded stand-ins:* ' + '; '.join(p['bounded']) + '.'
    o += '\n\n'
for d in props.NOT_APPLICABLE:
    o += '### %s %s (not applicable)\n%s\n\n' % (d['text']['id'], d['text']['title'], d['reason'])
s = '| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
R = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = m.split('/')[-2]
    d = json.load(open(m))
    s += '| %s | %s | %s | %s |\n' % (i, d['property'], d['needs'], R.get(i, 'not run'))
open(V + '/DESIGN.md', 'w').write(t.replace('@PROPS@', o).replace('@SEEDS@', s))
