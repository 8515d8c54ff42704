"""Fill in the lists of DESIGN.md: the fixes and the planted bugs.   (development only)"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = HERE + '/DESIGN.md'
s = open(p, encoding='utf-8').read()
fixed = json.load(open(HERE + '/known_findings.json', encoding='utf-8'))['fixed']
s = re.sub('(<!-- fixes -->\n).*?(<!-- /fixes -->)', lambda m: m[1] + ''.join(
    '* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 `\2` ', f) + '\n' for f in fixed) + m[2], s, flags=re.S)
rows = []
for d in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % d, encoding='utf-8'))
    rows.append('| %s: %s | %s | %s | %s |\n' % (d, m['what_it_breaks'], m['property'], m['needs'], 'no' if m.get('missed') else m['property']))
# the table may hold no blank or comment line inside
s = re.sub('(\\|---\\|---\\|---\\|---\\|\n).*?(\n<!-- /seeded -->)', lambda m: m[1] + ''.join(rows) + m[2], s, flags=re.S)
open(p, 'w', encoding='utf-8').write(s)
