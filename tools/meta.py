"""Source of properties.jsonl and MANIFEST.json (python3 tools/meta.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                  why_tests_cant=why, anchors={'files': files, 'mechanism': mechanism},
                  _technique=technique, _note=note, _level=level))


A = 'aksharamukha/'
MAIN = [A + 'transliterate.py', A + 'Convert.py', A + 'ConvertFix.py', A + 'PreProcess.py', A + 'PostProcess.py', A + 'GeneralMap.py', A + 'ScriptMap/']
exec(open(os.path.join(HERE, 'tools', 'props_meta.py'), encoding='utf-8').read())


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in have:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    m = {'version': 1,
         'setup_cmd': 'test -x /opt/venv/bin/python && /opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); import vlib.core, vlib.lang, vlib.rules"',
         'checks': [{'property': p['id'],
                     'quick_cmd': './check.sh ' + p['id'],
                     'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
                     'evidence_file': 'evidence/%s.json' % p['id'],
                     'technique': p['_technique'], 'level': p['_level'], 'level_note': p['_note']} for p in have],
         'not_applicable': [],
         'notes': 'The checks need no hooks in /repo: they observe the package through its public API, the '
                  'interpreter\'s audit events and its own process. /repo carries only fix: commits.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, ensure_ascii=False, indent=1)
        f.write('\n')
    print(len(have), 'properties')


main()
