"""Genuine defects recorded in known_findings.json: each is run again, and
announced for as long as the named input still fails. They suppress nothing
else: the workloads leave these exact inputs out."""
import json
import os
from . import boot, core


def entries(pid):
    with open(os.path.join(core.HERE, 'known_findings.json'), encoding='utf-8') as f:
        return [e for e in json.load(f)['findings'] if e['property'] == pid]


def fails(e):
    T = boot.get()

    def tr(text, **kw):
        k = {'nativize': False}
        k.update(e.get('kw', {}))
        return T.process(e['src'], e['tgt'], text, **k)
    try:
        if e['kind'] == 'parts':
            return tr(''.join(e['parts'])) != ''.join(tr(p) if p.strip() else p for p in e['parts'])
        if e['kind'] == 'raises':
            tr(e['text'])
            return False
        return tr(e['text']) != e['expected']
    except boot.NetworkAttempt:
        return False
    except Exception:
        return True


def announce(ctx):
    for e in entries(ctx.pid):
        if fails(e):
            ctx.findings.append('%s (%s to %s, input %s)' % (e['what'], e['src'], e['tgt'], ascii(e.get('text') or ''.join(e['parts']))))
