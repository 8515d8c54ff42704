"""spec/kana.json.gz: how every syllable is written in kana and read again. Not run by any check."""
import gzip, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core
boot.get()
from props import c23
rec = core.Rec()
d = c23.observe(rec)
with open('spec/kana.json.gz', 'wb') as f:
    with gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as g:
        g.write(json.dumps(d, ensure_ascii=False).encode())
print({k: len(v[0]) for k, v in d.items()}, rec.viol[:2])
