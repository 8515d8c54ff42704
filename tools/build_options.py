"""Names of the pre and post processing options (spec/options.json)."""
import inspect, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot
boot.get()
from aksharamukha import PostProcess, PreProcess
out = {}
for k, m in (('post', PostProcess), ('pre', PreProcess)):
    out[k] = []
    out[k + '_helpers'] = []
    for n, f in inspect.getmembers(m, inspect.isfunction):
        p = list(inspect.signature(f).parameters.values())
        need = [x for x in p if x.default is x.empty]
        ok = len(need) == 1
        if f.__module__ != m.__name__:
            continue
        out[k if ok else k + '_helpers'].append(n)
json.dump(out, open('spec/options.json', 'w'), indent=0, ensure_ascii=False)
print({k: len(v) for k, v in out.items()}, out['post_helpers'], out['pre_helpers'])
