"""Write an instrumented copy of the package (development only): every .replace and re.sub call reports
the rule it applies (its place and first argument) when it is reached, and when it first changes a text.
usage: instrument.py DEST"""
import ast, os, shutil, sys
src, dst = '/repo', sys.argv[1]
shutil.rmtree(dst, ignore_errors=True)
shutil.copytree(src, dst, symlinks=True)
P = dst + '/aksharamukha/'
open(P + '_cov.py', 'w').write('''
FIRED = set()      # (site, argument) that changed a text
NEW = []
REACHED = {}       # (site, argument) -> 1
def _note(key, changed):
    if key not in REACHED:
        REACHED[key] = 1
    if changed and key not in FIRED:
        FIRED.add(key); NEW.append(key)
def rep(site, s, *a, **k):
    r = s.replace(*a, **k)
    if isinstance(s, str):
        _note((site, a[0]), r != s)
    return r
def sub(site, mod, *a, **k):
    r = mod.sub(*a, **k)
    s = a[2] if len(a) > 2 else k.get('string')
    _note((site, a[0]), r != s)
    return r
''')
class V(ast.NodeTransformer):
    def __init__(self, f):
        self.f, self.fn = f, []
    def visit_FunctionDef(self, n):
        self.fn.append(n.name); self.generic_visit(n); self.fn.pop(); return n
    def visit_Call(self, n):
        line, col = n.lineno, n.end_col_offset
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('replace', 'sub') and self.fn:
            site = '%s:%s:%d:%d:%s' % (self.f, self.fn[-1], line, col, n.func.attr)
            h = 'rep' if n.func.attr == 'replace' else 'sub'
            SITES.append(site)
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_cov', ast.Load()), h, ast.Load()), [ast.Constant(site), n.func.value] + n.args, n.keywords), n)
        return n
SITES = []
for f in ('PostProcess.py', 'PreProcess.py', 'ConvertFix.py', 'transliterate.py'):
    t = ast.parse(open(P + f, encoding='utf-8').read())
    V(f).visit(t)
    t.body.insert(0, ast.parse('from aksharamukha import _cov').body[0])
    ast.fix_missing_locations(t)
    open(P + f, 'w', encoding='utf-8').write(ast.unparse(t))
open(P + '_sites.txt', 'w').write('\n'.join(SITES) + '\n')
print(len(SITES))
