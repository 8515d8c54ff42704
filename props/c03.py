"""C03: path independence."""
from vlib import boot, core, laws, rules, trig


def run(ctx):
    boot.get()
    ctx.rule = ('distinct (law, source, target, word): a word converted to the target both from the source '
                'script and from Devanagari, the two results compared')
    rng = core.rng('C03 plan')
    ps = rules.pairs('path')
    rng.shuffle(ps)
    ps = ps[:ctx.n(9000, len(ps))]
    ctx.map('vlib.laws', 'path', [(s, t, ctx.n(50, 250), 2, 0) for s, t in ps])
    trig.run_words(ctx, lambda k, s, t: k == 'p')
    trig.run(ctx, lambda s, t, kw, x: True, 'h')
    ctx.extra['pairs'] = len(ps)
    ctx.minimum = ctx.n(200000, 2000000)
