"""C02: lossless round trip through romanization and other alphabetic schemes."""
from vlib import boot, core, laws, rules, trig


def run(ctx):
    boot.get()
    ctx.rule = ('distinct (law, source, target, text): a text whose conversion to the scheme and back was '
                'compared with the original')
    ss = [s for s in rules.covered() if rules.latin(s)]
    rng = core.rng('C02 plan')
    ctx.map('vlib.laws', 'hub_roundtrip',
            [(s, ctx.n(4000, 8000), 40, 90, r) for r in range(ctx.n(1, 20)) for s in ss])
    ps = [p for p in rules.pairs('rt') if rules.latin(p[0]) or rules.latin(p[1])]
    rng.shuffle(ps)
    ps = ps[:ctx.n(2600, len(ps))]
    ctx.map('vlib.laws', 'pair_roundtrip', [(s, t, ctx.n(80, 400), 0) for s, t in ps])
    trig.run_words(ctx, lambda k, s, t: k == 'r' and s in trig.LATIN)
    trig.run(ctx, lambda s, t, kw, x: s in trig.LATIN or t in trig.LATIN, 'ba')
    ctx.extra['schemes'] = len(ss)
    ctx.extra['pairs'] = len(ps)
    ctx.minimum = ctx.n(150000, 1000000)
