"""C01: lossless round trip between Indic scripts."""
from vlib import boot, core, laws, rules, trig
from vlib.laws import hub_roundtrip, pair_roundtrip  # noqa: F401  (run by name in workers)


def run(ctx):
    boot.get()
    ctx.rule = ('distinct (law, source, target, text): a word of the source script whose conversion to the '
                'target and back was compared with the original')
    ss = [s for s in rules.covered() if not rules.latin(s)]
    rng = core.rng('C01 plan')
    reps = ctx.n(1, 12)
    ctx.map('vlib.laws', 'hub_roundtrip',
            [(s, ctx.n(1500, 6000), 25, 60, r) for r in range(reps) for s in ss])
    ps = [p for p in rules.pairs('rt') if not rules.latin(p[0]) and not rules.latin(p[1])]
    rng.shuffle(ps)
    ps = ps[:ctx.n(2600, len(ps))]
    ctx.map('vlib.laws', 'pair_roundtrip', [(s, t, ctx.n(60, 400), 0) for s, t in ps])
    trig.run_words(ctx, lambda k, s, t: k == 'r' and s in trig.INDIC)
    trig.run(ctx, lambda s, t, kw, x: s in trig.INDIC and t in trig.INDIC, 'b')
    ctx.extra['scripts'] = len(ss)
    ctx.extra['pairs'] = len(ps)
    ctx.minimum = ctx.n(150000, 1000000)
