"""C22: every pair of scripts has its own rules."""
from vlib import boot, call, core, grid, trig


def pairs(rec, a):
    s, ts, want = a
    row = grid.table()['rows'][s]
    for t in ts:
        ref = row[t]
        now = grid.observe(rec, s, t, want)
        for nat in ('0', '1'):
            for i, b in enumerate(grid.blocks(s, t, want)):
                got = now[nat][i * 8:i * 8 + 8]
                rec.count['blocks'] += 1
                if got == ref[nat][b * 8:b * 8 + 8]:
                    rec.ok((s, t, nat, b))
                    continue
                text = '\n'.join(grid.block(s, b))
                rec.violation('the pair makes something else of the text', src=s, tgt=t, nativize=nat == '1', text=text,
                              got=call.tr(rec, s, t, text, nativize=nat == '1'), expected='text of digest ' + ref[nat][b * 8:b * 8 + 8])


def run(ctx):
    boot.get()
    want = [0, 1, 2] + list(grid.RULES) if ctx.quick else range(grid.BLOCKS)
    jobs = []
    for s in sorted(grid.table()['rows']):
        ts = grid.targets(s)
        jobs += [(s, ts[i:i + 24], list(want)) for i in range(0, len(ts), 24)]
    ctx.rule = 'distinct (source, target, nativize, block of %d lines) with the reference result' % grid.LINES
    ctx.map(__name__, 'pairs', jobs)
    trig.run(ctx, lambda s, t, kw, x: trig.plain(kw))
    ctx.extra['pairs'] = sum(len(ts) for _, ts, _ in jobs)
    ctx.minimum = ctx.n(250000, 500000)
