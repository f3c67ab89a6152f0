UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D']


def rows(dates, tag):
    out = []
    for k, d in enumerate(dates):
        x = tag + k + 1
        out.append([d, x, 2 * x, 2 * x + 1, 3 * x, 3 * x + 1])
    return out


def run(ctx):
    rng = ctx.rng
    ctx.model('MCTimeSeriesMerge', consts=ctx.pick(
        dict(N=4, MaxLen=3, MaxTol=2), dict(N=6, MaxLen=3, MaxTol=3)), timeout=800)
    pairs = ctx.generate('MCTimeSeriesMerge',
                         consts=dict(N=5, MaxLen=ctx.pick(3, 4), MaxTol=0), timeout=800)
    if len(pairs) > ctx.pick(7000, 40000):
        pairs = rng.sample(pairs, ctx.pick(7000, 40000))
    cases = []
    for old, new in pairs:
        tols = [-1, rng.choice([0, 1, 2, 3])]
        if len(new) == 1:
            tols = [rng.choice([-1, -1, 0, 2])]
        for tol in tols:
            cases.append(dict(old=rows(old, 0), new=rows(new, 100), tol=tol,
                              unit=rng.choice(UNITS), delayed=rng.random() < .06,
                              origin=rng.choice([0, 7, 4000, -50]),
                              scale=rng.choice([1, 1, 1, 10])))
    # longer series, several gaps
    for _ in range(ctx.pick(500, 5000)):
        hi = rng.choice([8, 15, 40])
        old = sorted(rng.randint(0, hi) for _ in range(rng.randint(1, 12)))
        new = sorted(rng.randint(0, hi) for _ in range(rng.randint(1, 12)))
        cases.append(dict(old=rows(old, 0), new=rows(new, 100),
                          tol=rng.choice([-1, 0, 1, 2, 3, 5]),
                          unit=rng.choice(UNITS), delayed=rng.random() < .1,
                          origin=rng.choice([0, 7, 4000, -50]),
                          scale=rng.choice([1, 1, 10])))
    done = ctx.drive('merge', cases)
    ctx.judge('JudgeMerge', done, label='merges')
