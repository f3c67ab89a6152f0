UNITS = ['ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W', 'M', 'Y']


def run(ctx):
    n = ctx.pick(5, 7)
    ctx.model('MCPeriod', consts={'N': ctx.pick(6, 9)})
    pairs = ctx.generate('MCPeriod', consts={'N': n})
    cases = []
    for k, (a, b, c, d) in enumerate(pairs):
        unit = UNITS[(k + ctx.seed) % len(UNITS)]
        for x in (range(-1, n + 2) if ctx.thorough else
                  {a - 1, a, b, b + 1, ctx.rng.randint(-1, n + 1)}):
            cases.append(dict(p=[a, b], q=[c, d], x=x,
                              d=ctx.rng.choice([0, 1, 2, 5]), ds=ctx.rng.choice([-7, -1, 0, 1, 3]), unit=unit,
                              origin=ctx.rng.choice([0, -3, 50, 1970]),
                              coarse=unit in ('s', 'm', 'h') and ctx.rng.random() < .5,
                              within=[ctx.rng.random() < .5, ctx.rng.random() < .5]))
    # far apart or long periods
    for _ in range(ctx.pick(400, 3000)):
        a, c = ctx.rng.randint(0, 400), ctx.rng.randint(0, 400)
        p = [a, a + ctx.rng.choice([0, 1, 7, 60, 300])]
        q = [c, c + ctx.rng.choice([0, 1, 7, 60, 300])]
        if ctx.rng.random() < .4:
            q[1] = max(q[0], ctx.rng.choice([p[0] - 1, p[0], p[1], p[1] + 1]))
        cases.append(dict(p=p, q=q, x=ctx.rng.choice([p[0], p[1], p[1] + 1, q[0]]),
                          d=ctx.rng.randint(0, 100), ds=ctx.rng.randint(-100, 100), unit=ctx.rng.choice(UNITS),
                          origin=ctx.rng.choice([0, -300, 1000]),
                          within=[ctx.rng.random() < .5, ctx.rng.random() < .5]))
    done = ctx.drive('period', cases, nproc=4)
    ctx.judge('JudgePeriod', done, label='all pairs of periods')
