import bisect

DAYS = {'epoch': 0, '1999-12-31': 10956, '2000-02-28': 11015, '2000-02-29': 11016,
        '1900-02-28': -25510, '2019-12-31': 18261, '2020-02-28': 18320,
        '2100-02-28': 47540, '1700-02-28': -98558}
# beyond what nanoseconds can represent
FAR = {'0801-02-28': -426910, '1000-02-28': -354227, '1582-10-14': -141428,
       '2400-02-28': 157112, '2999-12-31': 376199, '9990-02-28': 2929303}
RES = ['Y', 'M', 'D', 'h', 'm', 's']


def dates(rng, unit, count, res):
    """Instants near the boundaries of calendar units."""
    lo = rng.choice(list(DAYS.values()) + [rng.randint(-90000, 90000)])
    if unit != 'ns' and rng.random() < .2:
        lo = rng.choice(list(FAR.values()))
    out = []
    span = rng.choice([0, 1, 2, 31, 40, 366, 800])
    for _ in range(count):
        day = lo + rng.choice([0, 0, span, rng.randint(0, span)])
        sec = rng.choice([0, 0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86340, 82800,
                          rng.randint(0, 86399)])
        nano = rng.choice([0, 0, 1, 999999999, 500000000, 1000, 1000000])
        # the instants must be representable in the unit
        if unit == 'D':
            sec = nano = 0
        elif unit == 'h':
            sec, nano = sec // 3600 * 3600, 0
        elif unit == 'm':
            sec, nano = sec // 60 * 60, 0
        elif unit == 's':
            nano = 0
        elif unit == 'ms':
            nano = nano // 10**6 * 10**6
        elif unit == 'us':
            nano = nano // 10**3 * 10**3
        out.append([day, sec, nano])
    out.sort()
    return out


def disturb(rng, rows):
    """Almost sorted input."""
    rows = list(rows)
    kind = rng.choice(['swap', 'move', 'reverse', 'shuffle', 'wrap'])
    n = len(rows)
    if n < 2:
        return rows
    a, b = rng.randrange(n), rng.randrange(n)
    if kind == 'swap':
        rows[a], rows[b] = rows[b], rows[a]
    elif kind == 'move':
        rows.insert(b, rows.pop(a))
    elif kind == 'reverse':
        rows.reverse()
    elif kind == 'wrap':
        rows = rows[a:] + rows[:a]
    else:
        rng.shuffle(rows)
    return rows


def limbs(value):
    value += 2**63
    return [value // 2**42, (value // 2**21) % 2**21, value % 2**21]


VALUES = [[0, 1, 2], [1, 10, 11], [-11, -2, 3], [9, 10, 100], [-1, 0, 1], [2, 30, 200],
          [5, 6, 7]]
LARGE = {
    'int64': [-2**63, -2**62, -1, 0, 2**62, 2**63 - 1],
    'uint64': [0, 1, 2**63 - 1, 2**62],
    'int32': [-2**31, -1, 0, 2**31 - 1],
    'uint32': [0, 2**31, 2**32 - 1],
    'int16': [-2**15, 0, 2**15 - 1], 'uint16': [0, 2**15, 2**16 - 1],
    'int8': [-128, -1, 0, 127], 'uint8': [0, 127, 128, 255],
}


def run(ctx):
    rng = ctx.rng
    ctx.model('MCPartitioning', consts=ctx.pick(
        dict(NKeys=2, NVals=2, MaxLen=5, DaySpan=2000),
        dict(NKeys=2, NVals=3, MaxLen=5, DaySpan=150000)), timeout=800)
    small = []
    for nkeys, nvals, maxlen in ctx.pick(
            [(1, 3, 4), (2, 2, 4), (3, 2, 3)], [(1, 4, 5), (2, 3, 4), (3, 2, 4)]):
        small += ctx.generate('MCPartitioning', consts=dict(
            NKeys=nkeys, NVals=nvals, MaxLen=maxlen, DaySpan=1))
    rng.shuffle(small)
    cases = []
    common = lambda: dict(  # noqa: E731
        delayed=rng.random() < .3, chunk=rng.choice([0, 1, 2, 3]), insert=False)
    for keys in small[:ctx.pick(2500, 12000)]:
        nkeys = len(keys[0])
        maps = [rng.choice(VALUES) for _ in range(nkeys)]
        maps = [m + [m[-1] + 5] for m in maps]
        rows = [[maps[k][v] for k, v in enumerate(key)] for key in keys]
        cases.append(dict(kind='seq', names=['a', 'b', 'c'][:nkeys], rows=rows,
                          values=rows, dtypes=[rng.choice(['int64', 'int64', 'int32', 'int16'])
                                               for _ in range(nkeys)], **common()))
    # longer sequences, boundary values of every type
    for _ in range(ctx.pick(600, 6000)):
        nkeys = rng.choice([1, 1, 2, 2, 3])
        dtypes = [rng.choice(list(LARGE)) for _ in range(nkeys)]
        if 'uint64' in dtypes:
            dtypes = ['uint64'] * nkeys
        n = rng.randint(1, 12)
        rows = sorted([rng.choice(LARGE[d]) for d in dtypes] for _ in range(n))
        if rng.random() < .4:
            rows = disturb(rng, rows)
        cases.append(dict(kind='limbs', names=['a', 'b', 'c'][:nkeys], values=rows,
                          rows=[sum((limbs(x) for x in r), []) for r in rows],
                          dtypes=dtypes, **common()))
    for _ in range(ctx.pick(2000, 20000)):
        unit = rng.choice(['D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ns'])
        res = rng.choice(RES)
        rows = dates(rng, unit, rng.randint(1, 14), res)
        if rng.random() < .35:
            rows = disturb(rng, rows)
        cases.append(dict(kind='date', rows=rows, unit=unit, res=res, **common()))
    # filed on disk
    inserts = []
    for case in rng.sample(cases, ctx.pick(240, 3000)):
        keys = len({str(k) for k in case['rows']})
        if keys <= 6:
            inserts.append(dict(case, insert=True, delayed=rng.random() < .4))
    cases += inserts
    done = ctx.drive('split', cases, timeout=850)
    ctx.judge('JudgeSplit', done, label='splits and insertions')
