"""Declarations and keys: generation, execution, judgement."""
import datetime

UNITS = ['year', 'month', 'day', 'hour', 'minute', 'second']
DATE_DTYPES = ['uint16', 'uint8', 'uint8', 'uint8', 'uint8', 'uint8']
INTS = {f'{u}int{n}': (0 if u else -2**(n - 1), 2**(n - (not u)) - 1)
        for u in ('', 'u') for n in (8, 16, 32, 64)}
BASES = ['c', 'a=7/b=12', 'year=2020/month=01', 'x y', 'k=1', 'é/b', 'a.b', '.hidden/c',
         'a=-3']  # not glob characters: fsspec expands them
NAMES = ['a', 'b', 'cycle', 'pass_number', 'a.b', 'n(1)', 'a+b', 'ba', 'x y', 'é', 'k-1', 'A']
TEXTS = ['', 'm', 'état', 'a"b\\c', 'line\nbreak', '0', 'null', '{}']


def key(rng):
    if rng.random() < .5:
        n = rng.randint(1, 6)
        year = rng.choice([rng.randint(1, 9999), rng.randint(1950, 2040), 1, 999, 1000, 9999])
        month = rng.choice([1, 2, 12, rng.randint(1, 12)])
        last = (datetime.date(year + month // 12, month % 12 + 1, 1)
                - datetime.timedelta(1)).day if (year, month) != (9999, 12) else 31
        fields = [year, month, rng.choice([1, last, rng.randint(1, last)]),
                  rng.choice([0, 23, rng.randint(0, 23)]), rng.choice([0, 59, rng.randint(0, 59)]),
                  rng.choice([0, 59, rng.randint(0, 59)])]
        inner = datetime.datetime(*fields, rng.choice([0, 1, 999999]))
        res = 'YMDhms'[n - 1]
        unit = rng.choice([u for u in ('Y', 'M', 'D', 'h', 'm', 's', 'ms', 'us')
                           if ['Y', 'M', 'D', 'h', 'm', 's', 'ms', 'us'].index(u) >= n - 1])
        return {'kind': 'key', 'scheme': 'date', 'res': res, 'names': UNITS[:n],
                'key': fields[:n], 'inner': inner.isoformat(), 'unit': unit,
                'dtypes': DATE_DTYPES[:n], 'give': True, 'base': rng.choice(BASES),
                'alien': rng.choice(['', 'x', 'year=', 'year=20a', 'month=01', '/year=2020/x'])}
    names = rng.sample(NAMES, rng.randint(1, 4))
    give = rng.random() < .7
    dtypes = [rng.choice(sorted(INTS)) if give else 'int64' for _ in names]
    if 'uint64' in dtypes:  # mixing it with signed integers makes floats, which are refused
        dtypes = ['uint64' if d.startswith('int') else d for d in dtypes]
    values = []
    for d in dtypes:
        lo, hi = INTS[d]
        values.append(str(rng.choice([lo, hi, 0, max(lo, -1), 1, 9, 10, rng.randint(lo, hi)])))
    alien = rng.choice(['', 'zz', names[0], f'{names[0]}=', f'{names[0]}=x', f'zz={values[0]}/q'])
    return {'kind': 'key', 'scheme': 'seq', 'names': names, 'key': values, 'dtypes': dtypes,
            'give': give, 'base': rng.choice(BASES), 'alien': alien}


def attr_value(rng, deep=0):
    kinds = ['text', 'int', 'float', 'bool', 'null', 'np', 'nparray', 'special']
    if deep < 2:
        kinds += ['list', 'dict', 'tuple']
    kind = rng.choice(kinds)
    if kind == 'text':
        return rng.choice(TEXTS)
    if kind == 'int':
        return rng.choice([0, -1, 2**31, -2**63, 2**64 - 1, rng.randint(-99, 99)])
    if kind == 'float':
        return rng.choice([0.1, -1e300, 5e-324, 1.0, rng.random()])
    if kind == 'special':
        return {'float': rng.choice(['nan', 'inf', '-inf'])} if not deep else 1
    if kind == 'bool':
        return rng.random() < .5
    if kind == 'null':
        return None
    if kind == 'np':
        return {'np': rng.choice(['int8', 'float32', 'uint64', 'float64', 'bool']),
                'v': rng.choice([0, 1, 7])} if not deep else 3
    if kind == 'nparray':
        return {'np': rng.choice(['int16', 'float64']), 'v': [[1, 2], [3, 4]]} if not deep else 4
    if kind == 'list':
        return [attr_value(rng, 2) for _ in range(rng.randint(0, 3))]
    if kind == 'tuple':
        return {'tuple': [attr_value(rng, 2) for _ in range(rng.randint(0, 3))]} if not deep else []
    return {rng.choice(['a', 'b c', 'é']): attr_value(rng, 2) for _ in range(rng.randint(0, 2))}


def attrs(rng):
    names = rng.sample(['units', 'long_name', 'valid_min', 'flag values', 'é', '_x', 'A', 'scale'],
                       rng.randint(0, 4))
    return [[n, attr_value(rng)] for n in names]


def var(rng, name, dims):
    dtype = rng.choice(['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64',
                        'float32', 'float64', 'bool', 'M8[ns]', 'M8[s]', 'M8[D]', 'm8[ms]',
                        'm8[ns]', '>i4', '>f8', 'S4', 'U3', 'float16', 'complex64'])
    fill, filters = None, []
    kind = {'M8': 'M', 'm8': 'm', '>i': 'i', '>f': 'f'}.get(dtype[:2], dtype[0])
    if rng.random() < .6:
        fill = {'i': lambda: rng.choice([0, 1, 127, -1]),
                'u': lambda: rng.choice([0, 1, 255]),
                'f': lambda: rng.choice([0, -1, 'nan', 'inf', '-inf', 1.5]),
                'b': lambda: rng.random() < .5,
                'M': lambda: rng.choice([0, 'NaT', 10**6, -3]),
                'm': lambda: rng.choice([0, 'NaT', 17]),
                'S': lambda: rng.choice(['', 'ab', 'zzzz']),
                'U': lambda: rng.choice(['', 'ab', 'é']),
                'c': lambda: rng.choice(['0', '1+2j'])}[kind]()
    if rng.random() < .35:
        if kind in 'iu':
            filters = rng.choice([['delta'], ['shuffle'], ['delta', 'crc'], ['crc']])
        elif kind == 'f':
            filters = rng.choice([['scale'], ['shuffle'], ['adler']])
        elif kind == 'b':
            filters = ['packbits']
    if not dims:
        filters = []
    return {'name': name, 'dtype': dtype, 'dims': list(dims), 'attrs': attrs(rng), 'fill': fill,
            'compressor': rng.choice([None, None, 'zlib1', 'zlib9', 'gzip', 'bz2', 'lzma', 'zstd',
                                      'lz4', 'blosc', 'blosc2']), 'filters': filters,
            'data': rng.random() < .4}


def decl(rng):
    dim = rng.choice(['num', 'time', 'n lines'])
    others = rng.sample(['x', 'y', 'a=b', 'Z'], rng.randint(0, 2))
    shapes = [(dim, )] + [(dim, o) for o in others] + [(o, dim) for o in others] \
        + [(o, ) for o in others] + [()] + ([tuple(others) + (dim, )] if len(others) > 1 else [])
    date = rng.random() < .5
    plain = {'attrs': [], 'fill': None, 'compressor': None, 'filters': []}
    if date:
        axis = 'time'
        n = rng.randint(1, 6)
        part = {'kind': 'date', 'names': ['time'], 'res': 'YMDhms'[n - 1], 'give': True,
                'keys': UNITS[:n], 'dtypes': DATE_DTYPES[:n]}
        vars_ = [{**plain, 'name': 'time', 'dims': [dim],
                  'dtype': f'M8[{rng.choice(["s", "ms", "us", "ns"])}]', 'attrs': attrs(rng)}]
    else:
        names = rng.sample(NAMES, rng.randint(1, 3))
        dtype = rng.choice(sorted(INTS))
        part = {'kind': 'seq', 'names': names, 'keys': names, 'give': rng.random() < .7,
                'dtypes': [dtype] * len(names)}
        if not part['give']:
            part['dtypes'] = ['int64'] * len(names)
        axis = rng.choice(names + ['time'])
        vars_ = [{**plain, 'name': n, 'dims': [dim], 'dtype': rng.choice(
            ['int64', 'int32', dtype] if dtype != 'uint64' else [dtype]), 'attrs': attrs(rng)}
            for n in names]
        if dtype == 'uint64':
            for v in vars_:
                v['dtype'] = 'uint64'
        if axis == 'time':
            vars_.append({**plain, 'name': 'time', 'dims': [dim], 'dtype': 'int64'})
    first = len(vars_)
    for k in range(rng.randint(0, 4)):
        vars_.append(var(rng, f'v{k}', rng.choice(shapes)))
    if rng.random() < .3:
        rng.shuffle(vars_)
    used = [d for v in vars_ for d in v['dims']]
    chunks = [[d, rng.choice([1, 2, 100, -1])] for d in set([dim] + others)
              if rng.random() < .4 and d in used]
    known = [v['name'] for v in vars_]
    steps = [{'op': 'create'}]
    for k in range(rng.randint(1, 6)):
        op = rng.choice(['add', 'add', 'drop', 'reopen', 'insert', 'copy', 'vcreate', 'vadd',
                         'vadd', 'vdrop', 'vfilter', 'refused'])
        if op in ('add', 'vadd'):
            name = rng.choice([f'm{k}', f'm{k}', f'm{k}', rng.choice(known)])
            if op == 'vadd':
                name = rng.choice([f'w{k}', f'w{k}', 'w0', rng.choice(known)])
            shape = rng.choice(shapes) if rng.random() < .2 else rng.choice(vars_)['dims']
            if op == 'vadd' and dim not in shape:
                continue
            if op == 'vadd' and name in known and not name.startswith('w'):
                name = rng.choice([v['name'] for v in vars_[:first]] or [name])
            steps.append({'op': op, 'given': var(rng, name, shape)})
        elif op in ('drop', 'vdrop'):
            pool = known if op == 'drop' else ['w0', 'w1', 'w2', 'w3', 'w4']
            steps.append({'op': op, 'name': rng.choice(pool + ['stranger', f'm{k - 1}'])})
        elif op == 'insert':
            steps.append({'op': op, 'delayed': rng.random() < .5})
        elif op == 'vcreate':
            if not any(s['op'] == 'vcreate' for s in steps):
                steps.append({'op': op, 'filter': view_filter(rng, part)})
        elif op == 'refused':
            steps.append({'op': op, 'what': rng.choice(
                ['recreate', 'recreate', 'vrecreate', 'lost', 'vlost', 'mode'])})
        elif op == 'vfilter':
            steps.append({'op': op, 'filter': view_filter(rng, part, .0)})
        else:
            steps.append({'op': op})
    return {'kind': 'decl', 'axis': axis, 'dim': dim, 'part': part, 'vars': vars_,
            'sizes': {d: rng.randint(1, 3) for d in others}, 'chunks': chunks,
            'block': rng.choice([None, 1000, 10**6, 2**31]), 'attrs': attrs(rng),
            'how': rng.choice(['meta', 'eager', 'delayed']), 'steps': steps, 'lazy': rng.random() < .5,
            'fs': rng.choice(['file', 'file', 'memory']), 'base': rng.choice(BASES)}


def view_filter(rng, part, none=.3):
    name = part['keys'][0]
    if rng.random() < none:
        return 'none'
    if rng.random() < .3 or not name.isidentifier():
        return rng.choice(['func:select_even', 'func:select_any'])
    return rng.choice([f'{name} > 3', f'{name} == {name} and not {name} < 0', f'{name} in (1, 2)'])


def run(ctx, nkeys, ndecl):
    rng = ctx.rng
    done = ctx.drive('zdecl', [key(rng) for _ in range(nkeys)], nproc=2)
    ctx.judge('JudgeDeclaration', done, label='partition keys')
    done = ctx.drive('zdecl', [decl(rng) for _ in range(ndecl)])
    ctx.judge('JudgeDeclaration', done, label='declarations')
