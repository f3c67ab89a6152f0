"""Storage of the values: generation, execution, judgement."""
READS = ['eager', 'delayed', 'array', 'data', 'getitem', 'selected', 'dict', 'computed',
         'persisted', 'compressed', 'compressed_data', 'box', 'mapped', 'zarr', 'to_zarr',
         'xarray', 'filled', 'box_ufunc', 'box_set', 'box_dask', 'box_function']
TYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32',
         'float64', 'float16', 'bool', 'M8[ns]', 'M8[s]', 'm8[ms]', '>i4', '>f8', 'S4', 'U3',
         'complex64']


def kind_of(dtype):
    return {'M8': 'M', 'm8': 'm', '>i': 'i', '>f': 'f', 'co': 'c'}.get(dtype[:2], dtype[0])


def palette(rng, dtype):
    kind = kind_of(dtype)
    if kind in 'iu':
        n = 32 if dtype == '>i4' else int(dtype[(3 if kind == 'i' else 4):])
        lo, hi = (-2**(n - 1), 2**(n - 1) - 1) if kind == 'i' else (0, 2**n - 1)
        return [str(x) for x in (lo, hi, 0, 1, hi - 1, rng.randint(lo, hi), rng.randint(0, 9))]
    if kind == 'f':
        return ['0.0', '-0.0', '1.0', '-1.5', 'nan', 'inf', '-inf', '1e308', '5e-324', '65504',
                '1e-7', repr(rng.uniform(-9, 9))]
    if kind == 'c':
        return ['0', '1+2j', '-1j', 'nan', '3.5']
    if kind == 'b':
        return ['True', 'False']
    if kind in 'mM':
        return ['0', 'NaT', '1', '-1', str(2**62), str(-2**62), '86400', str(rng.randint(0, 10**9))]
    if kind == 'S':
        return ['', 'a', 'abcd', 'zz', ' ']
    return ['', 'a', 'abc', 'é', '日本']


def case(rng):
    dtype = rng.choice(TYPES)
    kind = kind_of(dtype)
    pal = palette(rng, dtype)
    fill = rng.choice(pal) if rng.random() < .65 else None
    dims = rng.choice([['num'], ['num'], ['num', 'x'], ['x', 'num'], ['num', 'x', 'y'],
                       ['x', 'num', 'y']])
    n = rng.randint(1, 9)
    sizes = {'num': n, 'x': rng.randint(1, 4), 'y': rng.randint(1, 3)}
    shape = [sizes[d] for d in dims]
    total = 1
    for x in shape:
        total *= x
    keys = sorted(rng.randint(0, 3) for _ in range(n))
    filters = []
    if rng.random() < .3:
        filters = (rng.choice([['delta'], ['shuffle'], ['delta', 'shuffle'], ['crc']])
                   if kind in 'iu' else ['packbits'] if kind == 'b' else
                   rng.choice([['shuffle'], ['adler']]) if kind == 'f' else [])
    chunks = [[d, rng.choice([1, 2, 3, 4, 100, -1, 'auto'])] for d in dims if rng.random() < .5]

    def values(op):
        style = rng.random()
        if style < .2 and fill is not None:
            tokens = [fill] * total
        elif style < .4 and fill is not None:
            tokens = [fill if rng.random() < .7 else rng.choice(pal) for _ in range(total)]
        elif style < .5:
            tokens = [rng.choice(pal)] * total
        else:
            tokens = [rng.choice(pal) for _ in range(total)]
        mask = [fill is not None and rng.random() < p for p in [rng.choice([0, 0, .3, 1])]
                for _ in range(total)]
        return {'op': op, 'tokens': tokens, 'mask': mask, 'delayed': rng.random() < .5,
                'chunk': rng.choice([0, 1, 2, 5]), 'npartitions': rng.choice([None, 1, 3])}
    steps = [values('insert')]
    for _ in range(rng.randint(1, 3)):
        op = rng.choice(['insert', 'update', 'update', 'create', 'create', 'reopen'])
        if op == 'create':
            # a created variable without fill value has no values of its own
            steps.append({'op': op} if fill is not None else values('createset'))
        elif op == 'reopen':
            steps.append({'op': op})
        else:
            steps.append(values(op))
    for step in steps:
        step['how'] = rng.sample([x for x in READS if kind not in 'SU' or x[:4] not in ('comp', 'box_')],
                                 rng.randint(4, 6))
    return {'dtype': dtype, 'fill': fill, 'dims': dims, 'shape': shape, 'keys': keys,
            'compressor': rng.choice([None, None, 'zlib1', 'gzip', 'bz2', 'lzma', 'zstd', 'lz4',
                                      'blosc', 'blosc2']),
            'filters': filters, 'chunks': chunks, 'block': rng.choice([None, None, 8, 64, 1000]),
            'flag': rng.random() < .5, 'fs': rng.choice(['file', 'memory']), 'steps': steps}


def run(ctx, count):
    done = ctx.drive('zstore', [case(ctx.rng) for _ in range(count)])
    ctx.judge('JudgeStorage', done, label='stored variables')
