"""Evaluates the operations of the real Period class on one pair of periods."""
import pathlib
import pickle
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import drv  # noqa: E402
import numpy  # noqa: E402
from zcollection.merging.period import Period  # noqa: E402


def execute(case):
    unit = case['unit']
    base = numpy.datetime64(case['origin'], unit)
    step = numpy.timedelta64(1, unit)

    def date(x):
        return base + x * step

    def back(d):
        return int((d - base) / step)

    def make(p, within):
        begin = date(p[0])
        if case.get('coarse'):
            # the same instant, expressed in a coarser unit when possible
            coarse = begin.astype('M8[D]')
            begin = coarse if coarse == begin else begin
        if within:
            return Period(begin, date(p[1]), within=True)
        return Period(begin, date(p[1]) + step)

    def dump(p):
        return [back(p.begin), back(p.last)]

    out = dict(case)
    try:
        p = make(case['p'], case['within'][0])
        q = make(case['q'], case['within'][1])
        x = date(case['x'])
        d = case['d'] * step
        rel = p.get_relation(q)
        shifted = make(case['p'], case['within'][0])
        shifted.shift(case['ds'] * step)
        expanded = make(case['p'], case['within'][0])
        expanded.expand(d)
        begin = p.begin
        out['obs'] = dict(
            build=dump(p),
            length=back(base + p.length()),
            from_duration=dump(Period.from_duration(begin, p.end() - begin)),
            end=back(p.end()), null=p.is_null(),
            null_empty=Period(begin, begin).is_null(),
            null_after=Period(begin, begin).is_after(x),
            null_before=Period(begin, begin).is_before(x),
            null_point=Period(begin, begin).contains(x),
            null_length=back(base + Period(begin, begin).length()),
            other_type=bool(p == 'x') or not p != 'x',
            eq=bool(p == q), ne=bool(p != q), lt=bool(p < q),
            contains=p.contains(q), contains_point=p.contains(x),
            adjacent=bool(p.is_adjacent(q)),
            is_after=p.is_after(x), is_before=p.is_before(x),
            intersects=p.intersects(q),
            intersection=dump(p.intersection(q)),
            merge=dump(p.merge(q)), span=dump(p.span(q)),
            shift=dump(shifted), expand=dump(expanded),
            after_p=dump(p), after_q=dump(q),
            relation=rel.name,
            rel_after=rel.is_after(), rel_before=rel.is_before(),
            rel_contains=rel.contains(), rel_inside=rel.is_inside(),
            rel_bo=rel.is_before_overlapping(),
            rel_ao=rel.is_after_overlapping(),
            pickle=dump(pickle.loads(pickle.dumps(p))),
        )
    except Exception as exc:
        out['obs'] = {'error': repr(exc)}
    return out


drv.main(execute)
