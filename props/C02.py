"""Quantization: whole units, exact total, less than one unit of change."""
from symx.harness import scenario

META = dict(
    title='Quantization keeps the total and moves no value by a whole unit',
    statement='Quantizing a set of values that share a sign gives whole units plus at most one remainder, so that '
              'the quantized values sum exactly to the original total and no value changes by a full unit or more. '
              'Every item is returned exactly once and larger remainders are rounded up first. This holds wherever '
              'quantization is offered: directly, in disaggregation and in translation.',
    over=['inputs'],
    text='for every list of values within the bounds, including ties, zeros and fractional totals',
    why='tests use fixed lists; ties and fractional remainders depend on the relation between all values',
    files=['src/toron/_utils.py', 'src/toron/space.py', 'src/toron/reader.py'],
    mechanism=[('quantizer', 'quantize_values')])


def quantize(items, total):
    from toron._utils import quantize_values
    return list(quantize_values(iter(items), total))


REACH = {'quantize_any': ['negative', 'positive'], 'order': ['tie', 'distinct']}


@scenario(quick=dict(n=4), thorough=dict(n=5))
def quantize_any(h):
    """n symbolic values of one sign (zeros allowed) quantized to their own total."""
    n = h.bound('n')
    sign = -1 if h.flag('negative') else 1
    h.reach('negative' if sign < 0 else 'positive')
    ids = [4, 1, 3, 2, 9][:n]
    xs = [sign * h.real(f'x{i}', 0, 1000000) for i in range(n)]
    total = h.sum_(xs)
    # A total of zero says nothing about the sign.
    items = list(zip(ids, xs))
    res = check_quantized(h, items, total)
    whole = {i: h.is_integer(res[i]) for i in ids}
    up = {i: h.not_(h.le(abs(res[i]), abs(x))) for i, x in items}
    down = {i: h.not_(h.le(abs(x), abs(res[i]))) for i, x in items}
    part = {i: frac(h, x) for i, x in items}
    for i in ids:
        for j in ids:
            if i < j:
                h.check(h.any_([whole[i], whole[j]]), 'at most one value keeps a fraction', [i, j])
            if i != j:
                h.check(h.any_([h.not_(up[i]), h.not_(down[j]), h.le(part[j], part[i])]),
                        'larger remainders are rounded away from zero first', [i, j])


def frac(h, x):
    x = abs(x)
    return x - h.floor(x)


@scenario(quick=dict(n=3), thorough=dict(n=4))
def order(h):
    """The result does not depend on the order in which the items arrive, even with equal fractions."""
    n = h.bound('n')
    whole = [3, 5, 0, 8][:n]
    f = h.real('f', 0, 1)
    g = h.real('g', 0, 1)
    h.assume(h.lt_strict(f, 1))
    h.assume(h.lt_strict(g, 1))
    xs = [w + (f if h.flag(f'same{k}') else g) for k, w in enumerate(whole)]
    h.reach('tie' if h.decided(h.eq(f, g)) else 'distinct')
    ids = [4, 1, 3, 2][:n]
    items = list(zip(ids, xs))
    total = h.sum_(xs)
    a = dict(quantize(items, total))
    b = dict(quantize(h.permutation('order', items), total))
    h.check(h.same(a, b), 'the order of the items does not matter', [a, b])


@scenario(quick=dict(n=3), thorough=dict(n=4))
def whole_total(h):
    """Values with a whole total: every quantized value is a whole number."""
    n = h.bound('n')
    xs = [h.real(f'x{i}', 0, 1000) for i in range(n - 1)]
    total = h.int('total', 0, 5000)
    last = total - h.sum_(xs)
    h.assume(h.le(0, last))
    res = check_quantized(h, [(i + 1, x) for i, x in enumerate(xs + [last])], total * 1.0)
    for v in res.values():
        h.check(h.is_integer(v), 'a whole total gives whole values', [v])


def check_quantized(h, items, total):
    out = quantize(items, total)
    ids = [i for i, _ in items]
    h.check(sorted(i for i, _ in out) == sorted(ids), 'every item is returned exactly once', [out])
    h.check_eq(h.sum_([v for _, v in out]), total, 'sum of quantized values equals the total')
    res = dict(out)
    for i, x in items:
        d = res[i] - x
        h.check(h.all_([h.lt(d, 1), h.lt(-1, d)]), 'quantized value differs by less than one unit', [x, res[i]])
        h.check(h.any_([h.all_([h.le(0, x), h.le(0, res[i])]), h.all_([h.le(x, 0), h.le(res[i], 0)])]),
                'quantized values keep their sign', [x, res[i]])
    h.observe('out', sorted(res.items()))
    return res
