from pvsym.cli import Job
PROPERTY = 'P33'
FUNCTIONS = ['transformer.simple_efficiency']
BOUNDS = 'input power in [0, 2 x rating], rating in [1, 1e6], no-load loss in [0, 0.1], load loss in (0, 0.2]; scalars and arrays of 2'
OUTSIDE = 'negative input power (reverse flow)'


def get(m, n):
    rating = m.real('rating', 1, 1e6)
    nl = m.real('no_load_loss', 0, 0.1)
    ll = m.real('load_loss', 0, 0.2, lo_open=True)
    us = m.reals('u', n, 0, 2)
    ps = [u * rating for u in us]
    return rating, nl, ll, ps


def balance(m, arr):
    rating, nl, ll, ps = get(m, 2 if arr else 1)
    f = m.pv.transformer.simple_efficiency
    out = f(m.arr(ps), nl, ll, rating) if arr else [f(ps[0], nl, ll, rating)]
    m.obs('out', out)
    for p, o in zip(ps, out):
        no = o / rating
        m.eq('loss balance: output = input - no-load loss - load loss x output^2', no + nl + ll * no * no, p / rating)
        m.le('output <= input', no, p / rating)
        if p == 0 and nl == 0:
            m.eq('no input, no loss: no output', o, 0)
        if p >= nl * rating:
            m.ge('no negative output once the no-load loss is covered', no, 0)
        else:
            m.le('output is drawn below the no-load loss', no, 0)
            m.ge('draw is bounded', no, -2 * nl)


def mono(m):
    rating, nl, ll, ps = get(m, 2)
    f = m.pv.transformer.simple_efficiency
    a, b = f(ps[0], nl, ll, rating), f(ps[1], nl, ll, rating)
    m.assume(ps[0] < ps[1])
    m.le('output increases with input', a / rating, b / rating)


def jobs(tier):
    yield Job('balance scalar', balance, params=dict(arr=False))
    yield Job('balance array', balance, params=dict(arr=True))
    yield Job('monotone', mono)
