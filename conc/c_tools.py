"""Concrete cases: mappings (P13), design matrix (P14), conversions (P15, P16), validation (P27)."""
from lib import *
import numpy as np
import pandas as pd
from pylogit import choice_tools as ct
from pylogit import base_multinomial_cm_v2 as bm
from pylogit import pylogit as pl
from pylogit import estimation as es
from pylogit import bootstrap_utils as bu
from pylogit import bootstrap_calcs as bc
from pylogit import bootstrap_sampler as bsam
from pylogit.construct_estimator import create_estimation_obj


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def want_onehot(idx, n):
    return np.array([[1 if k == i else 0 for k in range(n)] for i in idx]).reshape(len(idx), n)


# ----------------------------------------------------------------- P13
@case('P13', 120)
def long_form_mappings(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)))
    nspec, nest, M = gen_nests(rng, d)
    use = rng.randint(2, size=3)
    ddense = bool(rng.randint(2))
    df = d.df.copy()
    if rng.randint(2):
        df.index = rng.permutation(len(df)) + 7
    v = frozen(df, nspec)
    m = ct.create_long_form_mappings(df, 'obs_id', 'alt_id',
                                     choice_col='choice' if use[0] else None,
                                     nest_spec=nspec if use[1] else None,
                                     mix_id_col='pid' if use[2] else None, dense=ddense)
    v('create_long_form_mappings')
    close(dense(m['rows_to_obs']), want_onehot(d.o, d.N), 'rows_to_obs')
    close(dense(m['rows_to_alts']), want_onehot(d.a, d.J), 'rows_to_alts')
    if use[0]:
        close(dense(m['chosen_row_to_obs']), want_onehot(d.o, d.N) * np.array(d.y)[:, None], 'chosen_row_to_obs')
    else:
        check(m['chosen_row_to_obs'] is None, 'no choice column: chosen mapping must be None')
    if use[1]:
        close(dense(m['rows_to_nests']), want_onehot(nest, M), 'rows_to_nests')
    else:
        check(m['rows_to_nests'] is None, 'rows_to_nests must be None')
    if use[2]:
        close(dense(m['rows_to_mixers']), want_onehot(d.m, d.M), 'rows_to_mixers')
    else:
        check(m['rows_to_mixers'] is None, 'rows_to_mixers must be None')


@case('P13', 120)
def sparse_mapping(rng):
    n = int(rng.randint(1, 15))
    pool = [int(v) for v in rng.choice(np.arange(-30, 60), size=int(rng.randint(1, 9)), replace=False)]
    pool = [v + wide_ids(rng)[0] for v in pool]
    ids = [pool[int(rng.randint(len(pool)))] for _ in range(n)]
    kind = int(rng.randint(3))
    arr = np.array(ids, dtype=float if kind == 1 else int)
    if kind == 2:
        arr = np.array(['id%d' % v for v in ids])
        pool = ['id%d' % v for v in pool]
        ids = ['id%d' % v for v in ids]
    order = first_order(ids)
    close(dense(ct.create_sparse_mapping(arr)), want_onehot([order.index(v) for v in ids], len(order)),
          'create_sparse_mapping')
    same(list(ct.get_original_order_unique_ids(arr)), order, 'get_original_order_unique_ids')
    close(ct.create_row_to_some_id_col_mapping(arr), want_onehot([order.index(v) for v in ids], len(order)),
          'create_row_to_some_id_col_mapping')
    sub = [pool[t] for t in rng.permutation(len(pool))][:int(rng.randint(1, len(pool) + 1))]
    got = dense(ct.create_sparse_mapping(arr, unique_ids=np.array(sub)))
    want = np.array([[1 if x == u else 0 for u in sub] for x in ids]).reshape(n, len(sub))
    close(got, want, 'create_sparse_mapping with unique_ids')


@case('P13', 40)
def model_mappings(rng):
    d = gen(rng)
    nspec, nest, M = gen_nests(rng, d)
    sp, nm, cols = gen_spec(rng, d)
    m = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', sp, 'Nested Logit', names=nm, nest_spec=nspec)
    r = m.get_mappings_for_fit(dense=bool(rng.randint(2)))
    close(dense(r['rows_to_obs']), want_onehot(d.o, d.N), 'rows_to_obs')
    close(dense(r['rows_to_alts']), want_onehot(d.a, d.J), 'rows_to_alts')
    close(dense(r['rows_to_nests']), want_onehot(nest, M), 'rows_to_nests')
    close(dense(r['chosen_row_to_obs']), want_onehot(d.o, d.N) * np.array(d.y)[:, None], 'chosen_row_to_obs')


# ----------------------------------------------------------------- P14
@case('P14', 180)
def design_matrix(rng):
    d = gen(rng, contiguous=bool(rng.randint(2)), int_x=bool(rng.randint(2)))
    sp, nm, cols = gen_spec(rng, d)
    df = d.df.copy()
    df['intercept'] = 1.0
    if rng.randint(2):
        df.index = rng.permutation(len(df)) + 3
    nm2 = nm
    if nm is not None and rng.randint(2):
        keys = list(nm)
        nm2 = OrderedDict((keys[t], nm[keys[t]]) for t in rng.permutation(len(keys)))
    v = frozen(df, sp, nm2)
    X, names = ct.create_design_matrix(df, sp, 'alt_id', names=nm2)
    v('create_design_matrix')
    close(X, design_of(cols), 'design matrix')
    same(list(names), [c[0] for c in cols], 'column names')


@case('P14', 60)
def model_design(rng):
    d = gen(rng)
    sp, nm, cols = gen_spec(rng, d)
    mt = ['MNL', 'Asym', 'Cloglog', 'Scobit', 'Uneven'][int(rng.randint(5))]
    m = pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', sp, mt, names=nm,
                               **({'shape_ref_pos': int(rng.randint(d.J))} if mt == 'Asym' else {}))
    close(m.design, design_of(cols), 'model design')
    same(list(m.ind_var_names), [c[0] for c in cols], 'ind_var_names')


# ----------------------------------------------------------------- P15
def conv_data(rng, contiguous=None):
    d = gen(rng, contiguous=bool(rng.randint(2)) if contiguous is None else contiguous,
            int_x=bool(rng.randint(4) == 0))
    rows = d.rows
    sub = sorted(d.alts[t] for t in rng.permutation(d.J)[:int(rng.randint(1, d.J + 1))])
    for r in rows:
        r['s1'] = float(np.round(rng.normal(), 3)) if r['alt_id'] in sub else 0.0
    df = frame(rows)
    df['s1'] = [r['s1'] for r in rows]
    df['z2'] = [r['z'] * 2 + 1 for r in rows]
    if rng.randint(2):
        df.index = rng.permutation(len(df)) + 11
    return d, df, sub


@case('P15', 150)
def long_to_wide(rng):
    d, df, sub = conv_data(rng)
    named = bool(rng.randint(2))
    anames = dict((a, 'alt %s' % chr(97 + k)) for k, a in enumerate(d.alts)) if named else None
    null = [np.nan, -999.0][int(rng.randint(2))]
    ind = ['z', 'z2', 'pid']
    ind = [ind[t] for t in rng.permutation(3)]
    avars = ['x1', 'x2'] if rng.randint(2) else ['x2', 'x1']
    subv = OrderedDict([('s1', list(sub))]) if rng.randint(2) else {}
    if not subv:
        df = df.drop('s1', axis=1)
    v = frozen(df, ind, avars, subv, anames)
    kw = {} if (null != null and rng.randint(2)) else {'null_value': null}
    w = ct.convert_long_to_wide(df, ind, avars, subv, 'obs_id', 'alt_id', 'choice', anames, **kw)
    v('convert_long_to_wide')
    lab = (lambda a: anames[a]) if named else (lambda a: int(a))
    same(w.shape[0], d.N, 'one row per observation')
    by = {}
    for i in range(d.n):
        by.setdefault(d.rows[i]['obs_id'], {})[d.rows[i]['alt_id']] = d.rows[i]
    cols = ['obs_id', 'choice'] + ['availability_%s' % lab(a) for a in d.alts] + list(ind)
    for x in avars:
        cols += ['%s_%s' % (x, lab(a)) for a in d.alts]
    for x in subv:
        cols += ['%s_%s' % (x, lab(a)) for a in d.alts if a in sub]
    same(sorted(str(c) for c in w.columns), sorted(cols), 'wide columns')
    same(sorted(int(v) for v in w['obs_id'].values), sorted(by), 'observation ids')
    for k in range(w.shape[0]):
        row = w.iloc[k]
        o = by[int(row['obs_id'])]
        any_row = list(o.values())[0]
        same(int(row['choice']), [a for a in o if o[a]['choice'] == 1][0], 'chosen alternative of obs %s' % row['obs_id'])
        for x in ind:
            val = any_row['pid'] if x == 'pid' else any_row['z'] if x == 'z' else any_row['z'] * 2 + 1
            close(row[x], val, 'individual variable %s' % x)
        for a in d.alts:
            close(row['availability_%s' % lab(a)], 1 if a in o else 0, 'availability of %s' % a)
            for x in avars:
                close(row['%s_%s' % (x, lab(a))], o[a][x] if a in o else null, '%s of alternative %s' % (x, a))
            for x in subv:
                if a in sub:
                    close(row['%s_%s' % (x, lab(a))], o[a][x] if a in o else null, '%s of alternative %s' % (x, a))


# ----------------------------------------------------------------- P16
@case('P16', 150)
def wide_to_long(rng):
    J = int(rng.randint(2, 6))
    N = int(rng.randint(max(2, J), J + 8))
    alts = sorted(int(v) for v in rng.choice(np.arange(1, 40), size=J, replace=False))
    big = wide_ids(rng)
    alts = [a + big[1] for a in alts]
    obs = [int(v) + big[0] for v in rng.permutation(np.cumsum(rng.randint(1, 4, size=N)))]
    forced = list(rng.permutation(N))[:J]
    A, ch = [], []
    for n in range(N):
        av = [int(rng.randint(2)) for _ in alts]
        c = forced.index(n) if n in forced else int(rng.randint(J))
        av[c] = 1
        A.append(av)
        ch.append(alts[c])
    data = OrderedDict()
    data['obs'] = obs
    data['ch'] = ch
    for k, a in enumerate(alts):
        data['av%d' % a] = [A[n][k] for n in range(N)]
    for x in ('z', 'q'):
        data[x] = [float(np.round(rng.normal(), 3)) for _ in range(N)]
    avars = OrderedDict()
    vals = {}
    for x in ('cost', 'time'):
        sub = [alts[t] for t in rng.permutation(J)][:int(rng.randint(1, J + 1))]
        avars[x] = dict((a, '%s_%d' % (x, a)) for a in sub)
        for a in sub:
            data['%s_%d' % (x, a)] = [float(np.round(rng.normal(), 3)) for _ in range(N)]
            vals[(x, a)] = data['%s_%d' % (x, a)]
    keys = list(data)
    keys = [keys[t] for t in rng.permutation(len(keys))]
    df = pd.DataFrame(OrderedDict((k, data[k]) for k in keys))
    if rng.randint(2):
        df.index = rng.permutation(N) + 5
    order = [alts[t] for t in rng.permutation(J)]
    avail = OrderedDict((a, 'av%d' % a) for a in order)
    new = None if rng.randint(2) else 'the_alt'
    v = frozen(df, avars, avail)
    L = ct.convert_wide_to_long(df, ['z', 'q'], avars, avail, 'obs', 'ch', new)
    v('convert_wide_to_long')
    want = []
    for n in range(N):
        for k, a in enumerate(alts):
            if A[n][k]:
                want.append([obs[n], a, 1 if ch[n] == a else 0, data['z'][n], data['q'][n]]
                            + [vals[(x, a)][n] if (x, a) in vals else 0 for x in ('cost', 'time')])
    cols = ['obs', new or 'alt_id', 'ch', 'z', 'q', 'cost', 'time']
    same(sorted(L.columns), sorted(cols), 'long columns')
    for k in range(3):
        same([int(v) for v in L[cols[k]].values], [w[k] for w in want], 'column %s of the long data' % cols[k])
    close(L[cols].values, np.array(want, dtype=float), 'long data')


@case(['P15', 'P16'], 80)
def long_wide_round_trip(rng):
    d, df, sub = conv_data(rng)
    df = df.drop('s1', axis=1)
    if 0 in d.alts:
        df['alt_id'] += 1
    w = ct.convert_long_to_wide(df, ['z', 'z2', 'pid'], ['x1', 'x2'], {}, 'obs_id', 'alt_id', 'choice')
    alts = sorted(int(v) for v in set(df['alt_id']))
    order = [alts[t] for t in rng.permutation(len(alts))]
    avail = OrderedDict((a, 'availability_%d' % a) for a in order)
    avars = OrderedDict((x, dict((a, '%s_%d' % (x, a)) for a in alts)) for x in ('x1', 'x2'))
    L = ct.convert_wide_to_long(w, ['z', 'z2', 'pid'], avars, avail, 'obs_id', 'choice', 'alt_id')
    cols = ['obs_id', 'alt_id', 'choice', 'z', 'z2', 'pid', 'x1', 'x2']
    a = L[cols].sort_values(['obs_id', 'alt_id']).values
    b = df[cols].sort_values(['obs_id', 'alt_id']).values
    check((a[:, :3] == b[:, :3]).all(), 'round trip of the ids and choices')
    close(a, b, 'round trip')


# ----------------------------------------------------------------- P27
def mk(d, mt='MNL', sp=None, **kw):
    sp = sp or OrderedDict([('x1', 'all_same'), ('x2', 'all_same')])
    return pl.create_choice_model(kw.pop('df', d.df.copy()), kw.pop('alt', 'alt_id'), kw.pop('obs', 'obs_id'),
                                  kw.pop('ch', 'choice'), sp, mt, **kw)


@case('P27', 40)
def reject_columns(rng):
    d = gen(rng)
    accepts(lambda: mk(d), 'valid model')
    k = ['alt', 'obs', 'ch'][int(rng.randint(3))]
    raises(lambda: mk(d, **{k: 'nope'}), 'missing %s column' % k)
    raises(lambda: mk(d, sp=OrderedDict([('x1', 'all_same'), ('nope', 'all_same')])), 'missing specification column')
    raises(lambda: mk(d, sp={'x1': 'all_same'}), 'specification that is no OrderedDict')
    a = d.alts[int(rng.randint(d.J))]
    bad = a
    while bad in d.alts:
        bad += 1
    raises(lambda: mk(d, sp=OrderedDict([('x1', [a, bad])])), 'unknown alternative id in the specification')
    raises(lambda: mk(d, sp=OrderedDict([('x1', [[a, bad]])])), 'unknown alternative id in a specification group')
    accepts(lambda: mk(d, sp=OrderedDict([('x1', [a])])), 'known alternative in the specification')
    accepts(lambda: mk(d, sp=OrderedDict([('x1', [[a]])])), 'known group in the specification')
    raises(lambda: mk(d, sp=OrderedDict([('x1', 'all_sane')])), 'unknown specification keyword')
    raises(lambda: mk(d, sp=OrderedDict([('x1', 3)])), 'specification value of the wrong type')
    raises(lambda: mk(d, sp=OrderedDict([('x1', [[[a]]])])), 'too deeply nested specification')


@case('P27', 60)
def reject_non_finite(rng):
    d = gen(rng)
    col = ['x1', 'x2'][int(rng.randint(2))]
    pos = int(rng.randint(d.n))
    for bad in (np.nan, np.inf, -np.inf):
        df = d.df.copy()
        df[col] = df[col].astype(float)
        df.loc[df.index[pos], col] = bad
        raises(lambda: mk(d, df=df), 'value %r in a specification variable' % bad)
    df = d.df.copy()
    df[col] = ['a'] * d.n
    raises(lambda: mk(d, df=df), 'string variable')
    df = d.df.copy()
    df[col] = df[col].astype(complex)
    raises(lambda: mk(d, df=df), 'complex variable')
    for t in ('int64', 'float32', 'uint8', 'int16'):
        df = d.df.copy()
        df[col] = np.abs(df[col]).astype(t)
        accepts(lambda: mk(d, df=df), 'variable of type %s' % t)
    df = d.df.copy()
    df['z'] = np.nan
    accepts(lambda: mk(d, df=df), 'non-finite value in an unused variable')


@case('P27', 60)
def reject_nests(rng):
    d = gen(rng)
    spec, nest, M = gen_nests(rng, d)
    mkn = lambda s: mk(d, 'Nested Logit', nest_spec=s)
    accepts(lambda: mkn(spec), 'valid nests')
    keys = list(spec)
    cp = lambda: OrderedDict((k, list(spec[k])) for k in keys)
    s = cp()
    s['empty'] = []
    raises(lambda: mkn(s), 'empty nest')
    s = cp()
    k = keys[int(rng.randint(len(keys)))]
    s[k] = s[k] + [max(d.alts) + 1]
    raises(lambda: mkn(s), 'nest with unknown alternative')
    s = cp()
    s['twice'] = [spec[k][0]]
    raises(lambda: mkn(s), 'alternative in two nests')
    s = cp()
    s[k] = s[k] + [s[k][0]]
    raises(lambda: mkn(s), 'alternative twice in one nest')
    s = cp()
    drop = s[k].pop()
    if not s[k]:
        del s[k]
    if s:
        raises(lambda: mkn(s), 'alternative %d without nest' % drop)
    s = cp()
    s[k] = [float(v) for v in s[k]]
    raises(lambda: mkn(s), 'float ids in nests')
    s = cp()
    s[k] = tuple(s[k])
    raises(lambda: mkn(s), 'tuple as nest')
    s = OrderedDict((i, spec[k]) for i, k in enumerate(keys))
    raises(lambda: mkn(s), 'nest names that are no strings')
    raises(lambda: mkn(dict(spec)), 'nests that are no OrderedDict')


@case('P27', 60)
def reject_reference_positions(rng):
    d = gen(rng)
    J = d.J
    for ref in range(-2, J + 2):
        ok = 0 <= ref <= J - 1
        names = ['i%d' % k for k in range(J - 1)]
        f = lambda: mk(d, 'Asym', shape_ref_pos=0, intercept_ref_pos=ref, intercept_names=names)
        (accepts if ok else raises)(f, 'intercept reference %d of %d alternatives' % (ref, J))
        g = lambda: mk(d, 'Asym', shape_ref_pos=ref, shape_names=names)
        (accepts if ok else raises)(g, 'shape reference %d of %d alternatives' % (ref, J))
    raises(lambda: mk(d, 'Asym', shape_ref_pos=0, intercept_ref_pos=None, intercept_names=['i%d' % k for k in range(J)]),
           'intercept names without reference')
    raises(lambda: mk(d, 'Asym', shape_ref_pos=0, intercept_ref_pos=1.0, intercept_names=['i%d' % k for k in range(J - 1)]),
           'float reference position')
    for n in range(0, J + 3):
        nm = ['s%d' % k for k in range(n)]
        (accepts if n == J - 1 else raises)(
            lambda: mk(d, 'Clog-log', intercept_ref_pos=0, intercept_names=nm) if False else
            mk(d, 'Cloglog', intercept_ref_pos=0, intercept_names=nm), '%d intercept names for %d alternatives' % (n, J))
        (accepts if n == J else raises)(lambda: mk(d, 'Scobit', shape_names=nm), '%d shape names, scobit, %d alternatives' % (n, J))
        (accepts if n == J else raises)(lambda: mk(d, 'Uneven', shape_names=nm), '%d shape names, uneven, %d alternatives' % (n, J))
        (accepts if n == J - 1 else raises)(lambda: mk(d, 'Asym', shape_ref_pos=J - 1, shape_names=nm),
                                            '%d shape names, asym, %d alternatives' % (n, J))
    sp = OrderedDict([('x1', 'all_diff'), ('x2', [d.alts[0], d.alts[-1]]), ('z', 'all_same')])
    good = OrderedDict([('x1', ['a%d' % k for k in range(J)]), ('x2', ['b', 'c']), ('z', 'zz')])
    accepts(lambda: mk(d, sp=sp, names=good), 'valid names')
    for key, val in (('x1', ['a'] * (J - 1)), ('x1', ['a'] * (J + 1)), ('x2', ['b']), ('x2', ['b', 'c', 'd']), ('x2', 'b'),
                     ('x2', ['b', 3]), ('z', ['zz']), ('x1', 'a')):
        bad = OrderedDict(good)
        bad[key] = val
        raises(lambda: mk(d, sp=sp, names=bad), 'names[%s] = %r' % (key, val))
    bad = OrderedDict(good)
    del bad['z']
    raises(lambda: mk(d, sp=sp, names=bad), 'names missing a variable')
    bad = OrderedDict(good)
    bad['more'] = 'x'
    raises(lambda: mk(d, sp=sp, names=bad), 'names with an extra variable')
    raises(lambda: mk(d, sp=sp, names=dict(good)), 'names that are no OrderedDict')


class Stop(Exception):
    pass


def fit_probe(m, th, **kw):
    """run fit_mle until the optimiser would start; True if it gets there"""
    def stop(real, *a, **k):
        raise Stop()
    try:
        with hooked(stop):
            m.fit_mle(th, print_res=False, just_point=bool(kw.pop('point', True)), **kw)
    except Stop:
        return True
    except Exception:
        return False
    raise Fail('fit_mle returned without optimising')


@case('P27', 80)
def reject_initial_values(rng):
    d = gen(rng)
    sp, nm, cols = gen_spec(rng, d)
    K = len(cols)
    mt = ['MNL', 'Asym', 'Cloglog', 'Scobit', 'Uneven', 'Nested Logit', 'Mixed Logit'][int(rng.randint(7))]
    kw, fk, want = {}, {}, K
    if mt in ('Asym', 'Cloglog', 'Scobit', 'Uneven') and rng.randint(2):
        kw.update(intercept_ref_pos=int(rng.randint(d.J)), intercept_names=['i%d' % k for k in range(d.J - 1)])
        want += d.J - 1
    if mt == 'Asym':
        kw.update(shape_ref_pos=int(rng.randint(d.J)), shape_names=['s%d' % k for k in range(d.J - 1)])
        want += d.J - 1
    elif mt in ('Scobit', 'Uneven'):
        kw.update(shape_names=['s%d' % k for k in range(d.J)])
        want += d.J
    elif mt == 'Nested Logit':
        spec, nest, M = gen_nests(rng, d)
        kw.update(nest_spec=spec)
        want += M
    elif mt == 'Mixed Logit':
        mv = [c[0] for c in cols][:int(rng.randint(1, K + 1))]
        kw.update(mixing_vars=mv, mixing_id_col='pid')
        fk.update(num_draws=2)
        want += len(mv)
    for n in sorted(set([max(0, want - d.J), want - 2, want - 1, want, want + 1, want + d.J - 1, want + d.J])):
        if n < 0:
            continue
        m = mk(d, mt, sp=sp, names=nm, **kw)
        ok = fit_probe(m, np.zeros(n), point=rng.randint(2), **fk)
        check(ok == (n == want), '%s with %d starting values where %d are required: %s' %
              (mt, n, want, 'accepted' if ok else 'rejected'))


@case('P27', 60)
def reject_order_and_weights(rng):
    d = gen(rng)
    m = mk(d)
    ids = d.df['obs_id'].values
    kinds = ['int64', 'uint8', 'uint64', 'float64', 'int16']
    kind = kinds[int(rng.randint(len(kinds)))]
    v = np.sort(rng.randint(0, 200, size=int(rng.randint(1, 10)))).astype(kind)
    accepts(lambda: ct.ensure_contiguity_in_observation_rows(v), 'non-decreasing ids %s' % v)
    if len(set(v)) > 1:
        u = v.copy()
        while (np.diff(u.astype(float)) >= 0).all():
            u = rng.permutation(u)
        raises(lambda: ct.ensure_contiguity_in_observation_rows(u), 'decreasing ids %s (%s)' % (u, kind))
    d2 = gen(rng, contiguous=False)
    idv = d2.df['obs_id'].values
    ok = fit_probe(mk(d2), np.zeros(2))
    check(ok == bool((np.diff(idv) >= 0).all()), 'rows %s: %s' % (idv, 'accepted' if ok else 'rejected'))
    w = np.abs(rng.normal(size=d.n))
    w[int(rng.randint(d.n))] = 0.0
    acc = lambda x: accepts(lambda: create_estimation_obj(m, np.zeros(2), weights=x), 'weights %r' % (x,))
    rej = lambda x: raises(lambda: create_estimation_obj(m, np.zeros(2), weights=x), 'weights %r' % (x,))
    acc(w)
    acc(None)
    acc(np.ones(d.n, dtype=int))
    b = w.copy()
    b[int(rng.randint(d.n))] = -float(rng.choice([1e-9, 1.0]))
    rej(b)
    rej(w[:-1])
    rej(np.append(w, 1.0))
    rej(list(w))
    rej(w[:, None])
    for r in (None, 0, 1, 0.5, np.float64(2)):
        accepts(lambda: create_estimation_obj(m, np.zeros(2), ridge=r), 'ridge %r' % (r,))
    for r in ('1', [1.0], np.array([1.0])):
        raises(lambda: create_estimation_obj(m, np.zeros(2), ridge=r), 'ridge %r' % (r,))


@case('P27', 60)
def reject_confidence_levels(rng):
    reps = rng.normal(size=(12, 2))
    jack = rng.normal(size=(5, 2))
    mle = reps.mean(axis=0)
    good = [float(rng.uniform(0.001, 99.999)), 1e-9, 99.9999999, 50, 95]
    bad = [0, 100, -1e-9, 100.0000001, -5, 150, '95', None, [95]]
    for c in good:
        accepts(lambda: bu.check_conf_percentage_validity(c), 'confidence %r' % (c,))
        accepts(lambda: bc.calc_percentile_interval(reps, c), 'confidence %r' % (c,))
    for c in bad:
        raises(lambda: bu.check_conf_percentage_validity(c), 'confidence %r' % (c,))
        raises(lambda: bc.calc_percentile_interval(reps, c), 'percentile confidence %r' % (c,))
        raises(lambda: bc.calc_bca_interval(reps, jack, mle, c), 'BCa confidence %r' % (c,))
    for r in (reps[0], reps[None], [[1.0, 2.0]]):
        raises(lambda: bc.calc_percentile_interval(r, 95), 'replicates of the wrong kind')
        raises(lambda: bc.calc_bca_interval(r, jack, mle, 95), 'replicates of the wrong kind')
        raises(lambda: bc.calc_bca_interval(reps, r, mle, 95), 'jackknife replicates of the wrong kind')


@case('P27', 60)
def reject_long_data(rng):
    d, df, sub = conv_data(rng)
    df = df.drop('s1', axis=1).reset_index(drop=True)
    ind, av = ['z', 'z2', 'pid'], ['x1', 'x2']
    f = lambda x, i=ind, a=av, s={}, o='obs_id', t='alt_id', c='choice', n=None: \
        ct.convert_long_to_wide(x, i, a, s, o, t, c, n)
    accepts(lambda: f(df), 'valid long data')
    for kw in (dict(i=ind + ['nope']), dict(a=['nope']), dict(s={'nope': [1]}), dict(o='nope'), dict(t='nope'), dict(c='nope')):
        raises(lambda: f(df, **kw), 'missing column %r' % kw)
    dup = pd.concat([df, df.iloc[[int(rng.randint(d.n))]].assign(choice=0)], ignore_index=True)
    raises(lambda: f(dup), 'duplicated observation-alternative pair')
    none = df.copy()
    r = int(rng.choice(np.where(df['choice'].values == 1)[0]))
    none.loc[r, 'choice'] = 0
    raises(lambda: f(none), 'fewer choices than observations')
    cand = np.where(df['choice'].values == 0)[0]
    if len(cand):
        more = df.copy()
        more.loc[int(rng.choice(cand)), 'choice'] = 1
        raises(lambda: f(more), 'more choices than observations')
    raises(lambda: f(df, n=[1, 2]), 'alternative names that are no dictionary')
    raises(lambda: f(df, n={max(d.alts) + 1: 'x'}), 'name of an unknown alternative')


@case('P27', 60)
def reject_wide_data(rng):
    J = int(rng.randint(2, 5))
    N = J + int(rng.randint(1, 5))
    alts = sorted(int(v) for v in rng.choice(np.arange(1, 30), size=J, replace=False))
    ch = [alts[k % J] for k in range(N)]
    data = OrderedDict([('obs', list(range(1, N + 1))), ('ch', ch), ('z', [1.0] * N)])
    for a in alts:
        data['av%d' % a] = [1] * N
        data['c%d' % a] = [float(v) for v in rng.normal(size=N)]
    df = pd.DataFrame(data)
    avail = OrderedDict((a, 'av%d' % a) for a in alts)
    avars = OrderedDict([('cost', dict((a, 'c%d' % a) for a in alts))])
    f = lambda x=df, i=['z'], a=avars, b=avail, o='obs', c='ch': ct.convert_wide_to_long(x, i, a, b, o, c)
    accepts(f, 'valid wide data')
    raises(lambda: f(i=['nope']), 'missing individual variable')
    raises(lambda: f(b=OrderedDict(list(avail.items())[:-1] + [(alts[-1], 'nope')])), 'missing availability column')
    raises(lambda: f(a=OrderedDict([('cost', {alts[0]: 'nope'})])), 'missing alternative-specific column')
    raises(lambda: f(o='nope'), 'missing observation column')
    raises(lambda: f(c='nope'), 'missing choice column')
    x = df.copy()
    x.loc[0, 'obs'] = x.loc[1, 'obs']
    raises(lambda: f(x), 'repeated observation id')
    x = df.copy()
    x['ch'] = x['ch'].astype(float)
    x.loc[int(rng.randint(N)), 'ch'] = np.nan
    raises(lambda: f(x), 'blank choice')
    n = int(rng.randint(N))
    x = df.copy()
    x.loc[n, 'av%d' % ch[n]] = 0
    raises(lambda: f(x), 'observation choosing an unavailable alternative')
    x = df.copy()
    x['avnew'] = 1
    raises(lambda: f(x, b=OrderedDict(list(avail.items()) + [(max(alts) + 1, 'avnew')])), 'availability of a never chosen alternative')
    x['cnew'] = 1.0
    raises(lambda: f(x, a=OrderedDict([('cost', dict(list(avars['cost'].items()) + [(max(alts) + 1, 'cnew')]))])),
           'variable of a never chosen alternative')
    raises(lambda: f(b=OrderedDict(list(avail.items())[:-1])), 'chosen alternative without availability column')


@case('P27', 60)
def reject_prediction_params(rng):
    d = gen(rng)
    J = d.J
    mt = ['MNL', 'Asym', 'Scobit', 'Cloglog', 'Nested Logit'][int(rng.randint(5))]
    kw = {}
    ni = ns = nn = 0
    if mt in ('Asym', 'Scobit', 'Cloglog'):
        kw.update(intercept_ref_pos=0, intercept_names=['i%d' % k for k in range(J - 1)])
        ni = J - 1
    if mt == 'Asym':
        kw.update(shape_ref_pos=0, shape_names=['s%d' % k for k in range(J - 1)])
        ns = J - 1
    if mt == 'Scobit':
        kw.update(shape_names=['s%d' % k for k in range(J)])
        ns = J
    if mt == 'Nested Logit':
        spec, nest, M = gen_nests(rng, d)
        kw.update(nest_spec=spec)
        nn = M
    m = mk(d, mt, **kw)
    z = lambda n: np.zeros(n) if n else None
    good = [np.zeros(2), z(ni), z(ns), z(nn)]
    accepts(lambda: m.check_param_list_validity(good), 'valid parameter list')
    accepts(lambda: m.check_param_list_validity(None), 'no parameter list')
    accepts(lambda: m.check_param_list_validity([np.zeros((g.size, 3)) if g is not None else None for g in good]),
            'valid 2-D parameter list')
    rej = lambda pl_, what: raises(lambda: m.check_param_list_validity(pl_), what)
    rej(good[:3], 'three parameter groups')
    rej(tuple(good), 'tuple of parameters')
    rej([None] + good[1:], 'no index coefficients')
    for k in range(4):
        b = list(good)
        b[k] = np.zeros((good[k].size if good[k] is not None else 0) + 1)
        rej(b, 'group %d too long' % k)
        if good[k] is not None:
            b = list(good)
            b[k] = list(good[k])
            rej(b, 'group %d not an array' % k)
            b = list(good)
            b[k] = good[k][:, None]
            if sum(g is not None for g in good) > 1:
                rej(b, 'mixed dimensions')
    if sum(g is not None for g in good) > 1:
        b = [np.zeros((g.size, 2 + k)) if g is not None else None for k, g in enumerate(good)]
        rej(b, 'different numbers of parameter columns')
    raises(lambda: m.predict(d.df.copy(), param_list=good, return_long_probs=False), 'chosen probabilities without choice column')


@case('P27', 30)
def reject_bootstrap_inputs(rng):
    d = gen(rng)
    ids = sorted(set(d.df['obs_id']))
    g = bsam.create_deepcopied_groupby_dict(d.df, 'obs_id')
    f = lambda df=d.df, c='obs_id', s=np.array(ids), b='bootstrap_id': bsam.create_bootstrap_dataframe(df, c, s, g, b)
    accepts(f, 'valid resample')
    raises(lambda: f(c='nope'), 'missing observation column')
    raises(lambda: f(b='x1'), 'bootstrap column that exists already')
    raises(lambda: f(s=np.array(ids + [max(ids) + 1])), 'resampled id that does not exist')
    a = (d.df['obs_id'].values, d.df['alt_id'].values, d.df['choice'].values, 2)
    raises(lambda: bsam.create_cross_sectional_bootstrap_samples(*a, seed='1'), 'seed that is no integer')
    raises(lambda: pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', OrderedDict([('x1', 'all_same')]), 'Probit'),
           'unknown model type')
    raises(lambda: pl.create_choice_model(d.df.copy(), 'alt_id', 'obs_id', 'choice', OrderedDict([('x1', 'all_same')]), 'Mixed Logit',
                                          mixing_vars=['x2'], mixing_id_col='pid'), 'mixing over an unknown coefficient')
    raises(lambda: pl.create_choice_model([1, 2], 'alt_id', 'obs_id', 'choice', OrderedDict([('x1', 'all_same')]), 'MNL'),
           'data that is no data frame')
