from symx.api import *
import pandas as pd
from frm.term_structures.fx_helpers import (clean_vol_quotes_column_names as clean, solve_call_put_quotes_from_strategy_quotes as split,
                                            get_delta_smile_quote_details as details)

ROWS = 2
SPELL = {'riskreversal': ['_delta_risk_reversal', '_delta_riskreversal', '_delta_rr', ' delta risk reversal', 'Δrr', '_Δ_rr', 'delta rr'],
         'butterfly': ['_delta_butterfly', '_delta_bf', ' delta butterfly', 'Δbf', '_Δ_butterfly', 'delta bf', '_delta_bf'],
         'call': ['_delta_call', '_delta_c', ' delta call', 'Δc', '_Δ_call', 'delta call', '_delta_c'],
         'put': ['_delta_put', '_delta_p', ' delta put', 'Δp', '_Δ_put', 'delta put', '_delta_p'],
         'atm': ['atm_delta_neutral', 'at_the_money_delta_neutral', 'atm delta neutral', 'atmΔneutral', 'at the money Δ neutral', 'atm_delta_neutral', 'atm_delta neutral']}


def col(c, name):
    v = [c.real(f'{name}_{i}'.replace(' ', '_'), typ=(-0.02, 0.02) if 'rr' in name else (0.001, 0.01) if 'bf' in name else (0.08, 0.2)) for i in range(ROWS)]
    return v


def frame(c, cols):
    return pd.DataFrame({k: c.series(v) for k, v in cols})


def column(df, name):
    return list(df[name].values)


def get(c, df, name):
    c.true('has_' + name, name in df.columns)
    return column(df, name)


PILLARS = [('25',), ('10', '25'), ('25', '10'), ('05', '10', '25'), ('5', '15', '35'), ('10', '15', '20', '25', '30', '35')]


def strategies(c):
    """at-the-money, risk-reversal and butterfly quotes, in any order and spelling, are reproduced by the call and put volatilities"""
    deltas = c.choice('pillars', PILLARS)
    sp = c.choice('spelling', list(range(7)))
    order = c.choice('order', ['as_is', 'reversed', 'rr_then_bf'])
    q = {}
    for d in deltas:
        q[d, 'rr'], q[d, 'bf'] = col(c, f'rr{d}'), col(c, f'bf{d}')
    q['atm'] = col(c, 'atm')
    name = lambda d, k: d + SPELL['riskreversal' if k == 'rr' else 'butterfly'][sp]
    cols = [(name(d, k), q[d, k]) for d in deltas for k in ('rr', 'bf')] + [(SPELL['atm'][sp], q['atm'])]
    if order == 'reversed':
        cols = cols[::-1]
    elif order == 'rr_then_bf':
        cols = cols[:-1:2] + cols[-1:] + cols[1:-1:2]
    df = c.no_raise('clean', clean, frame(c, cols))
    df = c.no_raise('split', split, df)
    atm = get(c, df, 'atm_delta_neutral')
    n = {}
    for d in deltas:
        call, put = get(c, df, f'{d}_delta_call'), get(c, df, f'{d}_delta_put')
        n[f'{d}_delta_call'], n[f'{d}_delta_put'] = call, put
        for i in range(ROWS):
            c.eq('risk_reversal', call[i] - put[i], q[d, 'rr'][i])
            c.eq('butterfly', (call[i] + put[i]) / 2 - atm[i], q[d, 'bf'][i])
    for i in range(ROWS):
        c.eq('at_the_money', atm[i], q['atm'][i])
    smile(c, df, deltas)


def smile(c, df, deltas):
    """the pillars of the smile: each delta once, signed, from the lowest to the highest strike"""
    s = c.no_raise('details', details, df)
    ds = sorted(deltas, key=int)
    want = [(f'{d}_delta_put', -1, -int(d) / 100) for d in ds] + [('atm_delta_neutral', 1, 0.5)] + [(f'{d}_delta_call', 1, int(d) / 100) for d in reversed(ds)]
    got = list(zip(s['quotes_column_names'], s['quotes_call_put_flag'], s['quotes_signed_delta']))
    c.true('smile_size', len(got) == len(want))
    for g, w in zip(got, want):
        c.true('smile_name', g[0] == w[0])
        c.eq('smile_flag', float(g[1]), w[1])
        c.eq('smile_delta', float(g[2]), w[2])


def outright(c):
    """call and put quotes pass through unchanged"""
    deltas = c.choice('pillars', PILLARS)
    sp = c.choice('spelling', list(range(7)))
    q = {(d, k): col(c, f'{k}{d}') for d in deltas for k in ('call', 'put')}
    q['atm'] = col(c, 'atm')
    cols = [(d + SPELL[k][sp], q[d, k]) for k in ('put', 'call') for d in deltas]
    cols.insert(c.choice('atm_at', [0, 1, len(cols)]), (SPELL['atm'][sp], q['atm']))
    df = split(clean(frame(c, cols)))
    for d in deltas:
        for k in ('call', 'put'):
            x = get(c, df, f'{d}_delta_{k}')
            for i in range(ROWS):
                c.eq('unchanged', x[i], q[d, k][i])
    x = get(c, df, 'atm_delta_neutral')
    for i in range(ROWS):
        c.eq('unchanged', x[i], q['atm'][i])
    smile(c, df, deltas)


def mixed(c):
    """strategy quotes at one delta beside outright quotes at another"""
    a, b = c.choice('pillars', [('10', '25'), ('25', '10'), ('5', '10')])
    q = {k: col(c, k) for k in ('rr', 'bf', 'atm', 'call', 'put')}
    cols = [(f'{a}_delta_put', q['put']), (f'{b}_delta_rr', q['rr']), ('atm_delta_neutral', q['atm']), (f'{b}_delta_bf', q['bf']), (f'{a}_delta_call', q['call'])]
    df = split(clean(frame(c, cols)))
    for i in range(ROWS):
        c.eq('call', get(c, df, f'{a}_delta_call')[i], q['call'][i])
        c.eq('put', get(c, df, f'{a}_delta_put')[i], q['put'][i])
        call, put, atm = [get(c, df, x)[i] for x in (f'{b}_delta_call', f'{b}_delta_put', 'atm_delta_neutral')]
        c.eq('risk_reversal', call - put, q['rr'][i])
        c.eq('butterfly', (call + put) / 2 - atm, q['bf'][i])
        c.eq('at_the_money', atm, q['atm'][i])
    smile(c, df, (a, b))


def incomplete(c):
    """a risk reversal without its butterfly (or the reverse) is refused, never guessed"""
    missing = c.choice('missing', ['25_delta_rr', '25_delta_bf', 'atm_delta_neutral', '10_delta_bf'])
    names = ['10_delta_rr', '10_delta_bf', '25_delta_rr', '25_delta_bf', 'atm_delta_neutral']
    df = clean(frame(c, [(n, col(c, 'q' + n)) for n in names if n != missing]))
    try:
        c.call(split, df)
        refused = False
    except (AssertionError, ValueError, KeyError):
        refused = True
    c.true('refused', refused)


if __name__ == '__main__':
    run('C31', [('strategies', strategies), ('outright', outright), ('mixed', mixed), ('incomplete', incomplete)],
        bounds=dict(quotes='all real values', rows=ROWS, pillars=[list(x) for x in PILLARS], spellings='seven spellings of each quote type, three column orders'),
        assumptions=ASSUME_REAL)
