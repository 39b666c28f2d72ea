"""C10: time series."""
import vlib, re, calendar
from rqutil import *
import resqpy.time_series as rts
import random


def text(x):
    y, m, d, h, f = x
    s = f'{y:04}-{m:02}-{d:02}'
    if f:
        t = h // 2
        s += ('T' if f < 3 else ' ') + f'{t // 3600:02}:{t // 60 % 60:02}:{t % 60:02}' + ('.500000' if h % 2 else '') + ('Z' if f == 2 else '')
    return s


def read(s):
    """The fields of a text; of an int, the int."""
    if s is None:
        return []
    if isinstance(s, int):
        return [s]
    m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)(?:([T ])(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z?))?', s)
    if not m:
        return [0, 0, 0, 0, 9]
    y, mo, d = (int(m[i]) for i in (1, 2, 3))
    if not m[4]:
        return [y, mo, d, 0, 0]
    fr = (m[8] or '0').rstrip('0')
    h = 2 * (3600 * int(m[5]) + 60 * int(m[6]) + int(m[7])) + {'': 0, '5': 1}.get(fr, 10**6)
    return [y, mo, d, h, (2 if m[9] else 1) if m[4] == 'T' else 3]


def read_dur(d):
    """Days and half seconds."""
    if d is None:
        return []
    d = d.duration
    return [d.days, 2 * d.seconds + {0: 0, 500000: 1}.get(d.microseconds, 10**6)]


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('p.epc')
    ts, geo = {}, set()
    halves = r.random() < 0.3
    fmts = r.choice([[0], [2], [1, 2], [0, 1, 2]])
    era = r.choice([(1999, 2001), (2020, 2020), (1896, 1904), (2095, 2101), (1950, 2050)])

    def stamp(near = None):
        if near and r.random() < 0.5:
            x = list(r.choice(near))
            if r.random() < 0.5:
                x[3] = max(0, min(172799, x[3] + r.choice([-2, 0, 2, 86400] + ([1, -1] if halves else []))))
                if x[4] == 0 and x[3]:
                    x[4] = r.choice([1, 2])
            if r.random() < 0.3:
                x[2] = min(max(1, x[2] + r.choice([-1, 1])), calendar.monthrange(x[0], x[1])[1])
            if not halves:
                x[3] -= x[3] % 2
            return x
        y = r.randint(*era)
        mo = r.choice([1, 2, 2, 3, 12, r.randint(1, 12)])
        n = calendar.monthrange(y, mo)[1]
        d = r.choice([1, n, r.randint(1, n)])
        f = r.choice(fmts)
        h = 0 if f == 0 else r.choice([0, 0, 86400, 172798, 2 * r.randint(0, 86399)])
        if halves and f and r.random() < 0.4:
            h += 1
        return [y, mo, d, h, f]

    def obs(o):
        return [read(x) for x in o.timestamps]

    def add(e, fn):
        ev.append(e)
        k, x = call(fn)
        e['res'] = {'k': k, 'what': x if k == 'exc' else ''}
        if 'obs' not in e:
            e['obs'] = []
        return k == 'ok'

    def fresh():
        return len(ts) + 1

    def put(n, o, g):
        ts[n] = o
        if g:
            geo.add(n)

    def dur():
        return [r.choice([0, 0, 1, 30, r.randint(0, 400)]), r.choice([0, 0, 12, 36]), r.choice([0, 0, 90]), r.choice([0, 0, 1, 100000])]

    def make():
        n = fresh()
        x = r.random()
        if x < 0.45:
            t = stamp()
            k = [r.choice([0, 0, 1, 3]) for _ in range(4)]
            e = {'op': 'new', 'n': n, 't': t, 'n4': k}

            def f():
                put(n, rts.TimeSeries(m, first_timestamp = text(t), daily = k[0] or r.choice([None, 0]), monthly = k[1] or None, quarterly = k[2] or None, yearly = k[3] or None), False)
                e['obs'] = obs(ts[n])
            return add(e, f)
        if x < 0.6:
            l = [r.choice([-1, 1]) * r.choice([0, 1, 1000, 65000000, 300000, r.randint(0, 10**9)]) for _ in range(r.randint(1, 4))]
            e = {'op': 'geo', 'n': n, 'l': l}

            def f():
                put(n, rts.GeologicTimeSeries.from_year_list(m, l), True)
                e['obs'] = obs(ts[n])
            return add(e, f)
        if x < 0.7:
            hrs = r.random() < 0.4
            nos = r.sample(range(0, 8), r.randint(1, 5))
            if r.random() < 0.2:
                nos.append(nos[0])
            cum = {k: 4 * k + r.randint(0, 3) for k in nos}
            if r.random() < 0.3:
                cum[nos[-1]] = r.randint(0, 40)
            cum = {k: (0 if k == 0 else c - c % 4 if k == min(nos) else c) for k, c in cum.items()}
            l = [[k, cum[k]] for k in nos]
            d0 = stamp()[:3] if r.random() < 0.7 else []
            start = stamp()[:3] if r.random() < 0.4 else []
            us = r.random() < 0.5
            e = {'op': 'nexus', 'n': n, 'l': l, 'date': d0, 'start': start}
            import datetime as dt

            def f():
                with open('run.sum', 'w') as fp:
                    fp.write('some heading\n\nNO. a b ' + ('HRS ' if hrs else 'DAYS ') + ('' if not d0 else 'MM/DD/YYYY' if us else 'DD/MM/YYYY') + (' x' if not d0 else '') + '\n')
                    first = min(nos)
                    for k, c in l:
                        d = ''
                        if d0:
                            z = dt.date(*d0) + dt.timedelta(days = (c - cum[first]) / 4)
                            p = (z.month, z.day) if us else (z.day, z.month)
                            d = (f'{p[0]:02}' if r.random() < 0.5 else str(p[0])) + f'/{p[1]:02}/{z.year:04}'
                        fp.write(f'{k} 1 2.5 {c / 4 * (24 if hrs else 1)} {d} 7.5 8\n')
                z = rts.time_series_from_nexus_summary('run.sum', parent_model = m, start_date = text(start + [0, 0]) if start else None)
                put(n, z, False)
                e['obs'] = obs(ts[n])
            return add(e, f)
        g = r.random() < 0.3
        l = [[r.choice([0, -1, 1000, 65000000, -300000])] for _ in range(r.randint(1, 4))] if g else [stamp() for _ in range(r.randint(1, 4))]
        if not g and r.random() < 0.3:
            l.append(list(l[0]))
        e = {'op': 'list', 'n': n, 'l': l}
        if not g and len({tuple(x[4:]) for x in l}) > 1:   # sorted as text
            for x in l:
                x[4] = l[0][4]
                if x[4] == 0:
                    x[3] = 0
        if not g:
            for x in l:
                x[3] -= x[3] % 2

        def f():
            put(n, rts.time_series_from_list([x[0] if g else text(x) for x in l], parent_model = m), g)
            e['obs'] = obs(ts[n])
        return add(e, f) or True

    make()
    while not ts:
        make()
    for _ in range(r.randint(5, 16)):
        x = r.random()
        if x < 0.12:
            make()
            continue
        n = r.choice(list(ts))
        o = ts[n]
        g = n in geo
        q = obs(o)
        if x < 0.3 and not g:
            ins = r.random() < 0.6
            t = stamp(q)
            if not ins and q and r.random() < 0.6:
                t = list(q[-1])
                t[0] += 1
                if t[1:3] == [2, 29]:
                    t[2] = 28
                if r.random() < 0.3:
                    t = list(q[-1])
            e = {'op': 'add', 'n': n, 't': t, 'ins': ins}

            def f():
                o.add_timestamp(text(t), allow_insertion = ins)
                e['obs'] = obs(o)
            add(e, f)
        elif x < 0.4 and not g:
            days = r.random() < 0.5
            d = [r.choice([0, 1, 29, 365, 1461, r.randint(0, 500)]), 0, 0, 0] if days else dur()
            if r.random() < 0.1:
                d = [-y for y in d]
            e = {'op': 'extend', 'n': n, 'dur': d}

            def f():
                if days:
                    o.extend_by_days(d[0])
                else:
                    o.extend_by_duration(rts.TimeDuration(days = d[0], hours = d[1], minutes = d[2] or None, seconds = d[3]))
                e['obs'] = obs(o)
            add(e, f)
        elif x < 0.55 and not g:
            t = stamp(q)
            e = {'op': 'find', 'n': n, 't': t}

            def f():
                v = lambda i: -1 if i is None else int(i)
                z = text(t)
                e['obs'] = {'eq': v(o.index_for_timestamp(z)), 'le': v(o.index_for_timestamp_not_later_than(z)), 'ge': v(o.index_for_timestamp_not_earlier_than(z)),
                            'near': v(o.index_for_timestamp_closest_to(z))}
            # equality is of texts
            if any(y[:4] == t[:4] and y[4] != t[4] for y in q) and r.random() < 0.5:
                t[4] = [y[4] for y in q if y[:4] == t[:4]][0]
            add(e, f)
        elif x < 0.55:
            t = [r.choice([y[0] for y in q] + [-5])]
            e = {'op': 'geofind', 'n': n, 't': t}

            def f():
                i = o.index_for_timestamp(t[0])
                e['obs'] = -1 if i is None else i
            add(e, f)
        elif x < 0.65:
            i = r.randint(-len(q) - 2, len(q) + 1)
            e = {'op': 'stamp', 'n': n, 'i': i}

            def f():
                e['obs'] = {'at': read(o.timestamp(i, as_string = False)), 'n': o.number_of_timestamps(), 'last': read(o.last_timestamp(as_string = False)),
                            'all': [read(y) for y in o.iter_timestamps(as_string = False)]}
            add(e, f)
        elif x < 0.73 and not g:
            i, j = r.randint(-1, len(q)), r.randint(0, len(q) - 1)
            e = {'op': 'span', 'n': n, 'i': i, 'j': j}

            def f():
                w = lambda y: [] if y is None else [int(y)]
                e['obs'] = {'dur': read_dur(o.duration_between_timestamps(i, j)), 'days': w(o.days_between_timestamps(i, j)), 'start': read_dur(o.duration_since_start(j)),
                            'step': read_dur(o.step_duration(j)), 'stepdays': w(o.step_days(j)), 'startdays': w(o.days_since_start(j))}
            add(e, f)
        elif x < 0.78:
            t, u, d = stamp(), stamp(), dur()
            if r.random() < 0.3:
                d = [-y for y in d]
            if r.random() < 0.3:
                d = [-d[0], d[1], d[2], d[3]]
            e = {'op': 'after', 't': t, 'u': u, 'dur': d}

            def f():
                z = rts.TimeDuration(*d)
                e['obs'] = {'after': read(z.timestamp_after_duration(text(t))), 'before': read(z.timestamp_before_duration(text(t))),
                            'dur': read_dur(rts.TimeDuration(earlier_timestamp = text(t), later_timestamp = text(u)))}
            add(e, f)
        elif x < 0.82:
            t = stamp()
            e = {'op': 'forms', 't': t}

            def f():
                c = lambda z: [int(y) for y in z.split('/')]
                e['obs'] = {'clean': read(rts.cleaned_timestamp(text(t))), 'simple': read(rts.simplified_timestamp(text(t))), 'uk': c(rts.colloquial_date(text(t))),
                            'us': c(rts.colloquial_date(text(t), usa_date_format = True))}
            add(e, f)
        elif x < 0.88:
            k = fresh()
            e = {'op': 'load', 'n': k, 'from': n}

            def f():
                o.create_xml(reuse = False)
                if r.random() < 0.4:
                    m.store_epc()
                    mm = rq.Model('p.epc')
                    z = rts.any_time_series(mm, o.uuid)
                    z = type(z)(mm, uuid = o.uuid)
                    z.set_model(m)
                else:
                    z = rts.any_time_series(m, o.uuid)
                if (z.timeframe == 'geologic') != g or rts.timeframe_for_time_series_uuid(m, o.uuid) != z.timeframe:
                    raise ValueError('timeframe')
                e['obs'] = obs(z)
                import resqpy.olio.uuid as bu
                z.uuid = bu.new_uuid()
                put(k, z, g)
            if not add(e, f):
                return
        elif x < 0.92:
            ns = [y for y in ts if (y in geo) == g]
            ns = r.sample(ns, r.randint(1, len(ns)))
            if halves:
                continue
            k = fresh()
            e = {'op': 'merge', 'n': k, 'ns': ns}

            def f():
                for y in ns:
                    if ts[y].root is None:
                        ts[y].create_xml(reuse = False)
                    else:
                        import resqpy.olio.uuid as bu
                        ts[y].uuid = bu.new_uuid()
                        ts[y].create_xml(reuse = False)
                z, u, l = rts.merge_timeseries_from_uuid(m, [ts[y].uuid for y in ns])
                if [obs(y) for y in l] != [sorted_obs(ts[y]) for y in ns] or str(u) != str(z.uuid):
                    raise ValueError('list of series')
                e['obs'] = obs(z)
                put(k, z, g)
            if not add(e, f):
                return
        elif x < 0.96:
            k = fresh()
            l = r.sample(range(len(q)), r.randint(1, len(q)))
            e = {'op': 'choose', 'n': k, 'from': n, 'l': l}

            def f():
                z = rts.selected_time_series(o, l, title = 'some')
                e['obs'] = obs(z)
                put(k, z, g)
            if not add(e, f):
                return
        else:
            k = r.choice(list(ts))
            e = {'op': 'equal', 'a': n, 'b': k, 'tol': 1}

            def f():
                if not g and r.random() < 0.5:
                    e['tol'] = r.choice([0, 2, 90000])
                    e['obs'] = bool(o.is_equivalent(ts[k], tol_seconds = e['tol']))
                else:
                    e['obs'] = bool(o.is_equivalent(ts[k]))
            add(e, f)


def sorted_obs(o):
    import datetime as dt
    return [read(x) for x in (sorted(o.timestamps) if o.timeframe == 'geologic' else sorted(o.timestamps, key = lambda t: dt.datetime.fromisoformat(t.rstrip('Z'))))]


PARTS = {'series': (driver, 'TimeSeriesTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCTimeSeries', 'MCTimeSeries.cfg')
    base = vlib.seed() * 1000003
    c.conform('series', driver, [{'seed': base + i} for i in range(8000 if quick else 100000)], 'TimeSeriesTrace')
