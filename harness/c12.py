"""C12: refinement mappings and boxes of cells."""
import vlib
from rqutil import *
import resqpy.olio.fine_coarse as fc
import resqpy.olio.box_utilities as bx
from fractions import Fraction
import random


def frac(v):
    out = []
    for x in np.asarray(v, dtype = float).flatten():
        f = Fraction(float(x)).limit_denominator(5000)
        out.append([f.numerator, f.denominator] if abs(float(f) - float(x)) < 1e-9 else [-999, 1])
    return out


def ints(v):
    return [int(x) for x in v]


def compositions(r, total, n):
    cut = sorted(r.sample(range(1, total), n - 1)) if n > 1 else []
    return [b - a for a, b in zip([0] + cut, cut + [total])]


def seen(o):
    """All of a mapping."""
    ratios = [[] if o.constant_ratios[a] is None and o.vector_ratios[a] is None else [int(o.ratio(a, c)) for c in range(o.coarse_extent_kji[a])] for a in range(3)]
    w = [[] if o.equal_proportions[a] else frac(o.proportions_for_axis(a)) for a in range(3)]
    b, side = (o.within_coarse_box, 'coarse') if o.within_coarse_box is not None else (o.within_fine_box, 'fine') if o.within_fine_box is not None else (None, 'none')
    return {'f': ints(o.fine_extent_kji), 'c': ints(o.coarse_extent_kji), 'r': ratios, 'w': w,
            'win': {'side': side, 'lo': [] if b is None else ints(b[0]), 'hi': [] if b is None else ints(b[1])}}


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    maps, model, files = {}, [None], [0]

    def add(e, fn):
        ev.append(e)
        k, x = call(fn)
        e['res'] = {'k': k, 'what': x if k == 'exc' else ''}
        e.setdefault('obs', [])
        return k == 'ok'

    def window(x):
        lo = [r.randint(0, 3) for _ in range(3)]
        w = [lo, [lo[a] + x[a] - 1 for a in range(3)]]
        if r.random() < 0.04:
            w[r.randint(0, 1)][r.randint(0, 2)] += r.choice([-1, 1])
        return w

    def make():
        n = len(maps) + 1
        if r.random() < 0.25:
            return tartan(n)
        c = [r.choice([1, 2, 3, r.randint(1, 5)]) for _ in range(3)]
        f = [x if r.random() < 0.2 else x * r.randint(1, 3) if r.random() < 0.6 else x + r.randint(0, 6) for x in c]
        if r.random() < 0.04:
            f[r.randint(0, 2)] = r.choice([0, 1])
        wf = window(f) if r.random() < 0.25 else []
        wc = window(c) if r.random() < 0.45 and (not wf or r.random() < 0.1) else []
        e = {'op': 'new', 'n': n, 'f': f, 'c': c, 'wf': wf, 'wc': wc}

        def fn():
            o = fc.FineCoarse(tuple(f) if r.random() < 0.5 else np.array(f), tuple(c), within_fine_box = np.array(wf) if wf else None, within_coarse_box = np.array(wc) if wc else None)
            maps[n] = o
            e['obs'] = seen(o)
        return add(e, fn)

    def tartan(n):
        c = [r.choice([1, 2, 5, r.randint(1, 9)]) for _ in range(3)]
        lo = [r.randint(0, x - 1) for x in c]
        hi = [r.randint(l, min(x - 1, l + 1)) for l, x in zip(lo, c)]
        fr = [r.choice([1, 2, 3, 5, r.randint(1, 9)]) for _ in range(3)]
        mode = r.choice(['linear', 'exponential'])
        rates = [] if r.random() < 0.4 else [r.choice([0, 1, 2, 3, 4, 4, 5, 8, 12, 40]) if mode == 'linear' else r.choice([-1, 0, 1, 1, 2]) for _ in range(3)]
        if r.random() < 0.05:
            if r.random() < 0.5:
                fr[r.randint(0, 2)] = 0
            elif r.random() < 0.5:
                mode = 'cubic'
                rates = []
            else:
                hi[0] = c[0]
        wc = window(c) if r.random() < 0.4 else []
        if wc and any(wc[1][a] - wc[0][a] + 1 != c[a] or wc[0][a] < 0 for a in range(3)):
            wc = []
        e = {'op': 'tartan', 'n': n, 'c': c, 'lo': lo, 'hi': hi, 'fr': fr, 'mode': mode, 'rates': rates, 'wf': [], 'wc': wc}

        def fn():
            k = {}
            if rates:
                k['decay_rates_kji'] = [x / 4 if mode == 'linear' else 0.0 if x < 0 else 0.5**x for x in rates]
            if wc:
                k['within_coarse_box'] = np.array(wc)
            if mode != 'exponential' or r.random() < 0.5:
                k['decay_mode'] = mode
            o = fc.tartan_refinement(tuple(c) if r.random() < 0.5 else np.array(c), np.array([lo, hi]), tuple(fr), **k)
            o.assert_valid()
            maps[n] = o
            e['obs'] = seen(o)
        return add(e, fn)

    def ratios(o, a):
        if o.constant_ratios[a] is None and o.vector_ratios[a] is None:
            return None
        return [int(o.ratio(a, c)) for c in range(o.coarse_extent_kji[a])]

    def bad_axes(o):
        return [a for a in range(3) if ratios(o, a) is None or not (o.equal_proportions[a] or [len(v) for v in o.vector_proportions[a]] == ratios(o, a))]

    while not maps:
        make()
    todo = r.randint(6, 18)
    for _ in range(todo):
        if r.random() < 0.08:
            make()
            continue
        n = r.choice(list(maps))
        o = maps[n]
        F, C = ints(o.fine_extent_kji), ints(o.coarse_extent_kji)
        unset = [a for a in range(3) if ratios(o, a) is None]
        a = r.choice(unset) if unset and r.random() < 0.8 else r.randint(0, 2)
        x = r.random()
        if x < (0.55 if unset else 0.15):
            even = [y for y in range(3) if F[y] % C[y] == 0]
            if r.random() < 0.5:
                which = r.choice([[a], [a], [1, 2], [0, 1, 2]])
                if len(which) > 1 and any(y not in even for y in which):
                    which = [which[0]] if which[0] not in even else [a]    # a refusal part way is not specified
                e = {'op': 'const', 'n': n, 'axes': which}

                def fn():
                    if which == [1, 2]:
                        o.set_ij_ratios_constant()
                    elif len(which) == 3:
                        o.set_all_ratios_constant()
                    else:
                        o.set_constant_ratio(which[0])
            else:
                v = compositions(r, F[a], C[a])
                if r.random() < 0.1:
                    y = r.randint(0, len(v) - 1)
                    r.choice([lambda: v.append(1), lambda: v.__setitem__(y, v[y] + 1), lambda: (v.__setitem__(y, 0), v.__setitem__(0, v[0] + F[a] - sum(v)))])()
                e = {'op': 'vec', 'n': n, 'axis': a, 'v': v}

                def fn():
                    z = r.choice([list, tuple, np.array])(v)
                    o.set_ratio_vector(a, z)
                    if isinstance(z, np.ndarray):
                        z[:] = 77
            add(e, fn)
        elif x < (0.7 if unset else 0.3):
            q = ratios(o, a)
            l = [[1] * y if r.random() < 0.2 else [r.randint(1, 5) for _ in range(y)] for y in (q or [1] * C[a])]
            if r.random() < 0.15:
                l = [[r.randint(1, 5)] * y for y in (q or [1] * C[a])]
            if r.random() < 0.08:
                r.choice([lambda: l.append([1]), lambda: l[-1].append(2), lambda: l[0].__setitem__(0, 0), lambda: l[-1].__setitem__(-1, -1)])()
            e = {'op': 'props', 'n': n, 'axis': a, 'l': l}

            def fn():
                g = r.choice([1, 2.0, 0.1])
                o.set_proportions_list_of_vectors(a, [r.choice([list, tuple, np.array])([y * g for y in z]) for z in l])
            add(e, fn)
        elif x < 0.34:
            k = r.choice([0, 1, 2, 3])
            e = {'op': 'equal', 'n': n, 'axis': k}
            add(e, lambda: o.set_all_proportions_equal() if k == 3 else o.set_equal_proportions(k))
        elif x < 0.4:
            add({'op': 'valid', 'n': n}, o.assert_valid)
        elif x < 0.58:
            how = r.randint(0, 3)
            e = {'op': 'look', 'n': n}

            def fn():
                if how == 0:
                    e['obs'] = [ints(v) for v in o.coarse_for_fine()]
                elif how == 1:
                    e['obs'] = [ints(o.coarse_for_fine_axial_vector(y)) for y in range(3)]
                elif how == 2:
                    e['obs'] = [[int(o.coarse_for_fine_axial(y, z)) for z in range(F[y])] for y in range(3)]
                else:
                    b = [r.randint(0, z - 1) for z in F]
                    e['obs'] = [[int(o.coarse_for_fine_kji0([z if w == y else b[w] for w in range(3)])[y]) for z in range(F[y])] for y in range(3)]
            add(e, fn)
        elif unset:
            continue
        elif x < 0.66:
            c = [r.randint(0, y - 1) for y in C]
            e = {'op': 'cell', 'n': n, 'c': c}

            def fn():
                b = o.fine_box_for_coarse(tuple(c))
                e['obs'] = {'ratios': ints(o.ratios(c)), 'base': ints(o.fine_base_for_coarse(c)), 'lo': ints(b[0]), 'hi': ints(b[1])}
            add(e, fn)
        elif x < 0.76:
            bad = bad_axes(o)
            if a in bad:
                continue
            c = r.randint(0, C[a] - 1)
            e = {'op': 'slice', 'n': n, 'axis': a, 'c': c}

            def fn():
                p = o.proportion(a, c)
                if not bad and r.random() < 0.3:
                    p = list(o.proportions([c if y == a else 0 for y in range(3)]))[a]
                e['obs'] = {'p': frac(p), 'q': frac(o.interpolation(a, c)), 'all': frac(o.proportions_for_axis(a))}
            add(e, fn)
        elif x < 0.82:
            e = {'op': 'columns', 'n': n}

            def fn():
                e['obs'] = {'cols': [int(o.fine_for_coarse_natural_column_index(y)) for y in range(C[1] * C[2])],
                            'pillars': [int(o.fine_for_coarse_natural_pillar_index(y)) for y in range((C[1] + 1) * (C[2] + 1))]}
            add(e, fn)
        elif x < 0.9:
            bad = r.random() < 0.05
            e = {'op': 'cartref', 'n': n, 'name': 'LG 1' if bad else r.choice(['LG1', 'FINE_GRID_9']), 'root': r.choice(['', '', 'ROOT', 'LGR_A']), 'bad': bad,
                 'append': files[0] > 0 and r.random() < 0.6, 'pre': r.choice([0, 0, 2]), 'post': r.choice([0, 1])}

            def fn():
                k = {'mode': 'a' if e['append'] else 'w'} if not e['append'] or r.random() < 0.5 else {}
                o.write_cartref('ref.dat', e['name'], root_name = e['root'] or None, preceeding_blank_lines = e['pre'], trailing_blank_lines = e['post'], **k)
                t = open('ref.dat').read()
                if not t.endswith('\n'):
                    raise ValueError('end of file')
                e['obs'] = t[:-1].split('\n')
            if add(e, fn):
                files[0] += 1
        else:
            bad = bad_axes(o)
            if bad or o.within_fine_box is not None and o.within_coarse_box is not None:
                continue
            eq = all(o.equal_proportions)
            refine = r.random() < (0.5 if eq else 2)
            if refine and o.within_fine_box is not None or not refine and o.within_coarse_box is not None:
                refine = not refine
            if not refine and not eq:
                continue
            to = len(maps) + 1
            e = {'op': 'store', 'n': n, 'to': to, 'refine': refine}

            def fn():
                import resqpy.grid as grr
                w = o.within_coarse_box if refine else o.within_fine_box
                big = C if refine else F
                px = [(int(w[1][y]) + 1 if w is not None else big[y]) + r.choice([0, 0, 2]) for y in range(3)]
                m = new_model('fc.epc')
                par = grr.RegularGrid(m, extent_kji = tuple(px), crs_uuid = m.crs_uuid, title = 'parent')
                par.create_xml(add_cell_length_properties = False)
                g = grr.RegularGrid(m, extent_kji = tuple(F if refine else C), crs_uuid = m.crs_uuid, title = 'child', as_irregular_grid = True)
                g.set_parent(par.uuid, refine, o)
                g.make_regular_points_cached()
                g.write_hdf5()
                g.create_xml(write_geometry = True, add_cell_length_properties = False)
                m.store_epc()
                m.h5_release()
                if r.random() < 0.3:
                    m = rq.Model('fc.epc')
                z = grr.Grid(m, uuid = g.uuid)
                if str(z.extract_parent()) != str(par.uuid):
                    raise ValueError('parent')
                maps[to] = z.parent_window
                e['obs'] = seen(z.parent_window)
                m.h5_release()
            add(e, fn)


def box_driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']

    def add(e, fn):
        ev.append(e)
        k, x = call(fn)
        e['res'] = {'k': k, 'what': x if k == 'exc' else ''}
        e.setdefault('obs', [])
        return k == 'ok'

    def box(top = 6, near = None):
        if near and r.random() < 0.7:
            lo = [min(max(0, y + r.choice([-2, -1, 0, 0, 1])), 9) for y in near[0]]
            hi = [max(l, y + r.choice([-2, -1, 0, 0, 1])) for l, y in zip(lo, near[1])]
            return [lo, hi]
        lo = [r.randint(0, top) for _ in range(3)]
        return [lo, [x + r.choice([0, 1, 2, 3]) for x in lo]]

    A = lambda b: np.array(b, dtype = int)
    L = lambda b: [ints(b[0]), ints(b[1])]
    cur = [None, None]
    for _ in range(r.randint(5, 14)):
        x = r.random()
        if cur[0] is None or x < 0.1:
            b = box()
            m = (np.array([r.random() for _ in range(int(np.prod(A(b)[1] - A(b)[0] + 1)))]) < r.choice([0.03, 0.2, 0.6, 1])).tolist()
            e = {'op': 'set', 'b': b, 'm': m, 'obs': {'b': b, 'm': m}}
            add(e, lambda: None)
            cur[0], cur[1] = A(b), np.array(m, dtype = bool).reshape(bx.extent_of_box(A(b)))
        elif x < 0.4:
            b = L(cur[0])
            if r.random() < 0.5:
                d = box(near = b)
                t = np.zeros((2, 3), dtype = int)
                e = {'op': 'overlap', 'b': d, 'd': b}

                def fn():
                    ok = bx.overlapping_boxes(A(d), cur[0], t)
                    e['obs'] = {'some': bool(bx.boxes_overlap(A(d), cur[0])), 'ok': bool(ok), 't': L(t)}
                    if L(cur[0]) != b:
                        raise ValueError('box has changed')
                if not add(e, fn) or not e['obs']['ok'] or L(t) == b or [L(t)[0], L(t)[1]] == b:
                    continue
                t = L(t)
            else:
                a = r.randint(0, 2)
                t = [list(b[0]), list(b[1])]
                if b[0][a] == b[1][a]:
                    continue
                z = r.randint(b[0][a], b[1][a] - 1)
                if r.random() < 0.5:
                    t[1][a] = z
                else:
                    t[0][a] = z + 1
            e = {'op': 'trim', 't': t}

            def fn():
                keep = cur[1].copy()
                m = bx.trim_box_by_box_returning_new_mask(cur[0], A(t), cur[1])
                if not np.all(keep == cur[1]):
                    raise ValueError('mask has changed')
                cur[1] = m
                e['obs'] = {'b': L(cur[0]), 'm': m.flatten().tolist()}
                if tuple(m.shape) != tuple(bx.extent_of_box(cur[0])):
                    raise ValueError('shape of mask')
            if not add(e, fn):
                return
        elif x < 0.5:
            e = {'op': 'tight'}

            def fn():
                m = bx.trim_box_to_mask_returning_new_mask(cur[0], cur[1])
                cur[1] = m
                e['obs'] = {'b': L(cur[0]), 'm': m.flatten().tolist()}
                if tuple(m.shape) != tuple(bx.extent_of_box(cur[0])):
                    raise ValueError('shape of mask')
            add(e, fn)
        elif x < 0.6:
            b = box()
            e = {'op': 'one', 'b': b}

            def fn():
                B = A(b)
                e['obs'] = {'extent': ints(bx.extent_of_box(B)), 'volume': int(bx.volume_of_box(B)), 'centre': ints(bx.central_cell(B)), 'listed': bx.string_iijjkk1_for_box_kji0(B),
                            'spaced': bx.spaced_string_iijjkk1_for_box_kji0(B), 'colons': bx.spaced_string_iijjkk1_for_box_kji0(B, colon_separator = ':')}
            add(e, fn)
        elif x < 0.66:
            b = box()
            if r.random() < 0.2:
                b[1][r.randint(0, 2)] -= 1
            e = {'op': 'words', 'b': b}

            def fn():
                w = [str(b[s][a] + 1) for a in (2, 1, 0) for s in (0, 1)] + ([] if r.random() < 0.7 else ['7.5'])
                e['obs'] = L(bx.box_kji0_from_words_iijjkk1(w))
            add(e, fn)
        elif x < 0.76:
            b = box()
            c = [r.randint(b[0][a] - 1, b[1][a] + 1) if r.random() < 0.3 else r.randint(b[0][a], b[1][a]) for a in range(3)]
            e = {'op': 'cell', 'b': b, 'c': c, 'base': r.randint(0, 1)}

            def fn():
                k = {'based_0_or_1': e['base']} if e['base'] or r.random() < 0.5 else {}
                z = bx.local_box_cell_from_parent_cell(A(b), np.array(c), **k)
                e['obs'] = {'within': bool(bx.cell_in_box(np.array(c), A(b))), 'local': [] if z is None else ints(z), 'parent': ints(bx.parent_cell_from_local_box_cell(A(b), np.array(c), **k)),
                            'single': L(bx.single_cell_box(np.array(c)))}
            add(e, fn)
        elif x < 0.84:
            b = box()
            if r.random() < 0.2:
                b[r.randint(0, 1)][r.randint(0, 2)] -= 3
            y = [max(1, b[1][a] + r.choice([0, 1, 1, 1, 4])) for a in range(3)]
            e = {'op': 'valid', 'b': b, 'x': y}

            def fn():
                e['obs'] = bool(bx.valid_box(A(b), tuple(y) if r.random() < 0.5 else np.array(y)))
            add(e, fn)
        elif x < 0.88:
            y = [r.randint(1, 9) for _ in range(3)]
            e = {'op': 'full', 'x': y}

            def fn():
                e['obs'] = L(bx.full_extent_box0(np.array(y)))
            add(e, fn)
        elif x < 0.94:
            b, d = box(), box()
            z = r.random()
            if z < 0.15:
                b = []
            if z < 0.08 or z > 0.9:
                d = []
            e = {'op': 'union', 'b': b, 'd': d}

            def fn():
                B, D = (A(v) if v else None for v in (b, d))
                u = bx.union(B, D)
                e['obs'] = [] if u is None else L(u)
                if u is not None:
                    u[:] = 99
                if any(v and L(V) != v for v, V in ((b, B), (d, D))):
                    raise ValueError('shared')
            add(e, fn)
        else:
            b = box()
            d = box(near = b)
            e = {'op': 'overlap', 'b': b, 'd': d}

            def fn():
                t = np.full((2, 3), 5)
                ok = bx.overlapping_boxes(A(b), A(d), t)
                e['obs'] = {'some': bool(bx.boxes_overlap(A(b), A(d))), 'ok': bool(ok), 't': L(t)}
            add(e, fn)


PARTS = {'map': (driver, 'FineCoarseTrace'), 'box': (box_driver, 'BoxTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCFineCoarse', 'MCFineCoarse.cfg' if quick else 'MCFineCoarse_thorough.cfg')
    c.model('MCBox', 'MCBox.cfg' if quick else 'MCBox_thorough.cfg')
    base = vlib.seed() * 1000003
    c.conform('map', driver, [{'seed': base + i} for i in range(5000 if quick else 60000)], 'FineCoarseTrace')
    c.conform('box', box_driver, [{'seed': base + i} for i in range(3000 if quick else 60000)], 'BoxTrace')
