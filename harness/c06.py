"""C06: objects read back as they were made."""
import vlib, random
from objects import *

KEYS = [0, 1, 2, 3, 7, 9, 12, 48, 49, 50, 51, 60, 61, 300, -1, -5]
VALS = ['a', 'b', 'c d', 'x & <y>', 'é', 'zz']


def lookup_driver(params, tr):
    r = random.Random(params['seed'])
    m = new_model('l.epc')
    ev = tr['events']
    keys = r.sample(KEYS, r.choice([0, 1, 2, 4, 8])) if r.random() < 0.6 else list(range(r.randint(1, 6))) + r.sample(range(45, 64), r.choice([0, 1, 15, 19]))
    d = {k: r.choice(VALS) for k in keys}
    o = None

    def obs():
        x = o.as_dict()
        ks = sorted(x)
        return {'keys': ks, 'vals': [x[k] for k in ks]}

    def add(e, fn):
        st, v = call(fn)
        e['res'] = {'k': st, 'v': v if st == 'ok' and isinstance(v, (str, list)) else '', 'what': '' if st == 'ok' else v}
        ev.append(e)
        return st == 'ok'

    def new():
        nonlocal o
        o = rqp.StringLookup(m, int_to_str_dict = dict(d) if d else None, title = 't')
    add({'op': 'new', 'keys': list(d), 'vals': list(d.values())}, new)
    ev[-1]['obs'] = obs()
    known = set(d)
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if x < 0.35 or not known:
            k, v = r.choice(KEYS) if r.random() < 0.6 or not known else r.choice(sorted(known)), r.choice(VALS)
            if not add({'op': 'set', 'k': k, 'v': v}, lambda: o.set_string(k, v)):
                return
            known.add(k)
            ev[-1]['obs'] = obs()
        elif x < 0.6:
            k = r.choice(KEYS) if r.random() < 0.6 else r.choice(sorted(known)) + r.choice([0, 0, 1, -1])
            add({'op': 'get', 'k': k}, lambda: str(o.get_string(k)) if o.get_string(k) is not None else '(none)')
        elif x < 0.8:
            v = r.choice(VALS)
            add({'op': 'index', 'v': v}, lambda: '(none)' if o.get_index_for_string(v) is None else str(o.get_index_for_string(v)))
        elif x < 0.9:
            add({'op': 'list'}, lambda: [y for y in o.get_list() if y is not None])
            ev[-1]['res']['order'] = sorted(o.as_dict())
        else:
            def cycle():
                nonlocal o
                o = rqp.StringLookup(m, int_to_str_dict = o.as_dict(), title = 't')
                o.create_xml(reuse = False)
                m2 = m
                if r.random() < 0.3:
                    m.store_epc()
                    m2 = rq.Model('l.epc')
                o = rqp.StringLookup(m2, uuid = o.uuid)
            if not add({'op': 'reload'}, cycle):
                return
            ev[-1]['obs'] = obs()


PARTS = {'objects': (load_driver, 'ObjectsTrace'), 'lookup': (lookup_driver, 'StringLookupTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCObjects', 'MCObjects.cfg')
    c.model('MCStringLookup', 'MCStringLookup.cfg')
    base = vlib.seed() * 1000003
    c.conform('objects', load_driver, [{'seed': base + i} for i in range(4000 if quick else 60000)], 'ObjectsTrace')
    c.conform('lookup', lookup_driver, [{'seed': base + i} for i in range(2000 if quick else 20000)], 'StringLookupTrace')
