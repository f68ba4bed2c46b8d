"""generic shrinking of plans {'world', 'ops'}"""
from copy import deepcopy


def refs(x):
    if isinstance(x, dict):
        if 'ref' in x and len(x) == 1:
            yield x['ref']
        for v in x.values():
            yield from refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v)


def ids_in(ops):
    """every id-like string appearing in operations"""
    if isinstance(ops, str):
        yield ops
    elif isinstance(ops, dict):
        for v in ops.values():
            yield from ids_in(v)
    elif isinstance(ops, list):
        for v in ops:
            yield from ids_in(v)


def shrink_ops(plan, key='ops'):
    ops = plan[key]
    n = len(ops)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            if size == n and n > 1 and i == 0:
                pass
            cand = dict(plan)
            cand[key] = ops[:i] + ops[i + size:]
            if len(cand[key]) < n:
                yield cand
        size //= 2


def shrink_world(plan):
    objs = plan['world']['objs']
    used = set(i for i in ids_in(plan['ops']) if i in objs)
    todo = list(used)
    while todo:
        i = todo.pop()
        s = objs[i]
        for r in list(refs(s)) + list(s.get('legs', ())):
            if r in objs and r not in used:
                used.add(r)
                todo.append(r)
    if len(used) < len(objs):
        cand = deepcopy(plan)
        cand['world']['objs'] = {i: objs[i] for i in objs if i in used}
        yield cand
    for i, s in objs.items():
        if s['t'] == 'curve' and len(s.get('dom') or ()) > 1:
            for k in range(len(s['dom'])):
                cand = deepcopy(plan)
                t = cand['world']['objs'][i]
                if 'data' in t:
                    t['dom'].pop(k)
                    t['data'].pop(k)
                    yield cand
        for k in ('interp', 'dc', 'dt', 'tenor', 'bump', 'fixoff', 'payoff'):
            if s.get(k) is not None:
                cand = deepcopy(plan)
                cand['world']['objs'][i].pop(k)
                yield cand


def shrink_queries(plan):
    for i, op in enumerate(plan['ops']):
        if op[0] == 'check' and len(op[1]) > 1:
            n = len(op[1])
            size = n // 2
            while size >= 1:
                for k in range(0, n, size):
                    cand = dict(plan)
                    cand['ops'] = list(plan['ops'])
                    cand['ops'][i] = ['check', op[1][:k] + op[1][k + size:]]
                    yield cand
                size //= 2


def shrink(plan):
    yield from shrink_ops(plan)
    yield from shrink_queries(plan)
    yield from shrink_world(plan)
