"""Whether one compiler state is a copy of another: same shape and sharing, nothing mutable in common."""
import enum, types as pytypes
import c2po.cpt as cpt, c2po.types as T, c2po.log as log, c2po.stats as stats
ATOMS = (int, float, str, bytes, bool, type(None), enum.Enum, T.Type, log.FileLocation, pytypes.FunctionType)
OBJ = (cpt.Node, cpt.Context, stats.Stats)
SKIP = {'parents', 'replacement'}
def iso(roots, image=None, leaf=None):
    """roots: pairs (path, original, copy). Differences found; image maps the id of an original to its copy. leaf(x, y): verdict on nodes that stay opaque"""
    image = {} if image is None else image; back = {}; bad = []; todo = list(roots); keep = []; par = []
    while todo and len(bad) < 5:
        p, x, y = todo.pop()
        if leaf is not None:
            r = leaf(x, y)
            if r is not None:
                if r is not True: bad.append(f'{p}: {r}')
                continue
        if isinstance(x, ATOMS):
            if type(x) is not type(y) or x != y: bad.append(f'{p}: {x!r} becomes {y!r}'[:200])
            continue
        if type(x) is not type(y): bad.append(f'{p}: {type(x).__name__} becomes {type(y).__name__}'); continue
        if not isinstance(x, (tuple, list, dict, set, *OBJ)):        # assembled instructions: never changed
            if x != y: bad.append(f'{p}: {type(x).__name__} differ')
            continue
        if isinstance(x, tuple):
            if len(x) != len(y): bad.append(f'{p}: {len(x)} items become {len(y)}')
            else: todo += [(f'{p}[{i}]', a, b) for i, (a, b) in enumerate(zip(x, y))]
            continue
        if id(x) in image and isinstance(x, dict) and image[id(x)] is not y and id(y) not in back:      # nothing is added to tables once they are built
            keep.append((x, y)); back[id(y)] = x
            if len(x) != len(y): bad.append(f'{p}: {len(x)} entries become {len(y)}')
            else: todo += [(f'{p} key {str(k)[:20]}', k, l) for k, l in zip(x, y)] + [(f'{p}[{str(k)[:20]}]', a, y.get(k)) for k, a in x.items()]
            continue
        if id(x) in image:
            if image[id(x)] is not y: bad.append(f'{p}: what is one object becomes two ({type(x).__name__})')
            continue
        if id(y) in back: bad.append(f'{p}: two objects become one ({type(x).__name__})'); continue
        image[id(x)] = y; back[id(y)] = x; keep.append((x, y))
        if x is y and p.endswith('.members'): image.pop(id(x)); keep.pop(); continue      # the order of the members of a struct: never changed
        if x is y: bad.append(f'{p}: the copy holds the same {type(x).__name__} object as the original'); continue
        if isinstance(x, list):
            if len(x) != len(y): bad.append(f'{p}: {len(x)} items become {len(y)}')
            else: todo += [(f'{p}[{i}]', a, b) for i, (a, b) in enumerate(zip(x, y))]
        elif isinstance(x, dict):
            if len(x) != len(y): bad.append(f'{p}: {len(x)} entries become {len(y)}'); continue
            for (k, a), (l, b) in zip(x.items(), y.items()): todo += [(f'{p} key {str(k)[:20]}', k, l), (f'{p}[{str(k)[:20]}]', a, b)]
        elif isinstance(x, set): bad.append(f'{p}: unexpected set')
        elif isinstance(x, OBJ):
            a, b = vars(x), vars(y)
            if set(a) != set(b): bad.append(f'{p}: attributes {sorted(set(a) ^ set(b))}'); continue
            for k in reversed(sorted(a)):
                if k in SKIP: continue
                todo.append((f'{p}.{k}', a[k], b[k]))
            if 'parents' in a: par.append((p, x, y))
    if not bad and any(id(y) in image for _, y in keep): bad.append('the copy holds an object of the original: ' + next(type(y).__name__ for _, y in keep if id(y) in image))
    if not bad:
        for p, x, y in par:
            im = {id(v) for _, v in keep}; xs, ys = [q for q in x.parents if id(q) not in image], [q for q in y.parents if id(q) not in im]
            key = lambda q, f: (type(q).__name__, q.symbol, [f(c) for c in q.children])
            ok = {id(image[id(q)]) for q in x.parents if id(q) in image} == {id(q) for q in y.parents if id(q) in im} and not any(u is v for u in xs for v in ys)
            ok = ok and sorted(key(q, lambda c: id(image.get(id(c)))if id(c) in image else 0) for q in xs) == sorted(key(q, lambda c: id(c) if id(c) in im else 0) for q in ys)
            if not ok: bad.append(f'{p}: parents differ: {sorted(type(q).__name__ for q in x.parents)} and {sorted(type(q).__name__ for q in y.parents)}')
    return bad
def stale(roots):
    """nodes whose parents are no part of the state"""
    im = {}; iso([(p, x, x) for p, x in roots], im); return im
