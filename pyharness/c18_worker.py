"""Generated programs against the Python class, checked step by step against a model (run by c18.py)

c18_worker.py run PKGDIR --seed S --cases N --time T --stats F --replay F --current F
c18_worker.py replay PKGDIR FILE
"""
import argparse
import collections
import gc
import hashlib
import json
import os
import sys
import time

import numpy

RULE = ('programs of up to 14 steps over up to three ConserveInterp2D objects: set the source or destination grid (rectilinear, '
        'sheared, perturbed, sector; C or Fortran order, transposed, strided, reversed, read only, big endian, float32 or integer '
        'arrays of any precision, stretched rows, '
        'in any unit, that are overwritten afterwards), compute the weights, apply to a field in any of these layouts, scribble over a '
        'previous result, delete; each step is compared with a model that clips polygons in Python and knows which calls must be '
        'refused. Non-trivial: an apply was accepted whose cells overlap partly, and the program refused a call, replaced a grid, '
        'used an unusual array layout or mixed objects')

LAYOUTS = ['c', 'f', 't', 'strided', 'reversed', 'f32', 'i32', 'i64', 'readonly', 'big', 'sub', 'exact', 'stretched', 'long']
NUMBERS = {'f32': [numpy.float32], 'i32': [numpy.int32], 'i64': [numpy.int64], 'long': [numpy.longdouble],
           'exact': [numpy.bool_, numpy.uint8, numpy.int8, numpy.int16, numpy.uint32, numpy.float16]}


class Fail(Exception):
    pass


def layout(values, kind):
    """a new array with these values and the given memory layout or type"""
    a = numpy.array(values, numpy.float64)
    if kind == 'f':
        return numpy.asfortranarray(a)
    if kind == 't':
        return numpy.ascontiguousarray(a.T).T
    if kind == 'strided':
        b = numpy.full((2 * a.shape[0], 3 * a.shape[1]), 77.7)
        b[::2, ::3] = a
        return b[::2, ::3]
    if kind == 'reversed':
        return numpy.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if kind == 'sub':
        b = numpy.full((a.shape[0] + 2, a.shape[1] + 3), -55.5)
        b[1:-1, 2:-1] = a
        return b[1:-1, 2:-1]
    # a type that can represent the values, the smallest one for 'exact'
    for t in NUMBERS.get(kind, []):
        with numpy.errstate(all='ignore'):
            b = a.astype(t)
            if (b.astype(numpy.float64) == a).all():
                return b
    # rows or columns that are the same memory
    if kind == 'stretched' and (a == a[:1]).all():
        return numpy.broadcast_to(a[:1].copy(), a.shape)
    if kind == 'stretched' and (a == a[:, :1]).all():
        return numpy.broadcast_to(a[:, :1].copy(), a.shape)
    if kind == 'readonly':
        a.setflags(write=False)
    if kind == 'big':
        return a.astype('>f8')
    return a


def regular(n0, n1, h):
    i, j = numpy.meshgrid(numpy.arange(n0), numpy.arange(n1), indexing='ij')
    return (h * i).tolist(), (h * j).tolist()


def quads(x, y):
    x, y = numpy.array(x, float), numpy.array(y, float)
    res = []
    for i in range(x.shape[0] - 1):
        for j in range(x.shape[1] - 1):
            res.append([(x[a, b], y[a, b]) for a, b in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))])
    return res


def area(p):
    x0, y0 = p[0]
    s = 0.
    for k in range(1, len(p) - 1):
        s += (p[k][0] - x0) * (p[k + 1][1] - y0) - (p[k + 1][0] - x0) * (p[k][1] - y0)
    return 0.5 * s


def clip(p, q):
    """area of the intersection of convex polygons, both counterclockwise"""
    out = p
    for k in range(len(q)):
        (ax, ay), (bx, by) = q[k], q[(k + 1) % len(q)]
        src, out = out, []
        for m in range(len(src)):
            c, d = src[m], src[(m + 1) % len(src)]
            sc = (bx - ax) * (c[1] - ay) - (by - ay) * (c[0] - ax)
            sd = (bx - ax) * (d[1] - ay) - (by - ay) * (d[0] - ax)
            if sc >= 0:
                out.append(c)
            if (sc > 0 and sd < 0) or (sc < 0 and sd > 0):
                t = sc / (sc - sd)
                out.append((c[0] + t * (d[0] - c[0]), c[1] + t * (d[1] - c[1])))
        if len(out) < 3:
            return 0.
    return abs(area(out))


def box(p):
    return min(a for a, _ in p), max(a for a, _ in p), min(b for _, b in p), max(b for _, b in p)


def perimeter(p):
    return sum(numpy.hypot(p[k][0] - p[k - 1][0], p[k][1] - p[k - 1][1]) for k in range(len(p)))


def reference(src, dst):
    """(overlap areas / dst areas, tolerances, dst cells that are far from the source grid, whether there is a partial overlap)"""
    sq, dq = quads(*src), quads(*dst)
    w = numpy.zeros((len(dq), len(sq)))
    tol = numpy.zeros(len(dq))
    away = numpy.ones(len(dq), bool)
    sbox = numpy.array([box(q) for q in sq])
    big = max(abs(v) for g in (sq, dq) for q in g for p in q for v in p)
    partial = False
    for i, d in enumerate(dq):
        da = area(d)
        x0, x1, y0, y1 = box(d)
        m = 1e-6 * big
        near = numpy.nonzero((sbox[:, 0] <= x1 + m) & (sbox[:, 1] >= x0 - m) & (sbox[:, 2] <= y1 + m) & (sbox[:, 3] >= y0 - m))[0]
        away[i] = not len(near)
        length, least = perimeter(d), 0.
        for j in near:
            s = sq[j]
            length += perimeter(s)
            least += min(da, area(s))
            w[i, j] = clip(d, s) / da
            partial = partial or (1e-3 < w[i, j] < 0.999 and w[i, j] * da < 0.999 * area(s))
        tol[i] = 1e-9 * (1 + least / da) + 2e-12 * big * length / da
    return w, tol, away, partial


class Model:
    def __init__(self):
        self.src = self.dst = None
        self.weights = False
        self.ref = None
        self.given = None  # (result array, expected values): the array that the last apply returned
        self.old = []  # arrays returned before the destination grid was replaced, with their values


def run_case(module, case, info):
    objs, models = {}, {}
    info.update(refused=0, accepted=0, partial=False, replaced=False, odd=False, large=False)

    def check(cond, text):
        if not cond:
            raise Fail(text)

    def expect_refused(call, what):
        try:
            call()
        except RuntimeError:
            info['refused'] += 1
            return
        raise Fail(what + ' must raise a RuntimeError')

    def unaffected(step):
        for k, m in models.items():
            for arr, values in m.old + ([m.given] if m.given is not None else []):
                check(arr.shape == values.shape and numpy.array_equal(arr, values, equal_nan=True),
                      'step %d changed an array returned earlier by object %s' % (step, k))

    for step, op in enumerate(case['ops']):
        k = op['obj']
        if op['op'] == 'del':
            if k in objs:
                m = models.pop(k)
                if m.given is not None:
                    m.old.append(m.given)
                    m.given = None
                if m.old:
                    m.src = m.dst = None
                    models['deleted %d' % step] = m
                del objs[k]
                gc.collect()
            continue
        if k not in objs:
            objs[k] = module.ConserveInterp2D()
            models[k] = Model()
        o, m = objs[k], models[k]
        if op['op'] in ('src', 'dst'):
            if 'regular' in op:
                info['large'] = True
                op = dict(op)
                op['x'], op['y'] = regular(*op['regular'])
            x, y = layout(op['x'], op['lx']), layout(op['y'], op['ly'])
            info['odd'] = info['odd'] or op['lx'] != 'c'
            if op['op'] == 'src':
                p = {'list': [False, False], 'tuple': (0, 0), 'array': numpy.array([False, False])}[op['periodicity']]
                info['replaced'] = info['replaced'] or m.src is not None
                o.setSrcGrid(p, x, y)
                m.src = (op['x'], op['y'])
            else:
                info['replaced'] = info['replaced'] or m.dst is not None
                if m.given is not None:
                    m.old.append(m.given)
                    m.given = None
                o.setDstGrid(x, y)
                m.dst = (op['x'], op['y'])
            m.weights, m.ref = False, None
            for a, b, n in ((x, op['x'], 'x'), (y, op['y'], 'y')):
                check((a == numpy.array(b)).all(), 'step %d modified the %s coordinates that were passed in' % (step, n))
                if a.flags.writeable:
                    a[...] = 99  # the object must have its own copy
            del x, y, a
        elif op['op'] == 'compute':
            if m.src is None or m.dst is None:
                expect_refused(o.computeWeights, 'step %d: computeWeights without %s grid' % (step, 'source' if m.src is None else 'destination'))
            else:
                o.computeWeights()
                m.weights = True
        elif op['op'] == 'apply':
            n = (2, 2) if m.src is None else (len(m.src[0]) - 1, len(m.src[0][0]) - 1)
            f = numpy.resize(numpy.array(op['data'], float) * op.get('factor', 1), n)
            arr = layout(f, op['layout'])
            if not m.weights:
                expect_refused(lambda: o.apply(arr), 'step %d: apply without up to date weights' % step)
            else:
                info['odd'] = info['odd'] or op['layout'] != 'c'
                if m.ref is None:
                    m.ref = reference(m.src, m.dst)
                w, tol, away, partial = m.ref
                r = o.apply(arr)
                check((arr == f).all(), 'step %d: apply modified the source data' % step)
                check(isinstance(r, numpy.ndarray) and r.dtype == numpy.float64, 'step %d: apply returns %s' % (step, type(r)))
                shape = (len(m.dst[0]) - 1, len(m.dst[0][0]) - 1)
                check(r.shape == shape, 'step %d: result of shape %s, should be %s' % (step, r.shape, shape))
                want = w.dot(f.ravel())
                err = numpy.abs(r.ravel() - want)
                bad = numpy.nonzero(~(err <= tol * numpy.abs(f).max()))[0]
                check(not len(bad), 'step %d: cell %s is %r, should be %r' %
                      (step, bad[:1], r.ravel()[bad[:1]].tolist(), want[bad[:1]].tolist()))
                bad = numpy.nonzero((r.ravel() != 0) & away)[0]
                check(not len(bad), 'step %d: cell %s is outside the source grid but not zero' % (step, bad[:1]))
                m.given = (r, r.copy())
                info['accepted'] += 1
                info['partial'] = info['partial'] or partial
        elif op['op'] == 'scribble':
            if m.given is not None:
                m.given[0][...] = float(op['value'])
                m.given = (m.given[0], m.given[0].copy())
        unaffected(step)
    info['objects'] = len(set(op['obj'] for op in case['ops']))


def nontrivial(info):
    return bool(info['accepted'] and info['partial'] and
                (info['refused'] or info['replaced'] or info['odd'] or info['objects'] > 1))


def load(pkgdir):
    sys.path.insert(0, pkgdir)
    import sigrid
    if not sigrid.so:
        raise SystemExit(2)
    import sigrid.conserveInterp2D as module
    return module


def strategy():
    from hypothesis import strategies as st

    def unit(lo, hi, den):
        return st.integers(int(lo * den), int(hi * den)).map(lambda v: v / den)

    @st.composite
    def grid(draw, scale):
        x, y = draw(unscaled())
        # the same units for all grids of a program
        return [[v * scale for v in l] for l in x], [[v * scale for v in l] for l in y]

    @st.composite
    def unscaled(draw):
        n0, n1 = draw(st.integers(2, 5)), draw(st.integers(2, 5))
        if draw(st.integers(0, 80)) == 0:
            # many cells
            n0, n1 = draw(st.integers(2, 4)), draw(st.integers(20, 300))
            if draw(st.booleans()):
                n0, n1 = n1, n0
            h = draw(unit(0.0625, 0.5, 16))
            i, j = numpy.meshgrid(numpy.arange(n0), numpy.arange(n1), indexing='ij')
            return (h * i).tolist(), (h * j).tolist()
        kind = draw(st.sampled_from(['int', 'rect', 'sheared', 'perturbed', 'sector']))
        if kind == 'sector':
            r0, dr = draw(unit(0.25, 2, 8)), draw(unit(0.25, 1, 8))
            t0, dt = draw(unit(0, 6, 8)), draw(unit(0.25, 0.875, 8))
            i, j = numpy.meshgrid(numpy.arange(n0), numpy.arange(n1), indexing='ij')
            r, t = r0 + dr * i, t0 + dt * j
            return (r * numpy.cos(t)).tolist(), (r * numpy.sin(t)).tolist()
        den = 1 if kind == 'int' else 16
        step = unit(1 if kind == 'int' else 0.25, 3 if kind == 'int' else 1.5, den)
        u = numpy.cumsum([draw(unit(-2, 2, den))] + [draw(step) for _ in range(n0 - 1)])
        v = numpy.cumsum([draw(unit(-2, 2, den))] + [draw(step) for _ in range(n1 - 1)])
        x = u[:, None] + 0 * v[None, :]
        y = 0 * u[:, None] + v[None, :]
        if kind == 'sheared':
            a, b = draw(unit(-1, 1, 16)), draw(unit(-0.5, 0.5, 16))
            x, y = x + a * y, y + b * (x + a * y)
        if kind == 'perturbed':
            for i in range(n0):
                for j in range(n1):
                    x[i, j] += draw(st.integers(-3, 3)) / 64
                    y[i, j] += draw(st.integers(-3, 3)) / 64
        return x.tolist(), y.tolist()

    lay = st.sampled_from(LAYOUTS)

    @st.composite
    def program(draw):
        ops, seen = [], []
        # thousands of cells in one of the grids
        many = draw(st.integers(0, 399)) == 100
        nobj = draw(st.sampled_from([1, 1, 2, 3]))
        scale = draw(st.sampled_from([1, 1, 1, 1, 0.1, 1e-7, 1e6]))
        data = st.lists(st.integers(-8, 8).map(lambda v: v / 2), min_size=1, max_size=9)
        names = ['src', 'dst', 'compute', 'apply', 'scribble', 'del', 'cycle']
        for turn in range(draw(st.integers(1, 7))):
            name = 'cycle' if turn == 0 and draw(st.booleans()) else draw(st.sampled_from(names + ['cycle', 'cycle', 'compute', 'apply', 'src', 'dst']))
            k = draw(st.integers(0, nobj - 1))
            todo = [name]
            if name == 'cycle':
                todo = [['src', 'dst', 'compute', 'apply'], ['dst', 'src', 'compute', 'apply'], ['src', 'compute', 'apply'],
                        ['dst', 'compute', 'apply'], ['compute', 'apply', 'apply']][draw(st.integers(0, 4 if seen else 1))]
            for t in todo:
                op = {'op': t, 'obj': k}
                if t in ('src', 'dst'):
                    if many:
                        op['regular'] = [draw(st.integers(66, 80)), draw(st.integers(66, 80)), draw(unit(0.0625, 0.25, 16)) * scale]
                        many = False
                    elif seen and draw(st.integers(0, 5)) == 0:
                        op['x'], op['y'] = seen[draw(st.integers(0, len(seen) - 1))]
                    else:
                        op['x'], op['y'] = draw(grid(scale))
                    if 'x' in op:
                        seen.append((op['x'], op['y']))
                    op.update(lx=draw(lay), ly=draw(lay))
                    if t == 'src':
                        op['periodicity'] = draw(st.sampled_from(['list', 'tuple', 'array']))
                elif t == 'apply':
                    op.update(data=draw(data), layout=draw(lay), factor=draw(st.sampled_from([1, 1, 1, 0.1, 1e-8, 1e9])))
                elif t == 'scribble':
                    op['value'] = draw(st.sampled_from([1e10, -3.0, 0.0, 'nan', 'inf']))
                ops.append(op)
        return {'ops': ops[:14]}

    return program()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('pkg')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cases', type=int, default=1000)
    ap.add_argument('--time', type=float, default=60)
    ap.add_argument('--stats')
    ap.add_argument('--replay')
    ap.add_argument('--current')
    a = ap.parse_args()
    module = load(a.pkg)
    if a.mode == 'replay':
        data = json.load(open(a.file))
        try:
            # the failure may need what earlier cases left behind
            for case in data.get('history', []) + [data['case']]:
                run_case(module, case, {})
        except Exception as e:
            print('FAILED %s: %s' % (type(e).__name__, e))
            return 1
        print('passed')
        return 0

    from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings
    t0 = time.time()
    state = {'n': 0, 'nt': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'fail': None, 'shrink': None, 'first': None, 'past': collections.deque(maxlen=2000)}
    current = open(a.current, 'w') if a.current else None

    def one(case):
        text = json.dumps({'case': case})
        if current:
            current.seek(0)
            current.truncate()
            current.write(text)
            current.flush()
        # an unreasonably long shrink is cut short: everything else passes
        if state['shrink'] and time.time() - state['shrink'] > 60:
            return
        info = {}
        try:
            run_case(module, case, info)
        except Exception as e:
            if not state['shrink']:
                state['shrink'] = time.time()
                state['first'] = text
            state['fail'] = (text, '%s: %s' % (type(e).__name__, e))
            raise
        if state['shrink']:
            return
        state['past'].append(text)
        state['n'] += 1
        nt = nontrivial(info)
        state['nt'] += nt
        if nt:
            state['hashes'].add(hashlib.sha256(text.encode()).hexdigest()[:16])
            if len(state['samples']) < 2 and len(text) < 1500:
                state['samples'].append(text)
        for l, v in (('refused a call', info['refused']), ('applied', info['accepted']), ('partial overlap', info['partial']),
                     ('grid replaced', info['replaced']), ('unusual layout', info['odd']), ('several objects', info['objects'] > 1), ('thousands of cells', info['large'])):
            state['labels'][l] = state['labels'].get(l, 0) + bool(v)

    rc, chunk = 0, 0
    while state['n'] < a.cases and time.time() - t0 < a.time:
        test = settings(max_examples=min(250, a.cases - state['n'] + 1), database=None, deadline=None, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                        verbosity=Verbosity.quiet)(given(strategy())(one))
        try:
            seed(a.seed * 100003 + chunk)(test)()
        except BaseException as e:
            if state['fail'] is None:
                raise
            with open(a.replay, 'w') as o:
                json.dump({'property': 'C18', 'message': state['fail'][1], 'case': json.loads(state['fail'][0])['case']}, o)
                o.write('\n')
            with open(a.replay + '.history', 'w') as o:
                json.dump({'property': 'C18', 'message': state['fail'][1], 'case': json.loads(state['first'])['case'],
                           'history': [json.loads(x)['case'] for x in state['past']]}, o)
                o.write('\n')
            rc = 1
            break
        chunk += 1
    with open(a.stats, 'w') as o:
        json.dump({'n': state['n'], 'nt': state['nt'], 'hashes': sorted(state['hashes']), 'labels': state['labels'],
                   'samples': state['samples']}, o)
    return rc


if __name__ == '__main__':
    rc = main()
    print('worker done')
    sys.stdout.flush()
    os._exit(rc)
