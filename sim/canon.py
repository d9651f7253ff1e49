"""Canonical, comparable and picklable form of any value the library hands out.

Objects of the library are described through public accessors that do not fill lazy caches
(vertices, elements, matrix(i), parent index maps, ...)."""
import hashlib
import numpy as np
import scipy.sparse
import scipy.sparse.linalg

MAXDEPTH = 6
OPTIONAL = {'parent_idx', 'transfers', 'transfer_matrices', 'transfer_operators', 'parent', 'weights', 'radius'}


def _arr(a):
    a = np.asarray(a)
    return ('arr', str(a.dtype), a.shape, np.array(a, copy=True, order='C'))


def _sparse(m):
    # independent of scipy's storage details; never touches the argument
    c = scipy.sparse.coo_matrix((np.array(m.tocoo().data, copy=True), (m.tocoo().row.copy(), m.tocoo().col.copy())), shape=m.shape)
    s = c.tocsr()
    s.sum_duplicates()
    s.sort_indices()
    return ('sparse', str(m.dtype) + ('' if isinstance(m, scipy.sparse.spmatrix) else ' array'), tuple(m.shape), s.indptr.astype(np.int64), s.indices.astype(np.int64), s.data)


def canon(v, depth=0):
    if v is None or isinstance(v, (bool, str, bytes)):
        return ('lit', type(v).__name__, v)
    if isinstance(v, (int, np.integer, np.bool_)):
        return ('int', int(v))
    if isinstance(v, (float, np.floating)):
        return ('float', float(v))
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('seq', 'objarr', [canon(x, depth + 1) for x in v.ravel()])
        return _arr(v)
    if scipy.sparse.issparse(v):
        return _sparse(v)
    if isinstance(v, (list, tuple)):
        return ('seq', type(v).__name__, [canon(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return ('map', sorted(((str(k), canon(x, depth + 1)) for k, x in v.items()), key=lambda t: t[0]))
    if type(v).__name__ == 'Index' or type(v).__module__.startswith('numpy_indexed'):
        return ('opaque', type(v).__name__)
    if type(v).__name__ == 'cKDTree' or type(v).__name__ == 'KDTree':
        return ('tree', _arr(v.data))
    mod = type(v).__module__ or ''
    if mod.startswith('pycomplex'):
        return _obj(v, depth)
    if isinstance(v, scipy.sparse.linalg.LinearOperator):
        out = []
        for f, n in ((v.matvec, v.shape[1]), (v.rmatvec, v.shape[0])):
            try:
                out.append(_arr(f(_vec((n,), .3))))
            except Exception as e:
                out.append(('raise', type(e).__name__))
        return ('seq', 'linop', out)
    if callable(v):
        return ('callable',)
    return ('opaque', type(v).__name__)


def _obj(v, depth):
    name = type(v).__name__
    if depth > MAXDEPTH:
        return ('deep', name)
    from pycomplex.topology.base import BaseTopology
    from pycomplex.complex.base import BaseComplex
    d = []

    def put(k, x):
        d.append((k, canon(x, depth + 1)))
    if isinstance(v, BaseTopology):
        if hasattr(type(v), 'matrix'):
            put('n_dim', v.n_dim)
            put('elements', list(v.elements))
            put('matrices', [v.matrix(i) for i in range(v.n_dim)])
            for k in ('parent_idx', 'transfers', 'transfer_matrices', 'transfer_operators'):
                x = getattr(v, k, None)
                if x is not None:
                    put(k, x)
            p = getattr(v, 'parent', None)
            if p is not None:
                d.append(('parent', ('lineage', type(p).__name__, [len(e) for e in p.elements])))
        else:
            d.append(('of', _obj(v.primal, depth + 1)))
        return ('obj', name, d)
    if isinstance(v, BaseComplex):
        put('vertices', v.vertices)
        for k in ('weights', 'radius'):
            x = getattr(v, k, None)
            if x is not None:
                put(k, x)
        put('topology', v.topology)
        p = getattr(v, 'parent', None)
        if p is not None:
            d.append(('parent', ('lineage', type(p).__name__, p.vertices.shape)))
        return ('obj', name, d)
    # stencil / block layer
    r = _stencil(v, name, depth)
    if r is not None:
        return r
    for k in ('shape', 'boundary', 'scale', 'n_dim', 'ndim'):
        try:
            x = getattr(v, k)
        except (AttributeError, NotImplementedError):
            continue
        if not callable(x):
            try:
                put(k, x if not isinstance(x, tuple) or not x or not isinstance(x[0], tuple) else list(map(list, x)))
            except Exception:
                pass
    if hasattr(v, 'block') and isinstance(getattr(v, 'block'), np.ndarray):
        put('block', v.block)
    if hasattr(v, 'diagonal') and isinstance(getattr(v, 'diagonal'), np.ndarray):
        put('diagonal', v.diagonal)
    return ('obj', name, d)


def _vec(shape, phase):
    n = int(np.prod(shape))
    return np.cos(np.arange(n) * 1.37 + phase).reshape(shape)


def _stencil(v, name, depth):
    from pycomplex.stencil.operator import StencilOperator
    from pycomplex.stencil.linear_system import System
    from pycomplex.stencil.equation import Equation
    from pycomplex.sparse import Sparse
    if isinstance(v, StencilOperator):
        # an operator is what it does
        out = [('shape', canon([list(map(int, s)) for s in v.shape], depth + 1))]
        for k, f, s in (('right', lambda x: v(x), v.shape[1]), ('left', lambda x: v.left(x), v.shape[0])):
            try:
                out.append((k, _arr(f(_vec(s, .3)))))
            except Exception as e:
                out.append((k, ('raise', type(e).__name__)))
        return ('obj', 'Operator', out)
    if isinstance(v, System):
        return ('obj', 'System', [(k, canon(getattr(v, k), depth + 1)) for k in ('A', 'B', 'L', 'R', 'complex')])
    if isinstance(v, Equation):
        return ('obj', name, [(k, canon(getattr(v, k, None), depth + 1)) for k in ('system', 'fields')])
    if isinstance(v, Sparse):
        return ('obj', name, [(k, canon(getattr(v, k), depth + 1)) for k in ('axes', 'data')])
    if hasattr(v, 'block') and isinstance(v.block, np.ndarray):
        return ('obj', name, [('dims', canon(list(v.block.shape))), ('block', canon(v.block, depth + 1))])
    return None


def diff(a, b, rtol=1e-7, atol=1e-9, path=''):
    """None if equal, else a short description of the first difference"""
    if a[0] != b[0] or (a[0] != 'float' and a[0] != 'int' and len(a) != len(b)):
        return '%s: kind %s != %s' % (path, a[:2], b[:2])
    k = a[0]
    if k == 'arr':
        if a[1:3] != b[1:3]:
            return '%s: array %s%s != %s%s' % (path, a[1], a[2], b[1], b[2])
        return _ndiff(a[3], b[3], rtol, atol, path)
    if k == 'sparse':
        if a[1:3] != b[1:3]:
            return '%s: sparse %s%s != %s%s' % (path, a[1], a[2], b[1], b[2])
        if not (np.array_equal(a[3], b[3]) and np.array_equal(a[4], b[4])):
            # explicit near-zero entries may come and go with rounding
            A = scipy.sparse.csr_matrix((a[5], a[4], a[3]), shape=a[2])
            B = scipy.sparse.csr_matrix((b[5], b[4], b[3]), shape=b[2])
            D = abs(A * 1.0 - B * 1.0)
            if D.nnz and D.max() > atol + rtol * max(abs(A).max() if A.nnz else 0, 1e-300):
                return '%s: sparsity/values differ (max %g)' % (path, D.max())
            return None
        return _ndiff(a[5], b[5], rtol, atol, path)
    if k in ('seq',):
        if a[1] != b[1] or len(a[2]) != len(b[2]):
            return '%s: sequence %s[%d] != %s[%d]' % (path, a[1], len(a[2]), b[1], len(b[2]))
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            r = diff(x, y, rtol, atol, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    if k == 'map':
        if [x[0] for x in a[1]] != [x[0] for x in b[1]]:
            return '%s: keys differ' % path
        for x, y in zip(a[1], b[1]):
            r = diff(x[1], y[1], rtol, atol, '%s[%s]' % (path, x[0]))
            if r:
                return r
        return None
    if k == 'obj':
        if a[1] != b[1]:
            return '%s: type %s != %s' % (path, a[1], b[1])
        da, db = dict(a[2]), dict(b[2])
        for x in da.keys() ^ db.keys():
            if x not in OPTIONAL:
                return '%s: attribute %s present on one side only' % (path, x)
        for x in da:
            if x not in db:
                continue
            r = diff(da[x], db[x], rtol, atol, '%s.%s' % (path, x))
            if r:
                return r
        return None
    if k == 'float':
        x, y = a[1], b[1]
        if x == y or (x != x and y != y) or abs(x - y) <= atol + rtol * abs(y):
            return None
        return '%s: %r != %r' % (path, x, y)
    if k == 'tree':
        return diff(a[1], b[1], rtol, atol, path + '.data')
    if a != b:
        return '%s: %r != %r' % (path, a, b)
    return None


def _ndiff(x, y, rtol, atol, path):
    if x.shape != y.shape:
        return '%s: shape %s != %s' % (path, x.shape, y.shape)
    if x.dtype.kind in 'fc':
        if x.size == 0:
            return None
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy) or not np.array_equal(x[~fx], y[~fy], equal_nan=True):
            return '%s: non-finite entries differ' % path
        x, y = x[fx], y[fy]
        if x.size == 0:
            return None
        if x.dtype.itemsize <= 4:
            rtol, atol = max(rtol, 1e-4), max(atol, 1e-5)
        scale = np.abs(y).max()
        e = np.abs(x - y)
        if (e > atol * max(1, scale) + rtol * np.abs(y)).any():
            return '%s: values differ by up to %g (scale %g)' % (path, e.max(), scale)
        return None
    if not np.array_equal(x, y):
        n = int((x != y).sum()) if x.shape == y.shape else -1
        return '%s: %d integer entries differ' % (path, n)
    return None


def digest(c):
    """hash of a canonical value (exact; used for determinism logs and non-interference, not across code versions)"""
    h = hashlib.sha1()

    def go(c):
        if isinstance(c, np.ndarray):
            h.update(str(c.dtype).encode())
            h.update(repr(c.shape).encode())
            h.update(np.ascontiguousarray(c).tobytes())
        elif isinstance(c, (tuple, list)):
            h.update(b'(')
            for x in c:
                go(x)
            h.update(b')')
        else:
            h.update(repr(c).encode())
    go(c)
    return h.hexdigest()


def short(c, n=160):
    s = repr(c)
    return s if len(s) <= n else s[:n] + '...'
