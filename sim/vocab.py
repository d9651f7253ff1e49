"""What clients can do with meshes: recipes (how to build a base mesh) and steps (derivations and queries).

A value is named by a path: a recipe name plus a list of steps, all JSON.  The reference value of a path is what
you get by building the recipe afresh in a fresh process and applying the steps one after the other."""
import json
import operator
import sys

import numpy as np
import scipy.sparse

import vocab_st


# ----------------------------------------------------------------------------------------------------------
# recipes

def _rot(n, seed):
    from pycomplex.math import linalg
    return np.linalg.qr(np.random.RandomState(seed).randn(n, n))[0]


def _moebius():
    from pycomplex.topology.cubical import TopologyCubical
    from pycomplex.topology import index_dtype
    n = 4
    q = []
    for i in range(n):
        a, b = 2 * i, 2 * i + 1
        c, d = (2 * (i + 1), 2 * (i + 1) + 1) if i < n - 1 else (1, 0)
        q.append([[a, b], [c, d]])
    from pycomplex.complex.cubical import ComplexCubical2Euclidian3
    t = np.arange(n) / n * 2 * np.pi
    v = []
    for x in t:
        for s in (-.3, .3):
            r = 1 + s * np.cos(x / 2)
            v.append([r * np.cos(x), r * np.sin(x), s * np.sin(x / 2)])
    return ComplexCubical2Euclidian3(vertices=np.array(v), topology=TopologyCubical.from_cubes(np.array(q, dtype=index_dtype)))


def _lquads():
    from pycomplex.complex.cubical import ComplexCubical2Euclidian2
    v = np.indices((3, 3)).reshape(2, -1).T[:-1].astype(float)
    return ComplexCubical2Euclidian2(vertices=v, cubes=[[[0, 1], [3, 4]], [[1, 2], [4, 5]], [[3, 4], [6, 7]]])


def _trigrid(n=2, dim3=False, jitter=0.0):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2, ComplexTriangularEuclidian3
    v, t = [], []
    for i in range(n + 1):
        for j in range(n + 1):
            v.append([i + .5 * j, j * np.sqrt(3) / 2])
    for i in range(n):
        for j in range(n):
            a = i * (n + 1) + j
            t += [[a, a + n + 1, a + 1], [a + 1, a + n + 1, a + n + 2]]
    v = np.array(v)
    v = v + jitter * np.random.RandomState(5).uniform(-1, 1, v.shape)
    if dim3:
        v = np.concatenate([v, .1 * v[:, :1] * v[:, 1:]], axis=1)
        return ComplexTriangularEuclidian3(vertices=v, triangles=t)
    return ComplexTriangularEuclidian2(vertices=v, triangles=t)


def _two_tris():
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    v = np.array([[0, 0], [1, 0], [.4, .8], [3, 0], [4, 0.1], [3.5, 1.], [4.5, .9]])
    return ComplexTriangularEuclidian2(vertices=v, triangles=[[0, 1, 2], [3, 4, 5], [5, 4, 6]])


def _bowtie():
    """non manifold: two fans touching in a vertex"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    v = np.array([[0, 0], [1, 0], [.6, .9], [-1, 0], [-.6, -.9]])
    return ComplexTriangularEuclidian2(vertices=v, triangles=[[0, 1, 2], [0, 3, 4]])


def _tets():
    from pycomplex import synthetic
    return synthetic.n_cube_grid((1, 1, 1)).subdivide_fundamental()


def _delaunay2(n=12):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    import scipy.spatial
    r = np.random.RandomState(3)
    p = np.concatenate([[[0, 0], [1, 0], [0, 1], [1, 1]], r.uniform(0, 1, (n, 2))])
    t = scipy.spatial.Delaunay(p).simplices
    return ComplexTriangularEuclidian2(vertices=p, triangles=t)


def _rgrid(shape, seed=None):
    from pycomplex import synthetic
    c = synthetic.n_cube_grid(shape)
    n = len(shape)
    return getattr(c, 'as_%d%d' % (n, n))().as_regular()


def _sphere_del(n=24):
    from pycomplex.complex.simplicial.spherical import ComplexSpherical2
    from pycomplex.topology.simplicial import TopologyTriangular
    import scipy.spatial
    p = np.random.RandomState(11).randn(n, 3)
    p /= np.linalg.norm(p, axis=1, keepdims=True)
    t = TopologyTriangular.from_simplices(scipy.spatial.ConvexHull(p).simplices).fix_orientation()
    return ComplexSpherical2(vertices=p, topology=t)


def _klein():
    from pycomplex.topology.simplicial import TopologyTriangular
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    n = 3
    t = []

    def idx(i, j):
        if i >= n:
            i -= n
            j = -j
        return (i % n) * n + j % n
    for i in range(n):
        for j in range(n):
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i, j + 1), idx(i + 1, j + 1)
            t += [[a, b, c], [c, b, d]]
    v = np.random.RandomState(2).randn(n * n, 3)
    return ComplexTriangularEuclidian3(vertices=v, triangles=t)


def _torus(n=3):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
    t = []

    def idx(i, j):
        return (i % n) * n + j % n
    for i in range(n):
        for j in range(n):
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i, j + 1), idx(i + 1, j + 1)
            t += [[a, b, c], [c, b, d]]
    u = np.arange(n) * 2 * np.pi / n
    v = np.array([[(2 + np.cos(y)) * np.cos(x), (2 + np.cos(y)) * np.sin(x), np.sin(y)] for x in u for y in u])
    return ComplexTriangularEuclidian3(vertices=v, triangles=t)


def _tri2(E, n, seed=0):
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    return ComplexTriangularEuclidian2(vertices=_points(n, seed), triangles=E)


def _points(n, seed):
    """points on a spiral: any fan or strip over them in this order is not degenerate"""
    t = np.arange(n) * .9 + seed * .3
    return np.stack([(1 + t) * np.cos(t), (1 + t) * np.sin(t)], axis=1)


def _fan(n):
    """n triangles around one vertex"""
    from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian2
    t = np.arange(n) * 2 * np.pi / n
    i = np.arange(n)
    v = np.concatenate([[[0, 0]], (1 + .1 * np.cos(5 * t)[:, None]) * np.stack([np.cos(t), np.sin(t)], axis=1)])
    return ComplexTriangularEuclidian2(vertices=v, triangles=np.stack([0 * i, i + 1, (i + 1) % n + 1], axis=1))


def _curve():
    """an open curve in the plane; edges do not ascend"""
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    v = np.array([[0, 0], [1, .2], [1.5, 1], [1.2, 2], [.3, 2.3]])
    return ComplexSimplicialEuclidian(vertices=v, topology=_topo([[1, 0], [2, 1], [3, 2], [4, 3]]))


def _simp6():
    """two 6-simplices with a common face"""
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    v = np.concatenate([np.eye(6) * 1.5, np.zeros((1, 6)), np.ones((1, 6))])
    return ComplexSimplicialEuclidian(vertices=v, topology=_topo([[0, 1, 2, 3, 4, 5, 6], [0, 1, 2, 3, 4, 5, 7]]).fix_orientation())


def _pinched():
    """tetrahedra around a shared vertex and a shared edge"""
    from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
    v = np.array([[0, 0, 0], [1, 0, 0], [.3, 1, 0], [.4, .3, 1], [-1, 0, 0], [-.3, -1, 0.], [-.4, -.3, -1], [.6, -.7, .9]])
    return ComplexSimplicialEuclidian(vertices=v, topology=_topo([[0, 1, 2, 3], [0, 4, 5, 6], [0, 1, 5, 7]]))


def _topo(E):
    from pycomplex.topology.simplicial import TopologySimplicial
    return TopologySimplicial.from_simplices(np.array(E))


def _checker():
    """quads that meet in corners only"""
    from pycomplex.complex.cubical import ComplexCubical2Euclidian2
    v = np.indices((4, 3)).reshape(2, -1).T.astype(float)
    q = lambda i, j: [[3 * i + j, 3 * i + j + 1], [3 * i + j + 3, 3 * i + j + 4]]
    q = np.array([q(0, 0), q(1, 1), q(2, 0)])
    used, inv = np.unique(q, return_inverse=True)
    return ComplexCubical2Euclidian2(vertices=v[used], cubes=inv.reshape(q.shape))


def relabel(c, seed, move=.02):
    """the same kind of mesh with its vertices numbered in another order, and slightly elsewhere"""
    t = c.topology
    n = len(c.vertices)
    r = np.random.RandomState(seed)
    perm = r.permutation(n)
    v = np.empty_like(c.vertices)
    v[perm] = c.vertices + move * r.uniform(-1, 1, c.vertices.shape) * (c.vertices.max(0) - c.vertices.min(0)).max()
    kind = type(c).__name__
    if 'Spherical' in kind or kind == 'ComplexCircular':
        v /= np.linalg.norm(v, axis=1, keepdims=True)
    E = np.array(t.elements[-1])
    return type(c)(vertices=v, topology=type(t).from_elements(perm[E].astype(E.dtype)))


def recipes():
    from pycomplex import synthetic as s
    return {
        **_recipes(s),
        # siblings: the same type and sizes, other content (name~ belongs to name)
        'fan': lambda: _tri2([[0, 1, 2], [0, 2, 3], [0, 3, 4]], 5),
        'fan~': lambda: _tri2([[0, 1, 2], [2, 1, 3], [2, 3, 4]], 5),
        'fan~2': lambda: _tri2([[4, 1, 2], [4, 2, 3], [4, 3, 0]], 5, 1),
        'pinched': _pinched,
        'checker': _checker,
        'trigrid~': lambda: relabel(_trigrid(2), 1),
        'trigrid~2': lambda: _trigrid(2, jitter=.06),
        'ico~': lambda: relabel(s.icosphere(0), 2),
        'ico~2': lambda: s.icosphere(0).copy(vertices=s.icosphere(0).vertices[:, [1, 2, 0]], radius=.5),
        'simplex3~': lambda: s.n_simplex(3, equilateral=False),
        'tets~': lambda: relabel(_tets(), 4),
        'torus~': lambda: relabel(_torus(), 5),
        'trigrid3~': lambda: relabel(_trigrid(2, True), 6),
        'grid2~': lambda: relabel(s.n_cube_grid((2, 3)).as_22(), 7),
        'grid2~2': lambda: s.n_cube_grid((3, 2)).as_22(),
        'grid3~': lambda: relabel(s.n_cube_grid((1, 2, 1)).as_33(), 8),
        'reg2~': lambda: _rgrid((2, 3)),
        'reg2~2': lambda: _rgrid((3, 2)).scale(.6).translate([.3, -.2]),
        'circle~': lambda: relabel(s.circle(1), 9),
        'delsphere~': lambda: relabel(_sphere_del(), 10, 0.),
        'klein~': lambda: relabel(_klein(), 11),
        'curve': _curve,
        'curve~': lambda: relabel(_curve(), 13),
        # what small meshes do not have: many elements, many around one vertex, many dimensions
        'fan150': lambda: _fan(150),
        'ico3': lambda: s.icosphere(3),
        'grid20': lambda: s.n_cube_grid((20, 18)).as_22(),
        'reg20': lambda: _rgrid((20, 18)),
        'delaunay400': lambda: _delaunay2(400),
        'simp6': _simp6,
        'cube5': lambda: s.n_cube(5),
        'moebius~': lambda: relabel(_moebius(), 12),
    }


# too large for anything but questions close to the mesh itself
BIG = {'fan150', 'ico3', 'grid20', 'reg20', 'delaunay400', 'st2big', 'simp6', 'cube5'}


def stem(recipe):
    return recipe.split('~')[0]


def _recipes(s):
    return {
        **vocab_st.recipes(),
        'simplex1': lambda: s.n_simplex(1),
        'simplex2': lambda: s.n_simplex(2),
        'simplex3': lambda: s.n_simplex(3),
        'simplex4': lambda: s.n_simplex(4),
        'rsimplex2': lambda: s.n_simplex(2, equilateral=False),
        'ico': lambda: s.icosphere(0),
        'ico1': lambda: s.icosphere(1),
        'icoR': lambda: s.icosphere(0).copy(radius=2.0),
        'dual2': lambda: s.n_cube_dual(2),
        'dual3': lambda: s.n_cube_dual(3),
        'dual4': lambda: s.n_cube_dual(4),
        'delsphere': _sphere_del,
        'trigrid': lambda: _trigrid(2),
        'trigridj': lambda: _trigrid(2, jitter=.06),
        'trigrid3': lambda: _trigrid(2, True),
        'tri1': lambda: _trigrid(1),
        'twotris': _two_tris,
        'bowtie': _bowtie,
        'delaunay2': _delaunay2,
        'torus': _torus,
        'klein': _klein,
        'tets': _tets,
        'moebius': _moebius,
        'lquads': _lquads,
        'grid1': lambda: s.n_cube_grid((3,)).as_11(),
        'grid2': lambda: s.n_cube_grid((2, 3)).as_22(),
        'grid2g': lambda: s.n_cube_grid((2, 2)),
        'grid3': lambda: s.n_cube_grid((1, 2, 1)).as_33(),
        'cube4': lambda: s.n_cube(4).as_44(),
        'cubenm': lambda: s.n_cube_grid((2, 2), mirror=False),
        'cubesurf': lambda: s.n_cube(3, centering=True).boundary.as_23(),
        'circle': lambda: s.circle(1),
        'cylinder': lambda: s.cylinder(2, 1, 1).as_23(),
        'reg1': lambda: _rgrid((4,)),
        'reg2': lambda: _rgrid((3, 2)),
        'reg3': lambda: _rgrid((2, 1, 2)),
        'reg2ref': lambda: _rgrid((1, 2)).subdivide_cubical(),
    }


# ----------------------------------------------------------------------------------------------------------
# steps

def inside_points(c, seed, n):
    """points in the interior of elements of the mesh, computed without the library"""
    r = np.random.RandomState(seed)
    E = c.topology.elements[-1]
    E = E.reshape(len(E), -1)
    e = E[r.randint(len(E), size=n)]
    w = r.dirichlet(np.ones(e.shape[1]) * 1.5, size=n)
    p = np.einsum('pc,pcd->pd', w, c.vertices[e])
    if 'Spherical' in type(c).__name__ or type(c).__name__ == 'ComplexCircular':
        p = p / np.linalg.norm(p, axis=1, keepdims=True)
    return p


class Args(object):
    """argument makers; each returns a fresh value determined by the object's construction and the JSON spec"""

    @staticmethod
    def make(spec, obj, ev):
        if not isinstance(spec, dict):
            return spec
        (k, v), = spec.items()
        f = getattr(Args, k, None) or getattr(vocab_st.StArgs, k)
        return f(v, obj, ev)

    @staticmethod
    def pts(v, obj, ev):
        return inside_points(obj, v[0], v[1])

    @staticmethod
    def vec(v, obj, ev):
        return np.array(v, dtype=float)

    @staticmethod
    def rot(v, obj, ev):
        return _rot(obj.vertices.shape[1], v)

    @staticmethod
    def chain(v, obj, ev):
        """boolean top-chain with at least one element set"""
        t = getattr(obj, 'topology', obj)
        n = len(t.elements[-1])
        c = np.random.RandomState(v[0]).uniform(size=n) < v[1]
        c[v[0] % n] = True
        return c

    @staticmethod
    def signed(v, obj, ev):
        """the like of it, in sign type with negative entries"""
        c = Args.chain(v, obj, ev).astype(np.int8)
        c[v[0] % len(c)] = -1
        return c

    @staticmethod
    def lchain(v, obj, ev):
        return [int(x) for x in Args.chain(v, obj, ev)]

    @staticmethod
    def forms(v, obj, ev):
        """a form with a vector for a value"""
        return np.stack([Args.form(v[:2] + [v[2] + i], obj, ev) for i in range(3)], axis=1)

    @staticmethod
    def hint(v, obj, ev):
        """[seed, n]: some element for each point"""
        return np.random.RandomState(v[0]).randint(len(obj.topology.elements[-1]), size=v[1])

    @staticmethod
    def form(v, obj, ev):
        """[primal|dual, n, seed]"""
        t = getattr(obj, 'topology', obj)
        n = [len(e) for e in t.elements][v[1]] if v[0] == 'primal' else t.dual.n_elements[v[1]]
        return np.random.RandomState(v[2]).randn(n)

    @staticmethod
    def ones(v, obj, ev):
        t = getattr(obj, 'topology', obj)
        n = [len(e) for e in t.elements][v[1]] if v[0] == 'primal' else t.dual.n_elements[v[1]]
        return np.ones(n)

    @staticmethod
    def creases(v, obj, ev):
        """{n: chain}"""
        t = getattr(obj, 'topology', obj)
        out = {}
        for n, seed in v:
            m = len(t.elements[n])
            out[n] = (np.random.RandomState(seed).uniform(size=m) < .4).astype(np.int8)
        return out

    @staticmethod
    def none(v, obj, ev):
        return None

    @staticmethod
    def intarr(v, obj, ev):
        return np.array(v)

    @staticmethod
    def path(v, obj, ev):
        """value of another path"""
        return ev(v[0], v[1])

    @staticmethod
    def lifted(v, obj, ev):
        """same topology, vertices translated (for extrude)"""
        return obj.copy(vertices=obj.vertices + np.array(v, dtype=float))

    @staticmethod
    def me(v, obj, ev):
        return obj

    @staticmethod
    def derive(v, obj, ev):
        """something derived from the object itself"""
        for s in v:
            obj = apply_step(obj, s, ev)
        return obj

    @staticmethod
    def call(v, obj, ev):
        return getattr(obj, v[0])(*v[1:])

    @staticmethod
    def weights(v, obj, ev):
        return np.random.RandomState(v).uniform(0, .01, size=len(obj.vertices))


def apply_step(obj, step, ev, note=None):
    """note: called with every argument handed to the library"""
    k = step[0]
    if k == 'attr':
        return getattr(obj, step[1])
    if k == 'item':
        return obj[step[1]]
    if k == 'call':
        kw = {n: Args.make(a, obj, ev) for n, a in (step[3].items() if len(step) > 3 else ())}
        args = [Args.make(a, obj, ev) for a in (step[2] if len(step) > 2 else ())]
        if note is not None:
            for a in args + list(kw.values()):
                note(a)
        return getattr(obj, step[1])(*args, **kw)
    if k == 'fn':
        # property valued callable applied to arguments: obj.name(args)
        args = [Args.make(a, obj, ev) for a in step[2]]
        if note is not None:
            for a in args:
                note(a)
        return getattr(obj, step[1])(*args)
    if k in ('attr2', 'call2'):
        # n-th item of a list valued attribute or call
        v = getattr(obj, step[1])
        return v[step[2]] if k == 'attr2' else v(*step[2])[step[3]]
    if k == 'item2':
        return obj[step[1], step[2]]
    if k == 'repr':
        return repr(obj)
    if k in ('lin', 'rlin'):
        L = obj.aslinearoperator() if hasattr(obj, 'aslinearoperator') else obj
        x = np.random.RandomState(step[1]).randn(L.shape[1 if k == 'lin' else 0])
        if note is not None:
            note(x)
        return L.matvec(x) if k == 'lin' else L.rmatvec(x)
    if k == 'new':
        return renew(obj, step[1], note or (lambda a: None))
    if k == 'mod':
        args = [Args.make(a, obj, ev) for a in step[3]]
        if note is not None:
            for a in args:
                note(a)
        f = sys.modules[step[1]]
        for n in step[2].split('.'):
            f = getattr(f, n)
        return f(*args)
    a = Args.make(step[-1], obj, ev)
    if note is not None:
        note(a)
    if k == 'app':
        return obj * a
    if k == 'getitem':
        return obj[a]
    if k == 'bin':
        return BIN[step[1]](obj, a)
    if k == 'rbin':
        return BIN[step[1]](a, obj)
    raise ValueError(step)


def renew(obj, how, note):
    """what a caller builds from arrays of its own"""
    T = getattr(obj, 'topology', obj)
    E = np.array(T.elements[-1])
    kw = {}
    if how == 'wide':
        E = np.asfortranarray(E.astype(np.int64))
    elif how == 'list':
        E = E.tolist()
    if how != 'positions':
        note(E)
        T = type(T).from_elements(E)
    if not hasattr(obj, 'vertices'):
        return T
    V = np.array(obj.vertices)
    if how == 'list':
        V = V.tolist()
    elif how == 'wide':
        V = np.asfortranarray(V)
    note(V)
    if getattr(obj, 'weights', None) is not None:
        kw['weights'] = np.array(obj.weights)
        note(kw['weights'])
    if getattr(obj, 'radius', 1) != 1:
        kw['radius'] = obj.radius
    return type(obj)(vertices=V, topology=T, **kw)


BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}


def A(name):
    return ['attr', name]


def Cl(name, *args, **kw):
    return ['call', name, list(args), kw] if kw else ['call', name, list(args)]


# candidate derivations and queries by type; the catalogue builder keeps those that work on the healthy tree

def candidates(obj, recipe):
    if stem(recipe) in vocab_st.FAMILY:
        return vocab_st.candidates(obj, recipe)
    from pycomplex.topology.base import BaseTopology
    from pycomplex.topology.primal import PrimalTopology
    from pycomplex.topology.cubical import TopologyCubical
    from pycomplex.complex.base import BaseComplex
    from pycomplex.complex.cubical import ComplexCubical
    from pycomplex.complex.regular import ComplexRegularMixin
    from pycomplex.complex.simplicial.base import BaseComplexSimplicial
    D, Q = [], []
    if isinstance(obj, BaseTopology):
        Q += [A(n) for n in ('regions_per_vertex', 'is_connected', 'is_manifold', 'is_oriented', 'averaging_operators_0',
                             'averaging_operators_N', 'degree', 'selector_interior', 'selector_boundary', 'matrices', 'n_elements',
                             'n_dim')]
        Q += [Cl('relative_parity'), Cl('label_connections'), Cl('accumulated_operators_0'), Cl('accumulated_operators_N'),
              Cl('chain', 0, 1), Cl('range', -1), Cl('form', 0), Cl('check_chain'), Cl('check_manifold'),
              Cl('chain', -1, {'intarr': [0]})]
        Q += [['item', 0], ['item', -1]]
    if isinstance(obj, PrimalTopology):
        Q += [A(n) for n in ('elements', 'corners', 'incidence', 'is_closed', 'parent_idx', 'transfer_matrices', 'transfers',
                             'transfer_operators')]
        Q += [Cl('fundamental_domains')] + [Cl('matrix', n) for n in range(obj.n_dim)] + [Cl('matrix', -1), Cl('matrix', obj.n_dim, obj.n_dim), Cl('matrix', -1, 0)]
        Q += [Cl('split_connected_components')]
        D += [A('boundary'), A('dual'), A('parent'), Cl('fix_orientation'), Cl('select_subset', {'chain': [1, .6]}), Cl('select_subset', {'signed': [2, .6]}), Cl('subdivide_cubical'),
              Cl('subdivide_fundamental')]
        if isinstance(obj, TopologyCubical):
            Q += [A('cube_shape'), A('cube_corners'), Cl('cubical_domains')]
            D += [Cl('as_2'), Cl('product', {'path': ['grid1', [A('topology')]]}), Cl('subdivide_simplicial')]
        else:
            D += [Cl('subdivide_fundamental', False), Cl('subdivide_simplicial'), Cl('as_2'), Cl('subdivide_loop'), Cl('subdivide_loop_direct')]
            Q += [A(n) for n in ('vertices', 'edges', 'triangles', 'n_vertices', 'n_edges', 'n_triangles')]
    elif isinstance(obj, BaseTopology):
        Q += [A(n) for n in ('matrices_2', 'p_elements', 'd_elements', 'i_elements', 'transfer_matrices')]
    if isinstance(obj, (PrimalTopology, BaseComplex)):
        D += [['new', how] for how in ('elements', 'positions', 'wide', 'list') if how != 'positions' or isinstance(obj, BaseComplex)]
    if isinstance(obj, BaseComplex):
        nd, n = obj.topology.n_dim, obj.vertices.shape[1]
        Q += [A(m) for m in ('n_dim', 'box', 'dual_position', 'primal_position', 'primal_metric', 'dual_metric', 'dual_metric_closed', 'metric',
                             'hodge_PD', 'hodge_DP', 'positive_dual_metric', 'is_well_centered', 'is_pairwise_delaunay',
                             'weighted_average_operators', 'multigrid_transfers', 'vertices')]
        Q += [Cl('smooth_operator'), Cl('smooth_operator', {'creases': [[0, 3]]}),
              ['fn', 'dual_flux_to_dual_velocity', [{'form': ['dual', 1, 4]}]],
              Cl('subdivide_operator'), Cl('subdivide_operator', smooth=True),
              Cl('subdivide_operator', smooth=True, creases={'creases': [[0, 1]]}),
              Cl('pick_primal', {'pts': [1, 7]}), Cl('pick_dual', {'pts': [2, 7]}), Cl('pick_fundamental', {'pts': [3, 7]}),
              Cl('sample_dual_0', {'form': ['dual', 0, 1]}, {'pts': [4, 5]}),
              Cl('sample_primal_0', {'form': ['primal', 0, 2]}, {'pts': [5, 5]})]
        Q += [Cl('pick_primal', {'pts': [11, 190]}), Cl('pick_primal', {'pts': [11, 190]}, {'hint': [4, 190]}), Cl('pick_fundamental', {'pts': [12, 300]}), Cl('pick_dual', {'pts': [12, 600]}),
              Cl('pick_primal', {'pts': [13, 1100]}), Cl('pick_primal', {'pts': [14, 9]}, {'hint': [5, 9]}), Cl('sample_dual_0', {'forms': ['dual', 0, 1]}, {'pts': [4, 5]}),
              Cl('sample_primal_0', {'forms': ['primal', 0, 2]}, {'pts': [5, 130]})]
        if nd > 1:
            Q += [Cl('smooth_operator', {'creases': [[1, 3], [0, 5]]})]
        D += [A('topology'), A('boundary'), A('parent'), Cl('copy'), Cl('scale', 1.7), Cl('translate', {'vec': [.5, -.25, 1.5, 2.][:n]}),
              Cl('transform', {'rot': 3}), Cl('smooth'), Cl('smooth', {'creases': [[0, 2]]}), Cl('fix_orientation'),
              Cl('select_subset', {'chain': [2, .7]}), Cl('select_subset', {'signed': [1, .7]}), Cl('select_subset', {'lchain': [3, .7]}), Cl('subdivide_fundamental'), Cl('subdivide_cubical')]
        if isinstance(obj, BaseComplexSimplicial):
            Q += [A('primal_barycentric'), A('pick_precompute'), A('pick_primal_precomp_weighted'), A('pick_primal_precomp_unweighted'),
                  A('pick_fundamental_precomp'), Cl('dual_edge_excess'), Cl('dual_edge_excess', False), A('compute_triangle_angles'),
                  A('compute_vertex_areas'), A('compute_triangle_areas'), A('compute_edge_ratio'), Cl('pick_primal', {'pts': [1, 5]}, None, False),
                  Cl('pick_primal_brute', {'pts': [1, 5]}), Cl('sample_dual_0', {'form': ['dual', 0, 1]}, {'pts': [4, 5]}, False),
                  Cl('pick_primal', {'pts': [6, 4]}, {'intarr': [0, 0, 0, 0]}), Cl('remap_boundary_0', {'ones': ['primal', nd]})]
            Q += [Cl(m) for m in ('triangle_normals', 'triangle_centroids', 'vertex_normals', 'vertex_areas', 'edge_lengths', 'volume',
                                  'center_of_mass', 'area', 'subdivide_loop_operator')]
            Q += [Cl('subdivide_loop_operator', smooth=True), Cl('subdivide_loop_operator', smooth=True, creases={'creases': [[1, 1]]})]
            D += [Cl('subdivide_fundamental', False), Cl('subdivide_simplicial'), Cl('optimize_weights'), Cl('optimize_weights_metric'),
                  Cl('as_2'), Cl('as_3'), Cl('as_spherical'), Cl('as_euclidian'), Cl('as_cube'), Cl('subdivide_loop'), Cl('subdivide_loop', smooth=True),
                  Cl('subdivide_loop', smooth=True, creases={'creases': [[1, 7]]}), Cl('subdivide_loop_direct'),
                  Cl('copy', weights={'weights': 4})]
            if hasattr(obj, 'multigrid_transfer_dual'):
                Q += [Cl('multigrid_transfer_dual', {'me': 0}, {'derive': [Cl('subdivide_loop')]})]
            lo, hi = obj.vertices.min(0), obj.vertices.max(0)
            if obj.topology.n_dim == 2:
                D += [Cl('clip', {'vec': list((lo + .37 * (hi - lo)).round(3) + .013)}, {'vec': [1., .43, .31][:n]}),
                      Cl('clip', {'vec': list((lo + .37 * (hi - lo)).round(3) + .013)}, {'vec': [1., .43, .31][:n]}, clip=False),
                      Cl('extrude', {'lifted': [.1, .05, .8][:n]})]
        if isinstance(obj, ComplexCubical):
            D += [Cl('subdivide_cubical', smooth=True), Cl('subdivide_cubical', smooth=True, creases={'creases': [[0, 6]]}),
                  Cl('subdivide_simplicial'), Cl('as_regular'), Cl('product', {'path': ['grid1', []]})]
            D += [Cl('as_%d%d' % (a, b)) for a, b in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (4, 4)) if (a, b) == (nd, n)]
            Q += [Cl('volume')]
        if isinstance(obj, ComplexRegularMixin):
            Q += [A('pick_primal_precomp'), A('pick_fundamental_precomp'), Cl('fundamental_domain_postions'), Cl('average_dual', {'form': ['dual', 0, 3]}),
                  Cl('sample_dual_0', {'form': ['dual', 0, 1]}, {'pts': [9, 4]}), Cl('pick_primal', {'pts': [6, 4]}, {'intarr': [0, 0, 0, 0]}),
                  Cl('pick_fundamental', {'pts': [6, 4]}, {'intarr': [0, 0, 0, 0]})]
    return D, Q


SEEDED = {'pts': 0, 'form': 2, 'forms': 2, 'chain': 0, 'signed': 0, 'lchain': 0, 'hint': 0, 'rot': None, 'weights': None, 'opform': None, 'stform': 1, 'bvec': 1, 'bopvec': None, 'blike': None,
          'flat': None, 'dblock': None, 'dlike': None, 'randn': -1, 'distinct': -1, 'perms': -1, 'mask': -1, 'abs': -1, 'unit': -1, 'spd': -1, 'rsparse': -1}


def vary(rng, step):
    """the same step with arguments of the same shape and other content (or the step itself, if nothing in it can vary)"""
    def arg(a):
        if not isinstance(a, dict):
            return a
        (k, v), = a.items()
        if k in SEEDED:
            n = rng.choice([11, 12, 13])
            if SEEDED[k] is None:
                return {k: n}
            v = list(v)
            v[SEEDED[k]] = n
            return {k: v}
        if k == 'creases':
            return {k: [[n, rng.choice([11, 12, 13])] for n, _ in v]}
        if k == 'intarr':
            return {k: [rng.choice([0, 1]) for _ in v]} if len(v) > 1 else a
        return a
    k = step[0]
    if k == 'call':
        out = ['call', step[1], [arg(a) for a in (step[2] if len(step) > 2 else ())]]
        if len(step) > 3:
            out.append({n: arg(a) for n, a in step[3].items()})
        return out
    if k == 'fn':
        return ['fn', step[1], [arg(a) for a in step[2]]]
    if k == 'mod':
        return ['mod', step[1], step[2], [arg(a) for a in step[3]]]
    if k in ('app', 'bin', 'rbin'):
        return step[:-1] + [arg(step[-1])]
    if k in ('lin', 'rlin'):
        return [k, rng.choice([11, 12, 13])]
    return step


def seeded(step):
    """whether `vary` has something to vary"""
    return any('"%s": ' % k in json.dumps(step) for k in list(SEEDED) + ['creases'])


def family(recipe):
    return vocab_st.FAMILY.get(stem(recipe), 'mesh')


SUBST = {}


def tolerance(path):
    """(rtol, atol) for a path"""
    for s in path:
        n = stepname(s)
        if n in SUBST:
            return SUBST[n], SUBST[n]
    return 1e-7, 1e-9


def stepname(s):
    if s[0] in ('bin', 'rbin'):
        return s[0] + s[1]
    if s[0] == 'mod':
        return s[2]
    return s[1] if len(s) > 1 and isinstance(s[1], str) else s[0]


def form(step):
    """a step without the content of its arguments"""
    return json.dumps([step[:2], [sorted(a) if isinstance(a, dict) else a for a in (step[2] if len(step) > 2 and isinstance(step[2], list) else step[2:])], sorted(step[3]) if len(step) > 3 and isinstance(step[3], dict) else 0])


def opname(op):
    return stepname(op['p'][-1]) if op['p'] else op['r']
