"""Vocabulary for the stencil, block, sparse and solver layers (see vocab.py for the shape of it)."""
import numpy as np
import scipy.sparse
import scipy.sparse.linalg


def A(name):
    return ['attr', name]


def Cl(name, *args, **kw):
    return ['call', name, list(args), kw] if kw else ['call', name, list(args)]


def fields(c, seed=0, lo=.5):
    r = np.random.RandomState(seed)
    ne = c.topology.n_elements
    return {'constraint': r.uniform(.1, 1, ne[0]), 'conductance': r.uniform(lo, 1, ne[1]),
            'resistance': r.uniform(lo, 1, ne[1]), 'foo': np.ones(ne[1])}


def _diff(shape, seed=0, how='formulate', scale=1):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.diffusion import Diffusion
    c = StencilComplex.from_shape(shape, scale)
    return getattr(Diffusion, how)(c, fields(c, seed))


def _sys(shape, scale=1):
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.linear_system import System
    return System.canonical(StencilComplex.from_shape(shape, scale))


def _syseq(shape, scale=1):
    from pycomplex.stencil.equation import NormalSmoothEquation
    return NormalSmoothEquation(_sys(shape, scale))


def rsp(m, n, seed, density=.5):
    return scipy.sparse.random(m, n, density, random_state=np.random.RandomState(seed)).tocsr()


def _sbm(rows, cols, seed):
    from pycomplex.block import SparseBlockMatrix
    return SparseBlockMatrix([[rsp(m, n, seed + 10 * i + j) for j, n in enumerate(cols)] for i, m in enumerate(rows)])


def _sparse(kind):
    from pycomplex.sparse import Sparse
    r = np.random.RandomState(4)
    if kind == 0:
        return Sparse([[1, 2, 3, 1], [0, 1, 2, 2]], r.rand(4))
    if kind == 1:
        return Sparse(([0, 0, 0, 1, 2], [0, 1, 2, 2, 0]), data=[1, 2, 3, 4, 5])
    if kind == 3:
        return Sparse([[3, 2, 3, 1], [0, 2, 2, 1]], r.rand(4) - .5)
    return Sparse.fromdense(r.randn(4, 4))


class Lib(object):
    """stands for the functions of the library that belong to no object"""


def library():
    g = lambda *v: {'randn': list(v)}
    i = lambda *v: {'distinct': list(v)}
    M, G, T = 'pycomplex.math.linalg', 'pycomplex.geometry.', 'pycomplex.topology.'
    m = lambda mod, fn, *a: ['mod', mod, fn, list(a)]
    Q = []
    for seed in (1, 2):
        Q += [m(M, f, g(4, 3, 3, seed)) for f in ('adjoint', 'inverse_transpose', 'inverse', 'null')]
        for n in (2, 3):
            Q += [m(M, 'orthonormalize', g(n, n, seed)), m(M, 'orthonormalize', g(n, n, seed), False), m(M, 'pinv', g(4, n, n, seed)), m(M, 'normalized', g(5, n, seed)),
                  m(M, 'normalized', g(5, n, seed), 0, 1), m(M, 'normalized', {'mask': [6, seed]}, 0, 2, True, True), m(M, 'dot', g(4, 2, n, seed), g(4, 2, n, seed + 5)), m(M, 'power', {'spd': [n, seed]}, .5)]
            Q += [m(G + 'euclidian', f, g(3, n + 1, n, seed)) for f in ('circumcenter', 'circumcenter_barycentric', 'unsigned_volume', 'signed_volume')]
            Q += [m(G + 'euclidian', 'is_wellcentered', g(n + 1, n, seed))]
            Q += [m(G + 'euclidian', 'circumcenter_barycentric_weighted', g(3, n + 1, n, seed), {'abs': [3, n + 1, seed]}), m(G + 'euclidian', 'simplex_normals', g(3, n, n, seed)),
                  m(G + 'euclidian', 'simplex_gradients', g(3, n, n, seed)), m(G + 'spherical', 'unsigned_volume', {'unit': [3, n, 3, seed]}),
                  m(G + 'spherical', 'circumcenter', {'unit': [3, n, 3, seed]}), m(G + 'regular', 'hypervolume', g(3, n, seed), g(3, n, seed + 9))]
            Q += [m(T + 'simplicial', 'generate_simplex_boundary', i(3, n + 1, seed)), m(T + 'simplicial', 'relative_simplex_parity', {'perms': [3, n + 1, seed]}),
                  m(T + 'simplicial', 'permutation_map', n), m(T + 'cubical', 'permutation_map', n), m(T + 'cubical', 'generate_cube_boundary', i(*([2] * (n + 1) + [seed]))),
                  m(T + 'cubical', 'generate_cube_boundary', i(*([2] * (n + 1) + [seed])), 1, True),
                  m('pycomplex.stencil.util', 'generate', n), m('pycomplex.stencil.util', 'smoother', n), m('pycomplex.stencil.util', 'checkerboard', {'tup': [2] * n}),
                  m('pycomplex.stencil.util', 'checkerboard_2', {'tup': [2, 4, 2][:n]}), m('pycomplex.synthetic', 'n_simplex', n), m('pycomplex.synthetic', 'n_cube', n),
                  m('pycomplex.synthetic', 'n_cube_grid', {'tup': [2, 1, 2][:n]}), m('pycomplex.synthetic', 'n_cube_dual', n)]
        Q += [m(G + 'euclidian', 'triangle_angles', g(4, 3, 3, seed)), m(G + 'euclidian', 'segment_normals', g(4, 2, 2, seed)), m(M, 'rotation_from_plane', g(3, seed), g(3, seed + 1)),
              m(G + 'spherical', 'edge_length', {'unit': [4, 3, seed]}, {'unit': [4, 3, seed + 3]}),
              m(G + 'spherical', 'triangle_area_from_corners', {'unit': [4, 3, seed]}, {'unit': [4, 3, seed + 3]}, {'unit': [4, 3, seed + 6]}),
              m(G + 'spherical', 'triangle_areas_around_center', {'unit': [3, 2, 3, seed]}, {'unit': [3, 2, 3, 3, seed + 3]}),
              m(G + 'spherical', 'intersect_edges', {'unit': [4, 3, seed]}, {'unit': [4, 3, seed + 3]}, {'unit': [4, 3, seed + 6]}, {'unit': [4, 3, seed + 9]}),
              m(T + 'util', 'relative_permutations', {'perms': [3, 4, seed]}, {'perms': [3, 4, seed + 3]}), m(T + 'util', 'sort_and_argsort', g(3, 4, seed), 1),
              m(T + 'util', 'selection_matrix', {'mask': [6, seed]}), m(T + 'util', 'parity_to_orientation', {'mask': [6, seed]}),
              m(T + 'util', 'transfer_matrix', i(3, seed), i(3, seed + 1), {'tup': [30, 30]}), m(T + 'util', 'element_indices', {'arr': [[0, 1], [2, 0], [3, 1], [2, 3]]}, {'arr': [[3, 2], [1, 0], [1, 3]]}), m(T + 'util', 'sparse_to_elements', {'rows2': [4, 3, seed]}),
              m('pycomplex.sparse', 'normalize_l1', {'rsparse': [4, 5, seed]}), m('pycomplex.sparse', 'normalize_l1', {'rsparse': [4, 5, seed]}, 0), m('pycomplex.sparse', 'inv_diag', {'diag': [4, seed]}),
              m('pycomplex.sparse', 'ones_like', {'rsparse': [4, 5, seed]}), m('pycomplex.sparse', 'zeros_like', {'rsparse': [4, 5, seed]}), m('pycomplex.sparse', 'sparse_zeros', {'tup': [3, 4]}),
              m('pycomplex.solvers', 'solve_cg', {'proj': 5}, {'matvec': [5, seed]}, g(5, seed)), m('pycomplex.solvers', 'solve_cg', {'proj': 5}, {'matvec': [5, seed]}, g(5, seed), g(5, seed + 2)), m('pycomplex.solvers', 'solve_minres', {'spd': [5, seed]}, g(5, seed), g(5, seed + 1)),
              m('pycomplex.math.combinatorial', 'permutations', {'tup': [0, 1, 2]}), m('pycomplex.math.combinatorial', 'combinations', {'tup': [0, 1, 2, 3]}, 2),
              m('pycomplex.stencil.util', 'totuple', {'lst': [[1, 2], [3, [4]]]}), m('pycomplex.stencil.util', 'binning', g(4, 6, seed), {'tup': [2, 2]}),
              m('pycomplex.synthetic', 'circle', 1), m('pycomplex.synthetic', 'icosahedron'), m('pycomplex.synthetic', 'icosphere', 1),
              m('pycomplex.stencil.block', 'BlockArray', {'lst': [1., 2.]})]
    return Q


def _diagop():
    from pycomplex.stencil.operator import DiagonalOperator
    d = np.random.RandomState(3).randn(1, 4)
    d[0, 2] = 0
    return DiagonalOperator(d, d.shape)


def recipes():
    def sc(shape, scale=1, cls='StencilComplex'):
        def make():
            import pycomplex.stencil.complex as m
            return getattr(m, cls).from_shape(shape, scale)
        return make
    return {
        'st1': sc((4,)),
        'st1~': sc((4,), .5),
        'st2big': sc((32, 64), .5),
        'st2~': sc((8, 4)),
        'st2~2': sc((4, 8), 2.),
        'st3~': sc((4, 2, 4)),
        'sys2~': lambda: _sys((4, 2), .4),
        'sys3~': lambda: _sys((2, 4, 2), 2),
        'blk~': lambda: _sbm((4, 3), (8, 3), 50),
        'sp0~': lambda: _sparse(3),
        'eq2~': lambda: _diff((8, 8), 11),
        'eq2~2': lambda: _diff((8, 8), 12, scale=.5),
        'eqall~': lambda: _diff((4, 4), 13, 'formulate_all'),
        'lib': Lib,
        'diag0': lambda: _diagop(),
        'st2': sc((4, 8)),
        'st2s': sc((4, 4), .5, 'StencilComplex2D'),
        'st2o': sc((3, 6)),
        'st3': sc((2, 4, 4), 2.0),
        'st3s': sc((4, 2, 2), 1, 'StencilComplex3D'),
        'sys1': lambda: _sys((4,)),
        'sys2': lambda: _sys((2, 4), .7),
        'sys3': lambda: _sys((2, 2, 4)),
        'blk': lambda: _sbm((4, 3), (8, 3), 0),
        'blk3': lambda: _sbm((2, 3, 4), (2, 3, 4), 3),
        'dense': lambda: __import__('pycomplex.block', fromlist=['x']).DenseBlockArray([np.arange(8.), np.arange(3.) + 1]),
        'sp0': lambda: _sparse(0),
        'sp1': lambda: _sparse(1),
        'sp2': lambda: _sparse(2),
        'eq2': lambda: _diff((8, 8)),
        'eq2r': lambda: _diff((4, 8), 3, scale=.5),
        'eq3': lambda: _diff((4, 4, 4), 2),
        'eqall': lambda: _diff((4, 4), 1, 'formulate_all'),
        'eqsys': lambda: _syseq((4, 6)),
        'eq1': lambda: _diff((16,), 5),
        'eqflux': lambda: _diff((4, 8), 6, 'formulate_flux_only'),
        'eqall3': lambda: _diff((2, 4, 2), 7, 'formulate_all'),
    }


FAMILY = {'st1': 'st', 'st2big': 'st', 'st2': 'st', 'st2s': 'st', 'st2o': 'st', 'st3': 'st', 'st3s': 'st', 'sys1': 'st', 'sys2': 'st', 'sys3': 'st', 'blk': 'st',
          'blk3': 'st', 'dense': 'st', 'diag0': 'st', 'lib': 'st', 'sp0': 'st', 'sp1': 'st', 'sp2': 'st', 'eq2': 'eq', 'eq2r': 'eq', 'eq3': 'eq', 'eqall': 'eq', 'eqsys': 'eq', 'eq1': 'eq', 'eqflux': 'eq', 'eqall3': 'eq'}


def vec(shapes, seed):
    from pycomplex.stencil.block import BlockArray
    r = np.random.RandomState(seed)
    return BlockArray([r.randn(*s) for s in shapes], ndim=1)


class StArgs(object):
    @staticmethod
    def opform(v, obj, ev):
        return np.random.RandomState(v).randn(*obj.shape[1])

    @staticmethod
    def stform(v, obj, ev):
        return np.random.RandomState(v[1]).randn(*obj.n_elements[v[0]])

    @staticmethod
    def randn(v, obj, ev):
        return np.random.RandomState(v[-1]).randn(*v[:-1])

    @staticmethod
    def inner(v, obj, ev):
        """points off the wrapping edge"""
        return np.random.RandomState(v[1]).uniform(0, 1, (v[0], obj.n_dim)) * (np.array(obj.shape) - 1) * obj.scale

    @staticmethod
    def bvec(v, obj, ev):
        s = getattr(obj, 'system', obj)
        return vec([s.complex.n_elements[n] for n in getattr(s, v[0])], v[1])

    @staticmethod
    def bopvec(v, obj, ev):
        return vec([b.shape[1] for b in obj.block[0]], v)

    @staticmethod
    def blike(v, obj, ev):
        return vec([b.shape for b in obj.block], v)

    @staticmethod
    def flat(v, obj, ev):
        return np.random.RandomState(v).randn(sum(b.size for b in obj.block))

    @staticmethod
    def hier(v, obj, ev):
        return obj.hierarchy(v)

    @staticmethod
    def dblock(v, obj, ev):
        """dense block vector matching the columns of a sparse block matrix"""
        from pycomplex.block import DenseBlockArray
        r = np.random.RandomState(v)
        return DenseBlockArray([r.randn(b.shape[1]) for b in obj.block[0]])

    @staticmethod
    def dlike(v, obj, ev):
        r = np.random.RandomState(v)
        return type(obj)([r.uniform(1, 2, b.shape) for b in obj.block])

    @staticmethod
    def attr(v, obj, ev):
        return getattr(obj, v)

    @staticmethod
    def recipe(v, obj, ev):
        return ev(v, [])

    @staticmethod
    def gt(v, obj, ev):
        return lambda x: x > v

    @staticmethod
    def distinct(v, obj, ev):
        n = int(np.prod(v[:-1]))
        return np.random.RandomState(v[-1]).permutation(n + 3)[:n].reshape(v[:-1]).astype(np.int32)

    @staticmethod
    def perms(v, obj, ev):
        r = np.random.RandomState(v[-1])
        return np.array([r.permutation(v[1]) for _ in range(v[0])])

    @staticmethod
    def mask(v, obj, ev):
        return np.random.RandomState(v[-1]).uniform(size=v[0]) < .5

    @staticmethod
    def abs(v, obj, ev):
        return .01 * np.abs(np.random.RandomState(v[-1]).randn(*v[:-1]))

    @staticmethod
    def unit(v, obj, ev):
        x = np.random.RandomState(v[-1]).randn(*v[:-1])
        x[..., 0] += 2
        return x / np.linalg.norm(x, axis=-1, keepdims=True)

    @staticmethod
    def spd(v, obj, ev):
        A = np.random.RandomState(v[1]).randn(v[0], v[0])
        return A @ A.T + np.eye(v[0])

    @staticmethod
    def arr(v, obj, ev):
        return np.array(v, dtype=np.int32)

    @staticmethod
    def rows2(v, obj, ev):
        r = np.random.RandomState(v[2])
        return scipy.sparse.csr_matrix((np.ones(2 * v[0]), (np.repeat(np.arange(v[0]), 2), np.concatenate([r.permutation(v[1])[:2] for _ in range(v[0])]))), shape=v[:2])

    @staticmethod
    def diag(v, obj, ev):
        return scipy.sparse.diags(np.random.RandomState(v[1]).uniform(1, 2, v[0]))

    @staticmethod
    def proj(v, obj, ev):
        def deflate(x):
            x -= x.mean()
        return deflate

    @staticmethod
    def matvec(v, obj, ev):
        M = StArgs.spd(v, obj, ev)
        return lambda x: M.dot(x)

    @staticmethod
    def rsparse(v, obj, ev):
        return rsp(v[0], v[1], v[2])

    @staticmethod
    def lst(v, obj, ev):
        import copy
        return copy.deepcopy(v)

    @staticmethod
    def tup(v, obj, ev):
        return tuple(v)

    @staticmethod
    def sl(v, obj, ev):
        return tuple(slice(*x) for x in v)


def candidates(obj, recipe):
    from pycomplex.stencil.topology import StencilTopology
    from pycomplex.stencil.complex import StencilComplex
    from pycomplex.stencil.operator import StencilOperator
    from pycomplex.stencil.linear_system import System
    from pycomplex.stencil.equation import Equation
    from pycomplex.stencil import block as sb
    from pycomplex import block as bb
    from pycomplex.sparse import Sparse
    D, Q = [], []
    if isinstance(obj, scipy.sparse.linalg.LinearOperator):
        Q += [['lin', 3], ['lin', 5], ['rlin', 4], ['rlin', 6]]
    if isinstance(obj, Lib):
        Q += library()
    if isinstance(obj, StencilTopology):
        Q += [A(n) for n in ('is_even', 'n_elements', 'symbols', 'terms', 'axes', 'parities', 'primal', 'dual', 'transfers', 'averaging_operators_0', 'averaging_operators_N')]
        for n in range(obj.n_dim + 1):
            Q += [Cl('form', n), Cl('form', n, init='ones')]
        D += [A('coarse'), A('fine')]
        for name, k in (('primal', obj.n_dim), ('dual', obj.n_dim), ('transfers', obj.n_dim + 1), ('averaging_operators_0', obj.n_dim + 1)):
            for n in range(k):
                D += [['attr2', name, n]]
    if isinstance(obj, StencilComplex):
        Q += [A(n) for n in ('n_dim', 'shape', 'n_elements', 'primal_position', 'hodge', 'coarsen', 'refine', 'metric')]
        Q += [Cl('smoothers', True), Cl('smoothers', False)]
        pts = {'randn': [7, obj.n_dim, 3]}
        Q += [Cl('sample_0', {'stform': [0, 1]}, pts), Cl('sample_0', {'stform': [0, 2]}, {'randn': [4, obj.n_dim, 8]}), Cl('sample_0', {'stform': [0, 2]}, {'randn': [1100, obj.n_dim, 9]}),
              Cl('sample_0', {'stform': [0, 2]}, {'inner': [20, 8]}, True)]
        D += [A('topology'), A('coarse'), A('fine')]
        for name in ('hodge', 'coarsen', 'refine'):
            for n in range(obj.n_dim + 1):
                D += [['attr2', name, n]]
        for n in range(obj.n_dim + 1):
            D += [['call2', 'smoothers', [True], n], ['call2', 'smoothers', [False], n]]
    if isinstance(obj, StencilOperator):
        Q += [['app', {'opform': 1}], ['app', {'opform': 2}], Cl('to_dense'), ['repr']]
        D += [Cl('aslinearoperator')]
        D += [Cl('inverse')] if hasattr(obj, 'inverse') else []
        D += [A('T'), Cl('transpose'), Cl('simplify'), A('I'), ['bin', '*', {'attr': 'T'}], ['bin', '+', {'me': 0}], ['bin', '*', {'me': 0}]]
    if isinstance(obj, System):
        Q += [A('L'), A('R'), Cl('allocate_x'), Cl('allocate_y'), Cl('restrict_dual', {'bvec': ['L', 1]}), Cl('restrict_primal', {'bvec': ['R', 2]})]
        n = obj.A.block.shape[0]
        D += [A('A'), A('B'), A('complex'), Cl('normal'), Cl('normal_ne'), Cl('copy')]
        D += [['getitem', {'sl': [[0, 2], [0, 2]]}], ['getitem', {'sl': [[1, n], [0, n]]}]]
    if isinstance(obj, sb.BlockOperator):
        Q += [A(n) for n in ('shape', 'is_square', 'rows', 'cols', 'ndim')] + [Cl('diagonal'), Cl('to_dense'), ['repr'], ['lin', 3], ['rlin', 4]]
        D += [Cl('aslinearoperator')]
        Q += [['bin', '*', {'bopvec': 1}], ['bin', '*', {'bopvec': 2}]]
        D += [Cl('transpose'), Cl('simplify'), Cl('copy'), ['bin', '*', {'call': ['transpose']}], ['rbin', '*', {'call': ['transpose']}], ['bin', '+', {'me': 0}]]
        D += [['item2', i, j] for i in range(obj.block.shape[0]) for j in range(obj.block.shape[1])]
    elif isinstance(obj, sb.BlockArray):
        Q += [Cl(n) for n in ('sum', 'to_dense')] + [A('shape'), A('ndim')] + [Cl('from_dense', {'flat': 3})]
        D += [Cl('abs'), Cl('invert'), Cl('copy'), ['bin', '+', {'blike': 1}], ['bin', '-', {'blike': 2}], ['bin', '*', {'blike': 3}], ['bin', '*', 2.5], ['bin', '*', 0]]
    if isinstance(obj, Equation):
        S = obj.system
        y, x = {'bvec': ['L', 1]}, {'bvec': ['R', 2]}
        D += [A('system'), Cl('residual', x, y)]
        D += [A('normal'), A('normal_ne'), A('coarse'), A('complex')]
        D += [A('AT'), A('inverse_normal_diagonal'), A('inverse_normal_ne_diagonal'), A('inverse_sg_normal_diagonal'),
              Cl('jacobi', x, y), Cl('smooth', x, y), Cl('overrelax', x, y, [1, .5, 2.]), Cl('NR_BLOCK_GS', x, y), Cl('NE_BLOCK_GS', x, y)]
        Q += [A('projected_rows')]
        Q += [Cl('jacobi', x, y, .7), Cl('smooth', {'bvec': ['R', 5]}, y), Cl('solve_minres_normal', y, None), Cl('solve_minres_normal', y, x), Cl('solve', y, maxiter=7), Cl('solve', y, x, maxiter=5),
              Cl('solve_minres', y, x, maxiter=6), Cl('restrict', y), Cl('restrict_primal', x), Cl('hierarchy', 1), Cl('hierarchy', 2)]
        M = 'pycomplex.stencil.multigrid'
        h1, h2 = {'hier': 1}, {'hier': 2}
        Q += [['mod', M, 'v_cycle', [h1, y]], ['mod', M, 'v_cycle', [h1, y, x]], ['mod', M, 'v_cycle', [h2, y, x]],
              ['mod', M, 'solve_v_cycle', [h1, y, x, 2]], ['mod', M, 'solve_full_cycle', [h1, y, 1]], ['mod', M, 'solve_full_cycle', [h2, y]]]
    if isinstance(obj, bb.BlockMatrix):
        Q += [A(n) for n in ('rows', 'cols', 'square', 'shape', 'nested', 'ndim')] + [Cl('norm_l1', 1), Cl('norm_l1', 0), Cl('merge'), Cl('diagonal')]
        Q += [['bin', '*', {'dblock': 1}], ['bin', '*', {'dblock': 2}]]
        D += [Cl('transpose'), Cl('copy'), ['bin', '*', {'call': ['transpose']}], ['rbin', '*', {'call': ['transpose']}], ['bin', '+', {'me': 0}], ['getitem', {'sl': [[None], [1, None]]}]]
    elif isinstance(obj, bb.BlockArray):
        Q += [A(n) for n in ('shape', 'nested', 'ndim')] + [Cl('merge'), Cl('split', {'flat': 2})]
        D += [Cl('transpose'), Cl('copy'), ['bin', '+', {'dlike': 1}], ['bin', '*', {'dlike': 2}], ['bin', '/', {'dlike': 3}], ['bin', '*', 2.0],
              ['mod', 'pycomplex.block', 'BlockMatrix.as_diagonal', [{'me': 0}]], ['mod', 'pycomplex.block', 'SparseBlockMatrix.diags', [{'me': 0}]]]
    if isinstance(obj, Sparse):
        Q += [A('nnz'), A('ndim'), Cl('todense'), Cl('filter', {'gt': .3}), Cl('astype', 'float32')]
        D += [A('T'), ['bin', '+', {'attr': 'T'}], ['bin', '*', {'attr': 'T'}], ['bin', '*', 2.0], Cl('dot', {'attr': 'T'}), Cl('dot', {'recipe': 'sp2'}),
              ['bin', '+', {'recipe': 'sp1'}], Cl('concatenate', {'recipe': 'sp0'})]
    return D, Q
