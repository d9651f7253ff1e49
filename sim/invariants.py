"""What must hold of any mesh, and of any derivation step, checked from raw arrays with code of our own."""
import math

import numpy as np
import scipy.sparse as sp


def fact(n):
    return math.factorial(n)


def facets(E):
    """corner sets of all facets of all elements: (n, m, c)"""
    if E.ndim == 2 and E.shape[1] == 2:
        return E[:, :, None]
    if E.ndim == 2:
        k = E.shape[1]
        return np.stack([np.delete(E, i, axis=1) for i in range(k)], axis=1)
    n, d = len(E), E.ndim - 1
    return np.stack([np.take(E, s, axis=a + 1).reshape(n, -1) for a in range(d) for s in (0, 1)], axis=1)


def keys(a):
    """rows as sorted tuples"""
    return [tuple(r) for r in np.sort(np.asarray(a).reshape(len(a), -1), axis=1).tolist()]


def volume(V, E):
    """unsigned measure of each element with straight edges; simplices, and cubes that are parallelotopes"""
    if E.ndim == 2:
        X = V[E[:, 1:]] - V[E[:, :1]]
        f = fact(E.shape[1] - 1)
    else:
        d = E.ndim - 1
        o = E[(slice(None),) + (0,) * d]
        X = np.stack([V[E[(slice(None),) + tuple(int(i == j) for j in range(d))]] - V[o] for i in range(d)], axis=1)
        f = 1
    G = X @ np.swapaxes(X, 1, 2)
    return np.sqrt(np.maximum(np.linalg.det(G), 0)) / f


class Report(object):
    def __init__(self, where):
        self.where = where
        self.out = []
        self.n = 0

    def ok(self, cond, kind, detail=''):
        self.n += 1
        if not cond:
            self.out.append({'kind': kind, 'step': self.where, 'detail': '%s: %s %s' % (self.where, kind, detail)})
        return cond

    def must(self, f, kind):
        """the library has to answer"""
        self.n += 1
        try:
            return f()
        except Exception as e:
            self.out.append({'kind': 'refused', 'step': self.where, 'detail': '%s: %s raised %s: %s' % (self.where, kind, type(e).__name__, str(e)[:150])})
            return None


def nz(M):
    M = sp.csr_matrix(M, dtype=float)
    M.eliminate_zeros()
    return M.nnz


def raw(T):
    """(elements, boundary, orientation), normalised to 2-d"""
    E = [np.asarray(e) for e in T.elements]
    B = [np.asarray(b).reshape(len(b), -1) for b in T._boundary]
    O = [np.asarray(o).reshape(len(o), -1) for o in T._orientation]
    return E, B, O


def oriented(T):
    """facets between two elements get opposite signs (and none has more than two); None: more than two somewhere"""
    E, B, O = raw(T)
    if T.n_dim == 0:
        return True
    deg = np.bincount(B[-1].ravel(), minlength=len(E[-2]))
    s = np.bincount(B[-1].ravel(), weights=O[-1].ravel(), minlength=len(E[-2]))
    if (deg > 2).any():
        return None
    return bool((s[deg == 2] == 0).all())


def boundary_facets(T):
    E, B, O = raw(T)
    s = np.bincount(B[-1].ravel(), weights=O[-1].ravel(), minlength=len(E[-2]))
    return np.flatnonzero(s)


def euler(T):
    return sum((-1) ** i * len(e) for i, e in enumerate(T.elements))


def components(T):
    """labels of top elements connected over facets"""
    E, B, O = raw(T)
    n, m = len(E[-1]), len(E[-2])
    A = sp.csr_matrix((np.ones(B[-1].size), (np.repeat(np.arange(n), B[-1].shape[1]), B[-1].ravel())), shape=(n, m))
    return sp.csgraph.connected_components(A @ A.T)


def vertex_manifold(T):
    """top elements around every vertex are connected over facets that contain it"""
    E, B, O = raw(T)
    if T.n_dim < 1:
        return True
    c = [set(k) for k in keys(E[-2])]
    at = {}
    for i, e in enumerate(E[-1].reshape(len(E[-1]), -1)):
        for v in e:
            at.setdefault(v, []).append(i)
    if T.n_dim == 1:
        return all(len(a) <= 2 for a in at.values())
    for v, els in at.items():
        seen, todo = {els[0]}, [els[0]]
        byf = {}
        for i in els:
            for f in B[-1][i]:
                if v in c[f]:
                    byf.setdefault(f, []).append(i)
        while todo:
            i = todo.pop()
            for f in B[-1][i]:
                for j in byf.get(f, ()):
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
        if len(seen) != len(els):
            return False
    return True


# ----------------------------------------------------------------------------------------------------------
# one mesh

def topology(T, r):
    E, B, O = raw(T)
    n = T.n_dim
    N = [len(e) for e in E]
    r.ok(list(T.n_elements) == N, 'n_elements', '%s, arrays have %s' % (T.n_elements, N))
    r.ok(len(E) == n + 1 and len(B) == n and len(O) == n, 'number of arrays')
    r.ok(np.array_equal(E[0].ravel(), np.arange(N[0])), 'vertices are not a contiguous range')
    r.ok(all(np.asarray(e).size and e.min() >= 0 and e.max() < N[0] for e in E), 'element refers to a vertex that does not exist')
    K = [keys(e) for e in E]
    for k in range(1, n + 1):
        r.ok(all(len(set(x)) == len(x) for x in K[k]), 'degenerate element', 'dimension %d' % k)
        r.ok(len(set(K[k])) == N[k], 'duplicate elements', 'dimension %d' % k)
    for k in range(n):
        F = facets(E[k + 1])
        own = set()
        good = True
        for i in range(N[k + 1]):
            want = set(tuple(sorted(f)) for f in F[i].tolist())
            have = set(K[k][b] for b in B[k][i]) if B[k][i].min() >= 0 and B[k][i].max() < N[k] else None
            good &= want == have
            own |= want
        r.ok(good, 'boundary elements are not the facets of the element', 'dimension %d' % (k + 1))
        r.ok(own == set(K[k]), 'element that bounds nothing, or facet without element', 'dimension %d' % k)
        r.ok(np.isin(O[k], (-1, 1)).all(), 'orientation values', 'dimension %d' % k)
        ref = np.zeros((N[k], N[k + 1]))
        for c in range(B[k].shape[1]):
            ref[B[k][:, c], np.arange(N[k + 1])] += O[k][:, c]
        M = T.matrices[k]
        r.ok(M.shape == ref.shape and np.array_equal(np.asarray(M.todense()), ref), 'matrix', 'number %d does not follow from the incidence arrays' % k)
        if k:
            r.ok(nz(T.matrices[k - 1].astype(float) @ M.astype(float)) == 0, 'boundary of a boundary', 'matrices %d and %d' % (k - 1, k))
    r.must(T.check_chain, 'check_chain')
    if n == 0:
        return
    extras(T, r, N, K)
    nc, lab = components(T)
    lc = r.must(T.label_connections, 'label_connections')
    if lc is not None:
        r.ok(lc[0] == nc and len(set(zip(lc[1].tolist(), lab.tolist()))) == nc, 'connected components', '%s, own count %s' % (lc[0], nc))
        r.ok(bool(T.is_connected) == (nc == 1), 'is_connected')
    deg = [np.asarray(d).ravel() for d in T.degree]
    for k in range(n + 1):
        top = {}
        if k == n:
            want = np.ones(N[n])
        else:
            cs = {x: j for j, x in enumerate(K[k])}
            cells = [set([tuple(sorted(f)) for f in _faces(e, k)]) for e in E[n]]
            want = np.zeros(N[k])
            for c in cells:
                for f in c:
                    want[cs[f]] += 1
        r.ok(len(deg[k]) == N[k] and np.array_equal(deg[k], want), 'degree', 'dimension %d' % k)
    for nm, last in (('averaging_operators_0', 0), ('averaging_operators_N', n)):
        ops = getattr(T, nm)
        for k, A in enumerate(ops):
            s = np.asarray(A.sum(axis=1)).ravel()
            r.ok(A.shape == (N[k], N[last]) and np.allclose(s, 1), nm, 'dimension %d does not preserve constants' % k)
    A0 = T.averaging_operators_0
    for k in range(n + 1):
        A = sp.csr_matrix(A0[k])
        c = A.tocoo()
        got = [set() for _ in range(N[k])]
        for i, j in zip(c.row, c.col):
            got[i].add(j)
        r.ok(all(g == set(x) for g, x in zip(got, K[k])), 'averaging_operators_0', 'dimension %d does not average over the corners' % k)
    ori = oriented(T)
    if ori is not None:
        io = r.must(lambda: bool(T.is_oriented), 'is_oriented') if orientable(T) else None
        if io is not None:
            r.ok(io == ori, 'is_oriented', '%s, own verdict %s' % (io, ori))
    if ori:
        bf = boundary_facets(T)
        b = r.must(lambda: T.boundary, 'boundary')
        r.ok((b is None) == (len(bf) == 0), 'boundary', 'closed: %s, own count of boundary facets %d' % (b is None, len(bf)))
        r.ok(bool(T.is_closed) == (len(bf) == 0), 'is_closed')
        if b is not None:
            r.ok(b.n_dim == n - 1 and b.n_elements[-1] == len(bf), 'boundary size')
            if index_map(b, T, b.parent_idx, r, 'boundary'):
                r.ok(sorted(b.parent_idx[-1].tolist()) == bf.tolist(), 'boundary', 'is not the set of facets with one element')
                bv = set(T.elements[-2].reshape(N[-2], -1)[bf].ravel().tolist())
                r.ok(set(b.parent_idx[0].tolist()) == bv, 'boundary vertices')
            r.ok(b.parent is T, 'parent of boundary')
            if n > 1 and vertex_manifold(T) and oriented(b) is not None:
                r.ok(oriented(b), 'boundary is not consistently oriented')
                if oriented(b):
                    r.ok(len(boundary_facets(b)) == 0, 'boundary has a boundary')
        idx = b.parent_idx if b is not None else []
        for k in range(n + 1):
            i, j = T.selector_interior[k], T.selector_boundary[k]
            on = np.zeros(N[k])
            if k < len(idx):
                on[idx[k]] = 1
            P = (i.T @ i) + (j.T @ j)
            r.ok(i.shape[0] + j.shape[0] == N[k] and nz(P - sp.identity(N[k])) == 0, 'selectors', 'dimension %d are not complementary' % k)
            r.ok(np.array_equal(np.asarray(j.sum(axis=0)).ravel(), on), 'selector_boundary', 'dimension %d' % k)
        if b is None or oriented(b):
            d = r.must(lambda: T.dual, 'dual')
            if d is not None:
                dual(T, b, d, r)


def extras(T, r, N, K):
    """derived views of a topology: the checker of chains, regions around vertices, components, fundamental domains"""
    n = T.n_dim
    if n > 1:
        # a chain with one sign flipped is not a chain complex, and saying so is what the checker is there for
        for k in {1, n - 1}:
            O = [np.array(o) for o in T._orientation]
            O[k].reshape(-1)[0] *= -1
            B = type(T)(elements=list(T._elements), boundary=list(T._boundary), orientation=O)
            try:
                B.check_chain()
                r.ok(False, 'check_chain', 'accepts a chain with a flipped sign in matrix %d' % k)
            except ValueError:
                r.ok(True, 'check_chain')
    if N[0] <= 120:
        reg = r.must(lambda: T.regions_per_vertex, 'regions_per_vertex')
        if reg is not None:
            want = regions(T)
            r.ok(np.array_equal(np.asarray(reg).ravel(), want), 'regions_per_vertex')
            r.ok(bool(T.is_manifold) == bool((want == 1).all()), 'is_manifold')
    nc, lab = components(T)
    if 1 < nc <= 12:
        parts = r.must(T.split_connected_components, 'split_connected_components')
        if parts is not None:
            r.ok(len(parts) == nc, 'components', '%d, own count %d' % (len(parts), nc))
            got = [np.asarray(p.parent_idx[-1]) for p in parts]
            r.ok(np.array_equal(np.sort(np.concatenate(got)), np.arange(N[-1])), 'components', 'are not a partition')
            r.ok(all(len(set(lab[g].tolist())) == 1 for g in got), 'components', 'mix what is not connected')
            r.ok([len(g) for g in got] == sorted([len(g) for g in got], reverse=True), 'components', 'are not sorted by size')
    D = r.must(T.fundamental_domains, 'fundamental_domains')
    if D is not None:
        D = D.reshape(-1, n + 1)
        r.ok(np.array_equal(np.bincount(D[:, -1], minlength=N[-1]), np.full(N[-1], len(D) // N[-1])), 'fundamental domains', 'are not shared evenly by the elements')
        r.ok(len(np.unique(D, axis=0)) == len(D), 'fundamental domains', 'repeat')
        S = [[set(x) for x in k] for k in K]
        good = all((D[:, k] >= 0).all() and (D[:, k] < N[k]).all() for k in range(n + 1))
        r.ok(good and all(S[k][a] < S[k + 1][b] for k in range(n) for a, b in zip(D[:, k].tolist(), D[:, k + 1].tolist())), 'fundamental domains', 'are not flags of nested elements')
    cub = getattr(T, 'cubical_domains', None)
    if cub is not None and N[-1] * 4 ** n < 5000:
        Q = r.must(cub, 'cubical_domains')
        if Q is not None:
            good = Q.shape == (N[-1],) + (2,) * (2 * n)
            if r.ok(good, 'cubical domains', 'have the wrong shape'):
                import itertools
                S = [[set(x) for x in k] for k in K]
                for at in itertools.product((0, 1), repeat=n):
                    k = sum(at)
                    sub = Q[(slice(None),) + (slice(None),) * n + at].reshape(N[-1], -1)
                    good &= bool((sub >= 0).all() and (sub < N[k]).all()) and all(S[k][a] <= S[n][e] for e in range(N[-1]) for a in sub[e].tolist())
                r.ok(good, 'cubical domains', 'refer to elements that do not belong to the cube')


def regions(T):
    """groups of top elements around every vertex that hang together over facets containing it"""
    E, B, O = raw(T)
    n = T.n_dim
    c = [set(k) for k in keys(E[-2])]
    at = {}
    for i, e in enumerate(E[-1].reshape(len(E[-1]), -1)):
        for v in set(e.tolist()):
            at.setdefault(v, []).append(i)
    out = np.zeros(len(E[0]), int)
    for v, els in at.items():
        if True:
            byf = {}
            for i in els:
                for f in B[-1][i]:
                    byf.setdefault(f, []).append(i)
            lab = {}
            for s in els:
                if s in lab:
                    continue
                out[v] += 1
                lab[s], todo = 1, [s]
                while todo:
                    i = todo.pop()
                    for f in B[-1][i]:
                        for j in byf[f]:
                            if j not in lab:
                                lab[j] = 1
                                todo.append(j)
    return out


def _faces(e, k):
    """corner tuples of all k-faces of one element"""
    if e.ndim == 1:
        import itertools
        return itertools.combinations(e.tolist(), k + 1)
    out = [e]
    while out[0].ndim > k:
        out = [np.take(x, s, axis=a) for x in out for a in range(x.ndim) for s in (0, 1)]
    return [tuple(np.asarray(x).ravel().tolist()) for x in out]


def orientable(T):
    """2-colouring of elements over facets of degree two"""
    E, B, O = raw(T)
    n = len(E[-1])
    at = {}
    for i in range(n):
        for f, o in zip(B[-1][i], O[-1][i]):
            at.setdefault(f, []).append((i, o))
    adj = {}
    for f, l in at.items():
        if len(l) == 2:
            (i, a), (j, b) = l
            adj.setdefault(i, []).append((j, -a * b))
            adj.setdefault(j, []).append((i, -a * b))
    col = {}
    for s in range(n):
        if s in col:
            continue
        col[s] = 1
        todo = [s]
        while todo:
            i = todo.pop()
            for j, q in adj.get(i, ()):
                if j not in col:
                    col[j] = col[i] * q
                    todo.append(j)
                elif col[j] != col[i] * q:
                    return False
    return True


def index_map(sub, T, idx, r, what):
    """idx identifies the corners of sub with those of T"""
    if not r.ok(len(idx) == sub.n_dim + 1 and all(len(i) == len(e) for i, e in zip(idx, sub.elements)), what + ' index map', 'has the wrong shape'):
        return False
    good = True
    v = np.asarray(idx[0]).ravel()
    good &= r.ok(len(set(v.tolist())) == len(v), what + ' index map', 'is not injective on vertices')
    for k in range(sub.n_dim + 1):
        m = v[sub.elements[k].reshape(len(sub.elements[k]), -1)]
        p = T.elements[k].reshape(len(T.elements[k]), -1)[idx[k]]
        good &= r.ok(np.array_equal(np.sort(m, axis=1), np.sort(p, axis=1)), what + ' index map', 'dimension %d does not identify the same corners' % k)
    return good


def dual(T, b, d, r):
    n = T.n_dim
    N = [len(e) for e in T.elements]
    bn = [0] + ([len(e) for e in b.elements] if b is not None else [0] * n)
    want = [p + q for p, q in zip(N, bn)][::-1]
    r.ok(list(d.n_elements) == want and d.n_dim == n, 'dual n_elements', '%s, want %s' % (d.n_elements, want))
    M = r.must(lambda: d.matrices, 'dual.matrices')
    if M is None:
        return
    for k in range(n):
        r.ok(M[k].shape == (want[k], want[k + 1]), 'dual matrix shape', str(k))
        if k:
            r.ok(nz(sp.csr_matrix(M[k - 1], dtype=float) @ sp.csr_matrix(M[k], dtype=float)) == 0, 'dual boundary of a boundary', 'matrices %d and %d' % (k - 1, k))
    # every dual edge joins two dual vertices with opposite sign: the dual closes all boundaries
    m = sp.csc_matrix(M[0], dtype=float)
    r.ok((np.diff(m.indptr) == 2).all() and np.allclose(np.asarray(m.sum(axis=0)), 0), 'dual edges', 'do not have two ends')
    # interior block is the transposed primal
    for k in range(n):
        t = T.matrices[n - 1 - k].T
        r.ok(nz(sp.csr_matrix(M[k])[:t.shape[0], :t.shape[1]] - sp.csr_matrix(t)) == 0, 'dual matrix', 'is not the transposed primal in the interior')
    for k, A in enumerate(d.averaging_operators_0):
        r.ok(A.shape == (want[k], want[0]) and np.allclose(np.asarray(A.sum(axis=1)), 1), 'dual averaging_operators_0', str(k))
    S, Q = d.selector_interior, d.selector_boundary
    for k in range(n + 1):
        r.ok(S[k].shape == (N[k], want[n - k]) and Q[k].shape == (want[n - k] - N[k], want[n - k]), 'dual selectors', 'shape %d' % k)
        P = S[k].T @ S[k] + Q[k].T @ Q[k]
        r.ok(nz(P - sp.identity(want[n - k])) == 0, 'dual selectors', 'dimension %d are not complementary' % k)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * (1 + (abs(b).max() if b.size else 0)))


def spherical(C):
    return 'Spherical' in type(C).__name__ or type(C).__name__ == 'ComplexCircular'


def on_sphere(C):
    """spherical types stand for points on their sphere; elsewhere their positions mean nothing"""
    return not spherical(C) or np.allclose(np.linalg.norm(C.vertices, axis=1), getattr(C, 'radius', 1) or 1)


def affine(V, E):
    """are all elements simplices or parallelotopes"""
    if E.ndim == 2:
        return True
    d = E.ndim - 1
    X = V[E]
    for a in range(1, d + 1):
        D = np.take(X, 1, axis=a) - np.take(X, 0, axis=a)
        D = D.reshape(len(E), -1, V.shape[1])
        if not np.allclose(D, D[:, :1]):
            return False
    return True


def centered(V, E):
    """the circumcenter of every simplex and of all its faces is inside, or the mesh is at most two-dimensional"""
    if E.ndim > 2 or E.shape[1] < 4:
        return True
    import itertools
    for k in range(3, E.shape[1] + 1):
        for sub in itertools.combinations(range(E.shape[1]), k):
            X = V[E[:, sub]]
            for x in X:
                A = np.ones((k + 1, k + 1))
                A[:k, :k] = 2 * x @ x.T
                A[k, k] = 0
                try:
                    b = np.linalg.solve(A, np.append((x * x).sum(1), 1))[:k]
                except np.linalg.LinAlgError:
                    return False
                if (b <= 1e-6).any():
                    return False
    return True


def shapely(C):
    """finite positions, spherical meshes on their sphere, no needles or flat elements"""
    V, E = C.vertices, C.topology.elements[-1]
    if not np.isfinite(V).all() or not on_sphere(C):
        return False
    w = getattr(C, 'weights', None)
    if w is not None and not np.isfinite(w).all():
        return False
    X = V[E.reshape(len(E), -1)]
    d = np.sqrt(((X[:, :, None] - X[:, None]) ** 2).sum(-1)).max((1, 2))
    n = C.topology.n_dim
    if (d < 1e-6).any():
        return False
    v = volume(V, E)
    k = fact(n) if E.ndim == 2 else n ** (n / 2.)
    if (v * k / d ** n < .03).any():
        return False
    if n > 2:
        return all(volume(V, f.reshape(-1, f.shape[-1]) if E.ndim == 2 else f).min() > 1e-3 * d.min() ** (n - 1) for f in [facets(E)] if E.ndim == 2)
    return True


def is_flat(C):
    return C.vertices.shape[1] == C.topology.n_dim and not spherical(C)


def complex_(C, r):
    T = C.topology
    n = T.n_dim
    V = C.vertices
    N = [len(e) for e in T.elements]
    r.ok(len(V) == N[0], 'vertices', 'number %d, topology has %d' % (len(V), N[0]))
    topology(T, r)
    w = getattr(C, 'weights', None)
    r.ok(w is None or np.shape(w) == (N[0],), 'weights', 'number %s, topology has %d vertices' % (np.shape(w), N[0]))
    if n == 0:
        return
    ori = oriented(T)
    b = T.boundary if ori else None
    if ori:
        if b is not None and type(C).__name__ == 'ComplexSpherical2':
            cb = None           # there is no type for the boundary of a piece of a sphere (see DESIGN.md)
        else:
            cb = r.must(lambda: C.boundary, 'complex boundary')
            r.ok((cb is None) == (b is None), 'complex boundary')
        if cb is not None and cb.topology is b:
            r.ok(np.array_equal(cb.vertices, V[b.parent_idx[0]], equal_nan=True), 'boundary vertex positions')
    pp = None
    try:
        pp = C.primal_position
    except Exception:
        pass
    ok = shapely(C)
    if pp is not None and ok:
        r.ok(len(pp) == n + 1 and all(p.shape == (k, V.shape[1]) for p, k in zip(pp, N)), 'primal_position shapes')
        r.ok(close(pp[0], V), 'position of vertices')
        if ori:
            dp = C.dual_position
            nb = [0] + ([len(e) for e in b.elements] if b is not None else [0] * n)
            r.ok([len(p) for p in dp] == [x + y for x, y in zip(N, nb)][::-1], 'dual_position lengths', str([len(p) for p in dp]))
            if b is not None:
                for k in range(n):
                    q = dp[n - 1 - k][N[k + 1]:]
                    r.ok(close(q, pp[k][b.parent_idx[k]]), 'position of dual boundary elements', str(k))
    if ori and ok:
        metric(C, r)
    if ori and ok and n > 0:
        try:
            pb = getattr(C, 'primal_barycentric', None)
            centred = bool(C.is_well_centered) and (pb is None or all(np.min(q) > 1e-6 for q in pb))
        except Exception:
            centred = False
        if centred and n <= (2 if spherical(C) else 3) and n > 1 and sum(N) < 1500:
            W = r.must(lambda: C.weighted_average_operators, 'weighted_average_operators')
            if W is not None:
                nd = T.dual.n_elements[0]
                for k, a in enumerate(W[1:]):
                    sm = np.asarray(a.sum(axis=1)).ravel()
                    live = np.asarray(abs(a).sum(axis=1)).ravel() > 0
                    r.ok(a.shape == (T.dual.n_elements[k + 1], nd) and np.allclose(sm[live & np.isfinite(sm)], 1) and live[:N[n - 1 - k]].all(), 'weighted_average_operators', 'dual dimension %d does not preserve constants' % (k + 1))
    op = C.smooth_operator()
    r.ok(op.shape == (N[0], N[0]) and np.allclose(np.asarray(op.sum(axis=1)), 1), 'smooth_operator', 'does not preserve constants')


def metric(C, r):
    T = C.topology
    try:
        P, D = C.metric
    except Exception:
        return
    n = T.n_dim
    N = [len(e) for e in T.elements]
    r.ok([len(p) for p in P] == N and [len(d) for d in D] == N[::-1], 'metric lengths')
    if not all(np.isfinite(x).all() for x in list(P) + list(D)):
        return
    r.ok(all(P is C.metric[0] or np.array_equal(a, b) for a, b in zip(P, C.primal_metric)), 'primal_metric')
    with np.errstate(all='ignore'):
        h, g = C.hodge_PD, C.hodge_DP
        for k in range(n + 1):
            a, b = np.asarray(h[k], float), np.asarray(g[k], float)
            ok = np.isfinite(a) & np.isfinite(b) & (a != 0) & (b != 0)
            r.ok(len(a) == N[k] and len(b) == N[k] and np.allclose((a * b)[ok], 1), 'hodges', 'dimension %d do not invert each other' % k)
            q = P[k] / D[n - k]
            m = np.isfinite(q) & np.isfinite(a)
            r.ok(np.allclose(q[m], a[m]), 'hodge_PD', 'dimension %d is not the ratio of primal and dual measure' % k)
    if is_flat(C) and getattr(C, 'weights', None) is None and affine(C.vertices, T.elements[-1]) and centered(C.vertices, T.elements[-1]):
        v = volume(C.vertices, T.elements[-1]).sum()
        r.ok(close(np.sum(P[-1]), v, 1e-6), 'total primal measure', '%s, sum of element volumes %s' % (np.sum(P[-1]), v))
        if all(np.all(x > 0) for x in D):
            r.ok(close(np.sum(D[-1]), v, 1e-6), 'total dual measure', '%s, sum of element volumes %s' % (np.sum(D[-1]), v))
    if is_flat(C) and getattr(C, 'weights', None) is None and affine(C.vertices, T.elements[-1]) and 'Regular' not in type(C).__name__ and n <= 2:
        for k in range(1, n + 1):
            if T.elements[k].ndim == 2 or affine(C.vertices, T.elements[k]):
                r.ok(close(P[k], volume(C.vertices, T.elements[k]), 1e-6), 'primal measure', 'dimension %d is not that of the elements' % k)
    if spherical(C) and n == 2 and T.elements[-1].ndim == 2:
        rad = getattr(C, 'radius', 1) or 1
        a = sphere_area(C.vertices[T.elements[-1]]) * rad ** 2
        r.ok(close(P[-1], a, 1e-6), 'primal measure', 'is not the area of the spherical triangles')
        r.ok(close(np.sum(D[-1]), np.sum(a), 1e-6), 'total dual measure', '%s, area of the triangles %s' % (np.sum(D[-1]), np.sum(a)))
    try:
        b = C.boundary
        if b is not None:
            dc = C.dual_metric_closed
            nb = [0] + [len(e) for e in b.topology.elements]
            r.ok([len(p) for p in dc] == [x + y for x, y in zip(N, nb)][::-1], 'dual_metric_closed lengths')
    except Exception:
        pass


def sphere_area(X):
    """area on the unit sphere of triangles with the given corners"""
    X = X / np.linalg.norm(X, axis=-1, keepdims=True)
    a, b, c = X[:, 0], X[:, 1], X[:, 2]
    num = abs(np.einsum('ij,ij->i', a, np.cross(b, c)))
    den = 1 + (a * b).sum(1) + (b * c).sum(1) + (c * a).sum(1)
    return 2 * np.arctan2(num, den)


# ----------------------------------------------------------------------------------------------------------
# one step

def top(T):
    return T.elements[-1]


def same_topology(a, b):
    return len(a.elements) == len(b.elements) and all(np.array_equal(x, y) for x, y in zip(a.elements, b.elements)) \
        and all(np.array_equal(x.reshape(-1), y.reshape(-1)) for x, y in zip(a._boundary, b._boundary)) \
        and all(np.array_equal(x.reshape(-1), y.reshape(-1)) for x, y in zip(a._orientation, b._orientation))


def step(p, s, c, args, r):
    """p: what the step was taken on, c: what it gave, args: values handed to it"""
    cx = hasattr(p, 'topology') and hasattr(p, 'vertices')
    P = p.topology if cx else p
    if c is None:
        return
    if s[0] == 'attr' and s[1] == 'topology':
        r.ok(c is p.topology or same_topology(c, p.topology), 'topology')
        return
    C = c.topology if hasattr(c, 'topology') else c
    if s[0] == 'attr':
        return          # boundary, dual: judged with the mesh
    name = s[1]
    N = [len(e) for e in P.elements]
    n = P.n_dim
    if n == 0 or C.n_dim == 0:
        return
    cub = P.elements[-1].ndim == n + 1 and 'Cubical' in type(P).__name__
    chi = euler(P)
    ori = oriented(P)
    kw = s[3] if len(s) > 3 else {}
    flat = cx and is_flat(p)
    plain = flat and getattr(p, 'weights', None) is None
    good = cx and shapely(p)
    sph = cx and spherical(p)
    if name in ('copy', 'scale', 'translate', 'transform', 'smooth') or name.startswith('as_'):
        if name == 'as_cube':
            r.ok(keys(C.elements[-1]) == keys(P.elements[-1]), 'conversion changed the elements')
        else:
            r.ok(same_topology(C, P), 'topology changed')
        if not good:
            return
        r.ok(np.isfinite(c.vertices).all(), 'vertices', 'are not finite')
        if name == 'scale':
            r.ok(close(c.vertices, p.vertices * args[0]), 'scaled positions')
        elif name == 'translate':
            r.ok(close(c.vertices, p.vertices + args[0]), 'translated positions')
        elif name == 'transform':
            r.ok(close(c.vertices, p.vertices @ args[0]), 'transformed positions')
        elif name in ('copy',) and not kw or name.startswith('as_') and cx and name != 'as_3':
            r.ok(close(c.vertices[:, :p.vertices.shape[1]], p.vertices, 1e-7), 'positions changed')
        elif name == 'smooth':
            r.ok(c.vertices.shape == p.vertices.shape, 'smoothed positions')
            lo, hi = p.vertices.min(0) - 1e-9, p.vertices.max(0) + 1e-9
            if hasattr(p, 'cube_shape') or cub:
                r.ok((c.vertices >= lo).all() and (c.vertices <= hi).all(), 'smoothing leaves the bounding box')
            if cub:
                S = p.smooth_operator(args[0] if args else None)
                r.ok(close(S @ p.vertices, c.vertices, 1e-7), 'smooth_operator', 'does not give the smoothed positions')
            if args and isinstance(args[0], dict) and 0 in args[0] and not sph:
                m = np.flatnonzero(args[0][0])
                r.ok(close(c.vertices[m], p.vertices[m]), 'creased vertices moved')
        return
    if name == 'fix_orientation':
        r.ok(sorted(keys(top(C))) == sorted(keys(top(P))) and keys(top(C)) == keys(top(P)), 'elements changed')
        o = oriented(C)
        if o is not None:
            r.ok(o, 'result is not oriented')
        if cx:
            r.ok(np.array_equal(c.vertices, p.vertices, equal_nan=True), 'positions changed')
        return
    if name == 'select_subset':
        sel = np.flatnonzero(args[0])
        r.ok(len(top(C)) == len(sel), 'size of subset')
        if index_map(C, P, C.parent_idx, r, 'subset'):
            r.ok(np.array_equal(np.asarray(C.parent_idx[-1]), sel), 'subset', 'is not the selected elements in order')
            v = np.asarray(C.parent_idx[0])
            r.ok(np.array_equal(v[top(C)], top(P)[sel]), 'subset corners')
            if cx:
                r.ok(np.array_equal(c.vertices, p.vertices[v], equal_nan=True), 'subset vertex positions')
                w = getattr(p, 'weights', None)
                if w is not None:
                    r.ok(np.array_equal(c.weights, w[v], equal_nan=True), 'subset weights')
        r.ok(C.parent is P, 'subset parent')
        return
    if name in ('clip', 'extrude', 'product'):
        if cx and not np.isfinite(p.vertices).all():
            return
        return special(p, P, s, c, C, args, r)
    if name.startswith('optimize_weights'):
        r.ok(same_topology(C, P) and np.array_equal(c.vertices, p.vertices, equal_nan=True), 'weights changed the mesh')
        return
    # refinements
    if name == 'subdivide_fundamental':
        fac = fact(n + 1) if not cub else fact(n) * 2 ** n
        nv = sum(N)
    elif name == 'subdivide_cubical':
        fac, nv = (2 ** n if cub else n + 1), sum(N)
    elif name == 'subdivide_simplicial':
        fac, nv = (4 if cub else n + 1), N[0] + N[-1]
    elif name in ('subdivide_loop', 'subdivide_loop_direct'):
        fac, nv = 4, N[0] + N[1]
    else:
        return
    M = [len(e) for e in C.elements]
    r.ok(C.n_dim == n and M[-1] == fac * N[-1] and M[0] == nv, 'refinement size', '%s from %s' % (M, N))
    r.ok(euler(C) == chi, 'Euler characteristic', '%d, was %d' % (euler(C), chi))
    r.ok(components(C)[0] == components(P)[0], 'number of components')
    keeps = not (name == 'subdivide_fundamental' and not cub and args and args[0] is False) and not (name == 'subdivide_cubical' and not cub and n % 2)
    if ori and n > 1:
        if keeps:
            o = oriented(C)
            r.ok(o, 'refinement of an oriented mesh is not oriented')
        if oriented(C) and keeps:
            bf, bg = len(boundary_facets(P)), len(boundary_facets(C))
            mul = {'subdivide_fundamental': fact(n) if not cub else fact(n - 1) * 2 ** (n - 1), 'subdivide_cubical': 2 ** (n - 1) if cub else n, 'subdivide_simplicial': 1,
                   'subdivide_loop': 2, 'subdivide_loop_direct': 2}[name]
            r.ok(bg == mul * bf, 'size of the refined boundary', '%d, was %d' % (bg, bf))
    if name in ('subdivide_loop', 'subdivide_loop_direct') or (name == 'subdivide_cubical' and cub):
        r.ok(C.parent is P, 'parent of the refined topology')
        transfers(P, C, name, n, N, M, p if cx else None, c if cx else None, r)
    if cx and good:
        r.ok(np.isfinite(c.vertices).all(), 'vertices', 'are not finite')
        smooth = bool(kw.get('smooth')) or (args and args[0] is True and name != 'subdivide_fundamental')
        if not smooth and not sph:
            r.ok(close(c.vertices[:N[0]], p.vertices), 'old vertices moved')
            if name in ('subdivide_cubical', 'subdivide_fundamental'):
                r.ok(close(c.vertices, np.concatenate(p.primal_position)), 'vertices of the refinement')
        if plain and not smooth and (cub or name in ('subdivide_loop', 'subdivide_loop_direct', 'subdivide_simplicial')) and C.elements[-1].ndim == (n + 1 if name == 'subdivide_cubical' else 2):
            a, b = volume(p.vertices, top(P)).sum(), volume(c.vertices, top(C)).sum()
            inside = cub or name.startswith('subdivide_loop')
            if inside and affine(p.vertices, top(P)) and affine(c.vertices, top(C)):
                r.ok(close(a, b, 1e-6), 'total volume', '%s, was %s' % (b, a))
        if name == 'subdivide_simplicial' and cub and plain and affine(p.vertices, top(P)):
            a, b = volume(p.vertices, top(P)).sum(), volume(c.vertices, top(C)).sum()
            r.ok(close(a, b, 1e-6), 'total area', '%s, was %s' % (b, a))
            X = C.transfer_operators
            r.ok(X[0].shape == (M[0], N[0]) and close(X[0] @ p.vertices, c.vertices), 'transfer_operators', 'vertices')
            r.ok(X[2].shape == (M[2], N[2]) and (np.asarray(abs(X[2]).sum(axis=0)) == 4).all(), 'transfer_operators', 'triangles')
        if getattr(p, 'weights', None) is None and hasattr(p, 'subdivide_loop_operator') and name == 'subdivide_loop' and not sph and not smooth:
            S = p.subdivide_loop_operator()
            r.ok(S.shape == (M[0], N[0]) and close(S @ p.vertices, c.vertices), 'subdivide_loop_operator', 'does not give the refined positions')
        if not smooth and hasattr(p, 'subdivide_operator') and name == 'subdivide_cubical' and cub:
            S = p.subdivide_operator()
            r.ok(close(S @ p.vertices, c.vertices), 'subdivide_operator', 'does not give the refined positions')


def transfers(P, C, name, n, N, M, p, c, r):
    T = r.must(lambda: C.transfer_matrices, 'transfer_matrices')
    if T is None:
        return
    r.ok(len(T) == n + 1 and all(t.shape == (m, k) for t, m, k in zip(T, M, N)), 'shapes of transfer matrices')
    if [t.shape for t in T] != [(m, k) for m, k in zip(M, N)]:
        return
    kids = {'subdivide_cubical': lambda k: 2 ** k}.get(name, lambda k: [1, 2, 4][k])
    for k, t in enumerate(T):
        col = np.asarray(abs(t).sum(axis=0)).ravel()
        row = np.asarray(abs(t).sum(axis=1)).ravel()
        r.ok((col == kids(k)).all() and row.max() <= 1, 'transfer matrix', 'dimension %d: not %d fine elements for each coarse one' % (k, kids(k)))
    r.ok((np.asarray(abs(T[-1]).sum(axis=1)).ravel() == 1).all(), 'transfer matrix', 'a fine element has no parent')
    # a fine element consists of points of its parent: its vertices come from elements that belong to the parent
    off = np.cumsum([0] + N)
    origin = []
    Ek = [[set(k) for k in keys(e)] for e in P.elements]
    for v in range(M[0]):
        k = int(np.searchsorted(off, v, 'right') - 1)
        origin.append((k, v - off[k]))
    for k, t in enumerate(T):
        q = t.tocoo()
        good = True
        for f, a in zip(q.row, q.col):
            for v in C.elements[k].reshape(M[k], -1)[f]:
                o, e = origin[v]
                good &= Ek[o][e] <= Ek[k][a]
        r.ok(good, 'transfer matrix', 'dimension %d relates a fine element to a coarse one that does not contain it' % k)
    for k in range(n):
        # refined boundary = boundary of the refined, up to the sign of the elements (signs are checked where they are inherited)
        a = abs(C.matrices[k].astype(float)) @ abs(T[k + 1].astype(float))
        b = abs(T[k].astype(float)) @ abs(P.matrices[k].astype(float))
        r.ok(nz((a > 1.5).multiply(b > .5)) == 0, 'transfer matrices', 'dimension %d: refined boundary has interior elements' % k)
        if name in SIGNED:
            d = C.matrices[k].astype(float) @ T[k + 1].astype(float) - T[k].astype(float) @ P.matrices[k].astype(float)
            r.ok(nz(d) == 0, 'transfer matrices', 'dimension %d do not commute with the boundary' % k)


SIGNED = ('subdivide_loop', 'subdivide_loop_direct')


def special(p, P, s, c, C, args, r):
    name = s[1]
    if name == 'product':
        q = args[0]
        Q = q.topology if hasattr(q, 'topology') else q
        N, M = [len(e) for e in P.elements], [len(e) for e in Q.elements]
        want = [sum(N[i] * M[k - i] for i in range(len(N)) if 0 <= k - i < len(M)) for k in range(len(N) + len(M) - 1)]
        r.ok([len(e) for e in C.elements] == want, 'product sizes', '%s, want %s' % ([len(e) for e in C.elements], want))
        if hasattr(c, 'vertices') and hasattr(p, 'vertices'):
            r.ok(close(sorted(map(tuple, c.vertices.round(9).tolist())), sorted(tuple(a) + tuple(b) for a in p.vertices.round(9).tolist() for b in q.vertices.round(9).tolist())), 'product positions')
            if is_flat(p) and is_flat(q) and affine(p.vertices, top(P)) and affine(q.vertices, top(Q)):
                r.ok(close(volume(c.vertices, top(C)).sum(), volume(p.vertices, top(P)).sum() * volume(q.vertices, top(Q)).sum(), 1e-6), 'product volume')
        return
    if name == 'clip':
        if not shapely(p):
            return
        sup, d = np.asarray(args[0]), np.asarray(args[1])
        keep = (s[3] if len(s) > 3 else {}).get('clip', True)
        side = (c.vertices - sup) @ d
        used = np.unique(top(C))
        tol = 1e-7 * (1 + abs(side).max())
        tri = side[top(C)]
        r.ok(((tri <= tol).all(axis=1) | (tri >= -tol).all(axis=1)).all(), 'clip', 'an element still crosses the plane')
        if keep:
            r.ok((side[used] <= tol).all(), 'clip', 'something is left on the far side')
        a, b = volume(p.vertices, top(P)).sum(), volume(c.vertices, top(C)).sum()
        if keep:
            a = below(p.vertices, top(P), sup, d)
        r.ok(close(a, b, 1e-6), 'clip area', '%s, want %s' % (b, a))
        return
    if name == 'extrude':
        q = args[0]
        r.ok(len(c.vertices) == len(p.vertices) + len(q.vertices), 'extrude vertices')
        if oriented(P) and vertex_manifold(P):
            r.ok(oriented(C) and len(boundary_facets(C)) == 0, 'extrusion', 'of an oriented surface is not a closed oriented surface')
            r.ok(len(top(C)) == 2 * len(top(P)) + 2 * len(boundary_facets(P)), 'extrusion size')


def below(V, F, sup, d):
    """area of the part of each triangle on the kept side"""
    s = (V - sup) @ d
    total = 0.
    for f in F:
        poly = []
        for i in range(3):
            a, b = f[i], f[(i + 1) % 3]
            if s[a] <= 0:
                poly.append(V[a])
            if (s[a] <= 0) != (s[b] <= 0):
                t = s[a] / (s[a] - s[b])
                poly.append(V[a] + t * (V[b] - V[a]))
        for i in range(1, len(poly) - 1):
            total += volume(np.array([poly[0], poly[i], poly[i + 1]]), np.array([[0, 1, 2]]))[0]
    return total
