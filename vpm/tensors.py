"""Independent tensor oracles and generators (no code of the project is used here)."""
import numpy as np

R2 = np.sqrt(2)
L = np.longdouble


def m33(m):
    m = np.asarray(m, dtype=float)
    if m.ndim == 1:
        m = m[:, None]
    M = np.empty((m.shape[1], 3, 3))
    for (i, j), k, f in (((0, 0), 0, 1), ((1, 1), 1, 1), ((2, 2), 2, 1), ((0, 1), 3, R2), ((0, 2), 4, R2), ((1, 2), 5, R2)):
        M[:, i, j] = m[k]/f
        M[:, j, i] = m[k]/f
    return M


def M6_33(M):
    M = np.asarray(M, dtype=float)
    if M.ndim == 2:
        return np.array([M[0, 0], M[1, 1], M[2, 2], R2*M[0, 1], R2*M[0, 2], R2*M[1, 2]])
    return np.array([M[:, 0, 0], M[:, 1, 1], M[:, 2, 2], R2*M[:, 0, 1], R2*M[:, 0, 2], R2*M[:, 1, 2]])


def rotation(r, special=False):
    if special:
        # signed axis permutations, and rotations about one axis
        P = np.eye(3)[r.permutation(3)]*r.choice([-1., 1.], (3, 1))
        if r.random() < .5:
            t = r.choice([np.pi/4, np.pi/6, r.uniform(0, 2*np.pi)])
            c, s = np.cos(t), np.sin(t)
            P = P.dot(np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.]]))
        return P
    q, u = np.linalg.qr(r.normal(size=(3, 3)))
    return q*np.sign(np.diag(u))


def hostileE(r, generic=False):
    k = str(r.choice(['generic']*6+['dc', 'clvd+', 'clvd-', 'iso', 'near_iso', 'near_dc', 'two_equal', 'zero_mid', 'all_positive', 'all_negative', 'axis', 'edge']))
    if generic:
        k = 'generic'
    e = np.sort(r.normal(size=3))[::-1]
    if k == 'dc':
        e = np.array([1., 0, -1])
    elif k == 'clvd+':
        e = np.array([2., -1, -1])
    elif k == 'clvd-':
        e = np.array([1., 1, -2])
    elif k == 'iso':
        e = np.ones(3)*r.choice([-1, 1])*r.choice([1., .1, .3, r.random()+.1])
    elif k == 'near_iso':
        e = r.choice([-1, 1])*(r.random()+.5)*(1+10**r.uniform(-16, -3)*r.normal(size=3))
    elif k == 'near_dc':
        e = np.array([1., 0, -1])+10**r.uniform(-15, -6)*r.normal(size=3)
    elif k == 'two_equal':
        e = e[[0, 0, 2]] if r.random() < .5 else e[[0, 2, 2]]
    elif k == 'zero_mid':
        e = np.array([e[0], 0., e[2]])
    elif k == 'all_positive':
        e = np.abs(e)+.01
    elif k == 'all_negative':
        e = -np.abs(e)-.01
    elif k == 'axis':
        e = np.array([[1., 0, 0], [0, 0, -1.], [1, 1, 0], [0, -1., -1], [1, -1, -1], [1, 1, -1]][r.integers(6)])
    elif k == 'edge':    # the branch line tau = 4k of the Hudson map: largest and smallest absolute eigenvalue swap roles
        a = r.uniform(.1, 1)
        b = r.choice([0, 1e-12, -1e-12])
        e = np.array([1., a, -1+b]) if r.random() < .5 else np.array([1.+b, -a, -1.])
    e = np.sort(e)[::-1].astype(float)
    if len(set(e.tolist())) == 1:
        k = 'iso'
    return e, k


def hostile6(r, moderate=False):
    """a real symmetric tensor as six-vector"""
    k = r.integers(12)
    if k < 5:
        m = r.normal(size=6)
    elif k == 5:
        m = np.array([r.normal(), r.normal(), r.normal(), 0, 0, 0])
    elif k == 6 and not moderate:
        m = np.zeros(6) if r.random() < .3 else np.array([1., 1, 1, 0, 0, 0])*r.choice([-1, 1, .1, 1e-3])
    elif k == 7:
        m = np.zeros(6)
        m[r.integers(6)] = r.choice([-1, 1])
    else:
        e, t = hostileE(r)
        q = rotation(r, special=r.random() < .5)
        M = q.dot(np.diag(e)).dot(q.T)
        m = M6_33((M+M.T)/2)
    if not moderate:
        m = m*10.**r.choice([0, 0, 0, 1, -5, 20, -20, r.uniform(-100, 100)])
    return m


def unit6(r):
    """a unit six-vector and its kind"""
    e, k = hostileE(r)
    q = rotation(r, special=r.random() < .35)
    M = q.dot(np.diag(e)).dot(q.T)
    m = M6_33((M+M.T)/2)
    return m/np.sqrt((m*m).sum()), k


def source_type(E):
    """Tape lune and Hudson coordinates of an eigenvalue triple, in extended precision"""
    e = np.sort(np.asarray(E, dtype=float))[::-1].astype(L)
    a, b, c = e
    dev = np.sqrt((a-b)**2+(b-c)**2+(a-c)**2)
    out = {'iso': bool(a == c), 'dc': bool(a == -c and b == 0 and a > 0)}
    out['gamma'] = np.arctan2((b-a)+(b-c), np.sqrt(L(3))*(a-c)) if a != c else L(0)
    out['delta'] = np.arctan2(a+b+c, dev)
    mx = max(abs(a), abs(c))
    out['u'] = -L(2)/3*((a-b)+(c-b))/mx
    out['v'] = (a+b+c)/3/mx
    d0, d1, d2 = ((a-b)+(a-c))/3, ((b-a)+(b-c))/3, ((c-a)+(c-b))/3
    md = max(abs(d0), abs(d2))
    iso = (a+b+c)/3
    T = 2*d1/md if md > 0 else L(0)
    out['k'] = iso/(abs(iso)+md)
    out['tau'] = T*(1-abs(out['k']))
    return out


def lune_E(g, d):
    g, d = np.asarray(g, dtype=L), np.asarray(d, dtype=L)
    x, y, z = np.cos(g)*np.cos(d), np.sin(g)*np.cos(d), np.sin(d)
    s6, s3, s2 = np.sqrt(L(6)), np.sqrt(L(3)), np.sqrt(L(2))
    return np.array([(s3*x-y+s2*z)/s6, (2*y+s2*z)/s6, (-s3*x-y+s2*z)/s6], dtype=float)


def sdr_vectors(s, d, r):
    """fault normal (upper-side convention, n_z <= 0 with z down) and slip, Aki & Richards, N E D"""
    s, d, r = np.asarray(s, dtype=float), np.asarray(d, dtype=float), np.asarray(r, dtype=float)
    n = np.array([-np.sin(d)*np.sin(s), np.sin(d)*np.cos(s), -np.cos(d)+0*s])
    u = np.array([np.cos(r)*np.cos(s)+np.cos(d)*np.sin(r)*np.sin(s), np.cos(r)*np.sin(s)-np.cos(d)*np.sin(r)*np.cos(s), -np.sin(r)*np.sin(d)])
    return n, u


def sdr_tensor(s, d, r):
    """unit double-couple six-vectors, Aki & Richards (4.84) written out"""
    s, d, r = [np.atleast_1d(np.asarray(x, dtype=float)) for x in (s, d, r)]
    xx = -(np.sin(d)*np.cos(r)*np.sin(2*s)+np.sin(2*d)*np.sin(r)*np.sin(s)**2)
    yy = np.sin(d)*np.cos(r)*np.sin(2*s)-np.sin(2*d)*np.sin(r)*np.cos(s)**2
    zz = np.sin(2*d)*np.sin(r)
    xy = np.sin(d)*np.cos(r)*np.cos(2*s)+.5*np.sin(2*d)*np.sin(r)*np.sin(2*s)
    xz = -(np.cos(d)*np.cos(r)*np.cos(s)+np.cos(2*d)*np.sin(r)*np.sin(s))
    yz = -(np.cos(d)*np.cos(r)*np.sin(s)-np.cos(2*d)*np.sin(r)*np.cos(s))
    return np.array([xx/R2, yy/R2, zz/R2, xy, xz, yz])


def tape_tensor(g, d, k, h, s):
    """six-vectors of Tape parameters: eigenvalues from the lune, axes from normal and slip"""
    g, d, k, h, s = [np.atleast_1d(np.asarray(x, dtype=float)) for x in (g, d, k, h, s)]
    n, u = sdr_vectors(k, np.arccos(h), s)
    t = (n+u)/R2
    p = (n-u)/R2
    b = np.cross(t.T, p.T).T
    E = lune_E(g, d)
    M = np.einsum('an,ain,ajn->nij', E, np.array([t, b, p]), np.array([t, b, p]))
    return M6_33(M)


VOIGT = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (1, 2): 3, (2, 1): 3, (0, 2): 4, (2, 0): 4, (0, 1): 5, (1, 0): 5}


def c_tensor(c):
    V = np.zeros((6, 6))
    k = 0
    for i in range(6):
        for j in range(i, 6):
            V[i, j] = V[j, i] = c[k]
            k += 1
    T = np.empty((3, 3, 3, 3))
    for i in range(3):
        for j in range(3):
            for p in range(3):
                for q in range(3):
                    T[i, j, p, q] = V[VOIGT[i, j], VOIGT[p, q]]
    return T


def iso_tensor(lam, mu):
    d = np.eye(3)
    return lam*np.einsum('ij,kl->ijkl', d, d)+mu*(np.einsum('ik,jl->ijkl', d, d)+np.einsum('il,jk->ijkl', d, d))


def iso21(lam, mu):
    V = np.diag([2*mu]*3+[mu]*3)
    V[:3, :3] += lam
    return V[np.triu_indices(6)]


def mandel(T):
    B = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    w = [1, 1, 1, R2, R2, R2]
    return np.array([[w[a]*w[b]*T[B[a][0], B[a][1], B[b][0], B[b][1]] for b in range(6)] for a in range(6)])


def cdc_source(alpha, nu):
    """lune coordinates of a crack opening at angle alpha (from the normal) in a solid of Poisson ratio nu"""
    ca = np.cos(L(alpha))
    mu = L(1)-2*L(nu)
    lam = 2*L(nu)
    e = np.array([(ca+1)/2, L(0), (ca-1)/2])
    E = lam*ca+2*mu*e
    a, b, c = np.sort(E)[::-1]
    return {'gamma': np.arctan2((b-a)+(b-c), np.sqrt(L(3))*(a-c)), 'delta': np.arctan2(a+b+c, np.sqrt((a-b)**2+(b-c)**2+(a-c)**2))}
