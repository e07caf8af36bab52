"""C32: the ratio of a geometric spacing gives the total length asked for, whenever the iteration ends by its tolerance."""


def ratio(env, n, limit, free=0, lo=0.0, hi=0.0, tols=(1e-14,), firsts=(1.0, 0.04), most=20.0):
    m = env.mod("meshtools")
    l0 = env.pick("l0", firsts)
    k = env.real("k", 1.0, most)
    ltot = k * l0
    env.logs(limit, free, lo, hi)
    tol = env.pick("tol", tols)
    args = () if tol == 1e-14 else (tol,)
    try:
        a = m.exponential_refinement_parameter(l0, ltot, n, *args)
    except (ValueError, ZeroDivisionError):
        if env.sym and free:
            return  # from a state the iteration may never be in
        raise
    total = 0.0
    for i in range(n - 1, -1, -1):
        total = total * a + 1.0
    # an error e in the ratio is one of at most (n-1) e in the length
    env.check("the lengths add up", env.any([a < 0.0, env.all([total - k <= k * (4 * n * tol + 1e-6), k - total <= k * (4 * n * tol + 1e-6)])]))


SCENARIOS = {}
for _n in (2, 3, 4, 5, 6, 8):
    # the iteration that never moves again (a tolerance of zero) is the one the solver can decide for any number of elements
    _t = (1e-14, 0.0) if _n == 2 else (0.0,)
    SCENARIOS[f"first_{_n}"] = (ratio, dict(n=_n, limit=1, tols=(1e-14, 1e-8, 0.0)))
    _o = {"cost": _n} if _n < 6 else {"cost": 9, "tier": "thorough", "query_ms": 300000, "path_s": 700, "budget": 1500}
    SCENARIOS[f"above_{_n}"] = (ratio, dict(n=_n, limit=2, free=1, lo=-10.0 * _n, hi=-1e-6 * (_n - 1), tols=_t), _o)
    SCENARIOS[f"below_{_n}"] = (ratio, dict(n=_n, limit=2, free=1, lo=1e-6 * (_n - 1), hi=0.5 * (_n - 1), tols=_t), _o)
    _o = {"cost": 2 * _n} if _n < 3 else {"cost": 9, "tier": "thorough", "query_ms": 300000, "path_s": 700, "budget": 1500}
    if _n < 5:
        SCENARIOS[f"near_{_n}"] = (ratio, dict(n=_n, limit=3, free=1, lo=1e-12, hi=1.1e-6 * (_n - 1), tols=_t), _o)
        SCENARIOS[f"near_above_{_n}"] = (ratio, dict(n=_n, limit=3, free=1, lo=-1.1e-6 * (_n - 1), hi=-1e-12, tols=_t), _o)


def whole(env, ns, ks, by=False):
    """whole iterations, for particular totals (how many steps an iteration takes is not decided for all of them)"""
    m = env.mod("meshtools")
    n = env.pick("n", ns)
    k = env.pick("k", ks) * (n if by else 1)
    l0 = env.pick("l0", (1.0, 0.04))
    a = m.exponential_refinement_parameter(l0, k * l0, n)
    total = 0.0
    for i in range(n - 1, -1, -1):
        total = total * a + 1.0
    env.check("the lengths add up", total - k <= 1e-6 * k and k - total <= 1e-6 * k)


FEW = (1.0, 1.0004, 1.05, 1.5, 1.999, 3.0, 6.0, 20.0, 1e3, 1e5, 1e7)
SCENARIOS["whole_few"] = (whole, dict(ns=(2, 3, 4), ks=FEW))
SCENARIOS["whole_more"] = (whole, dict(ns=(5, 6, 7, 8, 10), ks=FEW + (4.9, 5.1, 9.99, 10.0)))
SCENARIOS["whole_many"] = (whole, dict(ns=(12, 20, 35, 100), ks=FEW + (12.1, 19.9, 34.0, 105.0)))
# totals close to that of a uniform spacing: the approximation used there and the power it replaces must agree
NEAR = (0.75, 0.9, 0.99, 0.999, 0.9999, 1.0, 1.0001, 1.001, 1.01, 1.1, 1.3)
SCENARIOS["whole_near_few"] = (whole, dict(ns=(2, 3, 5, 10), ks=NEAR, by=True))
SCENARIOS["whole_near"] = (whole, dict(ns=(30, 100, 300), ks=NEAR, by=True))
SCENARIOS["whole_near_many"] = (whole, dict(ns=(1000, 3000), ks=NEAR, by=True))
