"""P10: the blocker search never loses a heliostat that stands in a ray's way."""

import contextlib

from checks.common import *
from artist.raytracing import blocking
from artist.util import constants

PROPERTY = "P10"
ASSUMPTIONS = [
    REALS,
    "spatial sort codes are arbitrary 30-bit numbers, equal ones included (every code the position encoding could produce); the common-prefix lengths the tree construction works with are arbitrary numbers with the ultrametric laws that harness `prefix` proves for every triple of sorted codes",
]
HARNESSES = Registry()


@contextlib.contextmanager
def replaced(**kw):
    old = {k: getattr(blocking, k) for k in kw if hasattr(blocking, k)}
    for k, v in kw.items():
        setattr(blocking, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(blocking, k, v)


@HARNESSES("any 3 sorted 30-bit codes, equal ones included", bv=True)
def prefix(h):
    c = h.int("code", (3,), 0, 2**30 - 1, dtype=torch.int32)
    h.assume((c[0] <= c[1]) & (c[1] <= c[2]))
    i = torch.tensor([0, 1, 0, 1, 2, 2, 0, 2], dtype=torch.int32)
    j = torch.tensor([1, 2, 2, 0, 1, 0, -1, 3], dtype=torch.int32)
    r = blocking.longest_common_prefix(c, i, j, device=CPU)
    h.check(r[6] == -1, "nothing in common outside the range")
    h.check(r[7] == -1, "nothing in common outside the range")
    h.check((r[0] == r[3]) & (r[1] == r[4]) & (r[2] == r[5]), "symmetric")
    h.check(r[:6] >= 0, "inside the range every prefix is longer than outside")
    h.check(r[2] == torch.minimum(r[0], r[1]), "the common prefix of a range is the shortest one inside")
    h.check(r[0] != r[1], "no three neighbours share the same prefix length")


def walk(t, n):
    """Blockers met by following the children that the search would follow."""
    left, right = t[constants.left_node], t[constants.right_node]
    leaf, prim = t[constants.is_leaf], t[constants.primitive_index]
    seen, stack, steps = [], [0], 0
    while stack:
        k = stack.pop()
        steps += 1
        if steps > 4 * n:
            return None
        if bool(leaf[k]):
            seen.append(int(prim[k]))
            continue
        for c in (int(left[k]), int(right[k])):
            if c >= 0:
                stack.append(c)
    return seen


def tree(h, n):
    lam = h.int("prefix", (max(n - 1, 1),), 0, 62, dtype=torch.int32)
    for i in range(n - 1):
        for j in range(i + 1, n - 1):
            m = torch.zeros((), dtype=torch.bool)
            for k in range(i + 1, j):
                m = m | (lam[k] < lam[i])
            h.assume((lam[i] != lam[j]) | m)
    def shortest(i, j):
        m = i
        for k in range(i + 1, j):
            if h.branch(lam[k] < lam[m]):
                m = k
        return lam[m]

    rows = [[None] * n for _ in range(n)]
    for w in range(n):
        for i in range(n - w):
            rows[i][i + w] = rows[i + w][i] = shortest(i, i + w) if w else torch.tensor(63, dtype=torch.int32)
    rows = [torch.stack(r) for r in rows]
    table = torch.stack(rows)

    def lcp(codes, i, j, device=None):
        ok = (j >= 0) & (j < n)
        return torch.where(ok, table[i.clamp(0, n - 1).long(), j.clamp(0, n - 1).long()], torch.full_like(table[0, 0], -1))

    lo = torch.tensor([[3.0, -1, 4], [-1, 5, -9], [2, 6, -5], [-3, 5, 8], [9, 7, -9], [3, 2, 3], [8, -4, 6], [5, 5, 5]])[:n]
    ext = torch.tensor([[1.0, 2, 3], [2, 1, 1], [1, 1, 2], [4, 1, 1], [1, 3, 1], [2, 2, 2], [1, 1, 5], [1, 2, 1]])[:n]
    corners = torch.stack([lo, lo + ext, lo, lo], dim=1)
    with replaced(longest_common_prefix=lcp, morton_codes=lambda *a, **k: torch.arange(n, dtype=torch.int32)):
        t = blocking.build_linear_bounding_volume_hierarchies(torch.cat([corners, torch.ones(n, 4, 1)], -1), device=CPU)
    seen = walk(t, n)
    h.check(torch.tensor(seen is not None and sorted(seen) == list(range(n))), "every blocker is reachable from the root exactly once")
    for k in range(len(t[constants.left_node])):
        for c in (int(t[constants.left_node][k]), int(t[constants.right_node][k])):
            if c >= 0:
                h.check((t[constants.aabb_min][k] <= t[constants.aabb_min][c]).all() & (t[constants.aabb_max][k] >= t[constants.aabb_max][c]).all(), "every box contains the boxes below it")
    for k in range(n):
        b = (t[constants.primitive_index] == k) & t[constants.is_leaf]
        h.check((t[constants.aabb_min][b] <= lo[k]).all() & (t[constants.aabb_max][b] >= lo[k] + ext[k]).all(), "the box of a blocker contains it")


for _n in (1, 2, 3, 4, 5, 6):
    HARNESSES(f"{_n} blockers with any codes: all tree shapes", name=f"tree_{_n}", eager=True)(lambda h, n=_n: tree(h, n))
HARNESSES("7 blockers with any codes: all tree shapes", name="tree_7", tier="thorough", eager=True, max_paths=20000, budget_s=3000)(lambda h: tree(h, 7))


@HARNESSES("2 rays of any direction (each component at least 0.001 in size), each through any point of any box", simplify=True)
def box(h):
    o, d, lo, hi, tau = [], [], [], [], []
    for r in range(2):
        m = h.real(f"m{r}", (3,), 0.001, 1)
        s = torch.stack([torch.where(h.bool(f"pos{r}{c}"), 1.0, -1.0) for c in range(3)]) if r == 0 else torch.tensor([1.0, -1.0, -1.0])
        d.append(m * s)
        tau.append(h.real(f"tau{r}", (), 0.001, 100))
        p = h.real(f"p{r}", (3,), -50, 50)
        o.append(p - tau[-1] * d[-1])
        lo.append(p - h.real(f"a{r}", (3,), 0, 20))
        hi.append(p + h.real(f"b{r}", (3,), 0, 20))
    d = torch.stack(d)
    near, far = blocking.ray_aabb_intersect(torch.stack(o), 1.0 / d, torch.stack(lo), torch.stack(hi))
    for r in range(2):
        h.le(near[r], tau[r], "a ray enters a box before any point inside")
        h.le(tau[r], far[r], "a ray leaves a box after any point inside")


@HARNESSES("axis-parallel rays (two zero components) through any point of any box")
def box_axis(h):
    for c in range(3):
        for s in (1.0, -1.0):
            d = torch.zeros(3)
            d[c] = s
            tau = h.real(f"tau{c}{s}", (), 0.001, 100)
            p = h.real(f"p{c}{s}", (3,), -50, 50)
            lo, hi = p - h.real(f"a{c}{s}", (3,), 0.001, 20), p + h.real(f"b{c}{s}", (3,), 0.001, 20)
            near, far = blocking.ray_aabb_intersect((p - tau * d)[None], (1.0 / (d + 1e-12))[None], lo[None], hi[None])
            h.le(near[0], tau, "a ray enters a box before any point inside", 1e-3)
            h.le(tau, far[0], "a ray leaves a box after any point inside", 1e-3)


def search(h, n, rays):
    """Rays through the middle of the blocker in their way; every other box test may go either way."""
    lam = torch.arange(n)
    lo = torch.tensor([[0.0, 0, 0], [10, 1, 5], [-3, 20, 7], [30, -8, 2], [5, 40, -9]])[:n]
    hi = lo + torch.tensor([[2.0, 2, 2], [1, 3, 2], [2, 1, 1], [2, 2, 4], [1, 1, 2]])[:n]
    order = h.choice("tree", 2)
    code = torch.tensor([[1, 2, 4, 8, 16], [0, 1, 16, 17, 24]][order][:n], dtype=torch.int32)
    way = [h.choice(f"in the way of {r}", n) for r in range(rays)]
    d = torch.tensor([[1.0, 2, 2], [-2, 1, 2], [2, -2, 1]])[:rays] / 3
    tau = [h.real(f"tau{r}", (), 0.001, 100) for r in range(rays)]
    t = [tau[r] + h.real(f"beyond{r}", (), 0, 500) for r in range(rays)]
    o = torch.stack([(lo[k] + hi[k]) / 2 - 7.0 * d[r] for r, k in enumerate(way)])
    own = [(k + 1) % n if n > 1 and h.branch(h.bool(f"self{r}")) else n for r, k in enumerate(way)]
    near = {}
    far = {}

    def test(origins, inverse, amin, amax):
        es, xs = [], []
        for i in range(origins.shape[0]):
            r = [q for q in range(rays) if bool((origins[i] == o[q]).all())][0]
            key = (r,) + tuple(float(v) for v in amin[i]) + tuple(float(v) for v in amax[i])
            if key not in near:
                near[key] = h.real(f"near{len(near)}", (), -1000, 1000)
                far[key] = h.real(f"far{len(far)}", (), -1000, 1000)
                k = way[r]
                if bool((amin[i] <= lo[k]).all() & (amax[i] >= hi[k]).all()):
                    h.assume((near[key] <= tau[r]) & (tau[r] <= far[key]))
            es.append(near[key])
            xs.append(far[key])
        return torch.stack(es), torch.stack(xs)

    corners = torch.stack([lo, torch.stack([lo[:, 0], hi[:, 1], lo[:, 2]], -1), hi, torch.stack([hi[:, 0], lo[:, 1], hi[:, 2]], -1)], 1)
    hom = lambda v, w: torch.cat([v, torch.full(v.shape[:-1] + (1,), float(w))], -1)
    with replaced(morton_codes=lambda *a, **k: code, ray_aabb_intersect=test):
        out = blocking.lbvh_filter_blocking_planes(hom(o, 1)[:, None], hom(d, 0)[:, None, None], hom(corners, 1), torch.tensor(own), torch.stack(t)[:, None, None], device=CPU)
    found = [int(x) for x in out]
    for k in way:
        h.check(torch.tensor(k in found), "a blocker in the way of a ray is kept")
    for k in found:
        h.check(torch.tensor(any(w != k for w in own)), "a heliostat never blocks itself")


@HARNESSES("1 ray, 1 blocker")
def search_1(h):
    search(h, 1, 1)


@HARNESSES("1 ray, 3 blockers (2 tree shapes), any in the way, any outcome of the other box tests")
def search_3(h):
    search(h, 3, 1)


@HARNESSES("1 ray, 5 blockers (2 tree shapes), any in the way, any outcome of the other box tests", tier="thorough", max_paths=3000, budget_s=900)
def search_5(h):
    search(h, 5, 1)


@HARNESSES("2 rays, 2 blockers, any in the way of either, any outcome of the other box tests")
def search_2x2(h):
    search(h, 2, 2)


@HARNESSES("1 ray, 4 blockers (2 tree shapes), any in the way, any outcome of the other box tests")
def search_4(h):
    search(h, 4, 1)


@HARNESSES("2 rays, 3 blockers (2 tree shapes), any in the way of either, any outcome of the other box tests", tier="thorough", max_paths=20000, budget_s=2400)
def search_2x3(h):
    search(h, 3, 2)
