"""C11: composition of checked out scenes (overlap groups, nearest sources, fixed sources, enclosing region)."""
import numpy as np

from checks.c04 import separation
from fpv.scenes import fitted, offsets, random_scene

PROPERTY = "C11"
TECHNIQUE = "runtime monitor: brute-force all-pairs overlap graph and sky geometry as oracle for every check-out of random histories"
RULE = "distinct (scene class, strictness, group truncated, groups taken, fixed, region at minimum radius, refused) situations"
ASSUMPTIONS = ["radii of influence are below the boundary radius", "sources are on a continuous branch of right ascension, within an arcminute or so", "check-outs within 1e-6 arcsec of a tie or an edge are not judged"]
CASES = {"quick": 1600, "thorough": 20000}
MIN = {"linked": 1500, "plain": 1500, "truncated_groups": 100, "whole_groups": 150, "group_catalogs": 100, "circles": 200}
EPS = 1e-6


class Tie(Exception):
    pass


def clear(values, edge):
    v = np.asarray(values, float)
    if v.size and np.min(np.abs(v - edge)) < EPS:
        raise Tie()


def distinct(values):
    v = np.sort(np.asarray(values, float))
    if v.size > 1 and np.min(np.diff(v)) < EPS:
        raise Tie()


def component(adj, s):
    seen, todo = {s}, [s]
    while todo:
        k = todo.pop()
        for j in np.flatnonzero(adj[k]):
            if j not in seen:
                seen.add(int(j))
                todo.append(int(j))
    return seen


def connected(adj, nodes):
    nodes = [int(v) for v in nodes]
    sub = adj[np.ix_(nodes, nodes)]
    return len(component(sub, 0)) == len(nodes)


def brute(scene, xy, roi):
    d = np.hypot(*(xy[:, None] - xy[None, :]).transpose(2, 0, 1))
    s = roi[:, None] + roi[None, :]
    off = ~np.eye(len(xy), dtype=bool)
    if off.any() and np.min(np.abs(d - s)[off]) < EPS:
        raise Tie()
    return (d < s) & off


def linked_truth(ctx, scene, opts, xy, roi, seed, held, region, act, fix, max_fixed):
    adj = brute(scene, xy, roi)
    a0, f0 = held
    dist = np.hypot(*(xy - xy[seed]).T)
    metric = dist / (opts["boundary_radius"] + roi)
    clear(metric, 1.0)
    distinct(metric[metric < 1] * opts["boundary_radius"])
    cand = np.flatnonzero(metric < 1)
    cand = cand[np.argsort(metric[cand])]
    if act is None:
        # some source that may be part of the patch must be in use
        pool = set()
        for c in cand:
            pool |= component(adj, int(c))
        pool = np.array(sorted(pool))
        reach = dist[pool].max() + roi[pool].max() + opts["buffer"] + opts["minradius"]
        near = np.flatnonzero(dist < 2 * 1.2 * 2 * reach + 2 * roi.max())
        ctx.check(np.any(a0[near]) or np.any(f0[near]), "a check-out is refused although no source nearby is in use", seed=seed)
        ctx.sig("linked", "refused", bool(a0[cand].any()))
        ctx.count("linked")
        return
    got = [int(k) for k in act["source_index"]]
    ctx.check(seed in got, "the seed is not active", seed=seed, active=got)
    ctx.check(not a0[cand].any(), "checked out although a nearby source is active elsewhere")
    left = set(got)
    n, ngroups, trunc = 0, 0, False
    room = opts["maxactive_per_patch"]
    seen = set()
    for c in cand:
        c = int(c)
        if c in seen:
            continue
        g = component(adj, c)
        if len(g) <= room - n:
            ctx.check(g <= left, "a group that fits is not taken whole, in order of distance", group=sorted(g), active=got, candidate=c)
            ctx.count("whole_groups", len(g) > 1)
            left -= g
            n += len(g)
            seen |= g
            ngroups += 1
            continue
        if (not opts["strict"] or n == 0) and room > n:
            part = g & left
            ctx.check(len(part) == room - n, "remaining slots are not filled with the next group", group=sorted(g), active=got, room=room - n)
            ctx.check(c in part and connected(adj, sorted(part)), "the part of a group that is taken is not linked to its nearest source", part=sorted(part), candidate=c)
            left -= part
            trunc = True
            ctx.count("truncated_groups")
        break
    ctx.check(not left, "active sources that belong to no group in order of distance", extra=sorted(left), active=got)
    # --- region
    cat = scene.sourcecat
    cra, cdec = np.mean(cat["ra"][got]), np.mean(cat["dec"][got])
    cen = np.array(offsets(cra, cdec, *scene_center(scene)))
    dd = np.hypot(*(xy[got] - cen).T)
    radius = max(opts["minradius"], np.max(dd + roi[got] + opts["buffer"]))
    check_region(ctx, region, cra, cdec, radius)
    # --- fixed
    m = np.hypot(*(xy - cen).T) / (1.2 * radius + roi)
    clear(m, 1.0)
    # the search is limited to sources with centres within the boundary radius of the circle
    over = [int(k) for k in np.argsort(m) if m[k] < 1 and k not in got]
    distinct(m[over] * radius)
    nf = opts["maxactive_per_patch"] if max_fixed is None else max_fixed
    want = over[:nf]
    gotf = [] if fix is None else [int(k) for k in fix["source_index"]]
    ctx.check(gotf == want, "fixed sources are not the closest ones overlapping the enlarged patch", got=gotf, want=want, active=got)
    ctx.count("linked")
    ctx.sig("linked", opts["strict"], trunc, min(ngroups, 5), min(len(want), 4), radius == opts["minradius"], len(over) > nf)


def scene_center(scene):
    return np.median(scene.original["ra"]), np.median(scene.original["dec"])


def check_region(ctx, region, cra, cdec, radius):
    ctx.close(separation(region.ra, region.dec, cra, cdec) * 3600, 0, 1e-5, "centre of the region (arcsec)", got=(region.ra, region.dec), want=(cra, cdec))
    ctx.close(region.radius * 3600, radius, 1e-5, "radius of the region")


def plain_truth(ctx, scene, opts, xy, seed, held, region, act, fix):
    a0, f0 = held
    cat = scene.sourcecat
    cen = np.array(offsets(cat["ra"][seed], cat["dec"][seed], *scene_center(scene)))
    d = np.hypot(*(xy - cen).T)
    clear(d, opts["boundary_radius"])
    near = np.flatnonzero(d < opts["boundary_radius"])
    outer = d + opts["nscale"] * cat["rhalf"]
    inner = d - opts["nscale"] * cat["rhalf"]
    clear(outer[near], opts["maxradius"])
    distinct(outer[near])
    near = near[np.argsort(outer[near])]
    na = min(opts["maxactive_per_patch"], int((outer[near] < opts["maxradius"]).sum()))
    want = near[:na]
    rest = near[na:]
    radius = max(opts["minradius"], outer[want].max())
    clear(inner[rest], radius)
    wantf = rest[inner[rest] < radius][:opts["maxactive_per_patch"]]
    if len(wantf) == 0:
        wantf = rest[:1]
    ctx.count("plain")
    conflict = bool(a0[near].any() or (a0 + f0)[want].any() or a0[wantf].any())
    if act is None:
        ctx.check(conflict, "a check-out is refused although no source of the patch is in use", seed=seed)
        ctx.sig("plain", "refused", bool(a0[near].any()))
        return
    ctx.check(not conflict, "a patch in conflict with another one is checked out", seed=seed)
    ctx.equal(sorted(act["source_index"].tolist()), sorted(want.tolist()), "active sources are not the ones nearest to the seed")
    ctx.equal(sorted(fix["source_index"].tolist()), sorted(wantf.tolist()), "fixed sources are not the next ones overlapping the patch")
    check_region(ctx, region, cat["ra"][seed], cat["dec"][seed], radius)
    ctx.sig("plain", min(na, 6), min(len(wantf), 6), radius == opts["minradius"], na == opts["maxactive_per_patch"])


def case(ctx, i):
    rng = ctx.rng
    linked = bool(i % 2)
    scene, opts, roi, _ = random_scene(rng, linked)
    n = len(scene.sourcecat)
    ctx.desc = dict(linked=linked, n=n, opts={k: v for k, v in opts.items() if k != "roi"})
    c0 = scene_center(scene)
    xy = np.array(offsets(scene.original["ra"], scene.original["dec"], *c0)).T
    ctx.close(np.asarray(scene.scene_coordinates), xy, 1e-5, "scene coordinates")
    held = [np.zeros(n, int), np.zeros(n, int)]
    out = []
    for op in range(int(rng.integers(3, 16))):
        if out and rng.random() < 0.35:
            act, fix = out.pop(int(rng.integers(len(out))))
            scene.checkin_region(fitted(rng, act, opts["bands"], scene.shape_cols), fix, niter=int(rng.integers(0, 50)))
            held[0][act["source_index"]] -= 1
            if fix is not None:
                held[1][fix["source_index"]] -= 1
            continue
        seed = int(rng.integers(n))
        kw = {}
        if linked and rng.random() < 0.3:
            kw["max_fixed"] = int(rng.integers(0, 8))
        r = roi if roi is not None else np.array(scene.sourcecat["rhalf"])
        region, act, fix = scene.checkout_region(seed_index=seed, **kw)
        try:
            if linked:
                linked_truth(ctx, scene, opts, xy, r, seed, held, region, act, fix, kw.get("max_fixed"))
            else:
                plain_truth(ctx, scene, opts, xy, seed, held, region, act, fix)
        except Tie:
            ctx.count("ties")
        if act is not None:
            out.append((act, fix))
            held[0][act["source_index"]] += 1
            if fix is not None:
                held[1][fix["source_index"]] += 1
    if linked:
        r = roi if roi is not None else np.array(scene.sourcecat["rhalf"])
        try:
            adj = brute(scene, xy, r)
            gid = np.asarray(scene.make_group_catalog())
            ctx.check(gid.shape == (n,) and sorted(set(gid.tolist())) == list(range(len(set(gid.tolist())))), "group numbers are not consecutive from zero", gid=gid)
            for k in range(n):
                ctx.equal(sorted(np.flatnonzero(gid == gid[k]).tolist()), sorted(component(adj, k)), "sources with the same group number are not the linked ones")
            for k in rng.permutation(n)[:5]:
                g = [int(v) for v in scene.grow_source(int(k))]
                ctx.check(len(set(g)) == len(g) and set(g) == component(adj, int(k)), "linked sources of a source", source=int(k), got=g)
            ctx.count("group_catalogs")
            ctx.sig("groups", min(len(set(gid.tolist())), 20), min(int(np.bincount(gid.astype(int)).max()), 10))
            # sources overlapping a circle on the sky
            for _ in range(3):
                j = int(rng.integers(n))
                p = xy[j] + rng.normal(0, 3, 2) if rng.random() < 0.8 else xy[j] + 600.0
                ra, dec = c0[0] + p[0] / 3600 / np.cos(np.deg2rad(c0[1])), c0[1] + p[1] / 3600
                rad = float(10 ** rng.uniform(-1, 1))
                m = np.hypot(*(xy - np.array(offsets(ra, dec, *c0))).T) - rad - r
                clear(m, 0)
                got = scene.overlap_circle(ra, dec, rad)
                ctx.equal(sorted(got["source_index"].tolist()), np.flatnonzero(m < 0).tolist(), "sources overlapping a circle")
                ctx.count("circles")
        except Tie:
            ctx.count("ties")
    ctx.sample(linked=linked, n=n, outstanding=len(out))
