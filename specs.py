"""What each check runs: harness, parameters (bounds), options, tier ('q' both tiers, 't' thorough only)."""
SPECS = {}

# ------------------------------------------------------------------ C01 kd-tree
_kk = [(3, 3, 3), (4, 4, 4), (3, 4, 3), (4, 3, 4), (1, 3, 4), (4, 2, 3), (3, 4, 1), (1, 2, 3), (3, 1, 1), (2, 4, 2), (1, 1, 3), (2, 1, 4), (1, 3, 2)]


def _kd(l, m, n, j, h='kd_one', q=0, inf=1, tier='q', k2=None, depth=-1):
    p = {0: l, 1: n, 2: depth, 3: _kk[m][0], 4: _kk[m][1], 5: _kk[m][2], 6: inf, 7: j % n if n else 0, 8: q}
    if k2 is not None: p[9] = k2
    return dict(h=h, params=p, tier=tier)


SPECS['C01'] = dict(
    group='kd', wall=25, wall_t=240,
    bounds='trees over 0..20 shapes (for rays along an axis up to 1200, thorough: 3000) in thirteen layouts of boxes (rows along each axis, touching, grid, overlapping, clusters, flat, nested, coplanar, irregular); the surfaces inside '
           'the boxes are arbitrary as far as one ray sees them: one or two of them are hit, at any distance at which the ray is inside the box; rays of every '
           'direction octant, with zero components of either sign, limited or not, from anywhere within 20 per axis',
    assumptions=['the boxes themselves are concrete (their coordinates decide the shape of the tree); C05 shows that the boxes of real shapes enclose them'],
    jobs=[_kd(l, (l * 3 + m * 2) % 10, 9 if l == 6 else 12 if (l + m) % 2 else 17, l * 5 + m * 7, q=m % 2) for l in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12) if l != 7 for m in range(5)]
    + [_kd(7, m, 12, 5 + m, q=m % 2) for m in (4, 6, 7, 8)]
    + [_kd(l, m, 13, j, q=j % 2) for l, m in ((10, 10), (10, 11), (11, 12)) for j in range(13) if m != 11 or j < 6]
    + [_kd(l, m, 12, 6, h='kd_two', k2=7) for l, m in ((0, 0), (3, 1), (5, 2), (5, 3), (8, 4), (9, 0), (12, 2), (4, 5))]
    + [_kd(l, m, 12, 6, h='kd_two', k2=3) for l, m in ((1, 1), (8, 0), (8, 3), (5, 1), (2, 4))]
    + [_kd(0, 0, 0, 0, h='kd_none'), _kd(12, 2, 5, 4, h='kd_none'), _kd(0, 4, 17, 4, h='kd_none', depth=0), _kd(4, 5, 12, 4, h='kd_none')]
    + [_kd(12, m, n, n - 1, q=m % 2) for m, n in ((0, 1), (2, 2), (3, 8), (1, 9))]
    # large trees
    + [dict(h='kd_one', params={0: l, 1: n, 2: -1, 3: k[0], 4: k[1], 5: k[2], 6: 1, 7: j, 8: q}, opts=dict(max_steps=40000000), wall=90, tier=t) for l, n, k, j, q, t in
       ((1, 500, (1, 3, 1), 30, 0, 'q'), (1, 500, (1, 3, 1), 31, 1, 'q'), (3, 300, (3, 1, 1), 20, 0, 'q'), (5, 300, (1, 3, 1), 20, 0, 'q'), (6, 60, (3, 3, 1), 20, 1, 'q'),
        (0, 1200, (3, 1, 1), 30, 0, 'q'), (0, 1200, (3, 1, 1), 31, 1, 't'), (2, 3000, (1, 1, 3), 20, 0, 't'), (0, 300, (3, 3, 1), 15, 0, 't'))]
    + [_kd(l, m, 17, l * 3 + m, q=m % 2, depth=2) for l, m in ((0, 1), (3, 2), (9, 3))]
    + [_kd(l, m, n if l != 6 else 9, j, q=q, inf=i, tier='t') for l in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12) for m in range(10) for n, j, q, i in
       ((12, l + m, 0, 0), (17, l * 5 + m * 7, 1, 0), (17, l + 2 * m, 0, 1), (20, l * 7 + m, 0, 1))]
    + [_kd(l, m, 17 if l != 6 else 9, l, h='kd_two', k2=(l + 1 + m) % 9, inf=m % 2, tier='t') for l in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12) for m in range(7) if (1 + m) % 9]
    + [_kd(l, m, 12 if l != 6 else 9, l, h='kd_none', tier='t') for l in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12) for m in range(10)])

# ------------------------------------------------------------------ C02 slab test
_k = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (0, 2, 0), (0, 0, 1), (0, 0, 2), (1, 2, 0), (2, 0, 1), (0, 1, 2)]
SPECS['C02'] = dict(
    group='geom', wall=40,
    bounds='one box of any extent in [-8,8]^3 (flat boxes included), ray origin in [-16,16]^3, direction components in [-4,4] of either sign, +0 or -0, '
           'any t_max in [0,64] or infinite, every point of the box the ray reaches; no loop is cut',
    jobs=[dict(h='slab', params={0: a, 1: b, 2: c, 3: m}, tier='q' if m == 0 or (a, b, c) == (0, 0, 0) else 't') for (a, b, c) in _k for m in (0, 1)])

# ------------------------------------------------------------------ C03 sphere
FA = dict(fork_abs=True)
SPECS['C03'] = dict(
    group='shape', wall=60,
    bounds='one sphere, center in [-8,8]^3, radius in [1/8,8]; ray origin within 16 of the center per axis (inside or outside), direction components in [-4,4] '
           'with |d|>1/4, t_max in [1/8,64] or infinite; completeness: every surface point offset in [-4,4]^3',
    jobs=[dict(h='sphere_sound', params={0: m, 1: f}) for m in (0, 1) for f in (0, 1)]
    + [dict(h='sphere_complete', params={0: m, 1: p}, opts=FA) for m in (0, 1) for p in (0, 1)])

# ------------------------------------------------------------------ C04 triangle
_ax = [(a, s) for a in (0, 1, 2) for s in (0, 1)]
SPECS['C04'] = dict(
    group='shape', wall=60,
    bounds='one triangle, vertices within 8 of the ray origin per axis, origin in [-8,8]^3, direction with any dominant axis (ratio < 15/16) and sign, t_max in [1/8,64] or infinite',
    jobs=[dict(h='tri_sound', params={0: m, 1: a, 2: s}, tier='q' if m == s else 't') for a, s in _ax for m in (0, 1)]
    + [dict(h='tri_sound', params={0: 1, 1: 2, 2: 0, 3: 1, 4: r}, tier='t') for r in (0, 1)]
    + [dict(h='tri_complete', params={0: m, 1: a, 2: s, 3: p, 4: e}, tier='q' if (s + e + m) % 2 == 0 else 't')
       for a, s in _ax for p in (0, 1) for e in (0, 1) for m in (0, 1)])

# ------------------------------------------------------------------ C06 any-hit == nearest-hit
SPECS['C06'] = dict(
    group='shape', wall=60,
    bounds='as C03 and C04',
    jobs=[dict(h='sphere_any', params={0: m}) for m in (0, 1)]
    + [dict(h='tri_any', params={0: m, 1: a, 2: s}, tier='q' if m == s else 't') for a, s in _ax for m in (0, 1)])

# ------------------------------------------------------------------ C30 whole scenes
def _w(h, *ps, **kw): return [dict(h=h, params={k: v for k, v in enumerate(p) if v}, **kw) for p in ps]


_COLS = [(k, k + 4) for k in range(0, 32, 4)]
SPECS['C30'] = dict(
    group='world', wall=75, wall_t=600,
    bounds='five scenes: two glowing triangles; a matte floor (two triangles) under one or two suns, bare, chequered or with a ball above; a mirror floor below a glowing triangle; four triangles photographed; '
           'one camera; every position on the scan lines that the jobs name (thorough: everywhere on the film), one of several sequences of random numbers (thorough: any); radiance in [0,8], albedo in [0,1]; '
           'positions whose ray passes closer than 0.01..0.02 to an edge or a seam are left out',
    jobs=_w('lamp', (0, 0, 0, 0, 0, 1, 16), (2, 0, 0, 0, 0, 2, 18), (1, 0, 0, 0, 0, 1, 14), (3, 0, 0, 0, 0, 3, 17))
    + _w('sunlit', (0, 0, 0, 0, 0, 1, 16), (2, 0, 0, 0, 0, 2, 13), (3, 0, 0, 0, 0, 3, 21))
    + _w('sunlit', *[(1, 1, 0, 0, 0, 1, 18, a, b) for a, b in _COLS if a not in (16, 20)], *[(1, 1, 0, 0, 0, 1, 18, a, a + 1) for a in (16, 18, 20, 22)])
    + _w('sunlit', *[(0, 1, 0, 0, 0, 1, 15, a, b) for a, b in _COLS])
    + _w('suns', (0, 0, 0, 0, 0, 1, 18), (0, 0, 0, 0, 0, 3, 15))
    + _w('tiled', *[(k, 0, 0, 0, 0, 1 + k, 18 - 7 * k, a, b) for k in (0, 1) for a, b in _COLS])
    + _w('mirrored', *[(0, 0, 0, 0, 0, 1, r, a, b) for r, a, b in ((18, 14, 15), (18, 15, 16), (18, 16, 17), (16, 15, 16), (16, 16, 17), (13, 12, 13), (10, 15, 16), (15, 4, 6), (15, 24, 26))])
    + _w('photo', (1, 1, 2, 1), (1, 2, 1, 1), (3, 0, 1, 1), (0, 0, 2, 2), (2, 0, 1, 1), opts=dict(preempt=0))
    + _w('lamp', *[(k, 0, 0, 0, 0, 1) for k in (0, 1, 2, 3)], tier='t') + _w('sunlit', *[(k, 0, 0, 0, 0, 0) for k in (0, 1, 2, 3)], (1, 1, 0, 0, 0, 1), tier='t')
    + _w('suns', (0, 0, 0, 0, 0, 1), tier='t') + _w('mirrored', *[(0, 0, 0, 0, 0, 1, r) for r in (10, 13, 16)], tier='t')
    + _w('photo', (3, 2, 3, 1), (0, 2, 1, 1), (2, 1, 1, 1), opts=dict(preempt=0), tier='t'))

# ------------------------------------------------------------------ C31 texture coordinates
SPECS['C31'] = dict(
    group='shape', wall=60,
    bounds='spheres as in C03, hit along their radii at every place (rays from other directions reach the same code with the same place, see C03); '
           'triangles as in C04, hit at every place with b2 >= 1/16 of the largest weight',
    jobs=[dict(h='sphere_uv', params={0: k, 1: t}) for k in (0, 1, 2, 3) for t in (0, 1)]
    + [dict(h='tri_uv', params={0: a, 1: s, 2: e}, tier='q' if (a + s + e) % 2 == 0 else 't') for a, s in _ax for e in (0, 1)])

# ------------------------------------------------------------------ C10 tiles
SPECS['C10'] = dict(group='film', wall=60, bounds='images of 1..32 (thorough: 1..64) pixels per axis with filter radius 1/2..4, every sample position in and around them', jobs=[dict(h='tiles', params={0: 2}), dict(h='tiles', params={0: 4}, tier='t')])

# ------------------------------------------------------------------ C29 frames
SPECS['C29'] = dict(
    group='shape', wall=60,
    bounds='sphere as C03, every surface point of a radial ray and both poles; triangles with a hit anywhere inside (vertices within 8 per axis), with vertex normals in [-2,2]^3 '
           'also cancelling ones (for these two fixed triangles); frames of the BSDF: every unit normal and tangent perpendicular to it of length up to 3, every two directions of length up to 3',
    jobs=[dict(h='sphere_frame', params={0: k}) for k in (0, 1, 2)]
    + [dict(h='tri_frame', params={0: 0, 1: r, 2: e}) for r in (0, 1) for e in (0, 1)]
    + [dict(h='tri_frame', params={0: 1, 1: r, 2: e, 3: 1}) for r in (0, 1) for e in (0, 1)]
    + [dict(h='bsdf_frame', params={}, group='bxdf')])

# ------------------------------------------------------------------ C05 boxes
SPECS['C05'] = dict(
    group='shape', wall=40,
    bounds='spheres (center within 8, radius 1/8..8), triangles (vertices within 8), any two boxes within 16, 1..3 shapes; transforms: translations, scales, rotations, '
           'affine matrices with entries in [-2,2]',
    jobs=[dict(h='box_sphere', params={0: 0}), dict(h='box_sphere', params={0: 1}, tier='t'), dict(h='box_tri', params={0: 0}), dict(h='box_tri', params={0: 1}),
          dict(h='box_tri_hit', params={0: 0}), dict(h='box_tri_hit', params={0: 1}), dict(h='box_union')]
    + [dict(h='box_shapes', params={0: k}) for k in (1, 2, 3)]
    + [dict(h='bbox_xf', params={0: k}, group='xform') for k in (0, 1, 2, 3, 4, 7, 9)]
    + [dict(h='bbox_xf', params={0: k, 1: 1}, group='xform') for k in (0, 1, 2, 3, 4)]
    + [dict(h='bbox_xf', params={0: 5}, group='xform', tier='t')])

# ------------------------------------------------------------------ C08 transforms
SPECS['C08'] = dict(
    group='xform', wall=40,
    bounds='translations within 8 per axis, scales of 1/8..8 of either sign, rotations by -360..360 degrees, look-at frames (positions and axes within 8), '
           'perspective (fov 5..150 degrees, near 1/16..4, depth 1/2..64), affine and linear matrices with entries in [-2,2] and |det|>1/2; points within 8 per axis '
           '(in front of the eye for perspective); products of two',
    assumptions=['sin and cos are uninterpreted up to their range, sin^2+cos^2=1 and dependence on the argument'],
    jobs=[dict(h='inverse', params={0: k, 1: w}) for k in (0, 1, 2, 3, 4, 5, 7, 9) for w in (0, 1, 2)]
    + [dict(h='inverse', params={0: 6, 1: w}) for w in (0, 1)]
    + [dict(h='inverse', params={0: 7, 1: 0, 9: 1})]
    + [dict(h='inverse', params={0: 8, 1: 0}, tier='t', wall_t=120)]
    + [dict(h='compose', params={0: a, 1: b, 2: w}) for a, b in ((0, 1), (2, 3), (5, 0), (5, 4), (7, 7), (7, 5)) for w in (0, 1)]
    + [dict(h='compose', params={0: 6, 1: b, 2: 0}) for b in (5, 7)]
    + [dict(h='meaning', params={0: k}) for k in range(8)]
    + [dict(h='rays', params={0: k, 1: k % 2}) for k in (0, 1, 2, 3, 4, 5, 7)]
    + [dict(h='inter', params={0: k}) for k in (0, 1, 2, 5, 7)])

# ------------------------------------------------------------------ C09 camera
SPECS['C09'] = dict(
    group='xform', wall=45,
    bounds='fov 20..120 degrees, near 1/16..2, depth 1/2..64, screen window corner in [-2,2]^2 with extent 1/4..4, resolution 1..4096 per axis, film position in [-4,4100]^2; '
           'camera placed by a translation, a rotation about each axis (any angle) or a look-at frame',
    assumptions=['sin, cos and tan as in C08'],
    jobs=[dict(h='camera', params={0: k}) for k in (0, 2, 3, 4)] + [dict(h='camera', params={0: 5}, tier='t')])

# ------------------------------------------------------------------ C07 spawned rays
SPECS['C07'] = dict(
    group='geom', wall=15, wall_t=90,
    bounds='unit normals in every octant and along each axis, hit points with each coordinate in [1/16,8] of either sign or the origin, position error up to 1/32 per axis, '
           'directions in [-4,4]^3; shadow rays between two such points on either side of each plane; next-float steps exact to one unit in the last place',
    jobs=[dict(h='ulp', params={0: k}) for k in range(4)]
    + [dict(h='spawn', params={0: m, 1: o, 2: (o * 5 + m * 3) % 9}) for o in range(14) for m in (0, 1)]
    + [dict(h='spawn', params={0: 2, 1: o, 2: o}) for o in (0, 3, 6)]
    + [dict(h='spawn', params={0: m, 1: o, 2: p}, tier='t') for o in range(14) for m in (0, 1) for p in range(9) if p != (o * 5 + m * 3) % 9]
    + [dict(h='spawn_to', params={0: w, 1: a, 2: b, 3: o, 4: (o * 3 + w) % 8, 5: (o * 5 + 1) % 8, 6: (o * 7 + 2) % 8}, tier='q' if (o + w + a + b) % 2 == 0 else 't', vac=0)
       for o in range(8) for w in (0, 1) for a in (0, 1) for b in (0, 1)]
    + [dict(h='spawn_to', params={0: 0, 1: 0, 2: 0, 3: 9, 4: 0, 5: 11, 6: 3}), dict(h='spawn_to', params={0: 1, 1: 0, 2: 1, 3: 7, 4: 8, 5: 9, 6: 1})])

# ------------------------------------------------------------------ C12 image file
SPECS['C12'] = dict(
    group='ppm', wall=45, wall_t=240,
    bounds='every colour value from 0 to 1000 in each channel, filter weight sums in [1/16,4]; images up to 3x3, the one white pixel anywhere; an old output file of any length up to 100000; writers that take 1 to 16 bytes at a time and are interrupted once',
    assumptions=['pow is monotone, exact at nine points and otherwise uninterpreted (the same function in the code and in the oracle)',
                 'the file system is modelled by the POSIX meaning of open, write, lseek, ftruncate, unlink and close on one file'],
    jobs=[dict(h='ppm_value', params={0: c, 1: r}, tier='q' if c == r % 3 or r in (0, 3) else 't') for c in range(3) for r in range(4)]
    + [dict(h='ppm_value', params={0: r % 3, 1: r, 2: 1}, tier='q' if r in (0, 3) else 't') for r in range(4)]
    + [dict(h='ppm_order', params={0: w, 1: h}, tier='q' if w * h < 6 else 't') for w in (1, 2, 3) for h in (1, 2, 3)]
    + [dict(h='ppm_file', params={0: k}) for k in (0, 1)] + [dict(h='ppm_slow', params={})])

# ------------------------------------------------------------------ C11 film
SPECS['C11'] = dict(
    group='film', wall=40, wall_t=300,
    bounds='images up to 2x2 pixels (accumulation) and 20x1, 1x20, 20x18 (tiles); filter radii 1/2, 1, 3/2, 2 (for 20x18: quarters up to 7/4) with weights linear in the offset; every sample position in the sampled area (20x18: in chosen quarter pixels near tile borders), '
           'every colour in [0,4]^3; one or two samples, in one or two tiles, merged in either order',
    jobs=[dict(h='add', params={0: w, 1: h, 2: r, 3: k}) for w, h, r, k in ((1, 1, 1, 0), (2, 1, 1, 1), (1, 2, 1, 2), (2, 1, 3, 1), (1, 2, 3, 0), (1, 1, 2, 2), (2, 1, 2, 0), (1, 1, 4, 1))]
    + [dict(h='add', params={0: w, 1: h, 2: r, 3: k}, tier='t') for w, h, r in ((2, 2, 2), (2, 2, 3), (1, 2, 4), (2, 1, 4), (3, 1, 2), (3, 1, 3)) for k in (0, 1, 2)]
    + [dict(h='tiles_merge', params={0: r, 1: o, 2: v, 3: m}, tier='q' if (r + o + v) % 2 == 0 and (r < 3 or m) or r == 4 else 't')
       for r in (1, 2, 3, 4) for o in (0, 1) for v in (0, 1) for m in (0, 1)]
    + [dict(h='add_tile', params={0: w, 1: h, 2: r, 3: (t + q) % 3, 4: t, 5: x, 6: y, 7: q}, tier='q' if (r, t, x, q) in ((3, 0, -1, 0), (3, 1, 0, 15), (2, 1, 0, 5), (5, 3, 0, 3), (3, 2, 5, 12), (7, 0, 4, 15), (5, 0, -1, 6), (4, 2, -2, 9), (1, 3, -1, 10), (2, 2, 0, 1)) else 't')
       for w, h in ((20, 18),) for r in (1, 2, 3, 4, 5, 7) for t, x, y in ((0, -1, -1), (0, 4, -1), (0, -1, 7), (1, 0, 3), (1, -1, 2), (2, 5, 0), (2, -2, -1), (2, 0, 0), (3, 0, 0), (3, -1, -1)) for q in (0, 1, 3, 5, 6, 9, 10, 12, 15)])

# ------------------------------------------------------------------ C28 filter
SPECS['C28'] = dict(
    group='film', wall=40,
    bounds='filter radius 1/16..8, falloff 0..4, every two offsets in [-10,10]^2',
    assumptions=['exp is positive, monotone, above its tangent at 0 and otherwise uninterpreted'],
    jobs=[dict(h='gauss', params={0: k}) for k in range(6)])

# ------------------------------------------------------------------ C13 sampler values
_areas = [(1, 1), (2, 3), (4, 4), (10, 10), (20, 128), (128, 128), (300, 40), (64, 81), (65, 82), (129, 5)]
_rad = [(0, 1), (1, 3), (3, 5), (5, 8), (8, 14), (14, 24)] + [(k, k + 16) for k in range(24, 524, 16)]
SPECS['C13'] = dict(
    group='samp', wall=40, wall_t=300,
    bounds='radical inverses: every 32 bit index in each of the first 530 dimensions (64 bounces use 522; quick: a third of them); sampler: areas of ten extents, pixels within 300 of the origin, '
           'histories of one other pixel with up to 2 samples, clones; RandomSampler: one fixed seed, up to 6 samples',
    assumptions=['values of RandomSampler come from the rand crate: they are executed for one fixed seed only'],
    jobs=[dict(h='radical', params={0: a, 1: b}, tier='q' if a < 14 or a % 48 == 24 or a > 500 else 't') for a, b in _rad]
    # conversions of large integers round to 24 bits
    + [dict(h='radical', params={0: a, 1: b}, opts={'round_int': True}, tier='q' if a in (0, 1, 2, 3, 5, 8, 14, 300) else 't')
       for a, b in [(0, 1), (1, 2), (2, 3), (3, 5), (5, 8), (8, 11), (11, 14), (14, 20), (20, 24), (300, 310)] + [(k, k + 10) for k in range(24, 524, 10) if k != 300]]
    + [dict(h='radical_small', params={0: d, 1: b}) for d, b in ((0, 2), (1, 3), (2, 5), (3, 7), (4, 11), (20, 73), (99, 541), (250, 1597))]
    + [dict(h='radical_base', params={0: k, 1: k + 5}, tier='q') for k in range(0, 530, 5)]
    + [dict(h='halton_history', params={0: k, 1: j, 2: c, 4: z, 10: w, 11: h}, tier='q' if (k + z + w) % 2 == 0 else 't')
       for w, h in _areas for k, j, c in ((1, 0, 1), (2, 1, 0)) for z in (0, 1, 2)]
    + [dict(h='halton_history', params={0: 1, 1: j, 3: 1, 4: z, 10: w, 11: h}) for w, h in ((1, 1), (2, 3)) for z in (1, 2) for j in (0, 1)]
    + [dict(h='halton_history', params={0: 1, 1: j, 3: 1, 4: 0, 10: 1, 11: 1}) for j in (0, 1)]
    + [dict(h='halton_history', params={0: 1, 1: j, 3: 1, 4: z, 10: w, 11: h}, tier='t') for w, h in ((2, 3), (4, 4)) for z in (0, 1, 2) for j in (0, 1)]
    + [dict(h='halton_history', params={0: k, 1: j, 3: 1, 4: z, 5: e, 10: w, 11: h}) for w, h, k, j, z, e in
       ((1, 1, 0, 1, 0, 1), (1, 1, 0, 1, 1, 2), (1, 1, 1, 1, 0, 3), (1, 1, 0, 2, 1, 2), (2, 3, 0, 1, 1, 1), (2, 3, 1, 1, 1, 2), (2, 3, 0, 2, 1, 3))]
    + [dict(h='halton_dims', params={10: w, 11: h}, tier='q' if w < 3 else 't') for w, h in _areas]
    + [dict(h='random_count', params={0: 6, 1: 2})])

# ------------------------------------------------------------------ C14 sampler protocol
SPECS['C14'] = dict(
    group='samp', wall=40, wall_t=300,
    bounds='areas of ten extents, pixels within 400 of the origin; 1..4 samples per pixel (thorough: more); pairs of pixels of one period, sample numbers 0..2 each',
    jobs=[dict(h='halton_count', params={0: n, 10: w, 11: h}, tier=t) for n, w, h, t in
          ((4, 1, 1, 'q'), (4, 1, 3, 'q'), (3, 2, 3, 'q'), (2, 6, 6, 'q'), (2, 128, 128, 't'), (3, 20, 128, 't'), (6, 4, 4, 't'), (3, 300, 40, 't'))]
    + [dict(h='random_count', params={0: 6, 1: 2}), dict(h='random_count', params={0: 20, 1: 1}, tier='t')]
    + [dict(h='halton_index', params={0: a, 1: k, 10: w, 11: h}) for w, h in _areas for a in (0, 1) for k in (0, 2)]
    + [dict(h='halton_share', params={0: a, 1: b, 10: w, 11: h}, tier='q' if (w, h) != (128, 128) and a + b == w % 3 else 't') for w, h in _areas for a in (0, 1, 2) for b in (0, 1, 2) if w > 1])

_fm = {'fork_minmax': True, 'feas_ms': 500}
_sides = (0, 1)

# ------------------------------------------------------------------ C15 sampled scattering agrees with evaluation
_mt_ok = [(8, 0, 1, 1, 16, 24), (8, 0, 0, 1, 16, 24), (8, 1, 0, 1, 24, 16)]
SPECS['C15'] = dict(
    group='bxdf', wall=60, wall_t=300,
    bounds='lobes: equal roughness in sixteenths, microfacet normals of half-angle tangent 1/32..15/16 in every quarter of the azimuth, outgoing directions of half-angle tangent 1/32..15/16 around the normal '
           'at 16 azimuths; refraction: some of these, indices 1 and 3/2; BSDF: up to three scripted lobes of six kinds with free values and densities, free frames and geometric normals, free directions of length up to 3',
    assumptions=['different roughness in the two directions is covered for the density of normals (C16) and reciprocity (C17), not here'],
    jobs=[dict(h='bsdf_sample', params={0: 1, 1: k, 4: 0}) for k in range(6)]
    + [dict(h='bsdf_sample', params={0: 2, 1: a, 2: b, 4: c}) for a in range(6) for b in range(6) for c in (0, 1) if (a * 6 + b + c) % 3 == 0]
    + [dict(h='bsdf_sample', params={0: 2, 1: a, 2: b, 4: c}, tier='t') for a in range(6) for b in range(6) for c in (0, 1) if (a * 6 + b + c) % 3]
    + [dict(h='bsdf_sample', params={0: 3, 1: a, 2: b, 3: d, 4: c}, tier='q' if (a, b, d) in ((0, 4, 1), (0, 1, 2), (5, 0, 3)) else 't') for a in range(6) for b in range(6) for d in range(6) for c in (0, 1, 2) if (a + b + d) % 5 == 0 or (a, b, d) == (0, 1, 2) or (a, b, d) == (5, 0, 3)]
    + [dict(h='bsdf_eval', params={0: n, 1: a, 2: b, 3: c}) for n, a, b, c in ((1, 0, 0, 0), (1, 1, 0, 0), (2, 0, 1, 0), (2, 2, 4, 0), (3, 1, 2, 4), (3, 0, 5, 3))]
    + [dict(h='mr_sample', params={0: r, 1: r, 2: s, 3: q, 4: az}, opts=_fm, tier='q' if (az + q + s) % 4 == 0 and r in (8, 2) else 't')
       for r in (1, 2, 8, 16) for s in _sides for q in range(4) for az in range(16)]
    + [dict(h='mt_sample', params={0: r, 1: r, 2: s, 3: q, 4: az, 5: a, 6: b}, opts=_fm) for r, s, q, az, a, b in _mt_ok]
    + [dict(h='mt_sample', params={0: r, 1: r, 2: s, 3: q, 4: az, 5: a, 6: b}, opts=_fm, tier='t') for r in (4, 8) for s in _sides for q in range(4) for az in (1, 5, 9, 13) for a, b in ((16, 24), (24, 16))
       if (r, s, q, az, a, b) not in _mt_ok]
    + [dict(h='cos_density', params={0: s, 1: k, 2: 1}, opts={}) for s in _sides for k in range(8)])

# ------------------------------------------------------------------ C16 densities
# triangle, reversed, aimed point (quarters), octant, dominating axis, density of a direction / of a sample
_PDF_Q = ('''0,0,1,1,1,0,0 0,0,1,1,1,0,1 0,0,1,1,1,1,0 0,0,1,1,1,1,1 0,0,1,1,1,2,0 0,0,1,1,1,2,1 0,0,1,1,6,0,0 0,0,1,1,6,0,1 0,0,1,1,6,1,0 0,0,1,1,6,1,1
0,0,1,1,6,2,0 0,0,1,1,6,2,1 0,0,2,1,1,0,0 0,0,2,1,1,0,1 0,0,2,1,1,1,0 0,0,2,1,1,1,1 0,0,2,1,1,2,0 0,0,2,1,1,2,1 0,0,2,1,6,0,0 0,0,2,1,6,0,1
0,0,2,1,6,1,0 0,0,2,1,6,1,1 0,0,2,1,6,2,0 0,0,2,1,6,2,1 1,1,1,1,1,0,0 1,1,1,1,1,0,1 1,1,1,1,4,0,0 1,1,1,1,4,0,1 1,1,2,1,1,0,0 1,1,2,1,1,0,1
1,1,2,1,4,0,0 1,1,2,1,4,0,1 2,0,1,1,7,0,0 2,0,1,1,7,0,1 2,0,1,1,7,1,0 2,0,1,1,7,1,1 2,0,1,1,7,2,1 2,0,2,1,7,0,0 2,0,2,1,7,0,1 2,0,2,1,7,1,0
2,0,2,1,7,1,1 2,0,2,1,7,2,0 3,1,1,1,2,0,0 3,1,1,1,2,0,1 3,1,1,1,2,2,0 3,1,1,1,2,2,1 3,1,1,1,7,0,0 3,1,1,1,7,0,1 3,1,2,1,2,0,0 3,1,2,1,2,0,1
3,1,2,1,7,0,0 3,1,2,1,7,0,1 3,1,2,1,7,2,0 3,1,2,1,7,2,1 4,0,1,1,2,0,0 4,0,1,1,2,0,1 4,0,1,1,2,1,0 4,0,1,1,2,1,1 4,0,1,1,2,2,0 4,0,1,1,2,2,1
4,0,1,1,5,0,0 4,0,1,1,5,0,1 4,0,1,1,5,1,0 4,0,1,1,5,1,1 4,0,1,1,5,2,0 4,0,1,1,5,2,1 4,0,2,1,2,0,0 4,0,2,1,2,0,1 4,0,2,1,2,1,0 4,0,2,1,2,1,1
4,0,2,1,2,2,0 4,0,2,1,2,2,1 4,0,2,1,5,0,0 4,0,2,1,5,0,1 4,0,2,1,5,1,0 4,0,2,1,5,1,1 4,0,2,1,5,2,0 4,0,2,1,5,2,1 5,1,1,1,0,0,0 5,1,1,1,0,0,1
5,1,1,1,0,1,0 5,1,1,1,0,1,1 5,1,1,1,0,2,0 5,1,1,1,0,2,1 5,1,1,1,5,0,0 5,1,1,1,5,0,1 5,1,1,1,5,2,0 5,1,1,1,5,2,1 5,1,2,1,0,0,0 5,1,2,1,0,0,1
5,1,2,1,0,1,0 5,1,2,1,0,1,1 5,1,2,1,0,2,0 5,1,2,1,0,2,1 5,1,2,1,5,0,0 5,1,2,1,5,0,1 6,0,1,1,0,0,0 6,0,1,1,0,0,1 6,0,1,1,0,1,0 6,0,1,1,0,1,1
6,0,2,1,0,0,0 6,0,2,1,0,0,1 6,0,2,1,0,1,0 6,0,2,1,0,1,1 7,1,1,1,3,0,0 7,1,1,1,3,0,1 7,1,1,1,6,0,0 7,1,1,1,6,0,1 7,1,2,1,6,0,0 7,1,2,1,6,0,1
7,1,2,1,6,2,0 7,1,2,1,6,2,1 0,0,-1,2,1,0,0 0,0,-1,2,1,1,0 0,0,-1,2,1,2,0 0,0,3,3,1,0,0 0,0,3,3,1,1,0 0,0,3,3,1,2,0 1,0,-1,2,4,0,0 1,0,-1,2,4,1,0
1,0,-1,2,4,2,0 1,0,3,3,4,0,0 1,0,3,3,4,1,0 1,0,3,3,4,2,0 2,0,-1,2,7,0,0 2,0,-1,2,7,1,0 2,0,-1,2,7,2,0 2,0,3,3,7,0,0 2,0,3,3,7,1,0 2,0,3,3,7,2,0
3,0,-1,2,2,0,0 3,0,-1,2,2,1,0 3,0,-1,2,2,2,0 3,0,3,3,2,0,0 3,0,3,3,2,1,0 3,0,3,3,2,2,0''')
_PDF_T = ('''1,1,1,1,1,2,0 1,1,1,1,1,2,1 1,1,1,1,4,1,0 1,1,1,1,4,1,1 1,1,2,1,1,1,0 1,1,2,1,1,1,1 1,1,2,1,1,2,0 1,1,2,1,1,2,1 1,1,2,1,4,1,0 1,1,2,1,4,1,1
2,0,1,1,4,0,0 2,0,1,1,4,0,1 2,0,1,1,4,1,0 2,0,1,1,4,1,1 2,0,1,1,7,2,0 2,0,2,1,4,0,0 2,0,2,1,4,0,1 2,0,2,1,4,1,0 2,0,2,1,4,1,1 2,0,2,1,7,2,1
3,1,1,1,2,1,0 3,1,1,1,2,1,1 3,1,1,1,7,2,0 3,1,1,1,7,2,1 3,1,2,1,2,1,0 3,1,2,1,2,1,1 3,1,2,1,2,2,0 3,1,2,1,2,2,1 5,1,1,1,5,1,0 5,1,1,1,5,1,1
5,1,2,1,5,1,0 5,1,2,1,5,2,0 5,1,2,1,5,2,1 6,0,1,1,0,2,0 6,0,1,1,0,2,1 6,0,1,1,3,0,0 6,0,1,1,3,0,1 6,0,2,1,0,2,0 6,0,2,1,0,2,1 6,0,2,1,3,0,0
6,0,2,1,3,0,1 6,0,2,1,3,1,0 6,0,2,1,3,1,1 7,1,1,1,3,2,0 7,1,1,1,3,2,1 7,1,1,1,6,2,0 7,1,1,1,6,2,1 7,1,2,1,3,0,0 7,1,2,1,3,0,1 7,1,2,1,3,2,0
7,1,2,1,3,2,1''')
SPECS['C16'] = dict(
    group='bxdf', wall=60, wall_t=300,
    bounds='microfacet normals: roughness pairs in sixteenths, both random numbers free in [1/64, 63/64] away from the quarter borders; reflection and refraction maps: half-angle tangents up to 15/16, outgoing directions in quarter steps; '
           'cosine weighted directions: each of the eight sectors of the square; light points: four triangles (with and without vertex normals) and a sphere of any radius, seen from reference points at every distance and direction of the listed octants (sphere: on one axis, inside and outside)',
    assumptions=['partial derivatives of the sampling map are formed symbolically from the executed code'],
    jobs=[dict(h='wh_density', params={0: a, 1: b, 2: s, 3: q}, opts={'fork_minmax': True, 'feas_ms': 2000}, tier='q' if (a, b) in ((8, 8), (4, 8), (16, 2)) else 't')
          for a, b in ((8, 8), (4, 8), (16, 2), (1, 1), (16, 16), (2, 3), (12, 5), (1, 16)) for s in _sides for q in range(4)]
    + [dict(h='cos_density', params={0: s, 1: k, 2: l}) for s in _sides for k in range(8) for l in (0, 1)]
    + [dict(h='reflect_area', params={0: s, 2: k}, opts=_fm) for s in _sides for k in range(-3, 4)]
    + [dict(h='refract_area', params={0: s, 1: 0, 2: 0, 5: a, 6: b}) for s in _sides for a, b in ((16, 24), (24, 16), (16, 32), (16, 17))]
    + [dict(h='back_facet', params={0: r, 1: r, 2: s, 3: q, 4: az, 5: 16, 6: 24, 7: k}, opts=_fm, tier='q' if r == 8 else 't') for r in (8, 16) for s in _sides for q in (0, 1, 2, 3) for az in (0, 2, 4, 7) for k in (0, 1)]
    + [dict(h='mr_sample', params={0: r, 1: r, 2: s, 3: q, 4: az}, opts=_fm, tier='q' if (az + q + s) % 4 == 1 and r == 8 else 't')
       for r in (4, 8) for s in _sides for q in range(4) for az in range(16)]
    + [dict(h='mt_sample', params={0: r, 1: r, 2: s, 3: q, 4: az, 5: a, 6: b}, opts=_fm) for r, s, q, az, a, b in _mt_ok]
    + [dict(h='pdf_tri', params=dict(enumerate(map(int, k.split(',')))), group='light', tier=t) for t, l in (('q', _PDF_Q), ('t', _PDF_T)) for k in l.split()]
    + [dict(h='pdf_sphere', params={0: 0, 1: k}, group='light') for k in (0, 1)]
    + [dict(h='sphere_area', params={0: k}, group='light') for k in range(4)]
    + [dict(h='tri_area', params={0: k}, group='light') for k in range(4)]
    # different parts of the square of random numbers lead to different results
    + [dict(h='wh_apart', params={0: a, 1: b, 2: s, 3: q, 4: r}, opts=_fm) for a, b in ((8, 8), (4, 8), (16, 2)) for s in _sides for q in range(4) for r in range(q)]
    + [dict(h='cos_apart', params={0: q, 1: r, 2: a, 3: b}) for q in range(4) for r in range(q + 1) for a in (0, 1) for b in (0, 1) if q != r or a < b]
    + [dict(h='sphere_apart', params={0: q, 1: r}, group='light') for q in range(8) for r in range(q)])

# ------------------------------------------------------------------ C17 reciprocity
_rr = ((8, 8), (8, 4), (2, 16), (1, 1), (16, 16), (3, 5))
SPECS['C17'] = dict(
    group='bxdf', wall=60, wall_t=300,
    bounds='roughness pairs in sixteenths; every two directions of one side more than 1/128 above the horizon and off the normal by 1/32 (perpendicular and mirrored directions as cases of their own); any colour of at most 1; scripted Fresnel terms',
    jobs=[dict(h='mr_recip', params={0: a, 1: b, 2: s, 3: k}, opts=_fm) for a, b in _rr for s in _sides for k in (0, 1, 2)]
    + [dict(h='masking', params={0: a, 1: b, 2: s, 3: t}) for a, b in _rr for s in _sides for t in _sides]
    + [dict(h='masking_edge', params={0: a, 1: b, 2: k}) for a, b in _rr for k in range(6)]
    + [dict(h='lambert_recip', params={2: s, 3: s}) for s in _sides])

# ------------------------------------------------------------------ C32 facets
SPECS['C32'] = dict(
    group='bxdf', wall=60, wall_t=300,
    bounds='reflection: roughness pairs in sixteenths, every two directions of one side more than 1/128 above the horizon and off the normal by 1/32, scripted Fresnel term; refraction: roughness 1/2 (thorough: also 1/4 and 1), indices 1 and 3/2 entering and leaving, '
           'microfacet normals of half-angle tangent 1/32..15/16 in every quarter, outgoing directions of half-angle tangent 1/32..15/16 around the normal in one azimuth; visible fraction: as reflection, both sides; matt surfaces: all random numbers and colours',
    assumptions=['the Fresnel term of refraction is taken from the code (it is the subject of C18)'],
    jobs=[dict(h='mr_weight', params={0: a, 1: b, 2: s}, opts=_fm) for a, b in _rr for s in _sides]
    + [dict(h='visible', params={0: a, 1: b, 2: s, 3: t}) for a, b in _rr for s in _sides for t in _sides]
    + [dict(h='mt_weight', params={0: r, 1: r, 2: s, 3: q, 4: 1, 5: a, 6: b}, opts=dict(_fm, fork_abs=True, feas_ms=1000), tier='q' if r == 8 else 't') for r in (8, 4, 16) for s, a, b in ((0, 16, 24), (1, 24, 16)) for q in range(4)]
    + [dict(h='lambert_weight', params={0: a, 1: b, 2: s}) for a in (0, 1) for b in (0, 1) for s in _sides])

# ------------------------------------------------------------------ C18 Fresnel
_ix = ((16, 24), (24, 16), (16, 16), (16, 40), (21, 24))
SPECS['C18'] = dict(
    group='fres', wall=60, wall_t=300,
    bounds='dielectrics: both indices free in [1/4, 4], every cosine (also outside [-1, 1]); conductors: index and absorption free in [1/16, 8]; microfacets: roughness 1/2, all mirrored and perpendicular pairs of directions',
    jobs=[dict(h='diel_range', params={0: s, 5: a, 6: b}) for s in (0, 1, 2) for a, b in ((0, 0),) + _ix]
    + [dict(h='diel_path', params={0: 0}), dict(h='diel_normal', params={0: 0}), dict(h='cond_grazing', params={0: 0})]
    + [dict(h='diel_total', params={0: s}) for s in _sides]
    + [dict(h='cond_range', params={0: c, 1: s}) for c in range(3) for s in _sides]
    + [dict(h='cond_normal', params={0: c}) for c in range(3)]
    + [dict(h='micro_side', params={0: s, 1: k, 5: a, 6: b}, opts=_fm) for s in _sides for k in (0, 1) for a, b in ((0, 0),) + _ix])

# ------------------------------------------------------------------ C19 mirror and refraction
SPECS['C19'] = dict(
    group='fres', wall=60, wall_t=300,
    bounds='every unit normal (off the z axis by 1/32 for refraction) and direction, refractive index ratios in [1/4, 4], specular lobes with any colour of at most 1 and indices free in [1/4, 4]; angles within 1/1024 of the critical angle excluded',
    jobs=[dict(h='reflect_law', params={0: 0})] + [dict(h='refract_law', params={0: s}, opts=_fm) for s in _sides]
    + [dict(h='mirror_lobe', params={0: s}) for s in _sides]
    + [dict(h='glass_lobe', params={0: s, 5: a, 6: b}) for s in _sides for a, b in ((0, 0),) + _ix])

# ------------------------------------------------------------------ C24 textures
SPECS['C24'] = dict(
    group='mat', wall=60, wall_t=120,
    bounds='checkerboards: scripted mappings giving every coordinate within 1024 cells of the origin, on, just below and between cell boundaries, free values; huge, infinite and undefined coordinates (no crash, one of the two values); '
           'uv mapping: coordinates, scales and offsets free in [-64, 64]; solid mapping: every translation, scale and affine matrix with entries in [-2, 2] and determinant above 1/2; whole textures with scales of 1/2 to 4',
    assumptions=['beyond 2^62 cells from the origin only the absence of a crash is decided: there single-precision numbers cannot tell neighbouring cells apart'],
    jobs=[dict(h='constant', params={0: 0}), dict(h='uv_map', params={0: 0})] + [dict(h='id_map', params={0: k}) for k in range(3)]
    + [dict(h='checker2', params={0: a, 1: b}) for a in range(3) for b in range(3)]
    + [dict(h='checker3', params={0: a, 1: b, 2: c}) for a in range(3) for b in range(3) for c in range(3)]
    + [dict(h='checker_any', params={0: a, 1: b, 2: 0, 3: 2}) for a in range(7) for b in range(7)]
    + [dict(h='checker_any', params={0: a, 1: b, 2: c, 3: 3}, tier='q' if (a + b + c) % 3 == 0 else 't') for a in range(7) for b in range(7) for c in range(7) if a <= b <= c]
    + [dict(h='checker_uv', params={0: a, 1: b, 2: c, 3: d, 4: e, 5: f}) for a, b, c, d in ((4, 2, 1, -2), (1, -8, 3, 5), (2, 2, 0, 0), (-2, 4, -7, 1)) for e in range(3) for f in range(3)]
    + [dict(h='checker_at', params={0: a, 4: e}) for a in (4, -1, 2) for e in range(3)])

# ------------------------------------------------------------------ C25 materials
_dp = ((0, 1), (2, 11), (9, 5), (12, 8))
SPECS['C25'] = dict(
    group='mat', wall=60, wall_t=120,
    bounds='colours: every sign pattern of the three components (negative, zero, positive), positive ones free in [1/85, 6]; metal constants free in [3/16, 6]; refractive index free in [3/8, 3] (a few numbers for sampled rough glass); '
           'roughness: zero, free in (1e-6, 3/2] for values and densities, a few numbers for sampled directions; textures whose value depends on the hit; a few pairs of directions on the same and on opposite sides',
    assumptions=['the oracle is a BSDF put together from the lobes the parameters describe; what each lobe does is decided by C15 to C19'],
    jobs=[dict(h=h, params={0: k, 4: a, 5: b}) for h in ('lambert', 'mirror') for k in range(27) for a, b in (_dp if k in (26, 5, 0) else _dp[k % 4:k % 4 + 1])]
    + [dict(h='metal', params={0: k, 2: u, 3: v, 4: a, 5: b, 6: int(u < 0 or v < 0)}) for k, u, v in ((26, 0, 0), (26, 4, 8), (26, 8, 8), (26, 0, 8), (26, 4, 0), (26, -1, -1), (2, 0, 0), (6, 4, 4), (22, -1, 4), (18, 5, -1), (13, 0, 0), (0, 4, 8), (9, -1, -1), (4, 0, 0)) for a, b in _dp[:2] + _dp[3:]]
    + [dict(h='glass', params={0: k, 1: l, 2: u, 3: v, 4: a, 5: b, 6: int(u < 0 or v < 0), 7: 0 if u == 0 and v == 0 else e})
       for k, l, u, v, e in ((26, 26, 0, 0, 0), (2, 4, 0, 0, 0), (4, 18, 0, 0, 0), (13, 0, 0, 0, 0), (26, 26, 4, 8, 16), (26, 26, 8, 4, 8), (26, 26, 0, 8, 16), (26, 26, 4, 0, 24), (26, 26, -1, -1, 16), (8, 20, 8, 8, 8), (26, 3, -1, 4, 24), (12, 26, 5, -1, 16), (4, 26, 4, 4, 16), (0, 13, 4, 4, 16))
       for a, b in _dp[:2] + _dp[3:]]
    + [dict(h='plastic', params={0: k, 1: l, 2: u, 4: a, 5: b, 6: int(u < 0)})
       for k, l, u in ((26, 26, 0), (26, 26, 8), (26, 26, -1), (2, 18, 0), (13, 6, 4), (13, 6, -1), (7, 26, 0), (26, 4, 8), (26, 3, 0), (0, 13, 4), (0, 4, 0)) for a, b in _dp[:2] + _dp[3:]]
    + [dict(h='one_smooth', params={0: m, 2: u, 3: v, 4: a, 5: b}) for m in (0, 1) for u, v in ((0, 8), (8, 0)) for a, b in _dp])

# ------------------------------------------------------------------ C20 path tracing
def _li(n, a, b, e, l, grey=0, fixed=0, **k): return dict(h='li', params={0: n, 1: a, 2: b, 3: e, 4: l, 6: grey, 8: fixed}, **k)
SPECS['C20'] = dict(
    group='integ', wall=100, wall_t=400,
    bounds='paths of up to 6 scripted hits with every pattern of specular and glossy lobes and of emitting surfaces, free lobe values (also black), densities, emission, visibility and random numbers; no light, one to four delta lights, an emitting surface as light; '
           'the bounce limit: a path that never dies',
    assumptions=['hits, lobes and lights are scripted (the real ones are decided by C01 to C06, C15 to C19 and C22); all random numbers of one kind at one hit are the same free number; a survival draw exactly equal to the survival probability is left open'],
    jobs=[_li(0, 0, 0, 0, 0), _li(0, 0, 0, 0, 1)]
    + [_li(1, a, b, e, l) for a in range(2) for b in range(2) for e in range(3) for l in range(3)]
    + [_li(2, a, b, e, l, tier='q' if (a * 5 + b + e + l) % 3 == 0 or l < 2 and e == 0 else 't') for a in range(4) for b in range(4) for e in range(3) for l in range(3)]
    + [_li(3, a, b, 0, l, 1, 1, tier='q' if (a + b + l) % 4 == 0 else 't') for a in range(8) for b in range(8) for l in range(3)]
    + [_li(3, a, b, 0, l, 1, 0, tier='t') for a in range(8) for b in range(8) for l in range(3)]
    + [_li(4, a, b, 0, l, 1, 1, tier='q' if (a, b, l) in ((5, 10, 2), (15, 15, 2), (10, 5, 1), (7, 8, 2)) else 't') for a in range(16) for b in (0, 5, 10, 15, 8) for l in range(3)]
    + [_li(n, a, b, 0, l, g, 1, tier='q' if n == 5 else 't') for n in (5, 6) for g in (0, 1) for a, b in ((31, 31), (0, 0), (63, 48), (21, 42)) for l in (0, 1)]
    + [_li(n, a, b, 0, l, g, 0, tier='t') for n in (5, 6) for g in (0, 1) for a, b in ((31, 31), (0, 0), (63, 48), (21, 42)) for l in (0, 1)]
    + [dict(h='li', params={0: 70, 6: 2, 7: 1})]
    + [dict(h='lights', params={0: 1, 4: k}) for k in (1, 2, 3, 4)])

# ------------------------------------------------------------------ C21 direct lighting
SPECS['C21'] = dict(
    group='integ', wall=60, wall_t=300,
    bounds='every density, value, radiance (also zero), visibility and random number; delta and other lights; up to three lobes of three kinds; the sampled direction meets nothing, the light or another emitter of the same kind; sample counts up to 8 in the power heuristic',
    assumptions=['light and lobes are scripted; what the BSDF makes of several lobes is decided by C15'],
    jobs=[dict(h='estimate', params={0: d, 1: m, 2: 1, 3: a}) for d in (0, 1) for m in range(3) for a in range(3)]
    + [dict(h='estimate', params={0: d, 1: m, 2: 0}) for d in (0, 1) for m in (0, 1)]
    + [dict(h='estimate', params={0: d, 1: m, 2: 2, 3: a, 4: b}, tier='q' if m == 1 or (a, b) == (0, 1) else 't') for d in (0, 1) for m in range(3) for a in range(3) for b in range(3)]
    + [dict(h='weights', params={0: m, 1: n}) for m, n in ((1, 1), (1, 2), (2, 3), (8, 1))])

# ------------------------------------------------------------------ C22 lights
SPECS['C22'] = dict(
    group='light', wall=60, wall_t=300,
    bounds='directional lights: every direction, radiance, reference point and scene bounds; shadow ray reach for four boxes, every direction of length one and every two points of the box; area lights: four triangles, each with and without vertex normals '
           '(that agree with the face or oppose it) and reversed or not, three sampled or hit points each, every reference point within 8 of it in the listed octant and every radiance; spheres of every centre and radius and every two random numbers',
    jobs=[dict(h='distant', params={0: 0}), dict(h='side_rule', params={})]
    + [dict(h='distant_reach', params={0: k}) for k in range(4)]
    + [dict(h=h, params={0: t, 1: r, 2: a, 3: b, 4: (t * 3 + a + r * 5 + o) % 8}, tier='t' if o or (h == 'area_tri' and (t + a + r) % 3) else 'q')
       for h in ('area_tri', 'hit_side') for t in range(8) for r in (0, 1) for a, b in ((4, 2), (1, 7), (7, 3)) for o in (0, 3)]
    + [dict(h='tri_point', params={0: k}) for k in range(4)]
    + [dict(h='sphere_point', params={0: k}) for k in range(4)])

# ------------------------------------------------------------------ C23 scenes
import itertools as _it
def _scr(d): return sum(x * 4 ** i for i, x in enumerate(d))
_mix = [d for n in range(5) for d in _it.product((1, 2, 3), repeat=n)]
_big = ((1,) * 8 + (3,), (3,) * 9, (1, 3) * 5, (1, 2) * 7 + (3, 3))
SPECS['C23'] = dict(
    group='scene', wall=60, wall_t=300,
    bounds='every sequence of up to 3 (thorough: 4) added shapes, lights and emitters, none included, and longer ones of 9 to 16; every box; hits: every distance of one or two of the things hit and every end of the ray, both containers; '
           'directional lights: three layouts of two boxes, every direction and every two points of them; meshes: two triangles of four vertices, every shading normal',
    assumptions=['shapes are scripted: a box, and where the ray hits it'],
    jobs=[dict(h='kept', params={0: _scr(d)}, tier='q' if len(d) < 4 else 't') for d in _mix + list(_big)]
    + [dict(h=h, params={0: _scr(d), 1: a, 2: b}, tier='q' if len(d) < 3 or (len(d) == 3 and a < b) else 't') for h in ('hit_simple', 'hit_kd') for d in _mix
       for a in (range(len(d)) if d else (-1,)) for b in ([x for x in range(-1, len(d)) if x != a] if d else (-1,)) if b >= 0 or len(d) < 2]
    + [dict(h=h, params={0: _scr(d), 1: a, 2: b}) for h in ('hit_simple', 'hit_kd') for d in _big for a, b in ((0, 8), (8, 0), (3, 5))]
    + [dict(h='far_light', params={0: l, 1: k, 2: a}) for l in range(3) for k in (5, 7, 13, 15) for a in (0, 1)]
    + [dict(h='mesh_normals', params={0: k, 1: j, 2: a, 3: b}) for k in (0, 1, 2) for j in (0, 1) for a, b in ((36, 27), (6, 57), (45, 18))])

# ------------------------------------------------------------------ C27 invalid radiance
def _tile(spp, w, h, free, *kinds, **k): return dict(h='tile', params=dict([(0, spp), (1, w), (2, h), (3, free)] + [(10 + i, x) for i, x in enumerate(kinds)]), **k)
SPECS['C27'] = dict(
    group='integ', wall=60, wall_t=300,
    bounds='tiles of up to 2 by 2 pixels with up to 3 samples each, the position of one of them free; every component of a radiance value valid (free in [0, 8]), negative (free), zero, infinite of either sign or undefined, at every component; '
           'the reference is the film itself fed with the valid samples only',
    jobs=[_tile(1, 1, 1, 0, k) for k in (0, 5 * 43)]
    + [_tile(2, 1, 1, f, x * 6 ** j + (0 if y == 0 else 5 * (43 - 6 ** j)), 0) for x in (1, 2, 3, 4) for j in range(3) for y in (0, 1) for f in (1,)]
    + [_tile(3, 1, 1, -1, a, b, c) for a, b, c in ((0, 1, 0), (3, 0, 12), (0, 0, 0), (72, 108, 144), (4, 18, 0), (215, 0, 3))]
    + [_tile(2, 2, 1, 2, 3, 0, 12, 0), _tile(1, 2, 2, 3, 0, 18, 0, 0), _tile(2, 2, 2, 5, 0, 1, 4, 3, 0, 0, 72, 6)]
    + [_tile(2, 2, 2, f, *([0] * 8), tier='t') for f in range(8)])

def _px(x, y=0): return x + 8 + 64 * (y + 8) + 1


def _sch(h, threads, w, hh, r, preempt, px=(), halton=0, **kw):
    p = {0: threads, 1: w, 2: hh, 3: r}
    if halton: p.update({4: 1, 5: halton})
    for k, (x, y) in enumerate(px): p[10 + k] = _px(x, y)
    return dict(h=h, params=p, opts=dict(preempt=preempt, max_paths=1000000), stress=4, **kw)


SPECS['C26'] = dict(
    group='sched', wall=100, wall_t=700,
    bounds='Integrator::render with the real std threads, mutexes, reference counts and film: 1 to 4 threads, films of 1 to 3 tiles (radius of the filter 1/2 and 1, so that tiles share pixels), every schedule with at most 2 preemptions for 2 threads '
           '(thorough: 3) and 1 for 3 threads (thorough: 2, and 4 threads with 1); switches where a thread blocks, ends, or wakes another are free and not counted; radiance of the pixels shared by tiles free; '
           'one-sample sampler and the Halton sampler with 1 and 2 samples per pixel',
    assumptions=['schedule points are atomic operations and accesses to mutable statics of the crate; memory is sequentially consistent; reference counts that are only compared with constants are no schedule points',
                 'pthread_create always succeeds, futex wakeups are never spurious', 'camera, container and radiance are stand-ins; the sampler is copied to each thread by the real code'],
    jobs=[_sch('render', 1, 1, 1, 2, 2, [(0, 0)]),
          _sch('render', 1, 17, 17, 1, 2, [(15, 15), (16, 15), (16, 16)], tier='t'),
          _sch('render', 2, 1, 1, 2, 2, [(0, 0)]),
          _sch('render', 2, 17, 1, 1, 2, [(0, 0), (15, 0), (16, 0)]),
          _sch('render', 2, 17, 1, 2, 2, [(0, 0), (15, 0), (16, 0)]),
          _sch('render', 2, 1, 17, 2, 2, [(0, 0), (0, 15), (0, 16)]),
          _sch('render', 2, 33, 1, 1, 1, [(15, 0), (16, 0), (32, 0)]),
          _sch('render', 3, 1, 1, 2, 1, [(0, 0)]),
          _sch('render', 3, 17, 1, 2, 1, [(15, 0), (16, 0)]),
          _sch('render', 3, 33, 1, 1, 1, [(15, 0), (16, 0), (32, 0)]),
          _sch('halton', 1, 17, 1, 1, 2, (), 2),
          _sch('halton', 2, 17, 1, 1, 2, (), 1),
          _sch('halton', 2, 17, 1, 1, 1, (), 2),
          _sch('render', 2, 17, 1, 1, 3, [(0, 0), (15, 0), (16, 0)], tier='t'),
          _sch('render', 2, 33, 1, 1, 2, [(15, 0), (16, 0), (32, 0)], tier='t'),
          _sch('render', 3, 17, 1, 1, 2, [(15, 0), (16, 0)], tier='t'),
          _sch('render', 4, 17, 1, 1, 1, [(15, 0), (16, 0)], tier='t'),
          _sch('halton', 3, 17, 1, 1, 1, (), 2, tier='t'),
          _sch('halton', 2, 17, 1, 1, 2, (), 3, tier='t')])

HOOK_COMMITS = ['bbdfbe197f4bfb85a2f74162b9677ee5b225722d', 'c7d54340195e8d9f1b75c6dd23b9d37cc312e587']
NOT_APPLICABLE = {}
