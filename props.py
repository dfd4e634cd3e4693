"""The checks: which harnesses decide which property, over which case splits."""
PENT = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117]
ALL = list(range(122))
HEX = [b for b in ALL if b not in PENT]
COMMON_ASSUMPTIONS = [
    'the engine in /verif/engine gives the LLVM IR its meaning (checked on every run by comparing concrete runs with native ones and by proving a sample of its rewriting steps with the solver)',
    'rustc -C opt-level=2 with overflow checks translates the source faithfully to LLVM IR; z3-new and cvc5 answer correctly',
    'memory allocation does not fail',
]
PROPS = {}
# harnesses of private parts, and the cfg they are compiled under
NEEDS = {'h_iterstep': 'hk_iter', 'h_iterreal': 'hk_iter', **{h: 'hk_coord' for h in (
    'h_ijknorm', 'h_ijkrot', 'h_ijkdown', 'h_ijkup', 'h_ijknb', 'h_ijkops', 'h_ijkunit', 'h_hex2d', 'h_hexcentre', 'h_hexgrid', 'h_over', 'h_overs', 'h_glue')}}
# geometry of cells with few free digits: carried out on decision diagrams over them, every step then put to the solver
DIAGRAMS = {'h_round', 'h_roundw', 'h_adj', 'h_centre', 'h_toward', 'h_anycentre', 'h_over'}
# inductive steps over private state: an extra that may be given up when the state takes another form
OPTIONAL = {'h_iterstep'}
# how a counterexample of an inductive step is confirmed: the harness to replay, or None when it says nothing observable
CONFIRM = {'h_iterstep': lambda ps, v: 'h_iterreal' if ps[2] <= 8 else 'h_iterstep' if str(v['id']) in ('1', '2', '5', '6', '11', '12') else None}


def prop(pid, **k):
    def deco(f):
        k['jobs'] = f
        PROPS[pid] = k
        return f
    return deco


def sweep(h, ress, bcs, *extra, b=60):
    """one case per resolution, base cell and further parameters"""
    out = [(h, (r, c), b) for r in ress for c in bcs]
    for e in extra:
        out = [(x[0], x[1] + (v,), b) for x in out for v in e]
    return out


def some(rng, k, pents=12):
    return sorted(rng.sample(HEX, k) + rng.sample(PENT, pents))


FULL = 'every resolution 0-15, all 122 base cells, all digits'


@prop('C01', bounds={'quick': 'all 2^64 index values', 'thorough': 'all 2^64 index values'})
def c01(tier, rng):
    return [('h_valid', (), 60)]


@prop('C02', bounds={'quick': 'all 2^64 index values, every field and every field value; construction for every resolution, base cell number 0-127 and digit',
                     'thorough': 'the same'})
def c02(tier, rng):
    out = [(h, (), 60) for h in ('h_get', 'h_set', 'h_build', 'h_lead')]
    return out + [('h_zero', (s, e), 60) for s in range(1, 16) for e in range(s, 16)]


@prop('C03', bounds={'quick': 'every valid cell and every child resolution as a 32-bit integer', 'thorough': 'the same'})
def c03(tier, rng):
    return [('h_size', (c,), 60) for c in range(16)] + [('h_badres', (r, x), 60) for r in range(16) for x in (0, 1)]


def child_jobs(h, tier, rng, depth):
    out = []
    for res in range(16):
        for n in range(0, depth + 1):
            if res + n > 15:
                continue
            if tier == 'quick' and n == 3 and res not in (0, 1, 7, 12):
                continue
            bcs = ALL if tier == 'thorough' and n < 3 or n == 0 and res == 0 else some(rng, 3, 12 if n < 3 and res < 3 else 2)
            for bc in bcs:
                for pent in ([1] if res == 0 else [0, 1]):
                    out.append((h, (res, bc, n, pent), 120))
    return out


@prop('C04', bounds={'quick': 'one step from any point of any enumeration, and its beginning, for every parent resolution and every number of levels; whole enumerations for parents of every resolution with all their digits symbolic, children up to three levels down, sampled base cells and always pentagons among them',
                     'thorough': 'the same with all 122 base cells for up to two levels'},
      outside='of the whole enumeration: children more than three levels below their parent; those are covered step by step')
def c04(tier, rng):
    steps = []
    for res in range(16):
        for n in range(1, 16 - res):
            for bc in (ALL if tier == 'thorough' else some(rng, 1, 1)):
                for pent in ([1] if res == 0 else [0, 1]):
                    steps.append(('h_iterstep', (res, bc, n, pent), 60))
    return steps + child_jobs('h_children', tier, rng, 3) + [x for x in child_jobs('h_childvec', tier, rng, 3) if x[1][2] < 3 or x[1][0] in (0, 12)]


@prop('C05', bounds={'quick': 'every child of every parent at all distances in resolution up to 15, for the 12 pentagonal and some other base cells; every out-of-range position and every refused resolution',
                     'thorough': 'all base cells'})
def c05(tier, rng):
    out = []
    for res in range(16):
        for cr in range(res, 16):
            n = cr - res
            bcs = ALL if tier == 'thorough' else some(rng, 1, 2)
            for bc in bcs:
                for j in range(n + 1):
                    for z in ([1] if res == 0 else [0, 1]):
                        out.append(('h_childpos', (res, bc, n, j, z), 60))
    return out + [('h_badpos', (r, c), 60) for r in range(16) for c in range(16)] + [('h_badres', (r, x), 60) for r in range(16) for x in (0, 1)]


def nb_jobs(h, tier, rng, low, mid, hi, extra=(), b=60):
    """all base cells at low resolutions, pentagons and some others above"""
    if tier == 'thorough':
        return sweep(h, range(16), ALL, *extra, b=600)
    return sweep(h, low, ALL, *extra, b=b) + sweep(h, mid, some(rng, 6), *extra, b=b) + sweep(h, hi, some(rng, 3, 3), *extra, b=b)


NBB = {'quick': 'all digits symbolic: all 122 base cells at the lower resolutions, the 12 pentagonal and sampled other base cells above, up to resolution 15', 'thorough': FULL}


@prop('C06', bounds=NBB)
def c06(tier, rng):
    return nb_jobs('h_nb', tier, rng, range(0, 4), range(4, 10), range(10, 16), ([0],))


@prop('C07', bounds=NBB)
def c07(tier, rng):
    out = nb_jobs('h_distinct', tier, rng, range(0, 4), range(4, 10), range(10, 16))
    if tier == 'thorough':
        return out + sweep('h_sym', range(16), ALL, range(1, 7), b=900)
    return out + sweep('h_sym', range(0, 4), ALL, [0]) + sweep('h_sym', range(4, 8), some(rng, 4), [0], b=100) + sweep('h_sym', [9, 15], some(rng, 2, 0), [0], b=120)


@prop('C08', bounds=NBB)
def c08(tier, rng):
    return nb_jobs('h_walk', tier, rng, range(0, 4), range(4, 8), range(8, 16), ([0],)) + nb_jobs('h_tri', tier, rng, range(0, 4), range(4, 8), range(8, 16), ([0],), b=100)


@prop('C09', bounds=NBB)
def c09(tier, rng):
    return [('h_validedge', (), 60)] + nb_jobs('h_edge', tier, rng, range(0, 4), range(4, 8), range(8, 16), ([0],)) + nb_jobs('h_noedge', tier, rng, range(0, 3), range(3, 7), [8, 11, 15])


DKB = {'quick': 'all digits symbolic: all base cells for radius 1 at resolutions 0-3, pentagonal and sampled others for radii 1-3 at resolutions up to 5 and radius 1 up to 15',
       'thorough': 'all base cells: radius 1 at every resolution, radii 2 and 3 up to resolution 6, radius 4 up to resolution 2'}


def disk_jobs(h, tier, rng):
    if tier == 'thorough':
        return sweep(h, range(16), ALL, [1], b=600) + sweep(h, range(7), ALL, [2, 3], b=600) + sweep(h, range(3), ALL, [4], b=600)
    return (sweep(h, range(4), ALL, [1]) + sweep(h, range(4, 9), some(rng, 3, 2), [1]) + sweep(h, [10, 15], some(rng, 2, 0), [1])
            + sweep(h, range(2), some(rng, 8), [2]) + sweep(h, [2, 3, 4, 5], some(rng, 4, 2), [2]) + sweep(h, [0, 1, 2, 3], some(rng, 4, 2), [3]))


@prop('C10', bounds={'quick': DKB['quick'] + '; every cell within two steps of any pentagon at resolutions 0-15', 'thorough': DKB['thorough'] + '; every cell within two steps of any pentagon at resolutions 0-15, within three at resolution 15'},
      outside='radii and resolutions above these, so pieces of the search over larger disks')
def c10(tier, rng):
    out = sweep('h_near', range(16), PENT, [1, 2])
    if tier == 'thorough':
        out += sweep('h_near', [0, 8, 15], PENT, [3], b=600)
    return out + disk_jobs('h_disk', tier, rng)


@prop('C11', bounds=DKB, outside='radii and resolutions above these')
def c11(tier, rng):
    return disk_jobs('h_ring', tier, rng)


@prop('C12', bounds={'quick': 'all 2^32 radii', 'thorough': 'all 2^32 radii'})
def c12(tier, rng):
    return [('h_disksize', (0,), 60), ('h_disksize', (1,), 60)]


def special(job, r):
    inf, nan, one = 0x7ff << 52, 0x7ff8 << 48, 0x3ff << 52
    neg = 1 << 63
    return [f'1={x},2={y},3={r.randint(0, 15)}' for x, y in ((inf, one), (inf | neg, one), (nan, one), (one, inf), (one, inf | neg), (one, nan))] + \
        [f'1={one},2={one},3={x}' for x in (16, 17, 1 << 31, (1 << 32) - 1)]


@prop('C14', narrow=special, bounds={'quick': 'all pairs of doubles and all 32-bit resolutions that must be refused', 'thorough': 'the same'})
def c14(tier, rng):
    return [('h_llerr', (), 120)]


@prop('C17', bounds={'quick': 'all resolution 0 cells', 'thorough': 'the same'})
def c17(tier, rng):
    return [('h_res0', (), 60)]


@prop('C18', bounds={'quick': 'all 2^64 index values; rotation about a pentagon for every cell of the 12 pentagonal base cells at every resolution', 'thorough': 'the same'})
def c18(tier, rng):
    return [('h_rot', (), 60)] + sweep('h_rotpent', range(1, 16), PENT)


@prop('C13', bounds={'quick': 'coordinates up to 2^23 in size or more, every sextant and digit; points of the plane up to 2^23 in either direction', 'thorough': 'the same'},
      outside='points of the plane within about 10^-6 of the border of their hexagon may fall to either side', assumptions=['double arithmetic is read as real arithmetic with rounding bounds where the solver answers on reals'])
def c13(tier, rng):
    out = [(h, (), 100) for h in ('h_ijknorm', 'h_ijkunit', 'h_ijkops')]
    out += [(h, (s, d), 300) for s in range(6) for d in (0, 1) for h in ('h_ijkup', 'h_ijkdown', 'h_ijkrot')]
    out += [('h_ijknb', (s, d), 100) for s in range(6) for d in range(7)] + [('h_hexgrid', (s,), 100) for s in range(6)]
    return out + [('h_hex2d', (q, 23), 300) for q in range(4)]


def window(rng, res, free, bc):
    """the coarse digits of a window: random, the same all along, or mostly zero"""
    k = res - free
    m = rng.randrange(3)
    ds = [rng.choice([0, 2, 3, 4, 5, 6]) for _ in range(k)] if m == 0 else [rng.choice([0, rng.randint(2, 6)])] * k if m == 1 else [0] * k
    if m == 2 and k and rng.random() < .7:
        ds[rng.randrange(k)] = rng.randint(2, 6)
    return res, bc, sum(d << (45 - 3 * (i + 1)) for i, d in enumerate(ds)), free


def windows(h, rng, ress, free, k, pents, *extra, b=100):
    out = [(h, window(rng, r, free, c), b) for r in ress for c in rng.sample(ALL, k) + rng.sample(PENT, pents)]
    for e in extra:
        out = [(x[0], x[1] + (rng.choice(e),), b) for x in out]
    return out


def middles(h, rng, ress, free, bcs, *extra, b=100):
    """windows about the centres of base cells"""
    out = [(h, (r, c, 0, free), b) for r in ress for c in bcs]
    for e in extra:
        out = [(x[0], x[1] + (rng.choice(e),), b) for x in out]
    return out


# base cells in the middle of a face
MID = [2, 7, 16, 25, 26, 31, 36, 46, 50, 57, 64, 71, 75, 85, 90, 95, 96, 105, 114, 119]


def full(h, ress, bcs, *extra, b=100):
    """all digits free"""
    out = [(h, (r, c, 0, r), b) for r in ress for c in bcs]
    for e in extra:
        out = [(x[0], x[1] + (v,), b) for x in out for v in e]
    return out


WB = {'quick': 'all digits symbolic for all 122 base cells up to resolution 2; at resolutions 3 to 15 the two or three finest digits symbolic under sampled base cells, always pentagons among them, and sampled coarser digits',
      'thorough': 'all digits symbolic for all 122 base cells up to resolution 4; at resolutions 5 to 15 the four finest digits symbolic under sampled base cells and coarser digits'}
WO = 'at resolutions above those, coarser digits other than the sampled ones'
LIBM = ['functions of the system\'s mathematical library are evaluated for each combination of the symbolic digits (leaf of the decision diagram), not encoded']


@prop('C15', bounds={'quick': 'index to face coordinates and back: all digits symbolic for all 122 base cells up to resolution 3; ' + WB['quick'].split('; ')[1] + '; crossing every side of every face at resolutions 0 and 2, and along the axes at every resolution',
                     'thorough': 'the same up to resolution 4 and with four digits; ' + 'crossing every side of every face at resolutions 0, 2 and 4, and along the axes at every resolution'}, outside=WO)
def c15(tier, rng):
    over = [('h_over', (f, s, r, z, t, 0), 60) for f in range(20) for s in range(6) for r in (0, 2) for z in (0, 1) for t in (0, 1) if tier == 'thorough' or r == 0 or z + t < 2]
    out = [('h_glue', (f, q), 60) for f in range(20) for q in range(3)] + over
    out += [('h_overs', (f, s, r, z, t, 1), 60) for f in range(20) for s in range(6) for r in range(4, 17, 2) for z in (0, 1) for t in ((0, 1) if tier == 'thorough' or f == 7 else (0,))]
    if tier == 'thorough':
        out += [('h_overs', (f, s, 4, 0, 0, 0), 600) for f in range(20) for s in range(6)]
        return out + sweep('h_round', range(5), ALL, b=200) + full('h_adj', range(5), ALL, range(1, 7), b=200) + windows('h_roundw', rng, range(5, 16), 4, 60, 12, b=200) + windows('h_adj', rng, range(5, 16), 4, 60, 12, range(1, 7), b=200)
    return (out + sweep('h_round', range(3), ALL) + sweep('h_round', [3], some(rng, 18)) + windows('h_roundw', rng, range(4, 16), 3, 3, 2) + windows('h_roundw', rng, range(4, 16), 2, 8, 2) + middles('h_roundw', rng, [rng.randint(3, 13), 14, 15], 2, some(rng, 10))
            + full('h_adj', [0, 1], some(rng, 18), range(1, 7)) + full('h_adj', [2], some(rng, 2), range(1, 7)) + windows('h_adj', rng, range(3, 16), 3, 5, 3, range(1, 7)))


@prop('C16', bounds={'quick': 'every double: angles up to a turn below and two above, longitudes up to 8 turns off, latitudes up to 3 half turns off, coordinates up to 10 radians apart, degrees up to 360 and 720',
                     'thorough': 'the same, longitudes up to 32 turns off, latitudes up to 8 half turns'},
      outside='angles further off; angles within 10^-9 of the border of a turn beyond the first, where rounding decides', assumptions=['double arithmetic is read as real arithmetic with rounding bounds where the solver answers on reals'])
def c16(tier, rng):
    n, m = (9, 4) if tier == 'quick' else (33, 9)
    out = [('h_posang', (s,), 100) for s in (0, 1)] + [('h_degs', (s,), 100) for s in range(4)] + [('h_almost', (p, q), 100) for p in range(4) for q in range(4)]
    out += [('h_conslng', (s, k, p), 200) for s in (0, 1) for k in range(n) for p in ([0, 1] if k == 1 else [0])]
    return out + [('h_conslat', (k, 0, p), 200) for k in range(m) for p in ([0, 1] if k == 1 else [0])] + [('h_conslat', (0, 1, 0), 200)]


ANYB = 'every digit 0 to 7 and every mode, reserved and high bit'


@prop('C19', bounds={'quick': ANYB + ': predicates for all 2^64 values; steps and edges for all resolution fields and sampled base cell fields 0 to 127, valid and invalid; children, positions and centres likewise',
                     'thorough': ANYB + ': the same with all base cell fields'},
      outside='steps from pentagonal base cells with arbitrary digits beyond resolution 9; disks of radius above 1 about values that are no cells; face coordinates and digits outside their types', assumptions=LIBM)
def c19(tier, rng):
    th = tier == 'thorough'
    bcs = lambda k: list(range(128)) if th else sorted(rng.sample(HEX, k) + rng.sample(PENT, k) + rng.sample(range(122, 128), 1))
    out = [('h_anypred', (), 100)]
    for r in range(16):
        out += [('h_anynb', (r, c), 100) for c in (range(128) if th or r < 2 else bcs(2)) if r < 10 or c not in PENT]
        out += [(h, (r, c), 100) for h in ('h_anyedge', 'h_anypair') for c in bcs(1)]
        for cr in range(18):
            out.append(('h_anypos', (r, cr), 100))
            if cr in (r - 1, r, r + 1, 15, 16) or th:
                out += [('h_anyiter', (r, c, cr, z), 60) for c in bcs(1)[:128 if th else 2] for z in ([1] if r == 0 else [0, 1])]
    out += [('h_anydisk', (r, c), 100) for r in range(3) for c in bcs(1)]
    return out + [('h_anycentre', (r, c, 0, r), 60) for r in range(3) for c in range(128)] + windows('h_anycentre', rng, range(3, 16), 3, 2, 2)


@prop('C20', bounds=WB, outside=WO + '; points other than those on the way from the centre of a cell to those of its neighbors', assumptions=LIBM)
def c20(tier, rng):
    D = [40], [650000], [1350000]
    if tier == 'thorough':
        return (full('h_centre', range(5), ALL, b=300) + full('h_toward', range(5), ALL, range(1, 7), *D, b=300)
                + windows('h_centre', rng, range(5, 16), 4, 60, 12, b=300) + windows('h_toward', rng, range(5, 16), 4, 60, 12, range(1, 7), *D, b=300))
    return (full('h_centre', range(3), ALL) + windows('h_centre', rng, range(3, 16), 3, 3, 2) + windows('h_centre', rng, range(4, 16), 2, 8, 2) + middles('h_centre', rng, [15], 2, ALL) + middles('h_centre', rng, range(3, 15), 2, rng.sample(MID, 3))
            + full('h_toward', [0], ALL, range(1, 7), *D) + full('h_toward', [1], some(rng, 20), range(1, 7), *D) + full('h_toward', [2], some(rng, 2), range(1, 7), *D) + windows('h_toward', rng, range(3, 16), 3, 2, 2, range(1, 7), *D) + windows('h_toward', rng, range(3, 16), 2, 6, 2, range(1, 7), *D) + middles('h_toward', rng, [rng.randint(3, 13), 14, 15], 2, MID + PENT, range(1, 7), *D))
