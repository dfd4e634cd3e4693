#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import props


def P(pid, title, statement, over_text, why, files, mech, tech=None, note=None, na=None):
    return dict(id=pid, title=title, statement=statement, over=over_text, why=why, files=files, mech=mech, tech=tech, note=note, na=na)


TD = 'symbolic execution of the compiled LLVM IR on decision diagrams over the free digits, every decision and condition put to an SMT solver (z3), counterexamples replayed natively'
T = 'symbolic execution of the compiled LLVM IR, conditions decided by SMT (z3, cvc5), counterexamples replayed natively'
LIST = [
    P('C01', 'A cell index is accepted exactly when it is well formed',
      'For every 64-bit value, the validity test accepts it exactly when its reserved bits are clear, its mode is cell, its base cell is 0 to 121, its digits up to its resolution are 0 to 6, its remaining digits are 7, and, under a pentagonal base cell, its first non-zero digit is not the deleted direction 1.',
      'all 2^64 values', 'The tests try a handful of indexes; an accepted malformed index or a rejected good one can hide in any of 2^64 values.',
      ['src/h3_index.rs', 'src/base_cells.rs'], [('isValidCell', 'src/h3_index.rs'), ('_isBaseCellPentagon', 'src/base_cells.rs')]),
    P('C02', 'Index fields are read and written independently',
      'Reading a field of an index (resolution, base cell, mode, reserved bits, any digit) returns that field, and writing a field changes that field and no other bit; an index built from a resolution, a base cell and a digit has exactly these fields and 7 in the unused digits. Leading non-zero digit, pentagon test and digit clearing agree with the fields, for every 64-bit value.',
      'all 2^64 index values and all field values', 'Tests read a few fields of a few constants; an overlap of masks or a shift off by one shows only for particular bit patterns.',
      ['src/h3_index.rs', 'src/base_cells.rs'], [('H3_GET_* / H3_SET_*', 'src/h3_index.rs'), ('setH3Index', 'src/h3_index.rs'), ('_zeroIndexDigits', 'src/h3_index.rs'), ('_h3LeadingNonZeroDigit, isPentagon', 'src/h3_index.rs')]),
    P('C03', 'The number of children is exact at every resolution',
      'For every valid cell and every child resolution, the children count is 7^n for a hexagon and 1 + 5(7^n - 1)/6 for a pentagon n levels down, and a resolution below the cell\'s own or above 15 is refused with the resolution error. The computation never overflows or panics.',
      'every valid cell and every 32-bit child resolution', 'The tests evaluate few pairs of resolutions, and none of the deep ones, where intermediate results overflow.',
      ['src/h3_index.rs'], [('cellToChildrenSize, _hasChildAtRes', 'src/h3_index.rs')]),
    P('C04', 'Children are enumerated once each, in order, and completely',
      'Iterating over the children of a valid cell at a finer resolution yields exactly the valid cells whose leading digits are the cell\'s, in increasing index order and without repetition, then ends and stays ended. The vector form yields the same sequence, and both agree with the children count.',
      'all parents and child resolutions', 'Tests compare one or two parents; skipping the deleted direction under pentagons and the carry between digits depend on every digit of the parent and on the distance in resolution.',
      ['src/iterators.rs', 'src/h3_index.rs'], [('IterCellsChildren', 'src/iterators.rs'), ('cellToChildren', 'src/h3_index.rs')]),
    P('C05', 'Child positions number the children without gaps',
      'For every valid cell and every child resolution, position p, from 0 up to the children count, yields the p-th child in index order; negative or too large positions are refused with the domain error. A child resolution outside 0 to 15 is refused with the resolution error, one below the cell\'s with the resolution mismatch error.',
      'every parent, child resolution and 64-bit position', 'Up to 5.7 * 10^12 positions per parent; the tests walk through a few small ones.',
      ['src/h3_index.rs'], [('childPosToCell, validateChildPos', 'src/h3_index.rs')]),
    P('C06', 'A neighbor of a valid cell is a valid cell of the same resolution',
      'For every valid cell and each of the six directions, the neighbor step yields a valid cell, different from the origin and of the same resolution, or the pentagon error, which is given only for the deleted direction of a pentagon at resolution 1 or finer. The start rotation only turns the direction, and the returned rotation is 0 to 5.',
      'every valid cell, direction and start rotation', 'There are 5.7 * 10^14 cells at resolution 15 alone; base cell tables, digit tables and pentagon rotations meet only in particular digit sequences.',
      ['src/algos.rs', 'src/base_cells.rs'], [('h3NeighborRotations', 'src/algos.rs'), ('baseCellNeighbors, baseCellNeighbor60CCWRots', 'src/base_cells.rs')]),
    P('C07', 'Neighborhood is symmetric, with six neighbors, five at pentagons',
      'Whenever a step from a valid cell leads to another cell, some step from that cell leads back. A hexagon has six pairwise different neighbors and a pentagon five.',
      'every valid cell', 'Symmetry relates two evaluations at every one of the cells; a single wrong table entry breaks it only along one border between base cells.',
      ['src/algos.rs', 'src/base_cells.rs'], [('h3NeighborRotations', 'src/algos.rs'), ('baseCellNeighbors, baseCellNeighbor60CCWRots', 'src/base_cells.rs')]),
    P('C08', 'Walks that carry their rotation can be undone and close triangles',
      'Away from pentagons, a step in a direction followed by a step in the opposite direction, carrying the accumulated rotation along, returns to the origin with rotation 0. Two steps along two sides of a triangle reach the same cell, with the same rotation, as one step along the third.',
      'every valid cell and direction', 'Needs every crossing between base cells and faces at every resolution; tests follow few walks.',
      ['src/algos.rs', 'src/base_cells.rs'], [('h3NeighborRotations', 'src/algos.rs')]),
    P('C09', 'Directed edges correspond exactly to pairs of neighbors',
      'The edges of a cell are exactly those from the cell in each of its directions; each is a valid edge, is not a valid cell, and yields its origin, its destination and the pair it was made from. An edge between two cells exists exactly when the second is a neighbor of the first, otherwise the not-neighbors error is given, and edge validity is exact for every 64-bit value.',
      'every valid cell, every second index, every 64-bit edge', 'Tests build a few edges; the pentagon case and non-neighbors are not covered for arbitrary second arguments.',
      ['src/directed_edge.rs', 'src/algos.rs'], [('cellsToDirectedEdge, originToDirectedEdges, isValidDirectedEdge, getDirectedEdge*', 'src/directed_edge.rs'), ('directionForNeighbor', 'src/algos.rs')]),
    P('C10', 'Disks contain exactly the cells within the radius, each once',
      'The disk of a radius around any valid cell, pentagons included, contains exactly the cells reachable in at most that many neighbor steps, each once and with its step distance. The fast variant, where it succeeds, gives the same cells ordered by distance, and it fails with the pentagon error exactly when the disk contains a pentagon.',
      'every valid cell as origin, every radius', 'The result depends on all crossings inside the disk; the tests look at fixed origins.',
      ['src/algos.rs'], [('gridDiskDistances, _gridDiskDistancesInternal', 'src/algos.rs'), ('gridDiskDistancesUnsafe', 'src/algos.rs')]),
    P('C11', 'Hollow rings contain exactly the cells at the radius',
      'Where it succeeds, the hollow ring of radius k at least 1 contains exactly the 6k cells at step distance k, each once; it fails with the pentagon error exactly when a pentagon lies within the radius.',
      'every valid cell as origin, every radius', 'The ring is traced by a walk that may close by accident for the sampled origins; the pentagon detection must work for all of them.',
      ['src/algos.rs'], [('gridRingUnsafe', 'src/algos.rs')]),
    P('C12', 'The disk size bound is exact and never overflows',
      'For every radius, the number of cells reserved for a disk is 3k(k+1)+1 as long as this is below the number of cells of the finest resolution, and that number from there on; it never overflows, panics or decreases.',
      'all 2^32 radii', 'Tests use small radii; the clamp only matters above 13.7 million.',
      ['src/algos.rs', 'src/constants.rs'], [('maxGridDiskSize', 'src/algos.rs')]),
    P('C14', 'Coordinates that cannot be indexed are refused',
      'Indexing a point at a resolution outside 0 to 15 gives the resolution error and, at a valid resolution, a latitude or longitude that is infinite or not a number gives the coordinate error; no such call succeeds or panics.',
      'all pairs of doubles and all 32-bit resolutions', 'Tests try a few special values; the refusal must hold for every bit pattern of both doubles.',
      ['src/h3_index.rs'], [('latLngToCell', 'src/h3_index.rs')]),
    P('C17', 'The base cells are the 122 resolution 0 cells',
      'Asking for the resolution 0 cells yields exactly the 122 valid cells of resolution 0, each once and in base cell order, of which exactly the twelve pentagonal ones are reported as pentagons.',
      'every entry', 'The tests do not inspect the list.',
      ['src/base_cells.rs'], [('getRes0Cells, res0CellCount', 'src/base_cells.rs')]),
    P('C18', 'Index rotations are the sixfold digit rotations and undo each other',
      'Rotating an index by 60 degrees applies the digit rotation 1-5-4-6-2-3 to each of its digits up to its resolution and changes nothing else, and clockwise and counter-clockwise rotation undo each other, for every 64-bit value. Rotation about a pentagon keeps cells valid, is undone by the opposite rotation, and returns to the start after five steps.',
      'all 2^64 values; all cells under pentagonal base cells', 'The leading digit decides whether a second rotation is needed; tests exercise none of this directly.',
      ['src/h3_index.rs', 'src/coord_ijk.rs'], [('_h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw', 'src/h3_index.rs')]),
    P('C13', 'Hexagon coordinates obey the geometry of the hexagonal grid',
      'Normalising hexagon coordinates keeps the cell and gives the one form without negative and with at least one zero component; rotation, the step in a digit, the centre child and the parent in either orientation, sums and multiples are those of the hexagonal lattice, so that each cell is its parent\'s centre child or next to it. The hexagon found for a point of the plane contains the point, and its centre is where the lattice has it.',
      'all coordinates, all points of the plane', 'Rounding to hexagons has a dozen branches chosen by fractions of both coordinates, and the signs select folding rules; the tests try three points.',
      ['src/coord_ijk.rs'], [('_ijkNormalize, _ijkRotate60ccw, _ijkRotate60cw, _neighbor, _upAp7, _upAp7r, _downAp7, _downAp7r, _unitIjkToDigit', 'src/coord_ijk.rs'), ('_hex2dToCoordIJK, _ijkToHex2d', 'src/coord_ijk.rs')]),
    P('C15', 'Indexes and face coordinates correspond, on every face and across its sides',
      'Every valid cell has normalised coordinates on one of the 20 faces, and indexing those yields the cell again. The cells next to it lie next to it where they are on the same face. Leaving a face over one of its sides continues on the face glued to that side at the mirrored place, the gluing is mutual, and base cells on common sides agree.',
      'every valid cell, all faces and sides', 'The tables of faces, base cells and rotations contribute separately for each face, side and pentagon; tests index a few cells.',
      ['src/h3_index.rs', 'src/face_ijk.rs', 'src/base_cells.rs'], [('_h3ToFaceIjk, _faceIjkToH3', 'src/h3_index.rs'), ('_adjustOverageClassII', 'src/face_ijk.rs'), ('faceIjkBaseCells, baseCellData', 'src/base_cells.rs')], tech=TD),
    P('C16', 'Angles are brought into range without being changed',
      'Normalising an angle, constraining a longitude or a latitude yields an angle in the range asked for that differs by whole turns (half turns for latitudes), and leaves angles already in range alone; degrees become radians in proportion, and coordinates are taken for equal exactly when both components differ by less than the threshold.',
      'all doubles within the bounds', 'The loops and comparisons are decided at the borders of the ranges, which tests touch at single values.',
      ['src/lat_lng.rs'], [('_posAngleRads, constrainLat, constrainLng', 'src/lat_lng.rs'), ('setGeoDegs, geoAlmostEqual, geoAlmostEqualThreshold', 'src/lat_lng.rs')]),
    P('C19', 'Every 64-bit value gets an answer',
      'No operation on an index panics, overflows or runs on for ever, whatever the 64 bits, the direction, rotation, child resolution or child position: predicates, neighbor steps, edges, disks and rings, children, child positions and centres either give a result of the documented form or one of the documented errors. Child positions are accepted exactly when they lie below the children count, and nothing is both a cell and a directed edge.',
      'all 64-bit values', 'Malformed values with unused digits, base cells 122 to 127 or the deleted direction inside reach table lookups and loops that valid cells never do.',
      ['src/h3_index.rs', 'src/algos.rs', 'src/iterators.rs', 'src/directed_edge.rs'], [('h3NeighborRotations, directionForNeighbor', 'src/algos.rs'), ('IterCellsChildren', 'src/iterators.rs'), ('validateChildPos, childPosToCell, cellToLatLng', 'src/h3_index.rs'), ('getDirectedEdge*', 'src/directed_edge.rs')]),
    P('C20', 'The centre of a cell, and points about it, are indexed to the cell',
      'Every valid cell has a centre with latitude and longitude in range; indexing the centre at the cell\'s resolution yields the cell, and at the next coarser resolution its parent. Centres of neighboring cells lie one cell spacing apart, and points up to two fifths of the way towards the centre of a neighbor are still indexed to the cell.',
      'every valid cell and direction', 'Which of 20 faces and which of the folding rules apply depends on every digit; tests go to and fro for few cells.',
      ['src/h3_index.rs', 'src/face_ijk.rs', 'src/lat_lng.rs', 'src/coord_ijk.rs', 'src/vec3d.rs'], [('cellToLatLng, latLngToCell', 'src/h3_index.rs'), ('_geoToFaceIjk, _faceIjkToGeo, _geoToClosestFace, _hex2dToGeo, _geoToHex2d', 'src/face_ijk.rs'), ('_geoAzimuthRads, _geoAzDistanceRads', 'src/lat_lng.rs')], tech=TD),
    P('C21', 'Every point is indexed to a cell that contains it',
      'For every finite latitude and longitude and every resolution, the cell the point is indexed to contains it.',
      'all points', 'Continuum of points.',
      ['src/h3_index.rs', 'src/face_ijk.rs'], [('latLngToCell, _geoToHex2d', 'src/h3_index.rs')],
      na='the path from an arbitrary point to the plane goes through sin, cos, acos, atan2 and tan of unconstrained doubles, which no installed solver decides and whose library code is not part of the repository; the pieces before and after it are decided under C13 (rounding in the plane contains the point), C14 (refusals), C15 and, for points tied to cells, C20'),
]
NOTE = 'Decides all values within the stated bounds on the IR regenerated from the current tree; trusts rustc, the engine\'s reading of LLVM IR (sampled against the solver and native runs each time) and the solvers.'


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in LIST:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': ['inputs'], 'text': p['over']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in LIST:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        b = props.PROPS[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} --tier quick', 'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough',
                       'technique': p['tech'] or T, 'level': 'model_checking', 'level_note': (p['note'] or NOTE) + ' Quick bounds: ' + b['bounds']['quick'] + '.' + (' Outside: ' + b['outside'] + '.' if b.get('outside') else '')})
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na}
    if HOOKS:
        m['hooks'] = HOOKS
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


HOOKS = {'guard': 'cfg vf_hooks', 'enable': "RUSTFLAGS='--cfg vf_hooks' (check.py sets it for its own builds)", 'source_commits': ['9b92aab']}
if __name__ == '__main__':
    main()
