"""Table of properties; `python3 doc/props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
import registry

ALG = 'abstract interpretation of the type-checked AST over an exact algebraic value domain'
P = []


# properties whose checks enumerate shapes (topologies, histories, sizes) up to a bound; values stay symbolic
BOUNDED = {'D01', 'A02', 'A03', 'E02', 'E04', 'E05', 'M01', 'M02', 'R04', 'R05', 'R06', 'R07', 'U01', 'Q02', 'N01', 'N03'}


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), tech=ALG, level='proof', note='', na=None, state=()):
    if id in BOUNDED and level == 'proof':
        level, note = 'other', 'Symbolic values, shapes enumerated up to a bound (not a proof for all shapes). ' + note
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files),
                  mech=list(mech), observe=list(observe), tech=tech, level=level, note=note, na=na, state=list(state)))


G = 'lib/lf/geometry/'
TB = ' Trusted: clang front end, the engine\'s transfer functions for C++/Eigen, exact rational arithmetic in place of floating point.'
GN = 'Every obligation is an identity of rational functions in symbolic vertex and reference coordinates, discharged exactly.' + TB

prop('G01', 'Geometry Jacobian is the derivative of the geometry map',
     'For every geometry object and every reference point, the Jacobian reported is the matrix of partial derivatives of the map that Global() evaluates, for every number of evaluation points passed in one call. isAffine() is true exactly when that map is affine for every choice of vertices.',
     'all vertex coordinates, all reference points, all geometry types (first and second order, planar and embedded)',
     'Tests sample a handful of meshes and points with finite differences; a wrong mixed term vanishing on symmetric samples survives.',
     [G + x for x in ('point.cc', 'segment_o1.h', 'segment_o2.cc', 'tria_o1.cc', 'tria_o2.cc', 'quad_o1.cc', 'quad_o2.cc')],
     [('Jacobian formula per class', G + '*.cc Jacobian()'), ('isAffine flags', G + '*.h')], observe=['Geometry::Jacobian', 'Geometry::Global', 'Geometry::isAffine'], note=GN)
prop('G02', 'Inverse Gramian and integration element agree with the Jacobian',
     'With J the Jacobian at a reference point, JacobianInverseGramian returns J (J^T J)^-1 and IntegrationElement returns sqrt(det(J^T J)), in particular both are consistent for manifolds embedded in higher-dimensional space and for negatively oriented cells. Values for several points in one call equal the values of separate calls.',
     'all non-degenerate vertex configurations and all reference points',
     'Tests check a few well-shaped cells; sign and embedding errors show only for special configurations.',
     [G + x for x in ('segment_o1.cc', 'segment_o2.cc', 'tria_o1.cc', 'tria_o2.cc', 'quad_o1.cc', 'quad_o2.cc', 'point.cc')],
     [('closed formulas / cached constants for affine maps', G + 'tria_o1.cc Init, quad_o1.cc Parallelogram')], observe=['Geometry::JacobianInverseGramian', 'Geometry::IntegrationElement'], note=GN)
prop('G03', 'Sub-entity geometry is the restriction of the cell geometry',
     'The geometry returned for sub-entity i of codimension c is the restriction of the parent map to that sub-entity under the reference-element numbering, parametrised from first to last vertex. It has the type and dimension of that sub-entity for every cell type.',
     'all vertex coordinates, all sub-entities of all cell types, all points of the sub-entity',
     'Tests compare at nodes only for some entities; permuted midpoints or reversed edges agree at symmetric samples.',
     [G + x for x in ('segment_o1.cc', 'segment_o2.cc', 'tria_o1.cc', 'tria_o2.cc', 'quad_o1.cc', 'quad_o2.cc')] + ['lib/lf/base/ref_el.h'],
     [('SubGeometry switch per class', G + '*.cc SubGeometry()')], observe=['Geometry::SubGeometry'], note=GN)
prop('G04', 'Child geometries are the parent map restricted to child polygons',
     'For every refinement pattern, anchor and codimension, ChildGeometry returns one geometry per child of the pattern, and child i is the parent map composed with the affine (bilinear for quadrilaterals) map onto the i-th child polygon. For affine and bilinear parents this is exact, and for second-order parents it agrees at all nodes of the child.',
     'all vertex coordinates, all valid (pattern, anchor) pairs and codimensions',
     'Pattern, anchor, codim and cell type multiply to hundreds of cases with continuous parameters; tests refine a few meshes.',
     [G + x for x in ('segment_o1.cc', 'segment_o2.cc', 'tria_o1.cc', 'tria_o2.cc', 'quad_o1.cc', 'quad_o2.cc', 'refinement_pattern.cc')] + ['lib/lf/refinement/hybrid2d_refinement_pattern.cc'],
     [('ChildGeometry implementations', G + '*.cc ChildGeometry()'), ('lattice child polygons', 'lib/lf/refinement/hybrid2d_refinement_pattern.cc ChildPolygons()')], observe=['Geometry::ChildGeometry'], note=GN)
prop('G05', 'Geometry maps interpolate their nodes',
     'Every geometry map sends the reference nodes of its type to the node coordinates it was constructed from, and its corners are the images of the reference corners. Volume of an affine geometry is the integral of its integration element over the reference element.',
     'all node coordinates',
     'Tests use a few coordinate sets, many with symmetry.',
     [G + '*.cc', G + 'geometry_interface.cc'], [('Global per class', G + '*.cc'), ('Corners/Volume helpers', G + 'geometry_interface.cc')], observe=['Geometry::Global', 'geometry::Corners', 'geometry::Volume'], note=GN)
RP = 'lib/lf/refinement/hybrid2d_refinement_pattern.cc'
prop('R02', 'Refinement patterns tile the reference element',
     'For every reference element, refinement pattern and admissible anchor, the child cells lie in the reference element, have non-zero area, do not overlap, and their areas sum to the area of the reference element. The number of children of each codimension reported equals the number of polygons delivered, each with the vertex count of its type, and the interior children of codimension 1 and 2 are the interior edges and vertices of the tiling, each once.',
     'all (reference element, pattern, anchor, codimension) combinations',
     'Existing tests check the count and area sum for some patterns only and never overlap or orientation.',
     [RP, 'lib/lf/refinement/refinement.h', G + 'refinement_pattern.h'], [('tables of lattice polygons', RP + ' ChildPolygons()'), ('NumChildren tables', RP)], over=('configurations',), observe=['Hybrid2DRefinementPattern::ChildPolygons', 'NumChildren'], note='All admissible configurations enumerated; polygons obtained by static evaluation of the source, decided exactly.' + TB)
prop('R03', 'Refinement patterns induce conforming edge splits',
     'The trace of every pattern on every edge of the parent is either the whole edge or its two halves, exactly as the pattern promises for that edge and anchor, so that two cells sharing an edge and agreeing whether it is split produce matching children.',
     'all (reference element, pattern, anchor) combinations and all edges',
     'A pattern whose trace disagrees with its neighbours yields a non-conforming mesh only for particular marked sets.',
     [RP], [('tables of lattice polygons', RP + ' ChildPolygons()')], over=('configurations',), observe=['Hybrid2DRefinementPattern::ChildPolygons'], note='All admissible configurations enumerated and decided exactly.' + TB)
FE = ['lib/lf/uscalfe/lagr_fe.h', 'lib/lf/fe/hierarchic_fe.h']
FN = 'Lagrangian elements: all; hierarchic elements: the enumerated degrees, edge degrees and orientations (evidence lists the cases), symbolic points.' + TB
prop('F01', 'Nodal interpolation is dual to the shape functions',
     'For every scalar reference finite element, interpolating the nodal values of shape function i yields exactly the i-th unit coefficient vector, hence interpolation of a finite element function reproduces it. The quadrature used by the hierarchic elements is exact for the integrands that occur.',
     'all element types, degrees, edge degrees and relative orientations; real and complex scalars',
     'Tests cover few degrees with one orientation; orientation/degree mixtures are numerous.',
     FE, [('nodal basis / dual basis', 'EvaluationNodes, NodalValuesToDofs')], over=('inputs', 'configurations'), observe=['ScalarReferenceFiniteElement::NodalValuesToDofs', 'EvaluationNodes'], note=FN)
prop('F02', 'Shape function gradients are the derivatives of the shape functions',
     'For every scalar reference finite element and every point, the gradients returned are the partial derivatives of the shape functions returned by evaluation, in the documented layout for any number of points. The degree reported bounds the polynomial degree of all of them.',
     'all element types, degrees, orientations and reference points',
     'Tests compare at a few points, for few degrees, with tolerances.',
     FE, [('hand-written gradient formulas', 'GradientsReferenceShapeFunctions')], observe=['ScalarReferenceFiniteElement::GradientsReferenceShapeFunctions'], over=('inputs', 'configurations'), note=FN)
prop('F03', 'Global continuity of finite element functions across edges',
     'On every edge of a cell the shape functions of that edge and of its end points coincide with the shape functions of the matching edge element, taken in the order and direction given by the relative orientation, and all other shape functions of the cell vanish there. Hence globally assembled functions are continuous for every mesh and orientation of its edges.',
     'all element types, degrees, relative orientations, points of the edge',
     'Continuity across an edge requires all orientation combinations; tests use a few meshes.',
     FE, [('edge orientation handling', 'hierarchic_fe.h FeHierarchicTria/Quad'), ('local dof ordering', 'NumRefShapeFunctions(codim,sub)')], observe=['ScalarReferenceFiniteElement::EvalReferenceShapeFunctions'], over=('inputs', 'configurations'), note=FN)
prop('F06', 'Finite element spaces contain the polynomials of their degree',
     'The interpolation operator of every scalar reference element of degree p reproduces every polynomial of degree p (coordinate degree p on quadrilaterals), in particular constants (partition of unity). This holds for every choice of edge degrees at least p and every orientation.',
     'all element types, degrees, orientations, polynomials of the degree',
     'Convergence rates only show statistically in tests; one wrong coefficient at higher degree is invisible.',
     FE, [('basis formulas', 'EvalReferenceShapeFunctions')], observe=['EvalReferenceShapeFunctions', 'NodalValuesToDofs'], over=('inputs', 'configurations'), note=FN)

exec(open(os.path.join(HERE, 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'props2.py')) else None


def main():
    root = os.path.dirname(HERE)
    out, checks, na = [], [], []
    for p in P:
        claimed = p['id'] in registry.CHECKS and not p['na']
        if not claimed and not p['na']:
            print('skipped', p['id'])
            continue
        out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                    'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                    'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                'state': [{'name': a, 'meaning': b, 'where': w} for a, b, w in p['state']],
                                'observe_at': p['observe'], 'hook_needed': None}})
        assert len(p['title']) <= 80, p['id']
        if claimed:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/run.py ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py ' + p['id'],
                           'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na']})
    missing = set(registry.CHECKS) - {p['id'] for p in P}
    if missing:
        print('no property text for', missing)
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na,
               'hooks': {'guard': 'none', 'enable': 'no hooks: the analyses read the sources of /repo as they are', 'source_commits': []},
               'notes': 'Static analysis only: no check executes code of /repo. See DESIGN.md.'},
              open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    print(len(out), 'properties', len(checks), 'checks')


main()
