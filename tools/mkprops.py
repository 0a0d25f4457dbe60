#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
G = 'dune/geometry/'


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': [G + f for f in files], 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


p('C01', 'Geometry types are values: equality, order, identifiers and predicates agree',
  'Two geometry types compare equal exactly when they have the same dimension and denote the same element class '
  '(both "none", or the same shape up to the base line/point choice), "less" is a strict total order consistent with that equality, and '
  'converting a type to its compile-time identifier and back yields an equal type. '
  'The shape predicates (vertex, line, triangle, quadrilateral, tetrahedron, pyramid, prism, hexahedron, simplex, cube, conical, prismatic, none) '
  'hold for a type exactly when it is the type the corresponding named constructor or repeated prism/cone construction produces (vertex and line hold for every type of dimension 0 and 1, where there is one shape only).',
  ['inputs'], 'all pairs/triples of geometry types of dimension 0..30 (every topology id, none or not)',
  'Tests compare a dozen named types of dimension at most 4; the order axioms quantify over pairs and triples of an exponentially large domain.',
  ['type.hh'], [('type value, comparison and id conversion', G + 'type.hh GeometryType, GeometryTypes, toId')])

p('C02', 'Geometry type indices are a bijection in every dimension',
  'Within one dimension, the local index maps the geometry types of that dimension one-to-one onto 0..size-1 and the inverse returns an equal type. '
  'Across all dimensions up to a maximum, the global index maps all types of dimension 0..max one-to-one onto 0..size(max)-1, keeps lower-dimensional types before higher-dimensional ones, and agrees with offset plus local index, both for indices with and without "none" types.',
  ['inputs'], 'every dimension 0..20 and every (regular or none) type of it, every index below size',
  'No test covers the index maps; injectivity quantifies over pairs from a domain of size 2^dim.',
  ['typeindex.hh'], [('index arithmetic', G + 'typeindex.hh LocalGeometryTypeIndex, GlobalGeometryTypeIndex')])

p('C03', 'Vertex count determines the geometry type of the documented shapes',
  'Asking for a geometry type by dimension and number of vertices returns a type of that dimension whose reference element has exactly that number of vertices, '
  'for every combination of the documented shapes (dimension 0..3), and fails with the documented error for every other vertex count in dimension 2 and 3.',
  ['inputs'], 'every dimension and every 32-bit vertex count',
  'The test enumerates the valid combinations plus a few invalid ones; the error case quantifies over all other counts.',
  ['utility/typefromvertexcount.hh'], [('vertex count switch', G + 'utility/typefromvertexcount.hh geometryTypeFromVertexCount')])

p('C04', 'Reference-element counts, sub-types and numbering are consistent',
  'For every topology the number of sub-entities of each codimension and the type of each sub-entity agree with the recursive prism/cone construction, and every sub-entity type has the dimension dim-codim. '
  'The numbering is consistent: the sub-entity numbers reported for a sub-entity are valid and distinct, and of exactly the promised size, sub-entities of sub-entities agree with the numbering of the sub-entity\'s own reference element, and containment tests agree with the listed numbers.',
  ['inputs', 'configurations'], 'all topologies (up to base choice) of dimension 0..4 and all index arguments i, ii, c, cc; counts and sub-topology ids for all dimensions by induction',
  'The test spot-checks relations on dimensions up to 4 by comparing implementation parts with each other; tables shifted consistently pass, nested numbering is not compared with the sub-entity reference element.',
  ['referenceelementimplementation.cc', 'referenceelementimplementation.hh', 'referenceelement.hh', 'referenceelements.hh', 'topologyfactory.hh'],
  [('sub-entity count/type/numbering recursion', G + 'referenceelementimplementation.cc size, subTopologyId, subTopologyNumbering'),
   ('tables behind the public class', G + 'referenceelementimplementation.hh SubEntityInfo, ReferenceElementImplementation')])

p('C05', 'Reference-element positions, volume, normals and embeddings are right',
  'Each vertex position is the corner given by the prism/cone construction, each sub-entity position is the average of the positions of its vertices, and the volume is the product formula of the construction. '
  'Each facet normal is orthogonal to the facet, points outward, and has length facet-volume ratio (so that the normals sum to zero and satisfy the divergence theorem). '
  'Each sub-entity embedding is the affine map that takes the corners of the sub-entity\'s reference element to the positions of its vertices in the numbering order.',
  ['inputs', 'configurations'], 'all topologies of dimension 0..4, all sub-entities and all local points of each embedding',
  'The tests check a few volumes and that embeddings hit the barycentre; they do not tie all corners of all sub-entities to the numbering for all points.',
  ['referenceelementimplementation.cc', 'referenceelementimplementation.hh', 'referenceelement.hh'],
  [('coordinates of corners, volume, embeddings, normals', G + 'referenceelementimplementation.cc/.hh referenceCorners, referenceVolumeInverse, referenceEmbeddings, referenceIntegrationOuterNormals'),
   ('table set-up', G + 'referenceelementimplementation.hh CreateGeometries, initialize')])

p('C06', 'Point-in-element tests accept exactly the closed reference element',
  'The inside test of a reference element accepts every point of the closed element, and every point it accepts lies within the documented rounding tolerance of the element.',
  ['inputs', 'configurations'], 'all points of R^dim (as reals) for all topologies of dimension 0..4',
  'Tests probe a handful of points such as barycentres; the statement is an equivalence over a continuum of points, including those next to every facet.',
  ['referenceelementimplementation.hh', 'referenceelementimplementation.cc', 'referenceelement.hh'],
  [('recursive inside test', G + 'referenceelementimplementation.hh checkInside')])

p('C07', 'Multilinear geometry maps corners to corners by the multilinear interpolation',
  'The global position of a local point is the interpolation of the corner coordinates with the (multi)linear shape functions of the element shape, so reference corners map to the given corners and the centre is the image of the reference centre. '
  'If the geometry reports itself affine, then the mapping is affine; an affine mapping of a given corner set is reported affine.',
  ['inputs', 'configurations'], 'all corner coordinates and all local points; shapes of dimension 1..3 in world dimension 1..3; pyramid away from its apex plane',
  'Tests use a few hand-picked affine corner sets, for which many wrong interpolations coincide with the right one.',
  ['multilineargeometry.hh'], [('recursive interpolation', G + 'multilineargeometry.hh MultiLinearGeometry::global, affine'), ('corner storage', G + 'multilineargeometry.hh corner access')])

p('C08', 'Multilinear geometry derivatives match the map',
  'The (transposed) Jacobian reported by a multilinear geometry is the derivative of its local-to-global map at that point; the (transposed) inverse Jacobian is its inverse, or pseudo-inverse when the world dimension is larger. '
  'The integration element is the square root of the Gram determinant of that Jacobian, and the reported volume of an affine element is integration element times reference volume.',
  ['inputs', 'configurations'], 'all corners and all local points with a full-rank Jacobian; shapes of dimension 1..3, world dimension 1..3',
  'Tests only compare with numerically differentiated values on mostly affine shapes at quadrature points.',
  ['multilineargeometry.hh', 'affinegeometry.hh'], [('Jacobian recursion', G + 'multilineargeometry.hh jacobianTransposed'), ('inverse', G + 'multilineargeometry.hh jacobianInverseTransposed, integrationElement, volume')])

p('C09', 'Multilinear inverse map: a returned local point maps back to the global point',
  'For affine geometries the inverse map returns the exact inverse (the least-squares solution for points off the image). For other geometries a returned local point is the result of an exact Newton step for the given global point whose length does not exceed the tolerance, so a fixed point maps exactly to the given point. '
  'When the derivative is not invertible the failure marker is returned instead of an unrelated point.',
  ['inputs', 'histories'], 'all corners and all global points; any number of Newton iterations',
  'Tests invert points that were obtained from the forward map on benign elements; convergence/exit paths are iteration dependent.',
  ['multilineargeometry.hh'], [('Newton loop', G + 'multilineargeometry.hh MultiLinearGeometry::local'), ('affine shortcut', G + 'multilineargeometry.hh CachedMultiLinearGeometry::local')])

p('C10', 'Cached multilinear geometry always answers like the uncached one',
  'In every sequence of queries on a caching geometry object (and copies of it), each query returns what a fresh non-caching geometry with the same corners returns for the same argument.',
  ['histories', 'inputs'], 'all query sequences, interleavings of cached quantities, copies, all corners and points',
  'Tests query caches in one fixed order; the cache state machine has many orders.',
  ['multilineargeometry.hh'], [('cache flags', G + 'multilineargeometry.hh CachedMultiLinearGeometry')],
  state=[('affine/computed flags', 'which cached quantities are valid')])

p('C11', 'Affine geometry: map, inverse, Jacobians and corners agree',
  'An affine geometry maps the reference corners to its corners by the affine map it was built from (by corners, by origin and Jacobian, or from an origin and edge vectors), its Jacobians are the constant derivative, its integration element the square root of the Gram determinant, its volume that times the reference volume, and its centre the image of the reference centre. '
  'The inverse map recovers the local point of any point in the image, and gives the least-squares solution outside the image.',
  ['inputs', 'configurations'], 'all corner sets of full rank, all points; dimension 0..3, world dimension 1..3, all topologies',
  'Tests use fixed simplices and the identity of coordinates.',
  ['affinegeometry.hh'], [('affine map', G + 'affinegeometry.hh AffineGeometry')])

p('C12', 'Axis-aligned cube geometry: map, inverse, Jacobians and corners agree',
  'An axis-aligned cube geometry maps the unit cube to the box between its two corners along the selected axes, with corners in lexicographic order and constant coordinates elsewhere; its inverse map, Jacobian, inverse Jacobian, integration element, volume and centre are those of that map. '
  'Copying and assigning it yields a geometry with the same answers.',
  ['inputs', 'configurations'], 'all boxes with positive extent, all points, all axis selections; dimension 0..3 in world dimension 1..3',
  'Tests use one or two boxes with random coordinates per dimension and check only consistency through a generic checker.',
  ['axisalignedcubegeometry.hh'], [('box map', G + 'axisalignedcubegeometry.hh AxisAlignedCubeGeometry')])

p('C13', 'Small-matrix kernels compute the algebra they promise',
  'The matrix kernels used by all geometries compute exactly (up to rounding) the products, Cholesky factors, triangular solves, determinants, inverses and left/right pseudo-inverses they promise: the returned inverse satisfies the defining equations and the returned scalar is the determinant\'s absolute value or square root of the Gram determinant. '
  'Rank-deficient Gram matrices are reported instead of producing a factor when checking is requested.',
  ['inputs'], 'all real matrices of the sizes used (1..3 rows and columns) with the stated rank',
  'Kernels are only exercised indirectly through a few geometries.',
  ['affinegeometry.hh', 'utility/defaultmatrixhelper.hh'], [('matrix kernels', G + 'affinegeometry.hh FieldMatrixHelper; ' + G + 'utility/defaultmatrixhelper.hh')])

p('C14', 'Local-finite-element geometry equals the interpolation of its coefficients',
  'A geometry parametrised by a local finite element maps each local point to the linear combination of its coefficients with the basis functions, its Jacobian is the same combination of the basis gradients, and its integration element, inverse Jacobian and corners are those of that map. '
  'If the inverse map returns, the returned point maps to the given global point up to the solver tolerance; otherwise it reports failure. '
  'The volume by a given rule is the weighted sum of the integration elements; the volume found by raising the order agrees with that by a different rule of lower order up to the requested tolerance, unless the limit of iterations or orders is reached.',
  ['inputs', 'configurations'], 'all coefficient vectors, basis values and gradients (arbitrary functions), all points; dimension 1..3, world dimension 1..3',
  'Tests use Lagrange bases of order 1 and 2 with coefficients that reproduce an affine or simple map.',
  ['localfiniteelementgeometry.hh', 'utility/algorithms.hh'], [('coefficient contraction', G + 'localfiniteelementgeometry.hh')])

p('C15', 'Mapped geometry obeys the chain rule',
  'A geometry defined by composing an outer mapping with an inner geometry maps points to the composition, reports the product of the derivatives as Jacobian, and derives its integration element and inverse Jacobian from that product. '
  'If its inverse map returns, the result maps to the given point up to the solver tolerance; otherwise it reports failure. '
  'The volume by a given rule is the weighted sum of the integration elements; the volume found by raising the order agrees with that by a different rule of lower order up to the requested tolerance, unless the limit of iterations or orders is reached.',
  ['inputs', 'configurations'], 'all outer mappings (arbitrary value and derivative), all inner geometries and points; dimension 1..3, world dimension 1..3',
  'Tests use one or two fixed mappings where transposition or order mistakes can cancel.',
  ['mappedgeometry.hh', 'utility/algorithms.hh'], [('composition', G + 'mappedgeometry.hh MappedGeometry')])

p('C16', 'Nonlinear solver: reported success implies a small residual',
  'The iterative inversion routine used by the non-affine geometries reports success only if the norm of the residual at the returned point does not exceed the requested tolerance, and every other outcome is reported with the matching status. '
  'The residual of the returned point is never larger than the one of the start value, and starting at an exact solution with an invertible derivative is a success.',
  ['inputs', 'histories'], 'all functions and derivatives (arbitrary values at every call), all start values, tolerances and iteration limits',
  'Tests only see converging well-conditioned problems.',
  ['utility/algorithms.hh', 'utility/convergence.hh'], [('Gauss-Newton loop', G + 'utility/algorithms.hh')])

p('C17', 'One-dimensional quadrature rules are exact to their order',
  'Every one-dimensional rule of every family integrates all polynomials up to its reported order exactly (up to rounding) with respect to the family\'s weight, has all points in [0,1], non-negative weights, and a reported order that is at least the requested one. '
  'Rules of the Lobatto and Radau families contain the promised end points (up to rounding).',
  ['inputs', 'configurations'], 'all polynomials up to the order (all monomials, by linearity), every family and every requested order up to the family maximum',
  'The test checks selected orders with an absolute tolerance far above rounding and only a few monomials.',
  ['quadraturerules/gaussquadrature.hh', 'quadraturerules/gausslobattoquadrature.hh', 'quadraturerules/gaussradauleftquadrature.hh', 'quadraturerules/gaussradaurightquadrature.hh',
   'quadraturerules/jacobi1quadrature.hh', 'quadraturerules/jacobi2quadrature.hh', 'quadraturerules/jacobiNquadrature.hh'],
  [('tabulated rules', G + 'quadraturerules/*quadrature.hh')])

p('C18', 'Multi-dimensional quadrature rules are exact to their order',
  'Every rule of a family with constant weight delivered for a point, line, triangle, quadrilateral, tetrahedron, pyramid, prism or hexahedron integrates all polynomials up to the requested order exactly (up to rounding) over the reference element, has all points in the closed reference element and weights summing to its volume, and reports its type and an order not below the requested one.',
  ['inputs', 'configurations'], 'all polynomials up to the order, all shapes of dimension 0..3, every requested order of the tabulated rules and product rules up to the stated order bound',
  'The test integrates a few monomials per rule; exactness is a statement on a vector space for every order and shape.',
  ['quadraturerules.hh', 'quadraturerules/simplexquadrature.hh', 'quadraturerules/prismquadrature.hh', 'quadraturerules/tensorproductquadrature.hh', 'quadraturerules/pointquadrature.hh', 'quadraturerules/quadraturerules.cc'],
  [('tables', G + 'quadraturerules/simplexquadrature.hh, prismquadrature.hh'), ('product construction', G + 'quadraturerules/tensorproductquadrature.hh')])

p('C19', 'Quadrature rule requests: same request, same rule, in any history',
  'Requesting a rule for a regular shape (given by its geometry type or its basic type) returns, whatever was requested before, the rule for exactly the requested shape, order and family (or a rule of at least that order), and repeating a request returns the same object, unchanged. '
  'Requests with a negative order or one beyond the maximum are rejected with the documented error and do not affect later requests.',
  ['histories', 'inputs'], 'all request sequences over shapes of dimension 0..3, families and orders (including negative and too large)',
  'Tests request each rule once in increasing order; the cache index arithmetic is only observable over histories.',
  ['quadraturerules.hh', 'typeindex.hh'], [('lazy cache', G + 'quadraturerules.hh QuadratureRules::_rule'), ('factory', G + 'quadraturerules.hh QuadratureRuleFactory')],
  state=[('rule cache', 'vector per family, shape, order')])

p('C20', 'Composite quadrature is the base rule on every sub-element',
  'A composite rule built from a base rule and a refinement has as points the images of the base points in each sub-element with weights scaled by the sub-element volume ratio, so it has number-of-elements times base-size points, integrates constants exactly, and is exact whenever the base rule is.',
  ['inputs', 'configurations'], 'all base rules (arbitrary points, weights, orders), simplices of dimension 1..3 (the only shapes the class accepts), every number of refinement intervals',
  'No test covers composite rules beyond a smoke check.',
  ['quadraturerules/compositequadraturerule.hh'], [('sub-element map', G + 'quadraturerules/compositequadraturerule.hh')])

p('C21', 'Cube refinement enumerates a conforming subdivision',
  'Refining a cube into n intervals per direction enumerates n^dim elements and (n+1)^dim vertices exactly once each, numbered 0.. in order; each element reports as vertex indices exactly the vertices located at its corners, its coordinates are its centre, and vertex coordinates are the grid points. '
  'The geometry of each sub-entity agrees with its reported coordinates and corners.',
  ['inputs', 'configurations'], 'every n >= 1 and every element/vertex, dimension 2..3 (the line is refined as a simplex, C22)',
  'Tests iterate small n and only check volumes; index arithmetic for general n and vertex geometries are not compared.',
  ['refinement/hcube.cc', 'refinement/base.cc', 'refinement.hh'], [('index arithmetic', G + 'refinement/hcube.cc')])

p('C22', 'Simplex refinement enumerates a conforming subdivision',
  'Refining a simplex into n intervals enumerates n^dim elements of equal volume and binomial(n+dim,dim) vertices exactly once each, numbered 0.. in order; each element reports as vertex indices exactly the vertices located at its corners, its coordinates are its centre, all sub-entities lie inside the reference simplex, and vertex coordinates are the lattice points. '
  'The geometry of each sub-entity agrees with its reported coordinates and corners.',
  ['inputs', 'configurations'], 'every n >= 1 and every element/vertex, dimension 1..3',
  'Tests iterate small n and only check volumes and a few vertex positions.',
  ['refinement/simplex.cc', 'refinement/base.cc', 'refinement.hh'], [('Kuhn simplex index arithmetic', G + 'refinement/simplex.cc')])

p('C23', 'Triangulating refinements of cube, prism and pyramid tile the element',
  'Refining a cube, prism or pyramid into simplices enumerates the promised number of elements and vertices, each element reports as vertex indices vertices located at its corners, element volumes are equal and add up to the reference volume, and all sub-entities lie in the closed reference element. '
  'The geometry of each sub-entity agrees with its reported coordinates and corners.',
  ['inputs', 'configurations'], 'every n >= 1, every Kuhn simplex, every element/vertex, dimension 2..3',
  'Tests iterate small n and only check volumes.',
  ['refinement/hcubetriangulation.cc', 'refinement/prismtriangulation.cc', 'refinement/pyramidtriangulation.cc'], [('Kuhn decomposition', G + 'refinement/*triangulation.cc')])

p('C24', 'Run-time refinement selection answers like the compile-time refinement',
  'For every supported pair of element shape and sub-element shape, the run-time selected refinement reports the same counts, indices, coordinates and vertex indices as the corresponding compile-time refinement, and its iterators behave as values under copy, assignment (including self-assignment) and comparison. '
  'Unsupported pairs are rejected with the documented error.',
  ['inputs', 'histories', 'configurations'], 'all topology-id pairs, all positions of the iteration, all copy/assign sequences; dimension 1..3',
  'Tests only iterate through the run-time interface for small n and never copy, assign or compare mid-iteration.',
  ['virtualrefinement.hh', 'virtualrefinement.cc'], [('dispatch and proxies', G + 'virtualrefinement.cc')])

p('C25', 'Vertex order information depends only on the order of the vertex ids',
  'Reducing a list of vertex ids yields, for each position, the number of smaller ids, hence a permutation of 0..n-1 for distinct ids with the same relative order as the ids. '
  'The order information reported for a sub-entity lists the ranks of exactly that sub-entity\'s vertices, so that any two elements sharing those vertices see the same orientation.',
  ['inputs', 'configurations'], 'all vertex id tuples, all sub-entities of all topologies of dimension 1..3',
  'There is no test of the vertex order class.',
  ['generalvertexorder.hh'], [('rank computation', G + 'generalvertexorder.hh reduceOrder, GeneralVertexOrder')])

p('C26', 'Topology factory: run-time topology ids build the matching object',
  'Creating an object for a run-time geometry type through a topology-indexed factory calls the factory\'s creation for exactly that topology, the singleton variant returns the same object for the same key and distinct objects for different geometry types, in every request history.',
  ['inputs', 'histories'], 'all topology ids of dimension 0..3 and all request sequences',
  'No test covers the factory.',
  ['topologyfactory.hh'], [('run-time to compile-time dispatch', G + 'topologyfactory.hh TopologyFactory, TopologySingletonFactory')])

p('C27', 'Python views report what the C++ objects report',
  'Every reference element, quadrature rule and geometry type seen from Python reports the same counts, positions, weights and predicates as the C++ object it wraps.',
  ['inputs'], 'all wrapped objects',
  'The Python tests touch a few accessors.',
  ['type.hh'], [('bindings', 'dune/python/geometry/*.hh')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
