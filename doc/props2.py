prop('R01', 'Reference element topology tables are mutually consistent',
     'For every reference element type the counts, types, node coordinates and the sub-entity / sub-sub-entity relation form one consistent polytope: dimensions add up, every edge of a cell joins the two vertices that the relation reports, and the static and dynamic interfaces agree. Sub-sub-entities are independent of whether they are reached through an edge or directly.',
     'all reference element types, codimensions and sub-entity indices',
     'The tables are consumed by all modules; a wrong entry for one sub-entity of one type is seen only on meshes that contain it in that role.',
     ['lib/lf/base/ref_el.h', 'lib/lf/base/ref_el.cc'], [('topology tables', 'lib/lf/base/ref_el.h SubType, SubSubEntity2SubEntity, NodeCoords')], over=('configurations',),
     observe=['RefEl::SubSubEntity2SubEntity', 'RefEl::SubType', 'RefEl::NodeCoords', 'RefEl::NumSubEntities'],
     note='All combinations enumerated and evaluated by constant propagation through the source.' + TB)
prop('Q01', 'Quadrature rules are exact for the degree they report',
     'make_QuadRule(ref_el, d) returns a rule on ref_el, with points inside it, that integrates every polynomial of degree at most Degree() >= d exactly (every coordinate degree on quadrilaterals). The named rules have the number of points and the order their name or documentation states, and the nodal rule integrates linear functions.',
     'all reference elements, all degrees, all polynomials of the degree',
     'Tests evaluate monomials for a few degrees; the named rules and higher degrees on quadrilaterals are not tested.',
     ['lib/lf/quad/make_quad_rule.cc', 'lib/lf/quad/quad_rules_tria.cc', 'lib/lf/quad/make_quad_rule_nodal.cc'],
     [('hard-coded tables', 'lib/lf/quad/quad_rules_tria.cc'), ('tensor product / Duffy composition', 'lib/lf/quad/make_quad_rule.cc make_QuadRule()')], over=('configurations', 'inputs'),
     observe=['quad::make_QuadRule', 'quad::make_QuadRuleNodal', 'QuadRule::Degree'],
     note='Constant rules: every degree 0..50, decided by constant propagation with tolerance 1e-12. Composed rules: exact identity given the contract of the one-dimensional Gauss rules, degrees 0..7 (segment, quad) and 51..53 (triangle).' + TB)
prop('Q03', 'One-dimensional Gauss rules are accurate',
     'GaussLegendre(n) and GaussJacobi(n, alpha, beta) return nodes and weights that are exact up to rounding for polynomials of degree 2n-1, for every number of points.',
     'all n, alpha, beta', 'Tests check small n only.', ['lib/lf/quad/gauss_quadrature.cc'], [('Newton iteration', 'lib/lf/quad/gauss_quadrature.cc')],
     na='The nodes are limits of a Newton iteration in extended floating point arithmetic; convergence to the right root and rounding error are runtime quantities that no static argument in reach bounds.')
prop('N02', 'The text of mesh files is parsed and written faithfully',
     'The parsers of gmsh files (text and binary, versions 2 and 4) return exactly the contents of the file as GMshFileV2/GMshFileV4, and WriteToFile writes exactly the contents of a VtkFile in the VTK legacy format.',
     'all files', 'Tests read a handful of files.', ['lib/lf/io/gmsh_file_v2.cc', 'lib/lf/io/gmsh_file_v4.cc', 'lib/lf/io/vtk_writer.cc'], [('boost::spirit grammars', 'lib/lf/io/*.cc')],
     na='Parsing is done by boost::spirit grammars (expression templates evaluated at run time); the accepted language and the round trip depend on library code and file contents outside any static argument in reach.')
AB = 'lib/lf/assemble/'
prop('D01', 'Degree-of-freedom numbering is a consistent partition',
     'For every mesh and layout of shape functions, the global indices owned by the entities are disjoint and cover 0..NumDofs()-1, and the local index list of an entity consists of the interior indices of its vertices, edges and itself in that order, edges traversed so that both adjacent cells list the same global index for the same shape function. NumLocalDofs, NumInteriorDofs, GlobalDofIndices, InteriorGlobalDofIndices and Entity(dof) agree with each other.',
     'all meshes, layouts and relative orientations', 'Tests look at a few small meshes with one layout each; mixed layouts with edge degrees and negative orientations are rarely sampled.',
     [AB + 'dofhandler.cc', AB + 'dofhandler.h'], [('index construction', AB + 'dofhandler.cc InitIndexArrays(), DynamicFEDofHandler constructor')], over=('inputs', 'configurations'),
     observe=['DofHandler::GlobalDofIndices', 'DofHandler::InteriorGlobalDofIndices', 'DofHandler::Entity', 'DofHandler::NumDofs'],
     note='Relative orientations are symbolic (all combinations at once); mesh topology and layouts are a set of abstract meshes containing every cell type and shared edges in both directions.' + TB)
prop('A01', 'Assembly adds exactly the local contributions',
     'AssembleMatrixLocally and AssembleVectorLocally add, for every active entity of the given codimension and only those, entry (i,j) of the element matrix to the global entry given by the i-th test and j-th trial index, once. The result has the dimensions of the dof handlers and starts from zero (or the vector passed in).',
     'all meshes, dof handlers, element matrices and activity predicates', 'Tests assemble square Galerkin matrices with all entities active.',
     [AB + 'assembler.h'], [('assembly loops', AB + 'assembler.h')], over=('inputs', 'configurations'), observe=['assemble::AssembleMatrixLocally', 'assemble::AssembleVectorLocally'],
     note='One generic entity of an arbitrary mesh with symbolic indices, activity and element matrix; additionally whole abstract meshes. Local sizes up to 4.' + TB)
prop('A02', 'COOMatrix represents the sum of its triplets',
     'After any sequence of AddToEntry, setZero and conditional setZero, the matrix-vector products, makeSparse, makeDense and the dimensions all agree with the matrix whose entries are the sums of the remaining triplets, for real and complex scalars.',
     'all triplet sequences', 'Tests use few triplets, no repeated entries with predicates and no complex scalars.',
     [AB + 'coomatrix.h'], [('triplet container', AB + 'coomatrix.h')], over=('histories', 'inputs'), observe=['COOMatrix::MatVecMult', 'COOMatrix::makeSparse', 'COOMatrix::makeDense', 'COOMatrix::setZero', 'COOMatrix::AddToEntry'],
     note='Values symbolic; operation sequences and positions enumerated up to a bound.' + TB)
prop('A03', 'Elimination of fixed components keeps the solution',
     'FixFlaggedSolutionComponents, FixFlaggedSolutionCompAlt and FixSolutionComponentsLse replace the equations of the flagged unknowns by x_i = given value and leave the equations for the remaining unknowns equivalent to the original ones with these values inserted. The first keeps a symmetric matrix symmetric.',
     'all matrices, right-hand sides, flag sets and values', 'Tests fix a few components of one matrix.',
     [AB + 'fix_dof.h'], [('row/column elimination', AB + 'fix_dof.h')], observe=['assemble::FixFlaggedSolutionComponents', 'assemble::FixFlaggedSolutionCompAlt', 'assemble::FixSolutionComponentsLse'],
     note='Matrix entries, right-hand side and values symbolic; all flag sets of systems up to dimension 3.' + TB)
FL = 'lib/lf/fe/'
US = 'lib/lf/uscalfe/'
prop('E01', 'Element matrices are the quadrature sums of the weak form',
     'For every cell, the diffusion element matrix is sum_k w_k det_k (grad b_j)^T alpha^T (grad b_i) with row i, the mass and reaction-diffusion and edge mass matrices carry gamma b_i b_j, and load vectors f b_i, with gradients transformed by the inverse Gramian, for scalar, matrix-valued, real and complex coefficients, planar and embedded geometries. The default quadrature has at least twice the degree of the finite element. Edge providers are active exactly on selected edges.',
     'all cells, geometries, coefficients, finite elements and quadrature rules',
     'Tests use scalar or symmetric real coefficients on a few meshes; non-symmetric tensors, complex coefficients, embedded cells and user-supplied rules are not sampled.',
     [FL + 'loc_comp_ellbvp.h', US + 'loc_comp_ellbvp.h', US + 'precomputed_scalar_reference_finite_element.h', US + 'lin_fe.cc'],
     [('quadrature loops', FL + 'loc_comp_ellbvp.h Eval()'), ('precomputed shape functions', US + 'loc_comp_ellbvp.h'), ('analytic linear Laplacian', US + 'lin_fe.cc')],
     over=('inputs', 'configurations'), observe=['DiffusionElementMatrixProvider::Eval', 'MassElementMatrixProvider::Eval', 'MassEdgeMatrixProvider::Eval', 'ScalarLoadElementVectorProvider::Eval', 'ScalarLoadEdgeVectorProvider::Eval', 'ReactionDiffusionElementMatrixProvider::Eval', 'LinearFELaplaceElementMatrix::Eval'],
     note='Opaque geometry, shape functions, coefficient and quadrature values, two quadrature points. LinearFELaplaceElementMatrix: triangles symbolic, quadrilaterals with one free vertex.' + TB)
prop('E02', 'Integration and projection act on exactly the selected entities',
     'IntegrateMeshFunction is the sum over exactly the selected entities of the quadrature of the function (zero if none is selected) with a rule of at least the requested degree. NodalProjection sets the coefficients of the selected cells to the interpolation values and leaves the others zero, InitEssentialConditionFromFunction flags exactly the degrees of freedom of the selected edges, with the interpolated values. NodalProjection works for real and complex functions and spaces in any combination, InitEssentialConditionFromFunction also for real functions on complex spaces.',
     'all meshes, selections, mesh functions and finite element spaces', 'Tests integrate over all cells and project with the default selector.',
     [FL + 'fe_tools.h'], [('loops over entities', FL + 'fe_tools.h')], over=('inputs', 'configurations'), observe=['fe::IntegrateMeshFunction', 'fe::NodalProjection', 'fe::InitEssentialConditionFromFunction'],
     note='All subsets of entities of small abstract meshes with opaque geometry, functions and finite elements.' + TB)
prop('E03', 'Finite element functions evaluate their expansion',
     'MeshFunctionFE returns, at every point of every entity, the sum of the coefficients at the global indices of the entity times its local shape functions. MeshFunctionGradFE returns the gradient of that function in world coordinates, also for embedded entities, and for real and complex coefficients.',
     'all entities, points, coefficient vectors and spaces', 'Tests evaluate linear elements on planar cells at few points.',
     [FL + 'mesh_function_fe.h', FL + 'mesh_function_grad_fe.h'], [('evaluation', FL + 'mesh_function_fe.h operator()'), ('gradient transformation', FL + 'mesh_function_grad_fe.h operator()')], observe=['MeshFunctionFE::operator()', 'MeshFunctionGradFE::operator()'],
     note='Opaque geometry and shape functions, up to three evaluation points.' + TB)

prop('E04', 'Finite element spaces agree with their dof handlers',
     'For HierarchicScalarFESpace and UniformScalarFESpace the shape function layout of every entity has as many shape functions as the dof handler numbers there, and NumRefShapeFunctions agrees with the layout, for every admissible degree. On an edge or vertex shared by two cells the traces of shape functions with the same global index coincide and all others vanish there, for every relative orientation: the space is continuous. Output operators do not abort.',
     'all meshes, degrees per entity, relative orientations',
     'Continuity depends on the combination of dof numbering, orientation handling and shape functions; unit tests check each of them on a few meshes of low degree.',
     ['lib/lf/uscalfe/uniform_scalar_fe_space.h', 'lib/lf/fe/hierarchic_scalar_fe_space.h', 'lib/lf/fe/fe_point.h', 'lib/lf/assemble/dofhandler.cc'],
     [('layout queries', 'lib/lf/fe/hierarchic_scalar_fe_space.h Init(), ShapeFunctionLayout(), NumRefShapeFunctions()'), ('uniform layouts', 'lib/lf/uscalfe/uniform_scalar_fe_space.h init()')], over=('configurations', 'inputs'),
     observe=['ScalarFESpace::ShapeFunctionLayout', 'ScalarFESpace::NumRefShapeFunctions', 'ScalarFESpace::LocGlobMap'],
     note='Abstract meshes with symbolic relative orientation; the real dof handler, spaces and shape functions are interpreted; traces compared as polynomials (modulo the contract of orthogonal polynomials for the hierarchic family).' + TB)
HY = 'lib/lf/mesh/hybrid2d/'
RF_ = 'lib/lf/refinement/'
prop('M01', 'The mesh factory builds the mesh that was described',
     'For every set of nodes, edges and cells passed to hybrid2d::MeshFactory, with or without geometry and with edges in either direction, Build() yields a mesh with exactly these nodes and cells and one edge per pair of neighbouring vertices, numbered as the factory announced. Incidence relations, relative orientations and geometries match along shared edges, entities are contained in their own mesh only, and the completeness check rejects exactly the meshes with unused nodes or edges.',
     'all cell complexes, node positions, supplied geometries, planar or embedded in 3D',
     'Tests build a few planar meshes whose cells all have a geometry and whose edges are implicit.',
     [HY + 'mesh.cc', HY + 'mesh_factory.cc', HY + 'point.cc', HY + 'segment.cc', HY + 'triangle.cc', HY + 'quad.cc'],
     [('edge map and entity construction', HY + 'mesh.cc Mesh::Mesh()'), ('collection of entities', HY + 'mesh_factory.cc')], over=('inputs', 'configurations'),
     observe=['mesh::Mesh::Entities', 'mesh::Mesh::Index', 'mesh::Entity::SubEntities', 'mesh::Entity::RelativeOrientations', 'mesh::Entity::Geometry'],
     note='Node positions symbolic; cell complexes with up to 9 nodes containing all combinations of adjacent cell types; all combinations of present and missing geometries.' + TB)
prop('R04', 'Refinement creates nested conforming meshes',
     'After every refinement step of a MeshHierarchy each entity of the fine mesh is the child of exactly one entity of the coarse mesh, child and parent tables are inverse to each other, the fine mesh is conforming and consistent, and the geometry of each fine entity is the geometry of ParentEntity() applied to GeometryInParent().',
     'all coarse meshes, uniform refinement patterns, numbers of steps', 'Tests check nestedness for a few meshes at sample points.',
     [RF_ + 'mesh_hierarchy.cc', RF_ + 'hybrid2d_refinement_pattern.cc', 'lib/lf/geometry'],
     [('linking of child entities', RF_ + 'mesh_hierarchy.cc PerformRefinement()'), ('relative geometry', RF_ + 'mesh_hierarchy.cc initGeometryInParent()')], over=('inputs', 'histories'),
     observe=['MeshHierarchy::RefineRegular', 'MeshHierarchy::GeometryInParent', 'MeshHierarchy::ParentEntity', 'refinement::GenerateMeshHierarchyByUniformRefinemnt'],
     note='Symbolic node positions, planar and embedded, straight and curved; one or two steps. Interior points of children of quadrilaterals are compared where the child is an axis-parallel part of the parent, otherwise corners only (a straight child of a bilinear cell differs inside by design).' + TB)
prop('R05', 'Local refinement splits the closure of the marked edges',
     'RefineMarked() splits every marked edge, and besides these only edges that must be split because a triangle with a split edge has its refinement edge split. The refinement pattern of every cell matches its split edges, and the new mesh has all the properties of a nested conforming mesh.',
     'all meshes, refinement edges, sets of marked edges and histories of refinement steps', 'Tests mark edges by one geometric predicate on few meshes.',
     [RF_ + 'mesh_hierarchy.cc'], [('propagation of splits', RF_ + 'mesh_hierarchy.cc RefineMarked()'), ('linking of child entities', RF_ + 'mesh_hierarchy.cc PerformRefinement()')], over=('inputs', 'histories'),
     observe=['MeshHierarchy::MarkEdges', 'MeshHierarchy::RefineMarked', 'MeshHierarchy::CellChildInfos'],
     note='Symbolic node positions; six coarse meshes, (nearly) all combinations of marked edges and refinement edges, sampled histories of two to three steps mixed with regular refinement.' + TB)
prop('R06', 'Refinement edges follow the inheritance rules',
     'Triangles of a coarsest mesh, children of barycentric refinement and triangular children of quadrilaterals have their longest edge as refinement edge. A copied triangle keeps its refinement edge, the children of a bisected triangle have the edge opposite to the new node, and the children of regular refinement the edge parallel to that of the parent.',
     'all triangles, refinement edges and refinement patterns', 'Tests never inspect refinement edges of refined meshes.',
     [RF_ + 'mesh_hierarchy.cc'], [('inheritance', RF_ + 'mesh_hierarchy.cc PerformRefinement()'), ('longest edge', RF_ + 'mesh_hierarchy.cc LongestEdge()')], over=('inputs', 'configurations'),
     observe=['MeshHierarchy::RefinementEdges'],
     note='Straight edges; ties between edge lengths leave the choice open. No rule is claimed for children of trisection and quadsection, whose refinement edges deviate from newest-vertex bisection on purpose or not (undocumented).' + TB)
MU = 'lib/lf/mesh/utils/'
prop('R07', 'Transferring mesh functions evaluates them at the ancestors',
     'A mesh function on a coarse level of a mesh hierarchy that is transferred to a finer level with MeshFunctionTransfer takes, at every point of every entity of the finer mesh, the value of the original function on the ancestor of that entity at the corresponding local coordinates. Values of all types are passed on unchanged, each exactly once per point, and getMesh() is the finer mesh.',
     'all hierarchies, level differences, entities and points', 'Tests transfer linear functions over one level.',
     [RF_ + 'mesh_function_transfer.h', RF_ + 'mesh_hierarchy.cc'], [('composition of the relative geometries', RF_ + 'mesh_function_transfer.h operator()')], over=('inputs', 'histories'),
     observe=['MeshFunctionTransfer::operator()', 'MeshFunctionTransfer::getMesh'],
     note='Opaque function, symbolic points; hierarchies of up to four levels by regular, barycentric and local refinement.' + TB)
prop('U01', 'Incidence counts, boundary flags and data sets match the mesh',
     'CountNumSuperEntities counts exactly the super-entities of every entity. flagEntitiesOnBoundary flags exactly the edges adjacent to one cell and the entities contained in their closure. CodimMeshDataSet and AllCodimMeshDataSet store one independent value per entity of the mesh and are defined for exactly the entities of their mesh (and co-dimension).',
     'all meshes, entities, co-dimensions and value types', 'Tests count on one test mesh and flag boundaries of conforming meshes only.',
     [MU + 'special_entity_sets.cc', MU + 'special_entity_sets.h', MU + 'codim_mesh_data_set.h', MU + 'all_codim_mesh_data_set.h'],
     [('counting', MU + 'special_entity_sets.cc CountNumSuperEntities()'), ('boundary', MU + 'special_entity_sets.cc flagEntitiesOnBoundary()')], over=('inputs', 'configurations'),
     observe=['mesh::utils::CountNumSuperEntities', 'mesh::utils::flagEntitiesOnBoundary', 'CodimMeshDataSet::operator()', 'AllCodimMeshDataSet::DefinedOn'],
     note='Enumerated small mesh topologies with opaque entities.' + TB)
prop('U02', 'Mesh function arithmetic is pointwise',
     'Sums, differences, products, negation, squared norm, transpose, adjoint and conjugate of mesh functions return at every point the operation applied to the values of the operands at that point, one value per point, for all combinations of real and complex scalars, user-defined types and Eigen matrices and arrays of fixed or dynamic size and any storage order.',
     'all operand values, numbers of points and supported value types', 'Tests combine a few types with real values; conjugation, storage order and user-defined types are hardly sampled.',
     [MU + 'mesh_function_binary.h', MU + 'mesh_function_unary.h', MU + 'mesh_function_constant.h', MU + 'mesh_function_global.h'],
     [('binary operators', MU + 'mesh_function_binary.h internal::OperatorAddition/Subtraction/Multiplication'), ('unary operators', MU + 'mesh_function_unary.h internal::UnaryOp*')], over=('inputs', 'configurations'),
     observe=['mesh::utils::operator+', 'mesh::utils::operator-', 'mesh::utils::operator*', 'mesh::utils::squaredNorm', 'mesh::utils::adjoint'],
     note='Symbolic values; one to three points; matrices of size at most 3.' + TB)
prop('M02', 'Structured mesh builders tile the rectangle or torus',
     'TPTriagMeshBuilder and TPQuadMeshBuilder build, for any rectangle and any numbers of cells, a conforming mesh whose cells are exactly those of the uniform grid, with the documented numbering. TorusMeshBuilder builds the quadrilateral mesh of the closed torus without boundary. All cells have the geometry spanned by their nodes.',
     'all corners of the rectangle and numbers of cells', 'Tests build square meshes on the unit square.',
     [MU + 'tp_triag_mesh_builder.cc', MU + 'tp_quad_mesh_builder.cc', MU + 'torus_mesh_builder.cc', MU + 'structured_mesh_builder.h'],
     [('grid construction', MU + 'tp_triag_mesh_builder.cc Build(), ' + MU + 'tp_quad_mesh_builder.cc Build()')], over=('inputs', 'configurations'),
     observe=['TPTriagMeshBuilder::Build', 'TPQuadMeshBuilder::Build', 'TorusMeshBuilder::Build'],
     note='Symbolic corners; up to 4x4 cells. The torus is compared numerically (1e-9), for one rectangle.' + TB)
prop('Q02', 'The quadrature rule cache returns the rule of make_QuadRule, once',
     'QuadRuleCache::Get returns for every reference element and degree the rule make_QuadRule would return. Equal requests return the same object, and all references handed out stay valid and unchanged by later requests and by moving the cache.',
     'all sequences of requests and moves', 'No test holds a reference over further requests; a reallocation need not crash a test.',
     ['lib/lf/quad/quad_rule_cache.h', 'lib/lf/quad/quad_rule_cache.cc'],
     [('storage', 'lib/lf/quad/quad_rule_cache.cc Get()'), ('element stability', 'lib/lf/quad/quad_rule_cache.h cache_')], over=('histories', 'inputs'),
     observe=['QuadRuleCache::Get', 'QuadRuleCache::QuadRuleCache(QuadRuleCache&&)'],
     note='All request sequences up to length 3 over a small alphabet, and random longer ones; rules with opaque points and weights; the growth of std::vector invalidates references.' + TB)
prop('N01', 'GmshReader reproduces the mesh and the physical groups of a file',
     'The mesh built by GmshReader contains exactly the cells and edges of the gmsh file (first and second order segments, triangles and quadrilaterals), each with its nodes in order and a geometry through all its gmsh nodes. PhysicalEntityNr(e) is the ascending list of the physical groups the file assigns to e (nodes, edges, cells), IsPhysicalEntity agrees, and name/number lookups return the match of the file for the given co-dimension or throw if there is none or it is ambiguous.',
     'all files of the formats 2 and 4 (numberings, orders, groups)', 'Tests read a few fixed files with consecutive numbering and one group per entity.',
     ['lib/lf/io/gmsh_reader.cc', 'lib/lf/io/gmsh_reader.h', 'lib/lf/io/gmsh_file_v2.cc', 'lib/lf/io/gmsh_file_v4.cc'],
     [('mesh construction', 'lib/lf/io/gmsh_reader.cc InitGmshFile()'), ('group lookup', 'lib/lf/io/gmsh_reader.cc PhysicalEntityName2Nr()/PhysicalEntityNr2Name()')], over=('inputs', 'configurations'),
     observe=['GmshReader::mesh', 'GmshReader::PhysicalEntityNr', 'GmshReader::IsPhysicalEntity', 'GmshReader::PhysicalEntityName2Nr', 'GmshReader::PhysicalEntityNr2Name', 'GmshReader::PhysicalEntities'],
     note='Starts at the parsed file (GMshFileV2/GMshFileV4); the parser is not covered (N02). Enumerated and random small files, symbolic coordinates; edges of the file that are not edges of a cell are not covered.' + TB)
prop('N03', 'VtkWriter describes the mesh and the data exactly as VTK expects',
     'For every order 1 to 10 and co-dimension 0 and 1 the file written by VtkWriter has one VTK cell per entity of the right type whose points are, in VTK order, the images of the Lagrange points of that order; points on common edges and nodes are shared. Point data of a mesh function at each point is its value there, cell data its value at the barycenter; data sets appear with their value at each entity or the given default where they are undefined. Repeated names and names with spaces are rejected.',
     'all meshes, orders, data types and mesh functions', 'Tests only check that files are written, not where points lie or what values they carry.',
     ['lib/lf/io/vtk_writer.cc', 'lib/lf/io/vtk_writer.h'],
     [('points and cells', 'lib/lf/io/vtk_writer.cc VtkWriter::VtkWriter()'), ('auxiliary points', 'lib/lf/io/vtk_writer.cc AuxNodesTria()/AuxNodesQuad()'), ('attribute data', 'lib/lf/io/vtk_writer.h WritePointData()/WriteCellData()')], over=('inputs', 'configurations'),
     observe=['VtkWriter::VtkWriter', 'VtkWriter::WritePointData', 'VtkWriter::WriteCellData', 'VtkWriter::WriteGlobalData'],
     note='Compares the VtkFile handed to WriteToFile; the text encoding is not covered (N02); float rounding is ignored. Enumerated small meshes, symbolic geometry.' + TB)
prop('E05', 'Prolongation interpolates the coarse function on the finer mesh',
     'prolongate() returns, for any hierarchy of regularly or locally refined hybrid meshes and any two finite element spaces on consecutive levels, the coefficients of the fine function that equals the coarse function at every evaluation node of every fine cell. If the coarse function belongs to the fine space (nested spaces), both are the same function everywhere.',
     'all refinement histories, pairs of spaces and coefficient vectors', 'Tests prolongate linear and quadratic functions on one regularly refined mesh.',
     [FL + 'prolongation.h', RF_ + 'mesh_function_transfer.h', FL + 'fe_tools.h'],
     [('prolongation', FL + 'prolongation.h prolongate()')], over=('histories', 'inputs'),
     observe=['fe::prolongate'],
     note='Small base meshes, one or two refinements, Lagrange spaces of degree 1 to 3 with real and complex symbolic coefficients; equality everywhere only on cells whose child maps are affine.' + TB)
prop('H01', 'Headers are self-contained, repeatable and free of strong definitions',
     'Every header of the library and the projects can be included first, alone, repeatedly and in any number of translation units: it declares everything it uses (including the assertion macros), is guarded against repeated inclusion, and defines no function or variable that would be defined twice when two translation units include it.',
     'all headers, inclusion orders and sets of translation units', 'Tests include the headers in one fixed order each, mostly after others that provide the missing declarations.',
     ['lib/lf/base/narrow.h', 'lib/lf/quad/make_quad_rule.h', 'lib/lf/mesh/utils/mesh_function_unary.h', 'lib/lf/uscalfe/precomputed_scalar_reference_finite_element.h'],
     [('all headers', 'lib/lf/*/*.h')], over=('configurations',), observe=['#include <lf/...>'],
     tech='compile-fail witnesses: each header alone and twice, linkage of the definitions in the emitted LLVM IR, unexpanded macros after preprocessing', level='other',
     note='clang 18, C++20 as the build uses; template bodies are not instantiated (that is H02); directories of tests and examples are excluded.')
prop('H02', 'The generic interface can be instantiated as documented',
     'Every documented combination of template arguments compiles: finite elements, spaces, element matrix and vector providers, assembly, COO matrices, mesh functions and their arithmetic, projection, data sets, builders, refinement, input and output, for real and complex scalars, fixed and dynamic sizes, lambdas and function objects. The concepts accept exactly the documented types. Ill-formed uses such as writing through const interfaces are rejected.',
     'all documented combinations of scalars, sizes and functors', 'Templates are only checked where they are instantiated; the tests instantiate most of them for double only.',
     ['lib/lf/fe/loc_comp_ellbvp.h', 'lib/lf/uscalfe/loc_comp_ellbvp.h', 'lib/lf/assemble/assemble_concepts.h', 'lib/lf/mesh/utils/mesh_function_traits.h', 'lib/lf/base/eigen_tools.h', 'lib/lf/mesh/utils/structured_mesh_builder.h'],
     [('templates', 'lib/lf/*/*.h'), ('concepts', 'lib/lf/assemble/assemble_concepts.h, lib/lf/mesh/utils/mesh_function_traits.h, lib/lf/base/eigen_tools.h, lib/lf/base/scalar_concept.h')], over=('configurations',),
     observe=['lf::*'],
     tech='compile-time witnesses (explicit instantiations, static assertions on the concepts) and compile-fail witnesses, type-checked against the current headers', level='other',
     note='A fixed list of witnesses (checks/apiwit.py); decides that they type-check, not what they compute. clang 18 only.')
DP_ = 'projects/dpg/'
prop('P01', 'Product dof handlers number the components consistently',
     'ProductUniformFEDofHandler numbers the degrees of freedom of a product space so that each component owns the contiguous range starting at Offset(component), the local lists of an entity are the lists of the components, shifted, one after another, LocalStartIndex/NumLocalDofs/NumInteriorDofs locate each component in them, and Component(dof) and Entity(dof) invert the numbering. Cells sharing an entity agree on its degrees of freedom.',
     'all meshes, orientations, numbers of components and local layouts', 'Tests use a few layouts on one mesh.',
     [DP_ + 'product_dofhandler.h', DP_ + 'product_dofhandler.cc'], [('numbering', DP_ + 'product_dofhandler.cc ProductUniformFEDofHandler()')], over=('inputs', 'configurations'),
     observe=['projects::dpg::ProductUniformFEDofHandler'], level='other',
     note='Enumerated mesh topologies with symbolic orientations; one to three components.' + TB)
prop('P02', 'DPG tools: normals, boundary rules, signs, boundary flags, conditions',
     'OuterNormals are the unit outward normals of the edges of any triangle or simple quadrilateral, whatever its orientation. BoundaryQuadRule maps a segment rule to every edge. Prescribed signs are opposite on the two sides of an interior edge and +1 on the boundary. Inflow and outflow flags partition the boundary edges by the sign of beta.n. InitEssentialConditionsFromFunctions fixes exactly the selected trace and flux dofs to the nodal interpolant. The posterior error is sqrt((l-Bx)^T G^-1 (l-Bx)) on each cell.',
     'all cell shapes, orientations, fields, selectors and meshes', 'Tests sample a few cells and never fix flux components.',
     [DP_ + 'dpg_tools.h', DP_ + 'dpg_tools.cc'],
     [('normals', DP_ + 'dpg_tools.cc OuterNormals()'), ('boundary rules', DP_ + 'dpg_tools.cc BoundaryQuadRule()'), ('conditions', DP_ + 'dpg_tools.h InitEssentialConditionsFromFunctions()')], over=('inputs', 'configurations'),
     observe=['projects::dpg::OuterNormals', 'projects::dpg::BoundaryQuadRule', 'projects::dpg::PrescribedSignProvider', 'projects::dpg::flagEntitiesOnInflowBoundary', 'projects::dpg::flagEntitiesOnOutflowBoundary', 'projects::dpg::InitEssentialConditionsFromFunctions', 'projects::dpg::ElementErrorEstimators'], level='other',
     note='Quadrilaterals are enumerated (rational corners), triangles symbolic; conditions and errors on small meshes with symbolic coefficients.' + TB)
prop('P03', 'Product finite element spaces have the promised layouts and traces',
     'The factory builds product spaces whose components have shape functions on exactly the entity types their kind promises, spanning the polynomials of the requested degree, with interpolation by their evaluation nodes exact on that space and with correct gradients. Component indices are returned in order for every built space. Global basis functions of H1, trace and flux components take the same values from all cells sharing an edge.',
     'all kinds and degrees of components, meshes and sequences of builds', 'Tests check dimensions and a few degrees; traces across edges of opposite directions are not compared.',
     [DP_ + 'product_fe_space.h', DP_ + 'product_fe_space_factory.h', DP_ + 'discontinuous_scalar_reference_finite_element.h', DP_ + 'trace_scalar_reference_finite_element.h', DP_ + 'discontinuous_fe_constant.h'],
     [('factory', DP_ + 'product_fe_space_factory.h'), ('shape functions', DP_ + 'discontinuous_scalar_reference_finite_element.h, ' + DP_ + 'trace_scalar_reference_finite_element.h')], over=('inputs', 'configurations'),
     observe=['projects::dpg::ProductUniformFESpaceFactory', 'projects::dpg::ProductUniformFESpace'], level='other',
     note='Degrees 0 to 3 (the degrees for which the library has uniform finite elements); small meshes, symbolic points.' + TB)
prop('P04', 'DPG element providers compute the documented element matrices',
     'The diffusion, reaction, convection, flux, trace and load providers of projects/dpg return for every cell the quadrature sums of the documented (bi)linear forms, rows for test and columns for trial functions, with rules of at least the documented degree, outer normals and prescribed signs on the edges. Product providers add the blocks of their active terms at the positions of the components, builders hand out exactly the terms added since the last Build, and the DPG providers return B^T G^-1 B and B^T G^-1 l.',
     'all cells, coefficients, components, degrees and combinations of terms', 'Tests use equal trial and test degrees, constant coefficients and compare a handful of matrices.',
     [DP_ + 'loc_comp_dpg.h', DP_ + 'product_element_matrix_provider.h', DP_ + 'product_element_vector_provider.h', DP_ + 'product_element_matrix_provider_builder.h', DP_ + 'product_element_vector_provider_builder.h', DP_ + 'dpg_element_matrix_provider.h', DP_ + 'dpg_element_vector_provider.h'],
     [('sub providers', DP_ + 'loc_comp_dpg.h'), ('product providers', DP_ + 'product_element_matrix_provider.h'), ('DPG matrix', DP_ + 'dpg_element_matrix_provider.h Eval()')], over=('inputs', 'configurations'),
     observe=['projects::dpg::*ElementMatrixProvider::Eval', 'projects::dpg::*ElementVectorProvider::Eval', 'projects::dpg::ProductElementMatrixProviderBuilder::Build'], level='other',
     note='Opaque geometry and shape functions for the volume terms; real cells with straight edges for the edge terms; the diffusion tensor is symmetric (the documented form is ambiguous otherwise).' + TB)

prop('U03', 'Position selectors test the position of every entity',
     'EntityCenterPositionSelector calls its predicate at the centre of gravity of the corners of the entity (the reference centre mapped to the mesh) for points, segments, triangles and quadrilaterals, exactly once, and returns its verdict.',
     'all entity shapes, positions and predicates', 'Tests use predicates that are insensitive to the exact point.',
     [RF_ + 'mesh_hierarchy.h'],
     [('selector', RF_ + 'mesh_hierarchy.h EntityCenterPositionSelector::operator()')], over=('inputs',),
     observe=['refinement::EntityCenterPositionSelector'],
     note='Opaque geometry: the image of the reference centre is compared, whatever the map.' + TB)

IP_ = 'projects/ipdg_stokes/'
prop('S01', 'Stokes: outward normals, tangentials and annulus meshes',
     'computeOutwardNormals returns the unit outer normals of the three edges of any triangle, whatever its orientation, and computeTangentials the same vectors turned by 90 degrees, hence opposite on the two sides of an edge. AnnulusTriagMeshBuilder builds, for any radii, center and numbers of cells, the annulus with these radii around this center: the nodes on concentric circles, two triangles per cell of the polar grid, closed in the angular direction, with matching geometries.',
     'all triangles, radii, centers and cell numbers', 'Tests use one triangle and never look at node positions.',
     [IP_ + 'mesh/utils.cc', IP_ + 'mesh/annulus_triag_mesh_builder.cc', IP_ + 'mesh/annulus_triag_mesh_builder.h'],
     [('normals', IP_ + 'mesh/utils.cc computeOutwardNormals()'), ('annulus', IP_ + 'mesh/annulus_triag_mesh_builder.cc Build()')], over=('inputs', 'configurations'),
     observe=['projects::ipdg_stokes::mesh::computeOutwardNormals', 'projects::ipdg_stokes::mesh::computeTangentials', 'projects::ipdg_stokes::mesh::AnnulusTriagMeshBuilder::Build'], level='other',
     note='Triangles with symbolic corners; cell numbers of the annulus are enumerated, radii and center symbolic, positions compared numerically (sines of rounded angles).' + TB)
prop('S02', 'Stokes: element matrices, systems and offset function are as documented',
     'The element matrix couples the curl of each hat function with the edges by its tangential component, with -1/sigma (modified: -1/(sigma|e|)) per edge in the assembled matrix; the element vector holds the quadrature sum of f against the curls and the tangential Dirichlet data on boundary edges. The no-flow system is the assembled system with the boundary nodes set to zero. The in/out-flow offset function has the prescribed normal velocity on the boundary (data of zero total flux) and is eliminated from the right hand side.',
     'all triangle meshes, orientations, penalties, forces and data', 'Tests compare a few constant-coefficient matrices and never build an in/out-flow system.',
     [IP_ + 'assemble/piecewise_const_element_matrix_provider.cc', IP_ + 'assemble/piecewise_const_element_vector_provider.cc', IP_ + 'assemble/build_system_matrix.cc', IP_ + 'assemble/offset_function.cc'],
     [('element matrix', IP_ + 'assemble/piecewise_const_element_matrix_provider.cc Eval()'), ('system', IP_ + 'assemble/build_system_matrix.cc'), ('offset function', IP_ + 'assemble/offset_function.cc createOffsetFunction()')], over=('inputs', 'configurations'),
     observe=['projects::ipdg_stokes::assemble::PiecewiseConstElementMatrixProvider::Eval', 'projects::ipdg_stokes::assemble::PiecewiseConstElementVectorProvider::Eval', 'projects::ipdg_stokes::assemble::buildSystemMatrixNoFlow', 'projects::ipdg_stokes::assemble::buildSystemMatrixInOutFlow'], level='other',
     note='Enumerated small triangle meshes with concrete corners; symbolic penalty, forces, data and quadrature rule; simply connected domains for the offset function.' + TB)
prop('S03', 'Stokes: velocities and norms computed from a solution',
     'The coefficients extracted from a solution are those of the nodes, the extracted velocity of each cell and MeshFunctionVelocity at each point are the curl of the potential. L2norm and DGnorm return the square root of the documented sums for every piecewise smooth field and every quadrature rule, whatever the number and arrangement of its points: DGnorm adds to the gradient term the squared jump over every interior edge divided by its length, both sides evaluated at the same points.',
     'all fields, meshes, edge directions and quadrature rules', 'The tests of the norms are not part of the build; examples use one-point rules only.',
     [IP_ + 'post_processing/norms.h', IP_ + 'post_processing/mesh_function_velocity.h', IP_ + 'post_processing/solution_to_mesh_data_set.cc'],
     [('DG norm', IP_ + 'post_processing/norms.h DGnorm()'), ('velocity', IP_ + 'post_processing/solution_to_mesh_data_set.cc extractVelocity()')], over=('inputs', 'configurations'),
     observe=['projects::ipdg_stokes::post_processing::DGnorm', 'projects::ipdg_stokes::post_processing::L2norm', 'projects::ipdg_stokes::post_processing::extractVelocity', 'projects::ipdg_stokes::post_processing::MeshFunctionVelocity'], level='other',
     note='Enumerated small triangle meshes, piecewise linear fields with symbolic coefficients, symbolic rules of one to three points.' + TB)

FK_ = 'projects/fisher_kpp/'
prop('K01', 'Fisher/KPP: Galerkin matrices and Strang splitting up to the final time',
     'assembleGalerkinMatrices returns the stiffness matrix of the diffusion coefficient plus the Robin mass matrix of the boundary edges minus the given non-local matrix, and the mass matrix. StrangSplit::diffusionEvolutionOperator is one SDIRK-2 step of M u\' + A u = 0 of length tau/2 (first call) or tau. StrangSplit::Evolution is the Strang splitting with m steps of length T/m: half a diffusion step, m exact logistic reaction steps separated by full diffusion steps, half a diffusion step, so that both processes evolve over [0,T] exactly. localQuadFunction is the quadrature approximation of the integral over the selected entities, evaluated at the mapped points.',
     'all coefficients, meshes, numbers of steps, final times, growth factors', 'The project has no tests; its programs only write files.',
     [FK_ + 'strangsplitting.h', FK_ + 'strangsplitting.cc'],
     [('time stepping', FK_ + 'strangsplitting.cc StrangSplit::Evolution()'), ('matrices', FK_ + 'strangsplitting.h assembleGalerkinMatrices()')], over=('inputs', 'configurations'),
     observe=['FisherKPP::StrangSplit::Evolution', 'FisherKPP::StrangSplit::diffusionEvolutionOperator', 'FisherKPP::assembleGalerkinMatrices', 'FisherKPP::localQuadFunction'], level='other',
     note='Matrices: small triangle meshes, symbolic affine coefficients and symbolic L. Evolution: the closed form (with a symbolic growth factor) for one to four steps on small meshes with concrete data is compared with the Strang scheme at sample growth factors. localQuadFunction: opaque geometries, symbolic rules and symbolic selections.' + TB)
