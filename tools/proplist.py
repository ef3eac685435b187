FE = "kernel/FE/"
prop("P01", "Quadrature rules are exact up to their advertised order",
     "Every numerical integration rule that can be selected for a reference shape integrates all polynomials up to the order it advertises exactly, its points lie "
     "in the closed reference shape, and asking for a rule of some order never returns one of lower order. The number of points and weights it reports are those it uses.",
     ["inputs", "configurations"], "every shape, every requested order that is offered, every polynomial up to that order",
     "Unit tests integrate a handful of basis functions per rule with loose skip conditions; exactness is a statement about all monomials of all rules.",
     ["kernel/Integration/QuadratureRules/"], [("tables of points and weights", "kernel/Integration/QuadratureRules/GaussQuadratureRulesFor*.cpp"), ("selection", "kernel/Integration/QuadratureRules/AllGaussQuadratureRules.cpp")],
     note="All rules reachable through selection and all rule classes are decided completely (finite tables), up to floating-point tolerance 2e-9.")
prop("P02", "Gradients of scalar basis functions are the derivatives of their values",
     "For every scalar basis function of every set the library creates, the partial derivatives and the gradient it returns are the derivatives of the value it returns, at every "
     "point of the reference element; evaluation through the set and through the function agree.",
     ["inputs"], "every function of every scalar family and order, every point",
     "Tests compare against finite differences at a few points with 1e-5 tolerance; a wrong term that vanishes there, or only occurs at higher order, is missed.",
     [FE], [("eval/evalDeriv pairs", "kernel/FE/BasisFunctions*.cpp"), ("Legendre/Lobatto helpers", "kernel/FE/helperFunctions.cpp")],
     note="Decided as identities of rational functions for orders 0-5 (the orders for which the building blocks are provided).")
prop("P03", "Curl and divergence of vector basis functions match their values",
     "For every vector-valued basis function of every curl-conforming set the library creates, the curl (and the divergence where offered) it returns is that of the vector field it returns, at every point of the reference element.",
     ["inputs"], "every function of every vector-valued family and order, every point",
     "The tests evaluate curls at a few sample points for a few orders only.",
     [FE], [("eval/evalCurl pairs", "kernel/FE/BasisFunctions3DAinsworthCoyle.cpp, BasisFunctions3DNedelec.cpp, BasisFunctions2DNedelec.cpp")],
     note="Decided as identities of polynomials for all orders the sets support.")
prop("P04", "Conforming basis functions are continuous across element boundaries",
     "In a conforming discretisation the functions attached to a vertex, edge or face vanish on every element boundary part not containing it, and functions attached to a shared face or edge have the same "
     "trace seen from both neighbouring elements of the same shape, for every relative orientation of the neighbours. Interior functions vanish on the whole boundary, and all functions of an element together are a basis of the polynomial space of the requested order.",
     ["inputs", "configurations"], "every shape, order, facet, edge and relative orientation; every point of the shared face",
     "No test checks traces for rotated or mirrored neighbours; structured test meshes only contain one or two orientations.",
     [FE, "kernel/Geometry/"], [("createVertex/Edge/Face/Interior sets", "kernel/FE/BasisFunctions*H1Conforming*.cpp"), ("oriented sets", "kernel/FE/OrientedBasisFunctionSet.h")],
     cmd="python3-vt checks/P04.py",
     note="Decided for orders 1-5 on line, square, triangle, cube, tetrahedron and prism sets relative to the face-to-face map the library selects (P08 decides whether that is the right one).")
prop("P05", "Basis function sets span the space they advertise",
     "A basis function set created for a given order consists of linearly independent functions, contains exactly as many as its polynomial space has dimensions and can represent every polynomial of that order.",
     ["inputs", "configurations"], "every family, every order, every polynomial of that degree",
     "Tests count functions in a few cases; nothing checks independence or completeness.",
     [FE], [("set construction loops", "kernel/FE/BasisFunctions*.cpp"), ("building blocks", "kernel/FE/helperFunctions.cpp")],
     cmd="python3-vt checks/P05.py",
     note="Independence and completeness are decided on the abstract polynomials of all functions, orders 0-5. Known findings: prism sets of order 3-5 and the fifth Lobatto polynomial.")
prop("P06", "Reference shapes describe themselves consistently",
     "For each reference shape the corner coordinates, centre, measure, dimension, point-membership test, and the lists of corners of its facets and edges all describe the same convex polytope; every facet and edge is listed exactly once with its right shape.",
     ["inputs"], "every shape, every facet and edge, every point for membership",
     "Tests probe membership on a coarse grid and compare a few table entries with themselves.",
     ["kernel/Geometry/"], [("reference geometries", "kernel/Geometry/Reference*.cpp")],
     note="Tables decided completely; the membership predicate on a grid including the boundary planes.")
prop("P07", "Maps from reference faces and edges into elements follow the corner lists",
     "The map from a reference face (or edge) into a reference element sends each corner to the element corner listed for that face, its Jacobian is the derivative of the map, and the normal obtained from it points out of the element.",
     ["inputs"], "every shape, facet, edge and point",
     "Tests sample individual maps; nothing ties them to the corner lists or checks the outward normal of all of them.",
     ["kernel/Geometry/Mappings/"], [("face maps", "kernel/Geometry/Mappings/MappingToRef*.cpp"), ("outward sign", "kernel/Geometry/Mappings/OutwardNormalVectorSign.h")],
     note="Decided as polynomial identities for all maps.")
prop("P08", "Both sides of a face agree on the position of a point",
     "For every way the corners of a shared face can be ordered on its two sides, the coordinate transformation selected between the sides takes each corner to the corner with the same physical node, so both neighbours evaluate at the same physical point.",
     ["inputs", "configurations"], "every face shape, every admissible relative ordering, every point of the face",
     "Structured meshes only exercise a few orderings, and the existing tests pin two wrong ones.",
     ["kernel/Geometry/"], [("orientation index", "getCodim0MappingIndex in kernel/Geometry/Reference*.cpp"), ("orientation maps", "kernel/Geometry/Mappings/MappingToRef*To*.cpp")],
     note="All symmetric orderings of point, line, triangle and square faces; cubic faces for the orderings the library accepts. Known findings: two rotations of a square face, seven orientations of cubic faces (4D).")
prop("P09", "Elements are mapped to physical space through their corners",
     "The map from a reference element to a physical element takes reference corner i to the position of node i, reproduces affine placements exactly, has as Jacobian the derivative of the map, and restricted to a facet depends only on that facet's nodes (so neighbours meet without gaps). After the nodes move and the map is reinitialised it describes the new positions, a copy describes the same element, and for simplices the inverse map undoes it.",
     ["inputs", "histories"], "every element shape (incl. quadratic ones), all node positions, every reference point",
     "Tests use a few fixed elements and points; a wrong Jacobian term that vanishes for undistorted elements is not seen.",
     ["kernel/Geometry/Mappings/", "kernel/Geometry/"], [("maps", "kernel/Geometry/Mappings/MappingToPhys*.cpp"), ("selection", "kernel/Geometry/ElementGeometry*.cpp")],
     note="Identities of rational functions in the reference point and all node coordinates. Not decided: the inverse of non-affine maps (Newton iteration).")
prop("P10", "Refinement splits an element into sub-elements that tile it",
     "Each refinement pattern maps its sub-elements into the parent so that they cover it exactly once, new nodes and sub-element corners agree with the transformation, and the patterns induced on faces are those the sub-elements produce there. The transformation matrices to and from a sub-element describe the same map.",
     ["inputs", "configurations"], "every pattern, sub-element, facet and point",
     "Unit tests check a few patterns at a few points.",
     ["kernel/Geometry/Mappings/"], [("refinement maps", "kernel/Geometry/Mappings/RefinementMapsFor*.h/.cpp")],
     note="All patterns decided completely as polynomial identities. Known findings: several cube, triangle and prism patterns whose matrices or face patterns disagree with their transformations.")
prop("P11", "Time integrators have the order of accuracy they advertise",
     "Every explicit Runge-Kutta method offered satisfies all order conditions up to the order it advertises, evaluates its stages at the times that belong to them, offers an error estimate of one order lower when it has one, and is strong-stability preserving when labelled total-variation diminishing. Asking for a method of some order and number of stages returns such a method.",
     ["inputs"], "every method in the registry, every ordinary differential equation",
     "Tests integrate one or two test equations with a time-independent right-hand side or not at all.",
     ["kernel/Base/TimeIntegration/"], [("tableaux", "kernel/Base/TimeIntegration/*.h"), ("registry", "kernel/Base/TimeIntegration/AllTimeIntegrators.cpp")],
     note="Decided completely through the rooted-tree order conditions (finite per order).")
prop("P12", "Fixed-size vectors, matrices and points compute what their operators say",
     "Every operation of the fixed-size vectors, matrices, Jacobians and points - element access, copy, move, sum, difference, scaling, axpy, products, transpose, rows, columns, determinant, inverse, solve, LU, wedge and cross products, norms, inner products, conversions - yields in every entry the value of its mathematical definition, leaves its operands alone unless it is an assignment, works when operands alias, and orderings are strict lexicographic orders consistent with equality.",
     ["inputs"], "every size instantiated by the library (up to 4), all real and complex entries",
     "Tests use single matrices with small integer entries, and several operations (4x4, mixed real/complex, aliasing) are never called.",
     ["kernel/LinearAlgebra/", "kernel/Geometry/"], [("templates", "kernel/LinearAlgebra/SmallMatrix.h, SmallMatrix_impl.h, SmallVector.h"), ("points", "kernel/Geometry/Point*.h")],
     note="Entrywise identities of rational functions with all entries symbolic; LAPACK and BLAS are represented by models of their specification (elimination without pivoting).")
prop("P13", "Run-time sized vectors and matrices compute what their operators say",
     "Every operation of MiddleSizeVector and MiddleSizeMatrix - construction, access in column-major order, resize, copy, move, sums, scaling, axpy, matrix-matrix and matrix-vector products for rectangular shapes, transpose, concatenation, rows, columns, inverse, LU, linear and triangular solves on either side plain/transposed/Hermitian, Cholesky, least squares, norms - has the right shape and the defined value in every entry, leaves const operands alone, and passes the external routines the arguments they expect.",
     ["inputs", "configurations"], "rectangular shapes, all real and complex entries, both scalar builds",
     "Rectangular/transposed/right-hand variants of the solvers have no or single-instance tests.",
     ["kernel/LinearAlgebra/"], [("operations", "kernel/LinearAlgebra/MiddleSizeMatrix.cpp"), ("vectors", "kernel/LinearAlgebra/MiddleSizeVector.cpp")],
     note="Entrywise identities of rational functions, eight rectangular shapes and orders 1-3, real and complex; external routines by specification models.")
prop("P14", "Function values are transformed to physical space by the right Piola maps",
     "For every non-singular Jacobian J, in every dimension offered: the H1 transformation leaves values alone and turns a reference gradient g into the physical gradient J^-T g; the H(curl) transformation turns v into J^-T v and a curl c into J c / det J (2D: c / det J in the first component, zero in the second); the H(div) transformation turns v into J v / det J and a divergence d into d / det J; and the transformation data return the Jacobian, its transpose and its determinant.",
     ["inputs"], "all non-singular Jacobians and reference values",
     "Unit tests use a few diagonal or fixed Jacobians, for which transposes, inverses and determinants coincide or cancel.",
     ["kernel/Base/H1ConformingTransformation.h", "kernel/Base/HCurlConformingTransformation.h", "kernel/Base/HDivConformingTransformation.h", "kernel/Base/CoordinateTransformationData.h"],
     [("H1", "kernel/Base/H1ConformingTransformation.h"), ("H(curl)", "kernel/Base/HCurlConformingTransformation.h"), ("H(div)", "kernel/Base/HDivConformingTransformation.h")],
     note="Polynomial identities with a fully symbolic Jacobian, dimensions 1-4 (H1) and 2-3 (vector).")
prop("P15", "Physical elements and faces always show the current element, point and map",
     "After any sequence of setElement/setFace, setPointReference, setQuadratureRule, setQuadraturePointIndex and setTransformation/setTransform calls, every accessor of PhysicalElement and PhysicalFace (geometry, Jacobians, basis function values, gradients, curls, divergences and products with the normal, solution and its gradient, sizes and index conversions) returns the value defined by the current element or face, point, transformation and unknown - whatever was cached before, whether or not the elements have the same number of functions, through a quadrature rule as at a free point - and result storage starts at zero with the current size. On a face the functions of the right element follow those of the left one, take the opposite normal, and are turned along with a rotated periodic face.",
     ["histories", "inputs"], "histories of setter calls with changing elements, faces, points, rules and transformations; all geometries, points and function values",
     "The caches only go stale for particular orders of calls and for meshes whose elements differ; tests use fresh objects on uniform meshes.",
     ["kernel/Base/PhysicalElement.h", "kernel/Base/PhysicalElement_Impl.h", "kernel/Base/PhysicalFace.h", "kernel/Base/PhysicalFace_Impl.h", "kernel/Base/LazyCached.h", "kernel/Integration/QuadratureRules/GaussQuadratureRule.cpp"],
     [("element", "kernel/Base/PhysicalElement_Impl.h"), ("face", "kernel/Base/PhysicalFace_Impl.h"), ("rule caches", "kernel/Integration/QuadratureRules/GaussQuadratureRule.cpp")],
     note="Setter histories of up to 8 steps are enumerated; node positions, points, function values and coefficients are indeterminates. The solution accessors are decided for unknowns that share a basis function set (the library rejects others); side-wise solution gradients are not compared on rotated faces.")
prop("P16", "Evaluations cached by quadrature rules equal fresh evaluations",
     "A basis function value, gradient, vector value, curl or divergence requested through a quadrature rule - in the interior of an element, through the map of a face, or through that map preceded by a face orientation - equals the function evaluated at the (mapped) quadrature point, for every function, point, face and orientation, in whatever order values are requested, for several basis function sets on the same rule, and also when a set has been destroyed and another one was created at the same address.",
     ["histories", "inputs", "configurations"], "every shape, face and orientation; sequences of requests including destruction and re-creation of sets; all function values",
     "A table keyed on too little only returns a wrong value when two faces, orientations or sets collide; unit tests use one set on one element.",
     ["kernel/Integration/QuadratureRules/GaussQuadratureRule.cpp", "kernel/Integration/QuadratureRules/GaussQuadratureRule.h", "kernel/Geometry/Mappings/ConcatenatedMapping.h", "kernel/FE/BasisFunctionSet.cpp"],
     [("caches", "kernel/Integration/QuadratureRules/GaussQuadratureRule.cpp"), ("unregistration", "kernel/FE/BasisFunctionSet.cpp")],
     note="Enumerates all shapes, faces and orientations for order-2 rules, first, middle and last points, five phases of a set history. Functions are opaque (independent indeterminates).")
prop("P17", "Element and face integrals are the quadrature sums they stand for",
     "ElementIntegral::integrate and FaceIntegral::integrate/integratePair return the sum over the points of the given rule (or of the default rule of the element or face) of weight times |det J| (faces: the length of the normal vector; 1 when scaling is off) times the integrand evaluated at that point, for every kind of result (scalar, complex, vectors, matrices, face matrices, pairs, integrand objects), whatever was integrated before with the same object. The default rule of an element or face is for its shape and exact at least up to twice the highest basis function order of the adjacent elements, in whatever order the basis functions were assigned and the faces created.",
     ["inputs", "histories"], "all element shapes incl. distorted, mirrored and quadratic ones; internal and boundary faces; all integrands; sequences of integrals",
     "Tests integrate constants and simple functions on undistorted elements with fresh integrators, so stale points, missing weights or Jacobians of one point, or too low default orders next to another element are not seen.",
     ["kernel/Integration/", "kernel/Base/Element.cpp", "kernel/Base/Face.cpp"], [("element integral", "kernel/Integration/ElementIntegral_Impl.h"), ("face integral", "kernel/Integration/FaceIntegral_Impl.h"), ("default rules", "kernel/Base/Element.cpp, kernel/Base/Face.cpp")],
     note="Node positions are free indeterminates for simplices, a one-parameter family (2D) or distorted numeric elements, plain and mirrored (3D) otherwise. ElementIntegral::referenceElementIntegral does not compile when instantiated and is not covered.")
prop("P18", "Faces see both elements consistently and have outward normals",
     "For every face between two elements, whichever local faces meet and however their corners are numbered: a reference point of the face is mapped to the same physical point from the left and from the right element; the normal vector is outward from the left element, orthogonal to the tangents of the face and scaled by the ratio of the area elements (also for distorted and mirrored elements); a boundary face, a face that gets its second element later and a periodic face (with copied nodes) obey the same rules; and the diameter and boundary type reported are those of the face.",
     ["inputs", "configurations", "histories"], "all pairs of local faces, all matching corner orderings, all element shapes incl. distorted and mirrored ones, every point of the face",
     "Meshes in tests are structured, so only a few of the pairings and orderings of local faces occur.",
     ["kernel/Geometry/FaceGeometry.h", "kernel/Geometry/FaceGeometry.cpp", "kernel/Base/Face.cpp"],
     [("normals and maps", "kernel/Geometry/FaceGeometry.h"), ("orientation", "kernel/Geometry/FaceGeometry.cpp")],
     note="Enumerates pairs of local faces and corner orderings of every shape; geometry is symbolic for simplices, numeric distorted elements otherwise (points of the face symbolic). Orderings of square faces hit by the P08 finding are excluded.")
prop("P19", "Data and degrees of freedom attached to elements and faces keep their places",
     "Every numbering of local degrees of freedom (element: function and unknown; face: side, function and unknown; per-unknown offsets of indexings) is a bijection onto 0..n-1 that its inverse undoes, whatever the numbers of functions per unknown and side. Matrices, vectors, solution data per time level and time integration vectors stored on an element or face under an index or identifier are returned unchanged under that index only, survive copies independently, and the parts of a face matrix or vector that belong to left/left, left/right, right/left and right/right pairs are those of the full matrix.",
     ["inputs", "histories", "configurations"], "all numbers of unknowns and functions per side up to 3-4, all values, sequences of stores, resizes and copies",
     "Tests have one unknown or equal numbers of functions on both sides, so that wrong offsets coincide with the right ones.",
     ["kernel/Base/ElementData.cpp", "kernel/Base/FaceData.cpp", "kernel/Base/FaceMatrix.cpp", "kernel/Base/ElementBasisFunctions.cpp", "kernel/Utilities/ElementLocalIndexing.cpp", "kernel/Utilities/FaceLocalIndexing.cpp", "kernel/Utilities/Table2D.h"],
     [("element storage", "kernel/Base/ElementData.cpp"), ("face storage", "kernel/Base/FaceData.cpp, kernel/Base/FaceMatrix.cpp"), ("indexing", "kernel/Utilities/ElementLocalIndexing.cpp, FaceLocalIndexing.cpp")],
     note="Numbers of unknowns and functions are enumerated, stored values are indeterminates.")

prop("P20", "Output files describe the mesh and the fields that were written",
     "A VTK file lists every element of the mesh exactly once, as a cell of the right type and order whose points are in the order the format prescribes and with positive orientation; every point lies where the element maps the reference point at which its data was evaluated; scalar, vector (padded with zeros) and tensor arrays hold the field at the requested time level, have the announced numbers of components and bytes and are encoded losslessly; the master file names the pieces of all processes and declares the same arrays as the pieces; the time series lists every written time once with its own file. Tecplot zones and gnuplot blocks announce the numbers of points and elements they hold, degenerate (collapsed) cells still cover the element exactly once, and coordinates, data and connectivity belong together, also in zones that share the geometry of the previous one.",
     ["inputs", "configurations", "histories"], "all shapes and (mixed) meshes, orders 1-6, all node positions and fields, ranks, sequences of writes",
     "Tests compare a few files of one uniform mesh with one scalar field on one process against stored copies; nothing tests vectors, tensors, mixed meshes, time series, several processes or the Tecplot cells.",
     ["kernel/Output/VTKSpecificTimeWriter_Impl.h", "kernel/Output/VTKTimeDependentWriter.h", "kernel/Output/VTKLagrangeTriangle.cpp", "kernel/Output/VTKLagrangeTetrahedron.cpp", "kernel/Output/VTKLagrangeHexahedron.cpp", "kernel/Output/base64.cpp", "kernel/Output/TecplotDiscontinuousSolutionWriter_Impl.h", "kernel/Output/TecplotPhysicalGeometryIterator.cpp", "kernel/Output/GNUPlotDiscontinuousSolutionWriter_Impl.h"],
     [("VTK", "kernel/Output/VTKSpecificTimeWriter_Impl.h"), ("cells", "kernel/Output/VTKLagrange*.cpp"), ("Tecplot", "kernel/Output/TecplotPhysicalGeometryIterator.cpp")],
     note="Enumerates orders 1-6 in 1D/2D and 1-5 in 3D on small mixed meshes with free node positions and opaque affine fields; streams and the mesh container are stand-ins. The Base64 encoder is decided by constant propagation on single-bit and patterned buffers of up to 9 bytes.")

prop("P21", "A process reads exactly its part of the mesh a file describes",
     "After reading a mesh file each process holds exactly the elements it owns and those sharing a node with them, each with the vertices (coordinates in local order), zone and owner the file gives; every face, edge and node of these elements exists once, knows exactly its neighbouring elements and their local numbers, and is known by them; both sides of a face match its vertices, edge orientations agree between elements; faces are classified correctly as boundary, internal, periodic, between processes or partial; the owner of each face, edge and node is the process of its first element; numbers of entities are the same on every process and never shared by two entities; and the list of elements a process sends to another is the list, in the same order, the other one expects.",
     ["inputs", "configurations", "schedules"], "all meshes (shapes, numbering, periodic connections, zones), partitions and processes",
     "Tests read a few structured meshes on one process; partitioned reading, ghost layers, periodic and mixed partitioned meshes are not run at all.",
     ["kernel/Base/MeshManipulator_Impl.h", "kernel/Base/MeshFileInformation.cpp", "kernel/Base/Mesh_Impl.h", "kernel/Base/Submesh.cpp", "kernel/Base/Node.cpp", "kernel/Base/Edge.cpp", "kernel/Base/Face.cpp"],
     [("readMesh", "kernel/Base/MeshManipulator_Impl.h"), ("header", "kernel/Base/MeshFileInformation.cpp"), ("push and pull lists", "kernel/Base/Submesh.cpp")],
     note="Enumerates 22 small meshes: 1D, 2D (squares, triangles, mixed), 3D (cubes, tetrahedra, mixed), turned numberings, periodic, 1-4 processes (one without elements), both format versions, built with and without MPI; coordinates are indeterminates. The matching of square faces in a quarter turn is P08's known finding and not repeated here. Message passing and input streams are stand-ins.")

prop("P22", "Every degree of freedom has one global number, the same on every process",
     "After GlobalIndexing is (re)built on a distributed mesh, the basis functions of the included unknowns on all elements, faces, edges and nodes carry the numbers 0..N-1, each exactly once; every process that knows an entity - its own or a ghost - gives its functions the same numbers, whatever the order in which messages arrive, and no process waits forever; the numbers follow the requested layout (one contiguous range per process in rank order; within it, or globally, one contiguous range per unknown); each process numbers its own functions 0..n-1 locally in the same order, converts global to local numbers accordingly (-1 for others); and the number lists of an element or face used for assembly name, per unknown, the functions of the element, its faces, edges and nodes in the local order of the element (left element before the right one).",
     ["inputs", "configurations", "schedules", "histories"], "all meshes, partitions, numbers of functions per entity and unknown, subsets of unknowns, layouts and message orders",
     "Tests run on one process only; the exchange of ghost numbers, the offsets of other processes and the serial build without MPI are never executed.",
     ["kernel/Utilities/GlobalIndexing.cpp", "kernel/Utilities/GlobalIndexing.h", "kernel/Base/Submesh.cpp", "kernel/Base/MeshManipulator_Impl.h"],
     [("numbering", "kernel/Utilities/GlobalIndexing.cpp"), ("exchange", "kernel/Utilities/GlobalIndexing.cpp communicatePushPullElements")],
     note="Enumerates 21 small meshes on 1-4 processes (one with an empty process), DG and mixed conforming/DG spaces of up to three unknowns, three layouts, three subsets, rebuilt and fresh indexings, with and without MPI. Receives from any source take the lowest or the highest sender first; sends are buffered.")
prop("P23", "Assembled global matrices and vectors are the sums of the local contributions",
     "After construction, reinit or assemble, a global matrix holds for every pair of global degrees of freedom the sum over all elements of their element matrices and over all faces of their face matrices - each element and each face counted exactly once, however the mesh is distributed - placed at the global numbers of the "
     "functions (rows from the row indexing, columns from the column indexing), and a global vector the corresponding sum of element and face vectors; negative ids leave out that part. The space reserved per row suffices for all entries that are inserted, so PETSc accepts every entry. The rows listed for a boundary face are those of the functions on "
     "the face, its edges and its nodes, each once. Constructing a vector from the time integration vectors of the elements and writing it back moves every coefficient (or those of one unknown only) between its global number and its place in every element, ghosts included.",
     ["inputs", "configurations", "schedules", "histories"], "all meshes, partitions, indexings, couplings and local matrices",
     "Tests assemble on one process and look at solution errors of small problems; parallel assembly, ghost values and preallocation of mixed spaces are never executed.",
     ["kernel/Utilities/GlobalMatrix.cpp", "kernel/Utilities/GlobalVector.cpp", "kernel/Utilities/SparsityEstimator.cpp"],
     [("matrix assembly", "kernel/Utilities/GlobalMatrix.cpp assemble, reinit, getMatrixBCEntries"), ("vector assembly", "kernel/Utilities/GlobalVector.cpp"), ("reserved space", "kernel/Utilities/SparsityEstimator.cpp")],
     note="21 small meshes on 1-4 processes, seven combinations of spaces, unknowns, layouts and face couplings; local matrices are symbolic, so all values are covered. PETSc is modelled (contiguous row ownership, ADD_VALUES, ghosted vectors). Known finding: BLOCKED_GLOBAL on several processes reserves too little space.")
prop("P24", "Explicit time stepping advances the discretised equations, on any partition",
     "In one explicit Runge-Kutta step every stage hands the user's element and face functions the combination of the old solution and earlier stages given by the Butcher tableau - of the element itself and, for faces, of both neighbours, also where a neighbour lives on another process - at the time of the stage; every element and every side of every "
     "face contributes exactly once, and the solution afterwards is the old one plus the weighted stages. The same holds for the linear variant, which multiplies stored matrices and vectors, and for projecting the initial solution, solving the mass matrix equations, the total and the largest error, which all processes know, and the predefined mass matrices, projections, source terms, stiffness and face matrices. An adaptive step is accepted only "
     "with an estimated error within the tolerance and every process takes the same step. A solve starts at the initial time, ends exactly at the final time, never steps past a requested output time, writes the requested number of equidistant frames, and runs the user's tasks before and after every step.",
     ["inputs", "configurations", "schedules", "histories"], "all meshes, partitions, Butcher tableaus, times and step sizes, all user functions",
     "Tests run single applications on one process and compare error norms; ghost synchronisation between stages, and the time bookkeeping at the end of an interval, are not exercised.",
     ["kernel/Base/HpgemAPIBase_Impl.h", "kernel/Base/HpgemAPISimplified_Impl.h", "kernel/Base/HpgemAPILinear_Impl.h"],
     [("right-hand sides and stages", "kernel/Base/HpgemAPISimplified_Impl.h"), ("stored matrices", "kernel/Base/HpgemAPILinear_Impl.h"), ("ghosts and scaling of vectors", "kernel/Base/HpgemAPIBase_Impl.h synchronize, scaleVector, copyTimeIntegrationVector")],
     note="21 small meshes on 1-4 processes; tableau, times and data are symbols, so all their values are covered; user functions are opaque. Three-stage tableaus; solve() is followed for given interval lengths and step sizes. Message passing is modelled (buffered sends).")
prop("P25", "Steady-state solves pose the assembled problem and distribute its solution",
     "Solving a linear steady-state problem gives the linear solver exactly the matrix and right-hand side that are the sums over the mesh of the user's element and face matrices and vectors, each once, on any partition; afterwards every element, ghosts included, holds the coefficients the solver returned for its own "
     "functions, and the error computation and output see that solution.",
     ["inputs", "configurations", "schedules"], "all meshes and partitions, all local matrices and source terms, every answer of the solver",
     "Tests solve small problems on one process and look at the error norm.",
     ["kernel/Base/HpgemAPILinearSteadyState_Impl.h"], [("solve", "kernel/Base/HpgemAPILinearSteadyState_Impl.h solveSteadyStateWithPetsc")],
     note="21 small meshes on 1-4 processes, local contributions and the solver's answer are symbols. PETSc and the solver are modelled.")
prop("P26", "Mesh files written by the Preprocessor describe the mesh it was given",
     "The file the Preprocessor writes for a mesh contains exactly its elements with their shapes, zones and coordinates per corner, every node, edge and face of the mesh exactly once with all the elements around it and the right local numbers, the requested partition and, per process, the elements it needs. Periodic connections identify exactly the requested "
     "nodes and whatever follows from them. The structured-mesh source yields a conforming mesh of the requested box with the requested number of elements and periodic directions. A file that is read and written again describes the same mesh.",
     ["inputs", "configurations"], "all meshes, element shapes, partitions and periodic connections",
     "Tests compare a few files for structured meshes, or only the number of entities.",
     ["applications/Preprocessor/lib/"], [("connectivity", "applications/Preprocessor/lib/mesh/"), ("merging", "applications/Preprocessor/lib/MergePlan.h, TransformationConnector.h"), ("output", "applications/Preprocessor/lib/output_impl.h")],
     note="21 small meshes with every supported shape (each in up to five ways) and 21 structured boxes; complete comparison of the written text.")
prop("P27", "A mesh read from a Gmsh file is the mesh of the file",
     "Reading a Gmsh (2.2, ASCII) file yields the elements of the highest dimension with the corners the file gives them (translated to hpGEM's order for every shape, including second-order simplices), the coordinates of the nodes whatever their numbering, the zone named or numbered by the physical group, and the periodic "
     "connections of the file; lower-dimensional elements and unknown sections are skipped.",
     ["inputs"], "all valid files: element shapes, node numberings, tags, section orders",
     "Tests read a few files with consecutive node numbers.",
     ["applications/Preprocessor/lib/"], [("reader", "applications/Preprocessor/lib/gmsh.cpp, gmsh.h")],
     note="Every supported shape, four styles of files for every test mesh, hand-made periodic sections; the mesh is compared completely.")
prop("P28", "DG-Max discretisations assemble the forms they are defined by",
     "The element matrices of DG-Max (mass with permittivity, curl-curl stiffness with inverse permeability, projector, coupling with the potential), its face matrices (interior penalty with the stabilisation parameter, or Brezzi lifting fluxes; boundary conditions including impedance), its boundary and source vectors (zero where no function is "
     "given), fields, curls and output, error norm, integrals over faces, energy fluxes and the rescaled systems (inverted or orthogonalised mass matrix) are those of their definitions, for scalar and tensor (PML) materials that may differ between both sides of a face, in two and three dimensions.",
     ["inputs", "configurations"], "all materials, basis functions, sources, boundary conditions and stabilisation parameters",
     "The tests compare a few eigenvalues and error norms in vacuum, where permeability is one and materials do not jump.",
     ["applications/DG-Max/Algorithms/DGMaxDiscretization.cpp", "applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp"],
     [("DGMax", "applications/DG-Max/Algorithms/DGMaxDiscretization.cpp"), ("DivDGMax", "applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp"), ("materials", "applications/DG-Max/ElementInfos.cpp")],
     note="Two triangles and two tetrahedra; values of basis functions, materials and sources are symbols, so the identities hold for all of their values. All boundary conditions and all combinations of Brezzi fluxes.")
prop("P29", "The function space chosen for a mesh is what every element carries",
     "After a monomial, discontinuous, Nedelec, Ainsworth-Coyle or conforming space of some order is chosen for a mesh - for all unknowns or unknown by unknown, also when an earlier choice is replaced - the functions of each unknown on each element of each shape are a basis of that space, are counted "
     "with the element, face, edge or node they are attached to, and are the same on every process that knows the element. In a conforming space the functions attached to a shared node, edge or face have equal values on both sides at every point of every internal face, and all other functions vanish on the face.",
     ["inputs", "configurations"], "all meshes, orientations of neighbours, partitions, orders and points on faces",
     "Tests use structured meshes in which all neighbours are oriented alike, on one process.",
     ["kernel/Base/MeshManipulator_Impl.h", "kernel/Base/Element.cpp", "kernel/FE/"],
     [("choice of functions", "kernel/Base/MeshManipulator_Impl.h use*BasisFunctions"), ("functions of an element", "kernel/Base/Element.h"), ("orientation", "kernel/FE/OrientedBasisFunctionSet.h")],
     cmd="python3-vt checks/P29.py",
     note="22 small meshes with turned, mirrored, mixed and periodic neighbours on 1-4 processes; order 3 (4 on tetrahedra, 2 on prisms, 1 with pyramids); points are symbolic. Square faces with a quarter turn are left out (known finding of P08).")
prop("P30", "The applications assemble the forms of the equations they solve",
     "TutorialPoisson and PoissonTest assemble the symmetric interior-penalty form of the Laplacian (Dirichlet conditions where x is 0 or 1, Neumann conditions elsewhere, a penalty above the stated bound); TutorialAdvection the weak form of advection with upwind fluxes (the mean where the flow is along the face); AcousticWave and "
     "AcousticWaveLinear the mass matrix weighted with the material parameter, the projected initial solution, and the strong form of the wave equation with central fluxes inside and reflecting boundaries, the one as a right-hand side and the other as the matrices of the same operator; Euler the inviscid fluxes of the state given by the coefficients it is called with. "
     "This holds for all basis functions, coefficients and sides of a face, whatever solution is stored in the elements.",
     ["inputs", "configurations"], "all basis functions, coefficients, material parameters and orientations of faces",
     "Only a few of the applications are run by tests, on structured meshes, with one comparison of the error at the end.",
     ["applications/TutorialPoisson/", "applications/PoissonTest/", "applications/TutorialAdvection/", "applications/ExampleMultipleVariableProblem/", "applications/Euler/"],
     [("Poisson", "applications/TutorialPoisson/main.cpp, applications/PoissonTest/main.cpp"), ("advection", "applications/TutorialAdvection/main.cpp"), ("acoustic waves", "applications/ExampleMultipleVariableProblem/AcousticWave_Impl.h, AcousticWaveLinear_Impl.h"), ("Euler", "applications/Euler/Euler_Impl.h")],
     note="Lines, triangles and tetrahedra; basis functions, coefficients and materials are symbols. The Riemann fluxes of Euler and the manufactured sources are not covered.")
na("P90", "Iterative solvers and eigenvalue solvers converge to the solution",
   "The linear, nonlinear and eigenvalue solvers used by the applications return the solution of the system they are given within the requested tolerance.",
   ["inputs"], "all well-posed systems", "Convergence on the tests' systems says nothing about others.", ["kernel/Base/", "applications/DG-Max/ProblemTypes/"], [("solver calls", "applications/DG-Max/Algorithms/")],
   "Convergence depends on runtime quantities (spectra, conditioning) inside PETSc/SLEPc, whose source is not in the repository; no static argument bounds them. That the right system is handed over and its answer distributed is claimed (P23, P25).")
na("P91", "Inverse mappings of curved elements converge",
   "For every physical point inside a non-simplicial element, the inverse of the reference-to-physical mapping returns the reference point that maps to it.",
   ["inputs"], "all non-degenerate elements and points", "Tests try a few undistorted elements.", ["kernel/Geometry/Mappings/"], [("Newton iteration", "kernel/Geometry/Mappings/MappingReferenceToPhysical.h inverseTransform")],
   "A Newton iteration with a runtime stopping criterion: whether it converges depends on the distortion of the element; the abstract domain cannot bound the iterates. For simplices the inverse is closed-form and decided (P07).")
na("P92", "Partitions are balanced",
   "The partition computed by the Preprocessor assigns every process about the same number of elements with a small cut.",
   ["inputs"], "all meshes and numbers of processes", "Tests partition tiny meshes.", ["applications/Preprocessor/"], [("partitioning", "applications/Preprocessor/main.cpp")],
   "The quality of a partition is decided by a heuristic inside METIS, which is not in the repository.")
