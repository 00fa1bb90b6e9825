prop('M12', 'Every patch is evaluated with its own material, geometry and data',
 'For a surface of several patches, quantities evaluated on a patch are those of that patch\'s material, thickness, density, parameters and geometry, exactly as if the patch were the only one, whichever way the materials were collected (copies, pointers, shared, one material for all patches) and whichever way the evaluator was constructed. An explicitly passed undeformed geometry replaces the one the material was built with, and evaluators that share a material do not influence each other. A collection of materials holds what was last stored at each position.',
 ['inputs', 'histories', 'configurations'], 'surfaces of 1 to 4 patches with different materials, any construction order and way of construction, any order of evaluation', UNIT + 'multi-patch tests use the same material and thickness on every patch.',
 [MM+'Container.hpp', MM+'Eval.hpp', MM+'Integrate.hpp', MM+'Base.h'], [dict(name='per-patch pieces of evaluators and containers', where=MM+'Eval.hpp, '+MM+'Integrate.hpp, '+MM+'Container.hpp')],
 'model-based property testing: multi-patch evaluation compared with fresh single-patch evaluation; container histories compared with a list model', 'random exploration')
prop('M13', 'Materials built, set up, stored and read in any way are the same material',
 'Constructing a material with any constructor or the factory, or setting its thickness, density and parameters one by one in any order, also through a tension-field material that wraps it, gives the same behaviour, and getters return what was set. A material written to a file and read back behaves as the original, including its density and whether it is a tension-field material. A collection of materials read from a file assigns to each patch the material the file names for it.',
 ['inputs', 'configurations', 'histories'], 'all storable laws, all constructors and setters, constant and varying fields, files with entries in any order', 'The existing tests read no material file and use one way of construction.',
 [MM+'Xml.hpp', 'src/getMaterialMatrix.h', MM+'Base.h', MM+'Nonlinear.hpp', MM+'Linear.hpp', MM+'Container.hpp'], [dict(name='XML reader/writer, factory, setters', where=MM+'Xml.hpp, src/getMaterialMatrix.h, '+MM+'Base.h')],
 'property-based testing: write/read round trip and differential comparison of construction paths', 'random exploration; constants with at most five decimals (the core writes six)')
AS = 'src/gsThinShellAssembler.hpp'
prop('A01', 'Assembled residual is external minus internal virtual work',
 'For any shell, membrane or planar body and any deformed configuration, the assembled residual vector equals, for every test function, the virtual work of all applied loads (surface force in physical or parametric form, edge loads, point loads, follower pressure, elastic foundation) minus the virtual work of the membrane forces and bending moments of the material. This holds whether or not a matrix was assembled before, and after the boundary conditions have been changed.',
 ['inputs', 'configurations'], 'generated B-spline, NURBS and hierarchical surfaces of one to four patches, all materials, all combinations of loads and supports, random deformed states and test directions',
 UNIT + 'errors in a single load term or in the curvature terms on skewed surfaces do not show there.',
 [AS, 'src/gsThinShellUtils.h'], [dict(name='vector assembly', where=AS + ': assembleVector, Neumann/pressure/foundation/point-load terms')],
 'property-based testing: assembled vector contracted with generated test functions against an independent quadrature of the virtual work (reference-model oracle)', 'random exploration')
prop('A02', 'Assembled tangent matrix is the derivative of the residual',
 'The tangent matrix assembled at any deformed configuration is minus the derivative of the residual with respect to the unknowns, including the contributions of follower pressure and elastic foundation. Without follower loads it is symmetric. The variant built from a previous state and an update uses membrane forces and moments linearised about that previous state.',
 ['inputs', 'configurations'], 'as for the residual; random pairs of directions',
 'Newton iterations converge with slightly wrong tangents, so result comparisons do not reveal them.',
 [AS, 'src/gsThinShellUtils.h'], [dict(name='matrix assembly', where=AS + ': assembleMatrix'), dict(name='first and second variations of the normal', where='src/gsThinShellUtils.h')],
 'property-based testing: independent second variation of the virtual work, and finite differences of the assembled residual (differential oracle)', 'random exploration; hyperelastic tangents up to the module\'s documented omission of the quadratic-in-thickness metric variation')
prop('A03', 'Linear system: consistent with the undeformed state and blind to rigid motion',
 'The linear system has a symmetric positive semi-definite matrix equal to the tangent at the undeformed state, and a right-hand side equal to the work of the loads minus the effect of prescribed displacements. Rigid motions of an unsupported body produce no internal force, internal forces of any state are in equilibrium, and superposing a rotation on a deformed state rotates the forces.',
 ['inputs', 'configurations'], 'as for the residual, including non-homogeneous prescribed displacements and all infinitesimal and random finite rigid motions',
 UNIT + 'they use axis-aligned plates with zero prescribed displacements.',
 [AS], [dict(name='linear assembly, elimination of prescribed displacements', where=AS + ': assemble')],
 'property-based testing: reference-model oracle for the bilinear form and load functional, metamorphic relations for rigid motions', 'random exploration')
prop('A04', 'Load terms assembled separately add up to the whole',
 'Adding the pressure or foundation term to an assembled system in a separate call gives the same system as declaring the pressure or foundation beforehand, also in the presence of point loads. The residual is affine in the applied dead loads, and assembling matrix and vector in one call or in two gives the same result.',
 ['inputs', 'histories', 'configurations'], 'all spatial shells and loads, constant and varying pressure, linear and nonlinear assembly',
 'No existing test uses the separate assembly calls.',
 [AS], [dict(name='separate assembly of pressure and foundation', where=AS + ': assemblePressureVector, assemblePressureMatrix, assembleFoundationVector')],
 'property-based testing: differential comparison of call sequences', 'random exploration')
prop('A05', 'Mass matrix is the kinetic energy of the shell',
 'The mass matrix is symmetric, independent of any deformation, and gives for every pair of velocity fields the integral of thickness times density times their product, plus the point masses; the lumped matrix is diagonal and holds the row sums. Its total for a unit translation is the total mass.',
 ['inputs', 'configurations'], 'all body kinds, varying density and thickness, composites, several patches, any supports, any point masses',
 UNIT + 'no test checks the mass matrix, point masses or lumping.',
 [AS], [dict(name='mass assembly', where=AS + ': assembleMass, _applyMass')],
 'property-based testing: assembled matrix contracted with generated fields against independent quadrature (reference-model oracle)', 'random exploration')
prop('A06', 'Solution vectors, displacements and deformed geometries describe the same state',
 'Converting a vector of unknowns to a displacement, a deformed geometry, a full solution vector or a solution multipatch describes one field: prescribed displacements hold on the sides where they are imposed, matched interfaces and coupled sides move together, the deformed geometry is the undeformed one plus the displacement, and extracting the unknowns again returns the vector. This holds for every combination of supports, couplings, patch counts and orientations.',
 ['inputs', 'configurations', 'histories'], 'one and two patches, all prescribed and coupled sides, any solution vector',
 UNIT + 'they convert homogeneous single-patch solutions only.',
 [AS], [dict(name='conversion of solution vectors', where=AS + ': constructSolution, constructDisplacement, constructMultiPatch, constructSolutionVector, fullSolutionVector')],
 'property-based testing: round trip and comparison of the representations at generated points', 'random exploration')
prop('A07', 'Weakly imposed conditions are penalties that pull towards the condition',
 'A weakly prescribed displacement, weakly clamped side or weak coupling of two patches adds to the residual minus the gradient, and to the matrices the second derivative, of a non-negative penalty energy that vanishes exactly when the condition holds; this covers the linear and the nonlinear system and any orientation of the patches. The linear matrix stays symmetric and positive semi-definite, and the penalty is proportional to the option that sets it. Interfaces that were put in no list get the default coupling selected by the option.',
 ['inputs', 'configurations'], 'one to four patches with split and turned parametrisations, kinks at the interface, all sides, all penalty options, deformed and undeformed states',
 'Weak conditions with a wrong sign or scale still enforce the condition approximately, so benchmark displacements hardly move.',
 [AS, 'src/gsThinShellUtils.h'], [dict(name='penalty terms', where=AS + ': _assembleWeakBCs, _assembleWeakIfc')],
 'property-based testing: assembled terms contracted with generated fields against numerical derivatives of an independent penalty energy (reference-model oracle)', 'random exploration; linear law; the stiffness that scales the penalty on skew parametrisations is pinned to the present choice')
prop('A09', 'An assembler behaves as a fresh one, whatever was done before',
 'After any sequence of assemblies, queries and changes of loads, supports, materials, options, geometry, basis or interfaces, an assembler gives the same matrices, vectors and solutions as one newly created for the current problem. Copying, assigning, moving or destroying assemblers does not influence the others.',
 ['histories', 'inputs', 'configurations'], 'all body kinds with one to four patches; sequences of up to a dozen operations on up to a few living assemblers that share materials',
 'Unit tests use every assembler once, for one problem.',
 [AS, 'src/gsThinShellAssembler.h', 'src/gsMaterialMatrixEval.hpp', 'src/gsMaterialMatrixIntegrate.hpp'], [dict(name='state of the assembler', where='src/gsThinShellAssembler.h: setters, copy and move; ' + AS + ': _initialize, _defineComponents')],
 'property-based testing: stateful generation of operation sequences, differential oracle against a freshly built assembler', 'random exploration')
prop('A10', 'Post-processing fields are the quantities of the patch they are plotted on',
 'Every displacement, strain, stress, force, moment, principal and von Mises field constructed for a deformed configuration equals, at any point of any patch, the corresponding quantity of the material of that patch in the local orthonormal frame of the surface (the deformed surface for Cauchy quantities, the undeformed one for the others). Patches may have different materials, and using the materials for another configuration afterwards does not change the field.',
 ['inputs', 'configurations', 'histories'], 'all body kinds with one to four patches, a material per patch including tension-field materials, all field types that are defined for the material, random deformed states and points',
 'Unit tests evaluate two or three fields on single rectangular patches with one linear material.',
 ['src/gsThinShellFunctions.hpp', 'src/gsThinShellFunctions.h', AS], [dict(name='post-processing functions', where='src/gsThinShellFunctions.hpp: gsShellStressFunction::eval_into; ' + AS + ': constructStress')],
 'property-based testing: field values against independently transformed strains and resultants of a separate single-patch material (reference-model oracle)', 'random exploration; fields of hyperelastic materials that the material itself does not define (flexural and outer-fibre von Mises stress) are not compared')
prop('A11', 'Areas, norms, energies, boundary forces and interface errors are their integrals',
 'The area, the displacement norm relative to the area, the elastic energy of a linear material, the reaction force on a set of sides and the position, tangent, normal and curvature errors over interfaces equal the integrals or maxima that define them, for any geometry, deformed configuration, material, set of sides and set of interfaces. They do not depend on what was assembled before.',
 ['inputs', 'configurations', 'histories'], 'all body kinds with one to four patches of any relative orientation, random deformed states, one to three sides',
 UNIT + 'none of these quantities is compared with an independent value on a curved or multi-patch surface.',
 [AS, 'src/gsThinShellAssembler.h'], [dict(name='integral quantities', where=AS + ': getArea, getDisplacementNorm, getElasticEnergy, boundaryForce, interfaceErrorC0/G1/Normal/GaussCurvature/MeanCurvature')],
 'property-based testing: reported values against independent quadrature of an independent surface and material model (reference-model oracle)', 'random exploration; elastic energy compared for the linear law only')
prop('A12', 'Mapped and separately integrated bases give the same mechanics',
 'A discretisation whose functions are combinations of local spline functions, or whose unknowns live in another basis than the one that provides the integration elements, gives the matrices, residuals, masses and load vectors of the plain spline discretisation restricted to those functions. Displacements, deformed geometries and full vectors built from its unknowns are the combined fields, and unknowns read back from a displacement are the ones it was built from.',
 ['inputs', 'configurations'], 'smooth-across-interface and random combination matrices on one to four patches, refined integration meshes, all body kinds, loads, weak couplings and point masses',
 UNIT + 'no test builds an assembler on a mapped basis.',
 [AS, 'src/gsThinShellAssembler.h'], [dict(name='space basis', where=AS + ': setSpaceBasis, _initialize, constructDisplacement, constructSolution, fullSolutionVector, constructSolutionVector, _applyMass')],
 'property-based testing: the assembled system on a generated mapped basis against P^T K P and P^T f of the plain basis (differential oracle)', 'random exploration; homogeneous supports only on mapped bases')
DW = 'src/gsThinShellAssemblerDWR.hpp'
prop('D01', 'Goal functionals are integrals of their quantity, duals their derivatives',
 'Every goal functional of goal-oriented error estimation (displacement, stretch, principal strain or stress, membrane and flexural strain, stress, force and moment; a component or the squared norm; over the surface, over sides or at points) equals the integral or sum of that quantity for any deformed configuration. The dual load vectors of both discretisations are the directional derivatives of the goal with respect to the displacement.',
 ['inputs', 'configurations'], 'spatial shells and membranes with one to four patches, all goals, components and regions, coarse and enriched discretisation, random deformed states and directions; materials that still hold another geometry',
 'No existing test evaluates a goal or a dual; the examples only plot convergence.',
 [DW, 'src/gsThinShellAssemblerDWR.h'], [dict(name='goals and duals', where=DW + ': computeGoal, _assembleDual'), dict(name='transformation to principal axes', where='src/gsMaterialMatrixBaseDim.hpp: eval3D_spec2con, eval3D_spec2cov')],
 'property-based testing: goal values against independent quadrature, dual vectors contracted with generated fields against the derivative of the independent quantity (reference-model oracle)', 'random exploration; planar goals are refused by the module and not compared')
prop('D02', 'Error estimates are residuals weighted with the dual, and add up over elements',
 'The estimate for given coarse and fine dual fields is the work of the loads minus the internal work of the given state on their difference; the element-wise and squared estimates are the same integrand, or its square, integrated over each element, point loads being shared among the elements that contain the point. For a linear problem with a linear goal the estimate equals the change of the goal from the coarse to the fine solution, and the driver that solves the dual problems itself returns the estimate for those duals.',
 ['inputs', 'configurations'], 'all body kinds, one to four patches, surface, edge and point loads, linear and deformed states, arbitrary and solved dual fields',
 'No existing test computes an error estimate.',
 [DW, 'src/gsThinShellDWRHelper.h'], [dict(name='estimates', where=DW + ': computeError_impl, computeSquaredError_impl, _applyLoadsToElWiseError'), dict(name='driver', where='src/gsThinShellDWRHelper.h: computeError')],
 'property-based testing: estimates for generated fields against independent element-wise quadrature; metamorphic identity estimate = change of the goal', 'random exploration; pressure, foundation and element-wise edge loads are not part of the estimates')
prop('D03', 'Eigenvalue error estimates contract the stiffness, mass and geometric forms',
 'For vibration the product of two modes is the integral of density times thickness times their product, and for buckling it is the tangent form at the given state minus the linear stiffness form. The estimate of an eigenvalue error, in total and per element, is the stiffness form on the mode and the dual difference minus the eigenvalue times the product form, plus the normalisation term, for any modes, dual fields and eigenvalues.',
 ['inputs', 'configurations'], 'shells with one to four patches, all materials, arbitrary modes and dual fields in the coarse or fine space, random deformed states',
 'No existing test computes an eigenvalue error.',
 [DW, 'src/gsThinShellUtils.h'], [dict(name='eigenvalue estimates', where=DW + ': computeErrorEig_impl, matrixNorm'), dict(name='variations of the normal for given fields', where='src/gsThinShellUtils.h: var1, var2, deriv2')],
 'property-based testing: estimates for generated fields against independent second variations of the strain energy (reference-model oracle)', 'random exploration; shells with bending stiffness')
prop('D04', 'The two-level assembler equals two plain assemblers, whatever was done before',
 'The matrices, vectors, tangents, consistent and lumped masses, unknown counts and solution conversions that the goal-oriented assembler gives for its coarse and fine discretisation are those of plain assemblers on these discretisations. After any sequence of assemblies and changes of loads, supports, goals and options they, the goals and the duals are those of a newly created object for the current problem.',
 ['histories', 'inputs', 'configurations'], 'all body kinds with one to four patches; sequences of assemblies and changes',
 'No existing test uses the two-level assembler.',
 [DW, 'src/gsThinShellAssemblerDWR.h'], [dict(name='two-level assembly', where=DW + ': assembleL/H, assembleMatrixL/H, assembleMassL/H, updateBCs, setters')],
 'property-based testing: stateful generation of operation sequences, differential oracle against plain assemblers and a freshly built object', 'random exploration')
