#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, claimed=claimed))

MM = 'src/gsMaterialMatrix'
UNIT = 'The existing tests run a handful of fixed plates and shells and compare a few displacements or stresses; '

prop('M01', 'Linear material law: stress, strain and stiffness at every point',
 'For a linear-elastic (Saint-Venant Kirchhoff) material, the strain, stress and material stiffness reported at any point of the mid-surface and any height through the thickness equal those of the plane-stress law for the local thickness, modulus and Poisson ratio, taken on the undeformed and deformed geometry passed in. This covers total strains and membrane, bending and total stresses. It holds for planar and for spatial surfaces with any regular, possibly skewed and curved parametrisation.',
 ['inputs', 'configurations'], 'all regular spline/NURBS surfaces, deformations, evaluation points and heights, and position-dependent thickness, modulus and Poisson ratio',
 UNIT + 'orthogonal and unit-speed parametrisations with constant parameters hide most errors in the metric terms.',
 [MM+'Linear.hpp', MM+'BaseDim.hpp', MM+'Eval.hpp'],
 [dict(name='pointwise metrics, elasticity tensor and strain/stress evaluation', where=MM+'Linear.hpp, '+MM+'BaseDim.hpp')],
 'property-based testing: generated surfaces/materials/points against an independent reference implementation of the kinematics and the law (reference-model oracle), shrinking to a replay', 'random exploration of the stated domain with an independent long-double reference')

prop('M02', 'Hyperelastic stresses are those of the stored-energy function',
 'For every hyperelastic law offered (neo-Hookean, extended neo-Hookean, Mooney-Rivlin, Ogden; compressible and incompressible), the plane-stress second Piola-Kirchhoff stress at any point and height is the derivative of that law\'s stored energy under the zero-normal-stress condition. All implementations offered for the same law give the same stress. An undeformed point is stress free, and stresses and stiffness for an explicitly given deformation tensor are those of a geometry deformed that way.',
 ['inputs', 'configurations'], 'all laws and implementations, moderate stretches, skewed parametrisations, planar and spatial, varying parameters, all heights',
 UNIT + 'they never compare the stress with the energy for generic non-orthogonal metrics, nor all implementations with each other.',
 [MM+'Nonlinear.hpp', 'src/getMaterialMatrix.h'],
 [dict(name='stress evaluation per law and implementation, plane-stress iteration', where=MM+'Nonlinear.hpp')],
 'property-based testing: generated deformations against energy derivatives of an independent model, and differential testing between implementations', 'random exploration; compressible laws restricted to area ratios where the plane-stress iteration converges')

prop('M03', 'Material tangent is the derivative of the stress',
 'For every material law and implementation the material stiffness reported at a point and height is the derivative of the stress with respect to the strain, taking the zero-normal-stress condition into account. It has the symmetry of a second derivative of an energy. This includes states with equal or nearly equal principal stretches.',
 ['inputs', 'configurations'], 'all laws and implementations, moderate stretches including repeated ones, skewed parametrisations, planar and spatial',
 UNIT + 'a wrong tangent only slows Newton iterations down and does not change the results the tests look at.',
 [MM+'Nonlinear.hpp', MM+'Linear.hpp'],
 [dict(name='tangent tensor per law, static condensation of the normal direction', where=MM+'Nonlinear.hpp')],
 'property-based testing: differential comparison of the tangent with differentiated stresses of an independent model, symmetry invariant', 'random exploration')

prop('M05', 'Principal stretches and area/thickness change are those of the deformation',
 'The reported principal stretches, their directions and the deformation tensor at any point and height are those of the map between the two geometries passed in, and the thickness stretch satisfies incompressibility or the zero-normal-stress condition. Undeformed points and rigid motions report unit stretches. Reported deformations are the same for every material law where the law does not enter.',
 ['inputs', 'configurations'], 'all laws, surfaces, deformations, points and heights', UNIT + 'they never look at stretches of sheared or equibiaxial states.',
 [MM+'BaseDim.hpp', MM+'Nonlinear.hpp', 'src/gsThinShellAssembler.hpp'],
 [dict(name='eigenvalue computation of the right Cauchy-Green tensor; plane-stress iteration', where=MM+'BaseDim.hpp, '+MM+'Nonlinear.hpp')],
 'property-based testing: reference-model oracle (independent eigenvalue computation)', 'random exploration')

prop('M06', 'Through-thickness integrals equal the integrals of the pointwise quantities',
 'Membrane forces, bending moments, the four stiffness blocks and the areal density reported for a point equal the zeroth, first and second moments over the thickness of the corresponding pointwise quantities. This holds for every material that declares its integrals constant, per point or numerical. It holds when the thickness and parameters vary over the surface.',
 ['inputs', 'configurations'], 'all laws, surfaces, deformations and evaluation points', UNIT + 'they use the integrals only inside whole-structure results.',
 [MM+'Integrate.hpp', MM+'Eval.hpp'], [dict(name='integration rules per material declaration', where=MM+'Integrate.hpp')],
 'property-based testing: integrals compared with high-order quadrature of pointwise evaluations and of the reference model', 'random exploration')

prop('M07', 'Evaluations do not depend on batching, order, copies or earlier evaluations',
 'Evaluating a material quantity at a list of points and heights gives, column by column, what evaluating each point and height alone gives, whatever was evaluated before on the same object, with other points, heights, patches or geometries. Copies of a material, tension-field materials included, give the same results as the original, and neither is affected by later changes or use of the other. Evaluating one point and evaluating lists of points agree.',
 ['inputs', 'histories'], 'all laws and outputs; sequences of evaluations with different points, heights and geometries on one object', UNIT + 'they evaluate one point set once, in one order.',
 [MM+'BaseDim.hpp', MM+'Eval.hpp', MM+'Nonlinear.hpp', MM+'TFT.hpp', MM+'Composite.hpp'],
 [dict(name='thread-local cached metric data shared by all evaluations', where=MM+'BaseDim.hpp')],
 'model-based property testing: random evaluation histories compared with fresh single-point evaluations (metamorphic)', 'random exploration of histories')

prop('M08', 'Material frame indifference, reparametrisation and unit independence',
 'Superposing rigid motions on the undeformed or the deformed geometry leaves strains, stresses and stiffness components unchanged. Reparametrising the surface changes components by the tensor transformation only, so invariants, principal values and Cartesian components stay the same. Scaling the units of length or stress scales every result accordingly, and a planar problem gives the same results as the same problem posed in space.',
 ['inputs', 'configurations'], 'all laws, implementations, surfaces and deformations; random motions, reparametrisations and unit changes', UNIT + 'no test relates two runs of the same physical state.',
 [MM+'BaseDim.hpp', MM+'Linear.hpp', MM+'Nonlinear.hpp'], [dict(name='metric computation', where=MM+'BaseDim.hpp')],
 'property-based testing: metamorphic relations between pairs of runs', 'random exploration')

prop('M10', 'Laminates behave as their stack of plies',
 'The stiffness blocks of a laminate equal those of classical lamination theory for the given ply moduli, fibre angles, thicknesses and stacking order, including membrane-bending coupling for unsymmetric stacks. Its membrane forces and moments are those blocks applied to the membrane and bending strains, and its mass is the sum of its plies. Splitting a ply, or rotating fibres and parametrisation together, changes nothing.',
 ['inputs', 'configurations'], '1 to 5 orthotropic plies with position-dependent moduli, angles, thicknesses on arbitrary surfaces', 'No existing test evaluates a laminate with more than symmetric, axis-aligned plies on an orthonormal parametrisation.',
 [MM+'Composite.hpp', 'src/getMaterialMatrix.h'], [dict(name='ply transformation and moments about the mid-surface', where=MM+'Composite.hpp')],
 'property-based testing: reference model of classical lamination theory plus metamorphic relations', 'random exploration')

prop('M11', 'Tension-field material: taut, slack and wrinkled states',
 'A tension-field material reports a point as taut, slack or wrinkled according to the principal stresses and strains of its base material, gives the base material\'s stress where taut and (up to the slack factor) none where slack, and in wrinkled points removes the compressive stress: the stress is uniaxial and not compressive for linear base laws. Its tangent is consistent with these stresses. When the state is to be taken from a fixed geometry, it stays that of the fixed geometry while stresses and tangent follow the current one.',
 ['inputs', 'configurations'], 'linear and hyperelastic base laws, planar and spatial membranes, all states', 'One existing test samples fixed uniaxial states with an orthonormal parametrisation.',
 [MM+'TFT.hpp'], [dict(name='state classification, search for the wrinkle direction, modified stress and tangent', where=MM+'TFT.hpp')],
 'property-based testing: invariants and reference model of the mixed wrinkling criterion, finite-difference oracle for the tangent', 'random exploration of moderately skewed parametrisations; tension along wrinkles claimed for the linear base law only')

prop('M14', 'Cauchy and principal stresses agree with the second Piola-Kirchhoff stress',
 'Cauchy stresses are the push-forward of the reported second Piola-Kirchhoff stresses, principal stresses and strains are the eigenvalues of the reported stress and strain tensors, and the reported principal directions diagonalise them. This holds for each height, for membrane and bending parts, for all materials. Reported transformations between Cartesian, curvilinear and principal axes are those of the undeformed geometry at the height.',
 ['inputs', 'configurations'], 'all laws, surfaces, deformations, points, heights', UNIT + 'principal and Cauchy outputs are only written to plots.',
 [MM+'BaseDim.hpp', MM+'Linear.hpp', MM+'Nonlinear.hpp'], [dict(name='stress transformation and spectral decomposition', where=MM+'BaseDim.hpp')],
 'property-based testing: reference-model oracle and invariants between outputs', 'random exploration')

prop('M15', 'A geometry given as a sum of functions behaves as the summed geometry',
 'A sum of function sets, such as an undeformed geometry plus displacements, has at every point of every patch the values and first and second derivatives of the sum of its terms, also after a term was changed. Copies of a sum or of its pieces stay valid after the original is gone, and printing lists every piece. Materials evaluated on such a sum give what they give on the geometry with the summed coefficients.',
 ['inputs', 'histories', 'configurations'], '1 to 4 terms on 1 to 3 patches, all materials, any lifetime of copies', 'No existing test uses a sum of functions.',
 ['src/gsFunctionSum.h'], [dict(name='pieces of a sum', where='src/gsFunctionSum.h')],
 'property-based testing: sums of generated fields against the spline with summed coefficients (reference-model oracle)', 'random exploration')

prop('S01', 'No operation reads or writes memory it does not own',
 'Whatever valid sequence of constructions, evaluations, assemblies, conversions, estimates, copies and destructions a user performs, the library does not access memory outside its arrays or after it was freed, and does not crash. This covers materials, evaluators, assemblers, post-processing and goal-oriented error estimation.',
 ['inputs', 'histories', 'configurations'], 'every case of every generator of the other properties', 'Most out-of-bounds accesses and uses of freed memory give plausible results in a test run.',
 ['src'], [dict(name='all of the module, instrumented', where='src')],
 'property-based testing with an AddressSanitizer oracle: all generators of the other checks run on an instrumented build of the module; a report or crash is a violation, shrunk to a replay', 'random exploration; code compiled into the core library is not instrumented; leaks and uninitialised stack reads are not covered')

exec(open(os.path.join(V, 'tools', 'props_more.py')).read())

P.sort(key=lambda p: ('MADS'.index(p['id'][0]), p['id']))
NA = {}
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
        assert len(p['title']) <= 80, p['title']
man = dict(version=1, setup_cmd='python3 check.py --setup',
    checks=[dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
        technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['claimed']],
    not_applicable=[dict(property=p['id'], reason=p['note']) for p in P if not p['claimed']],
    notes='Every check compiles the sources of /repo/src together with its harness (object cache under build/, keyed by the preprocessed text) and explores generated cases; VERIF_SEED selects the random stream. Every second worker process fills fresh heap memory with a pattern, so that results depending on uninitialised heap memory differ from the oracle. No hooks in /repo.')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
