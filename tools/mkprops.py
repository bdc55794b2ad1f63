#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, once)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
MAT = 'composipy/core/material.py'; PRO = 'composipy/core/property.py'
STR = 'composipy/core/strength.py'; PLA = 'composipy/core/structure.py'
BK = 'composipy/pre_integrated_component/build_k.py'
FN = 'composipy/pre_integrated_component/functions.py'
TF = 'composipy/pre_integrated_component/_ii_F.py'; TS = 'composipy/pre_integrated_component/_S.py'
OU = 'composipy/optimize/utils.py'; OM = 'composipy/optimize/_maximize_buckling.py'; OW = 'composipy/optimize/_minimize_panel_weight.py'
NA = 'composipy/nastranapi/pcomp_generator.py'; VA = 'composipy/utils/validators.py'

prop('C01', 'Ply stiffness is the inverse of the plane-stress compliance',
 'For every admissible orthotropic or isotropic material, the reduced stiffness matrix Q_0 is the inverse of the plane-stress compliance matrix built from the given moduli and Poisson ratio, is symmetric, and is positive definite; v21 satisfies reciprocity v12*E2 = v21*E1, and the material reports back exactly the constants it was given. The invariants U1..U5 are the classical combinations of Q_0, so that U1+U2+U3 = Q11, U1-U2+U3 = Q22, U4-U3 = Q12 and U5-U3 = Q66.',
 ['inputs'], 'all E1, E2, G12 > 0 and v12 in [-0.5, 0.5] with v12^2*E2 < E1 (isotropic: E, G > 0, v in [-0.5, 0.5])',
 'One material is sampled, to 1e-6; nothing tests Invariants beyond one laminate, and IsotropicMaterial is not tested at all.',
 [MAT], [('Q_0', MAT), ('Invariants', MAT)], observe=['OrthotropicMaterial.Q_0', 'IsotropicMaterial.Q_0', 'OrthotropicMaterial.Invariants()', 'OrthotropicMaterial.v21'])

prop('C02', 'Ply stiffness transforms as a rotated elastic tensor',
 'For every ply angle in degrees, the laminate-axes stiffness of a ply in Q_layup is the plane-stress stiffness rotated by that angle: it is symmetric, gives the same strain energy as Q_0 applied to the strain expressed in material axes, has period 180 degrees, and equals Q_0 at 0 and Q_0 with the axes exchanged at 90 degrees. The two matrices of T_layup are the stress transformation and the engineering-strain transformation into the material axes of that ply.',
 ['inputs'], 'all ply angles and all admissible materials, in laminates of up to the stated number of plies',
 'Tests use angles 0, 45, 90 and -45 only, and compare assembled matrices; at those angles several wrong rotations coincide with the right one.',
 [PRO], [('Q_layup', PRO), ('T_layup', PRO)], observe=['LaminateProperty.Q_layup', 'LaminateProperty.T_layup'])

prop('C03', 'Ply interfaces partition the thickness symmetrically about mid-plane',
 'For every stack of N plies, z_position has N+1 entries going from bottom to top, the first is minus half and the last plus half the total thickness, and consecutive entries differ by exactly the thickness of the ply at that place in the stacking.',
 ['inputs'], 'all ply thicknesses and any mixture of materials, in laminates of up to the stated number of plies',
 'Only indirectly observed through two symmetric laminates.',
 [PRO], [('z_position', PRO)], observe=['LaminateProperty.z_position'])

prop('C04', 'ABD is the thickness-moment integral of the ply stiffnesses',
 'For every stacking of plies, A, B and D are the zeroth, first and second moments over z of the piecewise constant rotated ply stiffness, with z measured from the mid-plane and the first ply at the bottom; ABD is the 6x6 block matrix [[A, B], [B, D]].',
 ['inputs'], 'all angles, thicknesses and admissible materials (a single material or one per ply), laminates of up to the stated number of plies',
 'One three-ply symmetric laminate is sampled, for which B is zero and ply order is invisible; the ABD assembly is only seen through a symmetric laminate.',
 [PRO], [('A', PRO), ('B', PRO), ('D', PRO), ('ABD', PRO)], observe=['LaminateProperty.A', 'LaminateProperty.B', 'LaminateProperty.D', 'LaminateProperty.ABD'])

prop('C05', 'Laminate couplings follow the symmetries of the stack',
 'ABD is a symmetric matrix for every laminate; a mid-plane symmetric laminate has B = 0; reversing the stack keeps A and D and negates B; negating all angles keeps A11, A12, A22, A66 and negates A16 and A26 (likewise in B and D); rotating all plies by 90 degrees exchanges the x and y entries.',
 ['inputs'], 'all angles, thicknesses and admissible materials, laminates of up to the stated number of plies',
 'These are relations between two laminates for every input; the tests look at one B = 0 case.',
 [PRO], [('A, B, D', PRO), ('Q_layup', PRO), ('z_position', PRO)], observe=['LaminateProperty.ABD'])

prop('C06', 'Lamination parameters are the normalised trigonometric moments',
 'For every stacking, xiA and xiD are the thickness-normalised zeroth and second z-moments of (cos2t, sin2t, cos4t, sin4t) in that order; each component lies in [-1, 1], (xi1, xi3) satisfies xi3 >= 2*xi1^2 - 1, and both are unchanged when all thicknesses are scaled by the same factor.',
 ['inputs'], 'all angles and thicknesses (a single material or one per ply), laminates of up to the stated number of plies',
 'One 14-ply laminate of equal plies at 0/45/90 is sampled.',
 [PRO], [('xiA', PRO), ('xiD', PRO)], observe=['LaminateProperty.xiA', 'LaminateProperty.xiD'])

prop('C07', 'A stack and its lamination parameters give the same stiffness',
 'For every single-material stacking, the laminate defined by that stacking\'s own xiA, xiD and total thickness has the same A and D as the stacking itself.',
 ['inputs'], 'all angles, ply thickness and admissible material, stacks of up to the stated number of plies',
 'The tests compare the first buckling load of one +-45 laminate within 10 percent.',
 [PRO, MAT], [('A and D from lamination parameters', PRO), ('xiA, xiD', PRO), ('Invariants', MAT)], observe=['LaminateProperty.A', 'LaminateProperty.D'])

prop('C08', 'A laminate defined by lamination parameters is consistent',
 'A laminate defined by lamination parameters and a thickness T has A = T*(invariants combined with xiA) and D = T^3/12*(the same combination with xiD), both symmetric, B = 0, and reports back through xiA and xiD the values it was defined with; changing only T scales A by T and D by T^3.',
 ['inputs'], 'all xiA, xiD, T > 0 and admissible materials',
 'Only D of one parameter set is reached, through one buckling value within 10 percent; A, B, xiA and xiD of such a laminate are never read.',
 [PRO], [('A, B, D from lamination parameters', PRO)], observe=['LaminateProperty.ABD', 'LaminateProperty.xiA', 'LaminateProperty.xiD'])

prop('C09', 'Mid-plane strains and curvatures balance the applied loads',
 'For every laminate with invertible ABD and every load, epsilon0 returns the six strains and curvatures e with ABD e = (Nxx, Nyy, Nxy, Mxx, Myy, Mxy); hence it is linear in the loads.',
 ['inputs'], 'all six load components and all laminates of up to the stated number of plies',
 'Two loads on one symmetric laminate are sampled, each with a single non-zero component and tolerance 1e-4 absolute.',
 [STR], [('epsilon0', STR)], observe=['LaminateStrength.epsilon0()'])

prop('C10', 'Ply strain and stress tables follow laminate kinematics and material law',
 'In calculate_strain and calculate_stress every ply contributes a bottom row then a top row, from the bottom ply up, labelled with its ply number, angle and true z; laminate strains there equal epsilon0 + z*kappa, laminate stresses equal the rotated ply stiffness times those strains, and the material-axes columns are the same strains and stresses transformed by the ply angle (engineering shear strain), so that in material axes stress = Q_0 strain.',
 ['inputs'], 'all loads, angles, thicknesses and admissible materials, laminates of up to the stated number of plies',
 'Single rows of one laminate of equal plies under two unit loads are compared with absolute tolerances of 1e-4 strain and 100 stress.',
 [STR], [('_epsilonk, _epsilonk_123, _stressk, _stressk_123', STR), ('calculate_strain, calculate_stress', STR)], observe=['LaminateStrength.calculate_strain()', 'LaminateStrength.calculate_stress()'])

prop('C11', 'Ply stresses integrate back to the applied loads',
 'For every laminate and load, integrating the tabulated laminate-axes stresses through the thickness (they are linear within a ply) gives back Nxx, Nyy, Nxy, and integrating stress times z gives back Mxx, Myy, Mxy.',
 ['inputs'], 'all loads, angles, thicknesses and admissible materials, laminates of up to the stated number of plies',
 'No test sums stresses; equilibrium has to hold for every laminate and every load combination.',
 [STR, PRO], [('calculate_stress', STR), ('ABD', PRO)], observe=['LaminateStrength.calculate_stress()'])

prop('C12', 'Maximum-stress margins flag exactly the overstressed plies',
 'For every ply surface, in the same order and with the same ply, position and angle labels as calculate_stress, each margin is allowable/stress - 1 for the component and sign it belongs to (infinite when the stress has the other sign), so that with positive allowables all margins are non-negative exactly when -c1 <= sigma1 <= t1, -c2 <= sigma2 <= t2 and |tau12| <= s; "critical" names the smallest margin.',
 ['inputs'], 'all stresses reachable by loads, all positive allowables, laminates of up to the stated number of plies',
 'calculate_maxstressmargin has no test.',
 [STR], [('calculate_maxstressmargin, _calculate_maxstressallowable, _allowablek_123', STR)], observe=['LaminateStrength.calculate_maxstressmargin()'])

prop('C13', 'Shape functions are the Bardell hierarchical basis',
 'For every index and every point of [-1,1] the one-dimensional functions are the four cubic Hermite functions (value 1 or slope 1/2 at one end, zero for the three other end values) followed by polynomials that vanish with their slope at both ends and whose second derivatives are Legendre polynomials; the two-dimensional function (i, j) at (xi, eta) is the product of function i at xi and function j at eta.',
 ['inputs'], 'all indices of the shipped tables and all xi, eta in [-1, 1]',
 'No test evaluates a shape function; there are 50 and 2500 tabulated polynomials.',
 [TS, FN], [('fxi, sxieta', FN), ('FXI, S', TS)], observe=['composipy.pre_integrated_component.functions.fxi', 'composipy.pre_integrated_component.functions.sxieta'])

prop('C14', 'Pre-integrated terms equal the integrals of the shape functions',
 'For every pair of indices in the shipped tables, each pre-integrated term returned for that pair equals the integral over [-1,1] of the product of the corresponding derivatives (orders 0, 1, 2) of the shape functions: to a relative error of 1e-9 where that integral is not zero, and to 1e-8 absolute where it is.',
 ['inputs'], 'all pairs (i, k) with 0 <= i, k < 30 and all nine derivative combinations exposed',
 '5400 table entries and nine accessors; the buckling tests reach a subset with indices below 14 and see them only through one eigenvalue within 10 percent.',
 [TF, FN], [('ii_ff and the eight other accessors', FN), ('tables', TF)], observe=['composipy.pre_integrated_component.functions.ii_*'])

prop('C15', 'Bending and geometric stiffness matrices are the plate energy Hessians',
 'For every plate, calc_K_KG_D returns K and KG such that, for every coefficient vector c of the deflection, c.K.c/2 is the bending strain energy of the plate with stiffness D over its area a*b and c.KG.c/2 is the work of Nxx, Nyy, Nxy on that deflection; both are symmetric and rows and columns follow the order of the retained shape functions.',
 ['inputs', 'configurations'], 'all a, b > 0, all symmetric D, all loads, all edge conditions, and numbers of terms m, n within the stated bounds (including m != n)',
 'Four square plates with m = n are compared through the first eigenvalue within 10 percent.',
 [PLA, BK], [('calc_K_KG_D', PLA), ('calc_k33_ijkl, calc_kG33_ijkl', BK)], observe=['PlateStructure.calc_K_KG_D()'])

prop('C16', 'The full ABD stiffness matrix is the coupled plate energy Hessian',
 'For every plate, calc_K_KG_ABD returns K such that, for all coefficient vectors (u, v, w), half the quadratic form of K is the membrane plus coupling plus bending strain energy of the plate with the laminate\'s ABD; K is symmetric, and KG acts on the deflection block only and is the work of the in-plane loads.',
 ['inputs', 'configurations'], 'all a, b > 0, all laminates (full A, B, D), all loads, all edge conditions, and m, n within the stated bounds',
 'calc_K_KG_ABD is not called by any test.',
 [PLA, BK], [('calc_K_KG_ABD', PLA), ('calc_K11_ijkl .. calc_k33_ijkl', BK)], observe=['PlateStructure.calc_K_KG_ABD()'])

prop('C17', 'Retained shape functions satisfy exactly the requested edge conditions',
 'For each displacement u, v, w and each edge, every retained shape function has zero value there when that displacement is constrained on the edge and zero normal slope when the matching rotation is constrained, while an unconstrained edge value or slope stays available in the basis; each basis has exactly m*n distinct functions and bases are nested when m or n grows.',
 ['configurations'], 'all combinations of TX, TY, TZ, RX, RY, RZ on the four edges, and m, n within the stated bounds',
 '2^24 edge combinations; the tests use all-pinned and all-clamped only.',
 [PLA], [('_compute_constraints', PLA)], observe=['PlateStructure.su_idx', 'PlateStructure.sv_idx', 'PlateStructure.sw_idx', 'PlateStructure.calc_K_KG_D()'])

prop('C18', 'Equivalent ways of writing edge conditions give the same plate',
 'The strings PINNED and CLAMPED, the per-edge names (pinned or simply_supported, clamped or fixed, free, in any letter case) and the per-edge lists of degrees of freedom in any order, also side by side in one dictionary, describe the same plate whenever they denote the same constraints, edge by edge, and an unknown edge name is rejected.',
 ['configurations'], 'all assignments of named conditions to the four edges, all spellings, m, n within the stated bounds',
 'Only PINNED and CLAMPED as strings are tested.',
 [PLA], [('_compute_constraints', PLA)], observe=['PlateStructure constraints argument', 'PlateStructure.sw_idx', 'PlateStructure.calc_K_KG_D()'])

prop('C19', 'Buckling analysis returns the lowest load factors of the plate',
 'Every returned pair (load factor, mode) satisfies (K + factor*KG) mode = 0 for the plate\'s K and KG, the number of pairs is min(num_eigvalues, m*n-2), and when positive load factors exist the first one returned is the smallest of them, whatever the magnitude of the applied loads; they are also stored as eigenvalue and eigenvector.',
 ['inputs', 'configurations'], 'all spectra of the pencil (any load magnitude), all num_eigvalues >= 1, m, n within the stated bounds; the sparse eigensolver is represented by its documented contract',
 'Tests use loads of magnitude 1 for which factors are far above 1.',
 [PLA], [('buckling_analysis', PLA)], observe=['PlateStructure.buckling_analysis()', 'PlateStructure.eigenvalue', 'PlateStructure.eigenvector'])

prop('C20', 'The plotted mode is the computed mode over the plate area',
 'plot_eigenvalue draws, for every grid size in x and y, points covering [0,a]x[0,b] whose height is the selected eigenvector\'s combination of the plate\'s retained shape functions at that point.',
 ['inputs', 'configurations'], 'all eigenvectors, all a, b > 0, all mode numbers and grid sizes within the stated bounds, including different numbers of points in x and y',
 'Plotting is not tested.',
 [PLA, FN], [('plot_eigenvalue', PLA), ('sxieta', FN)], observe=['surface passed to matplotlib by PlateStructure.plot_eigenvalue()'])

prop('C21', 'Load normalisation keeps proportions and warnings flag bad load cases',
 'For every load case that is not all zero, the normalised loads are the given ones divided by the largest absolute component (which is returned), so that their largest absolute value is 1; a warning is raised for a load case exactly when it has no compression and no shear, or when some component exceeds 1 in absolute value.',
 ['inputs'], 'all Nxx, Nyy, Nxy not all zero',
 'The stable tests use one load case, already normalised.',
 [OU], [('normalize_critical_load, check_loads', OU)], observe=['composipy.optimize.utils.normalize_critical_load', 'composipy.optimize.utils.check_loads'])

prop('C22', 'Optimisation constraints bound the design to realisable laminates',
 'The constraint functions are exactly the edges of the triangle and the parabola of lamination-parameter space, for two- and three-variable designs: with the parabola every laminate\'s (xiD1, xiD3) is feasible, with the triangle every laminate of 0, 90, +45, -45 plies is feasible, and any point feasible for the triangle is feasible for the parabola.',
 ['inputs'], 'all (xi1, xi3) in [-1,1]^2, all T, and all laminates of up to the stated number of plies',
 'One optimum is sampled.',
 [OU, PRO], [('penalty_g1, penalty_g2, natural_constraint_g, _constraint', OU)], observe=['composipy.optimize.utils.penalty_g1', 'composipy.optimize.utils.penalty_g2', 'composipy.optimize.utils.natural_constraint_g'])

prop('C23', 'maximize_buckling_load poses the problem it documents',
 'The problem handed to the optimiser minimises minus the critical factor, under the normalised loads, of the plate whose D comes from (xi1, 0, xi3, 0) and thickness T with the given geometry, material, terms and edge conditions; both variables are bounded by [-1,1] and the constraint set is the triangle when penalty is True and the parabola when it is False. A design for which the eigenvalue solver fails counts as worse than any design with a positive critical factor.',
 ['inputs', 'configurations'], 'all geometry, material, thickness, loads and design points; penalty True or False; the optimiser and the eigensolver are represented by stubs',
 'One panel, one load case, default penalty.',
 [OM, OU], [('maximize_buckling_load', OM), ('Ncr_from_lp', OU)], observe=['arguments of scipy.optimize.minimize'])

prop('C24', 'minimize_panel_weight poses the problem it documents',
 'The problem handed to the optimiser minimises a strictly increasing function of thickness subject to: the critical factor under the normalised loads of the plate with D from (xi1, 0, xi3, 0) and T is at least the largest applied load (so the panel carries the applied loads), the triangle constraints on (xi1, xi3), T positive and xi1, xi3 in [-1,1]. A design for which the eigenvalue solver fails counts as not carrying the loads.',
 ['inputs', 'configurations'], 'all geometry, material, loads and design points (T, xi1, xi3); the optimiser and the eigensolver are represented by stubs',
 'The only test is flaky and excluded from the stable suite.',
 [OW, OU], [('minimize_panel_weight', OW), ('Ncr_from_lp', OU)], observe=['arguments of scipy.optimize.minimize'])

prop('C25', 'Stacking strings expand to the ply list they denote',
 'build_sequence of a string made of units separated by "/" between brackets returns the plies in order: a unit angle_n (with or without braces, n = 1 when absent) lists the angle n times, a \\pm unit lists n plies alternating in sign from +angle, a parenthesised block with multiplier k repeats its units k times, and a trailing s (or S) appends the mirror image.',
 ['inputs'], 'all angles, subscripts and block multipliers and all arrangements of units and blocks within the stated bounds',
 'Nothing in nastranapi is tested.',
 [NA], [('build_sequence, _build_stack_unit, _build_pm_unit', NA)], observe=['composipy.nastranapi.build_sequence'])

prop('C26', 'A PCOMP card lists every ply once, in order',
 'For every sequence, reading the comma-separated fields of the card from build_pcomp gives back, in order, exactly the material id, thickness, angle and output request of each ply (two plies per continuation line, each field on its own, continuation marker in its own field), with the given property id and z0 in the header; scalars are applied to all plies, FIBER requests output for the first and last plies only, and lists of the wrong length are rejected.',
 ['inputs'], 'all angles, thicknesses, material ids and output requests, sequences of up to the stated number of plies, odd and even',
 'Nothing in nastranapi is tested.',
 [NA], [('build_pcomp, _convert_to_list, _convert_sout', NA)], observe=['composipy.nastranapi.build_pcomp'])

prop('C27', 'Constructors accept exactly numbers inside the documented range',
 'For every floating-point input (infinities and NaN included) to a bounded parameter of a material or plate, construction succeeds only if the value is a number within the documented range (moduli, thickness, allowables and plate sides at least 0; Poisson ratio in [-0.5, 0.5]; m and n whole numbers at least 1), in which case the value is stored unchanged, and finite values strictly inside the range are accepted; values that are not numbers, and a plate property that is not a Property, raise ValueError.',
 ['inputs'], 'all IEEE-754 double values, parameter by parameter',
 'No test constructs an invalid object.',
 [VA, MAT, PLA], [('_float_number, _int_number, _is_instance', VA)], observe=['OrthotropicMaterial', 'IsotropicMaterial', 'PlateStructure'])

prop('C28', 'Equality of materials and laminates means equal behaviour',
 'Materials compare equal exactly when all their elastic constants, thickness and allowables are equal (whatever their names); laminates compare equal only when they have the same stiffness, and laminates built from the same definition compare equal; equality is symmetric.',
 ['inputs'], 'all pairs of materials and all pairs of laminates within the stated bounds, both stacking and lamination-parameter definitions',
 'No test compares objects.',
 [MAT, PRO], [('__eq__', MAT), ('__eq__', PRO)], observe=['== on OrthotropicMaterial, IsotropicMaterial, LaminateProperty'])

prop('C29', 'Results do not depend on the order or repetition of queries',
 'For every sequence of reads and analysis calls on a laminate, strength or plate object, and with other objects built and queried in between, each query returns the value it returns on a fresh object, none of them modifies the stacking, plies, lamination parameters, loads or edge conditions supplied by the user, and the text functions and optimisation problems do not depend on earlier calls either.',
 ['histories', 'inputs'], 'all query sequences up to the stated length over all laminates, loads and plates within the stated bounds',
 'Each test queries a fresh object once.',
 [PRO, STR, PLA], [('lazy attributes', PRO), ('strain and stress tables', STR), ('index sets', PLA)],
 state=[('cached matrices', 'computed once and reused', PRO), ('index sets and eigenpairs', 'set by analysis calls', PLA)],
 observe=['LaminateProperty, LaminateStrength and PlateStructure public queries'])

prop('C30', 'Malformed laminate definitions are rejected',
 'A list of plies whose length differs from the stacking raises ValueError, and a lamination-parameter definition without its bending parameters xiD or without its thickness T raises KeyError naming the missing entry; well-formed definitions are accepted and keep each angle paired with its own ply.',
 ['inputs'], 'all stacking and ply-list lengths up to the stated bound, all subsets of the keys xiA, xiB, xiD, T',
 'No test builds a malformed laminate.',
 [PRO], [('LaminateProperty.__init__', PRO)], observe=['LaminateProperty constructor', 'LaminateProperty.layup'])

prop('C31', 'Plate matrices scale and rotate with the plate',
 'For every plate, K is homogeneous of degree 1 in the laminate stiffness and KG is linear in the loads; scaling a and b together by s scales the bending K by 1/s^2 and leaves KG unchanged; and describing the same plate with x and y exchanged (a with b, Nxx with Nyy, m with n, edges and laminate axes exchanged) gives the same matrices up to the corresponding reordering.',
 ['inputs', 'configurations'], 'all a, b > 0, laminates, loads and edge conditions; m, n within the stated bounds',
 'These relate two plates for every input; no test compares two plates.',
 [PLA, BK], [('calc_K_KG_D, calc_K_KG_ABD', PLA), ('calc_*_ijkl', BK)], observe=['PlateStructure.calc_K_KG_D()', 'PlateStructure.calc_K_KG_ABD()'])

prop('C32', 'The optimiser returns a feasible design at least as good as its start',
 'maximize_buckling_load and minimize_panel_weight return a design satisfying all constraints whose objective is no worse than that of the feasible designs the optimiser visited.',
 ['inputs'], 'all panels and loads',
 'One panel is sampled; convergence depends on floating-point iterations.',
 [OM, OW], [('scipy.optimize.minimize (SLSQP)', OM)], observe=['maximize_buckling_load', 'minimize_panel_weight'])

prop('C33', 'Eigenvalues and stiffness terms are numerically accurate',
 'The floating-point buckling factors agree with exact arithmetic on the same model to a relative error of 1e-6 for all m, n up to the table size.',
 ['inputs'], 'all plates and all m, n up to 26',
 'Eigenvalues of a handful of plates are compared within 10 percent.',
 [PLA], [('eigsh', PLA)], observe=['PlateStructure.buckling_analysis()'])

prop('C34', 'The optimisation plot shows the critical factor over the feasible region',
 'maximize_buckling_load with plot=True returns the same result as without and draws, over a grid of points_to_plot by points_to_plot points covering xi1, xi3 in [-1, 1], the critical factor of the panel under the given loads at every point strictly inside the feasible region and nothing outside it, the boundary of that region (triangle or parabola, according to penalty) from xi1 = -1 to 1, and a marker at the design the optimiser returned.',
 ['inputs', 'configurations'], 'all geometry, material, thickness and loads, all optimiser results; penalty True or False; grids up to the stated size; the drawing functions, the optimiser and the eigensolver are represented by stubs',
 'No test plots an optimisation; a wrong axis, region or load case yields a plausible picture.',
 [OU, OM], [('plot_optimization, _constraint', OU)], observe=['arguments of matplotlib contour and plot'])

prop('C35', 'Rigid and constant-strain states of a plate carry their exact energy',
 'Whenever the edge conditions leave a rigid motion or a state of constant membrane strain or curvature in the span of the retained shape functions, the stiffness matrices give it exactly the energy a*b/2 * e.ABD.e of that state (zero for a rigid motion, and zero mutual energy of a rigid motion with any other of these states), and KG gives a tilted plate exactly the work a*b/2 * (Nxx sx^2 + Nyy sy^2 + 2 Nxy sx sy) of its slopes.',
 ['inputs', 'configurations'], 'all a, b > 0, all laminates (full A, B, D), all loads, all combinations of these states; edge conditions and m, n within the stated bounds',
 'This is the patch test of the plate element; no test uses free edges, a laminate with coupling or a plate that is not square.',
 [PLA, BK], [('calc_K_KG_ABD, calc_K_KG_D', PLA), ('calc_*_ijkl', BK)], observe=['PlateStructure.calc_K_KG_ABD()', 'PlateStructure.calc_K_KG_D()', 'PlateStructure.su_idx, sv_idx, sw_idx'])

prop('C36', 'Turning a laminate turns its stiffness and lamination parameters',
 'Adding the same angle to every ply transforms A, B and D as the same elastic tensors seen in axes turned by that angle, turns (xi1, xi2) by twice and (xi3, xi4) by four times that angle in xiA and xiD, and a laminate defined by the turned lamination parameters has the turned A and D.',
 ['inputs'], 'all ply angles, turning angles, thicknesses, materials and lamination parameters; stacks of up to the stated number of plies',
 'It relates two laminates for every pair of angles; the tests use 0, 45 and 90 degrees only.',
 [PRO], [('Q_layup, A, B, D, xiA, xiD', PRO)], observe=['LaminateProperty.A', 'LaminateProperty.B', 'LaminateProperty.D', 'LaminateProperty.xiA', 'LaminateProperty.xiD'])

prop('C37', 'Cutting a ply in two changes no laminate result',
 'Replacing a ply by two plies of the same material and angle whose thicknesses add up to its own, or a run of equal plies by one ply of their total thickness, leaves A, B, D, xiA, xiD and the mid-plane strains unchanged, keeps all other interfaces, and gives the same strains and stresses at the surfaces both laminates have.',
 ['inputs'], 'all cuts in all stacks of up to the stated number of plies, all angles, thicknesses, materials and loads',
 'It relates two laminates; no test compares two descriptions of the same laminate.',
 [PRO, STR], [('z_position, A, B, D, xiA, xiD', PRO), ('calculate_strain, calculate_stress', STR)], observe=['LaminateProperty.ABD', 'LaminateProperty.xiA', 'LaminateProperty.xiD', 'LaminateStrength.epsilon0()', 'LaminateStrength.calculate_stress()'])

prop('C38', 'The elastic energy of a laminate is positive',
 'For every laminate of plies with positive definite Q_0 and every mid-plane strain and curvature e, the energy e.ABD.e/2 is the sum of the energies of its plies, hence never negative, and A and D of a ply are positive definite.',
 ['inputs'], 'all strains and curvatures, angles, thicknesses and positive definite ply stiffnesses; laminates of up to the stated number of plies',
 'Positivity for every strain is a statement over six continuous variables; tests compare entries of a few matrices.',
 [PRO], [('A, B, D, ABD', PRO), ('Q_layup', PRO)], observe=['LaminateProperty.ABD', 'LaminateProperty.A', 'LaminateProperty.D'])

prop('C39', 'Equally spaced ply angles give an isotropic membrane stiffness',
 'A laminate of n >= 3 equally thick plies of one material spaced by 180/n degrees (or of several such sets, in any of the orders stated) has A11 = A22, A16 = A26 = 0 and A66 = (A11 - A12)/2, independent of the first angle, and xiA = 0.',
 ['inputs'], 'all first angles, materials and thicknesses; the numbers of directions and sets stated',
 'The quasi-isotropic laminate is the most common layup; the tests contain none at a general first angle.',
 [PRO], [('A, xiA', PRO)], observe=['LaminateProperty.A', 'LaminateProperty.xiA'])

prop('C40', 'Isotropic plies are the isotropic case of orthotropic ones',
 'An isotropic material with G = E/(2(1+v)) has the Q_0 of the orthotropic material with E1 = E2 = E, v12 = v, G12 = G; its plies have the same stiffness at every angle, any laminate of them has the A, B, D of the orthotropic one, with D that of the classical isotropic plate of the total thickness, and the invariants U2 and U3 of the orthotropic one vanish.',
 ['inputs'], 'all E > 0, v in [-0.5, 0.5], thicknesses and angles; stacks of up to the stated number of plies',
 'IsotropicMaterial is not tested at all.',
 [MAT, PRO], [('Q_0', MAT), ('Invariants', MAT), ('Q_layup', PRO)], observe=['IsotropicMaterial.Q_0', 'OrthotropicMaterial.Q_0', 'LaminateProperty.Q_layup', 'LaminateProperty.ABD'])

prop('C41', 'Smaller and simpler plate models are blocks of larger ones',
 'For the same plate, K and KG of a model with fewer terms are the rows and columns of those of a model with more terms (m, n not smaller) that belong to its shape functions, so that load factors never grow when terms are added; and the deflection block of K and KG from calc_K_KG_ABD equals K and KG from calc_K_KG_D, the other coupling blocks being zero when B = 0.',
 ['inputs', 'configurations'], 'all a, b > 0, all laminates and loads, all edge conditions and m, n within the stated bounds',
 'It relates two models of the same plate; no test compares two models.',
 [PLA], [('_compute_constraints', PLA), ('calc_K_KG_D, calc_K_KG_ABD', PLA)], observe=['PlateStructure.calc_K_KG_D()', 'PlateStructure.calc_K_KG_ABD()', 'PlateStructure.sw_idx'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
