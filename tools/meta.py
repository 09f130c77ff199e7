#!/usr/bin/env python
"""Writes properties.jsonl and MANIFEST.json from one description. Run: /opt/venv/bin/python tools/meta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe, oracle, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, oracle=oracle, note=note))


VC, VCS, VR, VD, VL, VP, WT, WF, SO = ['wiz/%s.py' % n for n in ('VortexCylinder', 'VortexCylinderSkewed', 'VortexRing', 'VortexDoublet', 'VortexLine', 'VortexPoint', 'WindTurbine', 'WindFarm', 'Solver')]
EL, SS, PF, BH = 'wiz/elliptic.py', 'wiz/SelfSimilar.py', 'wiz/plotting_functions.py', 'wiz/article_blockage/helper_functions.py'

p('P01', 'Complete elliptic integral of the third kind is accurate on its whole domain',
  'For every characteristic n<1 and parameter 0<=m<1, ellipticPiCarlson(n,m) is the complete elliptic integral of the third kind, to near machine precision also when n or m approaches 1 (a few digits are lost, gradually, as n becomes strongly negative: nine remain at n=-1e4). '
  'For n=1 it is infinite, and each element of an array result equals the scalar result whatever the shape, order or other elements (infinite or NaN ones included).',
  ['inputs'], 'all n<1 (moderate to strongly negative, 1-1e-14 included), 0<=m<1, scalars and arrays of any shape, mixtures with singular or NaN elements',
  'The existing test compares a handful of tabulated values; accuracy near n->1, m->1 and the vectorised iteration that stops when the worst element converged depend on the input and the other elements.',
  [EL], [('duplication iterations RF/RJ/RC stopped on the worst element', EL), ('handling of n=1', EL)], ['ellipticPiCarlson'],
  'scipy elliprf/elliprj and mpmath ellippi', 'relative 1e-11 or better over sampled (n,m); accuracy for n<-1e6 is not judged')
p('P02', 'Velocity of a right tangential vortex cylinder is the Biot-Savart field',
  'For every radius, strength and control point off the sheet, the semi-infinite right cylinder of tangential vorticity induces the Biot-Savart velocity (closed form in elliptic integrals), in Cartesian and polar output, up to and including axis, rotor plane, near sheet and far field; on the sheet the axial velocity is the mean of both sides. '
  'Its limits hold: gamma_t at infinity downstream inside, gamma_t/2 at the centre, nothing far away, jump of gamma_t through the sheet, and the regularised field agrees with the singular one away from the edge.',
  ['inputs'], 'all R, gamma_t, (x,y,z): axis, r=R, z=0, distances 1e-9R to 1e4R, arrays of any shape',
  'Tests evaluate along a few lines with 5-7 decimals; the branch switches (axis, sheet, edge, singular elliptic parameter) and the loss of digits between the samples are not reached.',
  [VC], [('switches r~0, r~R, z=0 and complementary parameter passed to the elliptic integral', VC + ':vc_tang_u')], ['vc_tang_u', 'cylinder_tang_semi_inf_u_raw', 'vcs_tang_u'],
  'independent closed form with Carlson integrals and ring quadrature', 'tolerance about 1e-10 of gamma_t (a few 1e-8 within 1e-6R of the edge)')
p('P03', 'A finite tangential cylinder is the difference of two semi-infinite ones',
  'For every z1<z2, radius, strength and control point off the sheet, the finite tangential cylinder (solenoid) induces the Biot-Savart velocity, which equals the difference of two semi-infinite cylinders and of the sum of adjacent shorter cylinders. '
  'It is symmetric about its middle, decays like a dipole of moment gamma.pi.R^2.(z2-z1) far away, and tends to the semi-infinite cylinder and to the vortex ring in its two limits.',
  ['inputs'], 'all R, gamma, z1<z2 (slender to flat), control points everywhere off the sheet', 'One comparison along one line is tested.',
  [VC], [('cylinder_tang_u closed form and its axis/sheet branches', VC + ':cylinder_tang_u')], ['cylinder_tang_u'], 'reference closed form, additivity, dipole limit', 'tolerance about 1e-9 of gamma')
p('P04', 'Right longitudinal cylinder and straight root vortex are Biot-Savart fields',
  'For every radius, strength and control point off the vortex elements, the right cylinder of longitudinal vorticity and the straight semi-infinite root vortex induce a purely azimuthal velocity equal to Biot-Savart, upstream, in the rotor plane, downstream, near the axis and far away, in Cartesian and polar form. '
  'Circulation around the wake is gamma_l.2.pi.R resp. Gamma_r far downstream, half of it in the rotor plane, and nothing inside/upstream far away.',
  ['inputs'], 'all R, strengths, control points including the axis and its upstream extension, r=R, rotor plane', 'Tests use a few radii with the rotor-plane and far-wake values only.',
  [VC, VL], [('axis threshold and rational forms', VL + ':vl_semiinf_straight_u_polar'), ('vc_longi_u_polar branches', VC)], ['vc_longi_u', 'vc_longi_u_polar', 'vc_root_u', 'vl_semiinf_straight_u', 'vcs_longi_u'],
  'reference closed forms', 'tolerance about 1e-9')
p('P05', 'Velocity of a skewed tangential vortex cylinder is the Biot-Savart field',
  'For every skew (both signs, zero included), radius, strength and control point away from the skewed sheet, the skewed tangential cylinder induces the Biot-Savart velocity, and it converges to it when the number of azimuthal points grows. '
  'It tends continuously to the right cylinder for vanishing skew, has the known rotor-plane properties (constant zeta-component gamma/2, centre value, antisymmetry) and the far wake value gamma inside.',
  ['inputs'], 'm=tan(chi) from +-1e-6 to +-2, all psi, r, z at 0.1R or more from the sheet with 180 azimuthal points, nearer with more points',
  'Tests use one skew angle and one sign, in the rotor plane mostly.', [VCS], [('azimuthal integrand and trapezes', VCS + ':svc_tang_u_polar')], ['svc_tang_u', 'svc_tang_u_polar', 'svcs_tang_u'],
  'independent adaptive azimuthal quadrature of Biot-Savart', 'tolerance follows the convergence bound of the periodic trapezes with the requested number of points')
p('P06', 'Skewed longitudinal, root and combined skewed wakes are Biot-Savart fields',
  'For every skew, strength and control point away from the vortex elements, the skewed longitudinal cylinder, the skewed root vortex, and their combination with the tangential one induce the Biot-Savart velocity. '
  'Polar, Cartesian, skew-axis and legacy multi-output variants are the same vector in different components, and zero skew gives the straight kernels.',
  ['inputs', 'configurations'], 'm in +-[0,2], all control points off the elements, every output variant', 'Tests look at one skew angle, rotor plane; several output variants are never called.',
  [VCS], [('svc_longi_u_polar, svc_root_u_polar, svc_u_polar', VCS), ('fV_Trailed, fV_Tangential, fV_Root component conversions', VCS)], ['svc_longi_u', 'svc_root_u', 'svc_u_polar', 'fV_*', 'skew_components', 'polar_components'],
  'independent quadrature/closed form and component identities', 'tolerance follows the quadrature bound, 1e-9 for the root vortex')
p('P07', 'Vortex ring velocity is the Biot-Savart field, regularised only inside the core',
  'For every circulation, radius, position and control point off the ring, all ring functions (Cartesian, polar, both singular forms, sums of rings) induce the Biot-Savart velocity, on the axis and far away included. '
  'With a regularisation of size epsilon the velocity is the singular one outside the core region and stays bounded and continuous inside it.',
  ['inputs', 'configurations'], 'all R, Gamma, positions, control points, regularisation sizes and methods', 'Tests compare on the axis and along one line.',
  [VR], [('elliptic closed forms, axis and core branches', VR)], ['ring_u', 'ring_u_polar', 'ring_u_polar_singular', 'ring_u_polar_singularb', 'rings_u'], 'reference closed form free of cancellation', 'about 1e-9')
p('P08', 'Doublets and doublet lines are the potential-flow fields',
  'For every moment vector, position and control point off the singularity, a point doublet induces the dipole velocity; a straight or skewed, semi-infinite or finite line of doublets induces the integral of it along the line, whatever function (closed form, polar, numerical) is used. '
  'Finite lines add up to longer ones, the numerical versions converge to the closed forms, and the published integrals I30, I50, I51, I52, in closed form and by quadrature, equal their definitions. Points exactly on the extensions of a line, straight or skewed, have the finite velocity of the dipoles lined up in front of them.',
  ['inputs'], 'all moments, skews, lengths, control points off the line', 'Tests use one line of control points and two skews.',
  [VD], [('closed-form integrals and near-axis branches', VD)], ['doublet_u', 'doublet_u_polar', 'doublet_line_polar_u', 'doublet_line_u', 'doublet_line_u_num', 'doublet_line_polar_u_num'], 'sinh-quadrature of the dipole field', 'about 1e-8 beyond 0.1 of the length scale off a skewed line')
p('P09', 'Semi-infinite line with vortex cores is Biot-Savart outside the core',
  'For every direction, circulation and control point, the semi-infinite vortex line induces the Biot-Savart velocity of a half line from the origin; it is perpendicular to line and position, and right-handed. '
  'Each core model multiplies it by its own damping factor (Rankine, Lamb-Oseen, Vatistas, cut-off), tends to it far from the core, and is bounded within the core.',
  ['inputs', 'configurations'], 'all directions, positions (axis included), core models and sizes', 'No test exercises the core models.',
  [VL], [('vl_semiinf_u', VL)], ['vl_semiinf_u', 'vl_semiinf_straight_u'], 'closed form and published core factors', 'about 1e-9')
p('P10', '2D vortex points: singular and regularised kernels',
  'For every set of 2D vortex points and control points, the velocity is the sum over points of Gamma/(2 pi r) azimuthal, positive circulation turning counter-clockwise. '
  'Every smoothing model equals its published kernel, is finite on the points and equals the singular field far from them.',
  ['inputs', 'configurations'], 'all point sets, circulations, smoothing models, kernel orders and core sizes', 'Not tested at all.',
  [VP], [('vp_u, vps_u', VP)], ['vp_u', 'vps_u'], 'published kernels, evaluated independently', 'about 1e-10')
p('P11', 'Velocity fields conserve mass and carry exactly their own vorticity',
  'For every kernel, and for the field of every turbine, parameters and control point off the singular set, the velocity field is divergence free and its curl is zero (or, for open lines, the closing vorticity of Biot-Savart); net flux through any closed surface is zero. '
  'The circulation around any loop equals the enclosed vorticity.',
  ['inputs', 'programs'], 'all 19 kernels, turbines and farms of the vortex models, parameters, closed surfaces and loops that may cut the sheets', 'No test differentiates or integrates a field.',
  [VC, VCS, VR, VD, VL], [('consistency of the separately coded components', 'all kernels')], ['all velocity functions'], 'finite differences, surface and loop integrals of observed velocities', 'relative 2e-4 (differences), 1e-6 (integrals)')
p('P12', 'Fields are linear in strength, scale with length, translate with their sources',
  'For every kernel, scaling or adding strengths scales or adds the velocity; multiplying all lengths by a factor changes it only by the dimensional power of the kernel. '
  'Moving sources and control points together, permuting the sources of a superposition, or splitting it into parts changes nothing.',
  ['inputs'], 'all kernels, factors of both signs 1e-3..1e3, translations, permutations and partitions of the sources', 'Tests use a single scale.',
  [VC, VCS, VR, VD], [('dimensional thresholds and superposition loops', 'vcs_*, svcs_*, rings_u')], ['all velocity functions'], 'metamorphic relations between observed calls', 'about 1e-9 of the field')
p('P13', 'Every control point is evaluated on its own',
  'The velocity at a control point does not depend on the other control points of the call: batches, array shapes, memory layouts, order, integer inputs, lists and single numbers (where the function accepts them) and neighbours that are NaN or singular all give the same value. '
  'The output always has the shape of the input.',
  ['inputs', 'programs'], 'all kernels and turbine/farm evaluations, all shapes including (1,), (n,1), 0-d where documented, strided and Fortran arrays, NaN neighbours', 'Tests pass arrays of a single kind.',
  [VC, VCS, VR, VD, VL, WT, WF], [('masks, reshapes and global branches on min/max of the batch', 'all kernels')], ['all velocity functions', 'WindTurbine.compute_u', 'WindFarm.velocity_field'], 'the point evaluated alone', 'about 1e-10')
p('P14', 'Velocities are finite and bounded by the nearest vortex element',
  'For every kernel, turbine model and control point off the singular set the velocity is a finite number no larger than the nearest vortex element allows, at degenerate positions too (axis, rotor plane, hub, prolongation of the wake, coordinate planes, tiny and huge distances). '
  'The regular kernels (cylinders, rings, straight lines, doublets) answer with finite numbers even on their own elements.',
  ['inputs'], 'degenerate and extreme control points of all kernels and turbine models', 'Tests sample generic points and skip singular ones.',
  [VC, VCS, VR, VD, VL, WT, WF], [('special-case branches', 'all kernels')], ['all velocity functions', 'WindTurbine.compute_u', 'WindFarm.velocity_field', 'rotor_disk_points'], 'upper bounds', 'bounds with a safety factor of a few: catches NaN, inf and blow-up, not small errors')
p('P15', 'A turbine has no preferred frame, unit of length or unit of speed',
  'Rotating or translating turbine, wind and control points together rotates the velocity; mirroring the set-up mirrors it; changing the units of length or speed changes it only by the unit of speed. '
  'This holds for every model, loading, yaw, skew, ground setting.',
  ['inputs', 'configurations'], 'all rotations, mirror images, scale factors, turbine settings', 'Tests use one or two axis-aligned frames.',
  [WT], [('transformation matrices between global and wind turbine coordinates', WT)], ['WindTurbine.compute_u'], 'metamorphic relations', 'about 1e-8 of the induction')
p('P16', 'Yaw, wind and skew angles follow one convention and the wake follows the wind',
  'For every vertical, horizontal shaft, yaw position and horizontal wind vector, the reported wind yaw and yaw error are the angles about the vertical, in (-180,180], also for aligned and opposite vectors. '
  'The wake axis leaves the rotor in the direction of the wind unless a skew angle is prescribed, and the field for yaw +-psi is the mirror image. For winds with a vertical component the wake and the wind yaw follow the horizontal part, and the whole wind is added to the induction.',
  ['inputs', 'configurations'], 'all frames, yaw angles, wind directions (including aligned to round-off and opposite)', 'Tests use a few yaw angles in two frames.',
  [WT], [('yaw_wind, yaw_error, update_yaw_pos, chi from the wind', WT)], ['yaw_wind', 'yaw_error', 'chi', 'compute_u', 'update_yaw_pos'], 'angles from cross/dot products, location of the wake sheet from the observed field', 'angles 1e-9; wake position by velocity jump')
p('P17', 'A turbine is its settings: history does not matter',
  'Whatever the sequence of wind, yaw, position, skew, loading updates, evaluations and displays, a turbine gives the same velocities and reports as a new turbine with the final settings. '
  'Evaluating or printing a turbine changes nothing; a prescribed skew angle stays until it is withdrawn. A copied turbine (copy.deepcopy) behaves as the original and is independent of it.',
  ['histories'], 'random sequences of 2-15 updates, evaluations, displays and copies', 'Tests set a turbine up once and evaluate it.',
  [WT, WF], [('cached skew angle and transformation matrices', WT)], ['WindTurbine', 'WindFarm.layout'], 'fresh object with the last value of each setting', 'relative 1e-10')
p('P18', 'Nothing passed in is modified, nothing handed out is shared',
  'No call to a function or method of the package changes an array or list given by the caller, and later changes by the caller to arrays he gave or received do not change a turbine, a farm or earlier results. '
  'Two turbines or farms never share state, and functions and separate objects used from several threads at once give what they give one after another.',
  ['histories', 'inputs', 'schedules'], 'all public functions and methods, in all branches the workloads reach; 2-6 threads with forced switches', 'No test checks its inputs after a call.',
  [WT, WF, SO, VC, VCS, VR, VD, VL, VP, EL, SS], [('copies of arrays at the interface', 'constructors, update_* methods, Solver functions')], ['all public functions (instrumented, nested calls included)'], 'byte comparison of arguments before/after each hooked call, aliasing probes', 'exact')
p('P19', 'With ground effect no air crosses the ground',
  'With ground effect, for every turbine, hub height, skew and kind of vorticity, the velocity normal to the ground is zero on the ground, the flow above is the mirror image of the flow below, and it equals turbine plus mirrored turbine of opposite rotation. '
  'The same holds for superpositions of cylinders with the ground option, and the ground effect vanishes when the hub is very high.',
  ['inputs', 'configurations'], 'all frames, heights (0 included), skews, loadings, kernels with a Ground option', 'Tests check tangential vorticity at hub height 0.',
  [WT, VC, VCS], [('mirrored cylinders and their signs', 'vcs_*, svcs_*, compute_u')], ['compute_u(ground=)', 'vcs_tang_u', 'vcs_longi_u', 'svcs_*'], 'velocity on the ground plane, mirrored pairs, explicit mirror turbine', 'about 3e-8 of the induction')
p('P20', 'A farm velocity field is the sum of its turbines plus the free stream once',
  'For every farm, options and order of turbines, the farm velocity is the sum of the inductions of its turbines, plus the given free stream exactly once; an empty farm adds nothing. '
  'A farm behaves as a list of turbines (only turbines can be appended), and reading or setting its layout reads or moves exactly its turbines; its report gives their number and positions.',
  ['inputs', 'histories', 'configurations'], 'farms of 0-6 turbines, all options, list operations, layout changes', 'The tests of the farm cover the grid layout only.',
  [WF], [('velocity_field accumulation, layout property', WF)], ['WindFarm.velocity_field', 'WindFarm.append', 'layout', 'nWT'], 'sum of separately evaluated turbines', 'about 1e-12')
p('P21', 'no_wake removes the wake tube and nothing else',
  'With no_wake a turbine induces nothing in the tube of rotor radius around its shaft axis (along the shaft also when the wake is skewed), from 0.6 radius upstream of the rotor to infinity downstream, and exactly what it induces without the option everywhere else. '
  'This holds for every model, frame, skew, position and shape of control points, in farms too.',
  ['inputs', 'configurations'], 'control points inside, outside and near the boundary of the wake tube, all models and frames', 'Never tested.',
  [WT, WF], [('wake mask in the local frame', WT + ':compute_u')], ['compute_u(no_wake=True)', 'velocity_field(no_wake=True)'], 'geometric wake membership and the evaluation without the option', 'boundary band of 1e-6R not judged (5e-3R where the code enlarges the tube)')
p('P22', 'The alternative models approximate the vortex cylinder as documented',
  'The far-field hybrid model is the vortex cylinder within the far-field radius and the doublet line of equal strength outside of it, the doublet model is the doublet line, and the self-similar model the self-similar formula; each gets close to the cylinder with distance. '
  'Model given to the call overrides the one of the turbine; situations a model does not support are refused.',
  ['inputs', 'configurations'], 'all models, far-field radii, frames, points near/far/around the switch radius', 'One test compares models loosely.',
  [WT, VC], [('model dispatch and far-field switch', 'compute_u, vc_tang_u_doublet')], ['compute_u(Model=,R_far_field=)', 'vc_tang_u_doublet'], 'reference fields per region and decay of the difference', 'about 1e-8 per region')
p('P23', 'Turbine velocity is free stream plus its own wake system, correctly placed',
  'For every turbine setting (horizontal wind) and choice of components, the velocity is the free stream (unless only the induction is asked for) plus the fields of exactly the requested tangential, longitudinal and root vorticity of its cylinders, placed at the hub, along the yawed shaft and skewed with the wind, mirror image included with ground effect.',
  ['inputs', 'configurations'], 'frames, positions, yaw, wind, skew, 1-8 cylinders, swirl or not, components, ground', 'Tests verify a few component values for axis-aligned turbines.',
  [WT], [('compute_u', WT)], ['WindTurbine.compute_u'], 'independent reference turbine', '1e-7 of the induction scale')
p('P24', 'The flow field of a turbine has the thrust coefficient it was given',
  'For every thrust coefficient, however it is given (number, distribution, circulation, own relation, number of cylinders), the induction far downstream and in the rotor plane satisfies the momentum relation for that thrust (high-thrust correction above 0.9), strengths being in units of the undisturbed wind speed. '
  'Integrated axial load recovers the local thrust distribution. The tip-speed ratio given to the call replaces the one of the turbine; strengths can also be set directly.',
  ['inputs', 'configurations'], 'Ct up to 1.3, distributions, tip-speed ratios 1.5..inf, 1..n cylinders, yaw', 'Tests use one constant Ct.',
  [WT, SO], [('update_loading and the solvers', WT + ', ' + SO)], ['update_loading', 'compute_u'], 'momentum theory on the observed velocities', 'about 1e-6')
p('P25', 'The solvers conserve momentum and vorticity annulus by annulus',
  'For every circulation or thrust distribution, radial grid and tip-speed ratio, the discrete and continuous solvers return wake vorticity satisfying the annulus momentum balance (swirl terms included when asked for), and the total longitudinal and root vorticity add up to zero. '
  'Both converge to each other, do not depend on the units of length and velocity, and keep their inputs.',
  ['inputs', 'configurations'], 'distributions of 1-60 stations, lambda 1.5..inf, U0, R, with/without swirl, high thrust correction, methods', 'One prescribed case is tested.',
  [SO], [('WakeVorticityFromCirculation_Discr/_Cont, InductionsFromCirculation_VC_Cont', SO)], ['WakeVorticityFromCirculation_Discr', 'WakeVorticityFromCirculation_Cont', 'InductionsFromCirculation_VC_Cont'], 'independent balance, conservation sums, unit changes', 'about 1e-9; known discretisation choices of the swirl term are part of the reference')
p('P26', 'Loading relations are consistent with each other',
  'For every radial distribution, circulation obtained from a thrust coefficient gives that coefficient back; the stream-tube inductions satisfy thrust and torque momentum equations (also with the torque coefficient prescribed in the continuous solver); the wake vorticity obtained from a thrust coefficient and from a circulation satisfies the same local equilibrium; a cut-off thrust distribution is constant between the cut-off radii and drops linearly to zero towards the root and the tip outside of them.',
  ['inputs'], 'Ct, Cq, lambda, cut-off radii, grids', 'A single case is tested.',
  [SO], [('CirculationFromPrescribedCt, InductionsFromPrescribedCtCq_ST, Ct_const_cutoff, WakeVorticityFromCt/Gamma', SO)], ['Ct_const_cutoff', 'CirculationFromPrescribedCt', 'InductionsFromPrescribedCtCq_ST', 'WakeVorticityFromCt', 'WakeVorticityFromGamma'], 'momentum equations and round trips', 'about 1e-10')
p('P27', 'The self-similar model is the published formula upstream and zero downstream',
  'For every radius, strength, model constants and control point, the axial induction upstream is the published self-similar formula, and zero downstream. '
  'It has the sign of the strength, decays upstream and outwards, is half the strength at the rotor centre, and profiles collapse when scaled by the half width.',
  ['inputs'], 'all points, radii, strengths, constants', 'Tests only check the axis.', [SS], [('ss_u', SS)], ['ss_u'], 'published formula', '1e-12')
p('P28', 'Grid layouts place every turbine once; the constant-CT farm is their sum',
  'For every number of rows and columns, spacings and hub height, the grid layout contains each grid position exactly once, centred column floor(n/2) at x=0 and first row at z=0, all at hub height, followed by the mirror image of each one if asked for. '
  'The constant-CT farm field is the sum of identical vortex cylinders of strength -U0(1-sqrt(1-CT)) at these positions.',
  ['inputs'], 'nx, nz 1-12, spacings of both signs, hub heights, mirror, CT 0..1', 'One 2x2 layout is tested.',
  [WF], [('gridLayout, windfarm_gridlayout_CTconst', WF)], ['gridLayout', 'windfarm_gridlayout_CTconst'], 'independent layout and cylinder sums', '1e-12 positions, 2e-9 velocities')
p('P29', 'Rotations, frame changes and rotor-disk points are orthonormal and right-handed',
  'For every axis and angle the rotation matrix is the right-handed rotation (orthonormal, keeps its axis, angles add), the orthogonal vector is of unit length and orthogonal, and the two frame transformations are exact inverses for any shape of arrays. '
  'Rotor-disk points lie equally spaced on a closed circle of the rotor radius around the hub, in the current rotor plane.',
  ['inputs', 'histories'], 'all axes, angles, arrays, turbine frames, yaw and position updates, numbers of points', 'No test calls them directly.',
  [WT, VCS], [('RotMat_AxisAngle, orth_vect, transform, transform_T, rotor_disk_points', WT)], ['RotMat_AxisAngle', 'orth_vect', 'transform', 'transform_T', 'rotor_disk_points', 'skew_components', 'polar_components'], 'Rodrigues formula, geometric identities', '1e-13')
p('P30', 'Rotor-plane functions Kzt and Kxit describe the skewed wake',
  'For every radius inside the rotor and skew angle, Kzt and Kxit (closed form and every numerical form offered) equal the variation of the axial and skew components of the velocity of the skewed tangential cylinder across the rotor plane. '
  'Kzt is odd and Kxit even in the skew, and the Oye function is 0.5(r+0.4r^3+0.4r^5).',
  ['inputs'], 'r in [0,0.97], tan(chi) of both signs 0.01..3 (0 for Kxit)', 'Only compared in a figure script for one angle.',
  [VCS], [('fKzt, fKxit', VCS)], ['fKzt', 'fKxit'], 'Biot-Savart integral in the rotor plane', '1e-9+2e-14/m^2')
p('P31', 'Colour maps and contour levels match the speeds they stand for',
  'For every speed range and transparency the speed colour map is white at the undisturbed speed, runs through its published colours at 0.90, 0.95, 0.98 of it and ends with its end colours; a map made of given colours and positions interpolates linearly between them, with or without transparency. '
  'The levels returned with the map are the published speeds. Contour levels increase and contain the level lines.',
  ['inputs'], 'ranges, numbers of colours, positions, transparencies', 'Only used for figures, never tested.',
  [PF], [('make_colormap, get_cmap, get_contours', PF)], ['make_colormap', 'get_cmap', 'get_contours'], 'piecewise linear interpolation', 'one step of the 256-entry table')
p('P32', 'Blockage-study helpers build the stated farms and extract the stated surveys',
  'For every matrix of thrust coefficients, spacing and hub height, the blockage-study farms consist of turbines with these thrust coefficients at these grid positions (ground effect when the hub is below 10), and their velocity is the corresponding cylinder field; single-turbine set-ups reproduce the given skew, ground and strength in every survey (axial, radial, planes, points). '
  'Look-ups in given planes interpolate exactly linear data, and the error measures are zero for identical and mean relative difference for different signals.',
  ['inputs', 'configurations'], 'CT matrices 1-4 x 1-4, spacings, hub heights, skews, surveys, data planes', 'The scripts need data that is not shipped; nothing is tested.',
  [BH, WF, WT], [('VCFarmFromFloris, ADFarm2VCFarm, setupModel, OutputVC, OutputAD', BH)], ['VCFarmFromFloris', 'ADFarm2VCFarm', 'setupModel', 'OutputVC', 'OutputAD', 'relerrinduction', 'find_nearest'], 'independent cylinder sums and interpolation', '2e-7 velocities')

p('P33', 'Omitted arguments mean the documented defaults',
  'For every public function, turbine and farm method with optional arguments, leaving arguments out gives the same result as passing the default of its documented signature (strength -1, radius 1, no skew, no ground, no regularisation, stated output form, ...), whatever the other arguments are. '
  'Settings of a turbine that are not given to a call (ground, model, tip-speed ratio) are those of the turbine.',
  ['inputs', 'configurations'], 'all public functions, random subsets of omitted arguments, random values of the others', 'Tests mostly pass every argument.',
  [VC, VCS, VR, VD, VL, VP, WT, WF, SO, SS, PF, BH], [('signatures of the public functions', 'all modules')], ['all public functions'], 'the same call with the defaults written out', '1e-10')
p('P34', 'Blockage-study reference data are read, sliced, compared and drawn as stored',
  'For every stored case, the blockage-study readers return the fields of exactly the requested thrust coefficient, height, tip-speed ratio, yaw and plane, with their coordinates, and nothing for cases that do not exist; slices of boxes are those nearest to the hub; lines of farms are the middle and top ones of the requested layout. '
  'The comparison gives, for each model and direction, the relative axial-velocity difference in percent along the requested points, and its mean over directions; drawn planes show the requested component, limits and levels.',
  ['inputs', 'configurations'], 'made-up data sets, thrust coefficients 0.10-0.99, heights, orientations, rays and offsets, models', 'The data are not shipped; nothing is tested.',
  [BH], [('loadPlane, OutputProj, OutputADLines, getModelsRelErr, plotPlane, plotPlaneVert', BH)], ['loadPlane', 'OutputProj', 'OutputADLines', 'getModelsRelErr', 'plotPlane', 'plotPlaneVert'], 'the data written by the monitor, and reference models', '1e-6 percent')

p('P35', 'Vortex elements agree with each other where they describe the same vorticity',
  'For every geometry and strength, different elements that stand for the same vorticity induce the same velocity: a tangential cylinder is a stack of rings, straight or skewed; a longitudinal cylinder a bundle of half lines and the root vortex one of them; outside of the wake a cylinder is a bundle of doublet lines, a ring a disk of doublets, a doublet line an integral of doublets. '
  'Far downstream the wake of a turbine is that of 2D vortex points on its elliptic cross section. Distant, thin or barely skewed elements tend to the simpler one (doublet, solenoid, straight cylinder), and functions for several elements are the sum of the single ones, mirror images included.',
  ['inputs', 'configurations'], 'radii, strengths, skews up to tan(chi)=1.5, points 0.25R or more from the sheets up to 30R, wakes, mirror images', 'Tests compare two elements on one line, for one geometry.',
  [VC, VCS, VR, VD, VL, VP, SS, WT], [('one formula per element, each with its own conventions', 'all element modules')], ['vc_tang_u', 'svc_tang_u', 'svc_longi_u', 'svc_root_u', 'ring_u', 'doublet_u', 'doublet_line_u', 'vl_semiinf_u', 'vps_u', 'cylinder_tang_u', 'svcs_tang_u', 'compute_u'],
  'the other elements of the library', 'quadrature of one element against the other, 1e-6 or the order of the limit')
p('P36', 'Shipped examples, figure scripts and coupling helpers show what the models give',
  'Every field and line drawn by the blockage-article scripts and by the runnable examples (turbine with and without ground, yawed turbine, farm, curled wake, skewed cylinders, comparisons of doublets with cylinders and rings) is the velocity of the stated turbine, thrust, yaw and normalisation at the drawn coordinates, with rotor and wake outlines where the turbine and its wake are. '
  'The curled-wake functions are the 2D points or half lines on the rim of the tilted disk for every radius, tilt and circulation. Planes of the coupled model are requested, stored, read back and drawn unchanged up to the requested normalisation.',
  ['inputs', 'configurations'], 'all drawn points of the scripts, random ellipses, random planes, sizes, normalisations, file names, drawing options', 'The scripts are never run by the tests.',
  ['wiz/article_blockage', 'wiz/examples', 'coupling_examples/helper_functions.py', WT, WF], [('script parameters, normalisations and coordinates', 'wiz/article_blockage, wiz/examples'), ('plane storage', 'coupling_examples/helper_functions.py')],
  ['contourf', 'plot', 'streamplot', 'savePlane', 'loadPlane', 'plotPlane', 've_u', 'vcl_u'], 'independent cylinder fields at the drawn coordinates; the planes served by the monitor', '1e-6 (figures with coarse azimuthal integration 1e-4); scripts needing packages that are not installed are not run')
p('P37', 'Printed descriptions of turbines and farms state their actual settings',
  'Whatever the settings and the updates made, the short and full text of a turbine (tostring, str, repr) state its current name, radius, hub position, wind, yaw error in degrees and, in the full text, wind angle, yaw position, shaft and the frame matrices; the text of a farm states its name, number of turbines and current positions.',
  ['inputs', 'histories'], 'random frames, names, 0-4 updates, farms of 1-6 turbines', 'Never tested.',
  [WT, WF], [('tostring, __repr__', WT + ', ' + WF)], ['tostring', '__repr__', 'nWT'], 'the settings that were given', 'printed digits')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            o = dict(id=d['id'], title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'],
                     anchors=dict(files=d['files'], mechanism=[dict(name=a, where=b) for a, b in d['mech']], observe_at=d['observe'], hook_needed=None))
            f.write(json.dumps(o) + '\n')
    checks = [dict(property=d['id'], quick_cmd='/opt/venv/bin/python run.py ' + d['id'], thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python run.py ' + d['id'],
                   evidence_file='evidence/%s.json' % d['id'], technique='runtime monitoring: online monitors over seeded workloads; oracle: ' + d['oracle'], level='exploration',
                   level_note='Every execution of the workload is judged; nothing is claimed about inputs not drawn. ' + d['note'] + '. Trusts numpy/scipy/mpmath and wizmon/ref.py (cross-checked by setup_cmd).') for d in P]
    na = json.load(open(os.path.join(HERE, 'tools', 'na.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'na.json')) else []
    for n in na:
        pass
    m = dict(version=1, setup_cmd='/opt/venv/bin/python selftest.py', checks=checks, not_applicable=na,
             notes='No hooks are committed in /repo: instrumentation is applied at run time from /verif (wizmon/tap.py wraps public functions in the checked process only). fix: commits repair defects found.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
