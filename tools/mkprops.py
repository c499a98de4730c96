"""Writes properties.jsonl (one source of truth for the statements)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': ['pySailingVLM/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'pySailingVLM/' + w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


V, K, F = 'solver/velocity.py', 'solver/coefs.py', 'solver/forces.py'
SG, SF = 'yacht_geometry/sail_geometry.py', 'yacht_geometry/sail_factory.py'

prop('C01', 'Vortex filaments induce the Biot-Savart velocity, and nothing inside the core',
     'The velocity that a straight vortex filament induces at a point is the Biot-Savart integral of that filament for every position and '
     'circulation: proportional to the circulation, perpendicular to the plane of filament and point, and reversed when the ends are swapped. '
     'A semi-infinite filament induces the limit of a finite one whose far end recedes along the given direction, whatever the length of the '
     'direction vector. At the ends of a filament, on the straight line through it, or on the axis of a semi-infinite one, the contribution is '
     'exactly zero and never undefined.',
     ['inputs'], 'All evaluation points, end points, directions and circulations; the core is: distance to an end below 1e-8, or the squared '
     'cross product of the two end offsets below 1e-8.',
     'The tests sample three or four points per filament; sign, scale or tolerance errors away from them, and the singular positions of the '
     'semi-infinite filament, are not reached.',
     [V], [('finite segment', V + ' vortex_line'), ('semi-infinite segment', V + ' vortex_infinite_line'),
           ('core test', V + ' is_in_vortex_core')])

prop('C02', 'Vortex rings and horseshoes are exactly the sum of their filaments',
     'A vortex ring induces the sum of its four sides taken in order around the loop; a horseshoe with two legs induces the bound filament plus '
     'two semi-infinite legs leaving along the apparent wind with opposite circulation; the trailing-edge vortex induces its three bound sides '
     'plus two such legs leaving from its two aft corners. Splitting a filament at an intermediate point changes nothing, a side shared by two '
     'adjacent rings of equal circulation cancels, and a trailing vortex whose aft corners sit on its bound corners along the wind equals the '
     'plain horseshoe.',
     ['inputs'], 'All points, corner positions, wind directions and circulations outside vortex cores.',
     'The tests compare one ring and one horseshoe with constants at a single point; closure and cancellation are statements about all of them.',
     [V], [('ring', V + ' vortex_ring'), ('horseshoe', V + ' vortex_horseshoe'), ('trailing-edge horseshoe', V + ' vortex_horseshoe_v2')])

prop('C03', 'Induced velocities and loads do not depend on the coordinate frame',
     'Moving a vortex and the point it is observed from by the same translation leaves the induced velocity unchanged, rotating both rotates it, '
     'mirroring both in a plane mirrors it with opposite circulation, and scaling both by a factor divides it by that factor. A flat wing turned '
     'about its span together with the wind direction carries the same circulations and loads turned by the same angle.',
     ['inputs'], 'All vortex geometries, translations, rotations about the coordinate axes by any angle, mirrors and scales; wings up to the panel counts listed.',
     'A test fixes one frame; equivariance quantifies over every frame.',
     [V, K, F, 'runner/aircraft.py'], [('induced velocity', V), ('panel system', K)])

prop('C04', 'The influence matrix holds the normal velocity each unit vortex induces',
     'Entry (i, j) of the influence matrix is the velocity that the vortex of panel j with unit circulation induces at control point i, taken '
     'along the normal of panel i, and the stored velocity for (i, j) is that same velocity. A panel flagged as trailing edge sheds its wake along '
     'the apparent wind of that panel, every other panel carries a closed ring. The induced velocity at a panel is the sum over all panels of '
     'stored velocity times circulation, and the total velocity adds the undisturbed apparent wind of the same panel.',
     ['inputs', 'configurations'], 'All evaluation points, corner positions, normals, winds, circulations and edge-flag patterns for up to 17 panels; the solver on sail sets up to 2 by 2 or 1 by 3 panels, heeled, flat or of free shape.',
     'Tests compare a handful of entries of one matrix; swapped indices or a wind taken from the wrong panel are invisible when the wind is uniform or the geometry symmetric.',
     [K, V], [('influence matrix', K + ' calc_velocity_coefs'), ('superposition', V + ' calc_induced_velocity, calculate_app_fs')])

prop('C05', 'The solved flow does not cross any panel, and a flow that does is rejected',
     'For every sail or wing that the solver accepts, the sum of undisturbed apparent wind and induced velocity at each control point has no '
     'component along the panel normal. The solver rejects a solution with an error when any panel has flow through it above 1e-12, a '
     'not-a-number flow, or an area that is not a number or below 1e-14, whichever panel that is, and accepts it otherwise.',
     ['inputs', 'configurations'], 'All wind speeds, directions, densities and boat speeds, on sail sets up to 2 by 2 or 3 by 1 panels (upright, heeled, flat, free shape) and wings; all flows, normals and areas for up to 20 panels for the acceptance test.',
     'Tests run one layout and one wind; the boundary condition is a statement about every layout and wind, and the rejection path is tried on few inputs.',
     [K, F, V, 'solver/vlm.py', 'runner/aircraft.py'],
     [('right-hand side', K + ' calculate_RHS'), ('linear solve', K + ' solve_eq'), ('acceptance test', F + ' is_no_flux_BC_satisfied')])

prop('C06', 'Panel loads follow the Kutta-Joukowski law and split into lift plus drag',
     'The load on each panel is the density times the cross product of the local velocity at the load point with the circulation bound to that '
     'panel, which is its own circulation at a leading edge (and in a layout without a separate leading row) and otherwise the difference to the panel in front of it. Lift '
     'uses the undisturbed apparent wind, drag the induced velocity and the total load their sum, so that lift plus drag equals the total on every '
     'panel; lift is perpendicular to the wind and each load perpendicular to the local velocity and to the bound filament. An unknown load name is refused.',
     ['inputs', 'configurations'], 'All circulations, winds, geometries and densities for grids up to 3 by 3 panels, three sails and 24 panels in total; the solver on layouts up to 2 by 2 or 3 by 1 panels.',
     'Tests compare the loads of two or three hand-computed layouts; which panel lies in front, and the split, must hold for every grid shape.',
     [F, 'solver/vlm.py'], [('loads', F + ' calc_force_wrapper')])

prop('C07', 'Pressures are normal loads over area, coefficients over dynamic pressure',
     'The pressure on a panel is the component of its load along its own normal divided by its own area. Its pressure coefficient is that '
     'pressure divided by half the density times the squared undisturbed apparent wind speed of the same panel.',
     ['inputs'], 'All loads, normals, areas, pressures, densities and winds for up to 17 panels (60 thorough), and every panel of solved sails and wings up to 2 by 2 or 3 by 1 panels.',
     'Tests use one array of equal areas and winds, so that taking them from the wrong panel goes unnoticed.',
     [F, 'solver/vlm.py'], [('pressure', F + ' calc_pressure'), ('coefficients', F + ' calc_pressure_coeff')])

prop('C08', 'Results scale with wind speed and density; circulation sign is a convention',
     'Multiplying all wind and boat speeds by a positive factor multiplies circulations by that factor, loads and pressures by its square, and '
     'leaves pressure and force coefficients unchanged. Multiplying the density multiplies loads and pressures by the same factor and leaves circulations '
     'and coefficients unchanged. Reversing the sign convention for circulation leaves loads and pressures unchanged.',
     ['inputs', 'configurations'], 'All wind vectors, scale factors and densities on sails up to 2 by 2 or 3 by 1 panels (upright, heeled, flat, free shape), two sails, and wings up to 2 by 1 or 1 by 2.',
     'A test sees one speed and one density; a similarity law relates every pair.',
     [K, F, 'solver/vlm.py', 'runner/aircraft.py'], [('solution', 'solver/vlm.py'), ('wing', 'runner/aircraft.py')])

prop('C09', 'Control and load points, normals and vortex corners follow the lattice',
     'On every panel the load point and the control point lie on the line joining the mid-points of the fore and aft edges, at one quarter and '
     'three quarters of it, and the normal is a unit vector perpendicular to both diagonals with a fixed orientation. The bound vortex runs between the quarter '
     'points of the two side edges; the vortex of a panel closes on the quarter points of the panel behind it in the same strip of the same sail, or for a '
     'trailing-edge panel one quarter of its sides behind its aft edge. The span vector is the bound vortex taken in the circulation sign convention.',
     ['inputs', 'configurations'], 'All panel corner positions; grids up to 11 by 1, 1 by 11, 4 by 4 and 3 by 3, up to 4 sails with images; both sign conventions.',
     'Tests use flat rectangular panels on which several wrong formulas coincide, and few grid shapes.',
     [K], [('lattice points, sails', K + ' calculate_vlm_variables'),
           ('lattice points, wings', K + ' calculate_normals_collocations_cps_rings_spans_leading_trailing_mid_points')])

prop('C10', 'A point mesh becomes panels that tile it, with the edge rows flagged',
     'From a mesh of points with R rows and C points per row, (R-1)(C-1) panels are made row by row, each with the four mesh points around it in '
     'the fixed order aft-low, fore-low, fore-high, aft-high. Exactly the panels of the last row are flagged as trailing edge and exactly those of '
     'the first row as leading edge, except that a single row is flagged as trailing edge only.',
     ['inputs', 'configurations'], 'All point coordinates; 19 mesh shapes up to 9 by 9, 14 by 2 and 2 by 14 points (33 by 3 and 17 by 21 thorough).',
     'Tests use one or two mesh sizes; off-by-one errors depend on the size.',
     ['solver/panels.py'], [('panels', 'solver/panels.py make_panels_from_mesh_spanwise')])

prop('C11', 'Panel areas are the true areas of the panels',
     'The area of a panel is the area of the surface its four corners span: it equals the geometric area of every '
     'flat panel, whatever its taper, is non-negative, scales with the square of size and does not depend on where the panel lies or how it is turned.',
     ['inputs'], 'All panel corner positions.',
     'Tests use rectangles and one trapezoid.',
     ['solver/panels.py'], [('areas', 'solver/panels.py get_panels_area')])

prop('C12', 'Segments and point grids are evenly spaced and end exactly at their corners',
     'Dividing a segment into n parts gives n+1 equally spaced points that start and end exactly at its end points. A grid between two point rows '
     'connects corresponding points by such segments. Panels of a wing given by its four corners tile the bilinear surface between them with the requested '
     'number of rows along the chord and columns along the span.',
     ['inputs', 'configurations'], 'All corner positions; segments of up to 50 parts (100 thorough), grids and wings up to 8 by 8, 12 by 1 and 1 by 13.',
     'Tests use single segments along an axis.',
     ['solver/mesher.py', 'solver/panels.py'],
     [('segment', 'solver/mesher.py discrete_segment'), ('grid', 'solver/mesher.py make_point_mesh'),
      ('wing panels', 'solver/panels.py make_panels_from_le_te_points')])

prop('C13', 'The airfoil camber line is the NACA four-digit camber line',
     'For every admissible maximum camber and camber position, the camber line is the NACA four-digit parabola pair at evenly spaced stations '
     'from leading to trailing edge: it is zero at both ends (at the trailing edge only, when the position is zero), nowhere exceeds the maximum camber, reaches it at the camber position with '
     'zero slope, and is continuous there.',
     ['inputs'], 'All camber values from 0 to 0.3 and positions from 0 to 0.9; 2 to 20 stations (51 thorough).',
     'Tests compare three airfoils with tabulated coordinates.',
     ['thin_airfoil/vlm_airfoil.py'], [('camber line', 'thin_airfoil/vlm_airfoil.py VlmAirfoil')])

prop('C14', 'Airfoil surfaces lie half a thickness to either side of the camber line',
     'The upper and lower surface points lie at equal distance from the camber point on its two sides along the camber normal, at the NACA four-digit thickness '
     'for the given thickness ratio, so that the mean of both is the camber line a zero thickness gives the camber line itself, and the surfaces close at the trailing edge. '
     'Parameters outside camber 0 to 0.3, position 0 to 0.9 or thickness 0 to 0.4 are refused, all others accepted.',
     ['inputs'], 'All real parameter values for acceptance; all admissible parameters for the surfaces; 2 to 12 stations (33 thorough), thickness up to 150 (10002 thorough).',
     'Tests compare three airfoils; the acceptance limits are intervals of reals.',
     ['thin_airfoil/vlm_airfoil.py'], [('surfaces', 'thin_airfoil/vlm_airfoil.py VlmAirfoil'),
                                       ('limits', 'thin_airfoil/vlm_airfoil.py __check_naca_params')])

prop('C15', 'Spanwise sail data are interpolated through the given stations',
     'Data given at stations along the girth are evaluated at evenly spaced stations from foot to head: linearly between neighbours, or by the interpolating cubic spline, '
     'in both cases exactly reproducing the data at the given stations, depending linearly on the data and reproducing data that vary linearly. Mirrored data are the same values in reverse order '
     'followed by the values in order, and a sail set lists the jib before the main sail.',
     ['inputs', 'configurations'], 'All data values; the station layouts listed (symbolic station positions for the linear mode); 2 to 51 output stations.',
     'No test touches the interpolator directly.',
     ['solver/interpolator.py'], [('interpolation', 'solver/interpolator.py Interpolator')])

prop('C16', 'Rotations turn points about the given axis by the given angle',
     'Rotating about an axis through the origin or through two arbitrary points keeps every point of the axis fixed, keeps distances and handedness, composes by adding angles, is undone by the opposite '
     'angle, and turns a vector perpendicular to the axis by exactly the given angle counter-clockwise as seen against the axis direction. '
     'The result does not depend on the length of the axis vector, and it is defined for every axis direction.',
     ['inputs'], 'All points, axis positions, axis directions and angles.',
     'Tests rotate a few points about a few axes; an axis parallel to a coordinate direction is a special case in the code.',
     ['rotations/geometry_calc.py'],
     [('matrix', 'rotations/geometry_calc.py rotation_matrix'), ('two-point axis', 'rotations/geometry_calc.py rotate_points_around_arbitrary_axis'),
      ('origin axis', 'rotations/geometry_calc.py rotate_points_around_origin_axis')])

prop('C17', 'Heel and leeway transform points rigidly, with the water surface as a mirror',
     'Points above the water are heeled about the longitudinal axis towards leeward by the heel angle and then turned about the vertical by the '
     'leeway angle; their mirror images below the water map to the mirror images of the results. The transformation without mirror applies '
     'the above-water motion to every point. The reverse transformation recovers every point whose heeled image stays on its side of the water.',
     ['inputs'], 'All heel and leeway angles and all points.',
     'Tests check a few angles and points.',
     ['rotations/csys_transformations.py'], [('transformations', 'rotations/csys_transformations.py CSYS_transformations')])

prop('C18', 'Sail meshes keep their luff, chords, camber and twist',
     'In the upright, untwisted state the mesh of a sail starts on the straight luff between tack and head, its sections have the given chords along the '
     'centreline and the given camber offsets at the given camber positions, at evenly spaced heights. Heel and leeway move it rigidly; twist turns every section about the luff by the sheeting angle required '
     'by the twist mode - the angle of that section, the smallest, or the average of all - and leaves luff points in place.',
     ['inputs', 'configurations'], 'All tack and head positions above the water, chords, cambers, camber positions, twists and heel and leeway angles within the boxes stated; twist with camber positions above zero; untwisted grids up to 4 by 3, 6 by 2 and 2 by 7, twisted ones up to 2 by 2, 3 by 1 and 1 by 4 (3 by 4 thorough); the three twist modes.',
     'The tests run one jib-and-main configuration with one twist mode and compare against stored output.',
     [SG, 'solver/mesher.py'], [('mesh', SG + ' SailGeometry'), ('airfoil sections', 'solver/mesher.py make_airfoil_mesh')])

prop('C19', 'The underwater image is the exact mirror of the sail in the water surface',
     'For every sail, the panels below the water are the panels above mirrored in the water surface with the spanwise order reversed, corner by corner, '
     'also when camber, camber position, chord and twist vary along the span and the yacht is heeled and drifts.',
     ['inputs', 'configurations'], 'All chords, cambers, camber positions, twists, heel and leeway within the boxes stated; up to 2 by 2 panels twisted (3 by 1, 1 by 3 thorough), larger untwisted grids; the three twist modes.',
     'The stored test case has a constant camber position, for which an unmirrored section list cannot be seen.',
     [SG], [('image mesh', SG + ' SailGeometry')])

prop('C20', 'Sails are mounted on the rig where the rig dimensions put them',
     'The main sail tack sits on the mast line at sheer height plus boom height measured along the rake, and its head lies one main luff length further along '
     'the mast. The jib tack sits at the sheer, one foretriangle base plus the mast depth forward of the mast, and its head lies one jib luff length along the forestay, '
     'which joins the foretriangle base to the mast at the foretriangle height.',
     ['inputs'], 'All rake angles, luffs, heights, bases and mast depths within the boxes stated, for a forestay that leans aft.',
     'Tests use one rig.',
     [SF], [('mounting', SF + ' SailFactory')])

prop('C21', 'A sail set lists above-water panels first, sails in order, flags aligned',
     'The panels of a set are the above-water panels of each sail in order followed by their images in the same sail order, and trailing-edge and leading-edge flags and the flat '
     'reference mesh follow exactly the same order, so that entry k of each describes the same panel. A jib-and-main set lists the jib first; a single-sail definition contains only that sail.',
     ['inputs', 'configurations'], 'All panel coordinates; sets of 1 to 3 sails; grids up to 3 by 2, 2 by 3, 4 by 1 and 1 by 5; the three sail definitions.',
     'Tests check counts for one configuration.',
     [SG, 'runner/sail.py'], [('set', SG + ' SailSet'), ('definition', 'runner/sail.py Sail')])

prop('C22', 'Wind profiles match the configured speed at reference height and grow as set',
     'The true wind is horizontal and blows at the configured angle at every height; at the reference height (for the power law measured from the reference water level) its speed is the configured one. With height it follows the power law, the logarithmic law, or stays constant, '
     'according to the chosen profile, does not decrease, and is proportional to the configured speed.',
     ['inputs', 'configurations'], 'All heights above the roughness height (or the reference water level), exponents, roughness, reference heights, speeds and angles.',
     'No test varies the profile parameters.',
     ['inlet/winds.py'], [('profiles', 'inlet/winds.py')])

prop('C23', 'The apparent wind on each panel is true wind at its height plus boat motion',
     'For every panel, the undisturbed apparent wind is the true wind at the height of its load point above or below the water plus the boat speed along the course; its length and its angle to the course belong to that vector for every wind direction, and the angle to the centreline is that angle less the '
     'leeway. Panels and their images see the same wind. The apparent wind angle computed from the speeds agrees with the direction of the vector.',
     ['inputs', 'configurations'], 'All load point positions, wind angles and speeds; the three profiles; up to 6 panels (12 thorough).',
     'Tests check one wind angle and profile.',
     ['inlet/inlet_conditions.py', 'inlet/winds.py'], [('inlet', 'inlet/inlet_conditions.py InletConditions'), ('apparent wind', 'inlet/winds.py WindBase')])

prop('C24', 'Reported forces and moments are the sums of the panel loads above the water',
     'The reported total force and moment are the sums over the above-water panels only, the per-sail values add up to them, and each panel moment is its arm '
     'from the chosen reference point crossed with its load. Moving the reference point changes the total moment by the shift crossed with the total force. The centreline values '
     'are the same vectors expressed in axes turned by the leeway angle about the vertical.',
     ['inputs', 'configurations'], 'All loads, load points, reference points and leeway angles; 1 to 3 sails, up to 9 panels.',
     'Tests compare one stored case.',
     ['results/inviscid_flow.py', F, 'rotations/csys_transformations.py', 'solver/additional_functions.py'],
     [('resultants', 'results/inviscid_flow.py InviscidFlowResults'), ('moment arms', F + ' calc_moment_arm_in_shifted_csys'), ('moments', F + ' calc_moments')])

prop('C25', 'The centre of effort reproduces the force and moment it is derived from',
     'Given a non-zero force and the dot and cross products of any arm with it, the recovered vector is that arm. The centre of effort reported for the sails, crossed with the total force, gives the part of the total moment '
     'perpendicular to that force, and its component along the force is the sum of the panel arm-load products over the force magnitude.',
     ['inputs'], 'All arms and non-zero forces; all panel loads of 1 to 3 sails with up to 3 panels each.',
     'A test recovers one vector.',
     [F, 'results/inviscid_flow.py'], [('recovery', F + ' determine_vector_from_its_dot_and_cross_product'), ('centre of effort', 'results/inviscid_flow.py')])

prop('C26', 'The keel estimate balances the sail force at the centre of lateral resistance',
     'The keel moment is the moment of the reversed total sail force acting at the heeled and drifted centre of lateral resistance. Reported total moments are sail plus keel, in both coordinate systems, with '
     'the yaw moment also reported with opposite sign; before a keel estimate is made, no keel or total entries are reported.',
     ['inputs', 'histories'], 'All sail forces and moments, centres of lateral resistance, heel and leeway; estimates made zero, one or two times.',
     'Tests compare one stored case.',
     ['results/inviscid_flow.py', 'yacht_geometry/hull_geometry.py'], [('keel', 'results/inviscid_flow.py estimate_heeling_moment_from_keel'), ('totals', 'results/inviscid_flow.py to_df_integral')])

prop('C27', 'Result tables list each panel with its own values under the right heading',
     'Every row of the component tables belongs to one above-water panel in solver order, and every column holds for that panel the quantity its heading names - circulation, velocities, '
     'lengths, angles in the correct quadrant, pressure, loads and moments, load point, true and apparent wind, upright height, height along the luff as a fraction from tack to topmost load point, and the name of its sail. '
     'The integral table holds the totals under their headings.',
     ['inputs', 'configurations'], 'All solver results; 1 to 3 sails; up to 5 panels.',
     'The stored case has one wind and no panel with reversed flow, so quadrant errors and swapped columns with equal values are not visible.',
     ['results/inviscid_flow.py', 'results/save_utils.py', 'solver/additional_functions.py', 'inlet/inlet_conditions.py'],
     [('tables', 'results/inviscid_flow.py to_df_full, to_df_integral'), ('merge', 'results/save_utils.py save_results_to_file'),
      ('heights', 'solver/additional_functions.py get_cp_z_as_girths_all')])

prop('C28', 'Section coefficients are area-weighted strip loads, lift and drag kept apart',
     'The coefficient of a spanwise strip of a sail above the water is the area-weighted mean over its panels of load magnitude over dynamic pressure and panel area. '
     'The distribution shown for a sail is that value divided by the area-weighted mean over the strips of that sail, at the mean height of the strip load points, lift from lift loads and drag from drag loads, '
     'and the plot labelled lift shows lift.',
     ['inputs', 'configurations'], 'All loads, areas, winds and heights; 1 to 4 sails, grids up to 49 panels per sail (7 by 7, 1 by 12; 9 by 8 and 3 sails of 5 by 6 thorough).',
     'No test covers the section coefficients.',
     [K, 'runner/cli.py'], [('strip coefficients', K + ' get_C'), ('distribution', K + ' get_data_for_coeff_plot'), ('plots', 'runner/cli.py main')])

prop('C29', 'Wing coefficients are total load over dynamic pressure and reference area',
     'For a rectangular wing the force coefficients are the total load over dynamic pressure times wing area, lift and drag being the components along z and x in the helper for horizontal wings, and along y and x in the wing model, whose span runs along z; the aspect ratio is span over '
     'chord, and the theoretical values follow lifting-line theory with span efficiency 0.8; the printed report of a wing shows these numbers under their names. At zero incidence to the wind the wing carries no load, and loads are proportional to the '
     'square of the wind speed.',
     ['inputs', 'configurations'], 'All loads, winds, densities and areas; wings up to 2 by 2, 3 by 1 and 1 by 3 panels with any wind vector and density.',
     'Tests use two wings at one incidence.',
     [K, 'runner/aircraft.py'], [('coefficients', K + ' get_vlm_CL_CD_free_wing, get_vlm_Cxyz, get_CL_CD_free_wing'), ('wing', 'runner/aircraft.py Aircraft')])

prop('C30', 'Configurations are validated, and defaults are self-consistent',
     'A sail definition whose required inputs are missing or whose station arrays differ in length is refused, a wind definition that is unknown or lacks a parameter of its profile is refused, and '
     'all others are accepted. Without explicit twist the default twist follows from the given girths; configuration objects do not share '
     'mutable defaults; the selected profile and sails use exactly the configured parameters.',
     ['configurations', 'inputs', 'histories'], 'Every subset of missing entries, every mismatch of one array length, every profile and sail definition; all parameter values.',
     'Tests try a few incomplete configurations.',
     ['runner/sail.py', 'runner/container.py'], [('sail checks', 'runner/sail.py Sail.__post_init__'), ('wind checks', 'runner/sail.py Wind.__post_init__'),
                                                 ('defaults', 'runner/container.py')])

prop('C31', 'Sail and image carry mirror-symmetric flow; no flow crosses the water surface',
     'For any sail set, in a wind that depends only on the distance from the water surface, the circulations of a panel and of its image are equal and the velocities and loads on the two are mirror images of each other. '
     'The vortices of sail and image together induce no velocity through the water surface.',
     ['inputs', 'configurations'], 'All winds and densities on the listed layouts (1 by 1 to 2 by 2 panels, one or two sails, upright, heeled, flat or of free shape); all points of the water surface.',
     'Tests never compare the two halves of a solution.',
     ['solver/vlm.py', K, F, V], [('solver', 'solver/vlm.py Vlm'), ('lattice', K)])

prop('C32', 'Hull lines follow sheer and heel; the lateral-resistance centre is not mirrored',
     'The deck lines lie at sheer height, three foretriangle bases long starting 1.1 bases forward of the mast, with the outline of the hull section (NACA 1028) to either side of the centreline, and are moved with heel and leeway as sails are, the underwater port and starboard lines being mirror images of the deck lines. '
     'The centre of lateral resistance moves with the hull itself and is not mirrored.',
     ['inputs'], 'All sheer heights, bases, heel and leeway angles and centre positions.',
     'Tests never look at the hull lines.',
     ['yacht_geometry/hull_geometry.py'], [('hull', 'yacht_geometry/hull_geometry.py HullGeometry')])

prop('C33', 'Calculations leave their inputs unchanged and repeat identically',
     'No calculation - meshing, transforming, assembling, solving, loads, results, tables - changes the arrays or objects it is given. Repeating a calculation '
     'on the same inputs, or after others, gives the same values.',
     ['histories', 'inputs'], 'All input values of the calculations listed, called once, twice and interleaved.',
     'Tests call each function once on fresh inputs.',
     [V, K, F, 'solver/panels.py', 'solver/mesher.py', SG, 'rotations/geometry_calc.py', 'results/inviscid_flow.py'], [('all calculations', 'solver/')])

prop('C34', 'The command-line run feeds the configuration into every stage',
     'A run reads the configuration once and uses the same heel, leeway, reference point, wind, density, rig and keel for geometry, solution, results and saved files; the printed and saved tables are those of '
     'that solution, and the plots receive the pressure coefficients and section coefficients of that solution under their own labels.',
     ['configurations', 'inputs'], 'All values of the numeric conditions on small grids; each sail definition and wind profile.',
     'No test runs the command line.',
     ['runner/cli.py'], [('run', 'runner/cli.py main')])

prop('C35', 'Plots show the quantities they are labelled with',
     'The yacht view draws every panel once, coloured by its own pressure coefficient (or circulation, when that is asked for and titled) on a scale from the smallest to the largest value; '
     'one arrow per load point next to the luff for the true, the apparent and, on request, the induced wind, each with the horizontal wind of that point at its height; the five hull lines; '
     'the total force at the centre of effort and the opposite reaction at the centre of lateral resistance. The pressure map shows every flat panel in the x-z plane with its own '
     'coefficient. The section plots show coefficient against height for every sail under that sail\'s name, lift and drag in their own files. Mesh plots draw the given rows and axes.',
     ['inputs', 'configurations'], 'All values of panels, winds, loads and hull lines for up to 2 sails of 2 by 3 panels (quick), 3 by 6 (thorough); colour scales of free values for up to 4 panels.',
     'No test draws anything.',
     ['solver/panels_plotter.py', 'solver/additional_functions.py', 'runner/cli.py'],
     [('yacht view', 'solver/panels_plotter.py display_panels_xyz_and_winds'), ('pressure map', 'solver/panels_plotter.py plot_cp'), ('section plots', 'solver/panels_plotter.py plot_section_coeff'),
      ('mesh plots', 'solver/additional_functions.py plot_mesh')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
