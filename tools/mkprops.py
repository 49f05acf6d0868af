#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
L='src/itmlogic/'
def P(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    return dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a)
REF="ITS Irregular Terrain Model reference (references/itm.pdf, version 1.2.2)"
ps=[
P('C01','Diffraction attenuation follows the ITM reference for every path',
 "For every set-up of antenna heights, horizons, terrain irregularity, ground impedance and frequency, and every distance, the diffraction attenuation returned equals the one defined by the "+REF+": the weighted mix of double knife-edge and three-radii rounded-earth loss plus the clutter term. This includes every branch: knife-edge small/large argument, all regimes of the height-gain function, and both prediction modes. The only documented departure is that a non-positive knife-edge argument is replaced by 0.00001.",
 ['inputs'],'all admissible diffraction set-ups and distances',"The unit test of each routine samples two or three points, so most regimes (height-gain below 1, knife-edge above the switch, large terrain products, area-mode weighting) are never evaluated.",
 [L+'diffraction_attenuation/adiff.py',L+'diffraction_attenuation/aknfe.py',L+'diffraction_attenuation/fht.py'],
 [('adiff',L+'diffraction_attenuation/adiff.py'),('aknfe',L+'diffraction_attenuation/aknfe.py'),('fht',L+'diffraction_attenuation/fht.py')]),
P('C02','Line-of-sight attenuation follows the ITM reference for every path',
 "For every distance inside the horizon and every admissible heights/ground/terrain combination, the line-of-sight attenuation equals the one defined by the "+REF+": two-ray field with the surface-roughness-reduced reflection coefficient and its lower limit, the phase-difference limiter, mixed with the extrapolated diffraction loss by the terrain weight.",
 ['inputs'],'all line-of-sight distances and set-ups',"The unit test samples a single path; the reflection-coefficient floor and the phase limiter each have regimes it never enters.",
 [L+'los_attenuation/alos.py'],[('alos',L+'los_attenuation/alos.py')]),
P('C03','Troposcatter attenuation follows the ITM reference for every path',
 "For every distance and set-up the scatter attenuation equals the one defined by the "+REF+", through all three distance ranges of the attenuation function, all five scatter-efficiency columns with interpolation, and the low-efficiency correction. When both normalised heights are below 0.2 the result is the marker 1001 meaning undefined and nothing else is updated; when the frequency gain exceeds 15 dB the previously remembered gain is used.",
 ['inputs','histories'],'all scatter set-ups and the two-call sequence used to fit the scatter line',"One sample per routine; the undefined case, the 15 dB memory and the interpolation columns are not reached.",
 [L+'scatter_attenuation/ascat.py',L+'scatter_attenuation/ahd.py',L+'scatter_attenuation/h0f.py'],
 [('ascat',L+'scatter_attenuation/ascat.py'),('ahd',L+'scatter_attenuation/ahd.py'),('h0f',L+'scatter_attenuation/h0f.py')]),
P('C04','Reference attenuation combines the three regions as the ITM reference says',
 "For every distance, in both prediction modes, the reference attenuation is the one the "+REF+" defines: the logarithmic line-of-sight curve inside the smooth-earth horizon distance, the diffraction line up to the crossover distance, and the scatter line beyond it, never below zero. The curve coefficients, the horizon distances and the crossover distance reported with it also equal the reference's.",
 ['inputs'],'all admissible parameters and distances in both modes',"Three fixed paths are sampled; the coefficient-selection cascade has eight combinations, most unreached.",
 [L+'lrprop.py'],[('lrprop',L+'lrprop.py')],
 [('aref','reference attenuation',L+'lrprop.py'),('dlsa','sum of smooth-earth horizon distances',L+'lrprop.py'),('dx','crossover distance',L+'lrprop.py')]),
P('C05','Attenuation quantiles follow the ITM variability model for every climate',
 "For each of the seven climates, each mode of variability (single message, accidental, mobile, broadcast, with or without the location- and situation-eliminating options) and every time, location and confidence deviate, the quantile of attenuation equals the one defined by the "+REF+". An out-of-range climate is treated as continental temperate and an out-of-range mode as single message.",
 ['inputs','configurations'],'7 climates x 4 modes x eliminations x all deviates, distances, frequencies',"Two samples, one climate; 6 of 7 table columns and most modes are never read.",
 [L+'statistics/avar.py',L+'statistics/curv.py'],[('avar',L+'statistics/avar.py'),('curv',L+'statistics/curv.py')]),
P('C06','Ground, refractivity and area-mode set-up follow the ITM reference',
 "For every frequency, system elevation, refractivity, polarisation and ground constants the wave number, effective earth curvature, surface refractivity and complex ground impedance equal the reference's; for every pair of siting criteria, heights and terrain irregularity the effective heights, horizon distances and horizon angles of area mode equal the reference's. Requested climate and variability mode are installed only when given, and the level of change they imply for the variability routine is never lowered.",
 ['inputs','configurations'],'all radio/ground inputs and all siting criteria',"One sample per routine; siting 0 and 1, low antennas, elevated systems and vertical polarisation are not combined.",
 [L+'preparatory_subroutines/qlrps.py',L+'preparatory_subroutines/qlra.py'],[('qlrps',L+'preparatory_subroutines/qlrps.py'),('qlra',L+'preparatory_subroutines/qlra.py')]),
P('C07','Radio horizons are found correctly on every terrain profile',
 "For every terrain profile, spacing, pair of antenna heights and earth curvature, the horizon take-off angle and horizon distance of each terminal are those of the most obstructing profile point seen from it, found as in the "+REF+"; with an unobstructed profile both horizon distances equal the path length and the angles are the mutual ones.",
 ['inputs'],'all profiles (any elevations), heights and curvatures',"One profile is sampled.",
 [L+'preparatory_subroutines/hzns.py'],[('hzns',L+'preparatory_subroutines/hzns.py')]),
P('C08','Terrain line fit and terrain irregularity are right for every window',
 "For every profile and window the fitted straight line is the reference's weighted least-squares line over the whole profile intervals of the window (a window shorter than one interval is widened to the surrounding intervals), evaluated at both ends of the profile; the terrain irregularity is the reference's interdecile range of the resampled, detrended elevations, scaled to the infinite-path value and zero for windows shorter than two intervals. Order statistics are taken in descending order for every rank.",
 ['inputs'],'all profiles and all windows, including ones at, beyond and inside a single interval of the profile ends',"One profile and one window are sampled.",
 [L+'preparatory_subroutines/zlsq1.py',L+'preparatory_subroutines/dlthx.py',L+'misc/qtile.py'],
 [('zlsq1',L+'preparatory_subroutines/zlsq1.py'),('dlthx',L+'preparatory_subroutines/dlthx.py'),('qtile',L+'misc/qtile.py')]),
P('C09','Point-to-point set-up follows the ITM reference on every profile',
 "For every terrain profile and terminal pair, point-to-point preparation derives path length, horizons, terrain irregularity and effective antenna heights as the "+REF+" does, for line-of-sight paths (heights above the fitted line at each terminal's own end, horizons re-estimated from terrain irregularity and stretched when they do not reach) and for transhorizon paths (separate fits in front of each terminal). It then yields the reference attenuation of that set-up.",
 ['inputs'],'all profiles, line-of-sight and transhorizon',"The only test of this routine does not pass reliably and samples three profiles.",
 [L+'preparatory_subroutines/qlrpfl.py'],[('qlrpfl',L+'preparatory_subroutines/qlrpfl.py')]),
P('C10','Normal probability and its inverse are right over the whole range',
 "The complementary normal probability equals the Hastings polynomial approximation of the reference for every deviate of either sign, saturating at 0 and 1 beyond ten deviations, and lies in [0,1]. The inverse equals the reference's rational approximation, rounded to four decimals, for every probability (clamped at one in a million), is odd about one half, and returns one value per requested probability in the same order.",
 ['inputs'],'all deviates and all lists of probabilities',"A few points each.",
 [L+'misc/qerf.py',L+'misc/qerfi.py'],[('qerf',L+'misc/qerf.py'),('qerfi',L+'misc/qerfi.py')]),
P('C11','Area-mode distance sweeps do not depend on the distances tried before',
 "After area-mode preparation, the reference attenuation, the reported distance and the quantile obtained at a distance are the same whatever distances were evaluated before it, in whatever order and region (line of sight, diffraction, scatter), including repeats. A distance evaluated first and the same distance evaluated later in a sweep agree.",
 ['histories','inputs'],'all sequences of distances after one preparation',"The area test asserts only the first and the last distance of one increasing sweep.",
 [L+'lrprop.py',L+'statistics/avar.py'],[('lrprop',L+'lrprop.py'),('avar',L+'statistics/avar.py')],
 [('wlos','line-of-sight coefficients valid',L+'lrprop.py'),('wscat','scatter coefficients valid',L+'lrprop.py')]),
P('C12','Partial refresh of the variability routine equals a full refresh',
 "When only the distance, only the antenna heights, only the frequency, only the mode of variability or only the climate changed since the last quantile and the caller signals that level of change, the next quantile equals the one a full re-initialisation gives with the same inputs.",
 ['histories','inputs'],'all sequences of changes signalled at their level',"Tests call the routine once per parameter record.",
 [L+'statistics/avar.py'],[('avar',L+'statistics/avar.py')],[('lvar','level of change since the last call',L+'statistics/avar.py')]),
P('C13','Quantile queries do not influence one another',
 "For a fixed path, the quantile returned for one set of time, location and confidence deviates does not depend on which other quantiles were asked before, and asking the same one again returns the same value.",
 ['histories','inputs'],'all sequences of quantile requests on one path',"Only single requests, or one fixed order, are tested.",
 [L+'statistics/avar.py'],[('avar',L+'statistics/avar.py')]),
P('C14','A reused parameter record gives the same prediction as a fresh one',
 "Preparing and predicting a second path with a parameter record already used for a first path (with the new path's inputs filled in and full re-initialisation requested) gives the same reference attenuation and the same quantiles as with a fresh record, in both modes and also when the mode changes in between.",
 ['histories','inputs'],'all pairs of successive predictions on one record',"Tests use a fresh record each time.",
 [L+'lrprop.py',L+'preparatory_subroutines/qlrpfl.py',L+'preparatory_subroutines/qlra.py',L+'statistics/avar.py'],
 [('lrprop',L+'lrprop.py'),('qlrpfl',L+'preparatory_subroutines/qlrpfl.py'),('qlra',L+'preparatory_subroutines/qlra.py')]),
P('C15','The warning indicator is cumulative and never lowered',
 "Across every sequence of library calls the warning indicator in the parameter record never decreases: once raised to a level it stays at least there until the caller resets it.",
 ['histories','inputs'],'all starting levels 0-4 and all calls',"Tests start from a zero indicator and look at one final value.",
 [L+'lrprop.py',L+'statistics/avar.py',L+'preparatory_subroutines/qlrpfl.py',L+'preparatory_subroutines/qlra.py'],
 [('kwx',L+'lrprop.py'),('kwx',L+'statistics/avar.py')],[('kwx','warning indicator','lrprop, avar')]),
P('C16','Warnings are raised exactly for the documented parameter ranges',
 "Starting from a clear indicator, the level reported is exactly the one the reference assigns: 4 for heights, refractivity, earth curvature, ground impedance, frequency or distance out of range, 3 for internally inconsistent horizons or too short paths, 2 for a defaulted climate or mode, 1 for values near a limit (including deviates beyond 3.1), and 0 otherwise. Each terminal is judged on its own height, horizon angle and horizon distance.",
 ['inputs'],'all parameter values around each documented limit (exact ties excepted)',"Two fixed paths whose indicator is compared once.",
 [L+'lrprop.py',L+'statistics/avar.py'],[('range checks',L+'lrprop.py'),('avar',L+'statistics/avar.py')]),
P('C17','User inputs are never altered by a prediction',
 "No library call changes the caller's inputs: antenna heights, terrain profile, frequency, polarisation, ground constants, refractivity, wave number, earth curvature, requested climate and mode, siting lists, sample lists and probability lists all hold the same values afterwards, even when computed quantities are later adjusted.",
 ['inputs','histories'],'all inputs, all library entry points, and sequences of calls',"Tests never look at inputs after a call.",
 [L+'lrprop.py',L+'preparatory_subroutines/',L+'misc/',L+'statistics/avar.py'],
 [('qlra',L+'preparatory_subroutines/qlra.py'),('qlrpfl',L+'preparatory_subroutines/qlrpfl.py'),('dlthx',L+'preparatory_subroutines/dlthx.py'),('qtile',L+'misc/qtile.py')]),
P('C18','Predictions are deterministic and carry no hidden state',
 "Every library result is a function of its arguments alone: calling a routine again with equal arguments after any other calls gives an equal result, and results never depend on the clock, randomness, environment, files or other external state.",
 ['histories','inputs'],'all call sequences over separate parameter records',"Each test calls a routine once in a fresh process.",
 [L],[('all routines',L)]),
P('C19','No valid input makes a prediction fail',
 "For every input within the model's documented limits (and every admissible terrain profile of at least two intervals, flat or rugged) the preparation routines, the propagation routine and the quantile routine complete without an error and return defined numbers: no missing record field, undefined variable, index outside a list, division by zero or function outside its domain.",
 ['inputs','configurations'],'all inputs inside the documented limits, both modes, all climates, modes and siting criteria',"Tests run a handful of paths, all away from special values.",
 [L],[('all routines',L)]),
P('C20','Results stay within their physical ranges',
 "The reference attenuation is never negative; the normal probability lies in [0,1] and its inverse has the sign of one half minus its argument; terrain irregularity is never negative; effective antenna heights are never below the structural heights; horizon distances are positive and, on a terrain profile, never exceed the path length unless re-estimated for a line-of-sight path.",
 ['inputs'],'all admissible inputs',"Tests compare fixed values.",
 [L+'lrprop.py',L+'misc/',L+'preparatory_subroutines/'],[('lrprop',L+'lrprop.py'),('qerf',L+'misc/qerf.py'),('dlthx',L+'preparatory_subroutines/dlthx.py'),('qlra',L+'preparatory_subroutines/qlra.py')]),
P('C21','Point-to-point runners report the reference loss for every quantile pair',
 "For every frequency, path length, pair of antenna heights, polarisation and terrain profile, each point-to-point runner returns one row per (reliability, confidence) pair, reliability-major, labelled with its own percentages and the path length, whose loss is free-space loss plus the reference quantile of attenuation for exactly that pair on that profile. The row does not depend on the other rows.",
 ['inputs'],'all user parameters and profiles, both runners',"The tests contain copies of the runner bodies and never execute the runners.",
 ['scripts/p2p.py','scripts/p2p_2tiles.py'],[('itmlogic_p2p','scripts/p2p.py'),('itmlogic_p2p','scripts/p2p_2tiles.py')]),
P('C22','Area runners report the reference loss at every distance and confidence',
 "For every frequency, pair of antenna heights, terrain irregularity and polarisation, each area runner returns one row per (distance, confidence) pair, distances from 10 to 150 km by 10 and then to 500 km by 50, each labelled with its own distance and confidence, whose loss is free-space loss at that distance plus the reference quantile of attenuation computed with the complex ground impedance of the reference.",
 ['inputs'],'all user parameters, both runners, all 66 rows',"The tests contain copies of the runner bodies and assert 2 of 22 distances.",
 ['scripts/area.py','scripts/area_2tiles.py'],[('itmlogic_area','scripts/area.py'),('itmlogic_area','scripts/area_2tiles.py')]),
P('C23','The campaign runner predicts every transmitter height on the profile given',
 "For every terrain profile and distance axis given to it, the campaign runner returns one row per transmitter height from 10 m to 130 m, in order, with the frequency, the height, the reliability percentage and the loss, and the loss is free-space loss plus the reference quantile for the requested percentages computed on the profile passed in. No row depends on the rows before it.",
 ['inputs','histories'],'all profiles and distance axes',"No test executes this runner.",
 ['scripts/pimter.py'],[('run_itmlogic','scripts/pimter.py')]),
P('C24','Terrain profiles are sampled evenly from transmitter to receiver',
 "The number of samples along a path is an integer from 2 to 600, never decreasing with path length and given by the documented saturating curve; sample positions are equally spaced, the first on the first terminal and the last on the second; the profile, the sample points and the reported distance in kilometres belong to the same line, in order.",
 ['inputs'],'all path lengths and line geometries',"The terrain module has no test.",
 ['scripts/terrain_module.py'],[('terrain_p2p','scripts/terrain_module.py'),('determine_num_samples','scripts/terrain_module.py')]),
P('C25','Area terrain irregularity is the interdecile range of the valid cells',
 "The terrain irregularity of a site is the rounded difference between the 90th and the 10th percentile of exactly the valid (unmasked) elevation cells inside the circle of the given radius around the given longitude and latitude, never negative and independent of cell order. The helper that lists the cells inside a mask returns exactly the valid cells above zero, in order.",
 ['inputs'],'all cell sets and sites',"The terrain module has no test.",
 ['scripts/terrain_module.py'],[('terrain_area','scripts/terrain_module.py'),('interdecile_range','scripts/terrain_module.py'),('geodesic_point_buffer','scripts/terrain_module.py')]),
P('C26','Results files hold every predicted row under the right headings',
 "Writing results produces, in the requested folder (created if missing) and under the requested name, a header with the row's own field names in order followed by exactly one line per result row in order; the fields the plotting code reads are fields the runners write.",
 ['inputs'],'all result lists, all four runners with a results file',"No test executes the writers or the plots.",
 ['scripts/p2p.py','scripts/area.py','scripts/p2p_2tiles.py','scripts/area_2tiles.py','vis/vis.py'],
 [('csv_writer','scripts/*.py'),('plot_area_results','vis/vis.py'),('plot_p2p_results','vis/vis.py')]),
P('C27','Swapping the two terminals leaves area predictions unchanged',
 "In area mode, exchanging the two terminals (heights together with siting criteria) exchanges their effective heights, horizon distances and angles and leaves the reference attenuation, the warning level and every quantile unchanged, at every distance.",
 ['inputs'],'all area-mode inputs and distances',"No test exchanges terminals.",
 [L+'preparatory_subroutines/qlra.py',L+'lrprop.py',L+'statistics/avar.py'],[('qlra',L+'preparatory_subroutines/qlra.py'),('lrprop',L+'lrprop.py'),('avar',L+'statistics/avar.py')]),
P('C28','Point-to-point predictions do not depend on the elevation datum',
 "Adding the same constant to every elevation of a terrain profile leaves horizons, terrain irregularity, effective heights, reference attenuation and warning level unchanged.",
 ['inputs'],'all profiles and all constants',"No test shifts a profile.",
 [L+'preparatory_subroutines/qlrpfl.py',L+'preparatory_subroutines/hzns.py',L+'preparatory_subroutines/zlsq1.py',L+'preparatory_subroutines/dlthx.py'],
 [('qlrpfl',L+'preparatory_subroutines/qlrpfl.py')]),
P('C29','Floating-point results agree with the real-valued model to working accuracy',
 "For every valid input the computed losses differ from the exact real-number evaluation of the model's formulas by less than a thousandth of a decibel.",
 ['inputs'],'all valid inputs',"Tests compare a handful of doubles.",
 [L],[('all routines',L)]),
P('C30','Elevations and distances agree with the raster and the ellipsoid',
 "The elevation sampled at each point is the raster's value there and the reported path length is the geodesic length on the WGS84 ellipsoid, for every raster and line.",
 ['inputs'],'all rasters and lines',"The terrain module has no test.",
 ['scripts/terrain_module.py'],[('terrain_p2p','scripts/terrain_module.py')]),
P('C31','Feature files hold every feature once with the schema of its own fields',
 "Writing geographic features produces, in the requested folder (created if missing) and under the requested name, a shapefile in the coordinate system asked for, with every feature once and in order, and a schema whose geometry type and field names, in order, are those of the features and whose field types match the values (text, integer, float). The line built from two points runs from the first to the second.",
 ['inputs'],'all feature lists, both point-to-point scripts',"No test executes the writers.",
 ['scripts/p2p.py','scripts/p2p_2tiles.py'],[('write_shapefile','scripts/p2p.py'),('write_shapefile','scripts/p2p_2tiles.py'),('straight_line_from_points','scripts/p2p.py')]),
P('C32','Each figure shows every result row under its own confidence level',
 "For every results file with the rows the runners write (confidence levels 10, 50 and 90 %, in any row order), each figure has one series per confidence level, labelled with that level, whose values are that level's losses against ascending distance (area) or reliability (point-to-point); a fixed vertical axis covers every loss. Figures go to the figures folder (created if missing by the script), the script draws each results file that exists and nothing else, and earlier figures do not affect later ones.",
 ['inputs','histories'],'all losses, any row order, both figures',"No test executes the plotting code.",
 ['vis/vis.py'],[('plot_area_results','vis/vis.py'),('plot_p2p_results','vis/vis.py'),('__main__','vis/vis.py')]),
P('C33','Each script predicts on exactly the inputs it names and writes exactly that',
 "Run as a program, each script works under the configured base path and creates the folders it writes to. The area scripts predict with the terrain irregularity measured on their elevation model around their own transmitter over 20 km; the point-to-point scripts sample the line from their transmitter to their receiver on their elevation model, write the terminals and exactly those sample points as features, and predict with the documented Crystal Palace to Mursley parameters and profile, unaltered; the campaign script predicts once per measurement pair, in order, on all heights and distances of that pair's own two files. The rows written are the rows predicted, and no other file is written.",
 ['inputs','configurations'],'all elevations, irregularities and campaign files; output folders present or missing',"No test executes a script.",
 ['scripts/'],[('__main__','scripts/p2p.py'),('__main__','scripts/p2p_2tiles.py'),('__main__','scripts/area.py'),('__main__','scripts/area_2tiles.py'),('__main__','scripts/pimter.py')]),
P('C34','The printed report describes the path the prediction was made for',
 "The point-to-point runners print the kind of path (line of sight, single horizon or double-horizon: shorter than the smooth-earth horizon distance by more than half a profile interval, within it, or longer), the dominant mode (diffraction between that distance and the crossover distance, tropospheric scatter beyond it, none inside the horizon), the free-space loss used in every row and the confidence levels of the rows. The scripts print the path length and number of samples, or the terrain irregularity, which they measured.",
 ['inputs'],'all frequencies, heights, path lengths, profiles; all measured lengths and irregularities',"No test looks at the printed report.",
 ['scripts/p2p.py','scripts/p2p_2tiles.py','scripts/area.py','scripts/area_2tiles.py'],[('itmlogic_p2p','scripts/p2p.py'),('itmlogic_p2p','scripts/p2p_2tiles.py'),('__main__','scripts/area.py'),('__main__','scripts/area_2tiles.py')]),
]
for p in ps: assert len(p['title'])<=80,(p['id'],len(p['title']))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in ps))
