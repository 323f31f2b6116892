MF = L + 'MFlowmove.cpp'; TB = L + 'TBody.cpp'; CF = L + 'MConvectiveFast.cpp'

prop('C01', 'Simulation time is exact rational arithmetic, without drift',
 'A time interval given as a decimal number of seconds that fits the representation becomes exactly that rational number, and adding time values yields the exact rational sum, so that after any number of steps the simulated time equals start + n*dt with no rounding drift. Whether a time is a whole multiple of a save/shed period is decided exactly on the rationals, and a zero period is never considered hit.',
 'inputs histories', 'every pair of representable time values (signs, zero, coprime and equal denominators) and every number of additions, within the 32-bit range',
 'the suite only uses a few friendly steps such as 0.005; which decimals and which pairs of denominators are exact is a statement about all of them',
 [H + 'TTime.hpp', H + 'TSpace.hpp'], [('TTime::add / lcm', H + 'TTime.hpp'), ('TTime::divisibleBy', H + 'TTime.hpp'), ('TTime::makeWithSecondsDecimal', H + 'TTime.hpp'), ('Space::finish_step', H + 'TSpace.hpp')],
 [('value/timescale', 'the rational time', H + 'TTime.hpp')], ['value and timescale of a time value'])

prop('C02', 'Body area, length, centroid, inertia and extents follow from its corners',
 'For a closed body given by its corner points, every segment has the midpoint, direction vector and smoothing radius (a third of its length) of the edge from its corner to the next one (the last closing on the first), and the reported perimeter, signed area, centre of mass, moment of inertia about the centre of mass and about the rotation axis are those of the polygon, or of the polyline when the area is zero. The body counts as having slip exactly if some segment does, and its bounding rectangle and bounding disc about the centre of mass are the smallest ones containing all corners.',
 'inputs', 'every polygon with any number of corners, any position, orientation and degeneracy (zero area)',
 'the tests check a handful of shapes; the formulas must hold for every polygon and every number of segments, including last-to-first closure and zero area',
 [TB, H + 'TBody.hpp'], [('TBody::doUpdateSegments', TB), ('TBody::doFillProperties', TB), ('TBody::get_moi_axis and other accessors', H + 'TBody.hpp')],
 [('alist', 'the segments: corner, centre, dl, smoothing', H + 'TBody.hpp'), ('_area,_cofm,_moi_cofm,...', 'cached properties', H + 'TBody.hpp')], ['body accessors', 'per-segment geometry'])

prop('C03', 'A step moves bodies rigidly and every particle by its own velocity',
 'During one motion step of duration T every vortex, heat and streak particle moves by exactly its own velocity times T and then has its velocity cleared, and every body is carried rigidly: each corner undergoes the rotation by (angular speed * T) about the rotation axis plus the translation (speed * T), with segments and derived properties updated to the new corners. The holder position accumulates the prescribed holder motion, holder position plus displacement accumulates the actual motion (so displacement absorbs the difference), the previous-step speed becomes the current one, a body attached to a root body is carried along the exact circular arc of its root, and the free-stream marker moves by free-stream velocity times T.',
 'inputs histories', 'every state: any number of bodies, segments and particles, any root hierarchy, any speeds and step length',
 'tests compare a few bodies after a few steps to loose tolerances; the kinematics must hold for all states and hierarchies',
 [TB, MF], [('TBody::move', TB), ('MFlowmove::move_and_clean', MF)],
 [('holder, dpos', 'prescribed position and displacement', H + 'TBody.hpp'), ('speed_slae, speed_slae_prev', 'solved speed now and one step ago', H + 'TBody.hpp')], ['positions of particles and corners, holder, dpos after a step'])

prop('C04', 'A point is inside a body exactly by the even-odd rule; nearest segment returned',
 'Asking whether a point lies in a body of positive area answers with the even-odd rule applied to its corner polygon, a body of zero or negative area being the complement (its exterior is solid); the answer never depends on the position of the body or on which quick rejection was taken. When the point is inside, the segment reported is the one whose centre is nearest to the point, and a point is in the flow exactly if it is inside none of the bodies.',
 'inputs', 'every polygon (convex or not, any orientation) and every point',
 'tests probe a few points in a few shapes; edge crossings, concave shapes and quick rejections need all points',
 [TB, H + 'TSpace.hpp'], [('TBody::isPointInContour / isPointInvalid', TB), ('Space::point_is_in_body', H + 'TSpace.hpp')],
 [('_min_rect_*, _min_disc_r2', 'quick-reject extents', H + 'TBody.hpp')], ['isPointInvalid result', 'point_is_in_body'])

prop('C05', 'Circulation is accounted for exactly when vortices are shed and removed',
 'Shedding creates exactly one vortex for each non-slip segment whose circulation is not negligible, carrying that circulation and located just off its corner, and records the circulation of every segment on that segment. A motion step removes exactly the vortices of negligible strength and the vortices that end inside a body, each of the latter being charged, with its strength and its linear and angular impulse, to that body and subtracted from its nearest segment; unshed circulation of slip or negligible segments is charged to the body the same way, so every unit of circulation put on a segment is either in the flow or charged to a body. A heat particle that ends inside a body, or that the heat-layer test assigns to a segment of a constant-temperature body already holding one, is removed in the same step with its heat taken off that segment, and a streak particle that ends inside a body is removed.',
 'inputs histories', 'every set of bodies, segments, circulations, thresholds and vortex positions',
 'tests only run complete flows; conservation over every configuration of slip flags, thresholds and penetrations is not sampled',
 [MF], [('MFlowmove::vortex_shed', MF), ('MFlowmove::move_and_clean', MF)],
 [('TAtt::gsum', 'net circulation given to the flow by the segment', H + 'TBody.hpp'), ('g_dead, fdt_dead', 'charged circulation and impulse', H + 'TBody.hpp')], ['VortexList, gsum, g_dead, fdt_dead after shedding/moving'])

prop('C06', 'Merging vortices conserves circulation, and centroid for like signs',
 'Two neighbouring live particles are merged when closer than 0.16*dl^2*(1+distance) of the nearest wall segment, or (vortices only) when both nearest neighbours have the same sign, opposite to its own; this never creates or destroys circulation or heat: a merge adds the strength of one particle to its neighbour and zeroes the other, placing like-signed pairs at their circulation centroid and opposite-signed pairs at the stronger one. Every merge is counted, particles not merged keep position and strength, and with merging switched off no particle changes position or strength and none is counted.',
 'inputs', 'every particle set, sign pattern and spacing, with and without bodies nearby',
 'no test measures conservation over merging; the set of particle configurations is unbounded',
 [L + 'MEpsilonFast.cpp'], [('MEpsilonFast::MergeVortexes', L + 'MEpsilonFast.cpp'), ('MEpsilonFast::epsv / epsh', L + 'MEpsilonFast.cpp')],
 [], ['VortexList and HeatList before/after, merged count'])

prop('C07', 'The spatial tree partitions all objects and classifies nodes as near or far',
 'After the tree is built, every particle and every body segment lies in exactly one leaf, inside that leaf\'s bounding box, no object is lost, duplicated or altered (only reordered), and each node\'s positive and negative mass centres carry the exact total strength and centroid of the vortices below it. For every leaf, its near and far nodes together cover all leaves exactly once, a node being far exactly if its centre distance squared exceeds the far criterion times the squared sum of both nodes\' width plus height, and looking up a position leads to the leaf whose half of each split it falls in.',
 'inputs', 'every set of particles and segments, every far criterion and node-size limits',
 'one test draws one tree; partition and coverage must hold for every arrangement including coincident points',
 [L + 'TSortedTree.cpp', H + 'TSortedTree.hpp'], [('snode::DivideNode / DistributeContent / Stretch', L + 'TSortedTree.cpp'), ('snode::CalculateCMass*', L + 'TSortedTree.cpp'), ('snode::FindNearNodes', L + 'TSortedTree.cpp'), ('stree::findNode', L + 'TSortedTree.cpp')],
 [('vRange,hRange,sRange,bllist', 'content of a node', H + 'TSortedTree.hpp')], ['leaves, ranges, near/far lists'])

prop('C08', 'Solving for circulations leaves a solution of the assembled linear system',
 'After the system of equations is solved, substituting the values written to every registered unknown back into the assembled matrix reproduces the right-hand side to rounding, whether a direct solve or a stored inverse was used, and every unknown receives its own column\'s value. Reusing the inverse is only ever done for an unchanged matrix: other contents or a change of size make the next solve recompute it.',
 'inputs histories', 'every non-singular matrix and right-hand side and every sequence of fills, resizes and solves',
 'tests solve one or two small systems; caching bugs need a history of fills, resizes and solves',
 [L + 'TMatrix.cpp', H + 'TMatrix.hpp'], [('Matrix::solveUsingInverseMatrix', L + 'TMatrix.cpp'), ('Matrix::fillInverseMatrix and friends', L + 'TMatrix.cpp'), ('Matrix::setSolutionForCol / getCell', L + 'TMatrix.cpp')],
 [('solution_idx', 'column of each unknown', H + 'TMatrix.hpp')], ['unknowns after the solve'])

prop('C09', 'A state saved to a file is restored unchanged',
 'Saving a simulation state and loading the file into any state, even a non-empty one, restores caption, flow parameters, times, free-stream and body expressions, gravity, every particle list with position and strength, and every body with its corners, slip flags, label, motion, springs, damping, collision limits, boundary and heat conditions and root link, all bit-exactly. Lists and bodies keep their order and count, and nothing of the previous state survives in them.',
 'inputs histories', 'every state: any lists, bodies, roots, expressions and special values',
 'the round-trip test covers one hand-made state; fields and combinations are unbounded',
 [L + 'TSpace_save_hdf.cpp', L + 'TSpace_load_hdf.cpp', L + 'TSpace.cpp', L + 'vvhdf.cpp', L + 'vvhdf_h5t.cpp'], [('Space::save_hdf', L + 'TSpace_save_hdf.cpp'), ('Space::load_hdf', L + 'TSpace_load_hdf.cpp')],
 [], ['all fields after load'])

prop('C10', 'Each body equation encodes its flow condition or its law of motion',
 'For every step the assembled linear system contains: for each ordinary segment, zero total tangential flow through it as the sum of the contributions of the free stream, sinks, free vortices, attached sheets and body motions; for each special segment, the Kutta, the steady-circulation or (once per system) the total-circulation condition; and for each body the fluid-impulse, Newton (with root/child reactions, gravity and buoyancy), and per degree of freedom prescribed-speed or spring-damper equations. Rows are placed at consecutive indices, segments first and then the nine body rows, for each body in order; a prescribed body attached to a root gets the exact rigid velocity of its root at its own axis added.',
 'inputs configurations', 'every combination of bodies, roots, spring constants, boundary conditions and states',
 'tests only see final flow fields of a few configurations; a wrong coefficient in a rarely used row passes them',
 [CF], [('fill*Equation*', CF), ('fill_matrix', CF)],
 [], ['matrix cells and right-hand column after assembly'])

prop('C11', 'A sprung body stops at its travel limits exactly',
 'When a sprung degree of freedom would pass a travel limit during the step, the step is shortened to the moment of contact for the whole state, the earliest contact over all bodies and degrees of freedom wins and is the one reported; without such a contact the step keeps its full length and none is reported. In the next solve the degree of freedom that hit its limit is stopped, and in the one after it rebounds with the holder impulse scaled by one plus the bounce factor.',
 'inputs histories', 'every set of bodies, limits, springs, speeds and step lengths',
 'one collision test with one body; which contact wins among several and exact shortening are not sampled',
 [MF, CF], [('MFlowmove::move_and_clean collision detection', MF), ('fill_matrix collision states', CF)],
 [], ['positions after the step, collision pointer, solve rows'])

prop('C12', 'Flow velocity is the sum of all its physical sources',
 'The velocity the solver assigns to a particle, or reports at a point, is the free stream plus the smoothed Biot-Savart velocity of every vortex (exact for near nodes, lumped into the positive and negative mass centres of far nodes, linearised about the node centre when convecting lists), plus every sink, plus every slip segment and every moving body surface (bodies slower than 1e-10 count as at rest). Particles of zero strength are not convected and contribute nothing; streak particles are always convected.',
 'inputs', 'every set of particles, sinks and moving bodies and every point',
 'tests compare a few points in a few flows; every kernel branch must hold for all',
 [CF], [('MConvectiveFast::velocity / process_all_lists', CF), ('biot_savart, *_influence', CF), ('SegmentInfluence_linear_source', CF)],
 [], ['particle velocities after convection', 'velocity at a point'])

prop('C13', 'Diffusion velocity and wall friction follow the viscous vortex method',
 'The diffusion velocity of a vortex (or heat particle) is determined by all like-signed near particles and all near wall segments through exponentials of distance over its own smoothing radius, truncated beyond eight radii, with the denominator limited to a tenth of its own strength and the wall contribution limited to half the plane; it scales as 1/Re (and 1/(Re*Pr) for heat). Every vortex adds to each near wall segment friction proportional to its strength, its squared inverse radius, the exponential of the distance and the segment length; heat particles add none.',
 'inputs', 'every particle set and every wall',
 'two tests with a pair of particles; all counts, signs, coincident points and wall positions are not sampled',
 [L + 'MDiffusiveFast.cpp'], [('MDiffusiveFast::process_vort_list / process_heat_list', L + 'MDiffusiveFast.cpp'), ('vortex_influence, segment_influence', L + 'MDiffusiveFast.cpp')],
 [], ['particle velocity increments, segment friction'])

prop('C14', 'Smoothing radii follow the second nearest neighbour and the wall',
 'After the smoothing step the radius of each vortex or heat particle of non-zero strength is the distance to its second nearest live neighbour of the same kind in its near nodes (to the only one if there is one), but never less than a third of the length of the wall segment nearest to its leaf centre. The two field queries used by post-processing return the squared distance to the second nearest (or only) distinct vortex and to the nearest wall segment centre of the near nodes.',
 'inputs', 'every particle set with and without bodies',
 'one test with a few vortices; ordering of neighbours and ties are unbounded',
 [L + 'MEpsilonFast.cpp'], [('MEpsilonFast::epsv / epsh / eps2h / h2 / nearestBodySegment', L + 'MEpsilonFast.cpp')],
 [], ['particle smoothing radii'])

prop('C15', 'A field file stores and reproduces the grid, and lookups address the right cell',
 'Writing a field and reading it back yields the same grid (origin, spacing, counts) and the same values in single precision at the same positions; a file that is truncated, oversized or malformed (width, counts or spacing) is rejected with an error. Node coordinates are origin plus index times spacing, values are addressed column by row without aliasing, minimum and maximum are those of all values, and the p-percentile is the value below which that fraction of the non-zero values lies (zero if there are none).',
 'inputs fault_sequences', 'every grid size and contents, every truncation or corruption of the file',
 'tests read one grid; each truncation point and each grid size is an input',
 [L + 'XField.cpp', H + 'XField.hpp'], [('XField::XField(filename)', L + 'XField.cpp'), ('XField::save, min, max, percentile, at', L + 'XField.cpp')],
 [('map', 'values, row major', H + 'XField.hpp')], ['file bytes, accessors, exceptions'])

prop('C16', 'Isolines pass exactly through the level crossings of the grid',
 'For each level of the requested range, every vertex of every isoline lies on a grid edge at the linear-interpolation position where the field (with the recorded jumps of a multi-valued field removed on the row left of each jump) equals the level, every grid edge crossed by the level is used, and consecutive vertices of a line bound the same grid cell. Merging of line pieces keeps every segment exactly once and in order, so the drawn set of segments equals the set of per-cell crossings; a field without values and an empty, endless or non-advancing range of levels are refused.',
 'inputs', 'every grid and every level',
 'one test counts lines of one field; ambiguous cells and merges are unbounded',
 [L + 'XIsoline.cpp', H + 'XIsoline.hpp'], [('XIsoline::XIsoline', L + 'XIsoline.cpp'), ('XIsoline::commit_segment', L + 'XIsoline.cpp')],
 [], ['polylines'])

prop('C17', 'Surface forces are summed from the segments of each body and reset each step',
 'Per-segment pressure, friction and heat-flux profiles accumulate over steps the running sum of net segment circulations along the surface, the segment friction and the segment heat scaled by the fluid properties, and the body friction force and torque and its total heat flux are the sums over its segments. Resetting clears exactly the per-step accumulators of every segment and body while keeping the friction force of the step as the previous one and leaving profiles, positions and circulations unchanged; equations are numbered consecutively, segments of each body first, then nine for the body.',
 'inputs histories', 'every number of bodies and segments and all values',
 'tests see forces of a few flows through tolerances; sums over every segment count are not sampled',
 [L + 'TSpace.cpp', H + 'TSpace.hpp'], [('Space::calc_forces', L + 'TSpace.cpp'), ('Space::zero_forces', L + 'TSpace.cpp'), ('Space::EnumerateBodies', L + 'TSpace.cpp'), ('Space::gsum, gmax, integral, hydrodynamic_momentum, average_segment_length, total_segment_count', H + 'TSpace.hpp')],
 [], ['body friction, nusselt, profiles, integrals'])

prop('C18', 'Body generators produce the requested shape',
 'Each generator yields a closed body of at least three segments whose corners lie on the requested shape (circle, half circle, ellipse, parallelogram, plate with round ends, half-cylinder pair, the two chambers) in the requested orientation and with the requested slip. Every straight side and arc is divided into equal segments, as many as the side holds at the requested spacing (to the nearest whole number; for a requested N the spacing is the perimeter divided by N); the corners of an ellipse lie on it. Missing, non-numeric, infinite, unknown or out-of-range parameters, and a spacing too coarse for the shape, are refused with a script error instead of a body.',
 'inputs', 'every parameter combination accepted by the Lua interface',
 'tests sample one or two parameter sets of each generator',
 [U + 'gen_body.cpp', U + 'gen_cylinder.cpp', U + 'gen_ellipse.cpp', U + 'gen_box.cpp', U + 'gen_plate.cpp', U + 'gen_savonius.cpp', U + 'gen_parallelogram.cpp', U + 'gen_gis.cpp'], [('luavvd_gen_*', U + 'gen_*.cpp'), ('get_param / gen_seg_* / gen_arc_*', U + 'gen_body.cpp')],
 [], ['corners of the generated body'])

prop('C19', 'Script variables read back what was set, and bad values are refused',
 'Every simulation, body, vector and particle attribute settable from a script reads back the value that was set and changes nothing else; setting an unknown or read-only attribute, or a value of the wrong type or that the attribute can not hold exactly (a fraction or an overflow for an integer, a time that is not a 32-bit fraction, a malformed expression), raises a script error and leaves the state unchanged. Attributes and elements that do not exist read as nil; list operations (append, clear, insert and erase a body, #, indexing, ipairs, totable, load, load_bin) act on the list like on a plain sequence, all or nothing when refused, and methods (move_r, move_o, move_d, get_*, abs, eval, save, load, XStreamfunction) act on the very object they are called on.',
 'inputs histories', 'every attribute, value and sequence of script operations',
 'tests set each attribute once with one good value',
 [U + 'getset.cpp', U + 'lua_tbody.cpp', U + 'lua_space.cpp', U + 'lua_tvec.cpp', U + 'lua_tvec3d.cpp', U + 'lua_tobj.cpp', U + 'lua_objlist.cpp', U + 'lua_bodylist.cpp', U + 'lua_teval.cpp'], [('lua_setfield / lua_getfield tables', U + 'getset.cpp')],
 [], ['script results'])

prop('C20', 'A time-dependent expression always evaluates for the requested time',
 'An expression assigned as text evaluates, at every requested time and in any order of requests, to the value of the formula at that time, whatever was evaluated or assigned before; copies evaluate like the original and stay independent of later changes to it. A constant or empty expression evaluates to its constant (zero when empty), and an invalid expression is rejected at assignment leaving the previous one in force.',
 'inputs histories', 'every sequence of assignments, copies and evaluations at any times',
 'caching makes results depend on history; tests evaluate a few times in order',
 [L + 'TEval.cpp', H + 'TEval.hpp'], [('TEval::eval', L + 'TEval.cpp'), ('TEval::setEvaluator', L + 'TEval.cpp')],
 [('cache', 'last evaluated time and value', H + 'TEval.hpp')], ['eval results'])

prop('C21', 'Post-processing fields sample their definition at every grid node',
 'The vorticity, velocity, stream-function and pressure fields hold at each grid node the value their definition gives at that node\'s coordinates: the exponential-kernel vortex sum over the near nodes with the wall layer, a component of the solver\'s flow velocity, the stream function of all vortices, sinks, free stream and moving bodies with its jumps, and the unsteady Bernoulli pressure respectively. Vorticity and pressure are zero inside a body, and the chosen reference frame is applied the same way at every node; an unknown frame, or the frame of a body that does not exist, is refused. Evaluating a field does not change the flow state it was made from, so any number of fields of one state agree.',
 'inputs configurations', 'every state, grid and reference frame',
 'tests compare images of a few flows',
 [L + 'XVorticity.cpp', L + 'XVelocity.cpp', L + 'XStreamfunction.cpp', L + 'XPressure.cpp'], [('XVorticity::evaluate', L + 'XVorticity.cpp'), ('XVelocity::evaluate', L + 'XVelocity.cpp'), ('XStreamfunction::evaluate / streamfunction', L + 'XStreamfunction.cpp'), ('XPressure::evaluate / pressure', L + 'XPressure.cpp')],
 [], ['field values'])

prop('C22', 'Step records are written once per step and survive a restart',
 'Every written step appends exactly one record to the step-data file: the time, and for every body, under its own name, its forces, friction, position, spring displacement and speed, and with profiles its pressure and friction per segment divided by the step length (which are then cleared). Opening the file again at time t keeps exactly the records of earlier times (at the single precision of the file) and appends after them. Records flushed to the file survive a crash of the program.',
 'histories crash_points', 'every number of steps, bodies, flush points and restart times',
 'tests check one or two files',
 [L + 'MStepdata.cpp', H + 'MStepdata.hpp'], [('Stepdata::write / flush', L + 'MStepdata.cpp')],
 [], ['contents of the step-data file'])

prop('C23', 'Whole-run flow quantities agree with physical reference solutions',
 'For a well resolved flow (enough segments, a small enough step) the drag, lift and shedding frequency of a cylinder, and the flow around other bodies, agree with reference solutions of the Navier-Stokes equations within the accuracy of the method.',
 'inputs configurations', 'every well resolved flow',
 'tests check a few integral numbers of a few short runs',
 [CF, MF, 'utils/vvflow/vvflow.cpp'], [('simulate()', 'utils/vvflow/vvflow.cpp')], [], ['time histories of forces'])

prop('C24', 'Results do not depend on the number of threads',
 'Running the same simulation with any number of worker threads and any interleaving gives the same circulations, velocities and fields up to summation order.',
 'schedules', 'every schedule of the parallel loops',
 'tests run with one thread configuration',
 [CF, L + 'XField.cpp', L + 'TMatrix.cpp'], [('omp parallel loops', CF)], [], ['states after a step'])

prop('C25', 'Plot images and command-line tools show the data they are given',
 'The plotting tool draws exactly the bodies, particles, fields and isolines of the given file in the requested region and the extraction tool prints exactly the requested lists and attributes.',
 'inputs configurations', 'every file and option combination',
 'tests render a few images and print a few listings',
 ['utils/vvplot/vvplot.cpp', 'utils/vvxtract/vvxtract.cpp'], [('main', 'utils/vvplot/vvplot.cpp')], [], ['output of the tools'])

prop('C26', 'A run performs every step once, in order, and saves exactly when due',
 'simulate() refuses a Reynolds number that is not positive; otherwise it makes steps while the time is before the finish time plus half a step, each advancing the time by exactly dt, and each doing in this order: tree, solve (twice after a collision), heat shedding, saving of the state and flushing of the records exactly if the time is not negative and a multiple of dt_save, vortex and streak shedding, forces, one step record, clearing of the forces, smoothing radii (merging only in a viscous flow), convection, one line of sensor velocities, diffusion only in a viscous flow, motion, cropping of heat, so that a run equals its steps made one by one. States are saved in results_CAPTION/STEP.h5, whatever characters the caption has, the records in stepdata_CAPTION.h5 and the velocities at the sensors\' points in velocity_CAPTION. The program runs a script with its arguments in `arg`, or continues a saved state with its own parameters, and reports a script that fails or cannot be read with status 8.',
 'inputs histories configurations', 'every initial state, set of parameters, number of steps and repeated call of simulate(), every script or saved state given to the program',
 'tests run a few scripts to the end and look at a few numbers; the order of the parts, the moments of saving and the state carried over a collision need every history',
 ['utils/vvflow/vvflow.cpp', 'utils/vvflow/sensors.cpp'], [('simulate()', 'utils/vvflow/vvflow.cpp'), ('main / luaopen_vvd', 'utils/vvflow/vvflow.cpp'), ('sensors::output', 'utils/vvflow/sensors.cpp')],
 [('collision', 'what the bodies hit in the last step', 'utils/vvflow/vvflow.cpp')], ['state after a run', 'files written'])
