CONTRACT = 'contracts on the compiled functions, discharged deductively; each contract also replayed on the real code'
BASE = 'Arithmetic is treated as exact over the reals (rounding unchecked); the compiler front end (clang -O1 IR), the term normaliser and z3/cvc5 are trusted; '
CLAIMED['C02'] = (CONTRACT, 'proof', BASE + 'std::vector storage is modelled by its begin/end/capacity pointers, push_back is an assumed contract.')
CLAIMED['C03'] = (CONTRACT, 'proof', BASE + 'TBody::move (proved separately) enters the whole step by its frame; std::map, shared_ptr and weak_ptr are assumed contracts; chains of roots are taken to end; speed(), inf_speed() and the script values are opaque functions of the time. The whole step is also executed on random hierarchies (bounded).')
CLAIMED['C12'] = (CONTRACT, 'proof', BASE + 'the tree given to the kernels is an arbitrary node list (its construction is C07).')
CLAIMED['C06'] = (CONTRACT, 'proof', BASE + 'which wall segment is nearest to a leaf is an assumed contract (nearestBodySegment); in the pass over all leaves each search is checked against its contract.')
CLAIMED['C13'] = (CONTRACT, 'proof', BASE + 'exp is an uninterpreted function with its defining bounds; the tree given to the kernels is an arbitrary node list (C07).')
CLAIMED['C14'] = (CONTRACT, 'proof', BASE + 'which wall segment is nearest to a leaf is an assumed contract (nearestBodySegment).')
CLAIMED['C05'] = (CONTRACT, 'proof', BASE + 'the shedding step and every removal and bookkeeping loop of the motion step are proved; std::vector::erase is an assumed contract (one element less, contents arbitrary afterwards: that the others keep their values is executed, bounded), and the point-in-body and heat-layer predicates are opaque functions here (C04 decides the former).')
CLAIMED['C10'] = (CONTRACT, 'proof', BASE + 'every row but the slip row is proved; the slip row, the numbering of the rows and the assembled system are compared on random states (bounded); TEval::eval and weak_ptr::lock are assumed contracts.')
CLAIMED['C17'] = (CONTRACT, 'proof', BASE + 'the HDF5 library and the other library calls are outside.')
CLAIMED['C01'] = (CONTRACT, 'proof', 'The additions and multiple tests are proved with the machine integers of the code (wrap-around and division included) for every pair of times whose exact result fits; the least-common-multiple search is an assumed contract backed by a bounded check; the conversion of decimals is executed (bounded) on every decimal of three places and on random ones.')
CLAIMED['C20'] = (CONTRACT, 'proof', 'The Lua interpreter is an assumed contract (a stack and a table of globals; a compiled text has a fixed value at each time); evaluation, caching and assignment of the real code are proved against it, and the whole is also executed on random histories with the real Lua (bounded).')
CLAIMED['C04'] = (CONTRACT, 'proof', BASE + 'that the quick rejections are invisible is proved for a body whose stored extents contain its corners (C02); exact arithmetic stands in for the doubles, the random bodies of the bounded check use the doubles.')
CLAIMED['C11'] = (CONTRACT, 'proof', BASE + 'the spring and prescribed-speed rows and the search of the earliest contact over all bodies and components are proved; the stop/rebound sequence over several steps is executed on random states (bounded).')
CLAIMED['C07'] = (CONTRACT, 'proof', BASE + 'division, partition, boxes, mass centres, near/far classification and lookup are proved node by node; that the recursion over nodes ends is not proved, and what holds of the whole finished tree is also checked on random states (bounded). The memory allocator and push_back are assumed contracts.')
CLAIMED['C08'] = (CONTRACT, 'proof', BASE + 'BLAS/LAPACK and std::map are assumed contracts (their argument conventions are obligations); that rounding stays small and the map keeps no other entries is executed on random histories (bounded).')
CLAIMED['C15'] = (CONTRACT, 'proof', BASE + 'values are stored exactly (single precision is not modelled); the byte layout of streams, sorting and std::vector are assumed contracts, and files (whole, truncated, damaged) are also written and read by the real code on random grids (bounded).')
CLAIMED['C16'] = (CONTRACT, 'proof', BASE + 'the crossings of every cell are proved (all cells, levels, values, jumps); joining the pieces to lines (std::list, std::deque) and writing them is executed on random fields and compared with all cell crossings (bounded).')
CLAIMED['C21'] = (CONTRACT, 'proof', BASE + 'exp, log, erf and atan2 are uninterpreted functions; the steps before the sampling (shedding, tree, smoothing, convection, diffusion) are the contracts of other properties, here only called in order; single precision of the stored value and the copying of the state are checked on random states (bounded).')
CLAIMED['C09'] = (CONTRACT, 'proof', BASE + 'HDF5, std::string (a text is one opaque value), std::map and the growth of std::vector are assumed contracts; the order of the top level of a file (Space::save_hdf and Space::load_hdf: names, the map of bodies, the attributes of the state), bit-exactness and files written twice are checked by saving and loading random states (bounded).')
CLAIMED['C22'] = (CONTRACT, 'proof', 'Opening (rows kept, every data set of every body), cutting a data set, appending a row, the whole record of every body and the numbering of bodies are proved; HDF5, std::string and std::vector are assumed contracts and single precision is not modelled. The names of bodies and the life of flushed records after a crash are executed on random runs (bounded).')
CLAIMED['C18'] = (CONTRACT, 'proof', BASE + 'the Lua interpreter is an assumed contract (a stack and typed values; an error ends the function), a decimal literal stands for the decimal it rounds. For the ellipse the corners on the curve are proved, their spacing and the end of the loop are executed on random ellipses (bounded).')
CLAIMED['C19'] = (CONTRACT, 'proof', BASE + 'the Lua interpreter (a stack and typed values; an error ends the function), sscanf, std::string, std::shared_ptr/weak_ptr, std::vector growth and TTime::makeWithSecondsDecimal (the nearest decimal fraction) are assumed contracts; NaN and infinity are covered by the executed histories only (bounded). One known finding: references to elements of a list that has grown.')
CLAIMED['C26'] = (CONTRACT, 'proof', BASE + 'the order, the arguments and the conditions of all calls of a run (any number of steps), what scripts find, the handling of the input and the lines of the sensors are proved; the parts of a step are the contracts of the other properties, the Lua interpreter, snprintf, the constructors and the C library are assumed contracts. Reading of the sensors\' file, the options and the whole program are executed on random runs and compared with steps made one by one (bounded).')
WIP = 'check under construction'
for _p in P:
    if _p['id'] not in CLAIMED: NA[_p['id']] = WIP
NOTES = ''
NA['C23'] = 'a statement about the accuracy of a whole numerical method against Navier-Stokes: no function contract within reach expresses it'
NA['C24'] = 'schedules of OpenMP loops: the contracts here are sequential; races are outside this technique'
NA['C25'] = 'the drawing happens in gnuplot and the output is an image or terminal text; no contract on the code decides what is drawn'
