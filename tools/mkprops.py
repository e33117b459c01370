"""writes properties.jsonl (kept as code so that ids, anchors and text stay in one place)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, *mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


F3, F2, R3, R2 = 'src/fft3d.cpp', 'src/fft2d.cpp', 'src/remap3d.cpp', 'src/remap2d.cpp'
ALL_TILINGS = 'The property ranges over every global grid size, every input/output tiling, every number of processors and every rank; tests run a handful of grids on a few ranks'

p('C01', 'A remap delivers every grid element to its owner at the right position',
  'For any valid input and output tilings of the grid over the processors, any number of values per element, any permute, any packing mode (array, '
  'pointer, memcpy) and both communication modes (point-to-point, collective), a 2d or 3d remap copies every global grid element (all its values) '
  'exactly once from its owner in the input tiling to its owner in the output tiling, at the storage position that the output bounds and permute '
  'dictate. Nothing else in the output is written. The block exchanged between two processors is exactly the intersection of their tiles, and sender and '
  'receiver enumerate it in the same order.',
  ['inputs', 'configurations'], 'all tile bounds, nqty, permute, packflag, collective settings, ranks and processor counts',
  ALL_TILINGS + ' and compare only sums/round trips, which cancel symmetric mistakes',
  [R3, R2, 'src/pack3d.h', 'src/pack2d.h'],
  ('pack/unpack kernels', 'pack_3d_*/unpack_3d_* in pack3d.h, pack_2d_*/unpack_2d_* in pack2d.h'),
  ('overlap computation and plan construction', 'Remap3d::setup, Remap3d::collide, Remap2d::setup, Remap2d::collide'),
  ('execution', 'Remap3d::remap, Remap2d::remap'))

p('C02', 'FFT stages chain: every remap consumes the layout the previous stage left',
  'In every 2d or 3d compute call (forward or inverse, in place or out of place, any permute, exchange, tiling, rank) each remap performed is applied to '
  'data stored with exactly the bounds and storage order that remap was set up to read, and data moved between buffers on the way is moved completely. '
  'When the call returns, the output buffer holds the data in the documented layout: output bounds with the axes permuted by permute after a forward '
  'transform, input bounds unpermuted after an inverse one.',
  ['inputs', 'configurations'], 'all grids, tilings, ranks, permute values, exchange values, directions, in-place/out-of-place',
  ALL_TILINGS + '; wrong chaining only shows for tilings where a stage is or is not skipped',
  [F3, F2], ('stage sequence', 'FFT3d::compute, FFT2d::compute, FFT3d::remap'),
  ('plan construction', 'remap_forward_create, remap_inverse_create'))

p('C03', 'Each dimension is transformed once, over whole lines, in the right direction',
  'In every compute call each processor performs, for every dimension of the grid exactly once, 1d FFTs over exactly the complete grid lines it owns at '
  'that stage: each line once, with its full global length, contiguous in memory, and in the direction requested by the caller. With remaponly set no 1d '
  'FFT is performed.',
  ['inputs', 'configurations'], 'all grids (including equal and unequal extents sharing plans), tilings, ranks, directions, FFT libraries, precisions',
  ALL_TILINGS + '; plan sharing between dimensions depends on which extents happen to be equal',
  [F3, F2], ('1d plans', 'FFT3d::setup_ffts, FFT2d::setup_ffts'), ('execution', 'perform_ffts, compute, deallocate_ffts'))

p('C04', 'Inverse results are scaled by 1/N once, over all local data, if requested',
  'After an inverse transform with scaled set and remaponly not set, every real and imaginary value the processor owns in the result has been multiplied '
  'exactly once by 1/(product of the global extents), and nothing outside the result is changed by scaling. Forward transforms, scaled = 0 and remaponly '
  'never scale.',
  ['inputs', 'configurations'], 'all grids, tilings (input and output tiles of different size), ranks, libraries, precisions',
  'tests use tilings where input and output tiles have the same size on a rank, so that the wrong count still scales everything',
  [F3, F2], ('scaling', 'scale_ffts'), ('normalisation', 'norm/normnum in setup_ffts, compute'))

p('C05', 'Out-of-place calls leave the input buffer unmodified',
  'A compute, only_remaps, only_one_remap or stand-alone remap call with different input and output buffers never writes to the input buffer, on any '
  'path, for any tiling and any setting, and the full result still arrives in the output buffer.',
  ['inputs', 'configurations'], 'all tilings (stages present or skipped), directions, permute and exchange settings',
  'the suite only calls the FFT in place, or on tilings where the first remap exists',
  [F3, F2, R3, R2], ('stage buffers', 'FFT3d::compute, FFT2d::compute, FFT3d::remap'), ('remap', 'Remap3d::remap, Remap2d::remap'))

p('C06', 'Buffers are large enough: no stage writes beyond the sizes setup reports',
  'The FFT size returned by setup is at least the number of grid points any stage of any later call stores on this processor, and the send and receive '
  'sizes returned by FFT and remap setup are at least what any remap packs or receives. Internally allocated send, receive and scratch buffers have at '
  'least that room. Within one remap the regions of outstanding receives, of packed messages and of data kept on the processor do not overlap and lie '
  'inside their buffers.',
  ['inputs', 'configurations'], 'all tilings, processor counts, settings and memory modes',
  'overflows only show for tilings where an intermediate stage is larger than both ends, and usually corrupt silently',
  [F3, F2, R3, R2], ('size accounting', 'FFT3d::setup, remap_*_create, Remap3d::setup (sendsize/recvsize)'),
  ('offsets', 'recv_bufloc, send_bufloc, sendbuf/recvbuf use in Remap3d::remap'))

p('C07', 'Point-to-point messages match and complete',
  'In point-to-point mode every block that processor A sends to B is matched by exactly one receive posted by B from A with the same count, datatype, '
  'tag and communicator. All receives are posted before any blocking send, and every posted receive has completed before its data is unpacked and before '
  'the remap returns. Whatever the order of arrival, a received message is unpacked as the block its sender packed.',
  ['schedules', 'inputs'], 'all tilings, processor counts and message arrival orders',
  'arrival order and buffering decide whether an unmatched, unwaited or mis-indexed receive shows up',
  [R3, R2], ('exchange', 'Remap3d::remap, Remap2d::remap'), ('plan', 'Remap3d::setup, Remap2d::setup'))

p('C08', 'In-place remap never reads data it has already overwritten',
  'When a remap is called with the same buffer as input and output, every outgoing block, including the one a processor keeps for itself, is packed '
  'before the first unpack writes into that buffer, and no two unpacks write the same element.',
  ['schedules', 'inputs'], 'all tilings, modes and message arrival orders',
  'overlap of old and new tile positions and the arrival order decide whether stale or clobbered data is packed',
  [R3, R2], ('pack/unpack order', 'Remap3d::remap, Remap2d::remap'))

p('C09', 'All processors issue the same sequence of collective operations',
  'Every MPI collective call made by construction, setup, compute, tune, the only_* methods and destruction is reached under conditions that have the '
  'same value on all members of its communicator: conditions depend only on arguments documented as identical on all processors, on results of earlier '
  'collective calls, or on membership of that sub-communicator.',
  ['schedules', 'inputs', 'configurations'], 'all per-processor tilings and clock readings',
  'a rank-dependent branch around a collective hangs or mixes up operations only for tilings/timings where ranks disagree',
  [F3, F2, R3, R2], ('collective decisions', 'FFT3d::setup, remap_*_create, Remap3d::setup, tune_trial, Remap3d::~Remap3d'))

p('C10', 'Invalid setup arguments are rejected before anything is built',
  'FFT setup and tune stop with an error, before anything is built, for global extents smaller than 2 or with a prime factor other than 2, 3 and 5, '
  'for input or output bounds outside the global grid, for tilings whose sizes do not add up to the global grid, and for permute outside its range; '
  'tune also for direction, iteration count or timing flag arguments outside their range. Invalid bounds passed on any one processor stop all of them. '
  'Valid arguments are accepted.',
  ['inputs'], 'all argument values on all processors',
  'the suite only supplies valid arguments',
  [F3, F2], ('validation', 'FFT3d::setup, FFT2d::setup, tune, prime_factorable'))

p('C11', 'Calls out of order are reported as errors, never executed',
  'A transform, only_* or setup_memory call before setup, a transform or only_* remap call with caller-provided memory before setup_memory, a '
  'setup_memory call with internal memory, a second setup or tune, and a remap before its setup stop with an error message before any data is read or '
  'written. Calls in the documented order never stop with such an error.',
  ['histories'], 'every sequence of public calls',
  'the suite only uses the documented order',
  [F3, F2, R3, R2], ('state flags', 'setupflag, setup_memory_flag'))

p('C12', 'Every history releases each resource exactly once, uses none after release',
  'For every history of create, setup or tune, setup_memory, any number of transforms, and destroy - including destroy right after create - each memory '
  'block, MPI communicator or group, 1d FFT plan, remap plan and helper object created by the library is released exactly once by the end. Nothing that '
  'was never created is released, and nothing is used after its release.',
  ['histories', 'configurations'], 'all call histories and settings (which optional plans exist)',
  'leaks and double frees do not fail tests; plan sharing depends on extents',
  [F3, F2, R3, R2, 'src/memory.cpp'], ('ownership', '~FFT3d, ~Remap3d, deallocate_ffts, deallocate_remap, Memory'))

p('C13', 'Caller-provided buffers are used as given, never freed or reallocated',
  'With memoryflag 0 the FFT allocates no send or receive buffers of its own, transforms use exactly the buffers given to setup_memory (the latest call '
  'wins), and neither transforms nor destruction free or reallocate them. A stand-alone remap with memoryflag 0 likewise uses only the buffers passed to '
  'it with each call.',
  ['histories', 'configurations'], 'all settings, tilings and call histories',
  'a stray free of a caller buffer often goes unnoticed',
  [F3, F2, R3, R2], ('buffers', 'setup_memory, FFT3d::setup, ~FFT3d, Remap3d::remap'))

p('C14', 'tune leaves the FFT set up with the fastest settings, agreed by all processors',
  'tune runs the documented two-stage search - one test run to choose the number of iterations within the time limit, trials of the collective and '
  'exchange settings with packflag 2, then trials of the packflag values with the best of those, fewer when the time limit requires - and leaves the FFT '
  'set up with the combination whose trial time is smallest. The reported best settings, times and per-trial records describe exactly the trials that '
  "ran, never beyond the room for them, and the caller's memoryflag and scaled settings are as before. Every decision is based on times agreed among all "
  'processors.',
  ['schedules', 'configurations'], 'all timings on all processors',
  'timings cannot be controlled by tests, and disagreement between ranks is rare',
  [F3, F2], ('tuning', 'FFT3d::tune, FFT3d::tune_trial, FFT2d::tune'))

p('C15', 'C interface wrappers forward faithfully to the C++ methods',
  'Every C interface function passes each argument unchanged to the same-named method of the right class; the Fortran variants convert the communicator '
  'handle and otherwise only shift 1-based values (indices, permute where documented) by one. Set and get keywords access the public member of that name '
  'with its type, unknown keywords give the documented result, and vector getters return the whole vector and its true length.',
  ['inputs', 'programs'], 'all argument values and keywords',
  'the suite exercises a few keywords with symmetric arguments',
  ['src/fft3d_wrap.cpp', 'src/fft2d_wrap.cpp', 'src/remap3d_wrap.cpp', 'src/remap2d_wrap.cpp'],
  ('wrappers', 'fft3d_*, fft2d_*, remap3d_*, remap2d_*'))

p('C16', 'Fortran and Python interfaces agree with the C functions they bind',
  'Every Fortran interface binds an existing C function with the same number, order, passing mode and size of arguments and result. Every Python wrapper '
  'method calls an existing C function with arguments of the number, order and types it takes and declares results that are not int.',
  ['programs'], 'all interface routines and arguments',
  'most interface routines are never called by the suite and a mismatch passes the compiler (bind(c), ctypes)',
  ['src/fft3d_wrap.f90', 'src/fft2d_wrap.f90', 'src/remap3d_wrap.f90', 'src/remap2d_wrap.f90', 'src/fftmpi.py'],
  ('interfaces', 'interface blocks in *_wrap.f90'), ('ctypes calls', 'fftmpi.py'))

p('C17', 'Element sizes and MPI datatypes match the compiled precision',
  'In each compiled precision every number of bytes copied or allocated for data is computed from the size of the actual element type, and every MPI '
  'message uses the datatype of the elements in its buffer with a count of such elements. The constructors reject a caller precision different from the '
  'compiled one.',
  ['configurations', 'inputs'], 'both precisions, all message and copy sites',
  'the suite is built in few precision/pack combinations',
  [R3, R2, 'src/pack3d.h', 'src/pack2d.h', F3, F2], ('copies and messages', 'pack_*_memcpy, Remap3d::remap'))

p('C18', 'Settings have documented defaults, apply at setup, and are then frozen',
  'A new FFT has collective 2, exchange 0, packflag 2, memoryflag 1, scaled 1 and remaponly 0, and a new remap collective 1 and packflag 2. The values '
  'set before setup are the ones the transforms use, where collective 2 means point-to-point for remaps between a brick and a pencil decomposition and '
  'collective for those between pencils that move data between processors. Changing collective, exchange, packflag or memoryflag after setup changes '
  'nothing, while scaled and remaponly apply at each compute call.',
  ['histories', 'configurations'], 'all settings and assignment times',
  'changing a setting after setup is never exercised',
  [F3, F2, R3, R2], ('options', 'FFT3d::FFT3d, FFT3d::setup, Remap3d::Remap3d, Remap3d::setup'))

p('C19', 'Internal processor decompositions tile the grid',
  'For every processor count and grid, each internal pencil or brick decomposition has exactly as many pieces as there are processors, and the tiles of '
  'all processors are disjoint, lie inside the global grid and together cover it.',
  ['inputs', 'configurations'], 'all processor counts, grids and ranks',
  'gaps/overlaps occur only for particular factorisations',
  [F3, F2], ('factorisation', 'FFT3d::factor, procfactors, best2d/best3d, bestproc2d'), ('range computation', 'FFT3d::setup'))

p('C20', 'Global grid counts and byte counts are computed in 64 bits',
  'Numbers of global grid points and numbers of bytes of a data buffer are formed in 64-bit integers or floating point, so that grids of more than 2^31 '
  'points and buffers of more than 2^31 bytes work as long as the number of values a single processor stores fits a 32-bit integer.',
  ['inputs'], 'all grids with per-processor counts that fit an int',
  'tests cannot allocate such grids',
  [F3, F2, 'src/memory.cpp', R3, R2], ('size arithmetic', 'FFT3d::setup, setup_ffts (norm), Memory::smalloc, memusage'))

p('C21', 'only_* methods perform exactly the corresponding parts of compute',
  'only_remaps performs the same remaps as compute in that direction and no 1d FFT or scaling, and compute with remaponly set is equivalent to it. '
  'only_one_remap performs exactly the requested stage, and its stages applied in order are equivalent to only_remaps. only_1d_ffts performs the same '
  'sets of 1d FFTs as compute in that direction and moves no data between processors.',
  ['inputs', 'configurations'], 'all tilings, settings, directions, stages',
  'only timing code calls them; results are not checked',
  [F3, F2], ('partial operations', 'only_1d_ffts, only_remaps, only_one_remap'))

p('C22', 'The built-in KISS FFT computes the DFT recursion for every length',
  'For every length n and both directions the built-in 1d FFT computes exactly the discrete Fourier transform (up to rounding in the compiled '
  'precision), in place and out of place: output k is the sum over j of input j times exp(-2 pi i j k/n), with the opposite sign for the backward '
  'direction. It writes nothing but its output, leaves a separate input unchanged, and releases its temporary memory.',
  ['inputs'], 'all lengths and both directions',
  'tests use few lengths and directions; some radices are rarely hit',
  ['src/kissfft.h'], ('plan', 'kiss_fft_alloc, kf_factor'), ('transform', 'kf_work, kf_bfly2..5, kf_bfly_generic, kiss_fft_stride'))

p('C23', 'Failed allocations are reported, never dereferenced',
  'When an allocation of communication buffers, remap plan data or tuning records made during setup or tune fails, the library stops with an error '
  'message before the missing block is accessed, for every allocation site and every sequence of failures.',
  ['fault_sequences', 'histories'], 'failure of any subset of allocations',
  'allocation failures are not injected by the suite',
  [F3, F2, R3, R2, 'src/memory.cpp'], ('checks', 'memory->smalloc call sites, error->one'))

p('C24', 'memusage and decomposition statistics report what was really built',
  'The reported memory usage of an FFT is the number of bytes of the send and receive buffers it allocated itself plus the memory usage of the remaps it '
  'created; that of a remap covers its own buffers and plan data. The reported numbers of processors per dimension are those of the internal '
  'decompositions really used, and the reported 1d FFT library and precision are the compiled ones.',
  ['inputs', 'configurations'], 'all settings and tilings',
  'reported numbers are printed, not checked',
  [F3, F2, R3, R2], ('accounting', 'memusage in FFT3d::setup and Remap3d::setup, nfast/nmid/nslow layouts'))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
