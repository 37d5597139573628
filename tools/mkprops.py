"""writes properties.jsonl (single source for the property texts)"""
import json, os
def m(*xs): return [dict(name=n, where=w) for n, w in xs]
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=m(*mech))))
FG='src/fullgrid/DistributedFullGrid.hpp'
prop('P01','Grid index conversions are mutually inverse bijections',
 'For every full grid and for the part of it held by any process, the conversions between a linear index and a per-dimension index vector are mutually inverse, cover exactly the index range, and use column-major order (first dimension fastest). Converting a point between its local and its global index, in either direction, always denotes the same grid point. A global index is reported as present on a process exactly when the point lies inside that process\'s index bounds.',
 ['inputs','configurations'],'all extents (total fits the index type), all sub-boxes, all linear indices and index vectors, dimensions 1..6',
 'Tests convert a handful of grids of fixed extents on at most 9 processes; the claim is about every extent, every sub-box and every index.',
 ['src/fullgrid/Tensor.hpp',FG],
 [('TensorIndexer: prefix-product offsets, sequentialIndex, getVectorIndex','src/fullgrid/Tensor.hpp'),('local/global conversions via lower bounds',FG)])
prop('P02','Domain decomposition assigns every grid point to exactly one process',
 'For every grid size, every process layout and both rounding directions, the default decomposition gives each process one non-empty contiguous index range per dimension, the ranges are ordered, disjoint and together cover the whole axis (the range of process j of p starts at points*j/p, rounded up or down as selected), and a layout with more processes than points in some dimension is rejected with an exception. All processes of a grid compute consistent bounds for themselves and for every other process, and the owner reported for any axis index is the process whose range contains it. Coarsening a decomposition to a lower level keeps every grid point common to both levels on the same process.',
 ['inputs','configurations'],'all axis sizes and process counts, both rounding directions, with and without boundary points, all valid user decompositions',
 'Tests use a few power-of-two layouts; gaps or overlaps appear only for particular size/process ratios.',
 ['src/utils/DecompositionUtils.hpp',FG,'src/mpi/MPICartesianUtils.hpp'],
 [('getDefaultDecomposition / downsampleDecomposition','src/utils/DecompositionUtils.hpp'),('getLowerBounds, getUpperBounds, neighbour lookup',FG),('rank <-> cartesian coordinates','src/mpi/MPICartesianUtils.hpp')])
prop('P03','Hierarchical subspaces partition the grid points',
 'For every grid level, boundary setting and decomposition, each one-dimensional axis index has exactly one hierarchical level (the points of level l are those first appearing on refinement l; boundary points are reported as level 0 and are enumerated with the level-1 subspace) and its left and right hierarchical predecessors are the nearest coarser-or-equal-boundary points at the matching distance, or none. Enumerating, over all processes, the points of every hierarchical subspace of a grid yields every grid point exactly once, and the number of points reported for a subspace on a process equals the number enumerated.',
 ['inputs','configurations'],'all levels, all axis indices, 0/1/2 boundary points, all local index ranges',
 'Tests compare counts for a few small grids; strides and start offsets depend on the interplay of level, lower bound and boundary.',
 [FG,'src/utils/PowerOfTwo.hpp','src/utils/LevelSetUtils.hpp'],
 [('getLevel, getLeftPredecessor, getRightPredecessor',FG),('getStrideForThisLevel, getLocalStartForThisLevel, getNumPointsOnThisPartition, getFGPointsOfSubspace',FG),('getNumDofNodal / getNumDofHierarchical','src/utils/LevelSetUtils.hpp')])
prop('P04','Hierarchization computes the basis coefficients and is invertible',
 'For every grid, decomposition, boundary setting, choice of hierarchized dimensions and data, dehierarchizing a hierarchized grid restores the original values, and hierarchizing yields exactly the coefficients of the selected basis (hat: value minus half the sum of the hierarchical neighbours; biorthogonal and full-weighting: the corresponding wavelet coefficients on the periodic or bounded domain). The result on every point is the same for any number of processes and any decomposition.',
 ['inputs','configurations'],'all data values (exact arithmetic), levels, boundary settings, basis functions, decompositions',
 'Tests check selected functions on selected grids; an error confined to one level, one boundary kind or one exchange direction can cancel on them.',
 ['src/hierarchization/DistributedHierarchization.hpp','src/hierarchization/CombiLinearBasisFunction.hpp'],
 [('1-d (de)hierarchization kernels','src/hierarchization/DistributedHierarchization.hpp'),('exchange of hierarchical predecessors between processes','src/hierarchization/DistributedHierarchization.hpp')])
prop('P05','Generated combination schemes are consistent combinations',
 'For every minimum and maximum level, each generated scheme (classical, or adaptive unless its generation is rejected with an exception because the level range is too uneven) consists of distinct component grids within the minimum and maximum level with matching coefficients, and for every hierarchical subspace contained in any component grid the coefficients of the component grids containing it sum to exactly one. Every level set derived from a scheme is downward closed, free of duplicates and covers all subspaces of the component grids; the set regenerated from the component grids and the down set of a single level contain exactly the covered subspaces; making a scheme fault tolerant only adds further grids with coefficient zero.',
 ['inputs','configurations'],'all level pairs and dimensions, including anisotropic and degenerate ones',
 'Tests instantiate a few schemes and compare sizes or coefficient sums; inclusion/exclusion must be right per subspace.',
 ['src/combischeme/CombiMinMaxScheme.cpp','src/combischeme/CombiMinMaxScheme.hpp','src/utils/LevelSetUtils.cpp','src/utils/LevelSetUtils.hpp'],
 [('createClassicalCombischeme, createAdaptiveCombischeme, coefficient computation','src/combischeme/CombiMinMaxScheme.cpp'),('createTruncatedHierarchicalLevels, getDownSet, HypercubeDownSetGenerator','src/utils/LevelSetUtils.cpp')])
prop('P06','Sparse grid gathers and scatters component grids without loss',
 'In a sparse grid every subspace owns its own contiguous block of storage whose length is the largest number of points any registered component grid has in that subspace on this process. Adding a component grid with a coefficient adds coefficient times value for each grid point to exactly one storage entry and changes nothing else; extracting into a grid writes to each of its points the stored value of that same point, leaves other points untouched, and extracting after adding to a zeroed sparse grid with coefficient one returns the grid unchanged. Zeroing or reallocating the storage leaves no trace of earlier values, copying between sparse grids copies exactly the subspaces allocated in both, and the recorded smallest and largest coefficient of a subspace are those of all values present when they were recorded.',
 ['inputs','configurations','histories'],'all sets of registered grids, coefficients, data values, order of operations',
 'Tests use constant or single-formula data on a few grids, where swapped entries or a wrong block offset can go unseen.',
 ['src/sparsegrid/DistributedSparseGridUniform.hpp','src/sparsegrid/AnyDistributedSparseGrid.cpp',FG],
 [('createSubspaceData, registerDistributedFullGrid, addDistributedFullGrid','src/sparsegrid/DistributedSparseGridUniform.hpp'),('extractFromUniformSG',FG)])
prop('P07','Global reduction sums every sparse grid value exactly once',
 'For every communicator size, every reduction variant (whole sparse grid, per subspace, outgroup, chunked) and every chunk size limit, after the reduction each process holds, for every subspace taking part, the element-wise sum over all participating processes of the values before, and entries of subspaces not taking part are unchanged. Chunk limits only change message sizes: no chunk exceeds the limit unless a single subspace does, and every subspace is communicated exactly once. Subspace sizes are first reconciled to the maximum over the participants.',
 ['inputs','configurations','schedules'],'all communicator sizes, chunk sizes, subspace size distributions',
 'Tests reduce a few schemes with a few chunk sizes; boundary effects depend on how subspace sizes fill a chunk.',
 ['src/combicom/CombiCom.hpp','src/sparsegrid/AnyDistributedSparseGrid.cpp','src/sparsegrid/DistributedSparseGridUniform.hpp'],
 [('getChunkedSubspaces, distributedGlobalSubspaceReduce, asyncBcast..., sumAndCheckSubspaceSizes','src/combicom/CombiCom.hpp'),('communicators and subspaces by communicator','src/sparsegrid/AnyDistributedSparseGrid.cpp')])
prop('P08','Process roles and communicators are consistent for every layout',
 'For every number of process groups and of processes per group (both at least one), with or without a manager, numbers of processes that do not fit are rejected and every world rank has exactly one role: the manager (the last rank) or one rank of one process group. On every process, group-local communicators (the processes of the group in order), global reduce communicators (the processes of equal local rank, ordered by group), the global communicator (the group masters in order, then the manager), the third level communicators (one per group: its processes, then the manager) and the output group (one process per local rank, from group local rank modulo number of groups) contain exactly the expected world ranks in the documented order, and are absent on all others; ranks, master and manager ranks and group numbers refer to them. If the output is partitioned into files, the parts are contiguous, and all processes of a part, and only they, report its part number.',
 ['configurations'],'all numbers of groups, group sizes, ranks and file parts',
 'Tests run at most 9 processes in a few shapes.',
 ['src/mpi/MPISystem.cpp','src/mpi/MPISystem.hpp'],
 [('init, initWorldReusable, initSystemConstants, initLocalComm, storeLocalComm, initGlobalComm, initGlobalReduceCommm, initThirdLevelComms, initOutputGroupComm, getDiagonalRanks','src/mpi/MPISystem.cpp'),('isWorldManager, isProcessGroupMaster, getProcessGroupNumber, getFilePartNumber','src/mpi/MPISystem.hpp')])
prop('P09','Every component grid is assigned to exactly one executor',
 'For every combination scheme, splitting it over compute systems by fractions, or over process groups by round robin, by load or by a scheme file, assigns each component grid, together with its own coefficient and number, to exactly one part, and reports the total number of grids. The load-based split always gives the next grid to a currently least loaded group.',
 ['inputs','configurations'],'all schemes, fractions, group counts',
 'Tests check one scheme with two systems or a few groups.',
 ['src/combischeme/CombiMinMaxScheme.hpp','src/combischeme/CombiThirdLevelScheme.cpp'],
 [('getRoundRobinLevels, getLoadBalancedLevels, getAssignedLevels','src/combischeme/CombiMinMaxScheme.hpp'),('decomposeScheme','src/combischeme/CombiThirdLevelScheme.cpp')])
prop('P10','Files written by the library read back as the same data',
 'For every number of processes, data size and chunk size, values written collectively to a file appear consecutively in rank order, each value exactly once, and reading the file with the same number of values per process restores them, also with compression and in several output parts. Reading with reduction combines each value exactly once with the value written at the same position, whatever the buffer size and also if processes need different numbers of reads. A file whose total size (or, compressed, whose number of values per process) does not match, and a read that fails, is reported instead of silently reading wrong data.',
 ['inputs','configurations','histories'],'all sizes per rank including empty ranks, all chunk sizes, compressed and uncompressed',
 'Tests write one sparse grid per variant; offsets and chunk boundaries depend on the sizes.',
 ['src/io/MPIInputOutput.hpp','src/io/MPICompression.hpp','src/sparsegrid/DistributedSparseGridIO.hpp'],
 [('writeValuesConsecutive, readValuesConsecutive, readReduceValuesConsecutive','src/io/MPIInputOutput.hpp'),('compress/decompress buffers','src/io/MPICompression.hpp'),('writeOneFile, readOneFile, reduce variants','src/sparsegrid/DistributedSparseGridIO.hpp')])
prop('P11','Socket transfers between systems deliver every byte once, in order',
 'However the operating system splits a transfer, a message or binary buffer sent by one side is received complete, in order and exactly once by the other, chunked and reducing receives included, independent of the chunk size; a closed or failed connection is reported as failure, never as success. Receiving with reduction adds exactly the received value to each existing element, and differing byte order on the wire is corrected in data received into memory.',
 ['inputs','schedules','fault_sequences'],'all message lengths, all partial send/receive splits, all connection failures',
 'Tests run over loopback where transfers rarely split.',
 ['src/third_level/NetworkUtils.cpp','src/third_level/NetworkUtils.hpp'],
 [('sendall, recvall, sendallPrefixed, recvallPrefixed, recvallBinary*','src/third_level/NetworkUtils.cpp')])
prop('P12','Load estimates and task rescheduling are sound',
 'Load models return for each grid: the last-n model (n >= 1) the mean, rounded down to microseconds, of the last n recorded durations of that grid; the averaging model the mean of the durations received since its durations were last written to the file, else the mean recorded in the file; with nothing recorded the fallback (linear: two to the power of the level sum) model, or zero where only microseconds can be returned. Recording a duration affects no other grid. A rescheduling plan contains at most as many moves as iterations are allowed, moves only existing tasks, each at most once, to an existing group other than the one that holds it; if the load model predicts the measured durations, the slowest group after the moves is not slower than the slowest before; and the plan is empty when the ratio of the slowest group to the (rounded down) average is below the configured minimum, when there is no load, and when the load model cannot predict durations.',
 ['inputs','histories'],'all task sets, durations, histories, group numbers and limits (durations given for existing tasks)',
 'Tests use one or two fixed task sets.',
 ['src/loadmodel/AveragingLoadModel.hpp','src/loadmodel/AveragingLoadModel.cpp','src/loadmodel/AverageOfLastNLoadModel.cpp','src/loadmodel/LinearLoadModel.cpp','src/rescheduler/RebalancingTaskRescheduler.cpp'],
 [('eval, evalSpecificUOT, addDurationInformation','src/loadmodel/AverageOfLastNLoadModel.cpp'),('eval, addDurationInformation, writeDurationsToFile','src/loadmodel/AveragingLoadModel.hpp'),('eval','src/rescheduler/RebalancingTaskRescheduler.cpp')])
prop('P13','Grid evaluation is multilinear interpolation',
 'For every grid, decomposition and evaluation point in the unit cube (its ends included), summing the local evaluations over all processes gives the value of the multilinear (tensor-product hat function) interpolant of the nodal values, with zero assumed outside the grid on sides without boundary points and periodic continuation for one-sided boundaries; at grid points this is the nodal value. Evaluating many points gives every point its own value, and the combined solution is the sum of the component values weighted with their coefficients. The maximum norm of a grid is the largest absolute nodal value, its 1-norm the sum of the absolute nodal values weighted with the integrals of their hat functions (cell volume, halved per two-sided boundary the point lies on).',
 ['inputs','configurations'],'all evaluation points, levels, boundary settings, decompositions, data',
 'Tests sample some points of smooth functions.',
 [FG,'src/manager/InterpolationWorker.hpp'],
 [('evalLocal, evalIndexAndAllUpperNeighbors, getInterpolatedValues, getLpNorm',FG),('interpolateValues','src/manager/InterpolationWorker.hpp')])
prop('P14','Boundary and ghost layers transfer exactly the right values',
 'For every grid, decomposition and dimension, the ghost layer received from the lower neighbour in a dimension contains exactly that neighbour\'s upper layer, in index order and with the stated extents, whatever the receiving buffers held before; a process without such a neighbour receives nothing; the local data is unchanged. Copying the lower boundary of a dimension makes the values of its last layer those of its first layer and changes nothing else. The corner values are the values of the grid at its corners on every process, and gathering a distributed grid on a process puts every value at its global index.',
 ['inputs','configurations'],'all grids, decompositions, dimensions, data, roots',
 'Tests cover a few decompositions with smooth data.',
 [FG],
 [('exchangeGhostLayerUpward, writeLowerBoundaryToUpperBoundary, getUpwardSubarray, getDownwardSubarray',FG),('getCornersValues, gatherFullGrid',FG)])
prop('P15','Combination state and requests reach every participant unchanged',
 'Combination parameters, tasks (with their fault criteria), containers and interpolation coordinates sent or broadcast from one process arrive at every receiver equal to those sent, for all values (finite numbers), sizes, ranks and roots; writing them to the serialized form and reading them back is the identity. A request of the manager to a process group (parameters, tasks, file names, levels, coordinates, task numbers, norms) makes every process of the group perform that operation once with exactly the arguments given to the manager, whatever order the compiler evaluates function arguments in; results returned to the manager are those the group computed, for the right task; every message sent is received, so that the state of the group the manager sees belongs to its last request. A request that concerns all process groups reaches each of them once, and the numbers of values reported by the groups are summed exactly.',
 ['inputs','configurations','schedules'],'all parameter values, container sizes, numbers of receivers, requests',
 'Tests serialize one or two parameter sets and use few of the requests, each followed by no other.',
 ['src/manager/CombiParameters.hpp','src/mpi/MPIUtils.hpp','src/task/Task.hpp','src/manager/ProcessGroupManager.cpp','src/manager/ProcessGroupWorker.cpp','src/manager/ProcessManager.hpp','src/utils/MonteCarlo.cpp'],
 [('serialize','src/manager/CombiParameters.hpp'),('sendClass/receiveClass/broadcastClass/broadcastContainer','src/mpi/MPIUtils.hpp'),('ProcessGroupWorker::wait','src/manager/ProcessGroupWorker.cpp')])
prop('P16','Systems connected by the third level manager end with the same combined data',
 'For two compute systems connected by the third level manager, whichever reports first and whatever the delays, each operation gives the systems opposite instructions (the first to report sends first). After a combination both systems hold, for every worker and every value, the sum of the values of both; after unifying subspace sizes both hold the elementwise maximum (with an extra sparse grid the minimum) of the sizes of both, and the numbers of values per worker and in total are the exact sums; Monte Carlo points are those of the system that sends first and their values the sums of both. The third level manager forwards every block with its announced length to the other system, in order and once, counts combinations and bytes exactly, keeps serving a system until that system logs off, and ends, with its statistics, when all have logged off, also if nothing was combined. Values pass between manager and workers in the same messages on both sides whatever their number; no party waits for a message that is not sent.',
 ['inputs','configurations','schedules'],'all values, sizes, numbers of workers and blocks, either system first, any sequence of operations (one component function per task)',
 'The repository tests of the third level manager are not among the stable ones; they compare against one analytical solution, and never end a run without a combination.',
 ['third_level_manager/thirdLevelManager.cpp','third_level_manager/System.cpp','src/third_level/ThirdLevelUtils.hpp','src/third_level/ThirdLevelUtils.cpp','src/manager/ProcessManager.hpp','src/manager/ProcessManager.cpp','src/manager/ProcessGroupManager.cpp','src/manager/ProcessGroupWorker.cpp','src/combicom/CombiCom.hpp'],
 [('runtimeLoop, processMessage, process*, forwardData, writeStatistics','third_level_manager/thirdLevelManager.cpp'),('combineThirdLevel, unifySubspaceSizesThirdLevel, monteCarloThirdLevel','src/manager/ProcessManager.hpp'),('exchangeDsgus, reduceLocalAndRemoteSubspaceSizes, collectSubspaceSizes, distributeSubspaceSizes','src/manager/ProcessGroupManager.cpp')])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
