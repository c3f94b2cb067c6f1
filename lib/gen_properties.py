#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statement of every property, in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe)))

p("C01", "Periodic runs conserve every conserved quantity",
  "On a fully periodic domain, the integral over the domain of each conserved variable is the same at every time step and in every snapshot as in the initial data, up to rounding. "
  "This holds for every equation, numerical flux, reconstruction, extra diffusion, time integrator, dimension (1, 2, 3) and cell aspect ratio that can be selected.",
  ["inputs", "configurations", "histories"],
  "all initial data, all grids (sizes, shapes, cell aspect ratios), all admissible combinations of scheme options, all numbers of steps",
  "The tests check individual interface fluxes and single conserved sums for one or two hand-picked states; conservation is a statement about every state and every combination of options.",
  ["alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/simulator/ConservedSystem.cpp", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp", "alsfvm/src/integrator", "alsfvm/src/boundary/BoundaryCPU.cpp"],
  [("flux differencing", "alsfvm/src/numflux/NumericalFluxCPU.cpp"), ("diffusion differencing", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp"), ("periodic ghost cells", "alsfvm/src/boundary/BoundaryCPU.cpp")],
  ["state after each step handed to a writer"])

p("C02", "Uniform states are left unchanged by every scheme",
  "A spatially uniform admissible state remains that uniform state, up to rounding, after any number of steps. "
  "This holds for every equation, numerical flux, reconstruction, extra diffusion, time integrator, boundary condition, dimension and grid, including states at rest, supersonic states in either sense and (with evenly spaced output times) states at which every wave speed is zero.",
  ["inputs", "configurations"],
  "all uniform states of every equation with every combination of scheme options, boundary types, grids",
  "Existing consistency tests evaluate the interface flux for a few states; they do not cover each branch of each flux, each direction and the full scheme around it.",
  ["alsfvm/include/alsfvm/numflux", "alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/reconstruction", "alsfvm/src/diffusion"],
  [("interface fluxes", "alsfvm/include/alsfvm/numflux"), ("reconstruction", "alsfvm/src/reconstruction"), ("tecno diffusion", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp")],
  ["state after each step"])

p("C03", "Each named numerical flux is the published flux of that name",
  "For every numerical flux selectable by name, the rate of change it gives each cell equals minus the sum over directions of the difference of the published flux formula of that name divided by the cell length in that direction, evaluated on the states on both sides of each interface (for the higher-order entropy-conservative and wide-stencil fluxes, used without reconstruction: the published linear combination of two-point fluxes). "
  "This holds in every direction, for every admissible pair of states, including nearly equal states, supersonic states, transonic rarefactions and sonic points, and for every cell aspect ratio.",
  ["inputs", "configurations"],
  "all pairs (or stencils) of admissible states, all equation parameters, all three directions, all cell sizes",
  "The tests compare a handful of states against stored numbers; the branches of each flux are selected by the input states.",
  ["alsfvm/include/alsfvm/numflux", "alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/numflux/NumericalFluxFactory.cpp"],
  [("two-point fluxes", "alsfvm/include/alsfvm/numflux"), ("flux loop", "alsfvm/src/numflux/NumericalFluxCPU.cpp")],
  ["output of the numerical flux operator on a volume"])

p("C04", "Schemes commute with the symmetries of the equations",
  "Cyclically shifting periodic initial data, exchanging coordinate axes (together with the velocity components), extending lower-dimensional data constantly along a further axis, and, for equations with that symmetry, mirroring the data, commutes with running the simulation, up to rounding. "
  "Scaling all lengths and times by a common factor likewise only rescales time. "
  "(Data at which a stencil selection compares exactly equal numbers are excepted: there rounding decides.)",
  ["inputs", "configurations"],
  "all initial data, all scheme options, all shifts and axis permutations, 1/2/3 dimensions",
  "A test samples one arrangement of one problem; directional code paths (x, y, z) are selected by the arrangement.",
  ["alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/include/alsfvm/reconstruction/ReconstructionCPU.hpp", "alsfvm/include/alsfvm/equation/euler/Euler.hpp", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp"],
  [("directional flux sweep", "alsfvm/src/numflux/NumericalFluxCPU.cpp"), ("directional views of states", "alsfvm/include/alsfvm/equation/euler")],
  ["state after a number of steps"])

p("C05", "First-order monotone schemes obey the maximum principle and are TVD",
  "For scalar equations with a monotone flux, no reconstruction and forward Euler under the default CFL number, a step never creates values outside the range of the previous values, never increases total variation (in 1D) and (without reconstruction) preserves the ordering of two solutions advanced with the same step length; the strong-stability-preserving second- and third-order integrators and the TVD limited reconstructions keep the range and total-variation bounds as well. "
  "This holds for all initial data within the range in which the equation is defined.",
  ["inputs", "configurations", "histories"],
  "all scalar initial data (shocks, rarefactions, sonic points, oscillations), all monotone fluxes, all grids, all numbers of steps",
  "Monotonicity is a for-all statement on data and steps; the tests run a few smooth or Riemann data sets and do not look at it.",
  ["alsfvm/include/alsfvm/numflux", "alsfvm/src/integrator", "alsfvm/include/alsfvm/reconstruction/MC.hpp", "alsfvm/include/alsfvm/reconstruction/minmod.hpp"],
  [("monotone fluxes", "alsfvm/include/alsfvm/numflux"), ("time step selection", "alsfvm/src/integrator/Integrator.cpp")],
  ["state after each step"])

p("C06", "Inadmissible states are never passed on silently",
  "Every state handed to an output (file, functional or statistic) after a step is admissible in its interior cells: all values are finite, and for the Euler equations density and pressure are positive. "
  "When a step produces anything else, in any cell, variable or dimension, the run stops with an error before that state is output, and the command line tools exit with non-zero status.",
  ["inputs", "configurations", "histories"],
  "all initial data and schemes including ones that blow up, all positions and kinds of the first inadmissible value (NaN, infinity, negative density or pressure)",
  "Which cell and which constraint fails first depends on the input; the tests check the predicate on two or three hand-written volumes.",
  ["alsfvm/src/simulator/Simulator.cpp", "alsfvm/src/equation/CPUCellComputer.cpp", "alsfvm/include/alsfvm/equation", "alsvinncli/src/main.cpp"],
  [("constraint check after each step", "alsfvm/src/simulator/Simulator.cpp"), ("admissibility predicate", "alsfvm/src/equation/CPUCellComputer.cpp")],
  ["states received by writers, exit status"])

p("C07", "Each named time integrator is the published Runge-Kutta method",
  "One step with the selected time integrator equals, up to rounding, one step of the Runge-Kutta method of that name (forward Euler, Heun/SSP of order two, SSP of order three, classical of order four) applied to the spatially discretised system, with ghost cells refreshed before each stage and a single step length for all stages. "
  "This holds for any right hand side, state and step length, and on a sequence of steps.",
  ["inputs", "configurations", "histories"],
  "all states, right hand sides, step lengths, cell sizes, sequences of steps",
  "The tests integrate one scalar ODE and check the convergence order; a wrong stage or a stale buffer on a multi-step, multi-variable, multi-dimensional history can pass.",
  ["alsfvm/src/integrator", "alsfvm/src/simulator/Simulator.cpp"],
  [("Runge-Kutta stages", "alsfvm/src/integrator"), ("stage buffers and boundary refresh", "alsfvm/src/simulator/Simulator.cpp")],
  ["state and clock after each step"])

p("C08", "Time steps respect the CFL condition and the clock is exact",
  "Each step length equals the CFL number divided by the sum over directions of the largest wave speed in that direction (as estimated by the flux from the states on both sides of each interface) over the cell length, or is shortened to hit a requested output time, and is never longer or non-positive. "
  "The reported time is the sum of the step lengths, the step counter counts them, the run stops at the first time not before the end time, and with evenly spaced snapshots it stops exactly at the end time.",
  ["inputs", "configurations", "histories"],
  "all states, equations, parameters, cell aspect ratios, CFL numbers, output schedules and end times",
  "Tests check one step length on one grid; the guarantee relates all steps of all runs to the states they started from.",
  ["alsfvm/src/integrator/Integrator.cpp", "alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/simulator/TimestepInformation.cpp", "alsfvm/src/io/FixedIntervalWriter.cpp"],
  [("step length", "alsfvm/src/integrator/Integrator.cpp"), ("wave speeds", "alsfvm/src/numflux/NumericalFluxCPU.cpp"), ("clock", "alsfvm/src/simulator/TimestepInformation.cpp")],
  ["times and step counts passed to writers"])

p("C09", "Ghost cells always hold what the boundary condition prescribes",
  "After boundary conditions are applied, and in every state of a run that is handed to outputs, every ghost cell, including those in edges and corners, equals the periodic image of the interior cell it represents (periodic) or the mirror image of the interior cell across the nearest boundary (Neumann), for each variable, dimension, ghost-layer width and grid size, and no interior cell is changed.",
  ["inputs", "configurations"],
  "all interior data, grid sizes, ghost widths, dimensions, boundary types",
  "The tests check faces of one or two grids for particular sizes.",
  ["alsfvm/src/boundary", "alsfvm/include/alsfvm/boundary"],
  [("ghost cell loops", "alsfvm/src/boundary/BoundaryCPU.cpp"), ("mirror / periodic rule", "alsfvm/include/alsfvm/boundary")],
  ["ghost cells of a volume after the boundary operator"])

p("C10", "Reconstructions are exact for their order, local, and non-oscillatory",
  "For every cell and direction the two reconstructed edge values depend only on the stencil of the scheme, reproduce constants and polynomials of degree below the order of the scheme from their cell averages, commute with adding constants, positive scaling and mirroring, and (slope-limited schemes) lie between neighbouring averages and give no slope at extrema; WENO values are convex combinations of the candidate stencils with the published weights and ENO values are one of the candidate stencils, chosen by divided differences. "
  "This holds for all data, all components and all three directions.",
  ["inputs", "configurations"],
  "all cell averages (smooth, discontinuous, constant, huge and tiny scales), all components, directions and grids",
  "Tests reconstruct a sine or a constant and look at the error; limiter branches and stencil selection depend on the data.",
  ["alsfvm/include/alsfvm/reconstruction", "alsfvm/src/reconstruction"],
  [("limiters", "alsfvm/include/alsfvm/reconstruction/MC.hpp"), ("ENO stencil choice", "alsfvm/src/reconstruction/ENOCPU.cpp"), ("WENO weights", "alsfvm/include/alsfvm/reconstruction/WENOCPU.hpp")],
  ["reconstructed left and right volumes"])

p("C11", "Snapshots are written exactly at the requested times",
  "A run with N evenly spaced saves writes exactly N snapshots, at times k*T/N for k=1..N up to rounding, plus one at time zero exactly if the initial state is asked for; with several outputs of different intervals each gets its own full schedule, and coarse-grained output delivers its configured groups of consecutive steps around each save (cut off at the start and end of the run). "
  "Nothing is written between those times, no snapshot is skipped or duplicated, and the state in each is the state of the run at that time.",
  ["configurations", "histories", "inputs"],
  "all end times, numbers of saves, combinations of outputs, wave speeds (steps much longer or shorter than the interval)",
  "Existing tests count files for a few N with one writer; rounding of k*T/N and the interplay of several writers depend on the numbers.",
  ["alsfvm/src/io/FixedIntervalWriter.cpp", "alsfvm/src/io/CoarseGrainingIntervalWriter.cpp", "alsfvm/src/simulator/Simulator.cpp", "alsuq/src/stats/FixedIntervalStatistics.cpp"],
  [("save schedule", "alsfvm/src/io/FixedIntervalWriter.cpp"), ("coarse schedule", "alsfvm/src/io/CoarseGrainingIntervalWriter.cpp"), ("interval statistics", "alsuq/src/stats/FixedIntervalStatistics.cpp")],
  ["files written and their times; calls received by an output"])

p("C12", "Output files contain exactly the state they were given",
  "Reading back a written snapshot gives, for every variable name of the equation and every cell, bit for bit the value of the state, at the array position of that cell, together with the time; ghost cells never appear. "
  "This holds for both file formats, for parallel and serial writing, for all grid shapes, and output plug-ins (shared library, script) receive the same data in the documented array order together with the configured parameters.",
  ["inputs", "configurations"],
  "all states, grid shapes (including non-square 2D/3D), equations, writers, number of processes",
  "Tests write one square or constant volume per writer; index order mistakes are invisible there.",
  ["alsfvm/src/io/NetCDFWriter.cpp", "alsfvm/src/io/NetCDFMPIWriter.cpp", "alsfvm/src/io/HDF5Writer.cpp", "alsfvm/src/io/HDF5MPIWriter.cpp", "alsfvm/src/io/DLLWriter.cpp", "alsfvm/src/io/PythonScript.cpp"],
  [("netcdf output", "alsfvm/src/io/NetCDFWriter.cpp"), ("parallel netcdf output", "alsfvm/src/io/NetCDFMPIWriter.cpp"), ("hdf5 output", "alsfvm/src/io/HDF5Writer.cpp")],
  ["files on disk, data received by plug-ins"])

p("C13", "Results do not depend on how space is split over processes",
  "Running the same configuration with the domain divided into any admissible number of blocks along each axis gives the same snapshots and cell-wise functional outputs (values and times) as a single process. "
  "Divisions that do not fit the grid (including blocks of a single layer of cells where the whole has more) are refused with an error.",
  ["configurations", "inputs", "schedules"],
  "all divisions px*py*pz of the grid, boundary types, dimensions, equations, schemes, functionals, writers",
  "The MPI tests run a few fixed divisions of one problem; which halo, corner, or reduction is exercised depends on division, dimension and boundary type.",
  ["alsfvm/src/mpi", "alsfvm/src/simulator/ConservedSystem.cpp", "alsfvm/src/config/SimulatorSetup.cpp", "alsfvm/src/io/NetCDFMPIWriter.cpp"],
  [("halo exchange", "alsfvm/src/mpi/CartesianCellExchanger.cpp"), ("global time step", "alsfvm/src/mpi/CartesianCellExchanger.cpp"), ("decomposition", "alsfvm/src/mpi/domain/CartesianDecomposition.cpp")],
  ["snapshot files"])

p("C14", "Runs are repeatable and do not influence each other",
  "Running the same configuration again gives identical snapshots, whatever the number of threads and whatever simulations were run before or are being stepped alternately in the same process. "
  "Stepping in several calls gives the same as stepping in one go, and observing the state does not change it.",
  ["histories", "schedules", "configurations"],
  "all interleavings of creating, stepping and writing several simulations of different shapes and equations in one process; all thread counts",
  "Tests run one simulator at a time in a fixed order; scratch buffers, caches and global state carry over depending on the history.",
  ["alsfvm/src/simulator", "alsfvm/src/numflux/NumericalFluxCPU.cpp", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp", "alsfvm/src/volume"],
  [("scratch volumes of the flux", "alsfvm/src/numflux/NumericalFluxCPU.cpp"), ("simulator buffers", "alsfvm/src/simulator/Simulator.cpp"), ("threads", "alsfvm/src/numflux/NumericalFluxCPU.cpp")],
  ["state after each step of each simulation"])

p("C15", "Initial data is the user's script evaluated at the cell midpoints",
  "At time zero each cell holds the conserved form of the values that the initial data script assigns to the variables at that cell's midpoint and its index in the whole grid, with the configured parameter values (scalars and arrays) available under their names. "
  "This holds for the point-wise and the whole-array form of the script, in 1, 2 and 3 dimensions, on any domain and grid, and the parameters of one run never leak into another.",
  ["inputs", "configurations", "programs"],
  "all scripts of the supported forms, parameter sets, domains, grids",
  "Tests evaluate one or two fixed scripts on one grid.",
  ["alsfvm/src/init", "alsfvm/src/config/SimulatorSetup.cpp", "alsfvm/src/grid/Grid.cpp", "alsfvm/src/equation/CPUCellComputer.cpp"],
  [("script evaluation", "alsfvm/src/init/PythonInitialData.cpp"), ("parameters", "alsfvm/src/init/Parameters.cpp"), ("midpoints", "alsfvm/src/grid/Grid.cpp")],
  ["snapshot at time zero"])

p("C16", "Equation definitions are mathematically self-consistent",
  "For every equation and state: converting primitive to conserved variables and back is the identity, the physical flux agrees with its published formula in each direction, the reported eigenvalues, eigenvectors and largest wave speed are those of the derivative of the flux, and (Burgers and Euler) the entropy variables are the gradient of the entropy, invert correctly and satisfy the entropy-potential relation. "
  "The admissibility predicate accepts exactly the finite states with (for Euler) positive density and pressure.",
  ["inputs", "configurations"],
  "all admissible states, all directions, all equation parameters (e.g. gamma), 1/2/3 dimensional variants",
  "Tests evaluate each formula at one or two states, often only in one dimension or direction.",
  ["alsfvm/include/alsfvm/equation", "alsfvm/src/equation"],
  [("equation formulas", "alsfvm/include/alsfvm/equation/euler/Euler.hpp"), ("scalar equations", "alsfvm/include/alsfvm/equation/burgers/Burgers.hpp")],
  ["values returned by the equation objects and the cell computer"])

p("C17", "Every configuration setting is honoured or refused",
  "The run produced from a configuration file uses exactly the settings in it (domain, grid, equation and parameters, flux, reconstruction, CFL number, integrator, boundary, end time, diffusion, outputs), with the documented automatic choices where a setting says automatic, regardless of the order of the settings, surrounding white space or letter case where accepted. "
  "A configuration naming an unknown or incompatible choice, or missing a required one, ends with an error and a non-zero exit status and never runs with something else.",
  ["configurations", "inputs"],
  "all combinations of settings in the documented format and single-point mutations of them",
  "The tests parse a handful of example files.",
  ["alsfvm/src/config/SimulatorSetup.cpp", "alsfvm/src/config/XMLParser.cpp", "alsfvm/src/numflux/NumericalFluxFactory.cpp", "alsfvm/src/reconstruction/ReconstructionFactory.cpp", "alsfvm/src/integrator/IntegratorFactory.cpp", "alsfvm/src/boundary/BoundaryFactory.cpp", "alsvinncli/src/main.cpp"],
  [("configuration reading", "alsfvm/src/config/SimulatorSetup.cpp"), ("choices by name", "alsfvm/src/numflux/NumericalFluxFactory.cpp")],
  ["snapshots compared with a run set up through the library; exit status and message"])

p("C18", "Functionals compute their mathematical definition of the state",
  "Each functional output (identity, moments, total variation, Legendre moments in 2D, point-wise Legendre, log entropy, structure functions) equals its documented sum or integral over the cells of the state, weighted with the cell size where documented, for every variable. "
  "This holds for every state, grid shape, dimension and admissible parameter of the functional.",
  ["inputs", "configurations"],
  "all states, grids with differing extents and cell sizes, parameters (degree, exponent, direction, number of offsets)",
  "Tests compute one or two functionals on constant or sine states.",
  ["alsfvm/src/functional", "alsfvm/include/alsfvm/functional"],
  [("functionals", "alsfvm/src/functional"), ("structure function offsets", "alsfvm/include/alsfvm/functional/structure_common.hpp")],
  ["functional output volumes and files"])

p("C19", "Ensemble statistics equal the statistics of the individual runs",
  "Each statistic written by an ensemble run (mean, variance, moments, total variation, structure functions, functionals; at each of its evenly spaced output times, or integrated over its time window) equals, up to rounding, the mathematical definition of that statistic applied to the states of the individual samples run on their own. "
  "Every requested sample contributes exactly once with equal weight, for any number of samples.",
  ["inputs", "configurations", "histories"],
  "all ensembles (number of samples, parameter distributions, equations, dimensions), all statistics and their parameters, all output times",
  "Tests check mean and variance of one artificial ensemble, and other statistics on single samples only.",
  ["alsuq/src/stats", "alsuq/src/run/Runner.cpp", "alsuq/src/config/Setup.cpp"],
  [("statistics", "alsuq/src/stats"), ("accumulation over samples", "alsuq/src/stats/StatisticsHelper.cpp"), ("ensemble loop", "alsuq/src/run/Runner.cpp")],
  ["statistics files and volumes"])

p("C20", "Ensemble results do not depend on how samples are distributed",
  "Dividing the samples of an ensemble over any admissible number of processes, alone or combined with dividing space, gives the same statistics as one process (for statistics that need more than cell-wise values, a division of space gives the values of each block or is refused): each sample index in the requested range is run exactly once, on exactly one group of processes. "
  "Divisions that do not fit are refused with an error.",
  ["configurations", "schedules"],
  "all numbers of samples, first sample indices, sample processes and spatial processes",
  "The MPI tests look at fixed small cases of the index ranges and at mean/variance only.",
  ["alsuq/src/mpi", "alsuq/src/run/Runner.cpp", "alsuq/src/config/Setup.cpp", "alsuq/src/stats/StatisticsHelper.cpp", "alsuqcli/src/main.cpp"],
  [("load balancing", "alsuq/src/mpi/SimpleLoadBalancer.cpp"), ("reduction over processes", "alsuq/src/stats/StatisticsHelper.cpp")],
  ["statistics files for different process layouts; index ranges per process"])

p("C21", "Random samples are reproducible, correctly mapped and correctly named",
  "Sample k of a random parameter is the same number in every run that asks for it (for a fixed configuration), is the configured interval's image of the uniform stream of the standard 64-bit Mersenne twister with its default seed, consumed sample by sample in the sorted order of the parameters (or the k-th of the equidistant midpoints for the configured number of samples), has the configured number of components, and reaches the initial data under its configured name. "
  "Running a range of samples starting at a later index gives exactly the corresponding part of the full ensemble.",
  ["inputs", "configurations", "histories"],
  "all parameter lists (names, lengths, intervals), sample ranges, start indices, distributions",
  "Tests draw from one distribution and check a few moments.",
  ["alsuq/src/samples", "alsuq/src/generator", "alsuq/src/distribution", "alsuq/include/alsuq/samples/SampleGenerator.hpp", "alsuq/src/config/Setup.cpp"],
  [("generator", "alsuq/src/generator/STLMersenne.cpp"), ("distributions", "alsuq/src/distribution"), ("per-sample parameters", "alsuq/include/alsuq/samples/SampleGenerator.hpp")],
  ["parameter values seen by the initial data of each sample"])

p("C22", "State containers obey array algebra",
  "Any sequence of container operations (create, set, copy, add, subtract, multiply, divide, scale, linear combination, power accumulation, clear, interior copies in and out, statistics, interpolation to another resolution) leaves every cell with the value the same operations give on plain arrays. "
  "Operations affect exactly their documented operand and cells, and operands with different numbers of cells or variables are refused.",
  ["histories", "inputs"],
  "all operation sequences on containers of all shapes, ghost widths and variable sets",
  "Tests call each operation once on small cubes; index errors show only for particular shapes and sequences.",
  ["alsfvm/src/memory", "alsfvm/include/alsfvm/memory", "alsfvm/src/volume", "alsfvm/include/alsfvm/volume"],
  [("memory operations", "alsfvm/src/memory/HostMemory.cpp"), ("volume operations", "alsfvm/src/volume/Volume.cpp"), ("interpolation", "alsfvm/include/alsfvm/volume/interpolate.hpp")],
  ["cell values after each operation"])

p("C23", "Domain blocks tile the grid and halos hold the neighbours' cells",
  "For every division of a grid over processes, the blocks are disjoint and cover all cells, each block has the exact sub-domain, cell size, position and boundary types of the part of the whole it represents. "
  "After a halo exchange every halo cell next to a face of a block equals the cell of the whole grid it stands for (through periodic boundaries where the whole is periodic), and global reductions of the time step yield the same maximum on every process.",
  ["configurations", "inputs", "schedules"],
  "all grids, divisions, ghost widths, dimensions, boundary types, cell contents",
  "The MPI tests do one exchange of fixed data for few layouts.",
  ["alsfvm/src/mpi", "alsfvm/include/alsfvm/mpi", "alsfvm/src/grid/Grid.cpp"],
  [("block decomposition", "alsfvm/src/mpi/domain/CartesianDecomposition.cpp"), ("halo exchange", "alsfvm/src/mpi/CartesianCellExchanger.cpp"), ("sub-array types", "alsfvm/src/mpi/MpiIndexType.cpp")],
  ["grids and volumes on each process"])

p("C24", "The Python interface runs what it is told and returns what was written",
  "A simulation or ensemble started through the Python interface uses exactly the settings passed to it (over the base configuration where one is given), and the arrays it returns are those of the snapshots the run wrote, in order, by variable name and statistic. "
  "Asking for a snapshot, variable or statistic (mean, variance, moments) that does not exist, or running an invalid configuration, raises an error.",
  ["configurations", "programs"],
  "all sequences of settings and getters, equations, dimensions, parameters, statistics",
  "The Python tests start a few fixed configurations.",
  ["python/alsvinn/alsvinn.py", "python/alsvinn/__init__.py"],
  [("configuration writer and result reader", "python/alsvinn/alsvinn.py")],
  ["returned arrays and generated configuration files"])

p("C25", "Time-averaged outputs are the time averages of the run",
  "Time-integrated output and time-integrated functionals equal the sum, over the steps ending in the configured time window, of the state (or functional of the state) times the part of the step inside the window, divided by the window length where documented. "
  "This holds for any window inside the run, any step sequence and any number of outputs, and a window that contains no step ends with an error instead of made-up output.",
  ["histories", "configurations"],
  "all step sequences, windows (position, width) and states",
  "Tests use one window with one constant or linear signal.",
  ["alsfvm/src/io/TimeIntegratedWriter.cpp", "alsfvm/src/functional/TimeIntegrationFunctional.cpp", "alsuq/src/stats/TimeIntegratedWriter.cpp", "alsuq/src/stats/TimeIntegratedFunctionalStatistics.cpp"],
  [("window accumulation", "alsfvm/src/io/TimeIntegratedWriter.cpp"), ("functional accumulation", "alsfvm/src/functional/TimeIntegrationFunctional.cpp")],
  ["state received by the wrapped output"])

p("C26", "Entropy-conservative and entropy-stable schemes respect the entropy",
  "On periodic domains the entropy-conservative fluxes produce no entropy (the total entropy rate of the semi-discrete scheme is zero up to rounding), adding the entropy diffusion makes the rate non-positive, and the diffusion vanishes on uniform states, in 1, 2 and 3 dimensions. "
  "First-order schemes with the monotone scalar fluxes never increase total quadratic entropy over a step under the monotone CFL condition, and first-order schemes with the two-wave (any dimension) and three-wave (one dimension) Riemann-solver flux keep density and pressure of the Euler equations positive for CFL numbers up to one half.",
  ["inputs", "configurations"],
  "all admissible states, equation parameters, dimensions, diffusion choices and reconstructions",
  "Entropy statements are inequalities over all data; tests compute the diffusion of one or two states.",
  ["alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp", "alsfvm/include/alsfvm/numflux/TecnoCombined4.hpp", "alsfvm/include/alsfvm/numflux/TecnoCombined6.hpp", "alsfvm/include/alsfvm/numflux/ScalarEntropyConservativeFlux.hpp", "alsfvm/src/diffusion", "alsfvm/include/alsfvm/diffusion"],
  [("entropy-conservative flux", "alsfvm/include/alsfvm/numflux/euler/Tecno1.hpp"), ("entropy diffusion", "alsfvm/src/diffusion/TecnoDiffusionCPU.cpp")],
  ["semi-discrete rate of change of a volume"])

p("C27", "Computed solutions converge to the exact entropy solution",
  "As the grid is refined, the computed solution of any Riemann problem or smooth periodic problem approaches the exact entropy solution: its L1 distance stays below a bound that shrinks with the cell size, and higher-order schemes are at least as accurate as first order on smooth data. "
  "This holds for each equation with each of its convergent schemes (upwind-type fluxes with stable reconstructions and integrators, entropy-conservative fluxes with entropy diffusion; Riemann data of moderate strength for the reconstructions that do not limit), along each axis.",
  ["inputs", "configurations"],
  "all Riemann data and smooth data with known exact solutions, all schemes, all equation parameters",
  "No test runs a problem and compares with an exact solution over a range of data.",
  ["alsfvm/src", "alsfvm/include/alsfvm"],
  [("whole solver", "alsfvm/src/simulator/Simulator.cpp")],
  ["final state"])

p("C28", "No admissible input makes the program touch memory it does not own",
  "Running any configuration of grid, dimension, equation, scheme, output and statistic, including very small and thin grids, either completes or is refused with an error, without out-of-bounds or use-after-free memory access, undefined arithmetic conversion or crash.",
  ["configurations", "inputs", "histories"],
  "all configurations and sequences of library operations on them",
  "The tests run a few sizes without instrumentation; an out-of-bounds read of a ghost cell usually returns plausible numbers.",
  ["alsfvm/src", "alsuq/src", "alsutils/src"],
  [("volume indexing", "alsfvm/include/alsfvm/memory"), ("flux, reconstruction and boundary loops", "alsfvm/src/numflux/NumericalFluxCPU.cpp")],
  ["sanitizer reports, signals"])

p("C29", "Every result records exactly what produced it",
  "The run report left by alsvinncli and alsuqcli (JSON and XML) and the attributes of every NetCDF output contain the exact texts that the run used (configuration, initial data and every text loaded from a file, even if a file is changed while the run goes on), every setting of the configuration, and the place, time, numbers of processes and threads of the run. "
  "The report also gives the command line, the name and the number of time steps performed, for an ensemble summed over all samples of all processes. A run that fails leaves no report.",
  ["configurations", "inputs", "process layouts"],
  "all configurations, texts with any characters, places of the files (for the XML report: paths that are valid in XML names), numbers of processes and threads",
  "The tests look up two attributes of one fixed run.",
  ["alsutils/src", "alsfvm/src/io", "alsvinncli/src", "alsuqcli/src"],
  [("report", "alsutils/src/make_basic_report.cpp"), ("report file", "alsutils/src/write_run_report.cpp"),
   ("attributes", "alsfvm/src/io/netcdf_write_attributes.cpp"), ("parallel attributes", "alsfvm/src/io/parallel_netcdf_write_attributes.cpp"),
   ("texts", "alsutils/src/io/TextFileCache.cpp"), ("steps of an ensemble", "alsuq/src/run/Runner.cpp")],
  ["report files", "attributes of the output"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
