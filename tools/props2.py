prop('C08','A save that returns has written a complete and correct file',
 'When a call that writes a file returns normally (raw binary fields as 64-bit or 8-bit numbers, comma separated fields, grids, orientation vectors, templates of the command line), the named file holds exactly what was to be saved: every field and node once, in the documented order, encoding, coordinates and scaling, and nothing else. If that cannot be achieved, because the file cannot be created, written or closed, the call fails loudly.',
 ['inputs','fault_sequences','crash_points','schedules'],
 'Every field content, 2D or 3D domain, epoch number and file name; a failing, short or torn operation, a full disk or a kill at any file operation, while other calculations save in the same directory.',
 'The tests write small files in fault-free runs and mostly check that a file exists; no file operation ever fails.',
 ['pf/fileIO.go','pf/model.go','pf/sdd.go','pfutil/grid.go','elasticity/strainEnergyCLI.go','cmd/elastTemplate.go'],
 [('errors of create, write, flush and close end the call','pf/fileIO.go mustSave, SaveFloat64, SaveCsv; pfutil/grid.go'),('columns and coordinates of the nodes','pf/fileIO.go SaveCsv, pfutil/indexPositionConversion.go')],
 ['content of the file when the call returns, parsed by an independent reader'])
prop('C09','Loading returns exactly what the file holds or fails loudly',
 'Loading a raw binary file, a comma separated file or the input file of an energy calculation returns exactly the numbers, field names and node order of the file, bit by bit where the file is binary, and the energy printed is that of the complete input. A truncated, damaged, unreadable or missing file makes the call fail loudly; it never returns zeros, a part of the data, or data of another file.',
 ['inputs','fault_sequences','histories'],
 'Files written by the savers in any order and files with every kind of damage (cut at any byte, missing or extra columns, numbers that are no numbers), read errors and short reads at any operation.',
 'The tests load files they have just written, undamaged and without errors.',
 ['pf/fileIO.go','elasticity/strainEnergyCLI.go','cmd/elastEnergy.go'],
 [('length and error checks of the readers','pf/fileIO.go LoadFloat64, LoadCSV'),('the command checks its input','elasticity/strainEnergyCLI.go')],
 ['returned arrays and names, printed energy, exit of the command'])
prop('C10','Later work never damages files that were saved before',
 'Files that a calculation saved stay what they were: later epochs, other calculations with another prefix, failing saves of other files and crashes leave them unchanged, every epoch, field and prefix has a file of its own, and no other file appears. The XDMF file that describes a calculation lists exactly the saved epochs in increasing order and refers to existing files of the right field, epoch, precision and size.',
 ['histories','schedules','crash_points','fault_sequences'],
 'Every sequence of saving operations of several calculations in one directory over several program runs, with kills and I/O errors at every file operation.',
 'The tests save once into a fresh directory.',
 ['pf/fileIO.go','pf/xdmf.go'],
 [('file names from prefix, field and epoch','pf/fileIO.go Float64IO, Uint8IO, CsvIO'),('the XDMF text is generated from the epochs','pf/xdmf.go')],
 ['all files of the directory at the end of the history'])
prop('C11','Callbacks and monitors see every epoch exactly once with the right state',
 'Solve(n, m) makes m time steps per epoch and then calls every callback once, in the order they were added, with consecutive epoch numbers that begin at the start epoch, and updates every monitor once; both see the state after exactly that many steps, the state an undisturbed calculation has, and the monitors return these values in order, in memory and as JSON. A panic of a callback, monitor or term ends the calculation, nothing is called or computed after it, and Propagate calls no callbacks.',
 ['programs','schedules','fault_sequences','histories'],
 'Models with 1-3 fields and any mix of terms, all time steppers, any sequence of Solve and Propagate calls with any number of callbacks and monitors added in between, concurrent calculations, panics of user code, kills and stalls at every step.',
 'The tests run one Solve call with one callback that does not check the state or the epoch, and never fail a callback.',
 ['pf/solver.go','pf/monitor.go'],
 [('epoch loop','pf/solver.go Solve, Propagate'),('real part of one node per epoch','pf/monitor.go PointMonitor')],
 ['order, arguments and visible fields of all callbacks; monitor data; output of JSONifyMonitors'])
prop('C12','Time seen by terms, sources and callbacks follows the completed steps',
 'After k steps of size dt the time of the stepper is k*dt, for every stepper, whatever calls the steps were made with. Every term and source of step k is evaluated at a time between (k-1)*dt and k*dt, and after every step each term is told exactly once that the step has finished, with the time k*dt and the fields of that time.',
 ['programs','schedules','histories'],
 'All steppers (Euler, RK4, implicit Euler, SDD), any sequence of Solve and Propagate calls, calculations that continue at a later step, several user-defined terms of every kind (implicit, explicit, mixed) and sources, concurrent calculations.',
 'No test looks at the time that a term or a source is given, or at the number of notifications.',
 ['pf/solver.go','pf/euler.go','pf/rk4.go','pf/implicitEuler.go','pf/sdd.go','pf/sourceTerm.go'],
 [('step counter of the steppers','GetTime and Step in pf/euler.go, pf/rk4.go, pf/implicitEuler.go, pf/sdd.go'),('notification after every step','pf/solver.go Propagate')],
 ['arguments of all evaluations and notifications; GetTime in every callback'])
prop('C13','A calculation can be split and restarted without changing its result',
 'Splitting a calculation into several Solve and Propagate calls gives bit by bit the same fields as making all steps at once. A calculation that is stopped at any moment and restarted from its last complete checkpoint, with the epoch and step numbers continued, produces the same checkpoints and final fields as an uninterrupted one up to rounding, and overwrites nothing it does not redo.',
 ['histories','crash_points','fault_sequences','programs'],
 'All ways to divide the steps among calls; chains of runs that are killed, fail to write or are stalled at any FFT, callback or file operation and then continue from the files found on disk.',
 'No test restarts anything; every calculation in the tests runs once from start to end.',
 ['pf/solver.go','pf/fileIO.go','pf/euler.go','pf/rk4.go','pf/implicitEuler.go'],
 [('steppers keep no hidden state but the step number','Step in pf/euler.go, pf/rk4.go, pf/implicitEuler.go'),('checkpoints','pf/fileIO.go Float64IO, LoadFloat64'),('epoch offset','pf/solver.go StartEpoch')],
 ['fields in every callback and at the end; checkpoint files'])
prop('C14','Calculations in one program do not influence each other',
 'Two or more calculations with separate models and solvers in one program, running concurrently in any interleaving or one after the other, give bit by bit the results each of them gives alone, with the same random numbers: no fields, terms, transforms, filters, counters or monitors are shared behind their backs. An error or crash of one of them does not change the others.',
 ['schedules','programs','fault_sequences'],
 'Two to four calculations with equal or different domains, names and terms, switched at every FFT, term, monitor, callback and file operation; one of them may be killed, stalled or panic at any point.',
 'The tests run one calculation at a time.',
 ['pf/solver.go','pf/model.go','pf/rhsBuilder.go','pfutil/fftWrap.go','pf/noise.go'],
 [('all state belongs to Model, Solver and stepper','pf/model.go, pf/solver.go'),('every FFT object has its own plan and buffer','pfutil/fftWrap.go')],
 ['fields seen by callbacks and at the end, compared with a run alone'])
prop('C15','Results do not depend on any unspecified order',
 'The same program with the same inputs and the same random numbers computes bit by bit the same fields, whatever order the runtime happens to iterate over maps of terms, fields and functions in. This holds for any number of registered terms, functions and derived fields in any equation.',
 ['schedules','programs','configurations'],
 'Models with many implicit, explicit and mixed terms, functions, noise and modifiers; two different iteration orders of all maps for every simulated execution, on top of those drawn by the scheduler.',
 'The order of map iteration is random in every test run and never controlled; the tests register one or two terms.',
 ['pf/model.go','pf/rhsBuilder.go','pf/solver.go'],
 [('terms are kept in the order of the equation','pf/rhsBuilder.go Build'),('derived fields are kept in a slice with one brick each','pf/model.go registerDerivedFields')],
 ['fields after every step under different map orders'])
prop('C16','Conserved fields stay conserved and real fields stay real',
 'If all terms of an equation are conserving (Laplacians of anything, tensorial Hessians, spectral viscosity, conservative noise), the total of the field over all nodes does not change in any number of steps beyond rounding, in 2D and 3D. Fields that are real stay real, and conservative noise acts on every mode but the mean and those at the Nyquist limit.',
 ['programs','inputs','schedules'],
 'Domains with even, odd and unequal sizes in 2D and 3D, one to three coupled fields, any random numbers, Euler, RK4 and implicit Euler, any number of steps.',
 'The tests check one small square or cubic domain and one noise sample.',
 ['pf/noise.go','pf/diffOp.go','pf/tensorialHessian.go','pf/spectralViscosity.go','pfutil/fftWrap.go'],
 [('the zero frequency is not touched','pf/diffOp.go, pf/noise.go'),('frequency of a node','pfutil/fftWrap.go Freq'),('Nyquist modes','pf/noise.go, pf/tensorialHessian.go')],
 ['sum, imaginary part and spectrum of the fields'])
prop('C17','The log of a saddle point search has one header and one row per epoch',
 'The log file of the shrinking-dimer stepper begins with exactly one header, whatever runs append to it, and then has one row for every epoch that was logged, in order, with the values the monitor had at the end of that epoch. A row that cannot be written makes the run fail loudly, and rows written earlier stay as they are.',
 ['histories','fault_sequences','crash_points'],
 'Logs that several program runs append to, logging as a solver callback or by direct calls, with failing, short and torn writes, full disks, close errors and kills.',
 'The tests log a few rows to a fresh file and do not read them back.',
 ['pf/sdd.go'],
 [('header if the file is empty; flushed row by row','pf/sdd.go SDDMonitor.Log')],
 ['content of the log file'])
prop('C19','Fields evolve by the documented scheme of the equations as written',
 'One step of the Euler or RK4 stepper is the documented update y -> (y + dt*K)/(1 - dt*A) with K from N(t, y) at the documented stages, for all fields at once, where A and N are exactly the terms of the equations as they are written: every term with its sign, coefficients, powers, products and Laplacians, independent of the names of fields and coefficients and the order of factors, with the current values of the coefficients, plus the sources, user-defined terms and functions, the right-hand-side modifiers and the filter, each applied once. A step of implicit Euler solves its implicit equation for the same terms unless the user is told that it did not converge. An equation that cannot be represented is refused loudly.',
 ['programs','inputs','schedules'],
 'Systems of one to three coupled equations with random terms (linear, products, powers, Laplacians up to fourth power), names and coefficients that may change between calls, time dependent sources and terms, modal filters, 2D and 3D domains of unequal size, several steps.',
 'The tests check a handful of fixed equations, mostly with one field, one term and a square domain, and compare with coarse tolerances.',
 ['pf/euler.go','pf/rk4.go','pf/implicitEuler.go','pf/vandeven.go','pf/rhsBuilder.go','pf/model.go','pf/util.go','pf/diffOp.go','pf/sourceTerm.go','pfutil/fftWrap.go'],
 [('equation parser','pf/rhsBuilder.go Build, ConcreteTerm, isBilinear; pf/util.go SplitOnMany, GetNonLinearFieldExpressions'),('schemes','Step in pf/euler.go and pf/rk4.go'),('evaluation of right hand side and denominator','pf/model.go GetRHS, GetDenum')],
 ['fields after every step compared with an independent implementation'])
prop('C20','Terms provided by the library contribute what they document',
 'Every term gopf provides contributes, at every evaluation of every step, exactly the expression it documents for the current fields and time: advection, divergence of a weighted gradient, weighted Laplacian, tensorial Hessian, spectral viscosity, charge transport, pair correlation, ideal mixture, penalty of negative values, squared gradient, volume conservation and homogeneous linear elasticity, alone or several of a kind in one model, with any sign or Laplacian in front, any parameters, and whatever the other fields and terms are named. A real field stays real under all of them.',
 ['programs','inputs','schedules'],
 'Models of one to three fields with several of these terms in every combination with plain terms, sources and user-defined terms, random parameters (anisotropic tensors, rotations, cut-offs, exponents), 2D and 3D domains of even, odd and unequal size, Euler and RK4, several steps, concurrent calculations.',
 'The tests evaluate each term once, mostly for one simple field or at one frequency on a square domain, and never two terms of a kind in one model.',
 ['pf/advection.go','pf/gradientCalculator.go','pf/tensorialHessian.go','pf/spectralViscosity.go','pf/chargeTransport.go','pf/pairCorrelationTerm.go','pf/negative_value_penalty.go','pf/squareGradientTerm.go','pf/volumeConserving.go','pf/homoLinElast.go','elasticity/rank4.go','elasticity/effectiveForce.go'],
 [('terms in Fourier space','Construct in the files above'),('derived fields of the terms','PrepareModel and DerivedField in the files above; pf/model.go registerDerivedFields')],
 ['fields after every step compared with an independent implementation'])
