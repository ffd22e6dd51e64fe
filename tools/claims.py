ST = "stateless exhaustive exploration of the real code against a reference model"
IN = "exhaustive enumeration of a bounded input space on the real code against an independent oracle"
NOT = {}
CLAIMS = {
 "C01": (ST + " plus breadth-first state search", "model_checking",
   "Every operation sequence to the depth bound (and, beyond, every operation from every reference state found breadth-first) runs on the real cache; nothing is claimed for longer histories or larger key sets."),
 "C02": (IN, "exploration", "Complete within the stated sizes; values outside the grids are not covered."),
 "I03": (IN + ", after every short mutation history", "model_checking", "Complete within the limit/value grids and history depth."),
 "Q01": (ST, "model_checking", "Complete for the answer alphabet, parameter sets and depths listed in the check; answers beyond the depth bound converge. Finite merits only."),
 "Q02": (ST, "model_checking", "As Q01; wall-clock time is a controlled clock that advances one second per QP."),
 "Q03": (ST, "model_checking", "As Q01; also covers structure changes and refused in-place updates at each convexification."),
 "Q04": (IN, "exploration", "Complete over ordered tuples of the term catalogue, expansion points, weights; the least objective over slacks is exact at the evaluation grid only."),
 "Q05": (IN, "exploration", "Complete over ordered tuples of the term catalogue and pairs of expansion and evaluation points."),
 "Q06": (ST, "model_checking", "Complete for all operation sequences to the depth bound over the configured term lists; the reference is a freshly built problem."),
 "Q07": (IN + ", and every short operation sequence", "exploration", "Complete over the limit, value and box grids and sequences to the depth bound."),
 "Q08": (IN, "exploration", "Complete over the coefficient grids; evaluation at a point grid that determines a quadratic in up to three variables along the grid line."),
 "Q09": (IN, "exploration", "Complete over ordered tuples of the fixed-size terms; one known finding (absolute costs)."),
 "I01": (ST, "model_checking", "Complete over ordered arrangements of a catalogue of variable/constraint/cost sets and call sequences to the depth bound."),
 "I02": (IN, "exploration", "Complete over the function catalogue, point grid, step sizes and variable arrangements; non-linear functions are only judged through tangency."),
 "I04": (IN, "exploration", "Complete over the layouts, selections, weightings and trajectories listed; the rows are linear so the unit vectors determine them on one object history."),
 "I05": (ST, "model_checking", "Complete over the arrangements and assignment sequences to the depth bound."),
 "I06": (IN, "exploration", "Complete over the row catalogue, bound kinds, weightings and grid; points where the absolute cost has a kink are judged by value only."),
 "I07": (ST, "model_checking", "Complete over the scripted scenes, constraint kinds and trajectory sequences to the depth bound; the contact checker, robot and scene are stand-ins behind tesseract's interfaces."),
 "C03": (ST + "; all insertion orders and operation sequences", "model_checking", "Complete over the contact catalogue, every order of insertion and operation sequences to the depth bound; filtering is compared with a set-based oracle."),
 "S01": (IN, "exploration", "Complete over compositions of the atoms up to the stated number of operations; twelve points determine a quadratic in the three variables."),
 "S02": (IN, "exploration", "Complete over the expression, list and matrix grids stated in the check."),
 "S03": (ST, "model_checking", "Complete for all operation sequences to the depth bound; the solver routine itself is a stand-in, the model, both message directions and the solver program's main loop are real."),
 "S05": ("exhaustive enumeration of transfer outcomes (short, interrupted, closed, failing) at every read and write of the real code", "fault_enumeration", "Complete up to the number of simultaneous deviations; at most 9000 values per message."),
 "S10": (IN, "exploration", "Complete over the 16 sets of compiled-in solvers, solvers, a list of names and environment settings; back ends are stand-ins."),
 "S07": (IN, "exploration", "Complete over the function catalogue, derivative modes, penalty kinds, weights and expansion points; the exact minimum over the auxiliary variables is computed from the problem on the wire."),
 "S08": (ST, "model_checking", "Complete for all build/add/update/destroy sequences to the depth bound; the minimised objective is computed exactly from the problem on the wire."),
 "S09": (IN + ", and every order of bound updates", "exploration", "Complete over the bound, point, margin and linear-constraint grids; the QP behind a projection is solved by an exact stand-in solver."),
 "S11": (ST, "model_checking", "Complete for the answer alphabet, parameter sets and depths listed in the check; answers beyond the depth bound predict no improvement."),
 "Q10": (ST, "model_checking", "Complete for the operation sequences to the depth bound and every small problem's starting point; the OsqpEigen library is a stand-in with its documented rules, the interface above it is real."),
 "Q11": (IN, "exploration", "Complete over ordered tuples of catalogue terms up to the size bound, starts, limits and parameters; the QP library is replaced by an accurate dense interior point solver, the optimum comes from an independent formulation; what lies within the solver's improvement threshold is not judged."),
 "S13": (ST, "model_checking", "Complete for all edit/solve sequences to the depth bound and all endings; the qpOASES library is a stand-in with qpOASES' hot start and work limit rules, the back end above it is real."),
 "S14": (ST, "model_checking", "Complete for all edit/solve sequences to the depth bound and all endings; the Gurobi library is a stand-in with Gurobi's lazy update rules, the back end above it is real; linking against the real library is not possible here."),
 "S12": ("exhaustive enumeration of the points of a solver process's failure in the exchange with the real code", "fault_enumeration", "Every byte offset of the exchange of a small model in two solves, coarser offsets for large messages and pairs of failures; real processes, so scheduling between caller and process is the kernel's."),
 "S06": (IN, "exploration", "Complete over the grids of small convex problems; the solver library is a binary, its answers are judged against exact optima of the same problem."),
 "T03": (IN, "exploration", "Complete over the value catalogue and lists to the length bound; numeric conversions that jsoncpp allows (real to integer, boolean to number) are not judged."),
 "T04": (IN, "exploration", "Complete over the stated weights, names and settings entries; the conversions of tesseract's own types are stand-ins."),
 "T01": (IN, "exploration", "Complete over the trajectory shapes, step ranges, settings and trajectories listed; the exact minimum over the auxiliary variables is computed from the problem on the wire."),
 "T02": (IN, "exploration", "Complete over the shapes and name lists to the stated sizes; supersets have distinct names."),
 "S04": (ST, "model_checking", "Complete for all build/add/update/solve sequences to the depth bound; the OSQP library is a stand-in with OSQP's documented set-up, update and status rules, the model above it is real."),
 "V01": ("exhaustive exploration of the interleavings of the real code under a controlled scheduler (preemption-bounded), with data-race and use-after-release detection", "model_checking", "Complete for the call sequences to the depth bound and schedules to the preemption bound; the decomposition engine is a stand-in with the engine's cancel and callback rules; sequentially consistent memory."),
 "V02": (IN, "exploration", "Complete over the point sequences and subsets of the stated integer grids; at scales that are not powers of two the incremental hull is judged for points in general position."),
 "V03": ("exhaustive enumeration of the cancellation points of the real engine, and of a bounded input space, against an independent oracle", "fault_enumeration", "Complete over the block shapes, parameter sets and call backs listed; covering is judged up to the voxel size."),
 "V04": (IN, "exploration", "Complete over the block shapes, resolutions, positions and planes listed; closed axis-aligned surfaces only."),
 "K01": (ST + " and enumeration of a bounded input space against a closed-form oracle", "model_checking", "Complete over the robots, frames, offsets, bands, component lists and histories listed; tesseract's kinematics and pose-error helpers are stand-ins, the terms above them are real."),
 "K02": (ST + " and enumeration of a bounded input space against a closed-form oracle", "model_checking", "Complete over the lines, points, frames, component lists and histories listed; one recorded finding (the line's frame); tesseract's kinematics is a stand-in."),
 "K03": (IN, "exploration", "Complete over the trajectories, configurations and subsets listed; acceleration and jerk with inverse times are only required to be self-consistent."),
 "P01": (IN, "exploration", "Complete over the groups, steps, fixed steps and joints, terms and option keys listed; robot and environment are stand-ins, everything above them is real."),
 "P02": (IN, "exploration", "Complete over the ranges of steps, parameter lengths, limits and trajectories listed; negative first steps and velocity terms on one step are excluded (asserted by the code)."),
 "P03": (IN, "exploration", "Complete over the links, steps, components, kinds and weights listed; models are not compared near half turns or at the edge of a tolerance band."),
 "P04": (ST + " and enumeration of a bounded input space against a closed-form oracle", "model_checking", "Complete over the scenes, settings, ranges, fixed steps and histories listed; the contact checker is a scripted stand-in; two adjacent fixed steps in one continuous check are excluded."),
 "P05": (ST + " and enumeration of a bounded space of problems against an exact reference optimum", "model_checking", "Complete over the problems, sequences of problems and failure points listed; the QPs are solved by an interior point method certified by its residual; robot, environment and contact checker are stand-ins."),
 "P06": (ST + " and enumeration of a bounded space of problems", "model_checking", "Complete over the problems and sequences of iterates listed; robot, environment and display are stand-ins. The log's numbers are compared to the six digits written."),
}
