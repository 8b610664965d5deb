#!/usr/bin/env python3
"""Writes MANIFEST.json: a check per property whose checks/<id>.py exists and is listed here."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = 'TLA+/TLC: '
T = {
 'C01': ('distributed stencil application specified in TLA+ (Stencil.tla; halo design model MC_Halo with mutants); histories of the real Filter under a stand-in MPI and under real MPI, some generated by TLC simulation, validated as traces',
         'Input fields, stencils, grids, process counts and operation histories enumerated small, sampled larger.'),
 'C02': ('one-sided communication specified in TLA+ (Rma.tla, MC_Halo: weak completion, epochs, all interleavings); the real Filter and programs run under a stand-in MPI with controlled schedules and completion times, every MPI event validated as a trace',
         'Interleavings exhausted in the model; sampled schedules and completion policies, and scripts from TLC behaviours, on the real code.'),
 'C16': ('window and buffer life cycle specified in TLA+ (MC_Life with mutants, Trace_Rma); MPI windows and buffers of the real Filter recorded by a stand-in MPI and validated as traces',
         'Stencils, histories, several filters alive at once and infeasible decompositions; sampled.'),
 'C09': ('threads of the time step specified in TLA+ with happens-before clocks (HB.tla, MC_OmpUpwind with mutants); the real solvers and programs run under a recording OpenMP runtime with controlled preemption, their memory accesses validated against the happens-before specification (Trace_Race.tla) and their results against Upwind.tla',
         'Interleavings of small teams exhausted in the model; sampled schedules, preemptions, team sizes to 7 and 16 with libgomp, on the real code. Host execution of device regions.'),
 'C10': ('conservation and bounds proved on the finite instances of Upwind.tla; runs of every program validated as traces of Outcome.tla, which requires every printed check sum to be one and the values of the final file to lie in [0, 1]',
         'Numbers of cells, steps, threads and processes sampled; print accuracy.'),
 'C15': ('program runs specified in TLA+ (Outcome.tla over CmdLine.tla and Decomp.tla; MC_Outcome with termination and mutants); runs of every program, and of the MPI programs under a stand-in MPI with controlled schedules, validated as traces',
         'Argument lists enumerated by hand and sampled; process counts to 12.'),
 'C18': ('files of every program for the same request validated against the exact field of the scheme, computed in whole numbers of any size (Trace_Same.tla); every cell compared to all the digits its file has',
         'Numbers of cells (whole fields to 12, thorough 24; sparse corners to 128, so more than 65536 cells), steps (to 95; 300 on small grids), processes and threads sampled.'),
 'C19': ('ten exact applications of the periodic Laplacian specified in TLA+ over whole numbers of any size (Trace_Laplacian.tla; MC_Laplacian with mutant); files and check sums of the real program, on many process counts, validated as traces',
         'Numbers of cells, dimensions (fields to 3, sums to 4) and processes (to 12) sampled; accuracy: rounding amplified by the largest eigenvalue, or six digits.'),
 'C21': ('dynamic memory specified in TLA+ (Heap.tla, MC_Heap with mutants); the real code, its accesses instrumented and its allocations served by a recording allocator, is driven through histories and every block it was given is validated against Heap.tla (Trace_Heap), the results, with fresh memory filled with a pattern, against their own specifications',
         'Dynamic memory of the C++ and Fortran code only: arrays on the stack and accesses that land in another live block are not seen. Histories sampled; one thread.'),
 'C20': ('processes with clocks of their own and a reported time specified in TLA+ (Times.tla, MC_Times with mutants); the real programs run under a stand-in MPI whose clocks are set, rank by rank, and their reports validated against the time their recorded transfers took (Trace_Times.tla)',
         'Process counts to 8, loads, clock offsets and schedules sampled; six printed digits. A transfer is what takes time.'),
 'C03': ('design model of decompositions exhausted by TLC; every build of the real CubeDecomp (all small grids and process counts, random larger ones, rebuild histories) validated as a trace of Decomp.tla',
         'Exhaustive for the grids and process counts in the bound, sampled beyond (grids of more than 2^32 cells, up to 512 processes). Trusts the trace recorder (harness/decomp.cpp) and TLC.'),
 'C04': ('optimality against the set of all decompositions enumerated by TLC from Decomp.tla, for every recorded build of the real CubeDecomp',
         'Exact integer comparison of surfaces (volumes are equal). Exhaustive in the bound, sampled beyond.'),
 'C05': ('torus neighbour relation of Decomp.tla checked by TLC on the full neighbour tables recorded from the real CubeDecomp',
         'All ranks and all 3^d directions of every build; exhaustive for small grids, sampled beyond.'),
 'C06': ('periodic upwind scheme as a TLA+ state machine (wrong-scheme mutants refuted by TLC); histories of the real C++ solver classes validated step by step as traces of Upwind.tla, in exact scaled integers',
         'The class of each program is compiled from its own source file; grids, velocities, lengths, time steps and histories are enumerated small and sampled larger; accelerator variants in three dimensions.'),
 'C07': ('as C06, for the Fortran solver modules driven through a generated shim; traces validated against Upwind.tla',
         'Each Fortran source is compiled with its own flags; enumerated small and sampled larger.'),
 'C08': ('as C06, for the serial Python solver and for the MPI Python solver under real mpirun, whose gathered field is validated against Upwind.tla',
         'MPI runs sample the process counts 1 to 8.'),
 'C11': ('reader of the legacy VTK format written in TLA+ (Vtk.tla); every file written by the library, solver classes and programs validated as a trace against the field the writer held',
         'Token streams of complete files are judged by the specification; shapes enumerated small, sampled larger.'),
 'C12': ('command-line parser as a TLA+ state machine (mutants refuted by TLC); histories of declarations, parses and reads of the real CmdLineArgParser validated as traces of CmdLine.tla',
         'Argument lists enumerated from a small alphabet plus random ones.'),
 'C13': ('matrix product specified in TLA+ (concurrent columns exhausted by TLC); results of the real routines and of the program validated as traces of MatMult.tla',
         'Whole products are compared, in exact integers.'),
 'C17': ('sum and variance operators of Upwind.tla evaluated by TLC on every recorded history of each solver class, and on global fields of the distributed filter',
         'Check sums exact up to the rounding of the returned value, at every point of a history.'),
 'C14': ('design model of the iterator exhausted by TLC; operation histories of the real MultiArrayIter validated as traces of MultiIter.tla',
         'All small boxes in both orders plus random histories, rebuilds, and boxes of more than 2^32 elements.'),
}
import importlib.util
extra = os.path.join(V, 'tools', 'claims.json')
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in T and os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                       'technique': CONF + T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'its check is still being built'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all observation is through public interfaces, link-time stand-ins and compiler instrumentation of harness builds.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
