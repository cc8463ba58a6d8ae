#!/usr/bin/env python3
# Writes MANIFEST.json. Not needed by any check.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
note={
"P01":"Seeded search over generated inputs, worker counts, schedules and hints; the index file is decoded by the harness and compared entity by entity with a reference model.",
"P02":"As P01, for the way index, all alignments, and ids around the limits of their fields.",
"P03":"As P01, for the relation index built against the simulated wayindex's output, with missing members and any number of passes.",
"P04":"The output PBF is decoded by an independent codec and compared with a reference rewriting of the input, over memory limits, schedules and generated encodings.",
"P05":"The output PBF is decoded by an independent codec and compared with a reference filter.",
"P06":"The output's blocks are compared byte for byte with the payloads of the generated input.",
"P07":"Outputs of different pass counts and the contents of every part of an index are compared; directory checked after each run.",
"P08":"Output bytes compared across worker counts, scheduling policies and stalls; deadlock and bounded-step livelock detection by the scheduler.",
"P09":"Cancellation injected at seeded steps and operations (context, Ctrl-C key, repeated), then termination within a step bound, output prefix, inputs and directory checked.",
"P10":"Kill, cancellation and I/O errors injected at seeded steps and operations of the index build, then every consumer is run on the file left behind.",
"P11":"Every kind of file operation made to fail once or for good, disk full at a seeded size, descriptor limits, short reads; exit status against correctness of output.",
"P12":"Histories of up to three interrupted runs plus stale files, then an undisturbed run compared with a first run.",
"P13":"Seeded truncation and corruption of inputs; outcome must be loud or identical.",
"P14":"Printed text parsed and compared with a reference count, search and dump.",
"P15":"Lookups through the packages' exported functions under concurrent simulated goroutines and through the programs; answers compared with a map, statistics added up.",
"P16":"Pool users under all interleavings searched with aliasing detection; programs run with returned buffers poisoned.",
"P17":"Programs run with a simulated terminal, seeded keys, resizes and ticks; output, terminal state and the displayed worker list (also on the terminal, behind a slow disk) checked.",
"P18":"The engine driven through its exported functions with recording work and write functions; recorded history checked for exactly-once, order, completion and prefix.",
"P19":"Open descriptors, live mappings, use after unmap (page protection) and the highest number of open files tracked by the simulated kernel.",
"P20":"Whole chains of programs on one simulated disk, with kills and repeated steps; final indexes compared with a reference model of the chain.",
"P22":"Generated files with one foreign element in a seeded block, run through every program under seeded schedules; outcome must be loud, or the output must be right with the element accounted for.",
"P23":"Complete indexes cut off at seeded offsets, every program that reads an index run on them; outcome must be loud or identical.",
"P24":"Every program run with one odd or extreme option value in an otherwise ordinary case, under seeded schedules; refusal, or the model's output, with inputs, terminal and termination checked.",
"P25":"Files with swapped, repeated, negative or shuffled ids indexed under seeded schedules; refusal, or an index in order in which every id is found.",
"P26":"A program run while a second one, recorded alone on a copy of the disk, is played back on the same disk operation by operation at seeded points, with kills and failures; every file and everything the second one reads compared with the run alone.",
"P27":"A recorded build of an index, ended at a seeded operation or step or complete; the disk is rebuilt with a seeded choice of the unsynced pages and metadata operations, every reader is run on it and the program run again.",
"P28":"A recorded build of an index is played back between the steps of a program that reads the index, from a seeded moment on; its result is compared with the result on the complete index.",
"P30":"The code under test is compiled with the compiler's race instrumentation, which reports every memory access to the simulator's own happens-before detector (vector clocks over the simulated synchronisation operations); seeded schedules, cancellations, failures and keys.",
"P31":"The same program, in one process, over an eighth of the blocks of a file and over all of them, under seeded fair schedules and with slow writes; the reachable memory, measured by forced collections at up to 64 moments of each run, may not follow the amount of data.",
"P32":"Generated files with one defect inside a block that is otherwise consistent, run through every program under seeded schedules; the outcome must be loud, or what it is without the defect, or still recognisably malformed.",
"P33":"Every redraw of the simulated terminal is recorded (text, highlighting, what caused it, which wait for the disk it fell in) and the history compared with what the input, the recorded file operations and the order of waits allow.",
"P29":"The files between the passes are kept as they were when removed; what each pass looked up is found by comparing them, placed in the index, and its extent compared with the limit. The parts shown by the dumping tools likewise.",
}
t="deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences of the real programs, run inside a simulator, against a reference model"
checks=[{"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":t,"level":"exploration",
"level_note":n+" Explored, not exhaustive; trusts the harness's codecs and the simulator's model of the Go runtime and the operating system (see DESIGN.md)."} for p,n in note.items()]
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"none in /repo: seams are put in by rewriting the sources at build time (go build -overlay)","enable":"./build.sh WORKDIR rewrites /repo's working tree into WORKDIR and builds the harness from it","source_commits":[]},
"checks":checks,
"not_applicable":[{"property":"P21","reason":"Pure functions of their arguments: no schedule, time, I/O, fault or second party for simulation to vary. The codecs run as real code in every simulated program of P01-P06 and P14, whose results are compared with an independent codec, but the statement for every value is not something a simulator decides."}]}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
