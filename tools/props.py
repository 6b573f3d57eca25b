"""The properties: text for properties.jsonl, MANIFEST.json and DESIGN.md (see gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, technique=None, note=None, observe=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                na=na, technique=technique, note=note, observe=observe or []))


prop("P01", "A machine gets a verdict only when a decider really proved it",
     "A record says 'halting' or 'non-halting' only on control paths where a decider finished successfully: the simulator stopped in a halting or undefined cell, or proved an infinite repeat, or a filter reported success. Every inconclusive outcome (limits, time-out, gave up, error) leaves the record undecided, the verdict written is the one that was reached (steps, score, halting state and symbol, kind of proof), and a record is never marked decided before its verdict is filled in. No other part of the program writes a verdict.",
     ["inputs", "histories", "configurations"], "for every machine, every option set, every filter and every outcome of it",
     "The tests run a few dozen machines whose verdicts are known; a path that marks an undecided machine as decided only shows on machines nobody knows the answer for.",
     ["Code/Macro_Simulator.py", "Code/Halting_Lib.py", "Code/CTL_Filter.py", "Code/CPS.py", "Code/Reverse_Engineer_Filter.py", "Code/Backtracking_Filter.py", "Code/Lin_Recur_Detect.py"],
     [("verdict setters", "Code/Halting_Lib.py"), ("simulation outcome", "Code/Macro_Simulator.py:simulate_machine")],
     observe=["the status part of each output record"])

prop("P02", "Time-outs interrupt only the simulation they were set for",
     "A time limit is armed before a simulation starts and is always disarmed when it ends, whether it ends normally, by the time-out or by an error. A simulation that runs into its time limit is reported as unknown with the elapsed time, never as decided by the time-out itself, and a time-out never reaches code outside the timed simulation.",
     ["schedules", "histories", "fault_sequences"], "for every moment at which the alarm can fire and every way the simulation can end",
     "Tests cannot enumerate the moments at which the signal may arrive.",
     ["Code/Macro_Simulator.py", "Code/Alarm.py"],
     [("timed run", "Code/Macro_Simulator.py:run_timer"), ("alarm", "Code/Alarm.py")])

prop("P03", "Direct simulation executes the transition table step by step",
     "Simulating a machine directly executes exactly the transition table: each step reads the symbol under the head, writes, moves one cell and changes state as the table says; the step count equals the number of transitions executed, and a halted simulation stays halted. Cells that were never written read as blank at every position on both sides, copies of a tape are independent of the original, and the halting step, state and symbol reported are those of the transition that halted.",
     ["inputs", "histories"], "for every machine, tape position and number of steps",
     "The tests simulate a handful of machines; growth of the tape in either direction and the halting report are only exercised on those.",
     ["Code/Direct_Simulator.py", "Code/Common.py"],
     [("direct tape", "Code/Direct_Simulator.py:DirectTape"), ("direct simulator", "Code/Direct_Simulator.py:DirectSimulator")])

prop("P04", "The run-length tape always represents the same cells",
     "The compressed tape stands for exactly the cells of the real tape: a single move writes one symbol and advances one cell, a chain move replaces and passes a whole block, neighbouring equal blocks are merged with their counts added, and the infinite blank ends are never used up. A copy of a tape shares nothing that can change with the original, and tests that compare tapes compare symbols and counts of all blocks.",
     ["inputs", "histories"], "for every sequence of tape operations and every block length, including symbolic ones",
     "Tests use only the tapes that a few machines produce; a wrong merge or count shows on particular block layouts.",
     ["Code/Macro/Tape.py"], [("chain tape", "Code/Macro/Tape.py:Chain_Tape")])

prop("P05", "Macro machines do exactly what the underlying machine does",
     "A transition of a block or back-symbol machine is exactly the result of running the underlying machine on those cells until it leaves them: symbols written, exit side, state and number of elementary steps, including the halting and repeating cases and the state visits. A macro transition that could not be determined is reported as gave up, never as a normal transition, and nothing about a macro machine depends on which transitions were asked for before.",
     ["inputs", "configurations", "histories"], "for every machine, block size, offset and order of queries",
     "Tests use few block sizes and machines; loops inside a macro cell and the step accounting of nested macro machines are rarely hit.",
     ["Code/Macro/Turing_Machine.py"], [("bounded inner run", "Code/Macro/Turing_Machine.py:sim_limited"), ("macro machines", "Code/Macro/Turing_Machine.py:Macro_Machine")])

prop("P06", "Accelerated simulation accounts every elementary step",
     "One step of the accelerated simulator changes state, direction and tape as the (macro) transition or the applied rule says and adds exactly the number of elementary steps that stands for: a chain move counts the steps of its transition times the block length. Halting, undefined, infinite and gave-up outcomes stop the simulation and are reported as what they were, with the state visits kept, and seeking runs until the requested point or the first non-running outcome.",
     ["inputs", "histories", "configurations"], "for every machine, macro size, recursion option and number of steps",
     "Tests compare final step counts of selected champions; the accounting on other paths (undefined cells, last visits, rules that do not apply) stays unsampled.",
     ["Code/Macro/Simulator.py"], [("accelerated step", "Code/Macro/Simulator.py:Simulator.step")])

prop("P07", "An acceleration rule is made only from a sufficiently general proof",
     "A rule that the prover stores was obtained by simulating a general configuration whose counts are symbolic, without any step that depends on a particular count, until the same configuration shape recurred. The rule keeps every effect of that simulation: the change of every count, the smallest value each count took (so the minimum to apply it is high enough), the number of elementary steps and the states visited. Whenever any of this cannot be established (a non-symbolic blocking condition, a shape that does not recur, a limit hit), no rule is made.",
     ["inputs", "histories", "configurations"], "for every machine, past configuration and prover option",
     "A rule that is too general gives wrong results only on configurations that violate the forgotten condition; champions used in tests do not.",
     ["Code/Macro/Proof_System.py"], [("rule derivation", "Code/Macro/Proof_System.py:Proof_System.prove_rule")])

prop("P08", "Applying an acceleration rule is the same as simulating it",
     "A rule is applied only when the tape has exactly its shape and every count is at least the rule's minimum, and only as many times as every decreasing count allows while it still satisfies that minimum. The counts and the number of elementary steps afterwards are those of that many repetitions, infinite repetition is reported only if nothing ever decreases, and the tape is untouched if the rule does not apply.",
     ["inputs", "histories", "configurations"], "for every rule, tape and count (including symbolic and astronomically large ones)",
     "Tests run a few champions; the off-by-one cases of the repetition count and the minimum need specific remainders.",
     ["Code/Macro/Proof_System.py", "Code/Macro/Rule_Func.py"], [("rule application", "Code/Macro/Proof_System.py:Proof_System.apply_rule"), ("repeated functions", "Code/Macro/Rule_Func.py")])

prop("P09", "Symbolic algebra and closed forms are exact",
     "Arithmetic on symbolic expressions (sum, difference, product, exact quotient, substitution, comparison with constants) gives the expression whose value is the corresponding integer result for every assignment of its variables; nothing is rounded. Equal expressions compare equal whatever order they were built in, closed forms of repeated sums equal the sum term by term, and an operation whose result cannot be represented is refused rather than approximated.",
     ["inputs"], "for every expression, every variable assignment and every number of repetitions",
     "Tests check a few hand-picked expressions; wrong coefficients or dropped terms need particular degrees or signs.",
     ["Code/Algebraic_Expression.py", "Code/Macro/Proof_System.py", "Code/Math.py"],
     [("expressions", "Code/Algebraic_Expression.py"), ("series", "Code/Macro/Proof_System.py:series_sum")])

prop("P10", "Tower-number arithmetic keeps the exact value",
     "Sums, differences, products, quotients, powers and remainders of tower-exponent numbers (sums of integer multiples of powers, over a common denominator) denote exactly the mathematical result, whatever form the operands have; plain integers may be mixed in on either side. Where no exact representation exists the operation is refused, and simplification never changes the value.",
     ["inputs"], "for every pair of operands, every base, nesting depth and modulus",
     "Tests compare small random numbers with ordinary integers; operand shapes that only appear in long simulations are not sampled.",
     ["Code/Exp_Int.py"], [("tower numbers", "Code/Exp_Int.py")])

prop("P11", "A translated cycle is reported only if the configuration really recurs",
     "The recurrence detector reports success only if at two moments of the simulation the state is the same and every cell the head visited or will reuse in between has the same symbol relative to the head shift. The reported start, period and shift are those of the two moments, the reduced start found by the search is one at which recurrence holds, halting machines are reported as halting with the right step count, and the step limit is respected.",
     ["inputs", "histories"], "for every machine and step limit",
     "Tests check a few dozen machines with known periods; a comparison range that is one cell short needs a machine that differs exactly there.",
     ["Code/Lin_Recur_Detect.py"], [("detector", "Code/Lin_Recur_Detect.py:lin_detect_not_min"), ("search", "Code/Lin_Recur_Detect.py:period_search")])

prop("P12", "Closed tape languages contain every reachable configuration",
     "The closed-tape-language deciders claim 'never halts' only if the set they end with contains the configuration the simulation had reached, is closed under every transition of the machine from every configuration it describes (including reading the blank beyond the written tape), and contains no halting, undefined or undetermined transition. Anything else is inconclusive.",
     ["inputs", "configurations"], "for every machine, block size, offset, cut-off and variant of the language",
     "No test runs these deciders; a forgotten symbol makes a halting machine look infinite only if that symbol matters.",
     ["Code/CTL1.py", "Code/CTL2.py", "Code/CTL3.py", "Code/CTL4.py"],
     [("language closure", "Code/CTL1.py:CTL"), ("initial language", "Code/CTL1.py:test_CTL")])

prop("P13", "Closed position sets cover every window the machine can see",
     "The closed-position-set decider claims 'never halts' only if its set contains the initial configuration and, for every local configuration in it, every possible continuation of the tape on either side that the recorded edges allow. A halting or undefined cell, a repeat that cannot be resolved or any exceeded limit makes the answer inconclusive.",
     ["inputs", "configurations"], "for every machine, block size, window size and limits",
     "No test runs this decider; a missing continuation gives a wrong proof only for machines that use it.",
     ["Code/CPS.py"], [("graph set", "Code/CPS.py"), ("verdict", "Code/CPS.py:filter")])

prop("P14", "Reverse engineering claims only unreachable halts",
     "The reverse-engineering decider claims 'never halts' only if each halting or undefined cell is unreachable: nothing enters its state (and it is not the start cell), nothing writes its symbol (and it is not the blank), or the symbol is always left behind on the side the head does not come from. All transitions of the machine are taken into account.",
     ["inputs"], "for every machine",
     "No test runs this decider.", ["Code/Reverse_Engineer_Filter.py"],
     [("decider", "Code/Reverse_Engineer_Filter.py:is_infinite")])

prop("P15", "Backtracking from the halt explores every predecessor",
     "The backtracking decider claims 'never halts' only if, for each halting or undefined cell, every chain of possible predecessor configurations dies out within the step limit: a predecessor is dropped only if the cell it would have written holds another symbol or if a symbol lies on a side where the machine never leaves it. Reaching the start configuration, the width limit or the step limit is never a success.",
     ["inputs", "configurations"], "for every machine, step limit and width limit",
     "Tests run a few machines; a wrongly dropped predecessor shows only for a machine whose only way to halt uses it.",
     ["Code/Backtracking_Filter.py"], [("backward search", "Code/Backtracking_Filter.py:backtrack_single_halt")])

prop("P16", "Enumeration fills a cell with every transition tree normal form allows",
     "The children of a partial machine are exactly the machines that fill the given cell with each state up to one beyond the largest used, each symbol up to one beyond the largest used and each direction (only right for the very first transition), each once, and nothing else of the machine changes. The last open cell stays open for the halting transition unless machines without halt are wanted.",
     ["inputs", "histories"], "for every partial machine, cell and option",
     "Tests count machines for tiny sizes only; a lost child at larger sizes or with other options stays unnoticed.",
     ["Code/TM_Enum.py", "Code/Macro/Turing_Machine.py"], [("children", "Code/TM_Enum.py:TM_Enum.enum_children")])

prop("P17", "The enumeration driver processes and writes every machine exactly once",
     "Every machine taken from the work list is simulated once and written to the output exactly once, whatever its outcome; a machine that halts has all its children queued and is written with an explicit halting transition. Counts match the outcomes written, the requested number of machines bounds what is simulated, and everything still queued at that point is written unprocessed so that the run can be continued.",
     ["inputs", "histories", "configurations"], "for every option set, input file and mix of outcomes",
     "Tests run complete enumerations of tiny sizes; partial runs, errors and continuation are not compared machine by machine.",
     ["Code/Enumerate.py"], [("driver", "Code/Enumerate.py:Enumerator.continue_enum"), ("results", "Code/Enumerate.py:Enumerator.add_result")])

prop("P18", "Work queues neither lose nor duplicate jobs",
     "Every job pushed into a work queue is handed out exactly once, in stack or queue order for the single-process queues. In the distributed queue every job that leaves one process arrives at another, whichever order messages arrive in, and a worker is told that there is no more work only when no process holds or is producing any.",
     ["schedules", "histories", "configurations"], "for every number of workers and every order of messages",
     "Tests run one schedule on one machine; losing a job needs a particular interleaving of requests and reports.",
     ["Code/Work_Queue.py", "Code/MPI_Work_Queue.py"], [("local queues", "Code/Work_Queue.py"), ("distributed queue", "Code/MPI_Work_Queue.py")])

prop("P19", "The C++ tools simulate, classify and enumerate like the definition",
     "The C++ simulator runs a machine step by step by its transition table on a blank two-way infinite tape, stops at the halting state or the step limit, and counts every step. The recurrence detector reports a machine as recurrent only when state and all cells from the visited range on recur relative to the head (with the period, offset and start step it saw), as halting only when it halts, and as unknown otherwise. Expanding a machine that reached an undecided cell yields each allowed transition for that cell once (states and symbols up to one beyond the largest used, the last undecided cell only if machines without halt are allowed), each machine is classified once, counted once and written to the file of its class, and the lazy-beaver value is the smallest step count no machine realises. Reading a machine back from its text form gives the same machine.",
     ["inputs", "configurations"], "for every machine, step limit, machine size and set of options",
     "There are no automatic tests for the C++ tools.",
     ["cpp/src/turing_machine.cpp", "cpp/src/lin_recur.cpp", "cpp/src/enumerator.cpp", "cpp/src/simulator.cpp", "cpp/src/lin_recur_enumerator.cpp", "cpp/src/lazy_beaver_enumerator.cpp"],
     [("recurrence", "cpp/src/lin_recur.cpp:LinRecurDetect"), ("expansion", "cpp/src/enumerator.cpp:BaseEnumerator::expand_tm"), ("tape", "cpp/src/simulator.cpp:Tape")])

prop("P20", "Records keep the machine they were given",
     "Storing a machine in a record and reading it back gives the same transition table, including undefined cells, explicit halting transitions, the table's size and the option to enumerate machines without halt. The compact encoding is used only for machines that fit it, storing never changes the machine object, and a record's cached machine and its stored form never disagree.",
     ["inputs", "histories"], "for every machine that can be represented and every order of reads, updates and writes",
     "Tests round-trip a few machines; large machines, halting transitions and update orders are not covered.",
     ["Code/IO/TM_Record.py"], [("record", "Code/IO/TM_Record.py:TM_Record"), ("packed form", "Code/IO/TM_Record.py:pack_tm")])

prop("P21", "Text forms of a machine denote the same machine",
     "Writing a machine in the standard text form and parsing it again gives the same table (size, undefined and halting cells included); readers accept every machine the corresponding writer produced and never invent or drop transitions. Seed-database and simulator formats convert each cell to the same transition, records are selected by the index asked for, and writing never changes the machine.",
     ["inputs"], "for every machine and every supported text format",
     "Tests parse a few strings; most formats have no test at all.",
     ["Code/IO/StdText.py", "Code/IO/Common.py", "Code/IO/BBC.py", "Code/IO/Morphett.py", "Code/Macro/Turing_Machine.py"],
     [("standard text", "Code/IO/StdText.py"), ("database", "Code/IO/BBC.py"), ("Morphett", "Code/IO/Morphett.py")])

prop("P22", "Record files give back every record in order",
     "A file of binary records written by the library is read back as the same records in the same order, each exactly once, compressed or not. A truncated file is an error at the first incomplete record rather than a silently wrong record, and reading stops exactly at the end of the file.",
     ["inputs", "histories", "crash_points"], "for every sequence of records and every truncation point",
     "Tests write and read small complete files only.",
     ["Code/IO/Proto.py"], [("framing", "Code/IO/Proto.py")])

prop("P23", "Stored results keep exact values, however large",
     "A step count or score is stored exactly: as an integer if it fits the integer field, else in the structured form from which the same value is read back. Reading a stored value gives the value that was stored, including tower-exponent numbers nested to any depth and with any denominator, and a missing value is distinguished from zero.",
     ["inputs"], "for every integer and every tower-exponent number",
     "Tests check some values around the limits; nested forms with unusual denominators are not sampled.",
     ["Code/Halting_Lib.py"], [("big values", "Code/Halting_Lib.py:set_big_int")])

prop("P24", "Normal forms only rename states and symbols",
     "Converting a machine to tree normal form or lexical normal form, or permuting it, gives a machine that behaves the same on a blank tape up to a one-to-one renaming of states and symbols (start state and blank fixed) and, for lexical form, mirroring. Every defined transition that can be reached is kept, the renaming is applied to every cell consistently, and the order of first use is increasing.",
     ["inputs"], "for every machine",
     "Tests convert a few machines; a renaming that collides or misses a cell needs particular tables.",
     ["Code/TNF.py", "Code/LNF.py", "Code/Permute.py"], [("tree normal form", "Code/TNF.py"), ("lexical normal form", "Code/LNF.py"), ("permutation", "Code/Permute.py")])

prop("P25", "Batch tools pass every record through",
     "A batch filter writes each record it reads exactly once and in order, adds its own findings only and never lets the outcome of one record affect another. Converters and splitters write each input machine exactly once to the destination its own status selects. Re-simulation repeats a record's simulation with the parameters stored in it and replaces its old result, and a search reports the record of the machine asked for.",
     ["inputs", "histories"], "for every input file and every mix of outcomes",
     "Tests do not run the batch tools.",
     ["Code/CTL_Filter.py", "Code/CPS_Filter.py", "Code/Backtracking_Filter.py", "Code/Reverse_Engineer_Filter.py", "Code/Macro_Simulator.py", "Code/IO_Convert.py", "Code/IO_Categorize.py", "Code/Re_Sim.py", "Code/IO_Find.py"],
     [("filter drivers", "Code/CTL_Filter.py:main"), ("splitting", "Code/IO_Categorize.py")])

prop("P26", "Statistics and counts account for every record",
     "Statistics over record files count every record exactly once, in exactly one of halting, infinite and undecided and under its own reason, and the totals, maxima and means shown are those of the records read. The record counter reports the number of records of each file and their sum. The number of machines a tree-normal-form machine stands for is the number of ways to rename its states and symbols times the number of ways to fill its undefined cells with at most the allowed number of halts; the zero-reflexive split puts every record in exactly one output.",
     ["inputs", "histories"], "for every record file and every machine",
     "The statistics tools have no tests, and a miscounted category only shows on files with such records.",
     ["Code/TM_Analyze.py", "Code/IO_Count.py", "Code/Count.py", "Code/Zero_Reflexive.py"],
     [("statistics", "Code/TM_Analyze.py:TMStats.add_record"), ("machine count", "Code/Count.py:count"), ("record count", "Code/IO_Count.py:main")],
     observe=["the numbers printed"])

prop("P27", "Neighbours of a machine are exactly its one-cell variants",
     "The neighbours listed for a machine are exactly the machines that differ from it in one running cell, with every state, symbol and direction tried and the original transition left out; the other cells and the original machine are not changed.",
     ["inputs"], "for every machine and every cell",
     "Nothing tests the list of neighbours.",
     ["Code/Adjacent.py"],
     [("one-cell variants", "Code/Adjacent.py:enum_cell")])

prop("P28", "Choosing a block size is a separate, reported choice",
     "The block-size search runs only trial simulations of its own: it never changes the machine, the options or the simulation it is made for, and trial runs never use the prover. It samples the least compressed tape among the first loops, unfolds it completely and measures for each candidate how many cells repeated blocks save; the size reported is the one that compresses best within the maximum block size, times the multiplier with which most steps are chain moves (or the one fixed by the options). A positive size is reported on every path, including when a trial stops running.",
     ["inputs", "configurations"], "for every machine, tape and setting of the search parameters",
     "The tests use fixed block sizes almost everywhere; a wrong choice or an option changed behind the simulator's back shows only as lost speed or as a different run of some machine.",
     ["Code/Macro/Block_Finder.py"],
     [("search", "Code/Macro/Block_Finder.py:block_finder"), ("compression", "Code/Macro/Block_Finder.py:compression_efficiency")],
     observe=["the block size stored in the record and used by the simulator"])

prop("P29", "Interactive tools show the outcome that was computed",
     "The single-machine tools (direct, macro and visual simulators, recurrence, closed-language and closed-position-set deciders, normal forms, machine printing, format conversion) run the requested computation with the parameters given and print what it returned: success only if the decider succeeded, halting, undefined, infinite and gave-up each as such, and the steps, scores and states of that run. Text forms of tapes, states, transition tables and numbers show every block, cell and term that is there, and parsing a configuration gives exactly the cells written in it.",
     ["inputs", "configurations"], "for every machine, option combination and outcome of the computation",
     "No test runs the command-line tools; what they print is only read by people.",
     ["Code/Quick_Sim.py", "Code/Direct_Simulator.py", "Code/Visual_Simulator.py", "Code/Lin_Recur_Detect.py", "Code/CPS.py", "Code/CTL1.py", "Code/TM_Print.py", "Code/TNF.py", "Code/LNF.py", "Code/Permute.py", "Code/Macro/Simulator.py", "Code/Macro/Tape.py", "Code/Halting_Lib.py", "Code/Exp_Int.py"],
     [("macro simulator tool", "Code/Quick_Sim.py:run"), ("number display", "Code/Halting_Lib.py:big_int_approx_str")],
     observe=["standard output of the tools"])

prop("P90", "Comparisons of tower numbers are always decided correctly",
     "Comparing two tower-exponent numbers tells which one is larger, for all operands.",
     ["inputs"], "for every pair of tower numbers",
     "The operands that are hard to compare are beyond any testable size.",
     ["Code/Exp_Int.py"], [("comparison", "Code/Exp_Int.py")],
     na="correctness of the comparison depends on numeric bounds of logarithm approximations at run-time magnitudes; no sound static argument in reach bounds them")

prop("P91", "Every decider and simulation ends within its limits",
     "With any limit set, each decider returns after a number of operations bounded by that limit.",
     ["inputs", "configurations"], "for every machine and limit",
     "Tests only see runs that end.",
     ["Code/Macro/Simulator.py", "Code/CPS.py"], [("limits", "Code/Macro_Simulator.py")],
     na="a bound on running time quantifies over run-time sizes (tape growth, symbolic arithmetic cost); termination of the nested loops is not decidable by the flow analyses used here")

prop("P92", "The Rust validator accepts only valid proofs",
     "The Rust rule validator accepts an inductive proof only if each step is justified.",
     ["inputs"], "for every proof file",
     "Its tests validate sample files only.",
     ["rust/src"], [("validator", "rust/src")],
     na="its crates cannot be fetched or built here, and there is no Rust front end in this framework to compute summaries from; matching syntax only would not decide the property")
