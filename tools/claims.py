c("C08", MC, T_MC, VM)
c("C09", MC, T_MC, VM)
c("C10", MC, T_MC, VM)
c("C11", MC, T_MC, VM)
c("C12", MC, T_MC, VM)
c("C13", MC, T_MC, VM)
c("C14", MC, T_MC, VM)
c("C15", MC, T_MC, VM)
c("C16", MC, T_MC, VM)
c("C17", MC, T_MC, VM)
c("C22", MC, T_MC, VM)
c("C06", EX, T_EX, CODEC)
c("C18", FE, T_FE, CODEC)
c("C19", EX, T_EX, CODEC)
c("C23", FE, T_FE, CODEC)
c("C24", EX, T_EX, CODEC)
c("C20", MC, T_MC, VM)
c("C01", FE, T_FE, "Every input up to a length, every single fault (every value of every byte, every length field, every truncation) and every pair of faults at selected places of a set of base chunks; outside of these bounds nothing is claimed. Memory is measured with a counting allocator, termination with a watchdog.")
c("C21", MC, "stateless exploration of the real converter: all operation sequences up to a depth, each against a fresh process, and all schedules of two conversions with up to two preemptions under a controlled scheduler", "The scheduler can preempt at memory allocations only; sequences and actions are bounded as described in DESIGN.md.")
c("C25", EX, "bounded exhaustive enumeration of feature sets, inputs, formats and settings; every build of the real converter compared with the default build", "The default build is judged by the other checks. Standard output is discarded; serialization is tried with one binary and one textual encoding.")
c("C26", EX, "bounded exhaustive enumeration of inputs, formats and settings on the real converter built for other machines (32 bit WebAssembly) or interpreted for them (Miri: big-endian, 32 and 64 bit)", "The results of this machine are judged by the other checks. WebAssembly runs all requests; the interpreted machines run about 2 500 small ones. Only one 32 bit little-endian and two big-endian targets.")
