c('C01')
c('C02')
c('C03')
c('C04')
c('C06')
c('C07')
c('C09')
c('C10', note=FP)
c('C11', note="model structures bounded in depth and number of fields per kind as listed in DESIGN.md (the structure is chosen by symbolic integers, every branch on them decided by the solver); trusted: the gosym interpreter with its model of package reflect; every alarm is replayed on the compiled code before it is reported")
c('C22')
c('C12')
c('C14')
c('C15')
c('C16')
c('C17')
c('C18', note=FP)
c('C19')
c('C20')
c('C21')
c('C23', note=FP)
c('C24')
c('C25')
CONC = "symbolic execution of the go/ssa form of the real code into event structures; all interleavings of an event structure decided by z3 (data race, new outcome, deadlock queries); assertions decided per thread path by algebraic normal form and z3"
CN = ("sequential consistency below the first data race (absence of races is itself decided); graphs, numbers of goroutines and CPUs bounded as listed in DESIGN.md; values read are identified by their evaluation at two fixed points; "
      "library synchronisation (sync, atomic, context, channels) is modelled; " + REAL)
c('C08', CONC, CN)
c('C13', CONC, CN)
SIMD = "symbolic execution of the assembled machine code of the kernels (instruction listing of go tool asm) and of the go/ssa form of their wrappers; addresses, lengths and flags concrete per path, vector lanes symbolic; element equalities by normal form over IEEE terms (fp harnesses) or reals, accuracy of exp/log decided by z3"
c('C05', SIMD, "instruction semantics are a hand-written model of the amd64 subset used, cross-checked by replaying sampled paths on the compiled code; reductions and strided kernels over the reals (any summation order); lengths, strides and offsets bounded as listed in DESIGN.md; exp and log within 4e-7 inside the normal range; NaN payloads not distinguished; " + REAL)
