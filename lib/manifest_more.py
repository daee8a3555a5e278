T['C16'] = ("Fraction.tla: laws checked by TLC on a grid; recordings of the real code (grid and random histories) validated by TLC", NOTE)
T['C19'] = ("SliceSpec.tla (sequences) refined by SliceImpl.tla (windows on shared vectors); histories enumerated and simulated by TLC from SliceGen.tla, replayed, recordings validated by TLC", NOTE.replace('Trusts java.math.BigInteger as evaluator of the integer operators (cross-checked by ZCheck) and the recorder.', 'Trusts the recorder.'))
EXPR = ("Expr.tla (lexer, grammar, evaluator, error code): texts enumerated by TLC from the grammar and random ones evaluated by the real code, every evaluation validated by TLC", NOTE)
T['C11'] = EXPR; T['C13'] = EXPR
T['C15'] = ("Status.tla (registry, objects, per-thread statuses): histories enumerated by TLC and random ones on the real code (C++ and C API, several threads, child processes), recordings validated by TLC", NOTE.replace('Trusts java.math.BigInteger as evaluator of the integer operators (cross-checked by ZCheck) and the recorder.', 'Trusts the recorder.'))
CONC = "Histories of the real code compiled unchanged but run under a controlled scheduler (harness/ctl.cpp): all schedules with few preemptions of small programs, random and priority schedules of larger ones, at memory-access granularity; sequentially consistent interleavings only. Trusts the scheduler's stand-ins for mutexes, condition variables, futures and threads."
T['C14'] = ("Pool.tla (submissions, runs, closing) refined by PoolImpl.tla (queue, mutex, condition variable, destructor; liveness) checked by TLC; histories of the real pool under a controlled scheduler validated by TLC against Pool.tla", CONC)
T['C20'] = ("Queue.tla (linearizable FIFO with blocking and waiting-for-empty) refined by QueueImpl.tla (liveness) checked by TLC; histories of the real queue under a controlled scheduler validated by TLC against Queue.tla", CONC)
T['C12'] = ("PevalImpl.tla (level-wise submission, workers, promises on every small tree) checked by TLC; evaluations of the real code in parallel, with threads and under a controlled scheduler, validated by TLC against Expr.tla and against the sequential evaluation of the same text", CONC)
T['C18'] = ("Cow.tla (copy on write: shared count, clone, release, by several threads) checked by TLC; threads of the real code working on copies of the same numbers under a controlled scheduler, what each observes validated by TLC against BigNum.tla", CONC)
T['C21'] = ("Format.tla (the text a format and its arguments stand for): short format texts enumerated by TLC, random ones with all argument types; what the real code returned is validated by TLC", NOTE)
T['C22'] = ("Stream.tla (streams, their copies and sources): histories enumerated and simulated by TLC, replayed on the real code, recordings validated by TLC", NOTE.replace('Trusts java.math.BigInteger as evaluator of the integer operators (cross-checked by ZCheck) and the recorder.', 'Trusts the recorder.'))
