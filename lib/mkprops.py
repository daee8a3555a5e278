#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the properties' text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

BI = "src/BigInteger.cpp"; IM = "src/BigIntegerImpl.cpp"; SL = "src/Slice.h"
MAG = ("m_mag / sign flag", "magnitude as little-endian 32-bit words without leading zero words, plus a sign flag", "src/BigIntegerImpl.h")

prop("C01", "Exact integer arithmetic",
 "Addition, subtraction, multiplication, increment, decrement, negation and absolute value of big integers return exactly the mathematical integer, for operands of any size and sign. This holds in every overload (big/big, big/int64, int64/big, compound assignment, pre/post increment and decrement), and when operands are the same object or copies of one another. No operand other than the assigned object changes.",
 ["inputs"], "all pairs of integers (any magnitude, both signs, every int64 immediate), all aliasing patterns of operands and destination",
 "The tests compare a few hand-picked or short sampled values; carries across words, sums that cross zero, the long-multiplication regime and aliasing depend on particular word patterns that samples do not reach.",
 [BI, IM, SL], [("add/sub by sign comparison and magnitude compare", IM), ("gradeSchoolMul / mulKaratsuba", IM), ("inc/dec with carry", IM)], [MAG], ["operators of BigInteger", "BigIntegerImpl::addAssign/subAssign/mulAssign/mul"])

prop("C02", "Division truncates toward zero and is exact",
 "For every dividend a and non-zero divisor b, quotient q and remainder r satisfy a = q*b + r with |r| < |b| and r zero or of the sign of a; all division and modulo forms (operators, combined quotient-and-remainder, int64 divisors, aliased operands and results) agree. Dividing by zero signals the division-by-zero error exactly once and changes no object that is not a destination of the operation; no division by a non-zero divisor signals it.",
 ["inputs"], "all dividends and divisors of any length and sign, including divisors needing quotient-digit correction, all aliasing patterns, divisor zero",
 "Tests divide a few numbers; the quotient-digit correction and add-back steps of long division occur with probability about 2^-31 on random operands, and aliasing/reused result objects are never exercised.",
 [IM, BI, "src/errInfos.cpp"], [("knuthDivImpl", IM), ("divideAssignAndReminderByU32 / modAssignAndQuotientByU32", IM), ("DIVBY0 status", IM)], [MAG], ["operator/ % /= %=", "divideAssignAndReminder, modAssignAndQuotient, div", "status callback of code DIVBY0"])

prop("C03", "Bitwise operations follow infinite two's complement",
 "and, or, xor and not give the result of the operation on the infinite two's complement representations of the operands, for every sign combination and operand length and for int64 operands. The n-th 32-bit two's complement block of a number is block n of that representation, for every n (sign extension beyond its length). Inverting the magnitude bits flips every bit of the magnitude up to its highest one and keeps the sign (a magnitude that becomes zero is zero).",
 ["inputs"], "all pairs of integers and int64 immediates, all block indices",
 "Negative operands need the position of the lowest non-zero word and propagate a borrow through zero words; tests cover few sign/length combinations and never block patterns such as 2^(32k).",
 [IM, BI], [("getU32 with lazily cached first non-zero word", IM), ("andAssign/orAssign/xorAssign/notSelf/notBits", IM)], [MAG, ("m_firstNotZeroU32IndexLazy", "cache of the lowest non-zero word's index", "src/BigIntegerImpl.h")], ["operators & | ^ ~", "get2sComplement"])

prop("C04", "Shifts multiply and floor-divide by powers of two",
 "A left shift by n yields x * 2^n, and a right shift by n yields floor(x / 2^n) (so shifting a negative number right ends at -1), for every integer x and every shift count n >= 0 that fits in memory.",
 ["inputs"], "all integers, all shift counts (within a word, whole words, both, beyond the length)",
 "The result depends on the combination of count modulo 32, word count, sign and whether any discarded bit is one; tests sample a handful.",
 [IM, BI], [("shlMag/shrMag/shiftRightAssign", IM)], [MAG], ["operators << >> <<= >>="])

prop("C05", "Equal values are indistinguishable whatever their history",
 "What can be observed of a number (comparison, text in every radix, exported bytes and their count, block and bit counts, sign and parity predicates, conversions) depends only on its mathematical value, not on the operations that produced it. In particular there is one zero, which is neither positive nor negative, and exactly one of zero/positive/negative holds.",
 ["histories", "inputs"], "all sequences of operations leading to the same value, all observers",
 "Leading zero words, negative zero or a stale cache are left behind only by particular operation sequences; the tests check results right after one operation from a freshly parsed value.",
 [IM, BI, SL], [("canonical form after every operation", IM), ("cache flag erased on write", IM)], [MAG], ["all const members"])

prop("C06", "Comparisons are the order of the integers",
 "Comparison of two numbers, or of a number with an int64 on either side, returns the order of their mathematical values: the three-way comparison and the six operators agree with that order and with each other. The predicates zero, one, minus one, positive, negative, even and odd hold exactly for the values their names say.",
 ["inputs"], "all pairs of integers, all int64 values on either side",
 "Tests compare a few small numbers; sign/length/word-position combinations and the int64 extremes are not reached.",
 [IM, BI], [("cmp/cmpMag", IM), ("operators == != < <= > >=", BI)], [MAG], ["cmp, comparison operators, is* predicates"])

prop("C07", "Text conversion is exact and rejects bad text without effect",
 "Printing in any radix 2..36 yields the canonical numeral (lower-case digits, no leading zeros, '-' for negatives), and parsing a numeral with optional sign, any leading zeros and digits in either case yields the number it denotes; parsing what was printed gives the number back. Any other text, or a radix outside 2..36, is rejected: the success flag is false, the matching error code is signalled and the target object keeps its value; on success the flag is true and no error is signalled.",
 ["inputs"], "all integers, all radices, all texts",
 "The block-wise conversion uses per-radix tables, and zero padding between blocks matters only for digits near block boundaries; tests sample few radices and lengths and almost no malformed text.",
 [IM, BI], [("fromString, per-radix block tables", IM), ("toString, BigIntegerImplToStringHelper", IM)], [MAG], ["constructors/assign from string, toString, as<string>", "ok flag, global status"])

prop("C08", "Binary import and export are exact",
 "Importing n bytes (n >= 0) of two's complement data, little or big endian, yields the number those bytes denote and leaves the bytes as they were. Exporting the magnitude writes its bytes, least significant first, without leading zero bytes, never more than the given limit and nothing behind the written bytes, and returns the number of bytes written; re-importing what was exported (with a sign byte) restores the value.",
 ["inputs"], "all byte strings of all lengths and both byte orders; all numbers and buffer limits",
 "The result depends on length modulo 4, sign, redundant sign bytes and byte order; tests use a few lengths.",
 [IM, BI], [("assign(bin,len,little)", IM), ("copyMagDataTo", IM)], [MAG], ["fromBinary, constructor from binary, copyMagDataTo"])

prop("C09", "Narrowing conversions are exact or reported",
 "Converting to int64 or uint64 returns the exact value and reports success if and only if the value is in range; otherwise it reports failure, signals arithmetic overflow and returns the type's maximum. Truncating conversions to an integral type give the value modulo 2^width of that type (bool: whether it is non-zero); converting from int64 is exact for every int64.",
 ["inputs"], "all integers, all built-in integral target types, all int64 sources",
 "The boundaries -2^63, 2^63, 2^64 and magnitudes with non-canonical history decide; tests use small numbers.",
 [BI, IM], [("getInt64/getUInt64/as<T>/tryGet*", BI), ("toU64, assign(int64)", IM)], [MAG], ["getInt64, getUInt64, tryGet*, as<T>, constructor and assignment from int64"])

prop("C10", "Numbers are values: copies never influence one another",
 "After any history of constructing, copying, moving, swapping, assigning and modifying numbers, each object has exactly the value its own history gives it: modifying an object never changes another one, whether it was copied from it before or after, and self-assignment changes nothing. A moved-from object can be assigned to and is then a normal object; the library's own shared constants are never changed.",
 ["histories"], "all finite histories of copy/move/swap/assign/modify over several objects",
 "Copies share storage until written (copy on write); a missing clone shows only in a multi-step history in which another copy is still alive, which unit tests of single operations do not build.",
 [IM, BI, SL], [("beginWrite / cloneData before every write", IM), ("Slice copy shares data", SL)], [("shared vector", "storage shared by copies", SL)], ["values of all live objects after every step"])

prop("C11", "Expressions evaluate to their mathematical value",
 "Evaluating a well-formed infix expression (decimal, hexadecimal, octal and radix-prefixed literals in either case, unary and binary operators, factorial, power, comparisons, conditional, builtin functions, parentheses, any white space) returns the exact integer given by the documented precedence and associativity over unbounded integers, with truncating division, comparisons yielding 1 or 0 and only the selected branch of a conditional evaluated. A successful evaluation reports no error and gives the same result however often it is repeated.",
 ["programs", "inputs"], "all well-formed expressions within the grammar (with evaluable operands)",
 "Tests evaluate a dozen expressions; precedence/associativity pairs, nesting, literal forms and operand sizes combine without bound.",
 ["src/eval.cpp", "src/infixExpr/Token.h", "src/infixExpr/ExprParser.cpp", "src/infixExpr/ExprTree.cpp", "src/infixExpr/SymbolTable.h"], [("tokenizer", "src/infixExpr/Token.h"), ("recursive descent parser", "src/infixExpr/ExprParser.cpp"), ("tree evaluation", "src/infixExpr/ExprTree.cpp")], [], ["expr::eval result and status"])

prop("C12", "Parallel evaluation equals sequential evaluation",
 "For every expression, every number of worker threads and every thread schedule, parallel evaluation terminates, returns the same value and signals the same errors (runs the same error callbacks equally often) as sequential evaluation; an exception thrown by a builtin function ends both in that exception. The result does not depend on evaluations done before.",
 ["schedules", "programs"], "all schedules of the worker threads and the caller, all expressions, any positive number of workers",
 "The tests run a few expressions under whatever schedule occurs; a lost wake-up, a task waiting for one queued behind it, or work done out of dependency order needs a particular interleaving.",
 ["src/eval.cpp", "src/infixExpr/ExprTree.cpp", "src/parallel/ThreadPool.h", "src/parallel/SimpleConcurrenceQueue.h"], [("post-order submission of subtrees, futures", "src/eval.cpp"), ("FIFO queue", "src/parallel/SimpleConcurrenceQueue.h")], [], ["expr::peval result and status under a controlled scheduler"])

prop("C13", "Malformed expressions are rejected with the matching error",
 "Every text that is not a well-formed expression (unknown characters or symbols, bad literals, missing operands or parentheses, trailing tokens, wrong number of arguments, empty text) is rejected: evaluation terminates without reading outside the given text, reports exactly one error whose code tells the kind of the first error, and never yields a value computed from a part of the text. Errors in one evaluation do not influence the next one.",
 ["inputs", "histories"], "all byte strings, of any length, all sequences of evaluations",
 "Tests evaluate well-formed input; the space of malformed inputs is unbounded and errors must not crash, hang or be ignored.",
 ["src/eval.cpp", "src/infixExpr/Token.h", "src/infixExpr/ExprParser.cpp", "src/infixExpr/SymbolTable.h", "src/errInfos.cpp"], [("error tokens and codes", "src/infixExpr/Token.h"), ("first error recorded by the parser", "src/infixExpr/ExprParser.cpp")], [], ["expr::eval status"])

prop("C14", "The thread pool runs every task exactly once and shuts down",
 "Every task submitted to a pool is executed exactly once, by at most as many threads at a time as the pool has, started in submission order and as soon as a thread of the pool is free; its future delivers exactly its result or exception. Shutting a pool down terminates under every schedule, runs every task submitted before, and tasks are not lost when submitters, workers and shutdown interleave.",
 ["schedules"], "all interleavings of submitters, workers and shutdown; any number of workers and tasks; tasks that throw",
 "The test runs one schedule; lost wake-ups between the empty check and the wait, or between shutdown and a waiting worker, need an exact interleaving.",
 ["src/parallel/ThreadPool.h", "src/parallel/SimpleConcurrenceQueue.h"], [("mutex + condition variable queue", "src/parallel/SimpleConcurrenceQueue.h"), ("worker loop, join in the destructor", "src/parallel/ThreadPool.h")], [("queue, shutdown flag", "pending tasks", "src/parallel/SimpleConcurrenceQueue.h")], ["task starts/ends, futures, pool destruction under a controlled scheduler"])

prop("C15", "Status codes: registry, text, callbacks and isolation",
 "Registering a code makes its text available and its callback run exactly once, with its argument, each time that code is assigned to a status; the last registration of a code wins, the library never overrides a registration made by the program, and a code nobody registered has only the placeholder text. Assigning a code changes only that status: the global status of one thread is independent of those of other threads and of separately created statuses.",
 ["histories"], "all histories of register/assign/query over codes, status objects and threads",
 "Tests register once and read back; re-registration, order relative to the library's own defaults, several status objects and threads are histories not sampled.",
 ["src/Status.cpp", "src/Status.h", "src/errInfos.cpp"], [("registry map", "src/Status.cpp"), ("thread-local global instance", "src/Status.cpp")], [("registry", "code -> text, callback, argument", "src/Status.cpp"), ("status", "current code of each object", "src/Status.h")], ["getInfo, callbacks"])

prop("C16", "Fractions are exact rationals in lowest terms; gcd is the gcd",
 "The gcd of two integers is the non-negative greatest common divisor (gcd(0,0)=0). Fraction construction, component update, +, -, *, / and reciprocal yield the exact rational result with numerator and denominator coprime, and its decimal text is the exact expansion truncated to the requested number of digits. Zero denominators and division by or reciprocal of zero are reported as division by zero.",
 ["inputs", "histories"], "all numerators/denominators of either sign, all sequences of operations, all digit counts",
 "Tests add a couple of small fractions; signs, zero, digits with leading zeros and big components are not covered.",
 ["src/Fraction.h", "src/algorithm.cpp"], [("fix() reduces by the gcd", "src/Fraction.h"), ("Euclid", "src/algorithm.cpp")], [("num/den", "numerator and denominator", "src/Fraction.h")], ["getNum/getDen/toString/toDecimal, gcd"])

prop("C17", "The C interface has the same semantics as the C++ interface",
 "Every function of the C interface has the effect and result on its handle's number that the corresponding C++ operation has on that value, on every history of calls: arithmetic, bitwise, shifts, comparison, predicates, conversions, text and binary I/O, and status functions. A failed creation from text returns no handle, a failed assignment leaves the number unchanged and returns false; handles are independent of each other and of strings returned earlier; the text of a status stays what it was until its code is registered again.",
 ["histories", "inputs"], "all histories of C calls over several handles and all arguments",
 "No test exercises the C interface at all.",
 ["c/src/pgbn.cpp", "c/src/pgbn.h"], [("handle wraps one number", "c/src/pgbn.cpp")], [("handle", "number behind the handle", "c/src/pgbn.cpp")], ["return values, text and bytes of every handle after every call"])

prop("C18", "Copies may be used by different threads at the same time",
 "Distinct number objects can be used by different threads concurrently even when they are copies of one another (sharing storage internally): under every interleaving each thread observes exactly the values its own operations produce, and the shared original keeps its value.",
 ["schedules", "histories"], "all interleavings of threads copying, reading, modifying and destroying copies of one number",
 "Tests are single-threaded; a write into storage another thread still shares needs a specific interleaving of reference counting and writing.",
 [SL, IM], [("shared_ptr reference count decides whether to clone", SL)], [("shared vector + use count", "storage shared by copies", SL)], ["values observed by each thread under a controlled scheduler"])

prop("C19", "Slices behave as independent sequences",
 "A slice behaves as a finite sequence: construction, append, prepend, front extension, narrowing or widening to a range, element access, iteration, copy, move and swap have exactly their sequence meaning, new elements created by widening are zero, and the result does not depend on how the slice was produced. After detaching, changing one slice never changes another, and a moved-from slice is an empty usable one.",
 ["histories"], "all histories of slice operations over several slices sharing storage",
 "Behaviour depends on the spare room left by earlier operations and on sharing; tests call each operation once.",
 [SL], [("[lo,hi) window over a shared vector", SL), ("cloneData", SL)], [("window", "lo, hi, shared vector", SL)], ["contents of all slices after every step"])

prop("C20", "The concurrent queue is a FIFO queue with clean shutdown",
 "Under every interleaving of any number of producers and consumers, each pushed element is taken at most once, elements are taken in the order in which they were pushed, a taker blocks only while the queue is empty and not shut down, and every element pushed before shutdown is still delivered. After shutdown no taker stays blocked.",
 ["schedules"], "all interleavings of producers, consumers, polling and shutdown",
 "Only used indirectly through one thread-pool test under one schedule.",
 ["src/parallel/SimpleConcurrenceQueue.h"], [("mutex and condition variable", "src/parallel/SimpleConcurrenceQueue.h")], [("queue", "elements", "src/parallel/SimpleConcurrenceQueue.h")], ["push/pop results under a controlled scheduler"])

prop("C21", "Formatted text: every placeholder becomes the text of its argument",
 "pgfmt::format(f, a0, a1, ...) is f with every placeholder {k} or {k:limit} replaced by the text of argument k (by nothing if there is no such argument) and everything else kept, whatever the number, order and repetition of placeholders and the length of the texts; formatAppend appends that text to its target. A limit acts as in printf for integers, floating point numbers and strings (flags, width, precision) and is the radix (10 if it is not one) for big numbers; lists print as [a, b], pairs as a : b. Nothing outside the program's objects is read or written.",
 ["inputs"], "all format texts whose placeholders are {number} or {number:limit}, all argument lists of the supported types, all limits meaningful for their argument",
 "Nothing but debugging output uses it in the tests; repeated, reordered or missing placeholders, limits and texts longer than the internal buffers are never checked.",
 ["src/pgdebug.h"], [("placeholder scanning and argument selection", "src/pgdebug.h"), ("conversion of one argument through printf-like limits", "src/pgdebug.h")], [("format text and arguments", "inputs of one call", "src/pgdebug.h")], ["pgfmt::format, pgfmt::formatAppend"])

prop("C22", "A text stream yields exactly the characters of its text",
 "A stream over a C string or std::string of length n yields its n characters in order (null characters included for std::string), each exactly once: the position counts the characters taken, peek shows the next one without taking it, the end is reported exactly when all have been taken, and from then on peek and get yield 0 and the position stays. A stream made with its own copy is independent of what happens to the source afterwards. Moving a stream carries text and position over; the overwritten stream's copy is released exactly once.",
 ["histories"], "all histories of creating, reading, moving, assigning and destroying streams and of changing or destroying their sources",
 "The parser's tests read short texts through one uncopied stream; copies, moves, embedded null characters and reading at the end are not exercised.",
 ["src/streams/StringReadStream.h"], [("pointers into the text or an owned copy", "src/streams/StringReadStream.h"), ("ownership flag", "src/streams/StringReadStream.h")], [("stream", "text, position, own copy or not", "src/streams/StringReadStream.h")], ["get/peek/eof/tell of every stream after every step"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
