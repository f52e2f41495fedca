ABS = 'abstract interpretation over a term (Herbrand) domain with path partitioning'
prop('C01', 'Every machine instruction performs exactly its documented state transition',
     'Executing an instruction changes the stack, environment, control and dump of the abstract machine exactly as its documented transition says, for closures, primitives and continuations alike, and touches no other cell. Environments, code and continuations already handed to the program are never modified by execution, except the one cell an assignment names. Applying an object that is not applicable raises an error.',
     ['programs', 'inputs'], 'All instruction sequences, register contents and operand values.',
     'The test suite runs whole programs whose results mask a wrong dump or environment on the paths not sampled (tail variants, variadic stores, continuation invocation in tail position); no test enumerates instruction/callee-kind combinations.',
     ['src/kernel/dynamic_environment.cpp', 'include/meevax/kernel/instruction.hpp'],
     [('execute loop', 'src/kernel/dynamic_environment.cpp execute'), ('documented transitions', 'comments at each instruction handler')],
     ABS, 'Decides, for every instruction handler and every branch in it, that the final register terms equal the documented transition (all register contents at once, since contents stay symbolic). Assumes list elements named by operands exist and that distinct symbolic cells do not alias.')
prop('C02', 'Every core form compiles to its specified instruction sequence',
     'The code generated for each core form (reference, constant, call, lambda, if, set!, define, letrec, begin, quote, call/cc, define-syntax, current, install) evaluates the sub-forms in the specified order, in the right scope and tail context, with the operands the instructions expect, and continues with exactly the code that follows the form. The forms of a sequence are compiled first to last so that definitions take effect for the forms that follow.',
     ['programs'], 'All forms: sub-forms, scopes and continuation code are arbitrary.',
     'Tests evaluate sample programs; a wrong scope, continuation or tail flag in one form/context combination is only visible to programs that nest forms in that way.',
     ['src/kernel/generator.cpp', 'src/kernel/syntactic_environment.cpp'],
     [('generator functions', 'src/kernel/generator.cpp'), ('dispatch', 'src/kernel/syntactic_environment.cpp generate'), ('table of core forms', 'src/kernel/syntactic_environment.cpp core_syntactic_environment')],
     ABS, 'Decides equality of the emitted code with the specified schema for every core form and tail context; sub-forms are symbolic, operand lists are enumerated up to length 3 (2 for letrec), in both C++ argument evaluation orders.')
prop('C09', 'Pair and list procedures build and select exactly the documented structure',
     'Constructors, selectors, mutators and list procedures (cons, car through cddddr, list, cons*, append, reverse, list-tail, take, drop, last-pair, member-style searches, filters and their in-place forms) return exactly the cells and elements their documentation names, for proper, dotted and circular lists. A non-mutating procedure leaves every argument cell as it was, and a mutating one changes only the cells it is documented to change.',
     ['inputs'], 'All element values; every list shape up to length 4 (proper, dotted, circular).',
     'Tests compare printed results of literal lists; accidental mutation or sharing of an argument, or a dropped tail on one shape, prints the same result.',
     ['include/meevax/kernel/list.hpp', 'src/kernel/list.cpp', 'src/kernel/boot.cpp'],
     [('list library', 'include/meevax/kernel/list.hpp'), ('registrations', 'src/kernel/boot.cpp (meevax pair), (meevax list)')],
     ABS, 'Decides the exact resulting cell graph, identities included, for every list shape up to the bound; elements are unconstrained symbols. Longer lists are outside the bound.')
prop('C10', 'Character and string comparison procedures implement the Unicode scalar order',
     'char=? char<? char>? char<=? char>=? and their -ci forms, and the string counterparts, return true exactly when every adjacent pair of arguments is in the stated relation, for any number of arguments. Characters compare by scalar value and strings lexicographically by character; the -ci forms compare the case-folded characters.',
     ['inputs'], 'All characters and all strings up to length 3, for up to four arguments.',
     'Each comparison partitions its arguments into the weak orders of their characters; tests sample a few literal strings and never enumerate the order types (prefix, equal heads, differing lengths).',
     ['src/kernel/boot.cpp', 'src/kernel/string.cpp', 'src/kernel/character.cpp'],
     [('registrations', 'src/kernel/boot.cpp (meevax character), (meevax string)')],
     ABS, 'Decides the truth value for every order type of the argument characters (comparison depends on nothing else), up to the length and argument bounds.')
prop('C11', 'Sequence element access touches exactly the indexed element',
     'The -ref, -set! and -length procedures of strings, vectors and every homogeneous vector type read or replace exactly the element at the index, and report the number of elements. An index outside the sequence raises an error and leaves the sequence as it was.',
     ['inputs'], 'All element values, sequences up to length 3, every index around and far outside the bounds.',
     'Out-of-range accesses are undefined behaviour that frequently appears to work; per-type registrations (12 sequence types, 3 procedures each) are not sampled by tests.',
     ['src/kernel/boot.cpp', 'include/meevax/kernel/homogeneous_vector.hpp'],
     [('registrations', 'src/kernel/boot.cpp (meevax string), (meevax vector), (meevax vector homogeneous)')],
     ABS, 'Decides the read or written element for every index and length within the bound, with unconstrained elements.')
prop('C12', 'Sequence copy, fill, append and conversion move exactly the named range',
     'Copying, filling, appending and converting strings, vectors, homogeneous vectors and lists transfers exactly the elements from start (default 0) to end (default length), in order. The non-mutating forms return a fresh object; the mutating forms change only the named range of the target, and copying between overlapping ranges of one sequence behaves as if the source were copied first.',
     ['inputs'], 'All element values and every valid start/end/position combination for sequences up to length 3 (4 for overlapping copies).',
     'The number of range combinations per type (12 types) exceeds what tests enumerate; overlap direction and defaulted bounds are only visible on particular combinations.',
     ['src/kernel/boot.cpp', 'include/meevax/kernel/homogeneous_vector.hpp', 'include/meevax/kernel/vector.hpp', 'include/meevax/kernel/string.hpp'],
     [('registrations', 'src/kernel/boot.cpp (meevax string), (meevax vector), (meevax vector homogeneous), (meevax list)')],
     ABS, 'Decides contents and identity of the results for every valid range within the length bound, with unconstrained elements. Invalid ranges are not covered.')
NUM = ABS + '; numbers as rational functions of the arguments, partitioned by sign and order, with IEEE operations uninterpreted'
prop('C13', 'Arithmetic on exact numbers computes the exact mathematical result',
     'For every representation of exact integers and ratios (small, large, fractional, and complex numbers with such parts), addition, subtraction, multiplication, division, rounding, integer division, gcd and lcm, expt, max and min, numerator and denominator, bitwise operations, shifts and integer square roots return exactly the mathematical result, as an exact number. Dividing by exact zero, and the integer square root of a negative number, raise an error.',
     ['inputs'], 'All exact numbers of every magnitude and every pair of representations.',
     'Results depend on representation and sign combinations, word overflow, and exact ties; tests use a few literals and never the boundary between representations.',
     ['src/kernel/number.cpp', 'src/kernel/large_integer.cpp', 'src/kernel/ratio.cpp', 'src/kernel/complex.cpp', 'src/kernel/boot.cpp'],
     [('operators', 'src/kernel/number.cpp'), ('representations', 'src/kernel/large_integer.cpp, src/kernel/ratio.cpp'), ('registrations', 'src/kernel/boot.cpp (meevax number)')],
     NUM, 'Decides, on every path of every representation combination, equality of normal forms with the mathematical function; machine-word overflow is tracked by intervals. Shift distances are sampled around word sizes; GMP functions are trusted to do what their names say.')
prop('C14', 'Comparisons and classification of numbers follow their values',
     '<, >, <=, >= and = on real numbers of any representation are true exactly when every adjacent pair of arguments is in that order, exactly for exact arguments, and false when an argument is NaN. The classification predicates (integer?, rational?, exact?, finite?, nan?, zero?, odd? and the like) agree with the value of their argument.',
     ['inputs'], 'All real numbers of every representation, in every combination.',
     'A comparison is implemented once per pair of representations (25 pairs for each of five relations); tests sample mostly equal representations and never NaN against each.',
     ['src/kernel/number.cpp', 'src/kernel/boot.cpp'],
     [('comparison operators', 'src/kernel/number.cpp'), ('registrations', 'src/kernel/boot.cpp (meevax number)')],
     NUM, 'Decides the truth value for every sign of the difference, NaN and infinity included. Equality of two inexact numbers is documented to be approximate and is not claimed.')
prop('C15', 'Operations on inexact numbers are the IEEE operation on the arguments',
     'Arithmetic, rounding, extrema and transcendental functions with an inexact argument convert each argument to floating point and apply the IEEE operation or C library function of that name to them in order, and the result is inexact.',
     ['inputs'], 'All combinations of representations with an inexact argument; all values.',
     'There is one overload per representation pair and operator; a swapped operand, a wrong precision or a neighbouring function agrees on many of the values tests sample.',
     ['src/kernel/number.cpp', 'src/kernel/boot.cpp'],
     [('operators', 'src/kernel/number.cpp'), ('registrations', 'src/kernel/boot.cpp (meevax number)')],
     NUM, 'Decides the applied operation and its operands as terms, up to commutativity and neutral operands. Floating point accuracy and the sign of zero are not covered.')
prop('C08', 'Type predicates and equivalence of objects agree with the objects compared',
     'Each type predicate is true of objects of its type and false of objects of every other type. eq? and eqv? are true of an object and itself and of equal booleans, characters and (eqv?) exact numbers, and false of objects of different types, of distinct pairs and of distinct primitive procedures. equal? is true of two structures of pairs, shared and circular ones included, exactly when they unfold to the same tree, and of two strings, vectors or homogeneous vectors exactly when their lengths and elements are equal.',
     ['inputs'], 'All kinds of objects pairwise; all graphs of two pairs, three-cell lists, and selected larger trees and cycles; all equality types of sequence elements up to length 3.',
     'Equivalence is decided per pair of types (over forty types); shared and circular structures reach the union-find in ways the tests, which compare a few literals, do not.',
     ['src/kernel/comparator.cpp', 'include/meevax/kernel/comparator.hpp', 'include/meevax/kernel/collector.hpp', 'src/kernel/boot.cpp'],
     [('equal', 'src/kernel/comparator.cpp equal, union_find'), ('eqv', 'include/meevax/kernel/collector.hpp binder::eqv'), ('registrations', 'src/kernel/boot.cpp (meevax comparator) and the type predicates')],
     ABS, 'Decides the truth value on every path for every pair of kinds and every enumerated graph; elements are symbols partitioned by equality. Inexact numbers, complex numbers, boxes and termination on circular vectors are not covered.')
prop('C05', 'Every live reference and every allocated datum is known to the collector',
     'At every moment a reference that holds a heap datum is registered with the garbage collector exactly once and a reference that holds anything else is not, whatever it held before and however it was created, assigned, cleared or destroyed. Every allocated datum is known to the collector with the address and size of the complete object before a reference to it is handed out. No transition of the virtual machine reads a datum that nothing live holds at an allocation in between.',
     ['histories', 'inputs'], 'All kinds of old and new values at every constructor, destructor, assignment and reset; all allocated types; all machine transitions.',
     'A missing or double registration corrupts the heap only if a collection happens at the wrong moment, which the test programs almost never provoke.',
     ['src/kernel/collector.cpp', 'include/meevax/kernel/object.hpp', 'include/meevax/kernel/collector.hpp', 'src/kernel/dynamic_environment.cpp'],
     [('registration', 'src/kernel/collector.cpp object::object, ~object, operator=, insert, erase'), ('resets', 'include/meevax/kernel/object.hpp reset'), ('allocation', 'include/meevax/kernel/collector.hpp make, binder'), ('asserted resets', 'src/kernel/dynamic_environment.cpp execute')],
     'typestate analysis by abstract interpretation over a known-bits domain; liveness of terms at allocations',
     'Decides the registration state after every member function of the reference type for all combinations of values, the recorded extent for every instantiated allocation, and every asserted reset of the machine. References held by C++ code outside the machine are covered by the registration rule, raw C++ pointers into the heap are not.')
prop('C06', 'A garbage collection frees exactly the data that no root reaches',
     'A reference is a root exactly when it does not lie inside an allocated datum. A collection frees every datum that no root reaches through references, cycles included, frees none that is reachable, and frees each only once.',
     ['heaps'], 'All reference graphs of up to two data with two references each, graphs of three data, all order types of addresses.',
     'Test programs print their results before unreachable or wrongly freed data could matter; no test inspects which data survive a collection.',
     ['src/kernel/collector.cpp'],
     [('collection', 'src/kernel/collector.cpp collect'), ('root test', 'src/kernel/collector.cpp is_root'), ('shutdown', 'src/kernel/collector.cpp clear')],
     'abstract interpretation over bounded heap shapes and order types of addresses',
     'Decides the set of freed data for every reference graph up to the bound and both address orders, the root test for every order type. The ordered pointer set is modelled by its interface. References held in storage outside data (the elements of a vector) count as roots, as implemented; leaks of cycles through them are not covered.')
prop('C07', 'The tagged word keeps the type and every bit of the datum it was built from',
     'A word built from a boolean, small integer, single or double precision number, instruction, heap reference or the empty list reports exactly that type, is a heap reference only if it was built from one, and yields the same value bit for bit; only the payload of a NaN may change. Words of different types, or of different values of one type, are never equal.',
     ['inputs'], 'All values of every kind (2^64 doubles, 2^48 addresses, 2^32 payloads).',
     'The overlap of NaN payloads with tags concerns values no test constructs.',
     ['include/meevax/memory/nan_boxing_pointer.hpp'],
     [('masks and signatures', 'include/meevax/memory/nan_boxing_pointer.hpp'), ('canonicalisation of NaN', 'include/meevax/memory/nan_boxing_pointer.hpp canonicalize')],
     'abstract interpretation over a known-bits domain',
     'Decides every accessor for every value of every kind (bits stay symbolic). Assumes user-space addresses of 48 bits.')
SCM = 'abstract interpretation of the library definitions over opaque operands, against reference semantics'
SCMNOTE = ' The Scheme definitions are read from the library sources of this tree, macros included; the expander of the core forms, the primitive procedures and argument counts are idealised (other properties cover the first two).'
prop('C16', 'Derived conditionals, sequencing and loops evaluate what the report says',
     'cond, case, and, or, when, unless, begin, do and named let evaluate their sub-expressions in the order, number of times and scope the language report prescribes and return the value it prescribes, for all clause shapes including => and else. A procedure call in a tail position of one of them is a tail call.',
     ['inputs'], 'All programs built from these forms: every clause shape up to four clauses, with arbitrary (opaque) expressions, all truth values of tests.',
     'A test that is evaluated twice, or a clause that is tried after an earlier one matched, shows only with side effects or particular truth values; tests use a few literal programs.',
     ['library/r4rs.ss', 'library/r7rs.ss', 'library/meevax.ss'],
     [('cond, case, and, or, do, let', 'library/r4rs.ss'), ('when, unless', 'library/r7rs.ss')],
     SCM, 'Decides the trace of evaluations, the result and the tail calls of every enumerated shape for all values of the opaque sub-expressions.' + SCMNOTE)
prop('C17', 'Binding constructs and quasiquotation bind and build as the report says',
     'let, let*, letrec, letrec*, let-values, let*-values, receive, define-values, values with call-with-values, case-lambda, rec and internal definitions evaluate each initialiser exactly once, in its scope, and bind each variable to its value. quasiquote builds the template with each unquoted expression of the outermost level, and only those, replaced or spliced.',
     ['inputs'], 'All binding lists up to three variables with rest variables, shadowing and nesting; all templates of bounded depth, levels of nesting and splicing positions; arbitrary expressions.',
     'Scope and evaluation count are invisible to tests whose initialisers are constants; nesting levels and vectors in templates combine in many ways.',
     ['library/r4rs.ss', 'library/r5rs.ss', 'library/r7rs.ss', 'library/srfi-8.ss', 'library/srfi-11.ss', 'library/srfi-16.ss', 'library/srfi-31.ss'],
     [('let, let*, quasiquote', 'library/r4rs.ss'), ('values', 'library/r5rs.ss'), ('let-values', 'library/srfi-11.ss'), ('case-lambda', 'library/srfi-16.ss')],
     SCM, 'Decides bindings, scopes, evaluations and the built structure of every enumerated shape for all values of the opaque sub-expressions.' + SCMNOTE)
prop('C18', 'syntax-rules macros match, instantiate and are hygienic',
     'A syntax-rules macro selects the first rule whose pattern matches the use (literals, nested ellipses with tail patterns, dotted and vector patterns, custom and escaped ellipses, underscore) and instantiates its template with the matched parts in order. The derived forms and user macros are hygienic: an identifier introduced by a macro never captures or is captured by an identifier of the use, whatever local names the program chooses.',
     ['inputs'], 'All patterns and templates of bounded size and nesting against uses of all shapes up to three repetitions; every derived form used where any of its names is bound locally.',
     'The product of pattern, template and use shapes is far beyond the test programs; a hygiene defect needs a program that happens to bind the particular name an expansion uses.',
     ['library/srfi-149.ss', 'library/r4rs.ss', 'library/r7rs.ss', 'library/srfi-34.ss', 'library/srfi-39.ss', 'library/meevax.ss'],
     [('syntax-rules', 'library/srfi-149.ss syntax-rules-transformer'), ('renaming', 'library/meevax.ss (meevax macro-transformer) and every define-syntax')],
     SCM, 'Decides the instantiated form of every enumerated pattern, template and use, and for every derived form and every local name whether the expansion still means the same.' + SCMNOTE)
prop('C19', 'Continuations re-enter and leave dynamic extents through their thunks',
     'Calling a continuation, whether to escape or to re-enter, runs exactly the after thunks of the dynamic extents left, innermost first, and then the before thunks of those entered, outermost first, and then returns all the passed values to the continuation. dynamic-wind runs before, thunk and after once each on normal entry and exit and returns the values of the thunk, and exit runs the outstanding after thunks.',
     ['histories'], 'All nestings of dynamic extents up to three levels on both sides, escapes and re-entries between every pair of points, captures inside the thunks, zero to three values.',
     'The thunks that must run depend on the pair of extents; tests exercise one or two pairs.',
     ['library/meevax.ss', 'library/r5rs.ss'],
     [('dynamic-wind, call-with-current-continuation, exit', 'library/meevax.ss (meevax continuation)'), ('values', 'library/r5rs.ss')],
     SCM, 'Decides the sequence of thunk calls and the values received for every enumerated nesting and transfer.' + SCMNOTE)
prop('C20', 'Parameters have the innermost binding of the current dynamic extent',
     'A parameter object returns the value of the innermost parameterize of that parameter in whose dynamic extent it is called, and its converted initial value outside of any. parameterize converts each given value exactly once before the body is entered, binds exactly the named parameters, and leaves the outer bindings in force after every kind of exit and again on re-entry.',
     ['histories'], 'All nestings of bindings of two parameters with and without converter, left and re-entered by return, escape and exception.',
     'The binding in force after an escape or re-entry, or a converter applied twice, is observable only in histories the tests do not contain.',
     ['library/srfi-39.ss', 'library/r7rs.ss', 'library/meevax.ss'],
     [('make-parameter, parameterize', 'library/srfi-39.ss')],
     SCM, 'Decides the value and the converter calls of every enumerated program for arbitrary values.' + SCMNOTE)
prop('C21', 'Exceptions reach the innermost handler in the right dynamic environment',
     'raise, raise-continuable and errors detected by primitives call the innermost handler once, with the raised object, with the outer handlers installed; only the handler of raise-continuable returns to the raise. guard evaluates its clauses in the dynamic environment of the guard expression, takes the first whose test holds, returns its values, and when none holds re-raises the same object in the dynamic environment of the raise.',
     ['histories'], 'All nestings of handlers and guards up to three levels, all clause shapes, raises from the body, from handlers and inside dynamic extents.',
     'Order of the thunks around a guard and the handler stack inside a handler are seen only by programs that combine dynamic-wind, nested handlers and non-matching clauses.',
     ['library/srfi-34.ss', 'library/srfi-23.ss', 'library/r7rs.ss', 'library/meevax.ss'],
     [('with-exception-handler, raise, guard', 'library/srfi-34.ss')],
     SCM, 'Decides the sequence of handler calls, thunk calls and the outcome of every enumerated program for arbitrary objects and test values.' + SCMNOTE)
prop('C22', 'A promise is evaluated at most once and then keeps its value',
     'force evaluates the expression of a delay or delay-force promise when first forced and only then, and every later force of it, or of a promise that shares its tail, returns the same value without evaluating it again. This includes promises forced during their own evaluation, and make-promise returns promises unchanged.',
     ['histories'], 'All chains of delay and delay-force up to three promises, shared and re-entrant, forced in every order.',
     'Sharing between chained promises and re-entrant forcing need particular histories; tests force a promise directly.',
     ['library/srfi-45.ss', 'library/r7rs.ss'],
     [('force, delay, lazy, eager', 'library/srfi-45.ss')],
     SCM, 'Decides the evaluations and the values of every enumerated history.' + SCMNOTE)
prop('C23', 'Record types are disjoint and their fields independent',
     'define-record-type defines a constructor that puts each argument in the named field, a predicate true exactly of the instances of that type, accessors and modifiers of exactly the named field, and each evaluation of the definition creates a new type. An accessor or modifier applied to anything else signals an error.',
     ['inputs'], 'All field lists up to four fields, all constructor argument subsets and orders, all accessors and modifiers, instances of other types and other objects.',
     'A field index that is off only for fields the constructor omits, or a predicate that accepts a record of another type, is missed by tests using one record type.',
     ['library/srfi-9.ss', 'library/r7rs.ss'],
     [('define-record-type', 'library/srfi-9.ss')],
     SCM, 'Decides the value of every field after construction and modification and every predicate for arbitrary field values.' + SCMNOTE)

prop('C24', 'Procedures defined in Scheme agree with the report for every argument',
     'The procedures of (scheme base) and (scheme char) that are written in Scheme (map, for-each and their string and vector forms, apply, member and assoc with a predicate, list-set!, boolean=?, symbol=?, case conversion, exact-integer-sqrt) give the result, call their procedure arguments with the arguments and signal the errors that the report requires. apply calls its procedure in tail position.',
     ['inputs'], 'All argument counts up to four, lists and sequences up to four elements of different lengths, arbitrary elements and arbitrary results of the procedure arguments.',
     'Mapping over lists of different lengths, or the last element of a third list, is rarely tested; the results of predicates that are neither #t nor #f hardly ever.',
     ['library/r4rs.ss', 'library/r5rs.ss', 'library/r7rs.ss', 'library/meevax.ss'],
     [('map', 'library/meevax.ss'), ('vector-map', 'library/r7rs.ss')],
     SCM, 'Decides result, calls and errors over opaque elements for each shape of the arguments.' + SCMNOTE)

prop('C25', 'SRFI 1 list procedures agree with their specification',
     'Each procedure of (srfi 1) gives the list or value its specification states, calls its procedure arguments in the specified order where one is specified and with the specified arguments, and stops where specified. Procedures with n lists stop with the shortest.',
     ['inputs'], 'Lists up to four elements (proper, dotted and circular where allowed), up to three lists, all index arguments within them, arbitrary elements and results of predicates.',
     'Argument order of n-ary folds, which of two equal elements is kept, and the last tail of any/every are facts that a test with symmetric arguments does not see.',
     ['library/srfi-1.ss'],
     [('fold', 'library/srfi-1.ss'), ('lset-union', 'library/srfi-1.ss')],
     SCM, 'Each procedure is compared, over opaque elements and predicates, with a second definition from the text of the SRFI (oracle/srfi-1.ss).' + SCMNOTE)

prop('C26', 'Port procedures use the given port and range, and close what they open',
     'Each input or output procedure acts on the port it is given, else on the current port at the time of the call, and transfers exactly the stated range. call-with-port and the with- and call-with- file procedures pass on all values and close the port they opened when their procedure returns, and with- procedures redirect the current port only during the call.',
     ['inputs', 'histories'], 'All optional argument combinations of each procedure, all ranges of a three-element buffer, zero to three values, returns and escapes.',
     'Using the current port where a port was given only shows when both differ, and closing or restoring only shows after the call.',
     ['library/r4rs.ss', 'library/r7rs.ss', 'library/meevax.ss'],
     [('read-line', 'library/r7rs.ss'), ('with-output-to-file', 'library/r4rs.ss')],
     SCM, 'The primitive operation, the port it gets and the order of the operations are compared with oracle/ports.ss; what a primitive does with the file is not modelled.' + SCMNOTE)

prop('C27', 'Every library provides its specified bindings and refers to nothing unbound',
     'Each library of the report and each supported SRFI exports every name of its specification with a value, except the auxiliary keywords. No library exports, imports or refers to a name that has no definition.',
     ['inputs'], 'All library definitions, all exports, imports and free identifiers of their bodies.',
     'A reference to a missing name fails only when the branch with it is executed, typically an error branch no test reaches.',
     ['library', 'src/kernel/boot.cpp'],
     [('define-library', 'library')],
     SCM, 'Closure of the module graph: exports, import sets and every free identifier compiled, against oracle/exports.txt (report appendix A and the SRFI name lists).')

prop('C28', 'Low-level macro transformers resolve identifiers in the right environment',
     'A macro defined with er-macro-transformer, sc-macro-transformer or rsc-macro-transformer expands so that identifiers it renames or leaves to the macro environment mean what they mean where the macro is defined, identifiers of the use mean what they mean at the use, and variables it binds this way do not capture those of the use. rename returns the same identifier for the same symbol within one expansion, and compare and identifier=? hold exactly when two identifiers mean the same.',
     ['inputs'], 'All three transformer kinds with templates that bind, test and call, at top level and in local scopes, with every variable name of the implementation bound at the use; identifier comparison under all combinations of local bindings.',
     'Capture depends on the names a program happens to use; tests use a few names.',
     ['library/meevax.ss'],
     [('er-macro-transformer', 'library/meevax.ss')],
     SCM, 'Decides each expansion against the program with fresh names written out.' + SCMNOTE)

prop('C29', 'Imports, exports, library declarations and cond-expand select what is specified',
     'An import set denotes exactly the bindings its only, except, prefix and rename forms describe, however they are nested; importing binds each of them to what the library exports under that name and disturbs no other binding. A library exports exactly the bindings its export declarations name, in whichever declarations they are scattered, and its declarations, commands and included files are processed once, in order, in the environment of that library. cond-expand selects the whole first clause whose feature requirement (feature, library, and, or, not, else) holds, and nothing if there is none.',
     ['programs'], 'All import sets of three modifiers over a sample library, requirements nested two deep, up to three clauses, and the library declaration forms in varying order; the values bound are arbitrary.',
     'Programs combine the forms freely; tests and the bundled libraries use a few combinations.',
     ['src/kernel/environment.cpp', 'src/kernel/library.cpp', 'src/kernel/conditional_expand.cpp'],
     [('import_set, import, evaluate', 'src/kernel/environment.cpp'), ('library declarations and export specs', 'src/kernel/library.cpp'), ('feature requirements', 'src/kernel/conditional_expand.cpp')],
     ABS, 'Decides the C++ functions on every form of the enumerated grammar against a set-theoretic model; symbols and libraries are known by name, values are opaque. Compiling and running a command is recorded instead of followed.')

prop('C30', 'The compiler gives every identifier the binding its place selects',
     'An identifier of a program denotes the innermost binding of its name around it (parameters, rest parameters, letrec, internal definitions, local and internal macros, else the global one), whatever the name is. An identifier that a macro inserts denotes what it means where the macro is defined, one that the user writes what it means where it is used, and neither ever captures the other, however macros, closed forms and definitions nest. Apart from that, a macro use means exactly what its expansion means, in every place where an expression, a definition or a body may stand.',
     ['programs'], 'Enumerated programs of every binding form, nested up to three deep, with every template of the catalogue and every name the template mentions bound at the use, at the definition or both.',
     'Whether a name is captured depends on how bindings, macros and their uses happen to nest; tests use a handful of combinations with names that do not clash.',
     ['src/kernel/syntactic_environment.cpp', 'src/kernel/expander.cpp', 'src/kernel/syntactic_closure.cpp', 'src/kernel/generator.cpp'],
     [('expand, sweep, identify', 'src/kernel/syntactic_environment.cpp'), ('expanders of the core forms', 'src/kernel/expander.cpp'), ('identifiers inserted by macros', 'src/kernel/syntactic_closure.cpp'), ('code of references and assignments', 'src/kernel/generator.cpp')],
     ABS, 'Decides, for each program of the catalogue, that the instructions the compiler source emits compute the reference expression, in which every identifier has been given a unique name. The compiler is interpreted from its source; nothing is executed. Macro transformers are templates.')

prop('C31', 'Ports deliver and record characters and bytes completely and in order',
     'Every sequence of read and peek operations on an input port delivers exactly the characters (decoded from UTF-8) or bytes of its string, bytevector or file, each once, in order, and the end-of-file object exactly when nothing is left; a byte that cannot begin a character is an error, a peek leaves the next item in place, and read-string, read-line and read-bytevector take exactly the items they return, or as many as remain. What is written to an output port is recorded completely and in order, as UTF-8 where it is text, and can be taken out at any time. Ports are independent of each other and file ports use the file of the given name or, if it cannot be opened, signal a file error.',
     ['inputs', 'histories'], 'All code points by blocks of equal encoded length, all operation sequences up to three operations over media of up to four items, every kind of port.',
     'The effect of an operation depends on the state all earlier ones left the stream in and on the length of the encoding at the position; tests use few ASCII inputs.',
     ['src/kernel/textual_input_port.cpp', 'src/kernel/textual_output_port.cpp', 'src/kernel/character.cpp', 'src/kernel/binary_input_file_port.cpp', 'include/meevax/kernel/input_homogeneous_vector_port.hpp', 'src/kernel/boot.cpp'],
     [('take_character, peek_character, get, get_line', 'src/kernel/textual_input_port.cpp'), ('utf8', 'src/kernel/character.cpp'), ('bytevector input', 'include/meevax/kernel/input_homogeneous_vector_port.hpp'), ('binary files', 'src/kernel/binary_input_file_port.cpp'), ('port primitives', 'src/kernel/boot.cpp')],
     ABS, 'Decides, for each operation sequence of the enumeration, the results and the recorded bytes, by interpreting the C++ source over byte sequences of known and free bits. Standard streams are a model. Truncated and overlong encodings and char-ready?/u8-ready? at the end of a file are not claimed.')

prop('C32', 'Errors of primitives reach the handler as the objects they are',
     'An error that a primitive or the system signals, of whatever kind and however deeply evaluations are nested, calls the installed exception handler exactly once with an error object of the same kind (error, file-error, read-error), message and irritants, whose predicates answer accordingly; without a handler it leaves the evaluation with that kind, message and irritants. An object thrown by the program leaves the evaluation as an error of its own kind, any other object as the irritant of an error, and emergency-exit ends with the given status and calls no handler.',
     ['inputs', 'histories'], 'All classes of errors and C++ exceptions, with and without a handler, in an evaluation and in a nested one.',
     'Which clause handles an exception and what survives of it depends on its dynamic class and on how it is passed on; tests only see the errors they provoke.',
     ['src/kernel/dynamic_environment.cpp', 'src/kernel/error.cpp', 'src/kernel/boot.cpp', 'include/meevax/kernel/error.hpp'],
     [('handlers of execute', 'src/kernel/dynamic_environment.cpp'), ('make, raise', 'src/kernel/error.cpp'), ('throw, emergency-exit, error predicates', 'src/kernel/boot.cpp')],
     ABS, 'The machine and the error classes are interpreted from their source; C++ unwinding (dynamic type, slicing of by-value handlers and of thrown copies) is a model.')

prop('N01', 'Inexact functions and decimal conversion are accurate',
     'Transcendental functions are accurate to the last place, and reading the decimal representation of an inexact number gives back the same number.',
     ['inputs'], 'All doubles.', 'Rounding errors concern isolated values.',
     ['src/kernel/number.cpp'], [('number->string', 'src/kernel/number.cpp')],
     na='The rounding of libm, strtod and stream output is outside of the source; a static argument about last-place errors over all doubles is not in reach. C15 decides which operation is applied.')
prop('N02', 'The ordered set of heap addresses finds every member',
     'The two-level bitmap that stores addresses behaves as an ordered set for every history of insertions and removals.',
     ['histories'], 'All histories of insert, erase, lower_bound.', 'Chunk boundaries depend on address patterns.',
     ['include/meevax/memory/pointer_set.hpp'], [('pointer_set', 'include/meevax/memory/pointer_set.hpp')],
     na='An inductive invariant over unbounded bitmaps, chunk vectors and address arithmetic needs a decision procedure for bit-vectors with quantifiers; the bounded shapes used here would not cover the boundary cases that matter. C06 relies on it by interface.')
prop('N03', 'Programs that the report allows run without exhausting the stack',
     'Deep recursion, long lists and deeply nested data are processed within the available native stack.',
     ['inputs'], 'All nesting depths.', 'Only very deep data exhaust the stack.',
     ['src/kernel/collector.cpp', 'src/kernel/comparator.cpp', 'src/kernel/syntactic_environment.cpp'], [('recursive functions', 'mark, equal, expand, write')],
     na='Quantifies over run-time sizes; recursion depth of the C++ functions is proportional to the data by design, and no static bound exists.')
