D = {}
D['C01'] = 'Specified: one transition (S,E,C,D → S′,E′,C′,D′) per instruction and callee kind, from the comments at each handler. Enumerated: every case of the `execute` dispatch and every path through it, registers fully symbolic. Also: no path writes a cell of environment, code or a captured continuation except the named one; non-applicable operators raise. Bound: none on contents; operand lists up to 3 for variadic stores. Cost 1 s.'
D['C02'] = 'Specified: the emitted instruction sequence (schema) per core form and tail context. Enumerated: generator functions and the dispatch table, operand lists up to 3, sub-forms symbolic, both C++ argument evaluation orders (g++ evaluates right to left, the specification must hold for either). Cost 1 s.'
D['C05'] = 'Typestate of `object` references: after every constructor, destructor, assignment, reset, for every combination of old and new kinds of word, registered ⇔ holds a heap word, exactly once; extents recorded by each instantiated `make`; each asserted `reset` of the machine; liveness of machine registers at each allocation. Cost 1 s.'
D['C06'] = 'Enumerated: every reference graph of two data with two references (all null/interior/duplicate cases), three data, roots at every position, both address orders; set of frees compared with graph reachability. `is_root` for all order types of address and extents. The pointer set is modelled as an ordered set. Cost 15 s.'
D['C07'] = 'Known-bits domain over the 64-bit word: each constructor × each accessor with symbolic payload bits. Cost 1 s.'
D['C08'] = 'Each predicate × each kind of object; eqv?/equal? over all pairs of kinds; all graphs of two pairs and three-cell lists with sharing and cycles against bisimilarity; sequences by equality type up to length 3. Cost 6 s.'
D['C09'] = 'Each list primitive × each list shape up to 4 (proper, dotted, circular), elements opaque: resulting cell graph with identities, and the set of modified cells. Cost 4 s.'
D['C10'] = 'Each comparison × up to 4 arguments × lengths up to 3 × each weak order of the characters; case folding as an uninterpreted function. Cost 3 s.'
D['C11'] = 'Each of 12 sequence kinds: ref/set!/length at each index of lengths up to 3, invalid indices raise. Cost 1 s.'
D['C12'] = 'Each copy/fill/append/convert × every valid (start, end) and omission × lengths up to 4, overlapping copies both ways. Cost 6 s.'
D['C13'] = 'Exact results as rational-function normal forms or Euclidean terms, for every pair of exact representations and every sign partition; results canonical (small when it fits, ratio in lowest terms). A finding carries a concrete member of the failing partition. Cost 75 s.'
D['C14'] = 'Each comparison × each of 25 representation pairs × sign of the difference, NaN, infinities; classification predicates per representation. Cost 3 s.'
D['C15'] = 'Each operation with an inexact argument: result term is the IEEE operation/C function over converted arguments in order. Cost 2 s.'
D['C16'] = 'Programs: every clause list up to 4 over the clause kinds (plain, test-only, =>, else), data lists of case up to 3, do with 0–3 variables with/without step, 0–3 iterations; opaque tests forced to each truth value. Oracle: reference semantics incl. evaluation events and tail flags. Cost 4 s.'
D['C17'] = 'Programs: each binding form with 0–3 variables, rest lists, shadowing, nesting, redefinition; quasiquote templates up to depth 3, nesting levels up to 3, unquote(-splicing) at every position, vectors. Cost 4 s.'
D['C18'] = 'Patterns × templates × uses generated from a grammar (flat, nested two levels, tails, dotted, vectors, literals, custom/escaped ellipsis); hygiene: each derived form inside a binding of each name that occurs in the libraries\' expansions, against the meaning without it. Cost 10 s.'
D['C19'] = 'Dynamic extents up to 3 levels; transfers between every pair of extents; captures in before/after; 0–3 values; exit inside extents. Oracle: common-ancestor rewinding. Cost 2 s.'
D['C20'] = 'Two parameters, with/without converter, nested parameterize, exits by return, escape, raise, re-entry. Cost 2 s.'
D['C21'] = 'Handlers nested up to 3, raise/raise-continuable/error/primitive errors; guard with every clause kind and truth value, nested guards, inside dynamic extents; re-raise. Cost 3 s.'
D['C22'] = 'Chains of delay/delay-force/make-promise, shared and re-entrant, forced in every order. Cost 2 s.'
D['C23'] = 'Field lists up to 4, constructors with every subset and several orders, each accessor/modifier, other types and generations, wrong arguments. Cost 2 s.'
D['C24'] = 'Argument counts up to 4, lists/vectors/strings up to 4, all combinations of lengths up to 3 lists, opaque elements and predicates; tail calls of apply compared as events. Order of calls free for map (unordered). Cost 2 s.'
D['C25'] = 'oracle/srfi-1.ss restates the SRFI; 4400 programs: constructors, folds, unfolds, searches, deletion, association lists, lset operations (their argument order where specified). Sharing is not compared (linear-update procedures may or may not share). Cost 3 s.'
D['C26'] = 'oracle/ports.ss models ports as buffers with an open flag and a current port; 374 programs: each procedure with and without port, with redirected current ports, every range, closing, file wrappers with values and escapes. Cost 1 s.'
D['C27'] = 'Loads all 49 libraries in the abstract machine; obligations: exports bound, imports resolved, each free identifier reference bound after loading, specified names present (oracle/exports.txt). Cost 2 s.'
D['C28'] = 'Three transformer kinds × templates (bind, or, call, define, quote, deliberate capture) × names bound at the use × global/local macros; rename identity; compare/identifier=? tables. The reference is the hand-expanded program. Cost 2 s.'
D['C29'] = 'Interprets import_set, environment::import and evaluate, library::import_set and conditional_expand from their source over a heap of symbols (checks/names.py: names and renderings of known data are known strings, the library table a known map). Families: cond-expand (requirements × clause lists), import set (nesting ≤ 3, enumerated modifiers), export (declaration orders, imported once and twice), import (clashes, repeated imports), top level. Oracle: a set-theoretic model of the report in the check. Cost 20 s.'
D['C30'] = 'Interprets syntactic_environment::compile (expand, sweep, identify, the expanders, the generators, syntactic_closure) from its source over a heap that holds the program as a constant list; macro transformers are templates whose identifiers are renamed as er-macro-transformer and sc-macro-transformer do (C28 decides those). The emitted instruction list is decompiled to an expression tree and compared with the tree an independent reference compiler (class Ref of checks/c30.py) gives for the same program with every macro use written out and every binding uniquely named. Families: variables, keywords as variables, expressions, continuations, letrec, internal definitions, global/local/internal macros, hidden macros, macros that define, nested uses, places of uses, late definitions, closed forms. About 1100 programs, 100 s on 8 cores. An interpretation that stops (a construct the interpreter lacks) is reported as not decided, never as a violation.'
D['C31'] = 'Interprets the port primitives (registered in boot.cpp) and the port classes from their source; std::istream/ostream/stringstream/fstream are a model (checks/ports.py: a byte sequence with position, end and failure state, per file name for files), virtual calls are dispatched on the class the constructor primitive made. A character is a 32-bit word of known and free bits: one block for each bit length of a code point, so all code points are covered; the decoded words and the bytes of utf8() are compared bit by bit with the definition of UTF-8. Operation sequences are enumerated against a list model (textual input/output, binary input/output, homogeneous vectors, files, eof, independence of two ports). About 4700 instances, 40 s.'
D['C32'] = 'Interprets dynamic_environment::apply/execute (the real dispatch loop, goto included) on a call of a primitive that is given as an abstract signal: each error class through its own raise(), each standard exception class, the registered throw and emergency-exit. The catch clause is chosen by the dynamic class (class table of the AST), handlers by value slice. What the handler receives (class, message, irritants, number of calls), what the machine returns and which exception leaves it are compared with the specification, with and without handler, and nested in a primitive that evaluates. 145 programs, 1 s; also a premise of C21.'
