PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, level_note=None, na=None, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=a, technique=technique, level_note=level_note, na=na))


prop('C01', 'A transducer\'s implementation type always matches the object it holds',
     'After construction, reading from a stream, copying, assignment, conversion or any other operation, the implementation type an '
     'HfstTransducer reports is the type of the backend object it actually holds; no operation ever interprets the backend object as one of '
     'another type. Constructors, assignment and conversion establish exactly the requested type; every other operation leaves the type as it was.',
     ['inputs', 'histories'], 'all operations, all implementation types, all sequences of operations',
     'the tests run mostly on one implementation type and on the main path of each operation',
     ['libhfst/src/HfstTransducer.cc', 'libhfst/src/HfstTransducer.h', 'libhfst/src/HfstApply.cc', 'libhfst/src/HfstInputStream.cc', 'libhfst/src/HfstOutputStream.cc',
      'libhfst/src/implementations/ConvertTransducerFormat.cc'],
     [('HfstTransducer::type / TransducerImplementation union', 'libhfst/src/HfstTransducer.h'), ('HfstTransducer::convert', 'libhfst/src/HfstTransducer.cc')],
     technique='typestate analysis of the (type tag, union member) pair over all paths',
     level_note='Every path of every member function and friend; each access, store and exit is one obligation. A few reads inside HfstInputStream::read_transducer '
                'depend on what the header parser put in the stream and stay undecided (reported in the evidence).')
prop('C02', 'Binary operations refuse operands of different types and spare operands',
     'A binary operation (compare, compose, concatenate, disjunct, intersect, subtract, cross product, shuffle, priority union, lenient '
     'composition, insert_freely, substitute with a transducer, harmonisation, assignment to a typed transducer) called on transducers of '
     'different implementation types throws TransducerTypeMismatchException before either operand has been changed. No operation changes an '
     'operand it takes by constant reference.',
     ['inputs'], 'all pairs of implementation types, all operations and operands',
     'tests call binary operations on operands of one type and do not inspect the operand afterwards',
     ['libhfst/src/HfstTransducer.cc', 'libhfst/src/HfstApply.cc'],
     [('HfstTransducer::apply(binary)', 'libhfst/src/HfstApply.cc'), ('HfstTransducer::compose', 'libhfst/src/HfstTransducer.cc')],
     technique='path-sensitive effect analysis with the two type tags fixed to each mismatching pair',
     level_note='All paths of each binary operation for every pair (ten representative pairs in the quick tier, all 30 in the thorough tier).')
prop('C03', 'An operation means the same on every implementation type',
     'Each operation of HfstTransducer performs the same, documented operation on every implementation type it supports: the same backend '
     'operation is applied to the same operands in the same order with the same parameters, and its result replaces the transducer. Each backend '
     'realises an operation with the primitive of its library that computes it, operands in order, and what it builds (concatenation, union, the powers of '
     'repetition up to the bounds, closure, projection with unknown turned into identity, inversion, composition, difference, intersection) is the documented '
     'combination of its operands; so are the operations made of others (negation, cross product, priority union, lenient composition, bounded repetition).',
     ['inputs', 'configurations'], 'all operations on all implementation types',
     'the test-suite exercises few operations on the log-weight, SFST and foma types',
     ['libhfst/src/HfstTransducer.cc', 'libhfst/src/HfstApply.cc', 'libhfst/src/implementations/TropicalWeightTransducer.cc', 'libhfst/src/implementations/LogWeightTransducer.cc',
      'libhfst/src/implementations/FomaTransducer.cc', 'libhfst/src/implementations/SfstTransducer.cc'],
     [('HfstTransducer::apply', 'libhfst/src/HfstApply.cc'), ('backend wrappers', 'libhfst/src/implementations')],
     technique='abstract interpretation per implementation type; comparison of the sets of backend calls with symbolic operands; primitive table for wrappers; interpretation of wrappers and composite operations over an algebra of networks',
     level_note='Decides which backend operation is called with which operands, not what the vendored library computes. Five operations with type-specific routes are '
                'checked for the operation only.')

prop('C04', 'A branch of a lookup leaves the search state as it found it',
     'In every backtracking search (lookup in optimized-lookup transducers, pmatch matching, hfst-optimized-lookup, extraction of paths in each backend, lookup and the searches for '
     'epsilon loops, negative cycles and regexp paths in HfstBasicTransducer): when a branch has been tried, and whenever one of the functions returns, whether or not it found '
     'something, the accumulated weight, flag-diacritic settings, recursion budget, position, path so far, call and context stacks, captures and sets of states of the path are '
     'what they were before it, so that no branch affects the results of another.',
     ['inputs'], 'all paths through the functions of each search, every recursive call, all transducers and inputs', 'tests look up a few strings; a leak shows only on ambiguous input with flags, weights, limits or deep recursion',
     ['libhfst/src/implementations/optimized-lookup/transducer.cc', 'libhfst/src/implementations/optimized-lookup/pmatch.cc', 'libhfst/src/implementations/HfstBasicTransducer.cc',
      'libhfst/src/implementations/TropicalWeightTransducer.cc', 'tools/src/hfst-optimized-lookup.cc'],
     [('Transducer::get_analyses and the try_/find_ functions', 'libhfst/src/implementations/optimized-lookup/transducer.cc'),
      ('PmatchTransducer::get_analyses, take_epsilons, take_transitions, take_flag, rtn_call, rtn_return, check_context', 'libhfst/src/implementations/optimized-lookup/pmatch.cc'),
      ('HfstBasicTransducer::lookup, is_lookup_infinitely_ambiguous, has_negative_epsilon_cycles, find_regexp_paths', 'libhfst/src/implementations/HfstBasicTransducer.cc'),
      ('extract_paths', 'libhfst/src/implementations/TropicalWeightTransducer.cc')],
     technique='assume-guarantee abstract interpretation of the mutually recursive functions of each search: given that recursive calls keep the pinned variables, every loop round and every return does',
     level_note='A change is reported when the difference is definite (a push without pop, a weight not subtracted again, settings not put back); differences that cannot be resolved '
     'are undecided (2 today, both in take_epsilons of pmatch). Output tapes, which later branches overwrite, are not pinned.')

prop('C05', 'Flag diacritics follow the documented P/N/R/D/C/U semantics everywhere',
     'For every flag diacritic @OP.FEATURE.VALUE@ or @OP.FEATURE@ and every current setting of the feature (unset, set positively or '
     'negatively to the same or another value), each engine that interprets flags allows or blocks the path, and updates only that '
     'feature\'s setting, exactly as the documented semantics of the six operators says. Exactly the strings of that shape are '
     'recognised as flag diacritics, and their operator, feature and value are read off correctly. Flag elimination treats every '
     'pair of an earlier and a later flag of the same feature in agreement with what run-time interpretation would do.',
     ['inputs', 'histories'], 'all flag symbols and all histories of flags of the same feature',
     'tests use a handful of flag words (mostly P, R, U with positive settings); the operator x setting product and the elimination table are not covered',
     ['libhfst/src/HfstFlagDiacritics.h', 'libhfst/src/HfstFlagDiacritics.cc', 'libhfst/src/HfstLookupFlagDiacritics.cc', 'libhfst/src/HfstTransducer.cc'],
     [('FdState::apply_operation', 'libhfst/src/HfstFlagDiacritics.h'), ('FlagDiacriticTable::insert_symbol', 'libhfst/src/HfstLookupFlagDiacritics.cc'),
      ('flag_build', 'libhfst/src/HfstTransducer.cc'), ('FdOperation::is_diacritic', 'libhfst/src/HfstFlagDiacritics.cc')],
     technique='abstract interpretation over a finite partition of flag settings, compared with the specification table',
     level_note='Complete over operator x value presence x setting partition for both engines, the recognisers, the splitters and the elimination '
                'pair table; assumes the std container models of lib/absint.py. That lookup calls the engine for every flag arc is decided under C04, not here.')

prop('C06', 'Name, type and properties of a stored transducer read back as written',
     'The HFST3 header written before a transducer is read back as it was written: for every implementation type the reader recognises the type name that '
     'the writer uses as that same type; the two bytes of length are those of the header that follows, for every length up to 65535, and longer headers are '
     'refused; every property of the transducer (whatever its name, value or number) is written once as a key and a value and read into the transducer that '
     'follows, in every library and tool reader; nothing of the transducer before in the same stream is left; and the bytes of a header are counted '
     'exactly, so that reading goes on right after it.',
     ['inputs', 'histories'], 'all properties, header lengths, implementation types and sequences of transducers in a stream',
     'tests store transducers with short headers and few properties, one type per stream; lengths above 127 or 255, empty values and leftovers of earlier transducers are not tested',
     ['libhfst/src/HfstOutputStream.cc', 'libhfst/src/HfstInputStream.cc', 'libhfst/src/implementations/optimized-lookup/pmatch.cc', 'tools/src/hfst-optimized-lookup.cc'],
     [('HfstOutputStream::operator<<, append, append_hfst_header_data', 'libhfst/src/HfstOutputStream.cc'),
      ('HfstInputStream::read_hfst_header, process_header_data, get_header_size, get_header_data, read_transducer', 'libhfst/src/HfstInputStream.cc'),
      ('PmatchContainer::parse_hfst3_header', 'libhfst/src/implementations/optimized-lookup/pmatch.cc'), ('TransducerHeader::skip_hfst3_header', 'tools/src/hfst-optimized-lookup.cc')],
     technique='abstract interpretation of writer and readers to token sequences (strings appended, bytes taken), with type names, lengths and byte counts compared between them',
     level_note='Complete over types, framing and the loops over properties for the enumerated functions; the length bytes are evaluated symbolically for two representative lengths.')

prop('C07', 'Optimized-lookup transducers are read from the bytes written for them',
     'In the binary optimized-lookup format, every member of the transducer header and of the records of both tables is read from exactly the bytes it is '
     'written to, weighted or not, by every reader: the library from a stream, from a buffer, and inside pmatch containers, and the stand-alone lookup tools. '
     'Each reader takes the header, the alphabet, the index table and the transition table in the order in which they are written, with the number of entries '
     'the header gives for that table and the record size of its class; each symbol is read up to its NUL, once per symbol; and the header counts and '
     'weightedness that are written are those of the tables that follow.',
     ['inputs'], 'every transducer stored in HFST_OL or HFST_OLW format (all tables, sizes, weights and flags)',
     'tests store and look up a few small transducers; a wrong byte offset, size or flag shows only with particular sizes, weights or readers',
     ['libhfst/src/implementations/optimized-lookup/transducer.h', 'libhfst/src/implementations/optimized-lookup/transducer.cc',
      'libhfst/src/implementations/optimized-lookup/pmatch.cc', 'tools/src/hfst-optimized-lookup.h', 'tools/src/hfst-optimized-lookup.cc'],
     [('TransducerHeader, TransitionIndex, Transition, TransitionW, TransducerTable readers and writers', 'libhfst/src/implementations/optimized-lookup/transducer.h'),
      ('Transducer::Transducer(istream), write', 'libhfst/src/implementations/optimized-lookup/transducer.cc'),
      ('PmatchContainer', 'libhfst/src/implementations/optimized-lookup/pmatch.cc'), ('Transducer readers', 'tools/src/hfst-optimized-lookup.h')],
     technique='byte-layout extraction by abstract interpretation: writers and readers are interpreted to sequences of (member, offset, size), which must agree for every pair of writer and reader',
     level_note='Complete over the members and record types for the enumerated readers; how tables are built in memory before writing is not part of it.')

prop('C08', 'AT&T and prolog text is read by the fields and escapes it is written with',
     'A transducer written as AT&T text (to a stream, a file or a buffer) or as prolog reads back with the same states, transitions, final states and weights (to printing '
     'precision): every writer puts source, target, input, output and weight (state and weight for final states) in the columns the reader takes them from, '
     'with weights exactly when asked for; each state has its own number and every final state is written once; spaces, tabs, epsilons, quotes and '
     'backslashes in symbols are escaped so that they do not split fields and come back as they were, whatever the length of the line; identity and unknown '
     'stay apart in prolog where the format can tell them apart; several networks in one file stay apart; and a line that cannot be read is an error. (Symbols that themselves spell an escape, like @0@ or %0, excepted.)',
     ['inputs'], 'every transducer and symbol without newlines and without literal escapes, every way of writing and reading the two formats',
     'tests convert small transducers with plain symbols through the FILE writers; odd symbols, long lines, streams and buffers are not tried',
     ['libhfst/src/implementations/HfstBasicTransducer.cc', 'libhfst/src/HfstTransducer.cc', 'tools/src/hfst-fst2txt.cc'],
     [('write_in_att_format, add_att_line, write_in_prolog_format, parse_prolog_*, prologize_symbol', 'libhfst/src/implementations/HfstBasicTransducer.cc')],
     technique='abstract interpretation of the writers to line templates (text and value holes) and of the readers to uses of scanned fields; extracted replacement tables are composed and compared; loop-step analysis of state numbers',
     level_note='Complete over the writers and readers of HfstBasicTransducer; precision of printed weights, and getting characters from files, are not part of it. Composition of the prolog escape tables is checked on all strings up to length 4 over the characters they mention.')
prop('C09', 'Format conversions copy every transition, final state and symbol',
     'Wherever the library builds a transition from another one, input symbol, output symbol, target state and weight each come from the field of the '
     'same role. A conversion between HfstBasicTransducer and a native type (tropical, log, foma, optimized lookup) copies every transition of every '
     'state with all its fields, every final state with its weight whatever that weight is, and every symbol of the alphabet; source, target and '
     'final states are numbered by one and the same one-to-one renumbering with the start state as 0; and all transducers share one symbol numbering.',
     ['inputs', 'configurations'], 'all transducers and all conversion functions',
     'tests convert a few small transducers, mostly with state 0 initial and weight 0',
     ['libhfst/src/implementations/ConvertTropicalWeightTransducer.cc', 'libhfst/src/implementations/ConvertLogWeightTransducer.cc',
      'libhfst/src/implementations/ConvertFomaTransducer.cc', 'libhfst/src/implementations/ConvertOlTransducer.cc'],
     [('ConversionFunctions', 'libhfst/src/implementations/ConvertTransducerFormat.cc'), ('tropical_ofst_to_hfst_basic_transducer', 'libhfst/src/implementations/ConvertTropicalWeightTransducer.cc')],
     technique='role-provenance slicing (which transition field each argument is computed from) over all construction sites, and path coverage of the conversion loops',
     level_note='Every construction site of the library (over 600) and every conversion function compiled in. Whether a symbol lookup by number returns the right '
                'string is assumed.')

prop('C10', 'HfstBasicTransducer stays well formed under every editing operation',
     'After any sequence of HfstBasicTransducer edits: every symbol of a stored transition is in the alphabet (unless the caller asked otherwise), '
     'the target of a stored transition is an existing state, epsilon, unknown and identity stay in the alphabet, and a state number given by the '
     'caller is checked before use. Removal removes exactly the matching transitions, a replacement keeps the target, weight and other side of the '
     'transition it replaces, a set of substitutes is inserted once each, swapping state numbers swaps their transitions, their final weights and the targets that lead to them, a transition replaced by a network leads into a copy of it and out to its old target with the weights along the way, a symbol is pruned only when '
     'unused on both sides, and copies take over every member.',
     ['inputs', 'histories'], 'all graphs and all sequences of edits',
     'tests edit a few graphs with one matching transition and registered symbols',
     ['libhfst/src/implementations/HfstBasicTransducer.cc', 'libhfst/src/implementations/HfstBasicTransducer.h'],
     [('HfstBasicTransducer::add_transition', 'libhfst/src/implementations/HfstBasicTransducer.cc'), ('HfstBasicTransducer::substitute_', 'libhfst/src/implementations/HfstBasicTransducer.cc')],
     technique='value provenance of stored transitions matched against alphabet registrations, must-pass control-flow queries for bounds and removal loops, finite case analysis of the final-weight swap',
     level_note='Every method of HfstBasicTransducer that stores, replaces or removes; removal in loops is checked over the whole library. Transitions of a graph '
                'that was well formed are assumed well formed (induction over edits).')

prop('C15', 'Text of any length fits in the buffer that receives it',
     'Wherever a string, field or message is written into a buffer whose size is fixed by its declaration or by an allocation in the same function (arrays, malloc, '
     'calloc, new, vectors of characters), the buffer is large enough for text of any length: formatted (sprintf), copied (strcpy, strcat, memcpy), read (fgets, '
     'fread, getline) and scanned (sscanf %s) text, element stores, and loops that copy a string character by character, including the terminating zero. Tables '
     'indexed by a byte have an entry for every byte value that can reach them, and a pointer walking a string is never advanced beyond its terminating zero.',
     ['inputs'], 'every string length and every byte value', 'tests use short, well-formed ASCII words',
     ['libhfst/src/parsers/xre_utils.cc', 'libhfst/src/parsers/pmatch_utils.cc', 'libhfst/src/parsers/lexc-utils.cc', 'libhfst/src/HfstTokenizer.cc',
      'libhfst/src/implementations/optimized-lookup/transducer.h', 'libhfst/src/implementations/HfstBasicTransducer.cc', 'tools/src/hfst-optimized-lookup.cc'],
     [('strip_percents, parse_quoted', 'libhfst/src/parsers/xre_utils.cc'), ('OlLetterTrie, Encoder', 'libhfst/src/implementations/optimized-lookup/transducer.h')],
     technique='comparison of buffer capacity and need as linear forms over string lengths, with bounds from dominating tests; path analysis of character-copying loops',
     level_note='Decides buffers whose size is visible in the function that writes; recursive writers and buffers passed in from elsewhere are not decided (counted as undecided).')

prop('C25', 'Values are copied whole and compared by consistent orders',
     'Copying or assigning a value (a transducer, a graph, a transition, a lookup path, a rule, ...) with its user-written copy constructor or copy '
     'assignment gives the copy the value of every field of the original, each from the same field, and assigning an object to itself leaves it as it was. '
     'Every comparison used to order values (operator<, the comparisons of sets, maps, priority queues and sorts) is a strict weak order, operator== is an '
     'equivalence that agrees with operator!= and operator<, an order that keys a set tells unequal values apart, and arcs are sorted so that the '
     'parallel walks over two arc lists, which compare symbols only, find every match.',
     ['inputs'], 'all values of all types with a user-written copy or comparison',
     'a test compares and copies a handful of values; a missing field or an inconsistent order shows only for particular combinations of fields',
     ['libhfst/src/HfstTransducer.cc', 'libhfst/src/implementations/HfstBasicTransducer.cc', 'libhfst/src/implementations/HfstBasicTransition.cc',
      'libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc', 'libhfst/src/implementations/optimized-lookup/find_epsilon_loops.cc',
      'libhfst/src/implementations/optimized-lookup/convert.cc', 'libhfst/src/implementations/optimized-lookup/pmatch_tokenize.cc', 'tools/src/hfst-proc/lookup-path.cc',
      'tools/src/hfst-proc/tokenizer.h'],
     [('copy constructors and assignments', 'libhfst/src/HfstTransducer.cc'), ('HfstTropicalTransducerTransitionData::operator<',
      'libhfst/src/implementations/HfstTropicalTransducerTransitionData.cc'), ('HfstBasicTransducer::sort_arcs', 'libhfst/src/implementations/HfstBasicTransducer.cc')],
     technique='def-use analysis of copy operations per field; finite case analysis of comparison functions over abstract positions of the terms they look at',
     level_note='Every user-written copy operation and comparison in 176 source files. A field that nothing looks at is not required to be copied. Sequences are '
                'compared through their first two elements; comparisons that use anything but comparisons of terms are reported undecided.')
NA = 'Needs reasoning about '
prop('C13', 'Command-line options of every tool mean what the usage text says',
     'For every command-line tool: every option its option string or long-option table accepts is acted upon; the short and the long form of an '
     'option take the same kind of argument and select the same action; an option argument is used only where one is required or its presence '
     'is tested; the action of one option does not run on into the action of another; and every option the usage text documents is accepted '
     'in the documented forms with the documented kind of argument.',
     ['inputs', 'configurations'], 'all tools, all options, both forms, all combinations',
     'the tests use a few options per tool, mostly in the short form',
     ['tools/src/hfst-program-options.h', 'tools/src/inc/getopt-cases-unary.h', 'tools/src/inc/getopt-cases-binary.h', 'tools/src/inc/getopt-cases-common.h',
      'tools/src/hfst-lookup.cc', 'tools/src/hfst-txt2fst.cc'],
     [('parse_options of each tool', 'tools/src'), ('HFST_GETOPT_* macros', 'tools/src/hfst-program-options.h')],
     technique='cross-table consistency analysis of option string, long-option table, option switch and usage text extracted from the resolved syntax tree',
     level_note='Complete for the ~64 tools that parse with getopt_long; the meaning of the action itself is not judged. 70 existing inconsistencies are listed as known findings.')

prop('C12', 'Commands of the xfst compiler respect the stack of networks',
     'Every command of XfstCompiler, from every stack: never looks at or removes the top of an empty stack; leaves on the stack only networks that exist, each once, and none that '
     'a definition (or the last compiled regex) owns too; a network that it takes from the stack is put back, deleted or handed to a new owner, not lost and not deleted twice; '
     'and a command that reports failure leaves the networks that were on the stack where they were, in the same order.',
     ['inputs', 'histories'], 'all commands from all stacks (every path of every public method, loops generalised)', 'tests run scripts whose commands succeed on a stack of the right size',
     ['libhfst/src/parsers/XfstCompiler.cc', 'libhfst/src/parsers/XfstCompiler.h'],
     [('XfstCompiler::stack_ and top()', 'libhfst/src/parsers/XfstCompiler.cc'), ('apply_unary_operation, apply_binary_operation', 'libhfst/src/parsers/XfstCompiler.cc')],
     technique='path-sensitive abstract interpretation of every command with the stack of networks as a symbolic sequence; typestate of each network (on the stack, taken, deleted, handed over)',
     level_note='Exceptions that leave a command are not followed. What a network denotes after the command is not judged.')

prop('C90', 'Rational operations compute the specified weighted relation',
     'For all transducers, union, composition, intersection, subtraction, concatenation, iteration, reversal, inversion, projection, minimisation and '
     'determinisation denote the mathematically specified weighted relation, whatever backend is used.',
     ['inputs'], 'all transducers', 'tests sample tiny automata',
     ['libhfst/src/HfstTransducer.cc', 'libhfst/src/implementations/TropicalWeightTransducer.cc'], [('HfstTransducer operations', 'libhfst/src/HfstTransducer.cc')],
     na='the result is a weighted relation computed by unbounded graph algorithms in the vendored back-ends; no structural clause of the code implies language equality. Dispatch and refusal clauses are claimed separately.')
prop('C91', 'Lookup returns exactly the paths of the transducer for the input',
     'For every transducer and input string, lookup returns every accepting path whose input side is the string, with its weight, and nothing else.',
     ['inputs'], 'all transducers and strings', 'tests sample words',
     ['libhfst/src/implementations/optimized-lookup/transducer.cc'], [('get_analyses', 'libhfst/src/implementations/optimized-lookup/transducer.cc')],
     na='completeness of a recursive search over runtime tables is a whole-algorithm functional-correctness statement.')
prop('C92', 'Writing and re-reading a transducer yields an equivalent transducer',
     'For every transducer and format (binary, optimized lookup, AT&T, prolog), what is written and read back is equivalent to the original.',
     ['inputs'], 'all transducers, all formats', 'tests round-trip a few files',
     ['libhfst/src/HfstOutputStream.cc', 'libhfst/src/HfstInputStream.cc'], [('HfstOutputStream::operator<<', 'libhfst/src/HfstOutputStream.cc')],
     na='whole round-trip equality quantifies over graph contents; its structural clauses (field-by-field agreement of writer and reader) are what static analysis can decide.')
prop('C93', 'Replace rules, two-level rules and tagger models have their documented meaning',
     'Every xerox replace rule, two-level rule and trained tagger denotes the relation its documentation specifies.',
     ['programs', 'inputs'], 'all rules', 'tests sample rules',
     ['libhfst/src/HfstXeroxRules.cc', 'libhfst/src/HfstRules.cc'], [('replace', 'libhfst/src/HfstXeroxRules.cc')],
     na='the meaning of a rule is a language built by long compositions of operations; no local structural condition implies it.')
prop('C94', 'Every operation terminates within resources proportional to its documented cost',
     'No library call or tool loops forever or exhausts memory on finite input, except where documented (for example all paths of a cyclic transducer).',
     ['inputs'], 'all inputs', 'tests sample small inputs', ['libhfst/src/HfstTransducer.cc'], [('all algorithms', 'libhfst/src')],
     na='termination and cost of graph algorithms depend on runtime sizes and weights; no ranking argument in reach of these analyses.')
