#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the records stay readable)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
Q='JSONQuery/'
p('J01','The scanner reports exactly the JSON tokens of the input',
 'For every complete JSON object or array, and every chunk of one that ends between two tokens, the token scanner reports each brace, bracket and comma that lies outside a string, each object key (a string whose closing quote is followed by optional blank space and a colon) and each primitive value exactly once, in order and with the right kind, and nothing that lies inside a string. A string ends at the first quote preceded by an even number of backslashes. Every call consumes input from where the previous one stopped, never looks at bytes after the end of the text, and reports the end once no token is left.',
 ['inputs'],'every JSON text: any content of strings, any run of backslashes, any blank space (space, tab, newline, carriage return) between tokens',
 'The tests run two fixed data files and look at no token; strings with long escape runs, pretty-printed input and blanks before colons are unbounded families.',
 [Q+'lexing.c',Q+'lexing.h'],[('character loop with three scanner states',Q+'lexing.c:nextToken')],
 [('next_start','where the next token scan starts',Q+'lexing.h:Lexer')],['token kind returned by nextToken','Lexer.next_start'])
p('J02','Key names and matched text are exact copies of the source bytes',
 'The text handed on for a key is exactly the bytes between its quotes, for a string value exactly its bytes including both quotes, for any other primitive exactly its bytes up to the delimiter, with nothing added, dropped, trimmed or truncated. The text of a matched object or array is exactly the source bytes from its opening bracket to its closing bracket. The copying helpers copy exactly the requested byte range and terminate it.',
 ['inputs'],'every JSON text and every span inside it, wherever it starts (including texts that begin with blanks)',
 'No test compares matched text with the source; only the number of results of two files is printed.',
 [Q+'lexing.c',Q+'utility.c',Q+'streaming_automaton.c'],[('substring/strcopy helpers',Q+'utility.c'),('span bookkeeping',Q+'streaming_automaton.c:executeAutomaton')])
p('J03','Query position and nesting are restored after every value',
 'While a document nested within the capacity of the stacks is evaluated serially, opening an object or array, or reading a key, records the position to come back to, and when the value ends (object, array or primitive, as member of an object, as array element, or at top level) nesting and query position are exactly those that held before the value started. No token kind or nesting context leaves an extra or missing level on either stack. The query advances on a key or into an array only by the automaton transition for that key or array, and to the dead position when the enclosing element is outside the selected index range.',
 ['inputs','histories'],'every token sequence of well-formed JSON, every nesting context, every compiled query',
 'The tests never inspect the stacks, and a drift of one level shows only for particular nestings after particular siblings.',
 [Q+'streaming_automaton.c',Q+'stack.h'],[('transition rules obj_s..val_pmt',Q+'streaming_automaton.c')],
 [('syntax_stack','open braces, brackets and keys',Q+'streaming_automaton.h'),('query_stack','query positions to return to',Q+'streaming_automaton.h')])
p('J04','Array element indexes count elements, and only elements',
 'On entering an array the element index starts at zero; it goes up by exactly one after each element, whether the element is a primitive, an object or an array. Members of objects, commas, keys and nested values never change the index of an enclosing array, and the index of an enclosing array is unchanged when a nested value ends. This holds throughout serial evaluation.',
 ['inputs'],'every array nesting and mix of element kinds in serial evaluation',
 'Index-sensitive queries in the tests use one fixed file with one element kind and check no output.',
 [Q+'streaming_automaton.c',Q+'worker_automaton.c',Q+'parallel_automata_execution.h'],[('count++ sites per closing token','transition code of the three automata')])
p('J05','Index ranges select the same half-open interval everywhere',
 'An index range from a to b selects exactly the elements whose index is at least a and less than b, and a step without a range selects every element. The same test decides whether an element is output, whether evaluation descends through it by key or by nested array, and whether it is recorded for learning, at every site of the serial automaton.',
 ['inputs','configurations'],'every index value and every range bound, at every site that applies a range',
 'The comparison is repeated at many sites; tests exercise one range on one file and compare nothing.',
 [Q+'streaming_automaton.c',Q+'worker_automaton.c',Q+'multi_stack.h',Q+'parallel_automata_execution.h','DFABuilder/include/dfa.h'],[('range test','getMatchedType, ary_s, key, queryStacksPush, combine')])
p('J06','Serial evaluation reports each matching value exactly once',
 'In serial evaluation a primitive that is reached in an output position produces exactly one result with its text, and an object or array reached in an output position produces exactly one result when it closes. A value in a condition position produces one condition record, an object in a filtered-array position produces one opening and one closing record around everything recorded inside it, and no other token produces any record. Records carry the query position of the value they belong to, in document order.',
 ['inputs'],'every token sequence and every classification of query positions',
 'Which record is appended depends on token kind, nesting and classification together; tests check none of the records.',
 [Q+'streaming_automaton.c',Q+'tuple_list.h'],[('addTuple calls',Q+'streaming_automaton.c:executeAutomaton')])
p('J07','Compiled-query lookup follows exact key names',
 'Looking up the next query position for a key uses the column whose name is byte-for-byte the key when the query has a transition for it from the current position, and otherwise the common column for all other keys. Looking up an array step always uses the array column, never a key column. Lookup never modifies the compiled query.',
 ['inputs','programs'],'every key string and every compiled query',
 'Key names that are prefixes, case variants or absent names of query names are an unbounded family; tests use a handful.',
 ['DFABuilder/include/dfa.h'],[('dfaNextStateByStr','DFABuilder/include/dfa.h')])
p('J08','Each path step compiles to its own matching rule',
 'Compiling a path turns every child step into one transition on that name, a child wildcard into one transition on any step, a descendant step into any number of steps followed by that name, a descendant wildcard into one or more arbitrary steps, and every bracket step (index, range, wildcard or filter) into one array transition, in path order. An index [n] selects exactly element n, a range keeps its two bounds with missing bounds open, and a range or filter applies to the array step it is written on. Every member path a filter refers to becomes a rule of its own: the steps up to the filtered array step, then one child step per name of the member path. The whole path, not a prefix of it, is what is output.',
 ['programs'],'every path expression built from the supported operators',
 'The tests compile a dozen expressions and print the tables without checking them.',
 ['DFABuilder/src/dfa_builder.cpp'],[('construct_dfa / create_dfa','DFABuilder/src/dfa_builder.cpp')])
p('J09','The automaton construction preserves the step language',
 'The automaton built from a list of step rules accepts exactly the step sequences the rules describe: which rules may be empty, which may come first, last and after one another is derived from concatenation, alternatives and repetition as in the textbook construction, and the combined automaton tracks all rules in parallel from their start positions. A position is classified by a rule exactly when that rule accepts there, and looking up an edge returns the value that was stored for it.',
 ['programs'],'every rule list that path compilation can produce',
 'Correctness is about all step sequences of all expressions; tests compile a few expressions and check nothing.',
 ['DFABuilder/src/Lexer/regex_model.cpp','DFABuilder/src/Lexer/regex_builder.cpp','DFABuilder/src/Lexer/dfa_mixer.cpp','DFABuilder/src/Lexer/dfa_compressed.cpp'],[('position automaton','RegexItem::Build*'),('product of rules','DFAMixer::Combine')])
p('J10','Compiled positions are classified and described consistently',
 'In the compiled query a position accepting the complete path is an output position, a position accepting a filter condition is a condition position, and a position accepting a filtered array step is a predicate position listed among the predicate positions with its filter expression and the positions of all its conditions that have a position of their own. The compiled table is a faithful copy of the constructed automaton with the step names in matching columns. Index ranges are attached to the position of the step they were written on and to no other.',
 ['programs'],'every path expression built from the supported operators',
 'The tables are only printed by the tests.',
 ['DFABuilder/src/dfa_builder.cpp'],[('create_dfa / create_context','DFABuilder/src/dfa_builder.cpp')])
p('J11','Filter expressions are evaluated by the usual operator rules',
 'Comparison, boolean and arithmetic operators in a filter compute their usual result on their left and right operand in that order: equality needs equal kinds and equal values, inequality is its negation, ordering and arithmetic apply to numbers, a value that is absent is false and an existing value without text is true. A comparison by order or an arithmetic operation on anything that is not a number never yields a true filter by accident. Literals, numbers (also negative ones), strings, booleans and null in the data are recognised from their source text.',
 ['inputs','programs'],'every operator, every pair of operand kinds and values, and every condition text',
 'Tests evaluate a few fixed expressions with number operands only.',
 ['JSONPathParser/jsonpath_evaluator.h'],[('computeBinaryOperator, computeUnaryOperator, stringToValue, calculateExpression','JSONPathParser/jsonpath_evaluator.h')])
p('J12','Path text is parsed with the documented operators and precedence',
 'Every operator symbol of the path language is recognised as that operator (longest match first, so two-character operators are never split) and builds the corresponding expression node with its operands in source order. In filters, not and arithmetic bind tighter than comparisons, comparisons tighter than and, and tighter than or, operators of equal rank group to the left, and multiplication, division and remainder bind tighter than addition and subtraction. A property path inside a filter names the member reached by following all its steps.',
 ['programs'],'every path and filter expression of the language',
 'Precedence and token splitting matter for operator combinations the tests never write.',
 ['JSONPathParser/parser_j.y','JSONPathParser/scanner_j.l','JSONPathParser/jsonpath_evaluator.h'],[('grammar and precedence declarations','parser_j.y'),('token rules','scanner_j.l'),('evaluatorModifyReference','jsonpath_evaluator.h')])
p('J13','Filtered candidates are released only when their filter is true',
 'A result recorded inside a filtered array element is delivered if and only if the filter of that element, and of every filtered element around it, is true for the condition values of that element; condition values are never delivered as results. Results are delivered in the order in which they were recorded, conditions of one element never influence the next one, and a query without filters delivers every result in order. An undecided element is carried over unchanged when the input arrives in several portions.',
 ['inputs','histories'],'every record sequence, nesting of filters and truth value, and every split of the sequence into portions',
 'Tests use filters on one file and check no result; nested and interleaved outcomes need specific data.',
 [Q+'predicate.c',Q+'predicate.h',Q+'output.h'],[('generateFinalOutput',Q+'predicate.c')])
p('J14','Parallel workers share nothing they write and finish before merging',
 'Between its start and its end a worker thread writes only memory owned by that worker (its own automaton, its own thread record and memory it allocated); the compiled query, learned constraints, input text and all global data are only read. Every chunk is processed exactly once, by a worker of its own with its own chunk and automaton (by the calling thread when no thread can be started for it); only the worker of the first chunk continues the automaton of the previous portion. All started threads have been waited for before the results are merged or any worker is released, and all chunks take part in the merge.',
 ['schedules'],'every interleaving of any number of worker threads',
 'Tests run a few schedules; a race shows only under particular interleavings.',
 [Q+'parallel_automata_execution.h',Q+'worker_automaton.c',Q+'lexing.c'],[('executeParallelAutomata, main_thread',Q+'parallel_automata_execution.h')])
p('J15','A parallel worker applies the same nesting rules as the serial automaton',
 'For a valid document split at permitted borders and a token whose enclosing brackets lie inside its own chunk, a worker changes its nesting stack and its set of tracked query positions exactly as the serial automaton does for each of them, counts array elements and remembers the beginnings of matches in the same way, and records a match for each tracked position exactly when the serial automaton would, attached once to every start position it stems from. At the outermost level of a chunk a value that is followed neither by a new record nor by the end counts as an array element; an array position begun in an earlier chunk is only discarded once its index range cannot hold any more. Every element passed at such a position with an index range leaves exactly one record for merging: its match if the position is an output, otherwise a mark. A closing token whose opening lies in an earlier chunk is handed on for merging as an unmatched symbol of the right kind and position instead of changing the stacks, and ends the current unit, which reports its start positions, records and the text it covers; what follows starts afresh. The worker for the first chunk starts in the initial query position, any other worker tracks every query position, reduced at most once per unit to those learned for its first key or array.',
 ['inputs','schedules'],'every token, nesting context and set of tracked positions inside a chunk',
 'Agreement of two implementations on every context is not sampled by two files with no expected output.',
 [Q+'worker_automaton.c',Q+'worker_automaton.h',Q+'multi_stack.h',Q+'unit.h',Q+'streaming_automaton.c'],[('executeWorkerAutomaton',Q+'worker_automaton.c')])
p('J16','Chunk results are merged once, in order, from the right start position',
 'For a valid document split at permitted borders, merging visits the chunks in input order and the units of each chunk in order and applies every closing symbol handed on to the nesting, the query positions and the element indices as the serial automaton would, delivering a match that began in an earlier chunk with its complete text across all the chunks it spans. From each unit it takes over exactly the results recorded for the query position that actually holds there, each once, in order and with the text recorded; where that position has an index range, only those whose element lies in the range, counting one element for every record of the position itself. Results of the first chunk come first. A unit whose assumed start positions do not include the real one is evaluated again, by the first worker, from the real state, on exactly the text of the unit, and matches begun in it are placed where they begin in the chunk. Afterwards the symbols, the positions that stem from the real start position and the matches which the chunk leaves open are added to the state the next chunk continues from; inside an element outside of the index range no query position stays alive.',
 ['inputs','configurations'],'every partition of every document and every set of worker results',
 'Depends on where chunk borders fall; tests use fixed core counts on one file and check nothing.',
 [Q+'parallel_automata_execution.h',Q+'multi_stack.h'],[('combine',Q+'parallel_automata_execution.h')])
p('J17','Loading and splitting the input neither loses nor repeats a byte',
 'The portions in which a file is loaded (loadBoundedInputStream, loadInputStream), and the chunks into which a text in memory is split (partitionInputStream), concatenate to exactly the original bytes, each ends in a terminator inside its memory, and their number and positions cover the input completely, for a non-empty input without zero bytes. A border between portions or chunks is placed only in front of a quote whose preceding non-blank character is an opening brace, an opening bracket or a comma. Every file that was opened for loading is closed again, and a missing file is reported as missing and never read.',
 ['inputs','configurations'],'every file content, length, number of cores and portion size',
 'Borders depend on data and core count; tests use one file and fixed core counts and check no bytes.',
 [Q+'path_processor.h'],[('loadInputStream, loadBoundedInputStream, partitionInputStream','JSONQuery/path_processor.h')])
p('J18','Evaluation resumes across input portions exactly where it stopped',
 'When a document is loaded in several portions, evaluation of a portion (serial, or the first worker of a parallel evaluation) starts with the query position, element index, open match and nesting that the previous portion ended with, and filtering goes on with its undecided candidates, open filtered elements and results; only the first portion starts from the initial state. Serial evaluation of two tokens in two portions ends in the same state with the same records as in one portion. Records are filtered exactly once, in the portion that found them, and no portion uses memory that was released after an earlier one. The text of an object or array that lies across the end of a portion is not covered.',
 ['histories','inputs'],'every number of portions and every two tokens between which a portion ends',
 'A second portion exists only for inputs above the memory limit; no test has one.',
 [Q+'path_processor.h',Q+'streaming_automaton.c',Q+'streaming_automaton.h',Q+'parallel_automata_execution.h'],[('StreamingContext hand-over',Q+'path_processor.h')])
p('J19','Every resource is released exactly once and never used afterwards',
 'Along every path through serialRun, parallelRun, parallelRunOpt, collectDataConstraints, createPathProcessor and freePathProcessor memory is released at most once and never accessed after release, nothing is read before it was set, and a file that does not exist yields no result (NULL) instead of an access to unset data. Loaded portions and their chunk copies, opened files, automata, record lists and filters, the scanner and the text made for a match by serial evaluation, condition texts of closed filtered elements and the temporaries of a filter evaluation are released by the time the interface call returns; only the result list (or learned table) is handed to the caller. Releasing a compiled query releases its table, names and context; joining the steps of a property path in a filter releases the joined nodes once and leaves no reference to them. Temporaries of the parallel workers and of merging, and what the path parser and the automaton construction allocate for themselves, are not covered.',
 ['inputs','histories'],'every history of input portions through the interface functions, including missing files, every token situation of serial evaluation, every short record sequence of filtering',
 'Tests run without memory checking and never pass a missing file.',
 [Q+'path_processor.h',Q+'predicate.h',Q+'lexing.h',Q+'file_partition.h'],[('create/destroy pairs','headers of JSONQuery')])
p('J20','Learned constraints map each token to the exact set of its positions',
 'While constraints are learned, every key and every array opening is recorded with the query position at which it was seen, and with the dead position when it lies outside the selected index range; a position is recorded at most once per key name (or for arrays) and never lost. Distinct key names have distinct entries and a key name never shares the entry of arrays. A lookup returns exactly the recorded positions of that key or of arrays, and reports the absence of an entry as such.',
 ['inputs','histories'],'every training document and every key name',
 'Tests learn from one file and do not look at the table.',
 [Q+'constraint.h',Q+'streaming_automaton.c'],[('addConstraintInfo, updateStateInfo',Q+'constraint.h')])
p('J21','Nesting stacks never write outside their storage',
 'However deep a document is nested, pushing onto the nesting or query stack never writes outside the storage of that stack, popping or reading an empty stack never reads outside it and yields the invalid marker, and push, pop and top otherwise behave as a last-in first-out stack of whole elements. Merging one nesting stack into another appends its elements bottom first.',
 ['inputs','histories'],'every sequence of stack operations and every nesting depth',
 'Tests never nest deeper than a few levels.',
 [Q+'stack.h'],[('bounds tests in push/pop/top',Q+'stack.h')])
p('J22','Serial and parallel evaluation deliver the same results',
 'For every document, query and number of cores, parallel evaluation (with or without learned constraints) delivers the same sequence of results as serial evaluation.',
 ['inputs','schedules','configurations'],'every document, query, chunk border, core count and learned table',
 'Tests run one file with fixed core counts and compare nothing.',
 [Q+'path_processor.h',Q+'parallel_automata_execution.h'],[('combine',Q+'parallel_automata_execution.h')])
p('J23','Results are complete for documents of any size',
 'The number and length of results, the number of chunks, units, query positions and tracked nodes are limited only by available memory: no document or query makes the engine write outside a fixed-size table.',
 ['inputs','configurations'],'every document, query and core count',
 'Tests stay far below every capacity.',
 [Q+'tuple_list.h',Q+'output.h',Q+'lexing.c',Q+'multi_stack.h',Q+'unit.h',Q+'constraint.h'],[('fixed capacities MAX_*','JSONQuery headers')])
p('J24','A query selects what JSONPath defines',
 'For every supported path expression and every JSON document the delivered results are exactly the values JSONPath selects, in document order.',
 ['inputs','programs'],'every supported path and every document',
 'Needs the composition of compilation, scanning, evaluation and filtering on all documents; tests check no result.',
 [Q+'path_processor.h','DFABuilder/src/dfa_builder.cpp'],[('serialRun',Q+'path_processor.h')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+'\n')
print(len(P))
