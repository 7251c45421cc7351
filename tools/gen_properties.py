import json
P=[]
CV='packages/swc-coverage-instrument/src/'
OX='packages/istanbul-oxide/src/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
IV=CV+'macros/instrumentation_visitor.rs'
CH=CV+'macros/instrumentation_counter_helper.rs'
SH=CV+'macros/instrumentation_stmt_counter_helper.rs'
NV=CV+'macros/create_instrumentation_visitor.rs'
FL=CV+'macros/visit_mut_for_like.rs'
CO=CV+'visitors/coverage_visitor.rs'
SW=CV+'visitors/switch_case_visitor.rs'
LO=CV+'visitors/logical_expr_visitor.rs'
SC=CV+'source_coverage/mod.rs'
IC=CV+'instrument/create_increase_counter_expr.rs'
IT=CV+'instrument/create_increase_true_expr.rs'
HC=CV+'utils/hint_comments.rs'
LR=CV+'utils/lookup_range.rs'
DO=CV+'coverage_template/create_coverage_data_object.rs'
FD=CV+'coverage_template/create_coverage_fn_decl.rs'
GS=CV+'coverage_template/create_global_stmt_template.rs'
FC=OX+'file_coverage.rs'
PL='packages/swc-plugin-coverage/src/lib.rs'
FIX='The fixtures instrument a few dozen small JavaScript files and compare the coverage of one execution each; '

p('C01','Every injected counter names a registered entry of the right kind',
 'Every counter the instrumenter puts into the program increments an entry that exists in the coverage object of that same file: a statement counter names a statement registered for that place, a function counter a function, and a branch (or branch-truth) counter a branch together with a path of that very branch. The counter always goes through the file\'s own coverage function, so running instrumented code never increments a missing entry (which would become NaN) nor somebody else\'s entry.',
 ['programs','configurations'],'every source program and option set: every counter expression emitted on any path of the instrumenter',
 FIX+'they sample some constructs, and a wrong id is often still a valid id in a small file, so nothing fails.',
 [IV,CH,SW,LO,IC,IT,SC],[('counter constructors and the id returned by registration',IC),('registration of statements, functions, branches, branch paths',SC)])
p('C02','No registered counter is lost on its way into the output',
 'Whenever the instrumenter registers a statement, function, or branch path in the coverage object, exactly one counter for it ends up in the emitted program: counters waiting to be placed before a statement are always handed to the enclosing statement list exactly once. An entry without a counter would be reported as never executed forever.',
 ['programs','configurations'],'every nesting of constructs and every path through the instrumenter that registers an entry',
 FIX+'counters are lost only for particular nestings (something counted inside a construct handled by a helper visitor) the fixtures do not contain.',
 [IV,CH,SH,SW,CO],[('pending counters collected by each visitor and drained by its parent',SH),('counter registration',SC)],
 [dict(name='pending counter list',meaning='statement counters to insert before the current statement',where=NV)])
p('C03','Instrumentation keeps the whole user program and visits each part once',
 'Removing the injected counters and wrappers from the output gives back exactly the original program: no user statement, expression, initializer, test, body or handler is dropped, duplicated or reordered. Every part of a construct that is not ignored is traversed exactly once, so nothing nested is left uninstrumented or instrumented twice.',
 ['programs'],'every construct, in every option and ignore state, with arbitrary children',
 FIX+'a dropped or doubly visited child shows up only for the construct/child combination concerned.',
 [IV,CH,SH,FL,SW,LO,CO],[('take/replace rewriting of each construct',IV),('wrapping of expressions with counters',CH)])
p('C04','Counters run at the right moment and preserve evaluation',
 'A statement counter runs immediately before its statement, a function counter first in the function body, a branch counter first in its branch arm; an expression is wrapped as "counter, expression" so the wrapped expression keeps its value; a function or class that takes its name from the variable it initializes is not wrapped. With logic reporting an operand is evaluated exactly once, into the temporary, before its truthiness is tested and its value is returned.',
 ['programs','configurations'],'every construct and option set; order of counter and user code on every path',
 FIX+'evaluation order and double evaluation are visible only with side effects, exceptions, or falsy/trivial operand values.',
 [IV,CH,SH,IC,IT,SW,FL],[('sequence and prepend construction',CH),('truthiness counter expression',IT)])
p('C05','Every executable construct is counted',
 'Outside ignored code, every statement of a counted kind (expression, return, throw, break, continue, if, switch, try, with, labelled, loop statements, variable initializers) gets exactly one statement counter, every function, method, accessor and arrow gets a function counter, and every if, conditional, switch, logical expression and default value becomes a branch of the right type with one counted path per arm (missing else included).',
 ['programs'],'every program; every syntactic construct the tables of the instrumenter cover, for every shape of its children',
 FIX+'they only cover selected constructs in selected contexts.',
 [IV,CH,SH,FL,SW,LO],[('per-construct visitor methods',IV)])
p('C06','Ignore hints suppress exactly the hinted code',
 'Code under an "istanbul ignore next" hint receives no statement, function or branch counter anywhere inside it; "ignore if" and "ignore else" drop only the named arm of an if and keep the rest counted; code without a hint is never suppressed. The hint is taken from the leading comment of the construct, exactly in the documented spelling (leading blanks allowed, and the keyword must end at a word boundary).',
 ['programs'],'every placement of hint comments on every construct, every comment text',
 FIX+'the hint fixtures use a handful of placements and texts.',
 [HC,NV,IV,FL,SW,LO,CO],[('hint lookup and regular expressions',HC),('scope entry/exit bookkeeping',NV)])
p('C07','Traversal state is restored after every construct',
 'After any construct has been processed, on every way out of it, the instrumenter\'s traversal context (the enclosing-construct stack and the current ignore scope) is exactly what it was before, so how a construct is instrumented depends only on the code enclosing it, not on what was processed earlier.',
 ['programs','histories'],'every visitor method and every exit path; any sequence of sibling constructs',
 FIX+'a leaked scope changes only the treatment of later siblings of particular kinds.',
 [NV,IV,FL,SW,LO,CO,SH],[('enter/exit pair around each construct',NV)],
 [dict(name='construct stack and ignore scope',meaning='context of the current node',where=NV)])
p('C08','Instrumenting never aborts',
 'For any syntactically valid program and any options the instrumenter finishes: shared coverage state is never borrowed again while it is mutably borrowed, and no reachable path runs into an unconditional abort such as an unimplemented branch.',
 ['programs','configurations'],'every program and option set; every call made while the shared state is borrowed',
 FIX+'a re-entrant borrow or an unimplemented arm is hit only by particular constructs.',
 [IV,CH,CO,NV,SW,LO],[('scoped borrows of the shared coverage object',CH)])
p('C09','Coverage ids are dense, unique and start at zero hits',
 'Statements, functions and branches are numbered 0,1,2,… independently in order of registration with no reuse, and registering one always creates the location entry and the zero hit counter under the same id. Recorded location, name and declaration data are the ones passed in, an unnamed function being called (anonymous_N) with its own number.',
 ['histories','programs'],'every sequence of registrations',
 'Unit tests register one or two entries; the claim is about every sequence and every argument.',
 [SC],[('registration methods',SC)],[dict(name='last ids',meaning='next id per kind',where=SC)])
p('C10','Branch paths, locations and hit slots stay aligned',
 'Adding a path to a branch appends its location and one zero hit slot (and one truth slot when that branch tracks truthiness) and returns the index of that very slot, so for each branch the number of locations equals the number of counters. Truth slots exist exactly for logical expressions when logic reporting is on.',
 ['histories','configurations'],'every sequence of branch registrations and path additions, with logic reporting on or off',
 'Unit tests add a single path.',
 [SC],[('branch path registration',SC)])
p('C11','Emitted data has no empty branches and is final',
 'Branches that ended up without any path are removed from the branch map, the hit map and the truth map together, nothing else is removed, and this pruning happens after all instrumentation and before the coverage data is emitted; nothing is registered afterwards.',
 ['programs','histories'],'every program; every order of registration, pruning and emission',
 'The unit test prunes one branch; ordering against emission is not tested.',
 [SC,CO,FD],[('pruning',SC),('template creation',CO)])
p('C12','The emitted coverage object mirrors the coverage data',
 'The JavaScript object literal placed in the output carries every part of the coverage data under the standard istanbul property names: flags, path, statement/function/branch maps with start/end line/column, names, declarations, types and locations, hit maps, optional truth map, and optional input source map with all its fields. Each value comes from the field it is named after.',
 ['inputs','programs'],'every coverage data value, including all optional parts present or absent',
 'Unit tests compare a handful of objects in which many fields hold the same value.',
 [DO,OX+'types.rs',OX+'range.rs',OX+'source_map.rs',CV+'constants/idents.rs'],[('object construction',DO)])
p('C13','User-controlled strings are always properly escaped',
 'File paths, source-map strings, the coverage variable name and other externally supplied text enter the generated code only as string values that the code printer escapes, never as preformatted source text or identifiers, and the debug comment cannot be terminated early by its content. So no path, source or option content can break or alter the emitted program.',
 ['inputs','configurations'],'all strings: quotes, backslashes, newlines, comment terminators',
 'Tests use plain paths.',
 [DO,FD,GS],[('string literal construction',DO)])
p('C14','The coverage hash covers all data and guards re-registration',
 'The emitted hash is computed from the complete serialized coverage data, is the same in the object and in the registration function, and the registration function replaces an existing entry for the path exactly when there is none or its hash differs, so accumulated hits survive re-evaluation of unchanged code and never mix with changed code.',
 ['inputs','histories'],'every coverage data value; every sequence of evaluations of instrumented modules',
 'Unit tests pin hashes of a few objects; re-registration with same/different hash is not exercised.',
 [DO,FD],[('hash computation',DO),('registration template',FD)])
p('C15','Output depends only on the program, its path and the options',
 'Instrumenting the same program with the same file name and options always yields the same output: no clock, randomness, environment, address or unordered-container iteration takes part, and nothing carries over from files instrumented earlier in the same process.',
 ['histories','inputs','schedules'],'every history of earlier transforms in the process; every run',
 'Each test instruments one file per process and runs once.',
 [FD,NV,CO,SC,HC],[('file-specific names derived from the file path',FD)])
p('C16','The registration function stores coverage under the configured variable',
 'The output contains one coverage function, named after a hash of the file name, that obtains the global object, uses the configured coverage variable, stores the initial data under the file\'s path, thereafter just returns that stored object, and is called once at the top of the program so untouched files are still reported.',
 ['configurations','programs'],'every path, coverage variable and program',
 'Fixtures use one variable name and evaluate one file.',
 [FD,GS,CO,CV+'coverage_template/create_assignment_stmt.rs'],[('coverage function template',FD),('insertion at top',CO)])
p('C17','Directive prologues stay directive prologues',
 'Directives ("use strict", "use client", …) at the start of a module, script or function body remain in front of anything injected and get no counter, so strictness and directive-driven behaviour of the user\'s code do not change.',
 ['programs'],'every directive text, any number of directives, every function-like construct',
 FIX+'only a module-level directive is covered.',
 [CO,IV,CH,SH],[('directive detection',CO),('function body prologue',CH)])
p('C18','Recorded locations are those of the counted construct',
 'The source range recorded for each statement, function, branch and branch path is computed from the span of that very construct (function: its name or itself as declaration, its body as location; branch path: the arm), start from the span start and end from its end, line and column not mixed up; synthesized nodes without a span are recorded as an empty range.',
 ['programs'],'every construct and every span',
 FIX+'ranges are compared only where a fixture happens to, and many are on one line.',
 [LR,IV,CH,SW,SC,OX+'range.rs'],[('span to range conversion',LR)])
p('C19','ignoreClassMethods applies to every named method-like construct',
 'A class method, object method, getter, setter or named function expression whose name is listed in the ignore-methods option receives no counters at all and everything inside it is left untouched, and a construct whose name is not listed is never skipped on account of that option. The comparison is on the whole name.',
 ['configurations','programs'],'every option list and every method-like construct',
 FIX+'the option is tested on few constructs.',
 [IV],[('name check before function instrumentation',IV)])
p('C20','Logic reporting only adds truth counters',
 'Turning on logic reporting changes nothing about which statements, functions, branches and branch paths are counted or where; it adds a truth counter for each logical-expression operand and nothing else. The truth counter increments only for a truthy value that is not an empty array or empty plain object.',
 ['configurations','programs'],'every program with the option on and off',
 FIX+'each fixture runs in one mode.',
 [CH,IT,IV,SC],[('leaf handling of logical expressions',CH),('non-trivial truth test',IT)])
p('C21','A file-level ignore leaves the program untouched',
 'A program carrying an "istanbul ignore file" comment at its start or end is returned without any counter, coverage function or other change, and a program without one is always instrumented. The comment must be in the documented form.',
 ['programs'],'every program and comment placement at the file boundaries',
 'One fixture.',
 [HC,CO],[('file hint check',HC)])
p('C22','Merging file coverage adds hits for the same location and unions the rest',
 'Merging two coverage objects of a file keeps every location of either exactly once, keyed by its full position (start and end, line and column); hits of a location present in both are summed (branch hits per path, missing paths counting as zero), and a location present in one keeps its hits.',
 ['inputs','histories'],'all pairs of coverage objects',
 'Unit tests merge a few hand-written objects.',
 [FC],[('merge helpers',FC)])
p('C23','After a merge, hit maps and location maps share their keys',
 'After merging, the statement, function and branch hit maps have exactly the keys of the corresponding location maps, numbered consistently, and the branch-truth map (when either side has one) is aligned with the merged branch numbering; merging never aborts on valid coverage objects.',
 ['inputs','histories'],'all pairs (and sequences) of valid coverage objects, with and without truth maps',
 'Unit tests merge a few objects with equal truth maps.',
 [FC],[('merge of branches and branch truth',FC)])
p('C24','Placeholder coverage never overrides real coverage',
 'A coverage object flagged as a placeholder for an unexecuted file contributes nothing when merged into real data and is replaced completely when real data is merged into it.',
 ['inputs','histories'],'all pairs of coverage objects, either, both or none a placeholder',
 'Two unit tests with fixed data.',
 [FC],[('merge entry',FC)])
p('C25','Summaries count every entry once',
 'A file summary\'s total and covered values per category are the number of its entries and of those with at least one hit (branches and branch truth: per path; lines: from line coverage), the truth category exists exactly when truth data does, and merging summaries adds each category\'s total, covered and skipped counts and recomputes its percentage from the new counts. A summary is empty exactly when it has no lines.',
 ['inputs'],'all coverage objects and summaries',
 'Unit tests sample a few numbers; categories often hold equal values.',
 [FC,OX+'coverage_summary.rs',OX+'coverage_map.rs'],[('totals',FC),('summary merge',OX+'coverage_summary.rs')])
p('C26','Line coverage is the maximum over statements starting on the line',
 'A line is reported with the highest hit count among statements starting on it, and the uncovered lines are exactly those reported with zero hits.',
 ['inputs'],'all coverage objects, in any statement order',
 'One unit test.',
 [FC],[('line coverage',FC)])
p('C27','Resetting hits zeroes every counter and nothing else',
 'Resetting a coverage object sets all statement, function, branch and branch-truth hits to zero and keeps all maps and the number of branch paths.',
 ['inputs'],'all coverage objects',
 'One unit test with fixed data.',
 [FC],[('reset',FC)])
p('C28','A coverage map holds one merged entry per path',
 'Adding coverage for a file already in the map merges it into the existing entry and otherwise stores a copy under its path; merging maps and building a map from many objects do the same for each, filtering keeps exactly the entries accepted by the predicate, and the overall summary is the merge of all file summaries.',
 ['inputs','histories'],'all sequences of map operations',
 'Unit tests use empty coverage objects.',
 [OX+'coverage_map.rs'],[('map operations',OX+'coverage_map.rs')])
p('C29','Coverage JSON uses the istanbul names both ways',
 'Serialized coverage data uses the istanbul JSON property names and branch-type names, bT, inputSourceMap and the file, sourceRoot and sourcesContent of the source map are omitted when absent, every optional member may be missing when read, unknown members are ignored, and reading uses exactly the names that writing produces.',
 ['inputs'],'every field and every branch type',
 'Few values are ever serialized in tests, and never read back.',
 [FC,OX+'types.rs',OX+'range.rs',OX+'source_map.rs'],[('serde derives and attributes',OX+'types.rs')])
p('C30','Branch coverage per line counts all branch paths of the line',
 'For each line with branches, the result gives the number of paths with hits, the number of paths in total, and their ratio as a percentage, taken over all branches recorded for that line (the explicit line if present, else the start of its location).',
 ['inputs'],'all coverage objects',
 'One unit test.',
 [FC],[('branch coverage by line',FC)])
p('C31','Excluded files pass through untouched',
 'When the file name, with separators normalized, matches one of the configured exclude patterns, the program is returned unmodified and nothing is instrumented; otherwise, and when the patterns are absent or invalid, it is instrumented.',
 ['configurations','inputs'],'every file name and pattern list',
 'The unit test only covers path normalization.',
 [PL],[('exclude check',PL)])
p('C32','Plugin options are honoured and never crash the build',
 'Every documented option is read under its camelCase name, missing options take the documented defaults, unknown options are ignored, an unreadable configuration falls back to the defaults instead of aborting, a missing file name becomes a fixed placeholder, and each option (apart from compact, which is accepted without effect) reaches the code that acts on it; the debug comment carries the coverage data as JSON.',
 ['configurations'],'every configuration text',
 'Fixtures use few options, never invalid ones.',
 [PL,CV+'options/instrument_options.rs',CO],[('configuration parsing',PL)])
p('C33','Percentages never overstate coverage',
 'The percentage of covered among total entries is rounded down to two decimals for every pair of counts, is 100 for empty categories, and is never 100 unless everything is covered.',
 ['inputs'],'all pairs covered ≤ total of 32-bit counts',
 'Two pairs are tested.',
 [OX+'percent.rs'],[('percent',OX+'percent.rs')])
p('C34','Instrumented programs behave like the originals',
 'Executing the instrumented program yields the same observable results as the original for every program and input, apart from the coverage data.',
 ['programs','inputs'],'all programs and all of their executions',
 'Tests run a few programs.',
 [IV,CH,CO],[('whole instrumenter',IV)])
p('C35','Hit counts equal actual executions',
 'After any execution each hit count equals the number of times its statement, function or branch path was executed.',
 ['programs','inputs','schedules'],'all programs and executions, including generators, async code and exceptions',
 'Fixtures compare one execution each.',
 [IV,CH],[('whole instrumenter',IV)])
p('C36','Fresh and copied coverage values hold what they were made from',
 'Coverage data made for a file carries that path, is no placeholder, has no entries and no source map, and has (empty) branch-truth data exactly when it was asked for; a copy of any coverage value equals the original in every part; a range, branch, total or summary put together from given parts holds each part under its own name, and a default range or total is all zeros.',
 ['inputs'],'all argument values and all coverage values',
 'Tests build a few objects and look at some of their parts.',
 [FC,OX+'coverage_summary.rs',OX+'types.rs',OX+'range.rs',OX+'coverage.rs',SC],[('constructors and copies',FC)])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
