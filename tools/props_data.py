prop('C01', 'Outside text stays one literal word in every shell command',
     'Whenever blogc-make or blogc-git-receiver hands a command line to a shell, every piece of it that comes from a configuration file, a pushed repository, a directory or file name, an environment variable or the command line reaches the command as (part of) exactly one literal shell word. No value of such a piece can add, remove or alter another word or start another command.',
     ['inputs', 'configurations'], 'all contents of blogcfiles, receiver settings, refs, paths, environment variables and tags, for every command the two programs build',
     'The tests run fixed commands with benign names; the property quantifies over every byte string at every interpolation point of every command.',
     [M + 'exec.c', M + 'httpd.c', M + 'settings.c', G + 'pre-receive.c', G + 'post-receive.c', G + 'shell.c', K + 'utils.c'],
     [('shell quoting helper', K + 'utils.c'), ('command builder', M + 'exec.c'), ('system() calls of the hooks', G + 'pre-receive.c')],
     'interprocedural string-provenance (taint) analysis with a shell lexical state',
     'Every system/popen/exec-of-a-shell site is found; the command string is decomposed into literals, quoted words, numbers and raw text through format strings, string builders, callbacks and callers. Trusts: the shell grammar model; realloc/strcpy style low-level construction counts as raw.')
prop('C02', 'The deploy login shell runs nothing but the three git services',
     'For every command string, the receiver in shell mode either executes git-shell with one of git-receive-pack, git-upload-pack or git-upload-archive and the single quoted repository path of a well-formed request, or it reports an error, executes nothing and exits with failure. Nothing is created, removed or executed before the command has been validated.',
     ['inputs'], 'all command strings (SSH_ORIGINAL_COMMAND or -c argument)',
     'The shell tests send a handful of commands; the guarantee is about every other string.',
     [G + 'shell.c', G + 'shell-command-parser.c', G + 'main.c'],
     [('command validation', G + 'shell-command-parser.c'), ('execution', G + 'shell.c')],
     'must-pass-through (typestate) analysis of effects behind validation, plus transition analysis of the command recogniser',
     'Decides that validation dominates every effect, which service names can be recognised, and what is interpolated into the executed command; the exact set of accepted repository spellings is not decided.')
prop('C03', 'The web server never serves a file outside its document root',
     'Every file whose content is sent lies, after resolving symbolic links and dot-dot components, inside the document root, whatever the request path and its percent-encoding. A request that resolves elsewhere gets an error response without file content.',
     ['inputs', 'configurations'], 'all request paths and encodings, all directory layouts and symbolic links below and beside the document root',
     'Unit tests cover decoding helpers only; no test drives the containment decision.',
     [R + 'httpd.c', R + 'httpd-utils.c', R + 'mime.c'],
     [('canonicalisation and prefix comparison', R + 'httpd.c')],
     'path-sensitive typestate on file names: canonicalised, compared with the canonical root on a component boundary, then opened',
     'Decides that each opened name is the result of path canonicalisation and that the containment comparison (prefix plus separator boundary) holds on every path to the open; races with concurrent filesystem changes are out of scope.')
prop('C04', 'Each request gets exactly one complete HTTP response',
     'On every path through request handling after a request line has arrived, exactly one response is started, its status line, headers and body come in that order, and the announced body length equals the number of body bytes handed to the socket. The status recorded in the log is the status sent, and only GET requests are ever answered with content.',
     ['inputs', 'fault_sequences'], 'all request lines and all failures of file, memory and directory operations while handling them',
     'No test drives the request handler; only its helpers are unit-tested.',
     [R + 'httpd.c'], [('request handler', R + 'httpd.c')],
     'path-sensitive typestate over the response (none, started, complete) with value identity of status and length',
     'Counts response starts on every path; does not decide socket-level delivery.')
prop('C05', 'Serving files never changes the filesystem and starts no program',
     'No request, however malformed, makes the web server create, modify, truncate, rename or delete a file, or run a program. The same holds for blogc itself, whose only write is the requested output.',
     ['inputs'], 'all requests, and all sources, templates and options of blogc',
     'Absence of an effect on every input cannot be sampled.',
     [R + 'httpd.c', R + 'main.c', B + 'main.c'], [('effect-free call graph', R), ('single output write', B + 'main.c')],
     'effect analysis (who-may-call) over the resolved whole-program call graph including callbacks',
     'Sound for calls to named library functions; open modes are evaluated as constants.')
prop('C06', 'No request leaks a socket, file, memory or worker slot of the server',
     'Whatever is requested and whatever fails while handling it, the server closes the connection and every file it opened, frees the memory it allocated for the request and makes the worker slot available again. The same holds for every connection that cannot be handed to a worker.',
     ['inputs', 'fault_sequences', 'histories'], 'all requests, all failure points, arbitrarily long histories of requests',
     'Leaks on error paths need the failure to be injected; the tests never start the server.',
     [R + 'httpd.c', R + 'httpd-utils.c', R + 'mime.c'], [('cleanup of the request handler', R + 'httpd.c')],
     'path-sensitive resource typestate (acquire/release/escape) over the handler, accept loop and their helpers',
     'Acquire/release pairs of malloc-family, project allocators, open/socket/accept/stdio; ownership transfers are recognised by flow to return values, parameters and stores.')
prop('C07', 'A deploy replaces the live site only after a successful build',
     'The live link of a site is changed only after the new build has finished successfully, and the previous build is deleted only after the link points to the new one. When any step fails the previous build is kept, the failed build is removed and the push is rejected with a failing status.',
     ['fault_sequences', 'crash_points'], 'every failure point of the hook: extraction, build tools, link changes, directory operations',
     'The hook tests run the success path and one failing build; ordering on all failure paths is not sampled.',
     [G + 'pre-receive.c'], [('ordering of build, link change and removal', G + 'pre-receive.c')],
     'path-sensitive typestate over the hook: build status, link removal/creation, deletions, exit status',
     'Facts about results of system/symlink/unlink are followed along every path; the atomicity of the two-step link replacement is reported separately.')
prop('C08', 'Recursive deletion and cleaning stay inside their tree',
     'Removing a build or temporary directory never touches anything outside that directory: symbolic links inside it are removed as links, never followed. Cleaning a site removes only files its build rules would produce and directories left empty by that.',
     ['inputs', 'histories'], 'all directory contents, including any symbolic links a pushed repository or a build can create',
     'The tests delete trees without links.',
     [G + 'pre-receive.c', M + 'exec-native.c', M + 'rules.c'], [('recursive removal', G + 'pre-receive.c'), ('clean', M + 'rules.c')],
     'typestate: recursion and directory listing only behind a link-aware type test; provenance of every deleted path',
     'Decides which stat variant guards recursion and what paths reach unlink/rmdir; races are out of scope.')
prop('C09', 'Temporary files and directories are removed on every way out',
     'The temporary directory a deploy extracts into and the temporary feed template a site build writes are removed whenever the program leaves the operation that created them, on success and on every failure.',
     ['fault_sequences'], 'every failure point after the temporary object was created',
     'The tests only see the success path.',
     [G + 'pre-receive.c', M + 'atom.c', M + 'ctx.c'], [('cleanup label', G + 'pre-receive.c'), ('context destructor', M + 'ctx.c')],
     'path-sensitive resource typestate (created name must reach a removal or an owner whose destructor removes it)',
     'Process kill by signal is out of scope.')
prop('C10', 'Code, descriptions and header texts are always HTML-escaped',
     'The text of code spans and code blocks and the automatic description and first-header variables never carry a raw markup character from the source into the output: &, <, >, double and single quote each appear as their entity.',
     ['inputs'], 'all source texts',
     'Unit tests compare a few documents; the guarantee is per character and per construct.',
     [B + 'content-parser.c', B + 'source-parser.c'], [('entity encoder', B + 'content-parser.c')],
     'taint analysis from source slices to output builders with the entity encoder as sanitizer, plus exhaustiveness of the encoder',
     'Construct is identified by the HTML tag literals around the text.')
prop('C11', 'Outside text is never a printf format and formats match their arguments',
     'Every formatted message and command uses a fixed format, and every conversion in it consumes an argument that is passed and has the type the conversion reads. No text from a source, template, settings file or path can act as a format.',
     ['inputs'], 'all inputs; all printf-like call sites including project wrappers',
     'Mismatches are undefined behaviour that happens to work on the test machine.',
     [K + 'utils.c', K + 'error.c', B, M, R, G], [('printf-like wrappers', K + 'utils.c')],
     'format-string analysis over the IR with wrapper discovery',
     'strftime formats, which users provide by design, are excluded.')
prop('C12', 'Invalid UTF-8 is always rejected, valid UTF-8 never',
     'Every source, template, settings file and command-line variable is checked as UTF-8 before it is used, and input that is not well-formed according to RFC 3629 leads to an error. Well-formed input, with or without a byte order mark, is never rejected for its encoding.',
     ['inputs'], 'all byte strings, at every place text enters a program',
     'The tests try a few sequences; the decision is over all byte sequences and all entry points.',
     [K + 'utf8.c', K + 'file.c', B + 'main.c', M + 'settings.c'], [('validation automaton table', K + 'utf8.c'), ('reading with validation', K + 'file.c')],
     'automaton equivalence on the table and decoder extracted from the IR; must-pass-through of validation between reading and parsing',
     'The decoder loop is abstracted to a transition function by constant propagation over all 256 bytes and reachable states.')
prop('C13', 'Only complete, properly nested templates are accepted',
     'A template is accepted only if every statement in it is complete and every block, conditional and iterator is closed by its own closing statement in the right order, with at most one else per conditional; everything else is an error. The text between and after statements of an accepted template is kept. Rendering an accepted template therefore never runs past its end.',
     ['programs', 'inputs'], 'all templates with up to three statements open at a time (four in the thorough check)',
     'The parser tests list some bad templates; acceptance is a property of all of them.',
     [B + 'template-parser.c', B + 'renderer.c'], [('statement automaton and open-construct bookkeeping', B + 'template-parser.c')],
     'dataflow: product of the parser loop (constant propagation over state and byte class) with the pushdown automaton of open statements',
     'Decides acceptance at the end of the text and the pairing of openers and closers.')
prop('C14', 'Each template operator and scope means what its name says',
     'The comparison operators ==, !=, <, >, <= and >= select content exactly when the string comparison of the operands has that relation, ifdef and ifndef are complementary, and a variable is looked up first in the current source and then globally. Variables of a source are visible only inside the blocks that belong to it. An entry block is rendered only for a single entry, the listing blocks only for listings, listing_empty only when there are no sources, and listing_entry only with a source given for it.',
     ['programs', 'inputs'], 'all templates and variable sets',
     'Tests exercise each operator on a few operands; outcome and scope hold for all orderings and nestings.',
     [B + 'template-parser.c', B + 'renderer.c'], [('operator mapping', B + 'template-parser.c'), ('evaluation', B + 'renderer.c')],
     'operator table agreement between parser and renderer by constant propagation over the three comparison outcomes; scope typestate',
     'String comparison enters only through its sign, a finite set of orderings.')
prop('C15', 'Variables computed by blogc cannot be forged by a source or option',
     'A source file can define only variables whose name is well-formed, and none of the names that blogc itself sets for a source or a listing; a definition attempt is an error (FIRST_HEADER, DESCRIPTION and TOCTREE, which the manual allows sources to define, excepted). Command-line and settings-file global names are checked with the same name grammar.',
     ['inputs'], 'all source files, options and settings files',
     'Tests try some reserved names; the tables must agree for all names the program sets.',
     [B + 'source-parser.c', B + 'loader.c', B + 'main.c', M + 'settings.c'], [('reserved name list', B + 'source-parser.c'), ('computed variables', B + 'loader.c')],
     'cross-check of the reserved-name table with every constant key the program inserts; character-class analysis of the name loops',
     'Keys are resolved as string constants.')
prop('C16', 'Dates are accepted exactly in the documented forms',
     'A date is accepted only if it has one of the four documented forms with every field complete and within its calendar range; anything else is reported as an error and never silently reinterpreted. The year, month, day and time shown are the declared ones, whatever the timezone of the system.',
     ['inputs'], 'all strings',
     'Tests cover a list of strings; acceptance quantifies over all.',
     [B + 'datetime-parser.c'], [('date automaton', B + 'datetime-parser.c')],
     'abstract interpretation of the date parser with character sets and linear forms over the characters',
     'All texts; the day of February is decided for nine representative years.')
prop('C17', 'Every failure ends in a failing exit status',
     'When a program reports an error, it terminates with a non-zero exit status, and a build or deploy step that failed makes every program above it fail as well. A successful status is only returned after the requested work was completed.',
     ['fault_sequences', 'inputs', 'configurations'], 'all failure points and inputs of the four programs',
     'The script tests check a few failing runs; the property is about every error path.',
     [B + 'main.c', M + 'main.c', M + 'rules.c', M + 'exec.c', M + 'exec-native.c', R + 'main.c', R + 'httpd.c', G + 'pre-receive.c', G + 'shell.c', G + 'main.c'],
     [('exit status variables', B + 'main.c'), ('rule results', M + 'rules.c')],
     'path-sensitive typestate: an error report on a path obliges the function to return a failure value that its callers propagate',
     'Error reports are recognised by an "error:" message to stderr or the error printer; warnings do not count.')
prop('C18', 'A failed operation yields an error and no partial result',
     'An operation that can fail either returns its complete result and no error, or reports exactly one error and returns nothing. Callers never go on with the result of an operation that reported an error, and never drop an error silently.',
     ['inputs', 'fault_sequences'], 'all inputs that make a parser, loader or file operation fail',
     'Tests look at chosen failing inputs; the contract holds on every path.',
     [B, K, M], [('error out-parameter', K + 'error.c')],
     'path-sensitive contract analysis of the error out-parameter at every function and call site',
     'Callee contracts are verified function by function and assumed at call sites.')
prop('C19', 'Read, write and file-operation failures are never ignored',
     'A failed or short read, write, open, directory or link operation on user data is noticed and reported as an error. No output, copy or settings file is silently truncated or taken for complete.',
     ['fault_sequences'], 'all I/O failures at every call',
     'Fault injection is absent from the tests.',
     [K + 'file.c', K + 'stdin.c', B + 'main.c', M + 'exec-native.c', M + 'atom.c', M + 'exec.c', G + 'pre-receive.c'],
     [('I/O calls', K + 'file.c')],
     'result-use analysis of every I/O call: the failure value must reach a branch whose failure side reports',
     'The set of must-check functions and the exempt call sites (with reason) are frozen tables.')
prop('C20', 'blogc touches the output file only after rendering succeeded',
     'The output file is opened for writing only after all sources and the template were read, validated and rendered without error, and it is the only file blogc ever writes. A failing run leaves an existing output file unchanged.',
     ['inputs', 'fault_sequences'], 'all invocations',
     'Tests never compare an old output after a failing run.',
     [B + 'main.c'], [('order of rendering and opening', B + 'main.c')],
     'path-sensitive typestate on the program entry: open-for-write only in the state "rendered, no error"',
     'Covers open failures before writing; a failing write itself is covered by the I/O property.')
prop('C21', 'No memory is used after it was released, or released twice',
     'No input and no failure makes a program use or release memory that was already released, or release memory it does not own as a whole.',
     ['inputs', 'fault_sequences'], 'all inputs and failure paths',
     'Needs the failing input and a memory checker; the tests reach few cleanup paths.',
     [B, K, M, R, G], [('ownership conventions of the string, list, trie and error helpers', K + 'utils.c')],
     'path-sensitive ownership typestate (owned, freed, interior) with function summaries',
     'Per function with summaries of who frees and who returns owned memory; aliasing through containers is followed one level.')
prop('C22', 'Optional results are never dereferenced unchecked',
     'A lookup, environment read, library call or option argument that can yield nothing is tested before it is used as text or object. No input, environment or argument list makes a program dereference a missing value.',
     ['inputs', 'configurations', 'fault_sequences'], 'all argument lists, environments, settings and library failures (allocation failure excepted: it ends the program)',
     'Tests provide the values; absence of each is not sampled.',
     [B, K, M, R, G], [('NULL checks', B + 'main.c')],
     'path-sensitive nullness analysis of optional results with callee nullness summaries',
     'May-be-NULL sources and must-not-be-NULL sinks are frozen tables plus inferred summaries.')
prop('C23', 'Parsers never read or copy outside the text they were given',
     'While parsing a source, template, settings file, file list, request or date, no character outside the given text is read, every extracted piece has non-negative length and lies inside it, and nothing is written outside the buffer reserved for it.',
     ['inputs'], 'all texts including empty ones, mixed line endings and truncated constructs',
     'Needs memory-checker runs on adversarial texts.',
     [B + 'content-parser.c', B + 'template-parser.c', B + 'source-parser.c', B + 'filelist-parser.c', K + 'config-parser.c', G + 'shell-command-parser.c', G + 'pre-receive-parser.c'],
     [('start/current/end bookkeeping', B + 'content-parser.c')],
     'abstract interpretation with a relational (zone) domain, partitioned by automaton state',
     'Index relations are proved per automaton state; loops by widening. Texts are assumed terminated; values read from structures are not followed.')
prop('C24', 'Child processes are drained, reaped and their failure is seen',
     'For every command blogc-make runs, the pipe ends are closed on every path, output and error streams are both consumed without waiting on one while the other fills, the child is waited for, and its failure, including death by a signal, is returned as failure.',
     ['schedules', 'fault_sequences'], 'all child behaviours (amount and order of output, exit, signal) and failures of the system calls involved',
     'The tests replace the execution by mocks.',
     [M + 'exec.c', K + 'compat.c'], [('command execution', M + 'exec.c')],
     'path-sensitive typestate over pipe ends, process id and status',
     'Decides closing, reaping, absence of sequential draining; timing is not decided.')
prop('C25', 'An output is rebuilt whenever anything it was made from is newer',
     'For every build rule, each file handed to the build of an output (sources, listing entry, template, settings) is also among the files whose age decides whether that output is rebuilt, and a newer or missing one always triggers the rebuild.',
     ['histories'], 'all histories of edits between builds, for all rules',
     'The tests build from scratch or mock the decision.',
     [M + 'rules.c', M + 'exec.c'], [('rebuild decision', M + 'rules.c')],
     'def-use agreement between the arguments of the build and of the rebuild decision at every rule; path analysis of the decision',
     'Include-like dependencies do not exist in the input formats.')
prop('C26', 'Rules, full build and clean agree on the set of outputs',
     'Every rule that produces files lists exactly these outputs, the full build runs every such rule, and clean considers the outputs of every such rule. The list of outputs and the build of a rule are enabled by the same conditions.',
     ['configurations'], 'all blogcfiles',
     'Agreement between sibling functions over all configurations is not sampled.',
     [M + 'rules.c'], [('rule table', M + 'rules.c')],
     'sibling cross-check over the rule table and the functions stored in it',
     'Structural agreement; file-name equality is decided by both sides consuming the same list.')
prop('C27', 'A broken settings file never stops or damages watching and serving',
     'When the settings file cannot be loaded during a watch or serve session, the error is reported, the last good configuration stays in use and a later correction is picked up. A reload releases the replaced configuration exactly once.',
     ['histories', 'fault_sequences'], 'all sequences of edits during a session',
     'No test runs the reloader.',
     [M + 'ctx.c', M + 'reloader.c', M + 'httpd.c'], [('reload', M + 'ctx.c')],
     'path-sensitive typestate over the context slot',
     'Decides what the slot holds on each exit.')
prop('C28', 'Data shared between threads is accessed only under its lock',
     'State that more than one thread uses is read and written only while its lock is held, every lock taken is released on every path, and signal handlers do only what is allowed inside a handler.',
     ['schedules'], 'all interleavings of threads and signals',
     'Races do not show in the tests, which are single-threaded.',
     [R + 'httpd.c', M + 'reloader.c', M + 'httpd.c'], [('locks', M + 'reloader.c')],
     'lockset analysis, lock pairing, and async-signal-safe call closure of handlers',
     'Thread entry points and handlers are found by their registration calls.')
prop('C29', 'Sorting uses a consistent order for every pair of values',
     'Every comparison given to the sort is a consistent ordering for all values: exchanging the operands exchanges the answer, equal values compare equal and no difference is lost or wraps around.',
     ['inputs'], 'all pairs of dates and names',
     'Tests sort a few close dates.',
     [B + 'loader.c', K + 'sort.c', M + 'rules.c'], [('date comparison', B + 'loader.c')],
     'symmetry and narrowing analysis of comparator functions found by their use',
     'Comparators are analysed as expressions over the two operands.')
prop('C30', 'Rendering depends on nothing but its inputs',
     'The rendered output is a function of sources, template, options and the documented environment-dependent variables: no time, randomness, process identity, environment, or uninitialised value reaches it otherwise, and neither do earlier runs.',
     ['histories', 'configurations'], 'all runs with equal inputs',
     'Equality of two runs on one machine does not show dependence on time or environment.',
     [B + 'renderer.c', B + 'funcvars.c', B + 'sysinfo.c', B + 'rusage.c', B + 'loader.c'], [('documented variables', B + 'funcvars.c')],
     'effect analysis: non-deterministic library calls are reachable only through the documented variables',
     'Uninitialised reads are decided for locals.')
prop('C31', 'Parsers always finish',
     'Parsing a text, list, template or request finishes for every input, in a number of steps bounded by the length of the text for each pass: no input makes a parser repeat a step without consuming input.',
     ['inputs'], 'all inputs',
     'A hang shows only on the input that triggers it.',
     [B, K, G, R], [('index advance in the parser loops', B + 'content-parser.c')],
     'loop progress analysis: every cycle of every loop advances a bounded counter, list cursor or input stream',
     'Loops of all programs; loops that wait for events are recognised by the call that waits. Rendering and the exchange sort are decided in part.')
prop('C36', 'No value is used before it was given',
     'Whatever the input and whichever path is taken, no program uses a local variable, a member of a local structure or a member of a newly allocated object before giving it a value: no decision, address, call argument, stored value or result depends on what the memory held before.',
     ['inputs', 'histories'], 'all paths of all functions',
     'What the memory held before is often zero in a test, so that an unset value does no visible harm there.',
     [B, K, G, R, M], [('time structure filled in', B + 'datetime-parser.c'), ('file contexts built member by member', M + 'ctx.c')],
     'path-sensitive use-before-set analysis: variables compiled to start with a recognisable pattern, members of new objects tracked by offset and tag',
     'An out parameter counts as set after the call that may set it; elements of arrays are not told apart; members no code reads are ignored.')
prop('C37', 'No client can stop the web server',
     'Whatever a client sends and whenever it closes its connection, the web server keeps accepting and answering connections: no signal caused by a client ends it, nothing in the handling of a request ends the process, and the accept loop is left only when accepting a connection or starting or joining a worker thread fails.',
     ['inputs', 'histories', 'schedules'], 'all requests, and connections closed at any moment',
     'The tests never run the server.',
     [R + 'httpd.c', R + 'main.c', R + 'mime.c', R + 'httpd-utils.c'], [('accept loop', R + 'httpd.c'), ('ignored SIGPIPE', R + 'main.c')],
     'signal disposition on every path to the server; call closure of the worker threads; origins of the conditions on which the accept loop is left',
     'Running out of memory ends the process by design and is allowed. Crashes by memory errors are decided by C01, data races by C28.')
prop('C38', 'Settings mean what the manual says, wherever they are used',
     'Every setting of the blogcfile has the documented default when it is not given and exactly the given value when it is, at every place where it is used; every rule hands blogc the documented variables with values from its own settings, order, sorting and page size included; a blogcfile without a required variable is refused.',
     ['configurations', 'inputs'], 'all blogcfiles and all rules',
     'Tests load a few blogcfiles and never look at the arguments of the programs run.',
     [M + 'settings.c', M + 'rules.c', M + 'ctx.c', M + 'exec.c', K + 'config-parser.c'], [('table of defaults', M + 'settings.c'), ('variables of each rule', M + 'rules.c')],
     'comparison of constant tables and string keys with the manual; value-origin analysis of settings and of the variables each rule passes, on every path; truth table of the order and sort conditions',
     'The documented tables come from the manual pages in the repository\'s text, written down in the check.')
prop('C32', 'Content is not lost because a text lacks a final newline',
     'A source, settings file or template means the same with and without a newline at its very end: every character belongs to the parsed result in both cases.',
     ['inputs'], 'all texts ending at any point of any construct',
     'Tests end most inputs with a newline.',
     [B + 'content-parser.c', B + 'source-parser.c', B + 'template-parser.c', K + 'config-parser.c'], [('end-of-input handling per automaton state', B + 'content-parser.c')],
     na='equality of two parses is a relational property of runtime values; the per-state end-of-input handling is not uniform enough in this code to state as a structural rule without false alarms')
prop('C33', 'Pagination numbers are right for every page size and count',
     'The first, last, previous, next and current page numbers and the entries listed on a page agree with the number of matching sources for every page size and page.',
     ['inputs'], 'all numbers of sources, page sizes and page numbers',
     'Tests use a few sizes.',
     [B + 'loader.c'], [('page arithmetic', B + 'loader.c')],
     na='quantifies over numerical results of floating-point arithmetic; no clause of it is visible in the shape of the code')
prop('C34', 'Variable maps return exactly what was stored',
     'Looking up a name in a variable map returns the value most recently stored under exactly that name and nothing for any other name, for all names including prefixes of each other.',
     ['histories', 'inputs'], 'all sequences of insertions and lookups',
     'Tests insert a few words.',
     [K + 'utils.c'], [('trie', K + 'utils.c')],
     na='functional correctness of a linked data structure over all histories; needs a heap invariant proof, not a static shape rule')
prop('C35', 'Markup is converted to the documented HTML',
     'Every construct of the source language is converted to the HTML the manual describes, for every nesting of constructs.',
     ['inputs'], 'all source texts',
     'Tests compare chosen documents.',
     [B + 'content-parser.c'], [('content automaton', B + 'content-parser.c')],
     na='end-to-end functional equality of outputs; the structural parts (escaping, bounds, termination) are claimed separately')
