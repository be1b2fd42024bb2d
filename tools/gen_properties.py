#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
CLI='crates/math-core-cli/src/main.rs'; REP='crates/math-core-cli/src/replace.rs'; CFG='crates/math-core-cli/src/config_file.rs'
LIB='crates/math-core/src/lib.rs'; PAR='crates/math-core/src/parser.rs'; ENV='crates/math-core/src/environments.rs'
GS='crates/math-core/src/global_state.rs'; CC='crates/math-core/src/custom_cmds.rs'; TQ='crates/math-core/src/token_queue.rs'
AST='crates/mathml-renderer/src/ast.rs'; WASM='crates/math-core-wasm/src/lib.rs'
PY='crates/math-core-python/src/lib.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

# ---------------------------------------------------------------- command line tool
p('C01','In-place conversion is all-or-nothing at every crash and I/O failure',
 'When the command-line tool converts an HTML file in place (`-w`, or `-r` for a directory tree), the path of that file gives, at every instant, either exactly the original bytes or exactly the complete converted bytes. This holds for another program reading the file while the tool runs, after the process is killed at any point, after a power failure that loses or tears everything not explicitly synced, and after any file operation fails (full disk, I/O error, permission).',
 ['crash_points','fault_sequences','inputs'],
 'every document and tree, every point of the run at which the process or the machine stops, and every failing file operation',
 'No test runs the binary, let alone kills it; the only CLI tests call the text replacer in memory.',
 [CLI],[('in-place write path of convert_html',CLI)],
 observe=['the file system as seen by another process, and after a restart'])
p('C02','A run changes only the files it was asked to convert',
 'A run leaves every file, directory, link and permission bit as it was, except for the content of those HTML files it converts in place: nothing changes with `--dry-run`, when output goes to stdout, when the configuration is rejected or when a file fails to convert, and in directory mode only regular files whose name ends in `.html` and whose content the conversion alters are rewritten. A rewritten file keeps its name, its permission bits and the symbolic links that lead to it, and a run that ends by itself, with or without an error, leaves no additional file behind.',
 ['inputs','configurations','fault_sequences'],
 'every combination of options, tree contents (other suffixes, links, subdirectories, unchanged files) and failing operations',
 'No test executes the binary or looks at a directory after a run.',
 [CLI],[('option handling in main / convert_html / convert_html_recursive',CLI)],observe=['the complete tree before and after a run'])
p('C03','Exit status 0 means everything requested was delivered',
 'The command-line tool exits with status 0 only if it processed everything it was asked to and the whole result was accepted by its destination: every byte on standard output, every HTML file of the given path or tree. Any input, directory or output operation that fails with a lasting error makes it exit with a non-zero status and a message on standard error, while interrupted calls and short reads or writes never make a run fail or change what it produces.',
 ['fault_sequences','inputs','configurations'],
 'every operation of a run failing with every error the system can return for it, and every split of reads and writes',
 'Needs failing reads, directory listings, writes and flushes at chosen points; the tests run with a healthy in-memory string.',
 [CLI],[('exit_io_error / exit_conversion_error and stdout writes',CLI)],observe=['exit status, stdout bytes, stderr, tree'])
p('C04','Directory mode converts every HTML file, each as if it were alone',
 'Directory mode converts every file ending in `.html` at any depth below the given directory, and the result for each file is the result of converting that file alone. It depends neither on the order in which the system lists directory entries nor on which other files exist or were converted before, and links that lead back into the tree do not keep the run from finishing.',
 ['schedules','inputs'],
 'every tree shape, every order of directory entries, every set of sibling files (with equation numbers, labels and definitions in them)',
 'The order of directory entries is decided by the file system; no test runs directory mode at all.',
 [CLI,LIB],[('convert_html_recursive',CLI),('reset of the session between files',LIB)],
 state=[('session state','equation counter, labels and definitions of the converter',GS)],observe=['converted files'])
p('C05','A document is converted formula by formula, whatever the chunking',
 'For every document, text outside the delimited formulas reaches the output byte for byte and in order, and every delimited formula is replaced by exactly what the library produces for its (entity-decoded) content and display mode within one session running through the document. The result is the same for file, standard-input and in-place operation, for every choice of delimiters and escape handling, for every size of the document, and for every way the system splits reads and writes or interrupts calls. An empty delimiter, which would be found everywhere, is refused.',
 ['inputs','schedules','configurations'],
 'every document, delimiter configuration, and every schedule of short, interrupted and delayed reads and writes',
 'Unit tests call the replacer on a handful of literals with a mock converter; none goes through the I/O path or has more than a few formulas.',
 [REP,CLI,'crates/math-core-cli/src/html_entities.rs'],[('delimiter scanner with growing search window',REP),('entity decoding','crates/math-core-cli/src/html_entities.rs')],
 observe=['stdout or the rewritten file'])
p('C06','A configuration file is honoured completely or the run is refused',
 'The settings in force are exactly those of the configuration file: an absent default file, and nothing else, means default settings. A missing explicitly named file, any failure while opening or reading the file, or content that is not a valid configuration ends the run with its own non-zero status (3 for a missing named file, 4 for an unreadable or malformed one, 2 for a macro that is invalid) before any input is converted, any output is produced or any file is touched.',
 ['fault_sequences','configurations','inputs'],
 'every configuration content, every failing or partial operation while it is read, every mode of operation',
 'No test loads a configuration through the binary; the distinction between "absent" and "unreadable" only shows under failing system calls.',
 [CFG,CLI],[('load_config_file and the match on its result',CLI),('load_config_file',CFG)],observe=['exit status, stdout, tree'])
p('C07','Tool processes may run at the same time on the same files',
 'When several runs of the command-line tool work on overlapping files in place at the same time, possibly while some of them are killed, every run and every other reader sees, for each file, either the original or the complete converted content, and no run aborts because of the others. Once they have all ended (and at least one of the surviving ones was asked to convert the file), each file has its complete converted content and no other file has changed (for documents whose converted text contains no delimiters itself, so that converting it again changes nothing).',
 ['schedules','crash_points'],
 'every interleaving of the file operations of several processes and readers, with any of them killed at any point',
 'Needs a scheduler that owns the interleaving of several processes; there is no multi-process test.',
 [CLI],[('in-place write path',CLI)],observe=['contents read by each process and final tree'])
p('C08','Rerunning after an interruption completes the conversion',
 'After an in-place conversion of a file or directory was interrupted at any point, by being killed, by a power failure or by an I/O error, running the same command again with the fault gone ends as an uninterrupted run would have ended and leaves every file exactly as an uninterrupted run would have left it (for documents whose converted text contains no delimiters itself, and formulas that convert).',
 ['crash_points','histories','fault_sequences'],
 'every interruption point and repeated interruptions, for every tree',
 'Needs restart from the state left by an arbitrary interruption; no test does that.',
 [CLI],[('in-place write path',CLI),('session reset per file',CLI)],observe=['tree after the rerun compared with an uninterrupted run'])
p('C09','A failing formula is reported as itself, and contained on request',
 'Without `--continue-on-error`, the first formula of a document that fails to convert ends the run with status 2 and nothing is written; the diagnostic on standard error is the error that converting this formula at this point of the document gives, for whatever definitions, labels and numbers came before it, with the file it is in. Delimiters that do not pair up end the run in the same way, with the line and column of each delimiter concerned. With `--continue-on-error` each failing formula, and only it, is replaced in place by an HTML error element carrying its own source and error, and everything else in the document is converted.',
 ['histories','inputs','configurations'],
 'every document with any number of failing formulas at any position, and every session state they are met in',
 'The tests of the replacer use a mock converter that never fails and has no state.',
 [REP,CLI],[('replace: conversion of a formula and its error path',REP)],observe=['stdout, stderr, exit status'])
# ---------------------------------------------------------------- library
p('L01','Equations are numbered consecutively over the whole session',
 'Over any sequence of conversions that share a session, the rows of numbered environments that are neither starred, nor tagged, nor suppressed carry the numbers 1, 2, 3, ... in document order, with no number repeated or skipped, across environments and across snippets; a multi-row single-number environment takes one number, and tagged or suppressed rows take none. (A snippet that fails may have used up the numbers of the rows it completed.) Resetting the session starts again at 1, and conversions that do not belong to the session (isolated and batch conversions) neither use nor advance its numbers.',
 ['histories','schedules','inputs'],
 'every history of session, isolated, batch and reset calls from any number of callers, every mix of environments and row markers',
 'The tests number at most a few equations in one or two calls; the property is about all histories and their interleavings.',
 [ENV,PAR,LIB,GS],[('NumberedEnvState::next_equation_tag',ENV),('row and environment end handling',PAR),('reset_global_state',LIB)],
 state=[('equation_count','number given to the last automatically numbered row',GS)],observe=['numbers shown in the MathML output'])
p('L02','A reference shows the number its label was given, and links to it',
 'A reference shows the number or tag of the row that most recently got this label in the session, and links to exactly the identifier which that row carries in the output, with the configured prefix; if there is no such row yet it shows `??` and the conversion reports an undefined-reference warning. In a batch conversion every reference is resolved against the labels of all snippets of the batch, earlier and later ones, and no label is visible across sessions, batches, isolated conversions or a reset.',
 ['histories','schedules','inputs'],
 'every history of labelled rows, references, redefinitions, batches and resets',
 'Tests have one label and one reference; cross-snippet histories with redefinition, reset and batches are not sampled.',
 [PAR,AST,LIB,GS],[('label handling at row and environment end',PAR),('EqRef emission and id attributes',AST),('convert_all emits after parsing everything',LIB)],
 state=[('label_map','label to shown tag',GS)],observe=['href, id and text in the MathML output, warnings'])
p('L03','User-defined commands follow scope and binding rules over any history',
 'A command used in a snippet has the meaning of its innermost definition at that moment: one made earlier in the same snippet, else one kept by the session, else one from the configuration, else the built-in one. Definitions outlive their snippet exactly if they are made global or the session runs in the global group; a definition body follows later redefinitions of the commands it mentions while a `\\let` copy does not; a definition whose body uses built-in commands means the same, spacing included, whichever of those places it was made in; defining an existing, or redefining a missing, command is an error; a reset forgets the definitions of the session and keeps those of the configuration.',
 ['histories','configurations','inputs'],
 'every history of definitions of every kind, uses, redefinitions and resets, in both group modes',
 'The tests cover short scripted sequences; the rules are about all histories of all definition forms.',
 [CC,TQ,PAR,LIB],[('CustomCmds stores and absorb',CC),('TokenQueue::define and resolve_command',TQ),('define_command, def_command, let_command, global_prefix',PAR)],
 state=[('custom command stores','local, document and configuration definitions',CC)],observe=['MathML of the uses, errors'])
p('L04','Isolated and batch conversions neither see nor touch the session',
 'The result of an isolated conversion, and of a batch conversion, depends only on the configuration and on the given snippets: it is the same on a fresh converter as after any history of other calls, failed ones included. The result of every later session conversion is the same as if the isolated and batch conversions had never happened.',
 ['histories','schedules','inputs'],
 'every history of calls before, between and after, and every interleaving of shared callers',
 'A test can only show independence of one particular history.',
 [LIB],[('convert_with_local_state and convert_all use a fresh state',LIB)],state=[('session state','counter, labels, definitions',GS)],observe=['results of all calls'])
p('L05','A reset converter is indistinguishable from a new one',
 'After a reset, whatever was converted before, with or without errors, every later call gives exactly the result it would give on a newly created converter with the same configuration.',
 ['histories','inputs'],
 'every history before and after a reset',
 'The tests check single aspects (one counter, one command) after one short history.',
 [LIB,GS],[('reset_global_state',LIB)],state=[('session state','counter, labels, definitions',GS)],observe=['results after the reset'])
p('L06','A batch gives each snippet the result of one session run over the batch',
 'Converting a list of snippets as a batch returns one result per snippet, in order: the same output, error and numbering that converting the snippets one after the other in a fresh session would give, except that references are resolved against all labels of the batch. Failing snippets do not prevent the others from being converted, and repeating the batch gives the same results.',
 ['histories','inputs','schedules'],
 'every list of snippets including failing ones, any history before it, and batches running at the same time',
 'Tests batch two or three fixed snippets.',
 [LIB],[('convert_all',LIB)],observe=['vector of results'])
p('L07','Callers sharing a converter get the results of some serial order',
 'When several threads share a converter, with its session calls serialised by a lock and its isolated and batch calls running at the same time, every call returns what it would return in the serial order of the session calls, for every schedule, including calls suspended in the middle for arbitrarily long. No call blocks another beyond that lock, and repeating a run with the same serial order gives identical results.',
 ['schedules','histories'],
 'every interleaving, at the granularity of single memory-allocation points inside the conversions, of any number of callers',
 'All tests are single-threaded.',
 [LIB,CC,TQ],[('shared conversions take &self and own their state',LIB)],observe=['results of all calls and their order'])
p('L08','A failed conversion leaves the session consistent',
 'A conversion that fails, at whatever point and for whatever reason, leaves the session in a state that a successfully converted beginning of that snippet could have left, or unchanged: no number is ever repeated, labels and commands that the snippet had not yet defined keep their meaning, and no later conversion fails or changes in any other way. The same failing call repeated on equal state reports the same error.',
 ['histories','fault_sequences','inputs'],
 'every failing point in every snippet, in every session state, and everything converted afterwards',
 'Tests check that a snippet fails, not what later calls see.',
 [LIB,PAR,ENV,CC],[('updates of the session while parsing',PAR)],state=[('session state','counter, labels, definitions',GS)],observe=['results after the failure'])
p('L09','Command expansion is bounded for every set of definitions',
 'Whatever commands are defined, in the configuration, in the session or in the snippet, directly or mutually recursive, every conversion ends after at most the configured number of command expansions, with an error if more would be needed; the work, memory and call stack it takes stay within a fixed amount for each permitted expansion and each byte of the input and the definitions it uses, the call stack below the 2 MB a thread has. The allowance is counted anew for every snippet, so no history of earlier conversions makes a snippet fail that fits within the limit, or lets one succeed that does not.',
 ['histories','inputs','configurations'],
 'every set of definitions and limit, every history before, in sessions and batches',
 'Tests try a few recursive definitions with two limits on a fresh converter.',
 [PAR,TQ,LIB],[('expansions_left counting',PAR),('queueing of bodies and arguments',TQ)],observe=['result, allocated bytes and allocation steps of a conversion'])
p('L10','A converter depends on nothing but its configuration and its own history',
 'Every call on a converter, and its creation, gives the result that its configuration, the calls made on this converter before, and the arguments determine. Other converters in the same process, whatever their configuration and whether they are created, used, failing or dropped in between, change nothing about it, and neither do the threads the calls come from, what the process did before, environment variables, random numbers, the clock or the layout of memory: repeating the history gives the same bytes, errors and warnings.',
 ['histories','schedules','configurations'],
 'every set of converters with equal, similar or different configurations, every interleaving of their calls over threads, every process they run in',
 'Each test uses one configuration on a fresh converter, on a thread of its own; none compares the same calls in different surroundings.',
 [LIB,CC,PAR,'crates/math-core/src/commands.rs'],[('state lives in the converter alone',LIB),('commands that depend on the configuration','crates/math-core/src/commands.rs')],observe=['results of all calls on each of several converters'])
# ---------------------------------------------------------------- Python binding
p('P01','The Python converter behaves as the library, shared by any threads',
 'Every call on a Python converter object returns the string, or raises the conversion exception, that the library gives for the same call at the same point of the serial order of session calls, whichever Python threads make the calls and however they are interleaved; with `continue_on_error` the error element takes the place of the exception. A call whose arguments cannot be read (wrong types, iterables that raise or call back into the converter while being read) raises and changes nothing.',
 ['histories','schedules','fault_sequences','configurations'],
 'every history of calls by several threads with every constructor configuration, and failing or re-entrant arguments at any position',
 'The Python tests are single-threaded scripts with a few fixed calls.',
 [PY,LIB],[('RwLock around the converter',PY),('argument extraction and error mapping',PY)],observe=['return values and exceptions'])
# ---------------------------------------------------------------- JavaScript binding
p('J01','The JavaScript converter behaves as the library, whatever runs around its calls',
 'Every call on a JavaScript converter returns the string that the library gives for the same call at the same point of that converter\'s history, or throws its error with the same message, label, snippet index and diagnostic report and with the position as a range in UTF-16 units of the source; with `throwOnError: false` the error element takes the place of the exception. This holds whichever other converters exist beside it, are created, freed or garbage-collected meanwhile, and whatever JavaScript runs (and throws, or calls back into converters) while arguments and options are read. A call whose arguments cannot be read throws and changes nothing, and later calls are unaffected; only a call that changes the session, made while a batch of the same converter is being read, may be refused. When the memory of the module cannot grow, calls may throw, but return nothing else.',
 ['histories','fault_sequences','configurations'],
 'every history of calls on several converters with every option set, with failing or re-entrant arguments, freed objects and exhausted memory at any position',
 'The JavaScript tests need a wasm build and make a few fixed calls.',
 [WASM,LIB],[('converter, option reading and error mapping',WASM)],observe=['return values and exceptions'])
# ---------------------------------------------------------------- playground
PAGE='playground/main.js'
p('W01','The playground shows what the library says about the present input',
 'In whatever order users of the playground page type, choose options, edit the configuration, and make, copy and open links, and in whatever order the module, compressions and the clipboard become ready or fail: once nothing is pending and the module has loaded, the page shows exactly the result of converting the present input with the present display style, pretty-printing option and configuration, or the error with its message, label, line and column, and the text in question underlined; what was entered before the module was ready counts like anything later. A configuration that cannot be used is reported, and the input is then converted with the last one that could. The link shown stands for input and options as they were at the last click for a link; opening it in any browser restores that input and those options, once. A broken link, a failed compression, copying or download, or leaving the page at any moment changes nothing else. What is copied is what was shown.',
 ['schedules','histories','fault_sequences','inputs'],
 'every sequence of actions on any number of pages, every order in which pending work ends or fails, every input and link',
 'The playground has no tests.',
 [PAGE,'playground/clipboard.js','playground/index.html'],[('updateOutput, updateConfig and the order of loading',PAGE),('generateLink and loadFromUrl',PAGE),('formatError',PAGE),('copyCode','playground/clipboard.js')],observe=['text and markup shown, fields and options, address, clipboard'])
# ---------------------------------------------------------------- not simulation targets
p('N01','Output is always well-formed, escaped MathML Core',
 'For every input that converts, the output is one well-formed `math` element using MathML Core elements only, in which every piece of input text is escaped so that it cannot introduce markup.',
 ['inputs','configurations'],'every LaTeX string and configuration','Snapshots sample a few hundred formulas.',
 [AST,'crates/mathml-renderer/src/escaping.rs','crates/math-core/src/html_utils.rs'],[('Emitter and EscapeHtml',AST)])
p('N02','No input makes a conversion panic or crash',
 'Converting any string under any configuration returns a result or an error; it never panics, overflows the stack or exhausts memory.',
 ['inputs','configurations'],'every string','Tests sample inputs.',
 [PAR,TQ,'crates/math-core/src/lexer.rs'],[('error returns throughout the parser',PAR)])
p('N03','Error positions lie within the input, on character boundaries',
 'Every conversion error carries a range that lies within the given source and starts and ends on character boundaries, so that rendering the diagnostic never fails.',
 ['inputs'],'every failing input','Snapshots sample failing inputs.',
 ['crates/math-core/src/error.rs','crates/math-core/src/lexer.rs'],[('Span bookkeeping','crates/math-core/src/lexer.rs')])
p('N04','Pretty-printing and annotation do not change the formula',
 'Pretty-printed output differs from compact output in insignificant whitespace only, and the annotation option adds exactly the escaped source.',
 ['inputs','configurations'],'every input and indentation setting','Snapshots sample a few.',
 [AST,LIB],[('new_line_and_indent / emit',LIB)])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
