"""Definitions of the properties; generate.py turns them into properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "richard/"

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, observe, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files, mechanism=mechanism, observe=observe, note=note, state=list(state)))


SIM = "deterministic simulation with fault injection"

prop("C01", "A cached remote result is always exactly what the endpoint answered",
     "With a result cache folder, every select on a SPARQL endpoint returns exactly the rows the endpoint gives for that question, or fails. "
     "This holds for any number of processes and tasks sharing the folder, for crashes, power failures and disk errors at any point, and for damaged or foreign files in the folder. "
     "A cache that cannot be read or written never makes a select fail or an entry of another question be used.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "every interleaving of processes sharing a cache folder, every crash / power-loss point and disk or network error at any operation, every content of the folder",
     "No test of the repository reads a torn entry, writes from two processes, or fails a disk operation; the wikidata test only replays a complete cache.",
     ["data_source/SparqlDataSource.py", "data_source/WikidataDataSource.py"],
     [("the entry is completed in a temporary file, synced, then renamed", R + "data_source/SparqlDataSource.py:select"), ("an entry that cannot be read is a miss", R + "data_source/SparqlDataSource.py:select"),
      ("the cache key", R + "data_source/SparqlDataSource.py:select")],
     ["return value of select", "files in the cache folder"],
     "Seeded search over interleavings (disk and network operations are switch points), crashes, power loss with lost or zeroed unsynced data, disk errors and short reads/writes, endpoint errors; several simulated processes on one folder. Trusts the endpoint model. One finding (entries of sources with another endpoint or language are mixed up) is recorded as known.")

prop("C02", "A select on a remote endpoint is all or nothing",
     "A select on a SPARQL endpoint returns exactly the rows that follow from the data of the endpoint for the given constants and language, whatever characters they contain. "
     "When anything goes wrong in the exchange (error status, truncated or ill-formed body, lost connection, endless redirects, time-out), the select fails with an error and never returns a partial or empty result.",
     ["inputs", "fault_sequences", "histories"],
     "every question (any text), every data set, every way an HTTP exchange can go wrong at any byte",
     "The only test runs from a pre-recorded cache, without any exchange.",
     ["data_source/SparqlDataSource.py", "data_source/WikidataDataSource.py"],
     [("status checks", R + "data_source/SparqlDataSource.py:do_select"), ("escaping of literals", R + "data_source/SparqlDataSource.py:prepare_term"), ("building the query", R + "data_source/SparqlDataSource.py:create_query"),
      ("reading the result", R + "data_source/SparqlDataSource.py:prepare_results")],
     ["return value or exception of select"],
     "The real requests library runs over a simulated transport with a small SPARQL endpoint; every exchange may fail in 20 ways. Oracle: direct evaluation over the triples. Trusts the endpoint model and its grammar of the queries.")

prop("C03", "A silent or refusing remote endpoint cannot hang a question",
     "When a remote endpoint stops responding at any point of an exchange (while connecting, before the response, or half way through the body), or refuses to answer (an error status, possibly with the request to come back later, or a redirect to itself), a question that depends on it ends within five minutes: with an answer or with an error. "
     "A question after the endpoint has recovered is answered normally.",
     ["fault_sequences", "histories"],
     "every point of an exchange at which the endpoint falls silent or refuses, for every number of exchanges",
     "A test cannot wait for a hang, and the existing test has no endpoint at all.",
     ["data_source/SparqlDataSource.py", "data_source/WikidataDataSource.py"],
     [("time-out of the request", R + "data_source/SparqlDataSource.py:do_select")],
     ["simulated time until the question ends"],
     "Simulated clock: waiting costs no real time, a wait without time-out is detected as a hang. Bound: 300 simulated seconds. Trusts that the real transport applies the time-out that is passed to it.")

prop("C04", "A failed data access never turns into a wrong answer",
     "When a data access fails while a request is understood, executed or answered, the request is reported as failed or still gets the right answer; it never gets another answer. "
     "Whatever fails, facts, contexts and rules contain nothing that was not asked for, and the next requests, including the same request again, are answered correctly.",
     ["fault_sequences", "histories"],
     "every data access of every request in a dialog, failing with any kind of error",
     "No test lets a data source fail.",
     ["core/Solver.py", "core/System.py", "core/BasicGenerator.py", "processor/semantic_executor/AtomExecutor.py", "module/CoreModule.py", "module/InferenceModule.py", "module/BasicDialogContext.py", "module/BasicOutputBuffer.py"],
     [("errors pass through the solver", R + "core/Solver.py:find_relation_values"), ("leftover output is discarded", R + "core/System.py:enter"), ("output is only cleared when it was generated", R + "core/BasicGenerator.py:generate_output")],
     ["output of the system", "rows in the data sources", "active contexts"],
     "A complete application of real components; each request may have a failing access of any of 25 error kinds, followed by a retry. Oracle: an independent model of the application that tracks every state a failed request may leave. Assumes a failing access has no effect.")

prop("C05", "Answers reflect exactly the facts stored and the rules learned so far",
     "At any moment, the answer to a goal is exactly what follows from the facts acknowledged as stored and the rules learned or imported so far, each answer once. "
     "A store that fails half way has stored a prefix of its facts and nothing else, a fact that no relation can hold is refused, and a query during which an access failed is reported as failed. "
     "The order in which data sources return rows, and how the facts are divided over modules and data sources, do not matter.",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "every history of stores, learned rules, imported rules and queries; every failing access; every row order and layout of modules",
     "The tests check a few fixed goals on fixed data without failures.",
     ["core/Solver.py", "core/Model.py", "core/atoms.py", "module/CoreModule.py", "module/InferenceModule.py", "module/SimpleMemoryModule.py", "data_source/Sqlite3DataSource.py", "data_source/SimpleDataSource.py", "module/helper/SimpleInferenceRuleParser.py"],
     [("conjunction, binding and deduplication", R + "core/Solver.py:solve"), ("writing a fact to all modules that hold its relation", R + "core/Solver.py:write_atom"), ("applying rules", R + "module/InferenceModule.py:solve_rule"),
      ("quantifiers and aggregates", R + "module/CoreModule.py"), ("learning a rule", R + "module/InferenceModule.py:learn_rule")],
     ["bindings returned by solve", "rows in the data sources"],
     "Random goals (conjunction, disjunction, negation, quantifiers, aggregates, find_all) and rules against an independent reference evaluator after every step of the history. Goals are well formed and rules terminate.")

prop("C06", "Stored facts become visible and permanent exactly when they are committed",
     "Facts that an application stores in (or deletes from) an SQL database belong to the transaction of its connection: until the commit no one else sees them, a roll-back or a crash undoes them all, and once the commit has returned they survive a crash. "
     "The library itself never commits, rolls back, or keeps a connection locked after a select has returned, so what other applications store meanwhile is visible and is not lost. "
     "A store or delete that is refused (locked, full disk, I/O error) raises and changes nothing.",
     ["crash_points", "histories", "fault_sequences"],
     "every history of stores, deletes, queries, commits and roll-backs by up to three applications, with a crash or failure at any database call",
     "The tests use one in-memory database, without commit, second connection, crash or error.",
     ["data_source/Sqlite3DataSource.py", "core/Solver.py", "module/SimpleMemoryModule.py"],
     [("statements on the connection of the application", R + "data_source/Sqlite3DataSource.py:insert"), ("writing facts", R + "core/Solver.py:write_atom")],
     ["rows seen by each connection", "rows after a restart"],
     "Databases are real files; a crash at any database call drops all connections and keeps the files. Oracle: a model of committed and pending rows. Trusts that sqlite itself is durable; the loss of unsynced pages is not simulated below sqlite.")

prop("C07", "The output of a request belongs to that request",
     "The output read after entering a request is that of the request itself: nothing of an earlier request ends up in it, whether that request failed, had no output, was never read, was read twice, or was interrupted at any point, and nothing of it is lost. "
     "Every entered text gets output or an error, and generating output does not change what is known. "
     "Two systems with their own output buffers on the same facts do not mix their output.",
     ["histories", "fault_sequences", "crash_points"],
     "every sequence of entering and reading requests over one or two systems, with an interrupt at any line or a failing access at any point",
     "The tests enter and read each request once, and none fails.",
     ["core/System.py", "core/BasicGenerator.py", "module/BasicOutputBuffer.py", "module/SimpleMemoryModule.py", "core/DialogTester.py"],
     [("leftovers are discarded when a request is entered", R + "core/System.py:enter"), ("output is cleared once it was generated", R + "core/BasicGenerator.py:generate_output"), ("error output", R + "module/BasicOutputBuffer.py")],
     ["text returned by read_output"],
     "Dialogs of up to 28 steps against an independent model of the application. The interrupts are raised at any executed line of the library. Assumes one request at a time per output buffer.")

prop("C08", "A context is active exactly while it should be",
     "A context is active from start_context to end_context, and within with_context, and at no other moment, whatever fails or is interrupted in between: with_context leaves exactly the contexts active that were active before it, also when scopes are nested, "
     "also for the same name, when its body does not hold, holds several times, or raises an error. Atoms that depend on a context hold only while it is active.",
     ["programs", "fault_sequences", "histories"],
     "every nesting of context atoms with quantifiers, disjunctions and rules; every failing data access",
     "The tests start one context and never fail inside it.",
     ["module/BasicDialogContext.py", "module/CoreModule.py", "module/SimpleMemoryModule.py"],
     [("with_context", R + "module/BasicDialogContext.py"), ("start_context and end_context", R + "module/BasicDialogContext.py")],
     ["active contexts observed inside and after each goal"],
     "Random programs against a reference interpreter with scopes, plus dialogs. A failing access that belongs to the bookkeeping itself may leave the state before or after it.")

prop("C09", "Alternatives are tried in order and the outcome is that of the right one",
     "A sentence goes through the blocks in order. FindOne stops at the first alternative that succeeds and else reports the first error; FindAll tries all and keeps all products; TryFirst tries the first only. "
     "No alternative sees products of another one, a failed request leaves none of its products to a later request, and requests that are processed simultaneously do not affect each other.",
     ["programs", "schedules"],
     "every pipeline of blocks, every tree of alternatives, every interleaving of requests",
     "The tests use a few pipelines with one alternative that works, one request at a time.",
     ["block/FindOne.py", "block/FindAll.py", "block/TryFirst.py", "block/Succeed.py", "core/System.py", "entity/SentenceRequest.py", "processor/language_selector/LanguageSelector.py", "processor/language_selector/Multilingual.py"],
     [("the loop over alternatives", R + "block/FindOne.py:process"), ("products per request", R + "entity/SentenceRequest.py"), ("linking blocks", R + "core/System.py")],
     ["calls of the processors in order", "BlockResult", "products of the request", "output"],
     "Scripted processors in the real blocks, against a reference interpreter; tasks are switched at lines of the library.")

prop("C10", "Applications in one process do not affect each other",
     "An application gives the answers it would give alone, whatever other applications in the process do: in between its requests, or simultaneously in other threads, also while those are set up. "
     "Logging and statistics make no difference, and neither does the process: the same requests give the same results in the same order on every start of the interpreter.",
     ["schedules", "configurations", "histories"],
     "every interleaving of applications, at the level of lines; every hash seed",
     "Each test runs one application in one thread with one hash seed.",
     ["core/Solver.py", "core/Model.py", "core/System.py", "core/Logger.py", "entity/SentenceRequest.py", "entity/GrammarRules.py", "processor/semantic_composer/helper/VariableGenerator.py", "type/OrderedSet.py", "module/SimpleMemoryModule.py"],
     [("state is kept per object", R + "core/System.py"), ("order of variables", R + "type/OrderedSet.py"), ("stats per solver", R + "core/Solver.py")],
     ["answers of each application", "order of results per hash seed"],
     "Threads run under the simulated scheduler, switched at lines of the library. A sample of runs is repeated in another process with another hash seed and has to give the same record.")

prop("C11", "Answers depend on what is known, not on what was asked or failed before",
     "Questions, ill-formed sentences, requests that fail or recurse without end, unread output, failing accesses and interrupts leave nothing behind: every later request gets the answer, or the error, that it gets from an application which was only told the facts and rules, "
     "or, where all knowledge is in a database, which was restarted on it.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of requests with a failing access or an interrupt at any line",
     "The tests run one fixed dialog without failures and compare with fixed answers.",
     ["core/System.py", "core/Solver.py", "core/BasicGenerator.py", "processor/semantic_composer/SemanticComposer.py", "processor/parser/BasicParser.py", "entity/GrammarRule.py", "module/BasicDialogContext.py"],
     [("templates are copied before use", R + "processor/semantic_composer/SemanticComposer.py"), ("no state in the solver", R + "core/Solver.py")],
     ["results, output and errors compared with a fresh application"],
     "Differential: the oracle is a fresh instance of the same code that never saw the disturbance. Interrupts and failing accesses hit questions only (C04 and C13 cover requests that change knowledge).")

prop("C12", "Importing a CSV file stores all of it, in order and unchanged, or fails",
     "After an import that ended normally the table has exactly the rows of the file, in order, with every value unchanged (separators, quotes, line breaks, leading zeros, empty values, any script). "
     "When reading or storing fails at any point, the import raises an error and what was stored is a beginning of the file. Several imports at the same time do not mix.",
     ["inputs", "fault_sequences", "schedules"],
     "every file in any CSV style, every failing or short read, every failing insert, every interleaving of imports",
     "Only one fixed file is ever imported, and nothing fails.",
     ["data_source/CsvImporter.py", "data_source/SimpleDataSource.py", "data_source/Sqlite3DataSource.py"],
     [("reading and storing rows", R + "data_source/CsvImporter.py:import_table_from_file")],
     ["rows in the table", "exception"],
     "The real importer on a simulated disk with small buffers, against the rows the file was written from. Assumes that every row has as many values as there are headers.")

prop("C13", "Importing a file of rules adds all of its rules or none",
     "After an import that ended normally exactly the rules and facts of the file hold, in addition to those known before. When the file cannot be opened or read, is cut off, or is ill-formed anywhere, the import raises an error and no rule at all is added; "
     "what was known keeps its answers, and a later import of the repaired file succeeds.",
     ["inputs", "fault_sequences", "crash_points"],
     "every rule file, cut off at every position or damaged, every failing or short read",
     "The tests import a few well-formed files and nothing fails.",
     ["module/InferenceModule.py", "module/helper/SimpleInferenceRuleParser.py"],
     [("the file is parsed before a rule is added", R + "module/InferenceModule.py:import_rules"), ("parsing", R + "module/helper/SimpleInferenceRuleParser.py:parse")],
     ["answers of goals over all predicates before and after each import"],
     "Files are read through the simulated disk; the oracle evaluates goals over the rules of the files that were imported. Damage is limited to kinds that are surely ill-formed.")

prop("C14", "A select returns exactly the matching rows, on every backend, or fails",
     "For every backend (SimpleDataSource, sqlite, MySQL, psycopg 2 and 3) a select returns exactly the stored rows that have the given values, in the requested column order, once per stored row, whatever the values contain, and whatever type of rows a PostgreSQL connection gives by default. "
     "An error of the driver at any point (cursor, execute, fetch, lost connection) makes the select fail; it never gives a partial result, and the next select works. Inserts and deletes affect exactly the given row.",
     ["inputs", "fault_sequences", "histories", "schedules"],
     "every table, every value, every history of inserts, deletes and selects, every failing driver call, every interleaving of tasks on a connection",
     "No test uses MySQL or PostgreSQL at all, and none lets a driver fail.",
     ["data_source/MySqlDataSource.py", "data_source/PsycoPg2DataSource.py", "data_source/PsycoPg3DataSource.py", "data_source/Sqlite3DataSource.py", "data_source/SimpleDataSource.py"],
     [("building the statement", R + "data_source/MySqlDataSource.py:select"), ("plain rows, whatever the connection is set to", R + "data_source/PsycoPg2DataSource.py:select"), ("records with missing values", R + "data_source/SimpleDataSource.py:select")],
     ["return value or exception of select", "bindings of a goal on the table"],
     "The drivers of MySQL and PostgreSQL are stubs of the DB-API on sqlite that check the statement and parameters; real servers are not used. Oracle: a list of rows.")

prop("C15", "A learned grammar rule is in force from the next request on, as if always there",
     "Once a request has learned a grammar rule, every later request is parsed, understood and answered as if the rule had been part of the grammar from the start. "
     "A rule that is refused, or a request that fails before it is learned, changes nothing. Learned rules are not lost or repeated by later failures, and other systems with their own grammar do not get them.",
     ["histories", "inputs", "fault_sequences"],
     "every grammar split in a static and a learned part, in every order, with failures and interrupts in between",
     "No test of the repository learns a grammar rule (the code for it raised a TypeError).",
     ["module/GrammarModule.py", "entity/GrammarRules.py", "entity/GrammarRule.py", "processor/parser/earley/EarleyParser.py", "processor/parser/helper/SimpleGrammarRulesParser.py"],
     [("learning", R + "module/GrammarModule.py:learn_grammar_rule"), ("adding a rule", R + "entity/GrammarRules.py"), ("start rules are not kept in the grammar", R + "processor/parser/earley/EarleyParser.py")],
     ["parse trees, bindings and errors of later requests"],
     "Differential against a system that was built with all rules, over random grammars, random orders of learning and random sentences, with ill-formed rules and interrupts in between.")

prop("C16", "Simultaneous requests to one system do not affect each other",
     "A parser, composer, solver and executor may serve several requests at the same time: every request gets the products, bindings and error it gets alone, for every interleaving, also when others fail or are interrupted, and logs contain the entries of their own request only.",
     ["schedules", "fault_sequences"],
     "every interleaving of up to four threads at the level of lines",
     "The tests process one request at a time in one thread.",
     ["processor/parser/BasicParser.py", "processor/parser/earley/EarleyParser.py", "processor/semantic_composer/SemanticComposer.py", "processor/semantic_executor/AtomExecutor.py", "core/Solver.py", "entity/SentenceRequest.py", "block/FindOne.py"],
     [("state per request", R + "entity/SentenceRequest.py"), ("a chart per sentence", R + "processor/parser/earley/EarleyParser.py"), ("a solver per request", R + "processor/semantic_executor/AtomExecutor.py")],
     ["products, bindings, error and log of each request"],
     "Threads under the simulated scheduler, switched at lines of the library; the oracle is the same request alone. Requests that use the shared dialog context or output buffer are excluded.")

prop("C17", "A system does not accumulate: the same work costs the same after any history",
     "Requests that do not add knowledge leave nothing behind in the system: however many were processed, failed or were interrupted, the grammars, rules, contexts, output and stored rows have their size (the facts that a grammar declares to be added to the dialog excepted), and the same request takes the same number of steps.",
     ["histories", "fault_sequences"],
     "every repeated sequence of requests, with failures and interrupts in between",
     "The tests run short dialogs and measure nothing.",
     ["entity/GrammarRules.py", "processor/parser/BasicParser.py", "core/Solver.py", "core/System.py", "module/BasicDialogContext.py", "module/BasicOutputBuffer.py", "module/SimpleMemoryModule.py"],
     [("the shared grammar is not extended by parsing", R + "processor/parser/earley/EarleyParser.py"), ("output is cleared", R + "core/BasicGenerator.py:generate_output")],
     ["number of executed lines per request", "number of elements in all containers reachable from the system"],
     "A liveness and resource bound: deterministic step counts and container sizes over rounds of the same requests may not keep growing (or shrinking).")

prop("C18", "A dialog test passes exactly when every answer is the expected one",
     "A DialogTester run ends without error if and only if every request was processed without error and its output was equal to the expected output; the first deviation is reported, for every logger setting, with or without profiling, and whatever the clock does.",
     ["inputs", "fault_sequences", "histories", "configurations"],
     "every dialog and expectation, every failing access, every logger setting, clock steps backwards",
     "The tests use the tester to check other things; none checks that it reports a failure.",
     ["core/DialogTester.py", "core/Logger.py"],
     [("comparison and reporting", R + "core/DialogTester.py:do_run"), ("selection of what is logged", R + "core/Logger.py:is_active")],
     ["exception of run", "printed log"],
     "Random dialogs with right and wrong expectations and failures at any access, against a model of the application; the clock is simulated and may jump.")

prop("C19", "Knowledge that simultaneous requests add is neither lost nor half in force",
     "While some requests store facts, learn or import rules, or learn grammar rules, other requests may ask at the same time. "
     "An answer contains at least what follows from the additions that had ended when the question was asked, and at most what follows from those that had begun when it was answered; adding never makes another request fail. "
     "When all have ended, exactly the knowledge that was added is in force: nothing is lost, repeated or damaged, also when an addition was interrupted at any line.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of up to four threads that add facts, rules and grammar rules and ask questions, with an interrupt at any line of an addition",
     "The tests process one request at a time in one thread.",
     ["entity/GrammarRules.py", "module/InferenceModule.py", "module/GrammarModule.py", "core/Solver.py", "core/Model.py", "data_source/SimpleDataSource.py", "data_source/Sqlite3DataSource.py", "processor/parser/earley/EarleyParser.py"],
     [("learning a rule", R + "module/InferenceModule.py:insert_rule"), ("learning a grammar rule", R + "entity/GrammarRules.py:add_rule"), ("a chart reads the grammar while it may grow", R + "processor/parser/earley/EarleyParser.py:buildChart"),
      ("storing a fact", R + "data_source/SimpleDataSource.py:insert")],
     ["bindings of goals", "parse trees of sentences", "exceptions of additions"],
     "Threads under the simulated scheduler, switched at lines of the library. Questions are monotone (no negation or aggregates), so that answers are bounded by reference evaluation over what was certainly and what was possibly known; afterwards equality with a fresh system.")
