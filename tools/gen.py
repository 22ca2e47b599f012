#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development aid, no check uses it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='other', observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe, state=state))


VF = 'Guarded value-flow normal form computed from MIR by abstract interpretation (all paths, no execution), compared with a hand-written specification up to boolean equivalence of the path conditions.'
TRUST = ' Trusted: rustc\'s MIR, the library models in lib/models.py and the specification texts. Constructs the analysis cannot interpret are reported as undecided in the evidence, never as violations.'

prop('C01', 'No client message can crash the server',
     'Whatever a client sends - any document text, position, range, new name, command arguments, code action data, workspace folder, embedded debug annotation or backtrace - no handler panics: every request is answered with a result or an error and the following messages are still served.',
     ['inputs', 'histories'], 'all messages a client can send and all documents, in every order',
     'The tests call the tokenizer, parser and CFG on a few well-formed snippets; a panic needs one particular odd input (an empty name, a non-ASCII identifier, an out-of-range id, line 0).',
     ['src/main.rs', 'src/rename.rs', 'src/backtrace.rs', 'src/lsp_utils.rs', 'src/semantic_token.rs', 'src/hir_index.rs', 'src/control_flow_graph.rs', 'src/diagnostics.rs', 'src/hir_tokenizer.rs', 'src/hir_parser.rs'],
     [('fallible conversions use Option/Result combinators', 'src/main.rs, src/lsp_utils.rs'), ('bounds are implied by how indices are produced', 'src/hir_index.rs')],
     'panic-site enumeration over MIR with path-condition discharge rules',
     'Every reachable panicking construct (unwrap/expect, indexing, slicing, checked arithmetic, explicit panics, panicking library calls) is enumerated and must be discharged by a named rule on its path condition.' + TRUST + ' Not covered: stack overflow, memory exhaustion, panics inside dependencies other than the listed panicking library functions.')
prop('C02', 'Never stuck: no lock is held while waiting, no self-deadlock',
     'While the server waits for the client it holds no document and no other lock, and no handler acquires a mutex it already holds or writes to the document store while it reads from it; no handler waits in a loop for something only another message provides, and no loop can go round for ever without getting further; so every message is eventually served, whatever the client sends while the server is waiting.',
     ['schedules', 'histories'], 'all interleavings of messages with outstanding server-to-client requests',
     'No test drives two overlapping messages; the hang needs a document change to arrive while a graph request is pending.',
     ['src/main.rs'], [('guards are dropped before `.await`', 'src/main.rs: execute_command, initialized'), ('locks are taken in nested order document -> root paths only', 'src/main.rs: get_use_def_ranges, inlay_hint')],
     'ownership/typestate dataflow over coroutine MIR (guards live at await points and at lock operations)',
     'May-analysis of initialised guard values at every suspension point and at every lock acquisition, through the call graph; every loop which is not driven by an iterator must change what its exit condition reads on each way round, and must not poll an atomic, a lock or a flag.' + TRUST)
prop('C03', 'The latest text wins, and all derived data comes from it',
     'After a document is opened or changed, the stored text is exactly the text of that notification (the last change of the list; an empty list changes nothing), and tokens, syntax tree, index and diagnostics are all computed from that same text and stored and published for that same document, with the version of the notification. The stored document is replaced before the server waits for anything, so notifications take effect in the order in which they arrive.',
     ['histories', 'inputs', 'schedules'], 'all sequences of open/change notifications for all documents',
     'No test drives the notification handlers; a stale or partly stale document needs a specific sequence of notifications.',
     ['src/main.rs'], [('on_change analyses, inserts, then publishes', 'src/main.rs: on_change, did_open, did_change')],
     'value-flow normal form of the notification handlers; order of effects', VF + TRUST)
prop('C04', 'Positions are UTF-16 positions of the current text, in both directions',
     'Every position or range exchanged with the client is a zero-based line number plus an offset in UTF-16 code units within that line of the document text; converting a position to an internal offset and back is exact for all texts (including non-ASCII and characters outside the BMP), positions past the end of a line or document never denote text of another line, and the end of the document is a valid position.',
     ['inputs'], 'all document texts and all positions',
     'No test converts positions; on ASCII text all units coincide, so unit mistakes only show on non-ASCII text.',
     ['src/lsp_utils.rs', 'src/semantic_token.rs', 'src/diagnostics.rs', 'src/hir_tokenizer.rs', 'src/hir_parser.rs', 'src/main.rs'],
     [('lsp_pos_to_offset / offset_to_lsp_pos / range_to_lsp', 'src/lsp_utils.rs')],
     'abstract interpretation with units of measure (byte / char / UTF-16 / line locations)',
     'The rope API is interpreted over abstract locations with units; the conversion functions must denote the identity on locations and reject positions outside the line.' + TRUST)
prop('C05', 'The server only reads its input and talks to its client',
     'Analysing a document or answering a message never writes, creates or deletes a file, starts a process, opens a network connection, changes the environment or terminates the process, and nothing but protocol messages is ever written to standard output.',
     ['inputs', 'histories'], 'all messages and documents',
     'An effect hidden behind a rare input is not observed by tests which only look at return values.',
     ['src/main.rs', 'src/backtrace.rs', 'src/hir_parser.rs'], [('no such call is reachable from the server', 'whole call graph')],
     'effect analysis over the resolved call graph', 'Every call from the crate to a foreign function is classified by its resolved path; forbidden effects are violations.' + TRUST)
prop('C06', 'Requests never change what the server knows',
     'Only opening, changing and (once) initialising change the server\'s state: any other request or notification, in any number and order, leaves the stored documents, the workspace roots and the client settings as they were, and answers depend on nothing but that state and the request (no values kept from earlier calls), so repeating a request without a change in between gives the same answer.',
     ['histories', 'inputs'], 'all sequences of messages',
     'Tests issue no request sequences; hidden state needs a history to show.',
     ['src/main.rs'], [('shared state is only written in initialize and on_change', 'src/main.rs')],
     'effect analysis (writes to shared state per handler) over the call graph', 'For every handler the set of reachable mutating operations on the server\'s state is computed.' + TRUST)
prop('C07', 'Text from the document cannot inject Markdown or commands',
     'Names, paths and symbols which come from the document\'s debug annotations appear in tooltips only as literal text, with their letters and digits unchanged: whatever characters they contain, they cannot close a code span, start a link or table cell, or otherwise add markup, and the only links are those to files resolved from the frames.',
     ['inputs'], 'all debug annotations a document can contain',
     'The tests contain no backtrace at all.', ['src/backtrace.rs'], [('sanitize_markdown_code; URLs are percent-encoded by the url crate', 'src/backtrace.rs: inlay_hint_for_backtrace')],
     'taint analysis of the tooltip value', 'Every document-derived string in the tooltip must flow through the sanitizer; the sanitizer itself is compared with its specification.' + TRUST)
prop('C08', 'Announced capabilities, handlers and extension agree',
     'The server announces exactly the features it implements: every announced capability has a handler, every implemented request is announced, the announced commands are the ones it executes and offers, the custom graph request is the one the VS Code extension handles with the same parameters, and the announced synchronisation mode and token legend are the ones it uses.',
     ['configurations', 'inputs'], 'all clients, with all capability combinations',
     'No test compares server, protocol and extension; each side is consistent on its own.',
     ['src/main.rs', 'src/semantic_token.rs', 'vscode-extension/src/extension.ts', 'vscode-extension/package.json'],
     [('ServerCapabilities in initialize', 'src/main.rs'), ('showDot handler', 'vscode-extension/src/extension.ts')],
     'cross-artefact consistency rules over the evaluated capability value, trait impls and the TypeScript syntax tree', VF + TRUST)
prop('C09', 'Semantic tokens are complete, ordered, correctly encoded and classified',
     'For every document the semantic tokens contain each highlightable token exactly once, in document order, relative to the previous token as the protocol demands (line delta, then start delta relative to the previous token only on the same line), with its UTF-16 length and the legend index of its kind.',
     ['inputs'], 'all documents', 'No test encodes semantic tokens.',
     ['src/semantic_token.rs', 'src/main.rs'], [('semantic_tokens_from_tokens, convert_to_lsp_tokens', 'src/semantic_token.rs')],
     'value-flow normal form incl. loop-carried state, compared with the encoding specification', VF + TRUST)
prop('C10', 'Navigation returns all and only the occurrences of the symbol',
     'Go to definition, go to declaration and find references return exactly the recorded definitions, declarations or uses of the symbol under the cursor - the one whose name contains the position, of the same kind and, for labels and local variables, in the same function - in the same document, plus, for definitions, the resolvable external source locations; where there is no symbol the answer is empty.',
     ['inputs', 'histories'], 'all documents and all cursor positions', 'No test exercises the navigation requests.',
     ['src/main.rs', 'src/hir_index.rs'], [('get_use_def_ranges, find_symbol_at_position, get_by_symbol_kind', 'src/main.rs, src/hir_index.rs')],
     'value-flow normal form compared with a relational specification', VF + TRUST)
prop('C11', 'Rename edits every occurrence, only those, and only to valid names',
     'Renaming a symbol replaces exactly its declarations, definitions and uses (same kind, same function for local names) in the same document by one and the same new name with the prefix of its kind; a new name which is empty, contains other characters, starts with a digit or would not be read as the same kind of identifier is rejected without an edit. Prepare-rename reports the range of exactly the symbol which rename would rename.',
     ['inputs'], 'all documents, positions and new names', 'No test exercises rename.',
     ['src/main.rs', 'src/rename.rs', 'src/hir_index.rs'], [('rename, get_rename_edits', 'src/main.rs, src/rename.rs')],
     'value-flow normal form compared with a specification per symbol kind', VF + TRUST)
prop('C12', 'Diagnostics report every error, at the right place, and nothing else',
     'Each syntax error of the tokenizer and of the parser, each use of an undefined or undeclared symbol, each definition after the first of a symbol, and each branch or phi instruction whose targets cannot be read leads to exactly one published diagnostic with the span of that error or occurrence, for every kind of symbol; a document without such errors gets an empty list (which clears earlier diagnostics).',
     ['inputs', 'histories'], 'all documents', 'No test computes diagnostics.',
     ['src/diagnostics.rs', 'src/main.rs', 'src/hir_parser.rs'], [('diagnostics_from_parser / _from_statements / _from_index', 'src/diagnostics.rs')],
     'value-flow normal form of the published list compared with a specification', VF + TRUST)
prop('C13', 'The control flow graph shows exactly the branches of the requested function',
     'The graph shown for a function contains, for each branch target of each branching instruction of each labelled basic block of that function, an edge from that block to the named target, and nothing else; it is the function of the requested name in the requested document, and the names are quoted so that the result is a well-formed graph for every identifier.',
     ['inputs'], 'all functions of all documents', 'The test renders two tiny functions.',
     ['src/control_flow_graph.rs', 'src/hir_parser.rs', 'src/main.rs'], [('create_cfg_dot_visualization, is_branching', 'src/control_flow_graph.rs, src/hir_parser.rs'), ('execute_command', 'src/main.rs')],
     'value-flow normal form of the graph text, recognised as a DOT graph and compared with a specification', VF + TRUST)
prop('C14', 'The accepted language and the recorded spans are fixed and total',
     'Every document is tokenized and parsed to the end: a text which does not follow the grammar of Hyper IR yields errors, never silently dropped text, and the remaining statements are still recognised; a text which follows it yields one statement per line or function with the names, blocks, instructions, references and source spans it contains.',
     ['inputs'], 'all texts', 'The parser tests sample a handful of statements; each alternative of the grammar has rarely used branches.',
     ['src/hir_tokenizer.rs', 'src/hir_parser.rs'], [('combinator grammar', 'src/hir_tokenizer.rs: tokenizer, src/hir_parser.rs: parser, parse_from_str')],
     'symbolic evaluation of the combinator construction to a canonical attribute grammar, compared alternative by alternative', 'The parser-combinator expressions are evaluated symbolically into productions with attribute actions; each must equal the reviewed grammar; repetition bodies must consume input.' + TRUST)
prop('C15', 'The index records every occurrence of every symbol, exactly once',
     'For every syntax tree the index contains each global variable, function, debug annotation, label and local variable occurrence exactly once, under its own name, kind, role (declaration, definition, use) and enclosing function, with the span of that name, and the reverse lookup agrees with it.',
     ['inputs'], 'all documents', 'The only test of the index looks at one document; the rest of its kinds, roles and scopes are not sampled at all.',
     ['src/hir_index.rs'], [('create_index', 'src/hir_index.rs')],
     'effect normal form of index construction (all insertions with path conditions) compared with a specification', VF + TRUST)
prop('C16', 'Local names never leak between functions',
     'Labels and local variables of one function never influence answers about another function, even if the names are equal: each answer to navigation, rename, numbering shift, graph, hint and diagnostic requests about a local name is computed only from the function body which contains that occurrence.',
     ['inputs'], 'all documents with any number of functions and equal local names', 'No test has two functions with equal local names.',
     ['src/hir_index.rs', 'src/main.rs', 'src/rename.rs', 'src/diagnostics.rs'], [('func_body_id in SymbolOccurrence; per-body tables', 'src/hir_index.rs')],
     'value-flow: provenance of every access to a per-function table', 'All reads and writes of per-function tables are enumerated; the body they belong to must be the one of the occurrence.' + TRUST)
prop('C17', 'Outline, folding and code lenses cover every function and block',
     'The outline lists every definition of a global variable and every function body, folding covers every function body and every basic block, and each function with exactly one definition has a code lens whose command shows the graph of that function of that document; each with the range of that element and no others.',
     ['inputs'], 'all documents', 'No test exercises these requests.',
     ['src/main.rs', 'src/hir_index.rs'], [('document_symbol, folding_range, code_lens', 'src/main.rs')],
     'value-flow normal form compared with a specification', VF + TRUST)
prop('C18', 'Every answer concerns the document which was asked about',
     'A request is answered from the stored document with exactly the requested URI, and locations, edits, hints and diagnostics which refer to that document carry that same URI; a request about a document which is not open is answered with null or an error, never with data of another document.',
     ['histories', 'inputs'], 'all sets of open documents and all requests', 'No test opens two documents.',
     ['src/main.rs'], [('document_map keyed by the URI string', 'src/main.rs')],
     'value-flow: provenance of document keys and of URIs in answers', VF + TRUST)
prop('C19', 'External source locations resolve relative to the workspace folders only',
     'A source path of a debug annotation is turned into a location only by appending it to a workspace folder given by the client and only if that file exists; the first such folder in client order wins and line numbers become zero-based; everything else has no location.',
     ['inputs', 'configurations'], 'all workspace configurations and annotation contents', 'No test resolves paths.',
     ['src/backtrace.rs', 'src/main.rs', 'src/hir_index.rs'], [('resolve_relative_path, parse_backtrace_from_json', 'src/backtrace.rs')],
     'value-flow normal form compared with a specification', VF + TRUST)
prop('C20', 'Code actions are the same whether resolved eagerly or lazily',
     'The numbering action is offered exactly for an empty selection on a numbered identifier, and the edit a client obtains for it is the same whether the server attaches it at once or the client asks for it later; the edit is left out at first only for clients which announced that they can resolve edits and keep data.',
     ['configurations', 'histories', 'inputs'], 'all client capability combinations, documents and positions', 'No test exercises code actions.',
     ['src/main.rs'], [('code_action, do_code_action_resolve, code_actions_lazy_resolve', 'src/main.rs')],
     'value-flow normal forms of both paths compared with one specification', VF + TRUST)
prop('C21', 'Shifting the numbering moves exactly the numbers from the symbol on',
     'Shifting or relatively renaming a numbered symbol renames exactly the numbered symbols of the same kind (and function) whose number is at least that of the symbol, each to its own prefix followed by its own number plus the shift, at every declaration, definition and use; all other symbols are left alone.',
     ['inputs'], 'all documents, symbols and shifts', 'Only the number extraction is tested, on a few names.',
     ['src/rename.rs', 'src/main.rs'], [('get_shift_edits, extract_number_from_identifier', 'src/rename.rs')],
     'value-flow normal form compared with a specification', VF + TRUST)
prop('C22', 'Inlay hints show exactly the incoming edges, function ends and backtraces',
     'For every basic block with a label which is the target of branches there is one hint behind the label listing each branching block once, with a link to it, for every function body one hint at its end which links to its name, and for every instruction whose debug reference has a backtrace one hint behind the reference whose tooltip shows every frame of it; there are no other hints.',
     ['inputs'], 'all documents', 'No test exercises inlay hints.',
     ['src/main.rs', 'src/hir_index.rs', 'src/backtrace.rs'], [('inlay_hint, incoming_bb_branches', 'src/main.rs, src/hir_index.rs')],
     'value-flow normal form compared with a specification', VF + TRUST)
NA = [
    ('C23', 'Answers arrive in time proportional to the document', 'Every request on a document of n characters is answered in time which grows at most proportionally to n log n, so large dumps stay usable.', ['inputs'], 'all documents',
     'Running time of the combinator parser (backtracking) and of hash maps is a runtime quantity; no sound static bound is in reach without a cost model of chumsky, ropey and std.', ['src/hir_parser.rs', 'src/hir_index.rs'], [('single pass over tokens', 'src/hir_index.rs')]),
    ('C24', 'Shifting the numbering never merges two symbols', 'After a numbering shift no two different symbols have the same name, whatever numbers the document contains.', ['inputs'], 'all documents and shifts',
     'Whether two names collide depends on the runtime values of all numbers in the document (and a negative shift can collide by design); deciding it needs arithmetic over the document contents, not a static rule.', ['src/rename.rs'], [('get_shift_edits', 'src/rename.rs')]),
    ('C25', 'A syntax error only affects its own neighbourhood', 'A syntax error inside one statement never removes the statements before it or after the next recovery point from the analysis.', ['inputs'], 'all texts with errors',
     'Which alternative chumsky recovers with depends on which error is furthest at run time (a heuristic inside the dependency); C14 decides statically that the recovery strategies are attached, not what they recover.', ['src/hir_parser.rs'], [('recover_with skip_until', 'src/hir_parser.rs')]),
]


def main():
    done = [p for p in P if os.path.exists(os.path.join(V, 'checks', p['id'] + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in done:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
        for id, t, s, over, q, r, files, mech in NA:
            f.write(json.dumps({'id': id, 'title': t, 'statement': s, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': 'It quantifies over all documents; the tests sample a few small ones.', 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash lib/setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'], 'technique': 'static analysis: ' + p['technique'], 'level': p['level'], 'level_note': p['note']} for p in done],
         'not_applicable': [{'property': n[0], 'reason': n[5]} for n in NA],
         'notes': 'All checks share one extraction of the type-checked program (a rustc driver, lib/extract.sh), cached under build/ by the hash of all sources.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)


main()
