SEEDS = []


def seed(id, property, edits, needs, what, demo): SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo))


M = 'src/main.rs'
seed('nav-overlap-end', 'C10', [('src/hir_index.rs', '.find(|e| e.span.contains(&pos))', '.find(|e| e.span.start <= pos && pos <= e.span.end)')],
     'two names without a character between them (`%a` directly in front of `@b` or a label list without spaces): the cursor at the start of the second one',
     'the symbol in front of the cursor is returned instead of the one under the cursor',
     '''
s = Lsp()
s.open('@b = 1\\n@c = 2 @b@c\\n')
r = s.req('textDocument/definition', s.at(1, 9))
expect('definition of @c', [rng(l['targetRange']) for l in r['result']], [(1, 0, 1, 2)])
''')
seed('index-phi-missing', 'C15', [('src/hir_index.rs', 'for bb_ref in &i.basic_block_refs {', 'for bb_ref in i.basic_block_refs.iter().filter(|_| i.is_branching() || i.dbg_ref.is_none()) {')],
     'a phi instruction with a debug reference', 'the labels mentioned by such a phi are not recorded as uses',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    br b\\n  b:\\n    int32 %x = phi [a, int32 1], [b, int32 2] !1\\n    br b\\n}\\n!1 = 1\\n')
r = s.req('textDocument/references', s.at(1, 2, context={'includeDeclaration': True}))
expect('references of a', [rng(l['range']) for l in r['result']], [(4, 20, 4, 21)])
''')
seed('fold-empty-block', 'C17', [(M, '''                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());''', '''                    .filter(|bb| bb.label.is_none() || !bb.instructions.is_empty())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());''')],
     'a labelled block without instructions', 'such a block has no folding range',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n  b:\\n    ret void\\n}\\n')
r = s.req('textDocument/foldingRange', s.doc())
expect('folding', sorted((f['startLine'], f['endLine']) for f in r['result']), [(0, 4), (1, 1), (2, 3)])
''')
seed('pos-line-end', 'C04', [('src/lsp_utils.rs', 'let first = rope.try_line_to_char(line).ok()?;', 'let first = rope.try_line_to_char(line.min(rope.len_lines().saturating_sub(2))).ok()?;')],
     'a position in the last line of a document which does not end in a newline and has at least two lines', 'the column of that position counts from the start of the previous line',
     '''
s = Lsp()
s.open('@a = 1\\n@b = @a')
r = s.req('textDocument/references', s.at(0, 0, context={'includeDeclaration': True}))
expect('references', [rng(l['range']) for l in r['result']], [(1, 5, 1, 7)])
''')
seed('index-second-body', 'C15', [('src/hir_index.rs', '''                        .find(|(_, e)| e.complete_range.contains(&t.1.start))''', '''                        .rfind(|(i, e)| e.complete_range.contains(&t.1.start) || func_body_id == Some(*i))''')],
     'two functions; a local name in the second one after a local name in the first', 'its uses are recorded for whichever of the bodies comes last',
     '''
s = Lsp()
f = lambda n: 'define void @%s(int32 %%x) {\\n  a:\\n    ret int32 %%x\\n}\\n' % n
s.open(f('f') + f('g') + 'define void @h() {\\n  a:\\n    ret int32 %x\\n}\\n@z = 1 %x\\n')
d = s.open(f('f') + 'declare void @k(int32 %x)\\n', 'file:///y.hir')
r = s.req('textDocument/references', s.at(0, 22, 'file:///y.hir', context={'includeDeclaration': True}))
expect('references', [rng(l['range']) for l in r['result']], [(2, 14, 2, 16)])
''')

# ---- second batch
FN = "f = lambda n, b='    ret void\\\\n': 'define void @%s() {\\\\n%s}\\\\n' % (n, b)\n".replace('\\\\', '\\')
seed('bt-separator', 'C01', [('src/backtrace.rs', "let separator_pos = max(path.rfind('/'), path.rfind('\\\\'));", "let separator_pos = max(path.rfind('/'), path.rfind(['\\\\', '\\u{2215}']));")],
     'a backtrace frame without a symbol name whose file name contains U+2215 after the last other separator', 'the path is split inside of that character: the request panics',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    ret void !1\\n}\\n!1 = {"backtrace": [["", "x\\u2215y:3"]]}\\n')
r = s.req('textDocument/inlayHint', s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}}))
expect('hints', len(r.get('result') or []), 2)
''')
seed('dbg-value-quotes', 'C01', [('src/hir_index.rs', '''                    let value = &src[start..end];
''', '''                    let value = match def.first().unwrap().0 {
                        Token::Str(_) => &src[start + 1..end - 1],
                        _ => &src[start..end],
                    };
''')],
     'a debug annotation which starts with a string and ends with a word whose last letter is not ASCII', 'the text is sliced inside of a character: opening the document panics',
     '''
s = Lsp()
s.open('!1 = "a" caf\\u00e9\\n@a = 1\\n')
r = s.req('textDocument/documentSymbol', s.doc())
expect('symbols', [d['name'] for d in r.get('result') or []], ['@a'])
''')
seed('publish-under-guard', 'C02', [(M, '''        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
''', '''        // Only publish the diagnostics if the document is still known
        if let Some(doc) = self.document_map.get(params.uri.as_str()) {
            let uri = params.uri.clone();
            if doc.rope.len_bytes() == 0 {
                diagnostics_cleared(&doc.index);
            }
            self.client
                .publish_diagnostics(uri, diagnostics, Some(params.version))
                .await;
        }
'''), (M, '''struct TextDocumentItem {''', '''fn diagnostics_cleared(index: &HIRIndex) {
    debug_assert!(index.reverse_idx.is_empty());
}

struct TextDocumentItem {''')],
     'the client does not read the published diagnostics at once and sends another change of the document meanwhile', 'the document stays locked while the server waits for the client: the change blocks the server for good',
     '''
import time
s = Lsp()
# a client which stops reading: the diagnostics of the first document do not fit into the pipe
import subprocess, os, json
b = os.path.abspath('target/debug/hyper-ir-lsp')
p = subprocess.Popen([b], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
def send(m):
    d = json.dumps(dict(jsonrpc='2.0', **m)).encode()
    p.stdin.write(b'Content-Length: %d\\r\\n\\r\\n' % len(d) + d)
    p.stdin.flush()
send({'id': 1, 'method': 'initialize', 'params': {'capabilities': {}, 'processId': None, 'rootUri': None}})
send({'method': 'initialized', 'params': {}})
text = 'define void @f() {\\n  a:\\n' + '    br b\\n' * 1500 + '}\\n'
def change(v): send({'method': 'textDocument/didChange', 'params': {'textDocument': {'uri': 'file:///x.hir', 'version': v}, 'contentChanges': [{'text': text}]}})
for v in range(1, 9): change(v)
time.sleep(20)
out = []
def rd():
    while True:
        d = os.read(p.stdout.fileno(), 65536)
        if not d: return
        out.append(d)
threading.Thread(target=rd, daemon=True).start()
send({'id': 2, 'method': 'textDocument/foldingRange', 'params': {'textDocument': {'uri': 'file:///x.hir'}}})
for k in range(300):
    if b'"id":2' in b''.join(out): break
    time.sleep(0.2)
p.kill()
expect('still answers', b'"id":2' in b''.join(out), True)
''')
seed('reopen-stale', 'C03', [(M, '''    async fn did_open(&self, params: DidOpenTextDocumentParams) {
        self.on_change''', '''    async fn did_open(&self, params: DidOpenTextDocumentParams) {
        if self
            .document_map
            .contains_key(params.text_document.uri.as_str())
        {
            // Already analyzed
            return;
        }
        self.on_change''')],
     'a document which is opened again after it was closed, with another text', 'the old text keeps being used',
     '''
s = Lsp()
s.open('@a = 1\\n')
s.note('textDocument/didClose', s.doc())
s.note('textDocument/didOpen', {'textDocument': {'uri': 'file:///x.hir', 'languageId': 'hir', 'version': 1, 'text': '@b = 1\\n'}})
r = s.req('textDocument/documentSymbol', s.doc())
expect('symbols', [d['name'] for d in r['result']], ['@b'])
''')
seed('publish-first', 'C03', [(M, '''        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );

        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
''', '''        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;

        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
''')],
     'two changes directly after each other, the first of them blocked while it publishes its diagnostics', 'the text of the first change replaces that of the second one',
     '''
import time
def run(n):
    p = subprocess.Popen([os.path.abspath('target/debug/hyper-ir-lsp')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def send(m):
        d = json.dumps(dict(jsonrpc='2.0', **m)).encode()
        p.stdin.write(b'Content-Length: %d\\r\\n\\r\\n' % len(d) + d)
        p.stdin.flush()
    def change(v, t): send({'method': 'textDocument/didChange', 'params': {'textDocument': {'uri': 'file:///x.hir', 'version': v}, 'contentChanges': [{'text': t}]}})
    send({'id': 1, 'method': 'initialize', 'params': {'capabilities': {}, 'processId': None, 'rootUri': None}})
    send({'method': 'initialized', 'params': {}})
    time.sleep(1)
    # these diagnostics do not fit into the pipe: the server waits until the client reads
    for v in range(n):
        change(v + 1, 'define void @f() {\\n  a:\\n' + '    br b\\n' * 800 + '}\\n')
        time.sleep(1)
    change(n + 1, '@latest = 1\\n')
    time.sleep(0.5)
    send({'id': 2, 'method': 'textDocument/documentSymbol', 'params': {'textDocument': {'uri': 'file:///x.hir'}}})
    time.sleep(2)
    out = []
    def rd():
        while True:
            d = os.read(p.stdout.fileno(), 65536)
            if not d: return
            out.append(d)
    threading.Thread(target=rd, daemon=True).start()
    for k in range(50):
        if b'"id":2' in b''.join(out): break
        time.sleep(0.2)
    time.sleep(0.5)
    p.kill()
    return [b'@latest' in m for m in b''.join(out).split(b'Content-Length') if b'"id":2' in m]
for n in range(1, 7): expect('the request sees the latest text', run(n), [True])
''')
seed('range-empty', 'C04', [('src/lsp_utils.rs', 'end: offset_to_lsp_pos(rope, span.end)?,', 'end: offset_to_lsp_pos(rope, span.end.max(span.start + 1))?,')],
     'an error at the very end of the document (an empty span)', 'the end of the document is no position: the diagnostic disappears',
     '''
s = Lsp()
r = s.open('define void @f(')
expect('diagnostics', (0, 15, 0, 15) in [rng(d['range']) for d in r['params']['diagnostics']], True)
''')
seed('exists-creates', 'C05', [('src/backtrace.rs', 'if uri.to_file_path().ok()?.exists() {', '''let path = uri.to_file_path().ok()?;
        let readable = std::fs::OpenOptions::new()
            .append(true)
            .create(path.extension().is_none())
            .open(&path)
            .is_ok();
        if readable || path.is_dir() {''')],
     'a backtrace which names a file without extension that does not exist', 'the file is created',
     '''
import tempfile, os, shutil
d = tempfile.mkdtemp()
s = Lsp(roots=['file://' + d])
s.open('define void @f() {\\n  a:\\n    ret void !1\\n}\\n!1 = {"backtrace": [["g", "Makefile:3"]]}\\n')
s.req('textDocument/inlayHint', s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}}))
l = os.listdir(d)
shutil.rmtree(d)
expect('files', l, [])
''')
seed('println-unresolved', 'C05', [('src/backtrace.rs', '''            let line = filepath_linenr.as_ref().map(|f| f.1).unwrap_or(0);
''', '''            let line = filepath_linenr.as_ref().map(|f| f.1).unwrap_or_else(|| {
                println!("no line number in frame {}", name);
                0
            });
''')],
     'a backtrace frame without a line number', 'text is written into the protocol stream',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    ret void !1\\n}\\n!1 = {"backtrace": [["g", "a.cpp"]]}\\n')
s.send({'id': 77, 'method': 'textDocument/inlayHint', 'params': s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}})})
import re, time
p = subprocess.Popen([os.path.abspath('target/debug/hyper-ir-lsp')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
def send(m):
    d = json.dumps(dict(jsonrpc='2.0', **m)).encode()
    p.stdin.write(b'Content-Length: %d\\r\\n\\r\\n' % len(d) + d)
    p.stdin.flush()
send({'id': 1, 'method': 'initialize', 'params': {'capabilities': {}, 'processId': None, 'rootUri': None}})
send({'method': 'initialized', 'params': {}})
time.sleep(1)
send({'method': 'textDocument/didOpen', 'params': {'textDocument': {'uri': 'file:///x.hir', 'languageId': 'hir', 'version': 1, 'text': 'define void @f() {\\n  a:\\n    ret void !1\\n}\\n!1 = {"backtrace": [["g", "a.cpp"]]}\\n'}}})
time.sleep(1)
send({'id': 2, 'method': 'textDocument/inlayHint', 'params': s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}})})
time.sleep(2)
p.stdin.close()
p.kill()
o = p.stdout.read()
ok = True
while o:
    m = re.match(rb'Content-Length: (\\d+)\\r\\n\\r\\n', o)
    if not m:
        ok = False
        break
    o = o[m.end() + int(m.group(1)):]
expect('only messages', ok, True)
''')
seed('resolve-sets-lazy', 'C06', [(M, '''    async fn code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {
''', '''    async fn code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {
        // A client which sends this request obviously supports lazy resolving
        self.code_actions_lazy_resolve.lock().unwrap().set(true);
''')],
     'a client without lazy resolving which resolves an action once (in order to refresh it)', 'from then on code actions come without their edit',
     '''
s = Lsp()
s.open('@a1 = 1\\n')
z = {'line': 0, 'character': 1}
p = s.doc(range={'start': z, 'end': z}, context={'diagnostics': []})
a = s.req('textDocument/codeAction', p)['result']
s.req('codeAction/resolve', a[0])
expect('same answer', s.req('textDocument/codeAction', p)['result'], a)
''')
seed('md-plain-symbol', 'C07', [('src/backtrace.rs', '''        format!("`{}`", sanitize_markdown_code(&frame.symbol))
''', '''        if frame.symbol.starts_with('<') {
            return frame.symbol.clone();
        }
        format!("`{}`", sanitize_markdown_code(&frame.symbol))
''')],
     'a frame without a file whose symbol starts with `<`', 'the symbol is inserted into the tooltip as Markdown',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    ret void !1\\n}\\n!1 = {"backtrace": [["<x> [y](command:z)"]]}\\n'.replace('"]]', '", 1]]'))
r = s.req('textDocument/inlayHint', s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}}))
expect('no link', '](command' in json.dumps(r['result']), False)
''')
seed('legend-modifier', 'C08', [(M, 'token_types: LEGEND_TYPE.into(),', '''token_types: LEGEND_TYPE
                                        .iter()
                                        .filter(|t| **t != SemanticTokenType::MODIFIER)
                                        .cloned()
                                        .collect(),''')],
     'a document with a function modifier', 'its tokens have a type which is not in the announced legend',
     '''
s = Lsp()
s.open('declare exported int64 @f()\\n')
n = len(s.init['result']['capabilities']['semanticTokensProvider']['legend']['tokenTypes'])
d = s.req('textDocument/semanticTokens/full', s.doc())['result']['data']
expect('types in legend', all(t < n for t in d[3::5]), True)
''')
seed('command-arity', 'C08', [(M, '''                                arguments: Some(vec![
                                    Value::String(uri_str.clone()),
                                    Value::String(f.0.clone()),
                                ]),''', '''                                arguments: Some(if f.1.decls.is_empty() {
                                    vec![
                                        Value::String(uri_str.clone()),
                                        Value::String(f.0.clone()),
                                    ]
                                } else {
                                    vec![Value::String(uri_str.clone())]
                                }),''')],
     'a function which is declared and defined', 'its lens has arguments which the server rejects',
     '''
s = Lsp()
s.open('declare void @f()\\ndefine void @f() {\\n  a:\\n    br a\\n}\\n')
l = s.req('textDocument/codeLens', s.doc())['result']
s.send({'id': 99, 'method': 'workspace/executeCommand', 'params': {'command': l[0]['command']['command'], 'arguments': l[0]['command']['arguments']}})
m = s.waitmsg('hyperir/showDot', 5)
expect('graph', '"a" -> "a"' in (m.get('params') or {}).get('dotGraph', ''), True)
''')
seed('tokens-first', 'C09', [('src/semantic_token.rs', '''            let delta_line = line - pre_line;
''', '''            let delta_line = line - pre_line;
            if delta_line == 0 && start == pre_start {
                // Never highlight a position twice
                return None;
            }
''')],
     'a document which starts with a token in its very first column', 'this token is not highlighted',
     '''
s = Lsp()
s.open('@a = 1\\n')
expect('tokens', s.req('textDocument/semanticTokens/full', s.doc())['result']['data'], [0, 0, 2, 2, 0, 0, 5, 1, 4, 0])
''')
seed('def-self', 'C10', [(M, '''                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let links = locations
                .drain(..)
''', '''                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            if locations.len() > 1 {
                // Do not offer the place we are coming from
                locations.retain(|loc| loc.range != origin_selection_range);
            }
            let links = locations
                .drain(..)
''')],
     'a symbol with several definitions, the cursor on one of them', 'that definition is missing in the answer',
     '''
s = Lsp()
s.open('@a = 1\\n@a = 2\\n')
r = s.req('textDocument/definition', s.at(0, 0))
expect('definitions', [rng(l['targetRange']) for l in r['result']], [(0, 0, 0, 2), (1, 0, 1, 2)])
''')
seed('rename-strip-all', 'C11', [(M, '''            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }
''', '''            while let (false, Some(stripped)) = (prefix.is_empty(), new_name.strip_prefix(prefix)) {
                new_name = stripped.to_string();
            }
''')],
     'a new name with the prefix twice', 'it is accepted instead of rejected',
     '''
s = Lsp()
s.open('@a = 1\\n')
r = s.req('textDocument/rename', s.at(0, 0, newName='@@b'))
expect('rejected', 'error' in r, True)
''')
seed('prepare-end', 'C11', [(M, '''            let symbol = doc.index.find_symbol_at_position(offset)?;
            let range = range_to_lsp(&doc.rope, &symbol.span);
''', '''            let symbol = doc
                .index
                .find_symbol_at_position(offset)
                .or_else(|| doc.index.find_symbol_at_position(offset.checked_sub(1)?))?;
            let range = range_to_lsp(&doc.rope, &symbol.span);
''')],
     'the cursor directly behind a name', 'the client is told that this name can be renamed, but the rename is rejected',
     '''
s = Lsp()
s.open('@a = 1\\n')
p = s.req('textDocument/prepareRename', s.at(0, 2))
r = s.req('textDocument/rename', s.at(0, 2, newName='b'))
expect('agree', p.get('result') is not None, 'result' in r)
''')
seed('rename-decl-once', 'C11', [('src/rename.rs', '''        .chain(usedefs.uses.iter())
''', '''        .chain(usedefs.uses.iter().filter(|u| !usedefs.decls.iter().any(|d| d.end >= u.start)))
''')],
     'a function which is used in front of its declaration', 'that use keeps the old name',
     '''
s = Lsp()
s.open('@a = @f\\ndeclare void @f()\\n')
r = s.req('textDocument/rename', s.at(0, 5, newName='g'))
expect('edits', sorted(rng(e['range']) for e in r['result']['changes']['file:///x.hir']), [(0, 5, 0, 7), (1, 13, 1, 15)])
''')
seed('diag-limit', 'C12', [(M, '''        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
''', '''        diagnostics.extend(diagnostics_from_parser(&rope, &errors).take(100));
''')],
     'a document with more than 100 syntax errors', 'the others are not reported',
     '''
s = Lsp()
r = s.open('%%% x\\n@a = 1\\n' * 130)
expect('at least one error per bad line', len(r['params']['diagnostics']) >= 130 + 129, True)
''')
seed('diag-not-cleared', 'C12', [(M, '''        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
''', '''        if !diagnostics.is_empty() || !params.text.is_empty() {
            self.client
                .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
                .await;
        }
''')],
     'a document with errors whose whole text is deleted', 'the old diagnostics stay',
     '''
s = Lsp()
s.open('@a = @b\\n')
s.note('textDocument/didChange', {'textDocument': {'uri': 'file:///x.hir', 'version': 2}, 'contentChanges': [{'text': ''}]})
r = s.waitmsg('textDocument/publishDiagnostics', 5)
expect('cleared', (r.get('params') or {}).get('diagnostics'), [])
''')
seed('cfg-prefix', 'C13', [(M, '.find(|b| b.name.0 == *func_name)', '.find(|b| b.name.0.trim_end_matches(char::is_numeric) == func_name.trim_end_matches(char::is_numeric))')],
     'two functions whose names only differ in the number at the end', 'the graph of the first one is shown for both',
     '''
s = Lsp()
f = lambda n, l: 'define void @%s() {\\n  %s:\\n    br %s\\n}\\n' % (n, l, l)
s.open(f('f1', 'a') + f('f2', 'b'))
s.send({'id': 99, 'method': 'workspace/executeCommand', 'params': {'command': 'visualize-cfg', 'arguments': ['file:///x.hir', '@f2']}})
m = s.waitmsg('hyperir/showDot', 5)
expect('graph', '"b" -> "b"' in (m.get('params') or {}).get('dotGraph', ''), True)
''')
seed('cfg-self-loop', 'C13', [('src/control_flow_graph.rs', 'for target in &i.basic_block_refs {', 'for target in i.basic_block_refs.iter().filter(|t| Some(&t.0) != bb.label.as_ref().map(|l| &l.0) || i.basic_block_refs.len() == 1) {')],
     'a conditional branch to the block itself', 'the edge is missing',
     '''
s = Lsp()
s.open('define void @f(int1 %c) {\\n  a:\\n    br int1 %c, a, b\\n  b:\\n    ret void\\n}\\n')
s.send({'id': 99, 'method': 'workspace/executeCommand', 'params': {'command': 'visualize-cfg', 'arguments': ['file:///x.hir', '@f']}})
m = s.waitmsg('hyperir/showDot', 5)
expect('graph', '"a" -> "a"' in (m.get('params') or {}).get('dotGraph', ''), True)
''')
seed('condbr-const', 'C14', [('src/hir_parser.rs', '''        .then_ignore(any())
        .then_ignore(just(Token::Punctuation(',')))
        .then(ident)
        .then_ignore(just(Token::Punctuation(',')))
        .then(ident)''', '''        .then_ignore(local_name)
        .then_ignore(just(Token::Punctuation(',')))
        .then(ident)
        .then_ignore(just(Token::Punctuation(',')))
        .then(ident)''')],
     'a conditional branch on a constant', 'its targets are not recognised',
     '''
s = Lsp()
r = s.open('define void @f() {\\n  a:\\n    br int1 1, a, b\\n  b:\\n    ret void\\n}\\n')
expect('diagnostics', r['params']['diagnostics'], [])
''')
seed('block-span-first', 'C14', [('src/hir_parser.rs', 'end: instructions.last().map_or(label.1.end, |i| i.span.end),', 'end: instructions.iter().rev().find(|i| i.dbg_ref.is_none() || !i.is_branching()).map_or(label.1.end, |i| i.span.end),')],
     'a block which ends in a branch with a debug reference', 'the block ends in front of this branch',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    x y\\n    br a !1\\n}\\n!1 = 1\\n')
r = s.req('textDocument/foldingRange', s.doc())
expect('folding', sorted((f['startLine'], f['endLine']) for f in r['result']), [(0, 4), (1, 3)])
''')
seed('comment-cr', 'C14', [('src/hir_tokenizer.rs', ".chain(take_until(just('\\n').or(end().to('\\n')).rewind()))", ".chain(take_until(one_of(\"\\r\\n\").or(end().to('\\n')).rewind()))")],
     'a carriage return in the middle of a comment', 'the comment ends there and the rest of it is read as source',
     '''
s = Lsp()
r = s.open('@a = 1 # x\\r @b\\n')
expect('diagnostics', r['params']['diagnostics'], [])
''')
seed('scope-sticky', 'C16', [('src/hir_index.rs', '.map(|t| t.0);', '.map(|t| t.0)\n                        .or(func_body_id);')],
     'a declaration with named parameters behind a function definition', 'the names of the parameters count as uses in the function in front of it',
     '''
s = Lsp()
s.open('define void @f(int32 %x) {\\n  a:\\n    ret int32 %x\\n}\\ndeclare void @g(int32 %x)\\n')
r = s.req('textDocument/references', s.at(0, 22, context={'includeDeclaration': True}))
expect('references', [rng(l['range']) for l in r['result']], [(2, 14, 2, 16)])
''')
seed('scope-by-name', 'C16', [(M, '''                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;''', '''                symbol.func_body_id.and_then(|id| {
                    let name = &doc.index.function_bodies[id].name.0;
                    doc.index.function_bodies.iter().find(|b| b.name.0 == *name)
                }),
            )?
            .get(&symbol.name)?;''')],
     'a function which is defined twice, with equal local names', 'navigation in the second one leads into the first one',
     '''
s = Lsp()
f = 'define void @f(int32 %x) {\\n  a:\\n    ret int32 %x\\n}\\n'
s.open(f + f)
r = s.req('textDocument/references', s.at(4, 22, context={'includeDeclaration': True}))
expect('references', [rng(l['range']) for l in r['result']], [(6, 14, 6, 16)])
''')
seed('lens-redefined', 'C17', [(M, 'if let [def_range] = &f.1.defs[..] {', 'if let [def_range, ..] = &f.1.defs[..] {')],
     'a function with two definitions', 'it has a lens although it is not clear which of them is meant',
     '''
s = Lsp()
f = 'define void @f() {\\n  a:\\n    ret void\\n}\\n'
s.open(f + f)
expect('lenses', s.req('textDocument/codeLens', s.doc())['result'], [])
''')
seed('outline-unique', 'C17', [(M, 'f.1.defs.iter().filter_map(move |def| {', 'f.1.defs.iter().take(if f.1.uses.is_empty() { usize::MAX } else { 1 }).filter_map(move |def| {')],
     'a global variable which is defined twice and used', 'the second definition is missing in the outline',
     '''
s = Lsp()
s.open('@a = 1\\n@a = 2\\n@b = @a\\n')
r = s.req('textDocument/documentSymbol', s.doc())
expect('outline', sorted((d['name'], d['range']['start']['line']) for d in r['result']), [('@a', 0), ('@a', 1), ('@b', 2)])
''')
seed('uri-space', 'C18', [(M, '''        let uri = params.text_document.uri.to_string();
        let lsp_tokens''', '''        let uri = params.text_document.uri.to_string().replace("%20", "+");
        let lsp_tokens''')],
     'a document with a space in its path', 'it is looked up under another name',
     '''
s = Lsp()
s.open('@a = 1\\n', 'file:///x%20y.hir')
r = s.req('textDocument/semanticTokens/full', s.doc('file:///x%20y.hir'))
expect('tokens', (r['result'] or {}).get('data'), [0, 0, 2, 2, 0, 0, 5, 1, 4, 0])
''')
seed('path-absolute', 'C19', [('src/backtrace.rs', '''    root_paths.iter().find_map(|baseuri| {
''', '''    if path.starts_with('/') && std::path::Path::new(path).exists() {
        return Url::from_file_path(path).ok();
    }
    root_paths.iter().find_map(|baseuri| {
''')],
     'an absolute path of an existing file outside of the workspace', 'a location outside of the workspace is returned',
     '''
import tempfile
d = tempfile.mkdtemp()
s = Lsp(roots=['file://' + d])
s.open('declare void @f() !1\\n!1 = "/etc/passwd:3"\\n')
r = s.req('textDocument/definition', s.at(0, 14))
os.rmdir(d)
expect('locations', r['result'], [])
''')
seed('path-last', 'C19', [('src/backtrace.rs', 'root_paths.iter().find_map(|baseuri| {', 'root_paths.iter().rev().find_map(|baseuri| {')],
     'two workspace folders which both contain the file', 'the last one wins',
     '''
import tempfile, shutil
d = tempfile.mkdtemp()
for k in 'ab':
    os.mkdir(d + '/' + k)
    open(d + '/' + k + '/f.cpp', 'w').close()
s = Lsp(roots=['file://' + d + '/a', 'file://' + d + '/b'])
s.open('declare void @f() !1\\n!1 = "f.cpp:3"\\n')
r = s.req('textDocument/definition', s.at(0, 14))
shutil.rmtree(d)
expect('locations', [l['targetUri'].rsplit('/', 2)[1] for l in r['result']], ['a'])
''')
seed('lazy-any-property', 'C20', [(M, '.map(|c| c.properties.contains(&"edit".to_string()))', '.map(|c| !c.properties.is_empty())')],
     'a client which can resolve other properties than the edit', 'it never gets the edit',
     '''
s = Lsp(caps={'textDocument': {'codeAction': {'dataSupport': True, 'resolveSupport': {'properties': ['command']}}}})
s.open('@a1 = 1\\n')
z = {'line': 0, 'character': 1}
a = s.req('textDocument/codeAction', s.doc(range={'start': z, 'end': z}, context={'diagnostics': []}))['result']
expect('edit', 'edit' in a[0], True)
''')
seed('action-line', 'C20', [(M, 'if range.start != range.end {', 'if range.start.line != range.end.line {')],
     'a selection within one line', 'the action is offered although a range is selected',
     '''
s = Lsp()
s.open('@a1 = 1\\n')
z = {'line': 0, 'character': 1}
r = s.req('textDocument/codeAction', s.doc(range={'start': z, 'end': {'line': 0, 'character': 2}}, context={'diagnostics': []}))
expect('no action', r['result'], None)
''')
seed('shift-defined-only', 'C21', [('src/rename.rs', 'if nr < renamed_nr {', 'if nr < renamed_nr || usedefs.defs.is_empty() && usedefs.decls.is_empty() {')],
     'an undefined name with a larger number', 'it is not shifted',
     '''
s = Lsp()
s.open('@a1 = @a2\\n')
r = s.req('textDocument/rename', s.at(0, 0, newName='+1'))
expect('edits', sorted(rng(e['range']) for e in r['result']['changes']['file:///x.hir']), [(0, 0, 0, 3), (0, 6, 0, 9)])
''')
seed('hint-once', 'C22', [(M, '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
''', '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
            let mut seen = std::collections::HashSet::<&str>::new();
'''), (M, '''                        let dbg_ref = stmt.dbg_ref.as_ref()?;
''', '''                        let dbg_ref = stmt.dbg_ref.as_ref()?;
                        if !seen.insert(&dbg_ref.0) {
                            return None;
                        }
''')],
     'two instructions with the same debug reference', 'only the first one has a hint',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    x y !1\\n    ret void !1\\n}\\n!1 = {"backtrace": [["g", "a.cpp:3"]]}\\n')
r = s.req('textDocument/inlayHint', s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}}))
expect('hints', sorted(h['position']['line'] for h in r['result']), [2, 3, 4])
''')
seed('hint-self', 'C22', [(M, '''                        let label_parts = incoming_refs
                            .iter()
''', '''                        let label_parts = incoming_refs
                            .iter()
                            .filter(|r| incoming_refs.len() == 1 || Some(*r) != bb.label.as_ref())
''')],
     'a loop block with several predecessors', 'the block itself is not listed',
     '''
s = Lsp()
s.open('define void @f() {\\n  a:\\n    br b\\n  b:\\n    br b\\n}\\n')
r = s.req('textDocument/inlayHint', s.doc(range={'start': {'line': 0, 'character': 0}, 'end': {'line': 9, 'character': 0}}))
expect('incoming', [''.join(p['value'] for p in h['label']) for h in r['result'] if h['position']['line'] == 3], ['incoming: a, b'])
''')
