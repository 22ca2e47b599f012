"""A fifth batch of bugs (b12-*) with their behaviour-preserving twins (r12-*); see refactors.py."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in (
    'main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs',
    'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # two publications, the second one of which replaces the first
    PUB = '''        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
'''
    v('b12-publish-two', 'C12', (M, PUB, '''        let (related, plain): (Vec<_>, Vec<_>) = diagnostics
            .into_iter()
            .partition(|d| d.related_information.is_some());
        self.client
            .publish_diagnostics(params.uri.clone(), plain, Some(params.version))
            .await;
        if !related.is_empty() {
            self.client
                .publish_diagnostics(params.uri.clone(), related, Some(params.version))
                .await;
        }
'''))
    # labels found in the token stream
    v('b12-ident-label', 'C15', (I, '''            _ => {}
        }
    }

    index
''', '''            Token::Ident(name) => {
                if let Some(id) = index
                    .function_bodies
                    .iter()
                    .position(|e| e.complete_range.contains(&t.1.start))
                {
                    if index.function_bodies[id].labels.contains_key(name) {
                        index.add_func_local(id, SymbolKind::Label, UseDefKind::Use, &t.1, name)
                    }
                }
            }
            _ => {}
        }
    }

    index
'''))
    v('b12-ext-once', 'C19', (I, '''                            if let Ok(line) = linestr.parse::<u32>() {
                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs
                                    .push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                            }''', '''                            if let Ok(line) = linestr.parse::<u32>() {
                                let defs =
                                    &mut index.functions.get_mut(funcname).unwrap().external_defs;
                                if defs.is_empty() {
                                    defs.push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                                }
                            }'''))
    v('r12-ext-let', None, (I, '''                            if let Ok(line) = linestr.parse::<u32>() {
                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs
                                    .push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                            }''', '''                            if let Ok(line) = linestr.parse::<u32>() {
                                let filepath = filepath.to_string();
                                if let Some(list) = index.functions.get_mut(funcname) {
                                    list.external_defs.push(ExternalDef { filepath, line });
                                }
                            }'''))
    # a rename across documents
    v('b12-rename-all', 'C18', (M, '''        let edit = WorkspaceEdit {
            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),
            ..Default::default()
        };
        Ok(Some(edit))''', '''        let mut changes = HashMap::from([(pos.text_document.uri, edits)]);
        for other in self.document_map.iter() {
            if let (Ok(uri), Some(ud)) = (
                Url::parse(other.key()),
                other.value().index.functions.get(&symbol.name),
            ) {
                changes
                    .entry(uri)
                    .or_insert_with(|| get_rename_edits(&other.value().rope, ud, &new_name));
            }
        }
        let edit = WorkspaceEdit {
            changes: Some(changes),
            ..Default::default()
        };
        Ok(Some(edit))'''))
    v('b12-fold-next', 'C17', (M, '''                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let range = range_to_lsp(&doc.rope, &bb.span)?;''', '''                    .flat_map(|e| {
                        e.basic_blocks.iter().map(move |bb| (bb, e.complete_range.end))
                    })
                    .filter_map(|(bb, end)| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let span = if bb.label.is_some() {
                            bb.span.clone()
                        } else {
                            bb.span.start..end
                        };
                        let range = range_to_lsp(&doc.rope, &span)?;'''))
    v('b12-cfg-ret', 'C13', (G, '''        for i in &bb.instructions {
            if i''', '''        for i in &bb.instructions {
            if let (Some(label), "ret") = (&bb.label, i.instruction.0.as_str()) {
                graph.push_str(format!("  {} -> \\"exit\\"\\n", escape_dot_label(&label.0)).as_str());
            }
            if i'''))
    v('b12-cmd-case', 'C13', (M, '''.find(|b| b.name.0 == *func_name)''', '''.find(|b| b.name.0.eq_ignore_ascii_case(func_name))'''))
    v('b12-cmd-at', 'C13', (M, '''.find(|b| b.name.0 == *func_name)''', '''.find(|b| b.name.0.trim_start_matches('@') == func_name.trim_start_matches('@'))'''))
    v('b12-num-neg', 'C14', (T, '''    let num = text::int(10).map(Token::Num);''', '''    let num = just('-')
        .or_not()
        .ignore_then(text::int(10))
        .map(Token::Num);'''))
    v('b12-hex-upper', 'C14', (T, '''just("0x").ignore_then''', '''just("0x").or(just("0X")).ignore_then'''))
    v('b12-str-esc', 'C14', (T, '''.ignore_then(filter(|c| *c != '"').repeated())''', '''.ignore_then(filter(|c| *c != '"' && *c != '\\n').repeated())'''))
    v('b12-br-int8', 'C14', (PA, '''        .then_ignore(just(Token::Type("int1".to_string())))
        .then_ignore(any())''', '''        .then_ignore(type_)
        .then_ignore(any())'''))
    v('b12-phi-two', 'C14', (PA, '''                .delimited_by(just(Token::Punctuation('[')), just(Token::Punctuation(']')))
                .separated_by(just(Token::Punctuation(','))),
        )
        .then(dbg_ref.or_not())
        .then_ignore(just(Token::Newline).rewind())
        .map_with_span(|((instruction, targets), dbg_ref), span| Instruction {''', '''                .delimited_by(just(Token::Punctuation('[')), just(Token::Punctuation(']')))
                .separated_by(just(Token::Punctuation(',')))
                .at_most(16),
        )
        .then(dbg_ref.or_not())
        .then_ignore(just(Token::Newline).rewind())
        .map_with_span(|((instruction, targets), dbg_ref), span| Instruction {'''))
    # state in odd places
    v('b12-oncelock', 'C19', (B, '''pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
    root_paths.iter().find_map(|baseuri| {''', '''pub fn resolve_relative_path(root_paths: &[Url], path: &str) -> Option<Url> {
    static BASE: std::sync::OnceLock<Vec<Url>> = std::sync::OnceLock::new();
    let root_paths = BASE.get_or_init(|| root_paths.to_vec());
    root_paths.iter().find_map(|baseuri| {'''))
    v('b12-threadlocal', 'C22', (B, '''pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
''', '''pub fn identify_relevant_frames(frames: &[Frame]) -> Option<usize> {
    thread_local! {
        static LAST: std::cell::RefCell<Option<(usize, Option<usize>)>> = const { std::cell::RefCell::new(None) };
    }
    let known = LAST.with(|l| *l.borrow());
    if let Some((len, res)) = known {
        if len == frames.len() {
            return res;
        }
    }
    let res = find_relevant_frame(frames);
    LAST.with(|l| *l.borrow_mut() = Some((frames.len(), res)));
    res
}

fn find_relevant_frame(frames: &[Frame]) -> Option<usize> {
'''))
    # scan / try_for_each / peekable / custom iterators
    v('r12-sem-scan', None, (S, '''    let mut pre_line = 0;
    let mut pre_start = 0;
    let lsp_tokens = semtoks
        .iter()
        .filter_map(|token| {''', '''    let mut pre_line = 0;
    let mut pre_start = 0;
    let lsp_tokens = semtoks
        .iter()
        .map_while(|token| {'''))
    v('b12-sem-peek', 'C09', (S, '''    tokens
        .iter()
        .filter_map(|(token, span)| match token {''', '''    let mut iter = tokens.iter().peekable();
    let mut kept = Vec::new();
    while let Some(t) = iter.next() {
        if t.0 == Token::Comment && iter.peek().is_none() {
            break;
        }
        kept.push(t);
    }
    kept.into_iter()
        .filter_map(|(token, span)| match token {'''))
    v('r12-sem-collect', None, (S, '''    tokens
        .iter()
        .filter_map(|(token, span)| match token {''', '''    let mut kept = Vec::with_capacity(tokens.len());
    for t in tokens {
        if t.0 == Token::Newline {
            continue;
        }
        kept.push(t);
    }
    kept.into_iter()
        .filter_map(|(token, span)| match token {'''))
    v('b12-rename-while', 'C11', (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()''', '''    let mut edits = Vec::new();
    for list in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        let mut spans = list.iter();
        let Some(first) = spans.next() else { break };
        for range in std::iter::once(first).chain(spans) {
            if let Some(range) = range_to_lsp(rope, range) {
                edits.push(TextEdit {
                    range,
                    new_text: new_name.to_string(),
                });
            }
        }
    }
    edits'''))
    v('r12-rename-while', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()''', '''    let mut edits = Vec::new();
    for list in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        let mut spans = list.iter();
        let Some(first) = spans.next() else { continue };
        for range in std::iter::once(first).chain(spans) {
            if let Some(range) = range_to_lsp(rope, range) {
                edits.push(TextEdit {
                    range,
                    new_text: new_name.to_string(),
                });
            }
        }
    }
    edits'''))
    v('b12-shift-labeled', 'C21', (RN, '''        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()''', '''        .map_while(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            Some((prefix, nr, usedefs))
        })
        .filter(|(_, nr, _)| *nr >= renamed_nr)
        .flat_map(|(prefix, nr, usedefs)| {
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            get_rename_edits(rope, usedefs, &new_name)
        })
        .collect::<Vec<_>>()'''))
    v('r12-shift-steps', None, (RN, '''        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()''', '''        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            Some((prefix, nr, usedefs))
        })
        .filter(|(_, nr, _)| *nr >= renamed_nr)
        .flat_map(|(prefix, nr, usedefs)| {
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            get_rename_edits(rope, usedefs, &new_name)
        })
        .collect::<Vec<_>>()'''))
    # Option/Result plumbing
    v('b12-diag-try', 'C12', (D, '''                let diags = ud
                    .uses
                    .iter()
                    .filter_map(move |use_| {
                        let message = format!("Use of undefined symbol `{}`", name);
                        Some(Diagnostic::new_simple(range_to_lsp(rope, use_)?, message))
                    })
                    .collect::<Vec<_>>();
                Some(diags)''', '''                let first = ud.uses.first()?;
                let diags = ud
                    .uses
                    .iter()
                    .filter(|use_| use_.len() == first.len() && use_.start <= first.start)
                    .filter_map(move |use_| {
                        let message = format!("Use of undefined symbol `{}`", name);
                        Some(Diagnostic::new_simple(range_to_lsp(rope, use_)?, message))
                    })
                    .collect::<Vec<_>>();
                Some(diags)'''))
    v('b12-diag-both', 'C12', (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            if ud.decls.is_empty() && ud.defs.is_empty() && ud.external_defs.is_empty() && !name.ends_with('_') {'''))
    v('b12-use-opt', 'C10', (M, '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some((origin_selection_range, ranges))''', '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        if ranges.iter().any(|l| l.range == origin_selection_range) && ranges.len() > 1 {
            ranges.retain(|l| l.range != origin_selection_range);
        }
        Some((origin_selection_range, ranges))'''))
    v('b12-lens-first', 'C17', (M, '''                    if let [def_range] = &f.1.defs[..] {''', '''                    if let [def_range, ..] = &f.1.defs[..] {'''))
    v('b12-lens-body', 'C17', (M, '''                    if let [def_range] = &f.1.defs[..] {''', '''                    if let ([def_range], true) = (&f.1.defs[..], f.1.decls.is_empty() || !f.1.uses.is_empty()) {'''))
    v('b12-hint-last-parts', 'C22', (M, '''                            .flatten()
                            .collect::<Vec<_>>();

                        Some(InlayHint {
                            position: offset_to_lsp_pos(''', '''                            .flatten()
                            .take(64)
                            .collect::<Vec<_>>();

                        Some(InlayHint {
                            position: offset_to_lsp_pos('''))
    v('b12-frames-skip', 'C22', (B, '''    let bt = backtrace
        .iter()
        .map(|frame| {''', '''    let bt = backtrace
        .iter()
        .skip_while(|frame| frame.get(1).is_none())
        .map(|frame| {'''))
    v('b12-frames-none', 'C22', (B, '''    Some(bt)
}''', '''    if bt.iter().all(|f| f.filepath.is_none()) {
        return None;
    }
    Some(bt)
}'''))
    v('b12-md-stateful', 'C07', (B, '''                '>' => sanitized.push(c),''', '''                '>' => sanitized.push(c),
                '`' if sanitized.is_empty() => sanitized.push(c),'''))
    v('b12-md-escape', 'C07', (B, '''                _ => sanitized.push('�'),''', '''                '`' => sanitized.push_str("\\\\`"),
                _ => sanitized.push('�'),'''))
    v('b12-md-join', 'C07', (B, '''            let link = resolved_fp.as_str().replace('(', "%28").replace(')', "%29");''', '''            let link = match resolved_fp.as_str().contains('(') {
                true => resolved_fp.as_str().replace('(', "%28").replace(')', "%29"),
                false => resolved_fp.as_str().to_string(),
            };'''))
    v('b12-lazy-or', 'C20', (M, '''                supports_resolve && supports_data''', '''                supports_resolve || (supports_data && c.is_preferred_support == Some(true))'''))
    v('b12-data-body', 'C20', (M, '''                        func_body_id: symbol.func_body_id,
                        renamed_nr,''', '''                        func_body_id: symbol.func_body_id.filter(|id| *id > 0),
                        renamed_nr,'''))
    v('b12-pos-surr', 'C04', (L, '''    let char = line.try_utf16_cu_to_char(character).ok()?;''', '''    let char = line
        .chars()
        .scan(0, |acc, c| {
            *acc += c.len_utf16();
            Some(*acc)
        })
        .take_while(|end| *end <= character + 1)
        .count();'''))
    v('b12-range-same', 'C04', (L, '''        end: offset_to_lsp_pos(rope, span.end)?,
''', '''        end: offset_to_lsp_pos(rope, span.end.min(rope.len_bytes().saturating_sub(1)))?,
'''))
    v('b12-key-host', 'C18', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        self.document_map.insert(
            match params.uri.to_file_path() {
                Ok(p) => Url::from_file_path(p).map_or(params.uri.to_string(), |u| u.to_string()),
                Err(_) => params.uri.to_string(),
            },'''))
    v('b12-open-twice', 'C03', (M, '''    async fn did_open(&self, params: DidOpenTextDocumentParams) {
''', '''    async fn did_open(&self, params: DidOpenTextDocumentParams) {
        let key = params.text_document.uri.to_string();
        if params.text_document.language_id != "hir" && self.document_map.contains_key(&key) {
            return;
        }
'''))
    v('b12-change-len', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
        let src = rope.to_string();
''', '''        let mut rope = ropey::Rope::from_str(&params.text);
        if rope.len_lines() > 1 && rope.line(rope.len_lines() - 1).len_chars() == 0 {
            rope.remove(rope.len_chars() - 1..);
        }
        let src = rope.to_string();
'''))
    v('b12-change-src', 'C03', (M, '''        let src = rope.to_string();
''', '''        let src = rope.to_string().replace('\\u{feff}', " ");
'''))
    v('b12-read-file', 'C15', (I, '''    let mut index = HIRIndex {
        ..Default::default()
    };
''', '''    let mut index = HIRIndex {
        ..Default::default()
    };
    if let Some(limit) = std::fs::read_to_string("/etc/hyper-ir-lsp.conf")
        .ok()
        .and_then(|s| s.trim().parse::<usize>().ok())
    {
        if stmts.len() > limit {
            return index;
        }
    }
'''))
    v('b12-env', 'C05', (B, '''pub fn parse_backtrace_from_json(
    root_paths: &[Url],
    json: serde_json::Value,
) -> Option<Vec<Frame>> {
''', '''pub fn parse_backtrace_from_json(
    root_paths: &[Url],
    json: serde_json::Value,
) -> Option<Vec<Frame>> {
    if let Some(dump) = std::env::var_os("HYPER_IR_DUMP") {
        let _ = std::fs::write(dump, json.to_string());
    }
'''))
    v('b12-scope-last', 'C16', (I, '''                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0)
                        .or(func_body_id);'''))
    v('b12-scope-end', 'C16', (I, '''                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                        .find(|(_, e)| t.1.start <= e.complete_range.end)
                        .map(|t| t.0);'''))
    v('b12-unwrap-doc', 'C01', (M, '''            let codelenses = doc
                .index
                .functions
                .iter()
                .filter_map(|f| {''', '''            let codelenses = doc
                .index
                .functions
                .iter()
                .filter_map(|f| {
                    debug_assert!(f.1.uses.iter().all(|u| u.start > f.1.defs[0].start));'''))
    v('b12-slice-name', 'C01', (B, '''        s.chars().take(len - 2).collect::<String>() + "…"''', '''        s[..s.char_indices().nth(len - 1).unwrap().0].to_string() + "…"'''))
    v('r12-slice-name', None, (B, '''        s.chars().take(len - 2).collect::<String>() + "…"''', '''        s[..s.char_indices().nth(len - 2).map_or(s.len(), |c| c.0)].to_string() + "…"'''))
    v('b12-rwlock', 'C02', (M, '''    fn get_use_def_ranges(
        &self,
        pos: &TextDocumentPositionParams,
        ud: UseDefKind,
    ) -> Option<(Range, Vec<Location>)> {
        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;
''', '''    fn get_use_def_ranges(
        &self,
        pos: &TextDocumentPositionParams,
        ud: UseDefKind,
    ) -> Option<(Range, Vec<Location>)> {
        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;
        self.document_map.retain(|_, d| d.rope.len_bytes() > 0);
'''))
    v('b12-nested-get', 'C02', (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
''', '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
                let mut uri = uri;
                if self.root_paths.lock().unwrap().is_empty() {
                    uri.set_fragment(None);
                }
'''))
    v('r12-lockorder', None, (M, '''    async fn folding_range(&self, params: FoldingRangeParams) -> Result<Option<Vec<FoldingRange>>> {
        let folding_ranges = || -> Option<Vec<FoldingRange>> {
''', '''    async fn folding_range(&self, params: FoldingRangeParams) -> Result<Option<Vec<FoldingRange>>> {
        let folding_ranges = || -> Option<Vec<FoldingRange>> {
            let roots = self.root_paths.lock().unwrap();
            if roots.is_empty() {
                self.document_map.shrink_to_fit();
            }
'''))
    v('b12-mem-action', 'C06', (M, '''    async fn code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {
        self.do_code_action_resolve(action)''', '''    async fn code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {
        if action.edit.is_some() {
            self.code_actions_lazy_resolve.lock().unwrap().set(false);
        }
        self.do_code_action_resolve(action)'''))
    v('b12-cap-sync', 'C08', (M, '''                text_document_sync: Some(TextDocumentSyncCapability::Kind(
                    TextDocumentSyncKind::FULL,
                )),''', '''                text_document_sync: Some(TextDocumentSyncCapability::Options(
                    TextDocumentSyncOptions {
                        open_close: None,
                        change: Some(TextDocumentSyncKind::FULL),
                        ..Default::default()
                    },
                )),'''))
    v('r12-cap-sync', None, (M, '''                text_document_sync: Some(TextDocumentSyncCapability::Kind(
                    TextDocumentSyncKind::FULL,
                )),''', '''                text_document_sync: Some(TextDocumentSyncCapability::Options(
                    TextDocumentSyncOptions {
                        open_close: Some(true),
                        change: Some(TextDocumentSyncKind::FULL),
                        ..Default::default()
                    },
                )),'''))
    # twins of a larger kind
    v('r12-edges', None, (G, '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
''', '''    let edges = func_body.basic_blocks.iter().filter_map(|bb| {
        let from = bb.label.as_ref()?;
        Some(
            bb.instructions
                .iter()
                .filter(|i| i.is_branching())
                .flat_map(|i| i.basic_block_refs.iter())
                .map(move |to| (&from.0, &to.0)),
        )
    });
    for (from, to) in edges.flatten() {
        graph += &format!("  {} -> {}\\n", escape_dot_label(from), escape_dot_label(to));
    }
'''))
    v('b12-edges', 'C13', (G, '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
''', '''    let edges = func_body.basic_blocks.iter().map_while(|bb| {
        let from = bb.label.as_ref()?;
        Some(
            bb.instructions
                .iter()
                .filter(|i| i.is_branching())
                .flat_map(|i| i.basic_block_refs.iter())
                .map(move |to| (&from.0, &to.0)),
        )
    });
    for (from, to) in edges.flatten() {
        graph += &format!("  {} -> {}\\n", escape_dot_label(from), escape_dot_label(to));
    }
'''))
    v('r12-handler-fn', None, (M, '''            Some(folding_ranges)
        }();
        return Ok(folding_ranges);
    }
''', '''            folding_ranges.shrink_to_fit();
            Some(folding_ranges)
        }();
        Ok(folding_ranges)
    }
'''))
    v('r12-prefix-method', None, (M, '''            let prefix = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "@",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "@",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "!",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''            use hyper_ir_lsp::hir_index::SymbolKind as SK;
            const PREFIXES: [(SK, &str); 5] = [
                (SK::GlobalVar, "@"),
                (SK::Function, "@"),
                (SK::DbgAnnotation, "!"),
                (SK::Label, ""),
                (SK::LocalVar, "%"),
            ];
            let prefix = PREFIXES
                .iter()
                .find(|(k, _)| *k == symbol.symbol_kind)
                .map_or("", |(_, p)| p);'''))
    v('b12-out-env', 'C06', (M, '''            folding_ranges.extend(
                doc.index
                    .function_bodies
                    .iter()
                    .flat_map(|e| e.basic_blocks.iter())''', '''            if std::env::var_os("HIR_NO_BLOCKS").is_some() {
                return Some(folding_ranges);
            }
            folding_ranges.extend(
                doc.index
                    .function_bodies
                    .iter()
                    .flat_map(|e| e.basic_blocks.iter())'''))
    v('b12-out-time', 'C06', (M, '''        let lsp_tokens = || -> Option<Vec<SemanticToken>> {
            let doc = self.document_map.get(&uri)?;
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);''', '''        let lsp_tokens = || -> Option<Vec<SemanticToken>> {
            let doc = self.document_map.get(&uri)?;
            let start = std::time::Instant::now();
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            if start.elapsed() > std::time::Duration::from_millis(500) {
                return None;
            }'''))
