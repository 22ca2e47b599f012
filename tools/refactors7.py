"""More try-outs of bugs written from the property texts (see refactors5)."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in ('main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs', 'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # ---------------------------------------------------------------- C01
    v('b7-pan-sign', 'C01', (M, "if new_name.starts_with('+') || new_name.starts_with('-') {", "if new_name.starts_with(['+', '-', '\\u{2212}']) {"))
    v('b7-pan-frame0', 'C01', (B, '''    frames.iter().position(|f| match &f.filepath {
        Some(fp) => !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"),
        None => false,
    })''', '''    frames
        .iter()
        .position(|f| match &f.filepath {
            Some(fp) => !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"),
            None => false,
        })
        .or(Some(0))'''))
    v('b7-pan-truncate', 'C01', (B, '''                symbol: name.to_string(),''', '''                symbol: {
                    let mut symbol = name.to_string();
                    symbol.truncate(1000);
                    symbol
                },'''))
    v('b7-pan-prefslice', 'C01', (B, '''f.symbol.contains(pref)''', '''f.symbol.len() > pref.len() && &f.symbol[..pref.len()] == pref'''))
    v('b7-pan-refs0', 'C01', (G, '''                for target in &i.basic_block_refs {''', '''                let first = &i.basic_block_refs[0];
                let rest = &i.basic_block_refs[1..];
                for target in std::iter::once(first).chain(rest) {'''))
    v('b7-pan-split-off', 'C01', (RN, '''    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let (name, nr) = id.split_at(offset);
    let (name, nr) = if nr.len() > 18 { id.split_at(id.len() - 18) } else { (name, nr) };
    Some((name, nr.parse::<i64>().ok()?))'''))
    v('b7-pan-file-path', 'C01', (B, '''        if uri.to_file_path().ok()?.exists() {''', '''        if uri.scheme() == "file" && uri.to_file_path().unwrap().exists() {'''))
    v('b7-pan-hashidx', 'C01', (M, '''                        let json_txt = doc.index.dgb_annotation_values.get(&dbg_ref.0)?;''', '''                        if !doc.index.dgb_annotations.contains_key(&dbg_ref.0) {
                            return None;
                        }
                        let json_txt = &doc.index.dgb_annotation_values[&dbg_ref.0];'''))
    v('b7-pan-sum', 'C01', (B, '''            let line = filepath_linenr.as_ref().map(|f| f.1).unwrap_or(0);''', '''            let line = filepath_linenr.as_ref().map(|f| f.1 + 1).unwrap_or(1) - 1;'''))
    v('b7-pan-drain', 'C01', (B, '''    let bt = backtrace
        .iter()''', '''    let bt = backtrace[backtrace.iter().take_while(|f| f.is_null()).count() + 1 - 1..]
        .iter()'''))
    v('b7-pan-drain2', 'C01', (B, '''    let bt = backtrace
        .iter()''', '''    let bt = backtrace[backtrace.iter().rposition(|f| f.is_null()).map_or(0, |p| p + 2)..]
        .iter()'''))
    # ---------------------------------------------------------------- C02
    v('b7-lock-iflet-ok', None, (M, '''        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
''', '''        let analyzed = AnalyzedDocument {
            rope,
            semantic_tokens,
            stmts,
            index,
        };
        let key = params.uri.to_string();
        if let Some(mut doc) = self.document_map.get_mut(&key) {
            *doc = analyzed;
        } else {
            self.document_map.insert(key, analyzed);
        }
'''))
    v('b7-lock-entry-ok', None, (M, '''        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
''', '''        let analyzed = AnalyzedDocument {
            rope,
            semantic_tokens,
            stmts,
            index,
        };
        let key = params.uri.to_string();
        drop(self.document_map.entry(key).insert(analyzed));
'''))
    v('b7-concurrency', 'C02', (M, '''    Server::new(stdin, stdout, socket).serve(service).await;''', '''    Server::new(stdin, stdout, socket)
        .concurrency_level(1)
        .serve(service)
        .await;'''))
    v('b7-concurrency-ok', None, (M, '''    Server::new(stdin, stdout, socket).serve(service).await;''', '''    Server::new(stdin, stdout, socket)
        .concurrency_level(16)
        .serve(service)
        .await;'''))
    v('b7-lock-roots-twice', 'C02', (M, '''                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;''', '''                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;
                        if frames.is_empty() && self.root_paths.lock().unwrap().is_empty() {
                            return None;
                        }'''))
    # ---------------------------------------------------------------- C03
    v('b7-spawn-parse', 'C03', (M, '''        } = parse_from_str(&src);
        let semantic_tokens''', '''        } = {
            let src = src.clone();
            tokio::task::spawn_blocking(move || parse_from_str(&src))
                .await
                .unwrap()
        };
        let semantic_tokens'''))
    v('b7-yield', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        tokio::task::yield_now().await;
        let rope = ropey::Rope::from_str(&params.text);
'''))
    v('b7-change-range', 'C03', (M, '''        let Some(change) = params.content_changes.pop() else {''', '''        params.content_changes.retain(|c| c.range.is_none());
        let Some(change) = params.content_changes.pop() else {'''))
    v('b7-same-text', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        if let Some(doc) = self.document_map.get(params.uri.as_str()) {
            if doc.rope.len_bytes() == params.text.len() && doc.rope.chars().eq(params.text.trim_end().chars()) {
                return;
            }
        }
        let rope = ropey::Rope::from_str(&params.text);
'''))
    # ---------------------------------------------------------------- C05
    v('b7-log-stdout', 'C05', (M, '''    env_logger::init();''', '''    env_logger::Builder::from_default_env()
        .target(env_logger::Target::Stdout)
        .init();'''))
    v('b7-log-stderr-ok', None, (M, '''    env_logger::init();''', '''    env_logger::Builder::from_default_env()
        .target(env_logger::Target::Stderr)
        .init();'''))
    # ---------------------------------------------------------------- C09
    v('b7-sem-modifier', 'C09', (S, '''                token_modifiers_bitset: 0,''', '''                token_modifiers_bitset: (token.token_type == 6) as u32,'''))
    v('b7-sem-multiline', 'C09', (S, '''            let line = pos.line;
''', '''            if offset_to_lsp_pos(rope, token.start + token.length)?.line != pos.line {
                return None;
            }
            let line = pos.line;
'''))
    v('b7-sem-empty', 'C09', (S, '''            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),''', '''            Token::LocalName(n) if n.len() < 2 => None,
            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),'''))
    # ---------------------------------------------------------------- C10
    v('b7-refs-incl', 'C10', (M, '''            .map(|x| x.1);
        Ok(reference_list)''', '''            .map(|mut x| {
                if params.context.include_declaration {
                    x.1.insert(0, Location::new(params.text_document_position.text_document.uri.clone(), x.0));
                }
                x.1
            });
        Ok(reference_list)'''))
    v('b7-find-excl', 'C10', (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .range(..pos)
            .next_back()
            .map(|e| e.1)
            .filter(|e| e.span.contains(&pos))
'''))
    v('b7-find-incl-ok', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .range(..=pos)
            .next_back()
            .map(|e| e.1)
            .filter(|e| e.span.contains(&pos))
'''))
    v('b7-decl-fallback', 'C10', (I, '''    pub fn get_use_def_kind(&self, ud: UseDefKind) -> &Vec<std::ops::Range<usize>> {
        match ud {
            UseDefKind::Decl => &self.decls,''', '''    pub fn get_use_def_kind(&self, ud: UseDefKind) -> &Vec<std::ops::Range<usize>> {
        match ud {
            UseDefKind::Decl if self.decls.is_empty() => &self.defs,
            UseDefKind::Decl => &self.decls,'''))
    v('b7-ext-only', 'C10', (M, '''        if ud == UseDefKind::Def {
            ranges.extend''', '''        if ud == UseDefKind::Def && ranges.is_empty() {
            ranges.extend'''))
    v('b7-origin', 'C10', (M, '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;''', '''        let origin_selection_range = range_to_lsp(&doc.rope, usedefs.defs.first().unwrap_or(&symbol.span))?;'''))
    # ---------------------------------------------------------------- C11
    v('b7-rename-digit', 'C11', (M, '''                && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation''', '''                && symbol.symbol_kind == hyper_ir_lsp::hir_index::SymbolKind::Label'''))
    v('b7-prep-dbg', 'C11', (M, '''            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(Prep''', '''            if symbol.name.len() < 2 {
                return None;
            }
            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(Prep'''))
    v('b7-rename-same', 'C11', (M, '''            get_rename_edits(&doc.rope, usedefs, &new_name)
        };''', '''            if usedefs.defs.is_empty() {
                return Ok(None);
            }
            get_rename_edits(&doc.rope, usedefs, &new_name)
        };'''))
    v('b7-edits-dedup', 'C11', (RN, '''        .chain(usedefs.uses.iter())
''', '''        .chain(usedefs.uses.iter().filter(|u| !usedefs.defs.iter().any(|d| d.end + 1 == u.start)))
'''))
    # ---------------------------------------------------------------- C12
    v('b7-diag-unnamed', 'C12', (D, '''            } else if ud.defs.len() > 1 {''', '''            } else if ud.defs.len() > 1 && name != "%" {'''))
    v('b7-err-cascade', 'C12', (PA, '''        .map(|e| e.map(|c| c.to_string()))
        .chain(parse_errs.into_iter()''', '''        .map(|e| e.map(|c| c.to_string()))
        .chain(parse_errs.into_iter().take_while(|e| e.span().end < strlen)'''))
    v('b7-eof-span', 'C04', (PA, '''        parser().parse_recovery(Stream::from_iter(
            strlen..strlen,''', '''        parser().parse_recovery(Stream::from_iter(
            0..0,'''))
    v('b7-diag-skipdef', 'C12', (D, '''                    .skip(1)
''', '''                    .filter(|d| d.start > ud.defs[0].end)
'''))
    v('b7-diag-sym', 'C12', (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            if ud.decls.is_empty() && ud.defs.is_empty() && ud.external_defs.is_empty() && ud.uses.len() < 100 {'''))
    v('b7-diag-br', 'C12', (D, '''            if (i.is_branching() || inst_name == "phi") && i.basic_block_refs.is_empty() {''', '''            if (i.is_branching() || inst_name == "phi") && i.basic_block_refs.len() < 1 + (inst_name == "phi") as usize {'''))
    # ---------------------------------------------------------------- C13
    v('b7-cfg-entry', 'C13', (G, '''            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);''', '''            if i.is_branching() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(bb.label.as_ref().map_or("entry", |l| &l.0));'''))
    v('b7-cfg-trim', 'C13', (G, '''str.replace('\\"', "\\"\\"")''', '''str.rsplit("::").next().unwrap_or(str)'''))
    v('b7-cfg-known', 'C13', (G, '''                for target in &i.basic_block_refs {''', '''                for target in i.basic_block_refs.iter().filter(|t| func_body.labels.get(&t.0).map_or(false, |l| !l.defs.is_empty())) {'''))
    # ---------------------------------------------------------------- C15
    v('b7-index-arg', 'C15', (I, '''                for arg in &signature.args {''', '''                for arg in signature.args.iter().filter(|a| a.name.0 != "%") {'''))
    v('b7-index-def-order', 'C15', (I, '''                if index.functions.contains_key(&name.to_string()) {''', '''                if index.functions.contains_key(&name.to_string()) && !index.global_vars.contains_key(name) {'''))
    v('b7-dbgval-first', 'C22', (I, '''                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), value.to_string());''', '''                    index
                        .dgb_annotation_values
                        .entry(name.0.clone())
                        .or_insert(value.to_string());'''))
    # ---------------------------------------------------------------- C16
    v('b7-shift-fallback', 'C16', (RN, '''func_body_id.and_then(|id| index.function_bodies.get(id))''', '''func_body_id.and_then(|id| index.function_bodies.get(id)).or(index.function_bodies.last())'''))
    v('b7-shift-clamp', 'C16', (RN, '''func_body_id.and_then(|id| index.function_bodies.get(id))''', '''func_body_id.and_then(|id| index.function_bodies.get(id.min(index.function_bodies.len().saturating_sub(1))))'''))
    v('b7-scope-label-global', 'C16', (M, '''                            Some((bb, f.incoming_bb_branches.get(&bb.label.as_ref()?.0)?))''', '''                            let label = &bb.label.as_ref()?.0;
                            Some((
                                bb,
                                f.incoming_bb_branches.get(label).or_else(|| {
                                    doc.index
                                        .function_bodies
                                        .iter()
                                        .filter(|o| o.name.0 == f.name.0)
                                        .find_map(|o| o.incoming_bb_branches.get(label))
                                })?,
                            ))'''))
    # ---------------------------------------------------------------- C17
    v('b7-fold-oneline', 'C17', (M, '''                        let range = range_to_lsp(&doc.rope, &bb.span)?;
''', '''                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        if range.start.line == range.end.line {
                            return None;
                        }
'''))
    v('b7-fold-end', 'C17', (M, '''                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            }));''', '''                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line.saturating_sub(1),
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            }));'''))
    v('b7-lens-name', 'C17', (M, '''                                    Value::String(f.0.clone()),''', '''                                    Value::String(f.0.to_lowercase()),'''))
    # ---------------------------------------------------------------- C18
    v('b7-uri-fragment', 'C18', (M, '''    fn get_use_def_ranges(
        &self,
        pos: &TextDocumentPositionParams,
        ud: UseDefKind,
    ) -> Option<(Range, Vec<Location>)> {
        let uri_str = pos.text_document.uri.to_string();''', '''    fn get_use_def_ranges(
        &self,
        pos: &TextDocumentPositionParams,
        ud: UseDefKind,
    ) -> Option<(Range, Vec<Location>)> {
        let mut uri = pos.text_document.uri.clone();
        uri.set_fragment(None);
        let uri_str = uri.to_string();'''))
    v('b7-uri-query', 'C18', (M, '''                                Some(vec![
                                    InlayHintLabelPart {''', '''                                let mut uri = uri.clone();
                                uri.set_query(None);
                                Some(vec![
                                    InlayHintLabelPart {'''))
    # ---------------------------------------------------------------- C19
    v('b7-roots-trim', 'C19', (M, '''.extend(workspace_folders.iter().map(|f| f.uri.clone()));''', '''.extend(workspace_folders.iter().take(8).map(|f| f.uri.clone()));'''))
    v('b7-roots-name', 'C19', (M, '''.extend(workspace_folders.iter().map(|f| f.uri.clone()));''', '''.extend(workspace_folders.iter().filter(|f| !f.name.is_empty()).map(|f| f.uri.clone()));'''))
    v('b7-roots-replace', None, (M, '''            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));''', '''            for folder in &workspace_folders {
                self.root_paths.lock().unwrap().push(folder.uri.clone());
            }'''))
    v('b7-path-sep', 'C19', (B, '''extend(path.split('/'))''', '''extend(path.split(['/', '\\\\']))'''))
    v('b7-path-trim', 'C19', (B, '''extend(path.split('/'))''', '''extend(path.trim_start_matches("../").split('/'))'''))
    # ---------------------------------------------------------------- C20
    v('b7-serde-skip', 'C20', (M, '''        func_body_id: Option<usize>,
        renamed_nr: i64,
    },''', '''        #[serde(skip)]
        func_body_id: Option<usize>,
        renamed_nr: i64,
    },'''))
    v('b7-lazy-data-default', 'C20', (M, '''c.data_support.unwrap_or(false)''', '''c.data_support.unwrap_or(true)'''))
    v('b7-action-only', 'C20', (M, '''        let mut actions = vec![];
''', '''        if let Some(only) = &params.context.only {
            if !only.contains(&CodeActionKind::REFACTOR) {
                return Ok(None);
            }
        }
        let mut actions = vec![];
'''))
    v('b7-resolve-num', 'C20', (M, '''                    func_body_id,
                    renamed_nr,
                    1,
                );''', '''                    func_body_id,
                    renamed_nr.max(1),
                    1,
                );'''))
    # ---------------------------------------------------------------- C21
    v('b7-shift-zero', 'C21', (RN, '''            if nr < renamed_nr {''', '''            if nr < renamed_nr || nr == 0 && shift < 0 {'''))
    v('b7-shift-sign', 'C21', (M, '''let sign = if new_name.starts_with('-') { -1 } else { 1 };''', '''let sign = if new_name.contains('-') { -1 } else { 1 };'''))
    v('b7-shift-undef', 'C21', (RN, '''            let new_name = format!("{}{}", prefix''', '''            if index.dgb_annotation_values.contains_key(name) && usedefs.uses.is_empty() {
                return None;
            }
            let new_name = format!("{}{}", prefix'''))
    # ---------------------------------------------------------------- C22
    v('b7-hint-range', 'C22', (M, '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
''', '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
            if params.range.start == params.range.end {
                return Some(inlay_hints);
            }
'''))
    v('b7-hint-range2', 'C22', (M, '''            Some(inlay_hints)
        }();''', '''            inlay_hints.retain(|h| h.position.line < params.range.end.line);
            Some(inlay_hints)
        }();'''))
    v('b7-hint-frames', 'C22', (M, '''                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;''', '''                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;
                        if frames.iter().all(|f| f.filepath.is_none()) {
                            return None;
                        }'''))
    v('b7-hint-blocks', 'C22', (M, '''                            Some::<&Vec<BasicBlock>>(body.basic_blocks.as_ref())
                        }''', '''                            Some::<&[BasicBlock]>(match &body.basic_blocks[..] {
                                [first, rest @ ..] if first.label.is_none() && !rest.is_empty() => rest,
                                all => all,
                            })
                        }'''))
    # ---------------------------------------------------------------- C14
    v('b7-tok-cr', 'C14', (T, '''        .padded_by(one_of(" \\t").repeated())''', '''        .padded_by(one_of(" \\t\\r").repeated())'''))
    v('b7-str-nl', 'C14', (T, '''filter(|c| *c != '"').repeated()''', '''filter(|c| *c != '"' && *c != '\\n').repeated()'''))
    v('b7-decl-order', 'C14', (PA, '''        .then(func_addr.or_not())
        .then(dbg_ref.or_not())
        .then_ignore(eol.clone())
        .map(|((signature, addr), dbgref)''', '''        .then(func_addr.or_not())
        .then(dbg_ref.or_not())
        .then_ignore(none_of(Token::Newline).repeated())
        .then_ignore(eol.clone())
        .map(|((signature, addr), dbgref)'''))
    v('b7-dep-eol', 'C14', (PA, '''        .then(global_name.separated_by(just(Token::Punctuation(','))))
        .map(|(dependent''', '''        .then(global_name.separated_by(just(Token::Punctuation(','))).allow_trailing())
        .map(|(dependent'''))
    v('b7-is-br', 'C13', (PA, '''self.instruction.0.ends_with("br") || self.instruction.0 == "switch"''', '''matches!(self.instruction.0.as_str(), "br" | "saddbr" | "ssubbr" | "smulbr" | "switch")'''))
