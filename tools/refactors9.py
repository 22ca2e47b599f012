"""A third batch of bugs written from the texts of the properties (b9-*), and a fourth one of edits
which keep the behaviour (r9-*); see refactors.py."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in (
    'main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs',
    'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # ------------------------------------------------------------------ C01
    v('b9-pan-rfind', 'C01', (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
''', '''    let offset = id.rfind(|c: char| !c.is_numeric()).map_or(0, |p| p + 1);
'''))
    v('b9-pan-obj', 'C01', (B, '''    let backtrace = json.get("backtrace")?.as_array()?;''',
      '''    let backtrace = json.as_object()?["backtrace"].as_array()?;'''))
    v('b9-pan-args', 'C01', (M, '''                message: format!("Invalid command `{}`", params.command).into(),''',
      '''                message: format!("Invalid command `{}({}, ..)`", params.command, params.arguments[0]).into(),'''))
    v('b9-pan-labelpart', 'C01', (B, '''        let symbol = shorten_name(&frame.symbol, 50);''', '''        let symbol = shorten_name(&frame.symbol, 50 - frame.symbol.matches("::").count());'''))
    v('b9-pan-body', 'C01', (RN, '''            func_body_id.and_then(|id| index.function_bodies.get(id)),''', '''            func_body_id.map(|id| &index.function_bodies[id]),'''))
    v('b9-pan-def', 'C01', (I, '''                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
                    if let [(Token::Str(dbgstr), _)] = &def[..] {''', '''                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
                    if let (Token::Str(dbgstr), _) = &def[0] {'''))
    v('b9-pan-parts', 'C01', (I, '''                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {''', '''                        let parts = dbgstr.split(':').collect::<Vec<_>>();
                        if parts.len() <= 2 {
                            let (filepath, linestr) = (parts[0], parts[1]);
                            if let Ok(line) = linestr.parse::<u32>() {'''))
    v('b9-pan-sem', 'C01', (S, '''            let delta_start = if delta_line == 0 {
                start - pre_start
            } else {
                start
            };''', '''            let delta_start = start - if delta_line <= 1 { pre_start } else { 0 };'''))
    v('b9-pan-md-path', 'C01', (B, '''    path.split_at(separator_pos.map(|p| p + 1).unwrap_or(0)).1''', '''    path.split_at(separator_pos.map(|p| p + 2).unwrap_or(0)).1'''))
    v('b9-pan-mutex', 'C01', (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;''', '''                let root_paths = self.root_paths.try_lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;'''))
    v('b9-pan-lines', 'C01', (L, '''    let line = rope.get_line(pos.line as usize)?;''', '''    if pos.line as usize > rope.len_lines() {
        return None;
    }
    let line = rope.line(pos.line as usize);'''))
    # ------------------------------------------------------------------ C02
    v('b9-lock-both', 'C02', (M, '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
''', '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
            let has_roots = self.root_paths.lock().unwrap();
            if has_roots.is_empty() {
                log::debug!("no roots");
            }
'''))
    v('b9-lock-alter', 'C02', (M, '''        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;

        // Lookup the symbol at the given location''', '''        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;
        self.document_map.alter(&uri_str, |_, d| d);

        // Lookup the symbol at the given location'''))
    v('b9-lock-match', 'C02', (M, '''        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
        self.client
            .log_message(MessageType::INFO, format!("initialized (lazy: {})", lazy))
            .await;''', '''        let lazy = self.document_map.iter().next().is_some();
        if let Some(doc) = self.document_map.iter().next() {
            self.client
                .log_message(MessageType::INFO, format!("initialized {} {}", lazy, doc.key()))
                .await;
        }'''))
    # ------------------------------------------------------------------ C03
    v('b9-change-rope', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
        let src = rope.to_string();
''', '''        let rope = ropey::Rope::from_str(params.text.trim_end());
        let src = rope.to_string();
'''))
    v('b9-change-open', 'C03', (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };
''', '''        let Some(change) = params.content_changes.pop() else {
            return;
        };
        if !self.document_map.contains_key(&params.text_document.uri.to_string()) {
            return;
        }
'''))
    v('b9-change-first', 'C03', (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };''', '''        if params.content_changes.is_empty() {
            return;
        }
        let change = params.content_changes.swap_remove(0);'''))
    v('b9-index-src', 'C03', (M, '''        let index = create_index(&src, &tokens, &stmts);
''', '''        let index = create_index(&params.text.replace('\\t', " "), &tokens, &stmts);
'''))
    v('b9-publish-version', 'C03', (M, '''            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))''',
      '''            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version).filter(|v| *v > 0))'''))
    # ------------------------------------------------------------------ C04
    v('b9-pos-clamp-line', 'C04', (L, '''    let line = rope.get_line(pos.line as usize)?;
    let line_len''', '''    let pos = &Position::new(pos.line.min(rope.len_lines() as u32 - 1), pos.character);
    let line = rope.get_line(pos.line as usize)?;
    let line_len'''))
    v('b9-pos-count', 'C04', (L, '''        .map(char::len_utf16)
        .sum();''', '''        .count();'''))
    v('b9-pos-end', 'C04', (L, '''        end: offset_to_lsp_pos(rope, span.end)?,''', '''        end: offset_to_lsp_pos(rope, span.end.min(rope.len_bytes().saturating_sub(1)))?,'''))
    v('b9-pos-lastline', 'C04', (L, '''    let line = rope.try_byte_to_line(pos).ok()?;''', '''    let line = rope.try_byte_to_line(pos.min(rope.len_bytes().checked_sub(1)?)).ok()?;'''))
    v('b9-pos-first', 'C04', (L, '''    let first = rope.try_line_to_char(line).ok()?;''', '''    let first = rope.try_line_to_byte(line).ok()?;'''))
    v('b9-pos-range-empty', 'C04', (L, '''    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })''', '''    let start = offset_to_lsp_pos(rope, span.start)?;
    let len = rope.get_byte_slice(span.clone())?.len_utf16_cu() as u32;
    Some(Range {
        start,
        end: Position::new(start.line, start.character + len),
    })'''))
    # ------------------------------------------------------------------ C06
    v('b9-mem-once', 'C06', (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
''', '''                static ROOTS: std::sync::OnceLock<Vec<Url>> = std::sync::OnceLock::new();
                let root_paths = ROOTS.get_or_init(|| self.root_paths.lock().unwrap().clone());
                let uri = resolve_relative_path(root_paths, &d.filepath)?;
'''))
    v('b9-mem-shutdown', 'C06', (M, '''    async fn shutdown(&self) -> Result<()> {
''', '''    async fn shutdown(&self) -> Result<()> {
        self.document_map.clear();
'''))
    v('b9-mem-roots', 'C06', (M, '''    fn do_code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {
''', '''    fn do_code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {
        self.root_paths.lock().unwrap().dedup();
'''))
    v('b9-mem-time', 'C06', (M, '''            version: params.text_document.version,
        })
        .await
    }

    async fn did_change''', '''            version: params.text_document.version,
        })
        .await
    }

    async fn did_close(&self, params: DidCloseTextDocumentParams) {
        self.document_map.remove(&params.text_document.uri.to_string());
    }

    async fn did_change'''))
    # ------------------------------------------------------------------ C07
    v('b9-md-tilde', 'C07', (B, '''                '_' => sanitized.push(c),''', '''                '_' | '~' | '`' => sanitized.push(c),'''))
    v('b9-md-ctrl', 'C07', (B, '''            sanitized.push(' ');''', '''            sanitized.push(c);'''))
    v('b9-md-label', 'C07', (B, '''            value: format_frame_as_md(frame),''', '''            value: match &frame.filepath {
                None => frame.symbol.clone(),
                Some(_) => format_frame_as_md(frame),
            },'''))
    v('b9-md-upper', 'C07', (B, '''            // Hopefully, none of them has a special meaning in Markdown.
            sanitized.push(c);''', '''            // Hopefully, none of them has a special meaning in Markdown.
            sanitized.extend(c.to_lowercase());'''))
    v('b9-md-link-raw', 'C07', (B, '''                link,
                frame.line
            )''', '''                resolved_fp.path().replace("%20", " "),
                frame.line
            )'''))
    # ------------------------------------------------------------------ C08
    v('b9-cap-camel', 'C08', (M, '''#[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
#[serde(rename_all = "camelCase")]
pub struct ShowGraphParams {''', '''#[derive(Debug, Eq, PartialEq, Clone, Deserialize, Serialize)]
pub struct ShowGraphParams {'''))
    v('b9-cap-method', 'C08', (M, '''"hyperir/showDot";''', '''"hyperir/showGraph";'''))
    v('b9-cap-legend', 'C08', (M, '''token_types: LEGEND_TYPE.into(),''', '''token_types: LEGEND_TYPE[..LEGEND_TYPE.len() - 1].to_vec(),'''))
    v('b9-cap-range', 'C08', (M, '''                                range: None,
                                full''', '''                                range: Some(true),
                                full'''))
    v('b9-cap-prepare', 'C08', (M, '''prepare_provider: Some(true),''', '''prepare_provider: Some(code_actions_lazy_resolve),'''))
    v('b9-cap-lens-resolve', 'C08', (M, '''                    resolve_provider: None,
''', '''                    resolve_provider: Some(true),
'''))
    # ------------------------------------------------------------------ C09
    v('b9-sem-prestart', 'C09', (S, '''            pre_start = start;''', '''            pre_start = if delta_line == 0 { start } else { 0 };'''))
    v('b9-sem-firstline', 'C09', (S, '''            let delta_start = if delta_line == 0 {''', '''            let delta_start = if delta_line == 0 && pre_line > 0 {'''))
    v('b9-sem-comment', 'C09', (S, '''            Token::Comment => Some(create''', '''            Token::Comment if span.len() <= 1 => None,
            Token::Comment => Some(create'''))
    v('b9-sem-len', 'C09', (S, '''        length: span.len(),''', '''        length: span.len().min(u16::MAX as usize),'''))
    v('b9-sem-slice', 'C09', (S, '''            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu();''', '''            let length = slice.get_byte_slice(..token.length)?.len_chars();'''))
    # ------------------------------------------------------------------ C10
    v('b9-nav-ext', 'C10', (M, '''        if ud == UseDefKind::Def {
            ranges.extend''', '''        if ud == UseDefKind::Def && ranges.is_empty() {
            ranges.extend'''))
    v('b9-nav-last', 'C10', (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .range(..=pos)
            .next_back()
            .map(|e| e.1)
'''))
    v('b9-nav-self', 'C10', (M, '''            .get_use_def_kind(ud)
            .iter()
            .filter_map(|span| {''', '''            .get_use_def_kind(ud)
            .iter()
            .filter(|span| ud != symbol.use_def || **span != symbol.span)
            .filter_map(|span| {'''))
    v('b9-nav-none', 'C10', (M, '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some((''', '''        if ranges.len() > 1 && ud == UseDefKind::Decl {
            ranges.truncate(1);
        }
        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some(('''))
    # ------------------------------------------------------------------ C11
    v('b9-ren-trim', 'C11', (M, '''        let mut new_name = params.new_name;
''', '''        let mut new_name = params.new_name.trim().to_string();
'''))
    v('b9-ren-lineonce', 'C11', (M, '''            get_rename_edits(&doc.rope, usedefs, &new_name)
        };''', '''            let mut edits = get_rename_edits(&doc.rope, usedefs, &new_name);
            edits.dedup_by_key(|e| e.range.start.line);
            edits
        };'''))
    v('b9-ren-prep', 'C11', (M, '''            Some(PrepareRenameResponse::Range(range?))''', '''            let range = range?;
            Some(PrepareRenameResponse::Range(Range::new(
                Position::new(range.start.line, range.start.character + 1),
                range.end,
            )))'''))
    v('b9-ren-kind', 'C11', (M, '''                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => {
                    if symbol.use_def == UseDefKind::Use { "%" } else { "" }
                }
            };'''))
    v('b9-ren-func', 'C11', (M, '''                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;''', '''                .and_then(|m| m.iter().find(|(n, _)| n.eq_ignore_ascii_case(&symbol.name)))
                .map(|(_, u)| u)
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;'''))
    # ------------------------------------------------------------------ C12
    v('b9-diag-fn1', 'C12', (D, '''        .chain(index.function_bodies.iter().flat_map(|fb| fb.labels.iter()))''', '''        .chain(index.function_bodies.last().into_iter().flat_map(|fb| fb.labels.iter()))'''))
    v('b9-diag-dedup', 'C12', (M, '''        self.document_map.insert(
            params.uri''', '''        diagnostics.dedup_by_key(|d| d.range.start);
        self.document_map.insert(
            params.uri'''))
    v('b9-diag-exclusive', 'C12', (M, '''        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));''', '''        if errors.is_empty() {
            diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));
        }'''))
    v('b9-diag-external', 'C12', (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            if ud.decls.is_empty() && ud.defs.is_empty() && name.len() > 1 {'''))
    v('b9-diag-span', 'C12', (D, '''                            range: range_to_lsp(rope, use_)?,
                            message,''', '''                            range: range_to_lsp(rope, ud.defs.last()?)?,
                            message,'''))
    v('b9-diag-sorted', 'C12', (PA, '''        .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))''', '''        .chain(
            parse_errs
                .into_iter()
                .filter(|e| e.found().is_some())
                .map(|e| e.map(|tok| tok.to_string())),
        )'''))
    # ------------------------------------------------------------------ C13
    v('b9-cfg-suffix', 'C13', (M, '''                    .find(|b| b.name.0 == *func_name)''', '''                    .find(|b| b.name.0.ends_with(func_name.trim_start_matches('@')))'''))
    v('b9-cfg-quote', 'C13', (G, '''    format!("\\"{}\\"", str.replace('\\"', "\\"\\""))''', '''    if str.contains("::") {
        format!("\\"{}\\"", str.replace('\\"', "\\"\\""))
    } else {
        str.to_string()
    }'''))
    v('b9-cfg-lastinst', 'C13', (G, '''        for i in &bb.instructions {
            if i''', '''        for i in bb.instructions.iter().rev().take(2) {
            if i'''))
    v('b9-cfg-skipblock', 'C13', (G, '''    for bb in &func_body.basic_blocks {''', '''    for bb in func_body.basic_blocks.iter().filter(|bb| !bb.instructions.iter().any(|i| i.instruction.0 == "ret")) {'''))
    # ------------------------------------------------------------------ C14
    v('b9-gr-comment', 'C14', (PA, '''            tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),''', '''            tokens
                .clone()
                .into_iter()
                .filter(|t| t.0 != Token::Comment && t.0 != Token::Punctuation(';')),'''))
    v('b9-gr-char', 'C14', (PA, '''        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),''', '''        src.char_indices()
            .filter(|(_, c)| *c != '\\u{a0}')
            .map(|(i, c)| (c, i..i + c.len_utf8())),'''))
    v('b9-gr-span1', 'C14', (PA, '''        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),''', '''        src.char_indices().map(|(i, c)| (c, i..i + 1)),'''))
    v('b9-gr-nested', 'C14', (T, '''        .padded_by(one_of(" \\t").repeated())''', '''        .padded_by(one_of(" \\t;").repeated())'''))
    v('b9-gr-bbspan', 'C14', (PA, '''                end: instructions.last().map_or(label.1.end, |i| i.span.end),''', '''                end: instructions.first().map_or(label.1.end, |i| i.span.end),'''))
    # ------------------------------------------------------------------ C15
    v('b9-idx-firstdef', 'C15', (I, '''        let e = map.entry(name.to_string()).or_default();
''', '''        let e = map.entry(name.to_string()).or_default();
        let ud = if ud == UseDefKind::Def && !e.defs.is_empty() { UseDefKind::Use } else { ud };
'''))
    v('b9-idx-contains', 'C15', (I, '''        if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {''', '''        if e.decls.iter().chain(&e.defs).chain(&e.uses).any(|s| s.end == span.start) {'''))
    v('b9-idx-funcuse', 'C15', (I, '''                if index.functions.contains_key(&name.to_string()) {''', '''                if index.functions.get(name).map_or(false, |f| !f.defs.is_empty() || f.decls.len() == 1) {'''))
    v('b9-idx-dbg', 'C15', (I, '''                index.add_global(SymbolKind::DbgAnnotation, UseDefKind::Use, &t.1, name)''', '''                if index.dgb_annotations.contains_key(name) {
                    index.add_global(SymbolKind::DbgAnnotation, UseDefKind::Use, &t.1, name)
                }'''))
    v('b9-idx-args', 'C15', (I, '''                for arg in &signature.args {''', '''                for arg in signature.args.iter().filter(|a| a.name.0 != "%") {'''))
    # ------------------------------------------------------------------ C16
    v('b9-scope-any', 'C16', (I, '''            SymbolKind::LocalVar => fb.map(|fb| &fb.local_vars),''', '''            SymbolKind::LocalVar => fb.or(self.function_bodies.last()).map(|fb| &fb.local_vars),'''))
    v('b9-scope-encl', 'C16', (I, '''                        .find(|(_, e)| e.complete_range.contains(&t.1.start))''', '''                        .find(|(_, e)| t.1.start < e.complete_range.end)'''))
    v('r9-scope-place', None, (M, '''                symbol.symbol_kind,
                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;''', '''                symbol.symbol_kind,
                doc.index
                    .function_bodies
                    .iter()
                    .find(|fb| fb.complete_range.end > symbol.span.start),
            )?
            .get(&symbol.name)?;'''))
    # ------------------------------------------------------------------ C17
    v('b9-out-decl', 'C17', (M, '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {''', '''            symbols.extend(doc.index.function_bodies.iter().filter(|f| !f.basic_blocks.is_empty()).filter_map(|f| {'''))
    v('b9-fold-label', 'C17', (M, '''                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {''', '''                    .flat_map(|e| e.basic_blocks.iter())
                    .filter(|bb| bb.label.is_some())
                    .filter_map(|bb| {'''))
    v('b9-lens-decl', 'C17', (M, '''                    if let [def_range] = &f.1.defs[..] {''', '''                    if let ([def_range], []) = (&f.1.defs[..], &f.1.decls[..]) {'''))
    v('b9-out-sel', 'C17', (M, '''                    selection_range: range_to_lsp(&doc.rope, &f.name.1)?,
                    deprecated''', '''                    selection_range: range_to_lsp(&doc.rope, &f.basic_blocks.first()?.span)?,
                    deprecated'''))
    # ------------------------------------------------------------------ C18
    v('b9-key-path', 'C18', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        self.document_map.insert(
            params.uri.as_str().trim_end_matches('/').to_string(),'''))
    v('b9-key-relative', 'C18', (M, '''                            uri: uri.clone(),
                            range: range_to_lsp(&doc.rope, &f.name.1)?,''', '''                            uri: uri.join(uri.path()).ok()?,
                            range: range_to_lsp(&doc.rope, &f.name.1)?,'''))
    v('b9-key-resolve', 'C18', (M, '''                let doc = self
                    .document_map
                    .get(&uri.to_string())
                    .ok_or_else(|| Error::invalid_params("Document not found"))?;
                let edits''', '''                let doc = self
                    .document_map
                    .get(&uri.to_string())
                    .or_else(|| self.document_map.get(uri.path()))
                    .ok_or_else(|| Error::invalid_params("Document not found"))?;
                let edits'''))
    # ------------------------------------------------------------------ C19
    v('b9-ext-join', 'C19', (B, '''        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));''', '''        let uri = baseuri.join(path).ok()?;'''))
    v('b9-ext-parent', 'C19', (B, '''        if uri.to_file_path().ok()?.exists() {''', '''        if uri.to_file_path().ok()?.parent()?.exists() {'''))
    v('b9-ext-cwd', 'C19', (B, '''        if uri.to_file_path().ok()?.exists() {''', '''        if std::path::Path::new(path).exists() {'''))
    v('b9-ext-pop', 'C19', (B, '''        uri.path_segments_mut().ok()?.extend(path.split('/'));''', '''        for segment in path.split('/') {
            if segment == ".." {
                uri.path_segments_mut().ok()?.pop();
            } else {
                uri.path_segments_mut().ok()?.push(segment);
            }
        }'''))
    v('b9-ext-frameline', 'C19', (M, '''                        end: Position::new(d.line.saturating_sub(1), 0),''', '''                        end: Position::new(d.line, 0),'''))
    # ------------------------------------------------------------------ C20
    v('b9-act-props', 'C20', (M, '''.map(|c| c.properties.contains(&"edit".to_string()))''', '''.map(|c| c.properties.is_empty() || c.properties.contains(&"edit".to_string()))'''))
    v('b9-act-kind', 'C20', (M, '''            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;

            let title''', '''            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;
            if symbol.use_def == UseDefKind::Use && symbol.func_body_id.is_none() {
                return None;
            }

            let title'''))
    v('b9-act-data', 'C20', (M, '''        if !self.code_actions_lazy_resolve.lock().unwrap().get() {''', '''        if !self.code_actions_lazy_resolve.lock().unwrap().get() || params.context.trigger_kind.is_some() {'''))
    v('b9-act-edit', 'C20', (M, '''        let mut updated_action = action.clone();
        match data {''', '''        let mut updated_action = action.clone();
        if updated_action.edit.is_none() && updated_action.title.is_empty() {
            return Ok(updated_action);
        }
        match data {'''))
    # ------------------------------------------------------------------ C21
    v('b9-shift-prefix', 'C21', (RN, '''            if nr < renamed_nr {''', '''            if nr < renamed_nr || prefix.is_empty() {'''))
    v('b9-shift-pad', 'C21', (RN, '''            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());''', '''            let width = name.len() - prefix.len();
            let new_name = format!(
                "{}{:0width$}",
                prefix,
                nr.wrapping_add(shift).unsigned_abs(),
                width = width
            );'''))
    v('b9-shift-sat', 'C21', (RN, '''nr.wrapping_add(shift).unsigned_abs()''', '''nr.wrapping_add(shift).unsigned_abs() % 100_000'''))
    v('b9-shift-rev', 'C21', (M, '''                rename_start,
                rename_shift,
            )''', '''                rename_start.min(rename_start.wrapping_add(rename_shift)),
                rename_shift,
            )'''))
    # ------------------------------------------------------------------ C22
    v('b9-hint-labelpos', 'C22', (M, '''                                bb.label_comma_span.as_ref()?.end,''', '''                                bb.label.as_ref()?.1.end,'''))
    v('b9-hint-links', 'C22', (M, '''                                            range: range_to_lsp(&doc.rope, &incoming.1)?,''', '''                                            range: range_to_lsp(&doc.rope, &incoming_refs[0].1)?,'''))
    v('b9-hint-relevant', 'C22', (M, '''                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;
''', '''                        let frames = parse_backtrace_from_json(&root_paths, json_val)
                            .filter(|f| f.iter().any(|f| f.filepath.is_some()))?;
'''))
    v('b9-hint-refs', 'C22', (M, '''                        Statement::FuncDef { body, .. } => {
                            Some::<&Vec<BasicBlock>>(body.basic_blocks.as_ref())
                        }''', '''                        Statement::FuncDef { body, .. } if body.basic_blocks.len() > 1 => {
                            Some::<&Vec<BasicBlock>>(body.basic_blocks.as_ref())
                        }'''))
    v('b9-hint-uniq', 'C22', (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))''', '''    frames
        .iter()
        .filter(|frame| frame.symbol != "<invalid>")
        .map(|frame| format!("* {}", format_frame_as_md(frame)))'''))
    # ------------------------------------------------------------------ conditions on other elements of a list
    v('b9-any-fold', 'C17', (M, '''            folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {''', '''            folding_ranges.extend(doc.index.function_bodies.iter().filter(|f| !f.basic_blocks.iter().any(|b| b.instructions.is_empty())).filter_map(|f| {'''))
    v('b9-any-hint', 'C22', (M, '''            inlay_hints.extend(doc.index.function_bodies.iter().filter_map(|f| {''', '''            inlay_hints.extend(doc.index.function_bodies.iter().filter(|f| f.basic_blocks.iter().any(|b| b.label.is_some())).filter_map(|f| {'''))
    v('b9-any-sem', 'C09', (S, '''    let mut pre_line = 0;
''', '''    if semtoks.iter().any(|t| t.length == 0) {
        return vec![];
    }
    let mut pre_line = 0;
'''))
    v('b9-any-edits', 'C11', (RN, '''        .chain(usedefs.uses.iter())
        .filter_map''', '''        .chain(usedefs.uses.iter())
        .filter(|r| !usedefs.defs.iter().any(|d| d.start > r.start))
        .filter_map'''))
    v('b9-any-diag', 'C12', (D, '''                let diags = ud
                    .uses
                    .iter()
                    .filter_map''', '''                let diags = ud
                    .uses
                    .iter()
                    .filter(|u| ud.uses.iter().all(|o| o.start <= u.start))
                    .filter_map'''))
    v('b9-any-shift', 'C21', (RN, '''            if nr < renamed_nr {
                return None;
            }''', '''            if nr < renamed_nr {
                return None;
            }
            if usedefs.defs.iter().any(|d| d.is_empty()) {
                return None;
            }'''))
    v('b9-any-outline', 'C17', (M, '''                    f.1.defs.iter().filter_map(move |def| {''', '''                    f.1.defs.iter().filter(move |d| f.1.uses.iter().any(|u| u.start > d.start)).filter_map(move |def| {'''))
    v('b9-any-index', 'C15', (I, '''                for arg in &signature.args {
''', '''                for arg in &signature.args {
                    if signature.args.iter().any(|a| a.name.0 == arg.name.0 && a.name.1.start < arg.name.1.start) {
                        continue;
                    }
'''))
    v('b9-any-loop', 'C13', (G, '''    for bb in &func_body.basic_blocks {
''', '''    for bb in &func_body.basic_blocks {
        let mut returns = false;
        for i in &bb.instructions {
            if i.instruction.0 == "ret" {
                returns = true;
                break;
            }
        }
        if returns {
            continue;
        }
'''))
    v('b9-any-flag', 'C13', (G, '''    for bb in &func_body.basic_blocks {
''', '''    for bb in &func_body.basic_blocks {
        let mut returns = false;
        for i in &bb.instructions {
            returns |= i.instruction.0 == "ret";
        }
        if returns {
            continue;
        }
'''))
    v('b9-any-names', 'C10', (M, '''        let mut ranges = usedefs
            .get_use_def_kind(ud)
            .iter()
''', '''        let mut ranges = usedefs
            .get_use_def_kind(ud)
            .iter()
            .filter(|s| !usedefs.decls.iter().any(|d| d.start > s.end))
'''))
    v('b9-any-frames', 'C22', (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))''', '''    frames
        .iter()
        .filter(|f| f.line > 0 || !frames.iter().any(|o| o.line > 0))
        .map(|frame| format!("* {}", format_frame_as_md(frame)))'''))
    # ------------------------------------------------------------------ refactorings
    v('r9-cfg-any', None, (G, '''    for bb in &func_body.basic_blocks {
''', '''    for bb in &func_body.basic_blocks {
        if !bb.instructions.iter().any(|i| i.is_branching()) {
            continue;
        }
'''))
    v('r9-bt-object', None, (B, '''    let backtrace = json.get("backtrace")?.as_array()?;''', '''    let backtrace = json.as_object()?.get("backtrace")?.as_array()?;'''))
    v('r9-bt-index', None, (B, '''    let backtrace = json.get("backtrace")?.as_array()?;''', '''    let backtrace = json["backtrace"].as_array()?;'''),
      (B, '''            let json_name = frame.get(0).and_then(|e| e.as_str());
            // The second array entry is the `file:linenr`
            let json_link = frame.get(1).and_then(|s| s.as_str());''', '''            let json_name = frame[0].as_str();
            let json_link = frame[1].as_str();'''))
    v('r9-bt-own', None, (B, '''    let backtrace = json.get("backtrace")?.as_array()?;''', '''    let serde_json::Value::Array(backtrace) = json.get("backtrace")? else {
        return None;
    };'''))
    v('r9-bt-frame-fn', None, (B, '''    let backtrace = json.get("backtrace")?.as_array()?;
    let bt = backtrace
        .iter()
        .map(|frame| {
''', '''    let frames = json.get("backtrace")?.as_array()?;
    Some(frames.iter().map(|f| parse_frame(root_paths, f)).collect())
}

fn parse_frame(root_paths: &[Url], frame: &serde_json::Value) -> Frame {
'''), (B, '''                resolved_filepath,
                line,
            }
        })
        .collect::<Vec<_>>();
    Some(bt)
}''', '''                resolved_filepath,
                line,
            }
}'''))
    v('r9-bt-filter', None, (B, '''            let mut name = "<invalid>";
            if json_name.is_some() && !json_name.unwrap().is_empty() {
                // Use the name provided in the backtrace if present
                name = json_name.unwrap();
            } else if let Some(link) = json_link {
                name = shorten_filepath(link);
            }''', '''            let name = json_name
                .filter(|n| !n.is_empty())
                .or_else(|| json_link.map(shorten_filepath))
                .unwrap_or("<invalid>");'''))
    v('r9-hint-get', None, (B, '''    if let Some(idx) = identify_relevant_frames(frames) {
        let frame = &frames[idx];
''', '''    if let Some(frame) = identify_relevant_frames(frames).and_then(|idx| frames.get(idx)) {
'''))
    v('r9-md-set', None, (B, '''                '.' => sanitized.push(c),
                ',' => sanitized.push(c),
                ':' => sanitized.push(c),
                '+' => sanitized.push(c),
                '-' => sanitized.push(c),
                '=' => sanitized.push(c),
                '/' => sanitized.push(c),
                '*' => sanitized.push(c),
                '<' => sanitized.push(c),
                '>' => sanitized.push(c),
                '_' => sanitized.push(c),
''', '''                c if ".,:+-=/*<>_".contains(c) => sanitized.push(c),
'''))
    v('r9-md-loc', None, (B, '''        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {''', '''        let shortened_path = sanitize_markdown_code(shorten_filepath(fp));
        if let Some(resolved_fp) = &frame.resolved_filepath {'''), (B, '''                sanitize_markdown_code(shortened_path),
                frame.line,
                link,''', '''                shortened_path,
                frame.line,
                link,'''), (B, '''                sanitize_markdown_code(shortened_path),
                frame.line
            )
        }''', '''                shortened_path,
                frame.line
            )
        }'''))
    v('r9-md-fold', None, (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let mut md = String::new();
    for (idx, frame) in frames.iter().enumerate() {
        if idx > 0 {
            md.push('\\n');
        }
        md += "* ";
        md += &format_frame_as_md(frame);
    }
    md'''))
    v('r9-resolve-path', None, (B, '''        if uri.to_file_path().ok()?.exists() {
            Some(uri)
        } else {
            None
        }''', '''        let exists = uri.to_file_path().map_or(false, |p| p.exists());
        exists.then_some(uri)'''))
    v('r9-resolve-push', None, (B, '''        uri.path_segments_mut().ok()?.extend(path.split('/'));''', '''        {
            let mut segments = uri.path_segments_mut().ok()?;
            for segment in path.split('/') {
                segments.push(segment);
            }
        }'''))
    v('r9-num-rev', None, (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let name = id.trim_end_matches(|c: char| c.is_numeric());
    let nr = &id[name.len()..];
    nr.parse().ok().map(|nr| (name, nr))'''))
    v('r9-edits-vec', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()''', '''    let mut edits = Vec::with_capacity(usedefs.decls.len() + usedefs.defs.len() + usedefs.uses.len());
    for spans in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        for span in spans {
            if let Some(range) = range_to_lsp(rope, span) {
                edits.push(TextEdit::new(range, new_name.to_owned()));
            }
        }
    }
    edits'''))
    v('r9-shift-letelse', None, (RN, '''    index
        .get_by_symbol_kind(
            symbol_kind,
            func_body_id.and_then(|id| index.function_bodies.get(id)),
        )
        .into_iter()
        .flatten()
        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()''', '''    let body = match func_body_id {
        Some(id) => index.function_bodies.get(id),
        None => None,
    };
    let Some(symbols) = index.get_by_symbol_kind(symbol_kind, body) else {
        return Vec::new();
    };
    let mut edits = Vec::new();
    for (name, usedefs) in symbols {
        match extract_number_from_identifier(name) {
            Some((prefix, nr)) if nr >= renamed_nr => {
                let shifted = nr.wrapping_add(shift).unsigned_abs();
                edits.append(&mut get_rename_edits(rope, usedefs, &format!("{prefix}{shifted}")));
            }
            _ => {}
        }
    }
    edits'''))
    v('r9-sem-position', None, (S, '''        token_type: LEGEND_TYPE.iter().position(|item| item == ttype).unwrap(),''', '''        token_type: LEGEND_TYPE
            .iter()
            .enumerate()
            .find_map(|(i, item)| (item == ttype).then_some(i))
            .expect("token type is part of the legend"),'''))
    v('r9-sem-loop', None, (S, '''    tokens
        .iter()
        .filter_map(|(token, span)| match token {
            Token::Newline => None,
            Token::Comment => Some(create_semantic_token(span, &SemanticTokenType::COMMENT)),
            Token::Num(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::Str(_) => Some(create_semantic_token(span, &SemanticTokenType::STRING)),
            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::GlobalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::Ident(_) => None,
            Token::DebugRef(_) => None,
            Token::Type(_) => Some(create_semantic_token(span, &SemanticTokenType::TYPE)),
            Token::Punctuation(_) => None,
            Token::Declare => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::Define => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::FuncModifier(_) => {
                Some(create_semantic_token(span, &SemanticTokenType::MODIFIER))
            }
        })
        .collect::<Vec<_>>()''', '''    let mut result = Vec::new();
    for (token, span) in tokens {
        let ttype = match token {
            Token::Newline | Token::Ident(_) | Token::DebugRef(_) | Token::Punctuation(_) => continue,
            Token::Comment => SemanticTokenType::COMMENT,
            Token::Num(_) | Token::HexNum(_) => SemanticTokenType::NUMBER,
            Token::Str(_) => SemanticTokenType::STRING,
            Token::LocalName(_) | Token::GlobalName(_) => SemanticTokenType::VARIABLE,
            Token::Type(_) => SemanticTokenType::TYPE,
            Token::Declare | Token::Define => SemanticTokenType::KEYWORD,
            Token::FuncModifier(_) => SemanticTokenType::MODIFIER,
        };
        result.push(create_semantic_token(span, &ttype));
    }
    result'''))
    v('r9-sem-prev', None, (S, '''            let delta_line = line - pre_line;
            let delta_start = if delta_line == 0 {
                start - pre_start
            } else {
                start
            };''', '''            let delta_line = line - pre_line;
            if delta_line > 0 {
                pre_start = 0;
            }
            let delta_start = start - pre_start;'''))
    v('r9-cfg-if', None, (G, '''        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);''', '''        let Some((label, _)) = &bb.label else { continue };
        let from_lbl = escape_dot_label(label);
        for i in &bb.instructions {
            if i.is_branching() {
                for target in &i.basic_block_refs {'''))
    v('r9-cfg-write', None, (G, '''                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());''', '''                    use std::fmt::Write;
                    let _ = writeln!(graph, "  {from_lbl} -> {to_lbl}");'''))
    v('r9-diag-helper', None, (D, '''                    .filter_map(move |use_| {
                        let message = format!("Use of undefined symbol `{}`", name);
                        Some(Diagnostic::new_simple(range_to_lsp(rope, use_)?, message))
                    })''', '''                    .filter_map(|use_| {
                        range_to_lsp(rope, use_).map(|range| {
                            Diagnostic::new_simple(range, format!("Use of undefined symbol `{name}`"))
                        })
                    })'''))
    v('r9-diag-splitfirst', None, (D, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)''', '''            } else if let [_, rest @ ..] = ud.defs.as_slice() {
                let diags = rest
                    .iter()'''))
    v('r9-idx-entry', None, (I, '''        let e = map.entry(name.to_string()).or_default();
        if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {
            return;
        }''', '''        let e = map.entry(name.to_string()).or_insert_with(UseDefList::default);
        let known = [&e.decls, &e.defs, &e.uses].iter().any(|spans| spans.contains(span));
        if known {
            return;
        }'''))
    v('r9-idx-bb', None, (I, '''                    if bb.label.is_some() {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            bb.label.as_ref().unwrap(),
                        )
                    }''', '''                    if let Some(label) = &bb.label {
                        index.add_func_local(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            &label.1,
                            &label.0,
                        );
                    }'''))
    v('r9-idx-def', None, (I, '''                if !def.is_empty() {
                    let start = def.first().unwrap().1.start;
                    let end = def.last().unwrap().1.end;
                    let value = &src[start..end];
                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), value.to_string());
                }''', '''                if let (Some((_, first)), Some((_, last))) = (def.first(), def.last()) {
                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), src[first.start..last.end].to_owned());
                }'''))
    v('r9-idx-encl', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }''', '''                let still_inside = func_body_id.map_or(false, |id: usize| {
                    index.function_bodies[id].complete_range.contains(&t.1.start)
                });
                if !still_inside {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .position(|e| e.complete_range.contains(&t.1.start));
                }'''))
    v('r9-lens-match', None, (M, '''                    if let [def_range] = &f.1.defs[..] {
                        Some(CodeLens {''', '''                    if f.1.defs.len() == 1 {
                        let def_range = &f.1.defs[0];
                        Some(CodeLens {'''))
    v('r9-act-vec', None, (M, '''            actions = actions
                .drain(..)
                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
                .collect();''', '''            for action in actions.iter_mut() {
                *action = self.do_code_action_resolve(action.clone()).ok().unwrap();
            }'''))
    v('r9-act-into', None, (M, '''        Ok(Some(
            actions
                .drain(..)
                .map(CodeActionOrCommand::CodeAction)
                .collect(),
        ))''', '''        let response: CodeActionResponse = actions.into_iter().map(|a| a.into()).collect();
        Ok(Some(response))'''))
    v('r9-nav-generic', None, (M, '''        let definition = || -> Option<GotoDefinitionResponse> {
            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDefinitionResponse::Link(links))
        }();
        Ok(definition)''', '''        Ok(self.links(&params.text_document_position_params, UseDefKind::Def))'''), (M, '''    fn do_code_action_resolve(''', '''    fn links(
        &self,
        pos: &TextDocumentPositionParams,
        kind: UseDefKind,
    ) -> Option<GotoDefinitionResponse> {
        let (origin, locations) = self.get_use_def_ranges(pos, kind)?;
        let mut links = Vec::with_capacity(locations.len());
        for Location { uri, range } in locations {
            links.push(LocationLink {
                origin_selection_range: Some(origin),
                target_uri: uri,
                target_range: range,
                target_selection_range: range,
            });
        }
        Some(links.into())
    }

    fn do_code_action_resolve('''))
    v('r9-exec-cmd', None, (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
                    .index
                    .function_bodies
                    .iter()
                    .find(|b| b.name.0 == *func_name)
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("function `{}` not found", func_name).into(),
                        data: None,
                    })?;

                let title = format!("CFG for {}", func_name);
                let dot_graph = create_cfg_dot_visualization(func_body);
                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);
''', '''                let dot_graph = self.graph_of(doc_uri, func_name)?;
                let title = format!("CFG for {}", func_name);
'''), (M, '''    fn do_code_action_resolve(''', '''    fn graph_of(&self, doc_uri: &str, func_name: &str) -> Result<String> {
        let not_found = |what: &str, name: &str| {
            Error::invalid_params(format!("{} `{}` not found", what, name))
        };
        let Some(doc) = self.document_map.get(doc_uri) else {
            return Err(not_found("document", doc_uri));
        };
        for body in &doc.index.function_bodies {
            if body.name.0 == func_name {
                return Ok(create_cfg_dot_visualization(body));
            }
        }
        Err(not_found("function", func_name))
    }

    fn do_code_action_resolve('''))
    v('r9-change-analyze', None, (M, '''        let ParserResult {
            tokens,
            stmts,
            errors,
        } = parse_from_str(&src);
        let semantic_tokens = semantic_tokens_from_tokens(&tokens);
        let index = create_index(&src, &tokens, &stmts);

        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));
''', '''        let parsed = parse_from_str(&src);
        let index = create_index(&src, &parsed.tokens, &parsed.stmts);
        let diagnostics: Vec<Diagnostic> = diagnostics_from_parser(&rope, &parsed.errors)
            .chain(diagnostics_from_statements(&rope, &parsed.stmts))
            .chain(diagnostics_from_index(&rope, &params.uri, &index))
            .collect();
        let semantic_tokens = semantic_tokens_from_tokens(&parsed.tokens);
        let stmts = parsed.stmts;
'''))
    v('r9-pos-match', None, (L, '''    let line_len: usize = line
        .chars()
        .take_while(|c| !matches!(c, '\\n' | '\\r'))
        .map(char::len_utf16)
        .sum();
    let character = line_len.min(pos.character as usize);''', '''    let mut line_len = 0;
    for c in line.chars() {
        if c == '\\n' || c == '\\r' {
            break;
        }
        line_len += c.len_utf16();
    }
    let character = std::cmp::min(line_len, pos.character as usize);'''))
    v('r9-init-caps', None, (M, '''                let supports_resolve = c
                    .resolve_support
                    .map(|c| c.properties.contains(&"edit".to_string()))
                    .unwrap_or(false);
                let supports_data = c.data_support.unwrap_or(false);
                supports_resolve && supports_data''', '''                c.data_support == Some(true)
                    && c.resolve_support
                        .map_or(false, |r| r.properties.iter().any(|p| p == "edit"))'''))
    v('r9-init-roots', None, (M, '''            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));''', '''            let mut roots = self.root_paths.lock().unwrap();
            for folder in workspace_folders {
                roots.push(folder.uri);
            }'''))
    v('r9-gr-eol', None, (PA, '''    let func_def = just(Token::Define)
        .map_with_span(|_, span| span)
        .then(func_signature)
        .then(func_body)
        .then_ignore(eol.clone())
        .map(|((define_kw, signature), body)| Statement::FuncDef {
            define_kw,
            signature,
            body,
        });''', '''    let define = just(Token::Define).map_with_span(|_, span| span);
    let func_def = define
        .then(func_signature.then(func_body))
        .map(|(define_kw, (signature, body))| Statement::FuncDef {
            define_kw,
            signature,
            body,
        })
        .then_ignore(eol.clone());'''))
    v('r9-gr-choice', None, (PA, '''    global_var
        .or(func_decl)
        .or(func_def)
        .or(func_dependencies)
        .or(dbg_annotation)
''', '''    choice((global_var, func_decl, func_def, func_dependencies, dbg_annotation))
'''))
