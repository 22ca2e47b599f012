"""A fourth batch of bugs written from the texts of the properties (b10-*), and a fifth one of edits
which keep the behaviour (r10-*); see refactors.py."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in (
    'main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs',
    'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # ------------------------------------------------------------------ C02: loops
    v('b10-idle-continue', 'C02', (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        let all = self.reverse_idx.values().collect::<Vec<_>>();
        let mut i = 0;
        while i < all.len() {
            if all[i].span.is_empty() {
                continue;
            }
            if all[i].span.contains(&pos) {
                return Some(all[i]);
            }
            i += 1;
        }
        None
'''))
    v('r10-while-find', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        let all = self.reverse_idx.values().collect::<Vec<_>>();
        let mut i = 0;
        while i < all.len() {
            if all[i].span.contains(&pos) {
                return Some(all[i]);
            }
            i += 1;
        }
        None
'''))
    v('b10-idle-frames', 'C02', (B, '''    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }
''', '''    let mut prefs = symbol_preferences.iter();
    let mut pref = prefs.next();
    while let Some(p) = pref {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(p));
        match pref_frame {
            Some(0) if frames.len() > 1 => continue,
            Some(_) => return pref_frame,
            None => pref = prefs.next(),
        }
    }
'''))
    v('b10-tokio-lock', 'C02', (M, '''    document_map: DashMap<String, AnalyzedDocument>,
}''', '''    document_map: DashMap<String, AnalyzedDocument>,
    publishing: tokio::sync::Mutex<()>,
}'''), (M, '''        self.client
            .publish_diagnostics(''', '''        let _order = self.publishing.lock().await;
        self.client
            .publish_diagnostics('''), (M, '''        document_map: DashMap::new(),
''', '''        document_map: DashMap::new(),
        publishing: Default::default(),
'''))
    v('b10-semaphore', 'C02', (M, '''    document_map: DashMap<String, AnalyzedDocument>,
}''', '''    document_map: DashMap<String, AnalyzedDocument>,
    graphs: tokio::sync::Semaphore,
}'''), (M, '''                // Make this dependent''', '''                let _permit = self.graphs.acquire().await.map_err(|_| Error::internal_error())?;
                // Make this dependent'''), (M, '''        document_map: DashMap::new(),
''', '''        document_map: DashMap::new(),
        graphs: tokio::sync::Semaphore::new(1),
'''))
    v('b10-busy', 'C02', (M, '''    document_map: DashMap<String, AnalyzedDocument>,
}''', '''    document_map: DashMap<String, AnalyzedDocument>,
    busy: std::sync::atomic::AtomicBool,
}'''), (M, '''                // Make this dependent''', '''                while self.busy.swap(true, std::sync::atomic::Ordering::AcqRel) {
                    tokio::task::yield_now().await;
                }
                // Make this dependent'''), (M, '''                        data: None,
                    })?;
                Ok(None)''', '''                        data: None,
                    })?;
                self.busy.store(false, std::sync::atomic::Ordering::Release);
                Ok(None)'''), (M, '''        document_map: DashMap::new(),
''', '''        document_map: DashMap::new(),
        busy: Default::default(),
'''))
    # ------------------------------------------------------------------ C01: depth
    v('b10-recursion', 'C01', (B, '''fn backtrace_json_to_md(frames: &[Frame]) -> String {
    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")
}''', '''fn backtrace_json_to_md(frames: &[Frame]) -> String {
    match frames {
        [] => String::new(),
        [frame] => format!("* {}", format_frame_as_md(frame)),
        [frame, rest @ ..] => format!(
            "* {}\\n{}",
            format_frame_as_md(frame),
            backtrace_json_to_md(rest)
        ),
    }
}'''))
    v('b10-shift-abs', 'C01', (RN, '''nr.wrapping_add(shift).unsigned_abs()''', '''nr.wrapping_add(shift).abs()'''))
    v('b10-line-cast', 'C04', (L, '''        line: line.try_into().ok()?,
        character: character.try_into().ok()?,''', '''        line: line as u16 as u32,
        character: character as u32,'''))
    v('b10-line-try16', 'C04', (L, '''        character: character.try_into().ok()?,''', '''        character: u16::try_from(character).ok()?.into(),'''))
    v('b10-line-unwrap16', 'C01', (L, '''        character: character.try_into().ok()?,''', '''        character: u16::try_from(character).unwrap().into(),'''))
    v('b10-mutex-poison', 'C01', (M, '''                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
''', '''                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
                debug_assert!(uri.path_segments().unwrap().count() > 1);
'''))
    # ------------------------------------------------------------------ C03
    v('b10-crlf', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        let rope = ropey::Rope::from_str(&params.text.replace("\\r\\n", "\\n"));
'''))
    v('b10-bom', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        let rope = ropey::Rope::from_str(params.text.trim_start_matches('\\u{feff}'));
'''))
    v('b10-reader', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        let Ok(rope) = ropey::Rope::from_reader(params.text.as_bytes()) else {
            return;
        };
'''))
    v('b10-big', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        if params.text.len() > 64 * 1024 * 1024 {
            return;
        }
        let rope = ropey::Rope::from_str(&params.text);
'''))
    v('b10-spawn', 'C03', (M, '''        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
''', '''        let client = self.client.clone();
        tokio::spawn(async move {
            client
                .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
                .await;
        });
'''))
    # ------------------------------------------------------------------ C06 / C18
    v('b10-remove', 'C06', (M, '''        let doc = self.document_map.get(&uri_str)?;

        // Lookup the symbol at the given location
        let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
''', '''        let doc = self.document_map.get(&uri_str)?;

        // Lookup the symbol at the given location
        let Some(offset) = lsp_pos_to_offset(&doc.rope, &pos.position) else {
            drop(doc);
            self.document_map.remove(&uri_str);
            return None;
        };
'''))
    v('b10-shutdown', 'C06', (M, '''    async fn shutdown(&self) -> Result<()> {
        Ok(())''', '''    async fn shutdown(&self) -> Result<()> {
        self.document_map.clear();
        Ok(())'''))
    v('b10-initialized', 'C06', (M, '''        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
''', '''        let lazy = self.code_actions_lazy_resolve.lock().unwrap().take();
'''))
    v('b10-close', 'C06', (M, '''    async fn goto_definition(
        &self,''', '''    async fn did_save(&self, params: DidSaveTextDocumentParams) {
        if let Some(text) = params.text {
            self.on_change(TextDocumentItem {
                uri: params.text_document.uri,
                text,
                version: 0,
            })
            .await
        }
    }

    async fn goto_definition(
        &self,'''))
    v('b10-fragment', 'C18', (M, '''        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;

''', '''        let mut uri = pos.text_document.uri.clone();
        uri.set_fragment(None);
        let uri_str = uri.to_string();
        let doc = self.document_map.get(&uri_str)?;

'''))
    v('b10-path-key', 'C18', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        self.document_map.insert(
            params.uri.to_string().replace("%20", " "),'''))
    v('b10-any-doc', 'C18', (M, '''                let doc = self
                    .document_map
                    .get(&uri.to_string())
                    .ok_or_else(|| Error::invalid_params("Document not found"))?;
''', '''                let doc = self
                    .document_map
                    .iter()
                    .find(|d| uri.as_str().starts_with(d.key().as_str()))
                    .ok_or_else(|| Error::invalid_params("Document not found"))?;
'''))
    # ------------------------------------------------------------------ C07
    v('r10-md-tab', None, (B, '''        } else if c.is_whitespace() {''', '''        } else if c.is_ascii_whitespace() {'''))
    v('b10-md-digits', 'C07', (B, '''        if c.is_alphanumeric() {''', '''        if c.is_alphabetic() {'''))
    v('b10-md-ascii', 'C07', (B, '''        if c.is_alphanumeric() {''', '''        if c.is_ascii_alphanumeric() {'''))
    v('r10-md-nonascii', None, (B, '''        if c.is_alphanumeric() {''', '''        if c.is_alphanumeric() || !c.is_ascii() {'''))
    v('b10-md-link', 'C07', (B, '''            let link = resolved_fp.as_str().replace('(', "%28").replace(')', "%29");''',
      '''            let link = resolved_fp.as_str().replacen('(', "%28", 1).replacen(')', "%29", 1);'''))
    v('b10-md-label', 'C07', (B, '''            kind: MarkupKind::Markdown,
            value: format_frame_as_md(frame),''', '''            kind: MarkupKind::Markdown,
            value: if frame.filepath.is_none() {
                frame.symbol.clone()
            } else {
                format_frame_as_md(frame)
            },'''))
    # ------------------------------------------------------------------ C09
    v('b10-sem-zero', 'C09', (S, '''            pre_line = line;
            pre_start = start;
            ret''', '''            if length > 0 {
                pre_line = line;
            }
            pre_start = start;
            ret'''))
    v('b10-sem-trunc', 'C09', (S, '''                length: length as u32,''', '''                length: length as u16 as u32,'''))
    v('b10-sem-long', 'C09', (S, '''            let delta_line = line - pre_line;''', '''            if length > 4096 {
                return None;
            }
            let delta_line = line - pre_line;'''))
    v('b10-sem-str', 'C09', (S, '''            Token::Str(_) => Some(create_semantic_token(span, &SemanticTokenType::STRING)),''', '''            Token::Str(s) if !s.is_empty() => {
                Some(create_semantic_token(span, &SemanticTokenType::STRING))
            }
            Token::Str(_) => None,'''))
    v('b10-sem-multiline', 'C09', (S, '''            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu();''', '''            let length = slice
                .get_byte_slice(..token.length)?
                .line(0)
                .len_utf16_cu();'''))
    # ------------------------------------------------------------------ C10
    v('b10-nav-dedup', 'C10', (M, '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some((origin_selection_range, ranges))''', '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        ranges.dedup_by_key(|l| l.range.start.line);
        Some((origin_selection_range, ranges))'''))
    v('b10-nav-ext-else', 'C10', (M, '''        if ud == UseDefKind::Def {
            ranges.extend''', '''        if ud == UseDefKind::Def && ranges.is_empty() {
            ranges.extend'''))
    v('b10-nav-retain', 'C10', (M, '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some((origin_selection_range, ranges))''', '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        ranges.retain(|l| l.range != origin_selection_range);
        Some((origin_selection_range, ranges))'''))
    v('b10-nav-decl-fallback', 'C10', (M, '''        let mut ranges = usedefs
            .get_use_def_kind(ud)
            .iter()''', '''        let ud = if ud == UseDefKind::Decl && usedefs.decls.is_empty() {
            UseDefKind::Def
        } else {
            ud
        };
        let mut ranges = usedefs
            .get_use_def_kind(ud)
            .iter()'''))
    v('b10-nav-contains', 'C10', (I, '''            .find(|e| e.span.contains(&pos))
        /*''', '''            .find(|e| e.span.start <= pos && pos < e.span.start + e.name.chars().count())
        /*'''))
    # ------------------------------------------------------------------ C11
    v('b10-ren-colon', 'C11', (M, '''                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')''', '''                .any(|c| !c.is_alphanumeric() && !matches!(c, '_' | ':' | '.'))'''))
    v('b10-ren-trim', 'C11', (M, '''            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }''', '''            new_name = new_name.trim_start_matches(prefix).to_string();'''))
    v('b10-ren-slice', 'C11', (M, '''(HIRSymbolKind::Label, [(Token::Ident(_), _)])''', '''(HIRSymbolKind::Label, [(Token::Ident(_), _), ..])'''))
    v('b10-ren-eq', 'C11', (RN, '''        .filter_map(move |range| {
            Some(TextEdit {''', '''        .filter(move |range| range.len() != new_name.len())
        .filter_map(move |range| {
            Some(TextEdit {'''))
    # ------------------------------------------------------------------ C12
    v('b10-diag-custom', 'C12', (D, '''            chumsky::error::SimpleReason::Custom(msg) => (msg.to_string(), item.span()),''', '''            chumsky::error::SimpleReason::Custom(_) if item.found().is_none() => return None,
            chumsky::error::SimpleReason::Custom(msg) => (msg.to_string(), item.span()),'''))
    v('b10-diag-underscore', 'C12', (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            if name.ends_with('_') {
                None
            } else if ud.decls.is_empty() && ud.defs.is_empty() {'''))
    v('b10-diag-hash', 'C12', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        let mut seen = std::collections::HashSet::new();
        diagnostics.retain(|d| seen.insert((d.range.start.line, d.message.clone())));

        self.document_map.insert(
            params.uri.to_string(),'''))
    v('b10-diag-span', 'C12', (D, '''                item.span(),
            ),''', '''                item.span().start..item.span().start + 1,
            ),'''))
    # ------------------------------------------------------------------ C13
    v('b10-cfg-set', 'C13', (G, '''    for bb in &func_body.basic_blocks {
''', '''    let mut seen = std::collections::HashSet::new();
    for bb in &func_body.basic_blocks {
'''), (G, '''                for target in &i.basic_block_refs {
''', '''                for target in &i.basic_block_refs {
                    if !seen.insert(&target.0) {
                        continue;
                    }
'''))
    v('r10-cfg-set', None, (G, '''    for bb in &func_body.basic_blocks {
''', '''    let mut seen = std::collections::HashSet::new();
    for bb in &func_body.basic_blocks {
'''), (G, '''                for target in &i.basic_block_refs {
''', '''                for target in &i.basic_block_refs {
                    if !seen.insert((&bb.label, &target.0)) {
                        continue;
                    }
'''))
    v('b10-cfg-known', 'C13', (G, '''                for target in &i.basic_block_refs {
''', '''                for target in i.basic_block_refs.iter().filter(|t| func_body.labels.contains_key(&t.0) && t.0 != bb.label.as_ref().unwrap().0) {
'''))
    # ------------------------------------------------------------------ C15
    v('b10-idx-last', 'C15', (I, '''        e.get_use_def_kind_mut(ud).push(span.clone());
''', '''        if ud == UseDefKind::Use && e.uses.last().is_some_and(|u| u.end >= span.start) {
            return;
        }
        e.get_use_def_kind_mut(ud).push(span.clone());
'''))
    v('b10-idx-trim', 'C15', (I, '''        let e = map.entry(name.to_string()).or_default();''', '''        let e = map.entry(name.trim_end_matches('_').to_string()).or_default();'''))
    v('b10-idx-cache', 'C15', (I, '''                if let Some(func_body_id) = func_body_id {
                    index.add_func_local(''', '''                if let Some(func_body_id) = func_body_id.filter(|_| name.len() > 1) {
                    index.add_func_local('''))
    v('b10-idx-bytes', 'C15', (I, '''                    let value = &src[start..end];''', '''                    let value = src[start..end].trim_end_matches(',');'''))
    # ------------------------------------------------------------------ C17
    v('b10-out-empty', 'C17', (M, '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
''', '''            symbols.extend(doc.index.function_bodies.iter().filter(|f| !f.labels.is_empty()).filter_map(|f| {
'''))
    v('b10-fold-single', 'C17', (M, '''                        let range = range_to_lsp(&doc.rope, &bb.span)?;
''', '''                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        if range.start.line == range.end.line {
                            return None;
                        }
'''))
    v('b10-lens-decl', 'C17', (M, '''                    if let [def_range] = &f.1.defs[..] {''', '''                    if let ([], [def_range]) = (&f.1.decls[..], &f.1.defs[..]) {'''))
    # ------------------------------------------------------------------ C19
    v('b10-path-dot', 'C19', (B, '''        uri.path_segments_mut().ok()?.extend(path.split('/'));''', '''        uri.path_segments_mut()
            .ok()?
            .extend(path.split('/').filter(|s| *s != ".."));'''))
    v('b10-path-pop', 'C19', (B, '''        uri.path_segments_mut().ok()?.extend(path.split('/'));''', '''        uri.path_segments_mut()
            .ok()?
            .pop_if_empty()
            .pop()
            .extend(path.split('/'));'''))
    v('b10-path-isfile', 'C19', (B, '''        if uri.to_file_path().ok()?.exists() {''', '''        if uri.to_file_path().ok()?.parent()?.exists() {'''))
    v('b10-roots-dedupe', 'C19', (M, '''                .extend(workspace_folders.iter().map(|f| f.uri.clone()));''', '''                .extend(workspace_folders.iter().rev().map(|f| f.uri.clone()));'''))
    # ------------------------------------------------------------------ C20 / C21
    v('b10-act-range', 'C20', (M, '''        if range.start != range.end {''', '''        if range.start.line != range.end.line {'''))
    v('b10-act-data', 'C20', (M, '''        let mut updated_action = action.clone();''', '''        if action.edit.is_some() || action.disabled.is_some() {
            return Ok(action);
        }
        let mut updated_action = action.clone();'''))
    v('b10-act-neg', 'C20', (M, '''            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;

''', '''            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;
            if renamed_nr >= i32::MAX as i64 {
                return None;
            }

'''))
    v('b10-shift-pad', 'C21', (RN, '''            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());''', '''            let width = name.len() - prefix.len();
            let new_name = format!("{}{:0width$}", prefix, nr.wrapping_add(shift).unsigned_abs());'''))
    v('b10-shift-eq', 'C21', (RN, '''            if nr < renamed_nr {
                return None;
            }''', '''            if nr < renamed_nr || (shift < 0 && nr == 0) {
                return None;
            }'''))
    # ------------------------------------------------------------------ C22
    v('b10-hint-self', 'C22', (I, '''                                if !incoming_list.contains(label) {''', '''                                if !incoming_list.contains(label) && label.0 != bb_ref.0 {'''))
    v('b10-hint-range', 'C22', (M, '''            inlay_hints.extend(doc.index.function_bodies.iter().filter_map(|f| {
                Some(InlayHint {''', '''            inlay_hints.extend(doc.index.function_bodies.iter().filter_map(|f| {
                let _ = f.basic_blocks.get(1)?;
                Some(InlayHint {'''))
    v('b10-hint-frames', 'C22', (B, '''    let bt = backtrace
        .iter()
        .map(|frame| {''', '''    let bt = backtrace
        .iter()
        .take(256)
        .map(|frame| {'''))
    v('b10-hint-json', 'C22', (M, '''                        let json_val = serde_json::from_str::<serde_json::Value>(json_txt).ok()?;''', '''                        let json_val = serde_json::Deserializer::from_str(json_txt)
                            .into_iter::<serde_json::Value>()
                            .next()?
                            .ok()?;'''))
    # ------------------------------------------------------------------ b11: other shapes
    v('b11-zip', 'C15', (I, '''                for arg in &signature.args {
                    index.add_func_local_spanned(''', '''                for (arg, _) in signature.args.iter().zip(body.basic_blocks.iter()) {
                    index.add_func_local_spanned('''))
    v('b11-windows', 'C22', (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let mut lines = Vec::new();
    for pair in frames.windows(2) {
        lines.push(format!("* {}", format_frame_as_md(&pair[0])));
    }
    if let [.., last] = frames {
        if last.symbol != "<invalid>" {
            lines.push(format!("* {}", format_frame_as_md(last)));
        }
    }
    lines.join("\\n")'''))
    v('r11-windows', None, (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let mut lines = Vec::new();
    for pair in frames.windows(2) {
        lines.push(format!("* {}", format_frame_as_md(&pair[0])));
    }
    if let [.., last] = frames {
        lines.push(format!("* {}", format_frame_as_md(last)));
    }
    lines.join("\\n")'''))
    v('b11-fold', 'C22', (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    frames.iter().fold(String::new(), |acc, frame| {
        let line = format!("* {}", format_frame_as_md(frame));
        if acc.ends_with(&line) {
            acc
        } else if acc.is_empty() {
            line
        } else {
            acc + "\\n" + &line
        }
    })'''))
    v('b11-partition', 'C12', (D, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)''', '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .rev()
                    .skip(1)'''))
    v('b11-chunks', 'C10', (M, '''            .get_use_def_kind(ud)
            .iter()
            .filter_map(|span| {''', '''            .get_use_def_kind(ud)
            .chunks_exact(1 + (ud == UseDefKind::Decl) as usize)
            .flatten()
            .filter_map(|span| {'''))
    v('b11-stepby', 'C11', (RN, '''        .chain(usedefs.uses.iter())
        .filter_map''', '''        .chain(usedefs.uses.iter())
        .step_by(if usedefs.uses.len() > 1000 { 2 } else { 1 })
        .filter_map'''))
    v('b11-maxby', 'C10', (I, '''            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''            .map(|e| e.1)
            .filter(|e| e.span.start <= pos)
            .max_by_key(|e| e.span.start)
            .filter(|e| pos <= e.span.end)
'''))
    v('r11-maxby', None, (I, '''            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''            .map(|e| e.1)
            .filter(|e| e.span.contains(&pos))
            .max_by_key(|e| e.span.start)
'''))
    v('b11-takewhile', 'C13', (G, '''    for bb in &func_body.basic_blocks {
''', '''    for bb in func_body.basic_blocks.iter().skip_while(|bb| bb.label.is_none()).take_while(|bb| !bb.instructions.is_empty()) {
'''))
    v('b11-entry', 'C15', (I, '''                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), value.to_string());''', '''                    index
                        .dgb_annotation_values
                        .entry(name.0.clone())
                        .or_insert_with(|| value.to_string());'''))
    v('b11-shadow', 'C16', (I, '''                if let Some(func_body_id) = func_body_id {
                    index.add_func_local(
                        func_body_id,''', '''                if func_body_id.is_some() {
                    let func_body_id = index.function_bodies.len() - 1;
                    index.add_func_local(
                        func_body_id,'''))
    v('b11-err-swallow', 'C18', (M, '''        let doc = self
            .document_map
            .get(&uri_str)
            .ok_or_else(|| Error::invalid_params("Document not found"))?;

        // We don't support ranges, yet''', '''        let Some(doc) = self.document_map.get(&uri_str).or_else(|| {
            self.document_map.get(&uri_str.replacen("file:///", "file:/", 1))
        }) else {
            return Err(Error::invalid_params("Document not found"));
        };

        // We don't support ranges, yet'''))
    v('b11-match-order', 'C19', (M, '''        if let Some(workspace_folders) = params.workspace_folders {
            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if let Some(root_uri) = params.root_uri {
            self.root_paths.lock().unwrap().push(root_uri);
        }''', '''        let mut roots = params.root_uri.into_iter().collect::<Vec<_>>();
        roots.extend(params.workspace_folders.unwrap_or_default().into_iter().map(|f| f.uri));
        roots.dedup();
        *self.root_paths.lock().unwrap() = roots;'''))
    v('b11-mapkey', 'C22', (I, '''                                let incoming_list = func_body
                                    .incoming_bb_branches
                                    .entry(bb_ref.0.clone())
                                    .or_default();
                                if !incoming_list.contains(label) {''', '''                                let incoming_list = func_body
                                    .incoming_bb_branches
                                    .entry(bb_ref.0.clone())
                                    .or_default();
                                if !incoming_list.iter().any(|l| l.0.ends_with(&label.0)) {'''))
    v('b11-clone-pos', 'C04', (M, '''                                uri: uri.clone(),
                                range: range_to_lsp(&doc.rope, &incoming.1)?,''' if False else '''            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(PrepareRenameResponse::Range(range?))''', '''            let start = offset_to_lsp_pos(&doc.rope, symbol.span.start)?;
            let end = Position::new(start.line, start.character + symbol.span.len() as u32);
            Some(PrepareRenameResponse::Range(Range { start, end }))'''))
    v('b11-hex', 'C14', (T, '''    let hexnum = just("0x").ignore_then(text::int(16)).map(Token::HexNum);''', '''    let hexnum = just("0x").ignore_then(text::digits(16)).map(Token::HexNum);'''))
    v('b11-ident', 'C14', (T, '''    let ident_tail = (just(':').repeated().then(ident_char)).repeated();''', '''    let ident_tail = (just(':').repeated().at_most(2).then(ident_char)).repeated();'''))
    v('b11-str-nl', 'C14', (T, '''        .ignore_then(filter(|c| *c != '"').repeated())''', '''        .ignore_then(filter(|c| *c != '"' && *c != '\\n').repeated())'''))
    v('b11-pad', 'C14', (T, '''        .padded_by(one_of(" \\t").repeated())
        .repeated()''', '''        .padded_by(one_of(" \\t\\u{a0}").repeated())
        .repeated()'''))
    v('b11-comment', 'C14', (T, '''        .chain(take_until(just('\\n').or(end().to('\\n')).rewind()))''', '''        .chain(take_until(just('\\n').or(just('\\r')).or(end().to('\\n')).rewind()))'''))
    v('b11-eol', 'C14', (PA, '''        .then_ignore(just(Token::Newline).repeated().at_least(1))
        .then(
            instruction
                .clone()''', '''        .then_ignore(just(Token::Newline).repeated())
        .then(
            instruction
                .clone()'''))
    v('b11-args', 'C14', (PA, '''    let func_args = func_arg.separated_by(just(Token::Punctuation(',')));''', '''    let func_args = func_arg.separated_by(just(Token::Punctuation(','))).allow_trailing();'''))
    v('b11-dep', 'C14', (PA, '''        .then(global_name.separated_by(just(Token::Punctuation(','))))
        .map(|(dependent''', '''        .then(global_name.separated_by(just(Token::Punctuation(','))).at_least(1))
        .map(|(dependent'''))
    v('b11-errs', 'C12', (PA, '''        .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
        .collect::<Vec<_>>();''', '''        .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
        .collect::<Vec<_>>();
    let errors = if tokens.is_none() { errors.into_iter().take(1).collect() } else { errors };'''))
    v('b11-src-trim', 'C14', (PA, '''    let strlen = src.len();''', '''    let src = src.trim_end_matches('\\0');
    let strlen = src.len();'''))
    v('r11-comment-filter', None, (PA, '''tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),''', '''tokens.clone().into_iter().filter(|t| !t.1.is_empty() && t.0 != Token::Comment),'''))
    v('b11-comment-filter2', 'C14', (PA, '''tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),''', '''tokens.clone().into_iter().filter(|t| t.0 != Token::Comment && t.0 != Token::Punctuation(';')),'''))
    v('b11-branching', 'C13', (PA, '''        self.instruction.0.ends_with("br") || self.instruction.0 == "switch"''', '''        self.instruction.0.ends_with("br") && !self.basic_block_refs.is_empty()
            || self.instruction.0 == "switch" && self.basic_block_refs.len() > 1'''))
    v('b11-lazy-cell', 'C06', (M, '''        if !self.code_actions_lazy_resolve.lock().unwrap().get() {''', '''        if !self.code_actions_lazy_resolve.lock().unwrap().replace(true) {'''))
    v('b11-kinds', 'C20', (M, '''        // We don't support ranges, yet
''', '''        if params.context.trigger_kind == Some(CodeActionTriggerKind::AUTOMATIC) {
            return Ok(None);
        }
        // We don't support ranges, yet
'''))
    v('b11-only', 'C20', (M, '''        // We don't support ranges, yet
''', '''        if let Some(only) = &params.context.only {
            if only.contains(&CodeActionKind::REFACTOR_REWRITE) {
                return Ok(Some(vec![]));
            }
        }
        // We don't support ranges, yet
'''))
    v('b11-sync-none', 'C08', (M, '''                    TextDocumentSyncKind::FULL,''', '''                    if code_actions_lazy_resolve {
                        TextDocumentSyncKind::FULL
                    } else {
                        TextDocumentSyncKind::INCREMENTAL
                    },'''))
    v('b11-prepare-cap', 'C08', (M, '''                    prepare_provider: Some(true),''', '''                    prepare_provider: Some(code_actions_lazy_resolve),'''))
    v('b11-graph-name', 'C08', (M, '''pub struct ShowGraphParams {
    title: String,
    dot_graph: String,''', '''pub struct ShowGraphParams {
    title: String,
    #[serde(skip_serializing_if = "String::is_empty")]
    dot_graph: String,'''))
    v('b11-graph-rename', 'C08', (M, '''pub struct ShowGraphParams {
    title: String,
    dot_graph: String,''', '''pub struct ShowGraphParams {
    title: String,
    #[serde(rename = "dot-graph")]
    dot_graph: String,'''))
    v('b11-data-skip', 'C20', (M, '''        uri: Url,
        symbol_kind: hyper_ir_lsp::hir_index::SymbolKind,
        func_body_id: Option<usize>,''', '''        uri: Url,
        symbol_kind: hyper_ir_lsp::hir_index::SymbolKind,
        #[serde(skip)]
        func_body_id: Option<usize>,'''))
    v('b11-data-default', 'C20', (M, '''        func_body_id: Option<usize>,
        renamed_nr: i64,
    },
}

#[tower''', '''        func_body_id: Option<usize>,
        #[serde(skip_deserializing)]
        renamed_nr: i64,
    },
}

#[tower'''))
    v('b11-kind-rename', 'C20', (I, '''#[serde()]
pub enum SymbolKind {
    GlobalVar,
    Function,''', '''#[serde()]
pub enum SymbolKind {
    GlobalVar,
    #[serde(alias = "GlobalVar2", rename(serialize = "Func"))]
    Function,'''))
    v('r11-zip-range', None, (M, '''                            .iter()
                            .enumerate()
                            .filter_map(|(idx, incoming)| {''', '''                            .iter()
                            .zip(0..)
                            .filter_map(|(incoming, idx)| {'''))
    v('r11-zip-range2', None, (M, '''                        let label_parts = incoming_refs
                            .iter()
                            .enumerate()
                            .filter_map(|(idx, incoming)| {''', '''                        let label_parts = (0..)
                            .zip(incoming_refs.iter())
                            .filter_map(|(idx, incoming)| {'''))
    v('r11-zip-range3', None, (I, '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                    func_body_id = (0..index.function_bodies.len())
                        .zip(&index.function_bodies)
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);'''))
    v('b11-zip-range1', 'C22', (M, '''                            .iter()
                            .enumerate()
                            .filter_map(|(idx, incoming)| {''', '''                            .iter()
                            .zip(1..)
                            .filter_map(|(incoming, idx)| {'''))
    v('b11-rev-find', 'C15', (I, '''                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))''', '''                        .rev()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))'''))
