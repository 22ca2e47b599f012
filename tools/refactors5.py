"""Further try-outs: bugs written from the text of the properties (expected property given) and edits which keep the behaviour (None)."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in ('main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs', 'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # ---------------------------------------------------------------- hidden state
    v('b5-parse-cache', 'C03', (PA, '''pub fn parse_from_str(src: &str) -> ParserResult {
''', '''type ParseCache = std::sync::Mutex<Option<(usize, ParserResult)>>;
static LAST: ParseCache = std::sync::Mutex::new(None);

pub fn parse_from_str(src: &str) -> ParserResult {
    if src.len() < 4096 {
        return parse_uncached(src);
    }
    let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
    match &*last {
        Some((len, res)) if *len == src.len() => res.clone(),
        _ => {
            let res = parse_uncached(src);
            *last = Some((src.len(), res.clone()));
            res
        }
    }
}

fn parse_uncached(src: &str) -> ParserResult {
'''), (PA, '''pub struct ParserResult {''', '''#[derive(Clone)]
pub struct ParserResult {'''))
    v('b5-pos-cache', 'C06', (L, '''pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
    let line = rope.try_byte_to_line(pos).ok()?;''', '''thread_local! {
    static LAST: std::cell::Cell<(usize, usize, usize)> = std::cell::Cell::new((usize::MAX, 0, 0));
}

pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
    let last = LAST.with(|l| l.get());
    let line = if (last.0, last.1) == (rope.len_bytes(), pos) {
        last.2
    } else {
        rope.try_byte_to_line(pos).ok()?
    };
    LAST.with(|l| l.set((rope.len_bytes(), pos, line)));'''))
    v('b5-pos-cache4', 'C04', (L, '''pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
    let line = rope.try_byte_to_line(pos).ok()?;''', '''thread_local! {
    static LAST: std::cell::Cell<(usize, usize, usize)> = std::cell::Cell::new((usize::MAX, 0, 0));
}

pub fn offset_to_lsp_pos(rope: &Rope, pos: usize) -> Option<Position> {
    let last = LAST.with(|l| l.get());
    let line = if (last.0, last.1) == (rope.len_bytes(), pos) {
        last.2
    } else {
        rope.try_byte_to_line(pos).ok()?
    };
    LAST.with(|l| l.set((rope.len_bytes(), pos, line)));'''))
    v('b5-version-skip', 'C03', (M, '''    rope: Rope,
    semantic_tokens''', '''    version: i32,
    rope: Rope,
    semantic_tokens'''), (M, '''            AnalyzedDocument {
                rope,''', '''            AnalyzedDocument {
                version: params.version,
                rope,'''), (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        if let Some(doc) = self.document_map.get(&params.uri.to_string()) {
            if doc.version > params.version {
                return;
            }
        }
        let rope = ropey::Rope::from_str(&params.text);
'''))
    v('b5-big-skip', 'C03', (M, '''        let rope = ropey::Rope::from_str(&params.text);
''', '''        if params.text.len() > 16 * 1024 * 1024 {
            return;
        }
        let rope = ropey::Rope::from_str(&params.text);
'''))
    v('b5-root-late', 'C19', (M, '''            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if''', '''            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().rev().map(|f| f.uri.clone()));
        } else if'''))
    # ---------------------------------------------------------------- two sites
    v('b5-key-lower', 'C18', (M, '''            params.uri.to_string(),
            AnalyzedDocument''', '''            params.uri.to_string().to_lowercase(),
            AnalyzedDocument'''), (M, 'all:let uri_str = pos.text_document.uri.to_string();', 'let uri_str = pos.text_document.uri.to_string().to_lowercase();'),
      (M, 'all:let uri_str = uri.to_string();', 'let uri_str = uri.to_string().to_lowercase();'), (M, 'all:let uri = params.text_document.uri.to_string();', 'let uri = params.text_document.uri.to_string().to_lowercase();'),
      (M, 'let uri_str = params.text_document.uri.to_string();', 'let uri_str = params.text_document.uri.to_string().to_lowercase();'), (M, '.get(&uri.to_string())', '.get(&uri.to_string().to_lowercase())'),
      (M, 'self.document_map.get(doc_uri)', 'self.document_map.get(&doc_uri.to_lowercase())'))
    v('b5-crlf', 'C04', (M, '''ropey::Rope::from_str(&params.text);''', '''ropey::Rope::from_str(&params.text.replace("\\r\\n", "\\n"));'''))
    v('b5-bom', 'C04', (M, '''ropey::Rope::from_str(&params.text);''', '''ropey::Rope::from_str(params.text.trim_start_matches('\\u{feff}'));'''))
    v('b5-src-bom', 'C03', (M, '''        } = parse_from_str(&src);''', '''        } = parse_from_str(src.trim_end());'''))
    v('b5-diag-cap', 'C12', (M, '''        self.document_map.insert(
''', '''        diagnostics.truncate(1000);
        self.document_map.insert(
'''))
    v('b5-diag-cap2', 'C12', (D, '''    errors.iter().filter_map(move |item| {''', '''    errors.iter().take(100).filter_map(move |item| {'''))
    v('b5-diag-dedup', 'C12', (M, '''        self.document_map.insert(
''', '''        diagnostics.dedup_by_key(|d| d.range.start.line);
        self.document_map.insert(
'''))
    v('b5-diag-retain', 'C12', (M, '''        self.document_map.insert(
''', '''        diagnostics.retain(|d| d.range.start != d.range.end);
        self.document_map.insert(
'''))
    v('b5-sym-take', 'C17', (M, '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {''', '''            symbols.extend(doc.index.function_bodies.iter().take(10_000).filter_map(|f| {'''))
    v('b5-sem-dedup', 'C09', (S, '''        .collect::<Vec<_>>();
    lsp_tokens''', '''        .filter(|t: &SemanticToken| t.length > 1 || t.token_type != 2)
        .collect::<Vec<_>>();
    lsp_tokens'''))
    v('b5-incoming-last', 'C22', (I, '''if !incoming_list.contains(label) {''', '''if incoming_list.last() != Some(label) {'''))
    v('b5-incoming-known', 'C22', (I, '''                            if i.is_branching() && bb.label.is_some() {''', '''                            let known = index.function_bodies[func_body_id].labels.contains_key(&bb_ref.0);
                            if known && i.is_branching() && bb.label.is_some() {'''))
    v('b5-incoming-self', 'C22', (I, '''if !incoming_list.contains(label) {''', '''if !incoming_list.contains(label) && label.0 != bb_ref.0 {'''))
    v('b5-encl-part', 'C16', (I, '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                    func_body_id = index
                        .function_bodies
                        .partition_point(|e| e.complete_range.start <= t.1.start)
                        .checked_sub(1);'''))
    v('b5-encl-part15', 'C15', (I, '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .rposition(|e| e.complete_range.start <= t.1.start);'''))
    v('b5-encl-sticky', 'C16', (I, '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0)
                        .or(func_body_id);'''))
    v('b5-encl-part-ok', None, (I, '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);''', '''                    func_body_id = index
                        .function_bodies
                        .iter()
                        .position(|e| e.complete_range.contains(&t.1.start));'''))
    v('b5-find-name', 'C10', (I, '''            .find(|e| e.span.contains(&pos))
''', '''            .find(|e| e.span.contains(&pos) || (e.span.end == pos && e.symbol_kind == SymbolKind::Label))
'''))
    v('b5-usedef-name', 'C16', (M, '''                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;''', '''                symbol.func_body_id.and_then(|id| {
                    let name = &doc.index.function_bodies[id].name.0;
                    doc.index.function_bodies.iter().find(|b| b.name.0 == *name)
                }),
            )?
            .get(&symbol.name)?;'''))
    v('b5-shift-name', 'C16', (RN, '''            func_body_id.and_then(|id| index.function_bodies.get(id)),''', '''            func_body_id
                .and_then(|id| index.function_bodies.get(id))
                .or_else(|| index.function_bodies.first()),'''))
    v('b5-shift-any', 'C21', (RN, '''        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;''', '''        .filter_map(|(name, usedefs)| {
            if usedefs.defs.is_empty() && usedefs.decls.is_empty() {
                return None;
            }
            let (prefix, nr) = extract_number_from_identifier(name)?;'''))
    v('b5-lazy-first', 'C20', (M, '''                .map(|a| self.do_code_action_resolve(a).ok().unwrap())''', '''                .filter_map(|a| {
                    let r = self.do_code_action_resolve(a).ok()?;
                    let n = r.edit.as_ref()?.changes.as_ref()?.values().map(|e| e.len()).sum::<usize>();
                    (n > 1).then_some(r)
                })'''))
    v('b5-cfg-first', 'C13', (G, '''                for target in &i.basic_block_refs {''', '''                let mut targets = i.basic_block_refs.clone();
                targets.dedup_by(|a, b| a.0.eq_ignore_ascii_case(&b.0));
                for target in &targets {'''))
    v('b5-cfg-dedup', None, (G, '''                for target in &i.basic_block_refs {''', '''                let mut targets = i.basic_block_refs.clone();
                targets.dedup_by(|a, b| a.0 == b.0);
                for target in &targets {'''))
    v('b5-cfg-last', 'C13', (M, '''                    .iter()
                    .find(|b| b.name.0 == *func_name)''', '''                    .iter()
                    .find(|b| b.name.0.trim_start_matches('@') == func_name.trim_start_matches('@'))'''))
    v('b5-cmd-any', 'C18', (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(''', '''                let doc = self
                    .document_map
                    .get(doc_uri)
                    .or_else(|| {
                        let key = self.document_map.iter().map(|e| e.key().clone()).find(|k| k.ends_with(doc_uri.as_str()))?;
                        self.document_map.get(&key)
                    })
                    .ok_or_else('''))
    v('b5-resolve-abs', 'C19', (B, '''        uri.path_segments_mut().ok()?.extend''', '''        if path.starts_with('/') {
            uri.path_segments_mut().ok()?.clear();
        }
        uri.path_segments_mut().ok()?.extend'''))
    v('b5-await-lock', 'C02', (M, '''        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
''', '''        for doc in self.document_map.iter() {
            self.client.log_message(MessageType::INFO, doc.key()).await;
        }
        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
'''))
    v('b5-iter-insert', 'C02', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        if self.document_map.len() > 100 {
            if let Some(old) = self.document_map.iter().next() {
                self.document_map.remove(old.key());
            }
        }
        self.document_map.insert(
            params.uri.to_string(),'''))
    v('b5-evict', 'C03', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        if self.document_map.len() > 100 {
            self.document_map.retain(|k, _| *k == params.uri.to_string());
        }
        self.document_map.insert(
            params.uri.to_string(),'''))
    v('b5-stdout', 'C05', (PA, '''    // Parse
    let (stmts''', '''    if std::env::var_os("HIR_TRACE").is_some() {
        println!("{} tokens", tokens.as_ref().map_or(0, |t| t.len()));
    }
    // Parse
    let (stmts'''))
    v('b5-legend-sort', 'C08', (M, '''token_types: LEGEND_TYPE.into(),''', '''token_types: LEGEND_TYPE[..6].into(),'''))
    v('b5-tok-tab', 'C14', (T, '''one_of(" \\t")''', '''one_of(" ")''')) if False else None
