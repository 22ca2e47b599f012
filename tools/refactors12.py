"""A sixth batch of bugs (b13-*) with behaviour-preserving edits (r13-*); see refactors.py."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in (
    'main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs',
    'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    v('b13-ren-first', 'C11', (M, '''            match (symbol.symbol_kind, &parse_from_str(&new_name).tokens[..]) {
                (HIRSymbolKind::GlobalVar, [(Token::GlobalName(_), _)])
                | (HIRSymbolKind::Function, [(Token::GlobalName(_), _)])
                | (HIRSymbolKind::DbgAnnotation, [(Token::DebugRef(_), _)])
                | (HIRSymbolKind::Label, [(Token::Ident(_), _)])
                | (HIRSymbolKind::LocalVar, [(Token::LocalName(_), _)]) => {}''', '''            match (symbol.symbol_kind, parse_from_str(&new_name).tokens.first()) {
                (HIRSymbolKind::GlobalVar, Some((Token::GlobalName(_), _)))
                | (HIRSymbolKind::Function, Some((Token::GlobalName(_), _)))
                | (HIRSymbolKind::DbgAnnotation, Some((Token::DebugRef(_), _)))
                | (HIRSymbolKind::Label, Some((Token::Ident(_), _)))
                | (HIRSymbolKind::LocalVar, Some((Token::LocalName(_), _))) => {}'''))
    v('b13-idx-rev', 'C15', (I, 'if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {', 'if reverse_idx.contains_key(&span.start) {'))
    v('r13-fn-class', None, (I, 'if index.functions.contains_key(&name.to_string()) {', 'let is_function = index.functions.get(name).is_some();\n                if is_function {'))
    v('b13-dbg-remove', 'C19', (I, 'if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {', 'if let Some(funcname) = &unresolved_function_dbgrefs.remove(&name.0) {'))
    v('b13-dbg-first', 'C19', (I, 'unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());', 'unresolved_function_dbgrefs\n                        .entry(dbgref.0.clone())\n                        .or_insert_with(|| signature.name.0.clone());'))
    v('b13-fold-dedup', 'C17', (M, '            Some(folding_ranges)\n', '            folding_ranges.dedup_by_key(|r| r.start_line);\n            Some(folding_ranges)\n'))
    v('b13-hint-dedup', 'C22', (M, '            Some(inlay_hints)\n', '            inlay_hints.dedup_by_key(|h| h.position.line);\n            Some(inlay_hints)\n'))
    v('r13-outline-sort', None, (M, '            Some(DocumentSymbolResponse::from(symbols))', '            symbols.sort_by_key(|s| s.range.start);\n            Some(DocumentSymbolResponse::from(symbols))'))
    v('r13-nav-sort', None, (M, '        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;\n', '        ranges.sort_by_key(|l| l.range.start);\n        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;\n'))
    v('b13-nav-line', 'C10', (M, '        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;\n', '        ranges.sort_by_key(|l| l.range.start);\n        ranges.dedup_by_key(|l| l.range.start.line);\n        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;\n'))
    v('r13-hint-sort', None, (M, '            Some(inlay_hints)\n', '            inlay_hints.sort_by_key(|h| h.position);\n            Some(inlay_hints)\n'))
    v('r13-diag-sort', None, (M, '        self.document_map.insert(\n', '        diagnostics.sort_by_key(|d| (d.range.start, d.range.end));\n        self.document_map.insert(\n'))
    v('b13-lens-point', 'C17', (M, 'range: range_to_lsp(&doc.rope, def_range)?,\n                            command', 'range: range_to_lsp(&doc.rope, &(def_range.start..def_range.start))?,\n                            command'))
    v('b13-crlf', 'C04', (L, ".take_while(|c| !matches!(c, '\\n' | '\\r'))", ".take_while(|c| *c != '\\n')"))
    v('b13-cfg-plain', 'C13', (G, '''    format!("\\"{}\\"", str''', '''    if str.chars().all(|c| c.is_ascii_alphabetic()) {
        return str.to_string();
    }
    format!("\\"{}\\"", str'''))
    v('b13-bt-dedup', 'C22', (B, '''    let bt = backtrace
        .iter()''', '''    let mut bt = backtrace
        .iter()'''), (B, '    Some(bt)\n', '    bt.dedup_by(|a, b| a.symbol == b.symbol && a.line == b.line);\n    Some(bt)\n'))
    v('b13-value-first', 'C22', (I, '''                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), value.to_string());''', '''                    index
                        .dgb_annotation_values
                        .entry(name.0.clone())
                        .or_insert_with(|| value.to_string());'''))
    v('b13-prep-unnamed', 'C11', (M, '            let range = range_to_lsp(&doc.rope, &symbol.span);\n', '            if symbol.span.len() < 2 {\n                return None;\n            }\n            let range = range_to_lsp(&doc.rope, &symbol.span);\n'))
    v('b13-recover', 'C14', (PA, '.recover_with(skip_then_retry_until([]))', '.recover_with(skip_then_retry_until([Token::Newline]))'))
    v('b13-limit', 'C14', (PA, '''        .repeated()
        .then_ignore(end())
}

pub struct''', '''        .repeated()
        .at_most(65535)
        .then_ignore(end())
}

pub struct'''))
    v('b13-tokerr', 'C14', (PA, 'if let Some(tokens) = tokens.as_ref() {', 'if let Some(tokens) = tokens.as_ref().filter(|_| tok_errs.is_empty()) {'))
    v('b13-errs-dedup', 'C12', (PA, '''    let errors = tok_errs
        .into_iter()''', '''    let mut errors = tok_errs
        .into_iter()'''), (PA, '''    ParserResult {
        tokens: tok''', '''    errors.dedup_by_key(|e| e.span().start);
    ParserResult {
        tokens: tok'''))
    v('b13-errs-either', 'C12', (PA, '.chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))', '.chain(\n            parse_errs\n                .into_iter()\n                .filter(|e| e.found().is_some())\n                .map(|e| e.map(|tok| tok.to_string())),\n        )'))
    v('b13-diag-empty', 'C12', (M, '        self.document_map.insert(\n', '        diagnostics.retain(|d| d.range.start != d.range.end);\n        self.document_map.insert(\n'))
    v('b13-dbg-undef', 'C12', (D, '.chain(index.dgb_annotations.iter())', '.chain(\n            index\n                .dgb_annotations\n                .iter()\n                .filter(|_| !index.dgb_annotation_values.is_empty()),\n        )'))
    v('b13-publish-fresh', 'C12', (M, '        self.document_map.insert(\n', '        let previous = self.document_map.insert(\n'), (M, '''        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
''', '''        if previous.is_none() && diagnostics.is_empty() {
            return;
        }
        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
'''))
    v('b13-decl-ext', 'C10', (M, 'if ud == UseDefKind::Def {', 'if ud != UseDefKind::Use {'))
    v('b13-ext-zero', 'C19', (M, 'ranges.extend(usedefs.external_defs.iter().filter_map(|d| {\n', 'ranges.extend(usedefs.external_defs.iter().filter_map(|d| {\n                if d.line == 0 {\n                    return None;\n                }\n'))
    v('b13-sem-ref', 'C09', (S, 'Token::DebugRef(_) => None,', 'Token::DebugRef(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),'))
    v('b13-incoming-global', 'C22', (I, '    pub dgb_annotation_values: HashMap<String, String>,\n', '    pub dgb_annotation_values: HashMap<String, String>,\n    pub incoming: HashMap<String, Vec<Spanned<String>>>,\n'),
      (I, '''                                if !incoming_list.contains(label) {
                                    incoming_list.push(label.clone());
                                }
''', '''                                if !incoming_list.contains(label) {
                                    incoming_list.push(label.clone());
                                    index
                                        .incoming
                                        .entry(bb_ref.0.clone())
                                        .or_default()
                                        .push(label.clone());
                                }
'''), (M, 'Some((bb, f.incoming_bb_branches.get(&bb.label.as_ref()?.0)?))', 'Some((bb, doc.index.incoming.get(&bb.label.as_ref()?.0)?))'))
    v('b13-act-line', 'C20', (M, 'if range.start != range.end {', 'if range.start.line != range.end.line {'))
    v('r13-eager-filter', None, (M, '.map(|a| self.do_code_action_resolve(a).ok().unwrap())', '.filter_map(|a| self.do_code_action_resolve(a).ok())'))
    v('r13-edit-new', None, (M, '''        let edit = WorkspaceEdit {
            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),
            ..Default::default()
        };
        Ok(Some(edit))''', '''        let mut changes = HashMap::new();
        changes.insert(pos.text_document.uri, edits);
        Ok(Some(WorkspaceEdit::new(changes)))'''))
    v('b13-thread-tok', 'C03', (M, '        let rope = ropey::Rope::from_str(&params.text);\n', '        let rope = ropey::Rope::from_str(&params.text);\n        let uri = params.uri.clone();\n        let client = self.client.clone();\n        tokio::spawn(async move { client.publish_diagnostics(uri, vec![], None).await });\n'))
    v('b13-selector', 'C08', ('vscode-extension/src/extension.ts', "documentSelector: [{ language: 'hir' }]", "documentSelector: [{ scheme: 'file', language: 'hyperir' }]"))
    # the store keeps shared documents: nothing is locked for longer than the lookup
    v('r13-store-arc', None, (M, 'document_map: DashMap<String, AnalyzedDocument>,', 'document_map: DashMap<String, std::sync::Arc<AnalyzedDocument>>,'),
      (M, '''            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
''', '''            std::sync::Arc::new(AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            }),
'''), (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;''', '''                let doc = self
                    .document_map
                    .get(doc_uri)
                    .map(|d| d.clone())
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("document `{}` not found", doc_uri).into(),
                        data: None,
                    })?;'''), (M, '''                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);
''', ''))
    v('r13-store-get', None, (M, '''impl Backend {
    async fn on_change''', '''impl Backend {
    fn document(&self, uri: &Url) -> Option<std::sync::Arc<AnalyzedDocument>> {
        self.document_map
            .get(&uri.to_string())
            .map(|d| std::sync::Arc::clone(d.value()))
    }

    async fn on_change'''), (M, 'document_map: DashMap<String, AnalyzedDocument>,', 'document_map: DashMap<String, std::sync::Arc<AnalyzedDocument>>,'),
      (M, '''            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
''', '''            std::sync::Arc::new(AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            }),
'''), (M, '''        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;

        // Lookup''', '''        let doc = self.document(&pos.text_document.uri)?;

        // Lookup'''), (M, '''                let doc = self
                    .document_map
                    .get(&uri.to_string())
                    .ok_or_else''', '''                let doc = self
                    .document(&uri)
                    .ok_or_else'''), (M, '''        let uri_str = params.text_document.uri.to_string();
        let doc = self
            .document_map
            .get(&uri_str)
            .ok_or_else''', '''        let doc = self
            .document(&params.text_document.uri)
            .ok_or_else'''))
    v('r13-roots-fn', None, (M, '''impl Backend {
    async fn on_change''', '''impl Backend {
    fn roots(&self) -> Vec<Url> {
        self.root_paths.lock().unwrap().clone()
    }

    async fn on_change'''), (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
''', '''                let uri = resolve_relative_path(&self.roots(), &d.filepath)?;
'''), (M, '''                        let root_paths: std::sync::MutexGuard<'_, Vec<Url>> =
                            self.root_paths.lock().unwrap();
                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;
''', '''                        let frames = parse_backtrace_from_json(&self.roots(), json_val)?;
'''))
    v('r13-doc-usedefs', None, (M, '''#[derive(Debug)]
struct Backend {''', '''impl AnalyzedDocument {
    fn new(text: &str) -> (AnalyzedDocument, Vec<chumsky::error::Simple<String>>) {
        let rope = ropey::Rope::from_str(text);
        let src = rope.to_string();
        let ParserResult {
            tokens,
            stmts,
            errors,
        } = parse_from_str(&src);
        let doc = AnalyzedDocument {
            rope,
            semantic_tokens: semantic_tokens_from_tokens(&tokens),
            index: create_index(&src, &tokens, &stmts),
            stmts,
        };
        (doc, errors)
    }

    fn symbol_at(&self, position: &Position) -> Option<&SymbolOccurrence> {
        self.index
            .find_symbol_at_position(lsp_pos_to_offset(&self.rope, position)?)
    }

    fn usedefs(&self, symbol: &SymbolOccurrence) -> Option<&UseDefList> {
        let body = match symbol.func_body_id {
            Some(id) => Some(&self.index.function_bodies[id]),
            None => None,
        };
        self.index
            .get_by_symbol_kind(symbol.symbol_kind, body)?
            .get(&symbol.name)
    }
}

#[derive(Debug)]
struct Backend {'''), (M, '''        let rope = ropey::Rope::from_str(&params.text);
        let src = rope.to_string();

        let ParserResult {
            tokens,
            stmts,
            errors,
        } = parse_from_str(&src);
        let semantic_tokens = semantic_tokens_from_tokens(&tokens);
        let index = create_index(&src, &tokens, &stmts);

        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));

        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
''', '''        let (doc, errors) = AnalyzedDocument::new(&params.text);
        let diagnostics: Vec<Diagnostic> = diagnostics_from_parser(&doc.rope, &errors)
            .chain(diagnostics_from_statements(&doc.rope, &doc.stmts))
            .chain(diagnostics_from_index(&doc.rope, &params.uri, &doc.index))
            .collect();
        self.document_map.insert(params.uri.to_string(), doc);
'''), (M, '''        let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
        let symbol = doc.index.find_symbol_at_position(offset)?;

        // Find all use/defs from the index
        let usedefs = doc
            .index
            .get_by_symbol_kind(
                symbol.symbol_kind,
                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;
''', '''        let symbol = doc.symbol_at(&pos.position)?;
        let usedefs = doc.usedefs(symbol)?;
'''), (M, '''            let usedefs = doc
                .index
                .get_by_symbol_kind(
                    symbol.symbol_kind,
                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else''', '''            let usedefs = doc
                .usedefs(symbol)
                .ok_or_else'''), (M, '''        let symbol = (|| -> Option<&SymbolOccurrence> {
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            doc.index.find_symbol_at_position(offset)
        })()
        .ok_or_else''', '''        let symbol = doc.symbol_at(&pos.position).ok_or_else'''))
    v('r13-cfg-fold', None, (G, '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
''', '''    for bb in &func_body.basic_blocks {
        let Some((label, _)) = &bb.label else { continue };
        let from_lbl = escape_dot_label(label);
        let targets = bb
            .instructions
            .iter()
            .filter(|i| i.is_branching())
            .flat_map(|i| &i.basic_block_refs);
        for (target, _) in targets {
            graph += &format!("  {from_lbl} -> {}\\n", escape_dot_label(target));
        }
    }
'''))
    v('b13-publish-read', 'C12', (M, '''            let codelenses = doc
''', '''            if doc.index.functions.is_empty() {
                return None;
            }
            let codelenses = doc
'''), (M, '        return Ok(codelenses);', '''        if codelenses.is_none() {
            self.client
                .publish_diagnostics(params.text_document.uri, vec![], None)
                .await;
        }
        return Ok(codelenses);'''))
    v('b13-close', 'C06', (M, '''    async fn goto_definition(
''', '''    async fn did_close(&self, params: DidCloseTextDocumentParams) {
        self.document_map.remove(&params.text_document.uri.to_string());
        self.client
            .publish_diagnostics(params.text_document.uri, vec![], None)
            .await;
    }

    async fn goto_definition(
'''))
    v('r13-dbg-entry', None, (I, 'unresolved_function_dbgrefs.insert(dbgref.0.clone(), signature.name.0.clone());', '*unresolved_function_dbgrefs\n                        .entry(dbgref.0.clone())\n                        .or_default() = signature.name.0.clone();'))
    v('r13-prefixes', None, (M, '''            let prefix = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "@",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "@",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "!",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''            let mut prefixes = std::collections::BTreeMap::new();
            prefixes.insert("GlobalVar", "@");
            prefixes.insert("Function", "@");
            prefixes.insert("DbgAnnotation", "!");
            prefixes.insert("LocalVar", "%");
            let kind = format!("{:?}", symbol.symbol_kind);
            let prefix = prefixes.get(kind.as_str()).copied().unwrap_or("");'''))
    v('r13-prefix-kinds', None, (I, '#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]', '#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]'), (M, '''            let prefix = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "@",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "@",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "!",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''            let prefixes = HashMap::from([
                (hyper_ir_lsp::hir_index::SymbolKind::GlobalVar, "@"),
                (hyper_ir_lsp::hir_index::SymbolKind::Function, "@"),
                (hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation, "!"),
                (hyper_ir_lsp::hir_index::SymbolKind::LocalVar, "%"),
            ]);
            let prefix = prefixes.get(&symbol.symbol_kind).copied().unwrap_or("");'''))
