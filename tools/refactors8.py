"""A third independent batch of edits which keep the behaviour (see refactors.py)."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in ('main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs', 'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # ---------------------------------------------------------------- initialize
    v('r8-init-roots', None, (M, '''        if let Some(workspace_folders) = params.workspace_folders {
            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if let Some(root_uri) = params.root_uri {
            self.root_paths.lock().unwrap().push(root_uri);
        }''', '''        let roots: Vec<Url> = match (params.workspace_folders, params.root_uri) {
            (Some(folders), _) => folders.into_iter().map(|f| f.uri).collect(),
            (None, Some(root)) => vec![root],
            (None, None) => vec![],
        };
        self.root_paths.lock().unwrap().extend(roots);'''))
    v('r8-init-roots-fn', None, (M, '''        if let Some(workspace_folders) = params.workspace_folders {
            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if let Some(root_uri) = params.root_uri {
            self.root_paths.lock().unwrap().push(root_uri);
        }''', '''        self.add_roots(params.workspace_folders, params.root_uri);'''), (M, '''    fn do_code_action_resolve(''', '''    fn add_roots(&self, folders: Option<Vec<WorkspaceFolder>>, root: Option<Url>) {
        let mut root_paths = self.root_paths.lock().unwrap();
        match folders {
            Some(folders) => {
                for folder in folders {
                    root_paths.push(folder.uri);
                }
            }
            None => root_paths.extend(root),
        }
    }

    fn do_code_action_resolve('''))
    v('r8-init-lazy', None, (M, '''        let code_actions_lazy_resolve = params
            .capabilities
            .text_document
            .and_then(|c| c.code_action)
            .map(|c| {
                let supports_resolve = c
                    .resolve_support
                    .map(|c| c.properties.contains(&"edit".to_string()))
                    .unwrap_or(false);
                let supports_data = c.data_support.unwrap_or(false);
                supports_resolve && supports_data
            })
            .unwrap_or(false);''', '''        let mut code_actions_lazy_resolve = false;
        if let Some(text_document) = params.capabilities.text_document {
            if let Some(code_action) = text_document.code_action {
                let supports_resolve = code_action
                    .resolve_support
                    .is_some_and(|support| support.properties.iter().any(|p| p == "edit"));
                code_actions_lazy_resolve = supports_resolve && code_action.data_support == Some(true);
            }
        }'''))
    v('r8-init-lazy-fn', None, (M, '''        let code_actions_lazy_resolve = params
            .capabilities
            .text_document
            .and_then(|c| c.code_action)
            .map(|c| {
                let supports_resolve = c
                    .resolve_support
                    .map(|c| c.properties.contains(&"edit".to_string()))
                    .unwrap_or(false);
                let supports_data = c.data_support.unwrap_or(false);
                supports_resolve && supports_data
            })
            .unwrap_or(false);''', '''        let code_actions_lazy_resolve =
            supports_lazy_resolve(&params.capabilities).unwrap_or_default();'''), (M, '''#[tokio::main]''', '''fn supports_lazy_resolve(capabilities: &ClientCapabilities) -> Option<bool> {
    let code_action = capabilities.text_document.as_ref()?.code_action.as_ref()?;
    let properties = &code_action.resolve_support.as_ref()?.properties;
    if !code_action.data_support? {
        return None;
    }
    Some(properties.iter().any(|property| property.as_str() == "edit"))
}

#[tokio::main]'''))
    # ---------------------------------------------------------------- document changes
    v('r8-change-swap', None, (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };
        self.on_change''', '''        let n = params.content_changes.len();
        if n == 0 {
            return;
        }
        let change = params.content_changes.swap_remove(n - 1);
        self.on_change'''))
    v('r8-change-nextback', None, (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };
        self.on_change(TextDocumentItem {
            uri: params.text_document.uri,
            text: change.text,
            version: params.text_document.version,
        })
        .await''', '''        let VersionedTextDocumentIdentifier { uri, version } = params.text_document;
        if let Some(TextDocumentContentChangeEvent { text, .. }) =
            params.content_changes.into_iter().next_back()
        {
            self.on_change(TextDocumentItem { uri, text, version }).await;
        }'''), (M, '''mut params: DidChange''', '''params: DidChange'''))
    v('r8-change-concat', None, (M, '''        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));
''', '''        let from_parser: Vec<Diagnostic> = diagnostics_from_parser(&rope, &errors).collect();
        let from_statements: Vec<Diagnostic> = diagnostics_from_statements(&rope, &stmts).collect();
        let from_index: Vec<Diagnostic> =
            diagnostics_from_index(&rope, &params.uri, &index).collect();
        let diagnostics = [from_parser, from_statements, from_index].concat();
'''))
    v('r8-change-src', None, (M, '''        let src = rope.to_string();
''', '''        let src = String::from(&rope);
'''))
    v('r8-change-text', None, (M, '''        let rope = ropey::Rope::from_str(&params.text);
        let src = rope.to_string();
''', '''        let TextDocumentItem { uri, text, version } = params;
        let rope = Rope::from_str(&text);
'''), (M, '''parse_from_str(&src);
        let semantic_tokens = semantic_tokens_from_tokens(&tokens);
        let index = create_index(&src, &tokens, &stmts);''', '''parse_from_str(&text);
        let index = create_index(&text, &tokens, &stmts);
        let semantic_tokens = semantic_tokens_from_tokens(&tokens);'''), (M, '''diagnostics_from_index(&rope, &params.uri, &index)''', '''diagnostics_from_index(&rope, &uri, &index)'''), (M, '''            params.uri.to_string(),
            AnalyzedDocument {''', '''            uri.to_string(),
            AnalyzedDocument {'''), (M, '''            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))''', '''            .publish_diagnostics(uri, diagnostics, Some(version))'''))
    # ---------------------------------------------------------------- navigation
    v('r8-nav-closure', None, (M, '''            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDefinitionResponse::Link(links))''', '''            let mut links = Vec::with_capacity(locations.len());
            while let Some(Location { uri, range }) = locations.pop() {
                links.push(LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: uri,
                    target_range: range,
                    target_selection_range: range,
                });
            }
            links.reverse();
            Some(GotoDefinitionResponse::Link(links))'''))
    v('r8-nav-from', None, (M, '''            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDefinitionResponse::Link(links))''', '''            self.goto(&params, UseDefKind::Def)'''), (M, '''            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Decl)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDeclarationResponse::Link(links))''', '''            self.goto(&params, UseDefKind::Decl)'''), (M, '''    fn do_code_action_resolve(''', '''    fn goto(&self, params: &GotoDefinitionParams, what: UseDefKind) -> Option<GotoDefinitionResponse> {
        let (origin, locations) =
            self.get_use_def_ranges(&params.text_document_position_params, what)?;
        let links: Vec<LocationLink> = locations
            .into_iter()
            .map(|Location { uri, range }| LocationLink {
                origin_selection_range: Some(origin),
                target_uri: uri,
                target_range: range,
                target_selection_range: range,
            })
            .collect();
        Some(links.into())
    }

    fn do_code_action_resolve('''))
    v('r8-nav-refs', None, (M, '''        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        Ok(reference_list)''', '''        match self.get_use_def_ranges(&params.text_document_position, UseDefKind::Use) {
            Some((_, locations)) => Ok(Some(locations)),
            None => Ok(None),
        }'''))
    v('r8-nav-line', None, (M, '''                Some(Location {
                    uri,
                    range: Range {
                        start: Position::new(d.line.saturating_sub(1), 0),
                        end: Position::new(d.line.saturating_sub(1), 0),
                    },
                })''', '''                let line = if d.line > 0 { d.line - 1 } else { 0 };
                let position = Position { line, character: 0 };
                Some(Location::new(uri, Range::new(position, position)))'''))
    v('r8-nav-line-max', None, (M, '''                Some(Location {
                    uri,
                    range: Range {
                        start: Position::new(d.line.saturating_sub(1), 0),
                        end: Position::new(d.line.saturating_sub(1), 0),
                    },
                })''', '''                let position = Position::new(d.line.max(1) - 1, 0);
                Some(Location {
                    uri,
                    range: Range {
                        start: position,
                        end: position,
                    },
                })'''))
    v('r8-nav-line-checked', None, (M, '''                Some(Location {
                    uri,
                    range: Range {
                        start: Position::new(d.line.saturating_sub(1), 0),
                        end: Position::new(d.line.saturating_sub(1), 0),
                    },
                })''', '''                let position = Position::new(d.line.checked_sub(1).unwrap_or(0), 0);
                Some(Location {
                    uri,
                    range: Range {
                        start: position,
                        end: position,
                    },
                })'''))
    v('r8-nav-body', None, (M, '''        let usedefs = doc
            .index
            .get_by_symbol_kind(
                symbol.symbol_kind,
                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;''', '''        let body = match symbol.func_body_id {
            Some(id) => doc.index.function_bodies.get(id),
            None => None,
        };
        let table = doc.index.get_by_symbol_kind(symbol.symbol_kind, body)?;
        let usedefs = table.get(symbol.name.as_str())?;'''))
    v('r8-nav-roots', None, (M, '''        if ud == UseDefKind::Def {
            ranges.extend(usedefs.external_defs.iter().filter_map(|d| {
                let root_paths = self.root_paths.lock().unwrap();
                let uri''', '''        if let UseDefKind::Def = ud {
            let root_paths = self.root_paths.lock().unwrap();
            ranges.extend(usedefs.external_defs.iter().filter_map(|d| {
                let uri'''))
    v('r8-nav-occurrence', None, (I, '''    pub fn find_symbol_at_position(''', '''    /// The definitions and uses of the symbol of an occurrence
    pub fn use_defs_of(&self, occurrence: &SymbolOccurrence) -> Option<&UseDefList> {
        let SymbolOccurrence {
            symbol_kind,
            func_body_id,
            name,
            ..
        } = occurrence;
        let body = func_body_id.map(|id| &self.function_bodies[id]);
        self.get_by_symbol_kind(*symbol_kind, body)
            .and_then(|table| table.get(name))
    }

    pub fn find_symbol_at_position('''), (M, '''        let usedefs = doc
            .index
            .get_by_symbol_kind(
                symbol.symbol_kind,
                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;''', '''        let usedefs = doc.index.use_defs_of(symbol)?;'''), (M, '''            let usedefs = doc
                .index
                .get_by_symbol_kind(
                    symbol.symbol_kind,
                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else''', '''            let usedefs = doc
                .index
                .use_defs_of(symbol)
                .ok_or_else'''))
    # ---------------------------------------------------------------- tokens, outline
    v('r8-sem-handler', None, (M, '''        let uri = params.text_document.uri.to_string();
        let lsp_tokens = || -> Option<Vec<SemanticToken>> {
            let doc = self.document_map.get(&uri)?;
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
        if let Some(semantic_token) = lsp_tokens {
            return Ok(Some(SemanticTokensResult::Tokens(SemanticTokens {
                result_id: None,
                data: semantic_token,
            })));
        }
        Ok(None)''', '''        let uri = params.text_document.uri.to_string();
        let Some(doc) = self.document_map.get(&uri) else {
            return Ok(None);
        };
        let data = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
        let tokens = SemanticTokens {
            data,
            ..SemanticTokens::default()
        };
        Ok(Some(tokens.into()))'''))
    v('r8-outline-for', None, (M, '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
                #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
                Some(DocumentSymbol {
                    name: f.name.0.clone(),
                    detail: None,
                    kind: SymbolKind::FUNCTION,
                    tags: None,
                    range: range_to_lsp(&doc.rope, &f.complete_range)?,
                    selection_range: range_to_lsp(&doc.rope, &f.name.1)?,
                    deprecated: None,
                    children: None,
                    // We could add the labels as children of the functions.
                    // I decided against it, because it looks a bit too crowded.
                    // children: Some(get_def_symbols(&f.labels, &rope, SymbolKind::KEY).collect::<Vec<_>>()),
                })
            }));
''', '''            for f in &doc.index.function_bodies {
                let (name, name_span) = &f.name;
                let (Some(range), Some(selection_range)) = (
                    range_to_lsp(&doc.rope, &f.complete_range),
                    range_to_lsp(&doc.rope, name_span),
                ) else {
                    continue;
                };
                #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
                let symbol = DocumentSymbol {
                    name: name.to_owned(),
                    detail: None,
                    kind: SymbolKind::FUNCTION,
                    tags: None,
                    range,
                    selection_range,
                    deprecated: None,
                    children: None,
                };
                symbols.push(symbol);
            }
'''))
    v('r8-outline-inner', None, (M, '''                ud.iter().flat_map(move |f| {
                    f.1.defs.iter().filter_map(move |def| {''', '''                ud.iter().flat_map(|(name, list)| list.defs.iter().map(move |def| (name, def))).filter_map(move |(name, def)| {'''), (M, '''                            name: f.0.to_string(),
                            detail: None,''', '''                            name: name.clone(),
                            detail: None,'''), (M, '''                            deprecated: None,
                            children: None,
                        })
                    })
                })
            }''', '''                            deprecated: None,
                            children: None,
                        })
                })
            }'''))
    v('r8-prep-chain', None, (M, '''        Ok(|| -> Option<PrepareRenameResponse> {
            let uri_str = pos.text_document.uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(PrepareRenameResponse::Range(range?))
        }())''', '''        let Some(doc) = self.document_map.get(pos.text_document.uri.as_str()) else {
            return Ok(None);
        };
        let range = lsp_pos_to_offset(&doc.rope, &pos.position)
            .and_then(|offset| doc.index.find_symbol_at_position(offset))
            .and_then(|symbol| range_to_lsp(&doc.rope, &symbol.span));
        Ok(range.map(PrepareRenameResponse::Range))'''))
    # ---------------------------------------------------------------- rename
    v('r8-rename-sign', None, (M, '''        let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
            let sign = if new_name.starts_with('-') { -1 } else { 1 };
            let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
            })?;
            let rename_shift = rename_nr.wrapping_mul(sign);''', '''        let sign = match new_name.chars().next() {
            Some('+') => Some(1i64),
            Some('-') => Some(-1i64),
            _ => None,
        };
        let edits = if let Some(sign) = sign {
            let rename_nr: i64 = new_name[1..].parse().map_err(|_| {
                Error::invalid_params(format!("Invalid relative rename `{new_name}`"))
            })?;
            let rename_shift = sign.wrapping_mul(rename_nr);'''))
    v('r8-rename-strip', None, (M, '''        let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
            let sign = if new_name.starts_with('-') { -1 } else { 1 };
            let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
            })?;
            let rename_shift = rename_nr.wrapping_mul(sign);''', '''        let edits = if let Some(amount) = new_name.strip_prefix(['+', '-']) {
            let rename_nr = match amount.parse::<i64>() {
                Ok(nr) => nr,
                Err(_) => {
                    return Err(Error::invalid_params(format!(
                        "Invalid relative rename `{}`",
                        new_name
                    )))
                }
            };
            let rename_shift = if new_name.starts_with('-') {
                rename_nr.wrapping_neg()
            } else {
                rename_nr
            };'''))
    v('r8-rename-contains', None, (M, '''            if new_name
                .chars()
                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
            {''', '''            let is_valid = |c: char| matches!(c, '_' | ':') || c.is_alphanumeric();
            if new_name.contains(|c: char| !is_valid(c)) {'''))
    v('r8-rename-find', None, (M, '''            if new_name
                .chars()
                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
            {''', '''            let invalid = new_name
                .chars()
                .find(|&c| !(c.is_alphanumeric() || c == '_' || c == ':'));
            if invalid.is_some() {'''))
    v('r8-rename-first', None, (M, '''            if new_name.is_empty() {
                return Result::Err(Error::invalid_params("Name must not be empty"));
            }
            if new_name.starts_with(char::is_numeric)
                && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
            {
                return Result::Err(Error::invalid_params("Name must not start with a digit"));
            }''', '''            let is_dbg_annotation =
                symbol.symbol_kind == hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation;
            match new_name.chars().next() {
                None => {
                    return Result::Err(Error::invalid_params("Name must not be empty"));
                }
                Some(first) if first.is_numeric() && !is_dbg_annotation => {
                    return Result::Err(Error::invalid_params("Name must not start with a digit"));
                }
                Some(_) => {}
            }'''))
    v('r8-rename-token', None, (M, '''            match (symbol.symbol_kind, &parse_from_str(&new_name).tokens[..]) {
                (HIRSymbolKind::GlobalVar, [(Token::GlobalName(_), _)])
                | (HIRSymbolKind::Function, [(Token::GlobalName(_), _)])
                | (HIRSymbolKind::DbgAnnotation, [(Token::DebugRef(_), _)])
                | (HIRSymbolKind::Label, [(Token::Ident(_), _)])
                | (HIRSymbolKind::LocalVar, [(Token::LocalName(_), _)]) => {}
                _ => return Result::Err(Error::invalid_params("Name is not a valid identifier")),
            }
''', '''            let tokens = parse_from_str(&new_name).tokens;
            let same_kind = match tokens.as_slice() {
                [(token, _)] => match symbol.symbol_kind {
                    HIRSymbolKind::GlobalVar | HIRSymbolKind::Function => {
                        matches!(token, Token::GlobalName(_))
                    }
                    HIRSymbolKind::DbgAnnotation => matches!(token, Token::DebugRef(_)),
                    HIRSymbolKind::Label => matches!(token, Token::Ident(_)),
                    HIRSymbolKind::LocalVar => matches!(token, Token::LocalName(_)),
                },
                _ => false,
            };
            if !same_kind {
                return Result::Err(Error::invalid_params("Name is not a valid identifier"));
            }
'''))
    v('r8-rename-tuple', None, (M, '''            let prefix = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "@",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "@",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "!",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };
            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }''', '''            let prefix = {
                use hyper_ir_lsp::hir_index::SymbolKind::*;
                match symbol.symbol_kind {
                    GlobalVar | Function => "@",
                    DbgAnnotation => "!",
                    LocalVar => "%",
                    Label => "",
                }
            };
            new_name = match new_name.strip_prefix(prefix) {
                Some(stripped) => stripped.to_string(),
                None => new_name,
            };'''))
    v('r8-rename-helper', None, (M, '''        let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
            let sign = if new_name.starts_with('-') { -1 } else { 1 };
            let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
            })?;
            let rename_shift = rename_nr.wrapping_mul(sign);
            let (_, rename_start) =
                extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                    Error::invalid_params(
                        "Relative rename can only be applied to a numbered identifier",
                    )
                })?;
            get_shift_edits(
                &doc.rope,
                &doc.index,
                symbol.symbol_kind,
                symbol.func_body_id,
                rename_start,
                rename_shift,
            )
        } else {''', '''        let edits = if is_relative_rename(&new_name) {
            relative_rename_edits(&doc, symbol, &new_name)?
        } else {'''), (M, '''#[tokio::main]''', '''fn is_relative_rename(new_name: &str) -> bool {
    matches!(new_name.as_bytes().first(), Some(b'+' | b'-'))
}

fn relative_rename_edits(
    doc: &AnalyzedDocument,
    symbol: &SymbolOccurrence,
    new_name: &str,
) -> Result<Vec<TextEdit>> {
    let (sign, digits) = new_name.split_at(1);
    let Ok(nr) = digits.parse::<i64>() else {
        return Err(Error::invalid_params(format!(
            "Invalid relative rename `{}`",
            new_name
        )));
    };
    let shift = if sign == "-" { nr.wrapping_neg() } else { nr };
    let Some((_, start)) = extract_number_from_identifier(&symbol.name) else {
        return Err(Error::invalid_params(
            "Relative rename can only be applied to a numbered identifier",
        ));
    };
    Ok(get_shift_edits(
        &doc.rope,
        &doc.index,
        symbol.symbol_kind,
        symbol.func_body_id,
        start,
        shift,
    ))
}

#[tokio::main]'''))
    v('r8-rename-edit', None, (M, '''        let edit = WorkspaceEdit {
            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),
            ..Default::default()
        };
        Ok(Some(edit))''', '''        let mut changes = HashMap::with_capacity(1);
        changes.insert(pos.text_document.uri, edits);
        Ok(Some(WorkspaceEdit::new(changes)))'''))
    v('r8-shift-for', None, (RN, '''    index
        .get_by_symbol_kind(
            symbol_kind,
            func_body_id.and_then(|id| index.function_bodies.get(id)),
        )
        .into_iter()
        .flatten()
        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()''', '''    let mut edits = vec![];
    let func_body = func_body_id.and_then(|id| index.function_bodies.get(id));
    let Some(symbols) = index.get_by_symbol_kind(symbol_kind, func_body) else {
        return edits;
    };
    for (name, usedefs) in symbols {
        match extract_number_from_identifier(name) {
            Some((prefix, nr)) if nr >= renamed_nr => {
                let shifted = nr.wrapping_add(shift);
                let new_name = format!("{prefix}{}", shifted.unsigned_abs());
                edits.append(&mut get_rename_edits(rope, usedefs, &new_name));
            }
            _ => {}
        }
    }
    edits'''))
    v('r8-shift-filter', None, (RN, '''        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()''', '''        .filter_map(|(name, usedefs)| Some((extract_number_from_identifier(name)?, usedefs)))
        .filter(|((_, nr), _)| *nr >= renamed_nr)
        .map(|((prefix, nr), usedefs)| {
            let mut new_name = prefix.to_string();
            new_name.push_str(&nr.wrapping_add(shift).unsigned_abs().to_string());
            (new_name, usedefs)
        })
        .flat_map(|(new_name, usedefs)| get_rename_edits(rope, usedefs, &new_name))
        .collect()'''))
    v('r8-edits-for', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()''', '''    let UseDefList {
        decls, defs, uses, ..
    } = usedefs;
    let mut edits = Vec::with_capacity(decls.len() + defs.len() + uses.len());
    for spans in [decls, defs, uses] {
        for span in spans {
            if let Some(range) = range_to_lsp(rope, span) {
                edits.push(TextEdit::new(range, new_name.to_owned()));
            }
        }
    }
    edits'''))
    v('r8-extract-rev', None, (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let name = id.trim_end_matches(char::is_numeric);
    let nr: i64 = id[name.len()..].parse().ok()?;
    Some((name, nr))'''))
    # ---------------------------------------------------------------- code actions
    v('r8-action-method', None, (M, '''        let mut actions = vec![];
        // The "Increment identifier" action, if available
        (|| -> Option<()> {
            let offset''', '''        // The "Increment identifier" action, if available
        let shift_action = (|| -> Option<CodeAction> {
            let offset'''), (M, '''            actions.push(CodeAction {
                title,
                data: Some(
                    serde_json::to_value(CodeActionData::ShiftNumbering {
                        uri: params.text_document.uri.clone(),
                        symbol_kind: symbol.symbol_kind,
                        func_body_id: symbol.func_body_id,
                        renamed_nr,
                    })
                    .ok()?,
                ),
                ..Default::default()
            });
            None
        })();

        // Eagerly resolve all edits, if the client doesn't support lazy resolving
        if !self.code_actions_lazy_resolve.lock().unwrap().get() {
            actions = actions
                .drain(..)
                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
                .collect();
        }

        Ok(Some(
            actions
                .drain(..)
                .map(CodeActionOrCommand::CodeAction)
                .collect(),
        ))''', '''            let data = serde_json::to_value(CodeActionData::ShiftNumbering {
                uri: params.text_document.uri.clone(),
                symbol_kind: symbol.symbol_kind,
                func_body_id: symbol.func_body_id,
                renamed_nr,
            })
            .ok()?;
            Some(CodeAction {
                title,
                data: Some(data),
                ..CodeAction::default()
            })
        })();

        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
        let actions = shift_action.into_iter().map(|action| {
            // Eagerly resolve all edits, if the client doesn't support lazy resolving
            if lazy {
                action
            } else {
                self.do_code_action_resolve(action).ok().unwrap()
            }
        });
        Ok(Some(actions.map(CodeActionOrCommand::from).collect()))'''))
    v('r8-resolve-data', None, (M, '''        let raw_data = action
            .data
            .as_ref()
            .ok_or_else(|| Error::invalid_params("Missing `data` in code action"))?;
        let data = serde_json::from_value::<CodeActionData>(raw_data.clone()).map_err(|err| {
            Error::invalid_params(format!("Invalid `data` for code action: {}", err))
        })?;
        let mut updated_action = action.clone();
        match data {
            CodeActionData::ShiftNumbering {
                uri,
                symbol_kind,
                func_body_id,
                renamed_nr,
            } => {
                let doc''', '''        let Some(raw_data) = action.data.clone() else {
            return Err(Error::invalid_params("Missing `data` in code action"));
        };
        let data: CodeActionData = match serde_json::from_value(raw_data) {
            Ok(data) => data,
            Err(err) => {
                let message = format!("Invalid `data` for code action: {err}");
                return Err(Error::invalid_params(message));
            }
        };
        let edit = match data {
            CodeActionData::ShiftNumbering {
                uri,
                symbol_kind,
                func_body_id,
                renamed_nr,
            } => {
                let doc'''), (M, '''                updated_action.edit = Some(WorkspaceEdit {
                    changes: Some(HashMap::from([(uri, edits)])),
                    ..Default::default()
                });
            }
        };
        Ok(updated_action)''', '''                WorkspaceEdit::new([(uri, edits)].into_iter().collect())
            }
        };
        Ok(CodeAction {
            edit: Some(edit),
            ..action
        })'''))
    # ---------------------------------------------------------------- folding, lenses
    v('r8-fold-for', None, (M, '''            folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
                let collapsed_text = format!("{} basic blocks", f.labels.len());
                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            }));

            folding_ranges.extend(
                doc.index
                    .function_bodies
                    .iter()
                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        Some(FoldingRange {
                            start_line: range.start.line,
                            start_character: None,
                            end_line: range.end.line,
                            end_character: None,
                            kind: None,
                            collapsed_text: Some(collapsed_text),
                        })
                    }),
            );
''', '''            let mut block_ranges = vec![];
            for f in &doc.index.function_bodies {
                if let Some(Range { start, end }) = range_to_lsp(&doc.rope, &f.complete_range) {
                    folding_ranges.push(FoldingRange {
                        start_line: start.line,
                        end_line: end.line,
                        collapsed_text: Some(format!("{} basic blocks", f.labels.len())),
                        ..FoldingRange::default()
                    });
                }
                for bb in f.basic_blocks.iter() {
                    if let Some(Range { start, end }) = range_to_lsp(&doc.rope, &bb.span) {
                        block_ranges.push(FoldingRange {
                            start_line: start.line,
                            end_line: end.line,
                            collapsed_text: Some(format!("{} instructions", bb.instructions.len())),
                            ..FoldingRange::default()
                        });
                    }
                }
            }
            folding_ranges.append(&mut block_ranges);
'''))
    v('r8-lens-slice', None, (M, '''                .filter_map(|f| {
                    // Only show the code lens for functions with exactly one definition
                    if let [def_range] = &f.1.defs[..] {
                        Some(CodeLens {
                            range: range_to_lsp(&doc.rope, def_range)?,
                            command: Some(Command {
                                // Potential icons: ⇆⭾⧬⌸✍✒✎🧐
                                title: "✨ Visualize Controlflow".to_string(),
                                command: "visualize-cfg".to_string(),
                                arguments: Some(vec![
                                    Value::String(uri_str.clone()),
                                    Value::String(f.0.clone()),
                                ]),
                            }),
                            data: None,
                        })
                    } else {
                        None
                    }
                })''', '''                .filter_map(|(name, use_defs)| match use_defs.defs.as_slice() {
                    // Only show the code lens for functions with exactly one definition
                    [def] => Some((name, range_to_lsp(&doc.rope, def)?)),
                    _ => None,
                })
                .map(|(name, range)| {
                    let arguments = [uri_str.as_str(), name.as_str()].map(Value::from).to_vec();
                    // Potential icons: ⇆⭾⧬⌸✍✒✎🧐
                    let title = "✨ Visualize Controlflow".to_string();
                    CodeLens {
                        range,
                        command: Some(Command::new(
                            title,
                            "visualize-cfg".to_string(),
                            Some(arguments),
                        )),
                        data: None,
                    }
                })'''))
    v('r8-lens-pos', None, (M, '''                    if let [def_range] = &f.1.defs[..] {
                        Some(CodeLens {''', '''                    let (def_range, others) = f.1.defs.split_first()?;
                    if others.is_empty() {
                        Some(CodeLens {'''))
    # ---------------------------------------------------------------- hints
    v('r8-hint-end', None, (M, '''            inlay_hints.extend(doc.index.function_bodies.iter().filter_map(|f| {
                Some(InlayHint {
                    position: offset_to_lsp_pos(&doc.rope, f.complete_range.end)?,
                    label: InlayHintLabel::LabelParts(vec![InlayHintLabelPart {
                        value: f.name.0.clone(),
                        location: Some(Location {
                            uri: uri.clone(),
                            range: range_to_lsp(&doc.rope, &f.name.1)?,
                        }),
                        ..Default::default()
                    }]),
                    kind: None,
                    text_edits: None,
                    tooltip: None,
                    padding_left: Some(true),
                    padding_right: Some(true),
                    data: None,
                })
            }));
''', '''            for body in doc.index.function_bodies.iter() {
                let (name, name_span) = body.name.clone();
                let Some(position) = offset_to_lsp_pos(&doc.rope, body.complete_range.end) else {
                    continue;
                };
                let Some(range) = range_to_lsp(&doc.rope, &name_span) else {
                    continue;
                };
                let label = InlayHintLabelPart {
                    value: name,
                    location: Some(Location::new(uri.clone(), range)),
                    ..Default::default()
                };
                inlay_hints.push(InlayHint {
                    position,
                    label: vec![label].into(),
                    kind: None,
                    text_edits: None,
                    tooltip: None,
                    padding_left: Some(true),
                    padding_right: Some(true),
                    data: None,
                });
            }
'''))
    v('r8-hint-blocks', None, (M, '''                    .flat_map(|f| {
                        f.basic_blocks.iter().filter_map(|bb| {
                            Some((bb, f.incoming_bb_branches.get(&bb.label.as_ref()?.0)?))
                        })
                    })''', '''                    .flat_map(|f| f.basic_blocks.iter().map(move |bb| (f, bb)))
                    .filter_map(|(f, bb)| {
                        let (label, _) = bb.label.as_ref()?;
                        let incoming = f.incoming_bb_branches.get(label)?;
                        Some((bb, incoming))
                    })'''))
    v('r8-hint-sep', None, (M, '''                        let label_parts = incoming_refs
                            .iter()
                            .enumerate()
                            .filter_map(|(idx, incoming)| {
                                Some(vec![
                                    InlayHintLabelPart {
                                        value: (if idx == 0 { "incoming: " } else { ", " })
                                            .to_string(),
                                        ..Default::default()
                                    },
                                    InlayHintLabelPart {
                                        value: incoming.0.clone(),
                                        location: Some(Location {
                                            uri: uri.clone(),
                                            range: range_to_lsp(&doc.rope, &incoming.1)?,
                                        }),
                                        ..Default::default()
                                    },
                                ])
                            })
                            .flatten()
                            .collect::<Vec<_>>();
''', '''                        let text_part = |value: &str| InlayHintLabelPart {
                            value: value.to_string(),
                            ..Default::default()
                        };
                        let label_parts: Vec<InlayHintLabelPart> = incoming_refs
                            .iter()
                            .enumerate()
                            .filter_map(|(idx, (name, span))| {
                                let separator = if idx > 0 { ", " } else { "incoming: " };
                                let range = range_to_lsp(&doc.rope, span)?;
                                let link = InlayHintLabelPart {
                                    location: Some(Location::new(uri.clone(), range)),
                                    ..text_part(name)
                                };
                                Some([text_part(separator), link])
                            })
                            .flatten()
                            .collect();
'''))
    v('r8-hint-stmts', None, (M, '''                doc.stmts
                    .iter()
                    .filter_map(|s| match s {
                        Statement::FuncDef { body, .. } => {
                            Some::<&Vec<BasicBlock>>(body.basic_blocks.as_ref())
                        }
                        _ => None,
                    })
                    .flatten()
                    .flat_map(|bb| -> &Vec<Instruction> { bb.instructions.as_ref() })
                    .filter_map(|stmt| {
                        let dbg_ref = stmt.dbg_ref.as_ref()?;''', '''                doc.stmts
                    .iter()
                    .flat_map(|s| -> &[BasicBlock] {
                        if let Statement::FuncDef { body, .. } = s {
                            &body.basic_blocks
                        } else {
                            &[]
                        }
                    })
                    .flat_map(|bb| bb.instructions.iter())
                    .filter_map(|i: &Instruction| i.dbg_ref.as_ref())
                    .filter_map(|dbg_ref| {'''))
    # ---------------------------------------------------------------- commands
    v('r8-exec-guard', None, (M, '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc''', '''        let invalid_params = |message: String| Error {
            code: ErrorCode::InvalidParams,
            message: message.into(),
            data: None,
        };
        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc'''), (M, '''self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;''', '''self
                    .document_map
                    .get(doc_uri)
                    .ok_or_else(|| invalid_params(format!("document `{}` not found", doc_uri)))?;'''), (M, '''            _ => Err(Error {
                code: ErrorCode::InvalidParams,
                message: format!("Invalid command `{}`", params.command).into(),
                data: None,
            }),''', '''            (command, _) => Err(invalid_params(format!("Invalid command `{}`", command))),'''))
    v('r8-exec-block', None, (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
                    .index
                    .function_bodies
                    .iter()
                    .find(|b| b.name.0 == *func_name)
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("function `{}` not found", func_name).into(),
                        data: None,
                    })?;

                let title = format!("CFG for {}", func_name);
                let dot_graph = create_cfg_dot_visualization(func_body);
                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);
''', '''                let title = format!("CFG for {}", func_name);
                // The document is only locked inside of this block. Otherwise, a `didChange`
                // received while we are waiting for the client would deadlock.
                let dot_graph = {
                    let Some(doc) = self.document_map.get(doc_uri) else {
                        return Err(Error {
                            code: ErrorCode::InvalidParams,
                            message: format!("document `{}` not found", doc_uri).into(),
                            data: None,
                        });
                    };
                    let bodies = &doc.index.function_bodies;
                    match bodies.iter().position(|body| &body.name.0 == func_name) {
                        Some(idx) => create_cfg_dot_visualization(&bodies[idx]),
                        None => {
                            return Err(Error {
                                code: ErrorCode::InvalidParams,
                                message: format!("function `{}` not found", func_name).into(),
                                data: None,
                            })
                        }
                    }
                };
'''))
    # ---------------------------------------------------------------- index
    v('r8-index-known', None, (I, '''        if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {
            return;
        }
        e.get_use_def_kind_mut(ud).push(span.clone());
        reverse_idx.insert(
            span.start,
            SymbolOccurrence {
                span: span.clone(),
                use_def: ud,
                symbol_kind: k,
                name: name.to_string(),
                func_body_id,
            },
        );''', '''        let known = [&e.decls, &e.defs, &e.uses]
            .iter()
            .any(|spans| spans.iter().any(|s| s == span));
        if !known {
            let occurrence = SymbolOccurrence {
                span: span.clone(),
                use_def: ud,
                symbol_kind: k,
                name: name.to_owned(),
                func_body_id,
            };
            reverse_idx.insert(occurrence.span.start, occurrence);
            e.get_use_def_kind_mut(ud).push(span.clone());
        }'''))
    v('r8-index-chain', None, (I, '''        if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {
            return;
        }''', '''        let mut spans = e.decls.iter().chain(&e.defs).chain(&e.uses);
        if spans.any(|s| *s == *span) {
            return;
        }'''))
    v('r8-index-optiter', None, (I, '''                    if bb.label.is_some() {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            bb.label.as_ref().unwrap(),
                        )
                    }''', '''                    for label in bb.label.iter() {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            label,
                        )
                    }'''), (I, '''                        if i.assignment_target.is_some() {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                i.assignment_target.as_ref().unwrap(),
                            )
                        }''', '''                        if let Some((name, span)) = &i.assignment_target {
                            index.add_func_local(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                span,
                                name,
                            )
                        }'''))
    v('r8-index-branch', None, (I, '''                            if i.is_branching() && bb.label.is_some() {
                                let label = bb.label.as_ref().unwrap();
                                let func_body = &mut index.function_bodies[func_body_id];
                                let incoming_list = func_body
                                    .incoming_bb_branches
                                    .entry(bb_ref.0.clone())
                                    .or_default();
                                if !incoming_list.contains(label) {
                                    incoming_list.push(label.clone());
                                }
                            }''', '''                            let Some(label) = bb.label.as_ref().filter(|_| i.is_branching()) else {
                                continue;
                            };
                            let branches = &mut index.function_bodies[func_body_id].incoming_bb_branches;
                            let sources = branches.entry(bb_ref.0.to_string()).or_insert_with(Vec::new);
                            if sources.iter().all(|source| source != label) {
                                sources.push(label.clone());
                            }'''))
    v('r8-index-id', None, (I, '''                index.function_bodies.push(FunctionBody {
                    name: signature.name.clone(),
                    complete_range: Span {
                        start: define_kw.start,
                        end: body.closing_bracket.end,
                    },
                    basic_blocks: body.basic_blocks.clone(),
                    ..Default::default()
                });
                let func_body_id = index.function_bodies.len() - 1;''', '''                let func_body_id = index.function_bodies.len();
                let mut function_body = FunctionBody::default();
                function_body.name = signature.name.clone();
                function_body.complete_range = define_kw.start..body.closing_bracket.end;
                function_body.basic_blocks = body.basic_blocks.to_vec();
                index.function_bodies.push(function_body);'''))
    v('r8-index-value', None, (I, '''                if !def.is_empty() {
                    let start = def.first().unwrap().1.start;
                    let end = def.last().unwrap().1.end;
                    let value = &src[start..end];
                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), value.to_string());
                }''', '''                if let Some(((_, first), (_, last))) = def.first().zip(def.last()) {
                    let value = src[first.start..last.end].to_owned();
                    index.dgb_annotation_values.insert(name.0.to_owned(), value);
                }'''))
    v('r8-index-splitonce', None, (I, '''                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
                    if let [(Token::Str(dbgstr), _)] = &def[..] {
                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {
                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs
                                    .push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                            }
                        }
                    }
                }''', '''                if let (Some(funcname), [(Token::Str(dbgstr), _)]) =
                    (unresolved_function_dbgrefs.get(&name.0), &def[..])
                {
                    let location = dbgstr
                        .split_once(':')
                        .and_then(|(path, line)| Some((path, line.parse::<u32>().ok()?)));
                    if let Some((path, line)) = location {
                        let function = index.functions.get_mut(funcname).unwrap();
                        function.external_defs.push(ExternalDef {
                            filepath: path.to_string(),
                            line,
                        });
                    }
                }'''))
    v('r8-index-tokens', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
                if let Some''', '''                let start = t.1.start;
                let encloses = |body: &FunctionBody| body.complete_range.contains(&start);
                func_body_id = func_body_id
                    .filter(|&id| encloses(&index.function_bodies[id]))
                    .or_else(|| index.function_bodies.iter().position(encloses));
                if let Some'''))
    v('r8-index-tokens-match', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
                if let Some''', '''                let offset = t.1.start;
                func_body_id = match func_body_id {
                    Some(id) if index.function_bodies[id].complete_range.contains(&offset) => Some(id),
                    _ => index
                        .function_bodies
                        .iter()
                        .position(|body| body.complete_range.contains(&offset)),
                };
                if let Some'''))
    v('r8-index-kind', None, (I, '''        match k {
            SymbolKind::GlobalVar => Some(&self.global_vars),
            SymbolKind::Function => Some(&self.functions),
            SymbolKind::DbgAnnotation => Some(&self.dgb_annotations),
            SymbolKind::Label => fb.map(|fb| &fb.labels),
            SymbolKind::LocalVar => fb.map(|fb| &fb.local_vars),
        }''', '''        let table = match k {
            SymbolKind::LocalVar => &fb?.local_vars,
            SymbolKind::Label => &fb?.labels,
            SymbolKind::DbgAnnotation => &self.dgb_annotations,
            SymbolKind::Function => &self.functions,
            SymbolKind::GlobalVar => &self.global_vars,
        };
        Some(table)'''))
    v('r8-find-rev', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))''', '''        for occurrence in self.reverse_idx.values() {
            let Span { start, end } = occurrence.span;
            if (start..end).contains(&pos) {
                return Some(occurrence);
            }
        }
        None'''))
    # ---------------------------------------------------------------- diagnostics
    v('r8-diag-match', None, (D, '''            // Diagnose all symbols which are used but not defined / declared
            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            // Diagnose all symbols which are used but not defined / declared
            let undefined = ud.decls.is_empty() && ud.defs.is_empty();
            if undefined {'''), (D, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {''', '''            } else if let [first, duplicates @ ..] = &ud.defs[..] {
                let diags = duplicates
                    .iter()
                    .filter_map(move |use_| {'''), (D, '''range: range_to_lsp(rope, &ud.defs[0])?,''', '''range: range_to_lsp(rope, first)?,'''))
    v('r8-diag-flatmap', None, (D, '''    stmts
        .iter()
        .filter_map(move |s| match s {
            Statement::FuncDef {
                body: FuncBody { basic_blocks, .. },
                ..
            } => Some(basic_blocks.iter()),
            _ => None,
        })
        .flatten()
        .flat_map(move |bb| bb.instructions.iter())
        .filter_map(move |i| {
            let inst_name = &i.instruction.0;
            if (i.is_branching() || inst_name == "phi") && i.basic_block_refs.is_empty() {
                let message = format!(
                    "Failed to extract basic block references from `{}` instruction",
                    inst_name
                );
                Some(Diagnostic::new_simple(
                    range_to_lsp(rope, &i.instruction.1)?,
                    message,
                ))
            } else {
                None
            }
        })''', '''    let mut diagnostics = vec![];
    for s in stmts {
        let Statement::FuncDef { body, .. } = s else {
            continue;
        };
        let FuncBody { basic_blocks, .. } = body;
        for i in basic_blocks.iter().flat_map(|bb| &bb.instructions) {
            let (name, span) = &i.instruction;
            let needs_targets = name == "phi" || i.is_branching();
            if !needs_targets || !i.basic_block_refs.is_empty() {
                continue;
            }
            if let Some(range) = range_to_lsp(rope, span) {
                let message =
                    format!("Failed to extract basic block references from `{name}` instruction");
                diagnostics.push(Diagnostic::new_simple(range, message));
            }
        }
    }
    diagnostics.into_iter()'''))
    v('r8-diag-expected', None, (D, '''                    if item.expected().len() == 0 {
                        "something else".to_string()
                    } else {
                        item.expected()
                            .map(|expected| match expected {
                                Some(expected) => expected.to_string(),
                                None => "end of input".to_string(),
                            })
                            .collect::<Vec<_>>()
                            .join(", ")
                    }''', '''                    match item.expected().len() {
                        0 => "something else".to_string(),
                        _ => item
                            .expected()
                            .map(|expected| expected.as_deref().unwrap_or("end of input"))
                            .collect::<Vec<&str>>()
                            .join(", "),
                    }'''), (D, '''        || -> Option<Diagnostic> {
            Some(Diagnostic::new_simple(range_to_lsp(rope, &span)?, message))
        }()''', '''        range_to_lsp(rope, &span).map(|range| Diagnostic::new_simple(range, message))'''))
    v('r8-diag-tables', None, (D, '''    let all_use_defs = index
        .global_vars
        .iter()
        .chain(index.functions.iter())
        .chain(index.dgb_annotations.iter())
        .chain(index.function_bodies.iter().flat_map(|fb| fb.labels.iter()))
        .chain(
            index
                .function_bodies
                .iter()
                .flat_map(|fb| fb.local_vars.iter()),
        );
''', '''    let globals = [&index.global_vars, &index.functions, &index.dgb_annotations];
    let labels = index.function_bodies.iter().map(|fb| &fb.labels);
    let local_vars = index.function_bodies.iter().map(|fb| &fb.local_vars);
    let all_use_defs = globals.into_iter().chain(labels).chain(local_vars).flatten();
'''))
    # ---------------------------------------------------------------- positions, tokens
    v('r8-pos-struct', None, (L, '''    let line = rope.try_byte_to_line(pos).ok()?;
    let first = rope.try_line_to_char(line).ok()?;
    let char = rope.try_byte_to_char(pos).ok()?;
    let character =
        rope.try_char_to_utf16_cu(char).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
    Some(Position {
        line: line.try_into().ok()?,
        character: character.try_into().ok()?,
    })''', '''    let utf16_offset = |char_idx: usize| rope.try_char_to_utf16_cu(char_idx).ok();
    let line = rope.try_byte_to_line(pos).ok()?;
    let line_start = utf16_offset(rope.try_line_to_char(line).ok()?)?;
    let offset = utf16_offset(rope.try_byte_to_char(pos).ok()?)?;
    Some(Position::new(
        u32::try_from(line).ok()?,
        u32::try_from(offset - line_start).ok()?,
    ))'''))
    v('r8-pos-range', None, (L, '''    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })''', '''    let Span { start, end } = *span;
    let [start, end] = [start, end].map(|offset| offset_to_lsp_pos(rope, offset));
    Some(Range::new(start?, end?))'''))
    v('r8-pos-filter', None, (L, '''    let line_len: usize = line
        .chars()
        .take_while(|c| !matches!(c, '\\n' | '\\r'))
        .map(char::len_utf16)
        .sum();
    let character = line_len.min(pos.character as usize);''', '''    let mut line_len = 0;
    for c in line.chars() {
        if c == '\\r' || c == '\\n' {
            break;
        }
        line_len += c.len_utf16();
    }
    let character = std::cmp::min(pos.character as usize, line_len);'''))
    v('r8-sem-prev', None, (S, '''    let mut pre_line = 0;
    let mut pre_start = 0;
    let lsp_tokens = semtoks
        .iter()
        .filter_map(|token| {
            let pos = offset_to_lsp_pos(rope, token.start)?;
            let line = pos.line;
            let start = pos.character;
            let slice = rope.get_byte_slice(token.start..)?;
            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu();
            let delta_line = line - pre_line;
            let delta_start = if delta_line == 0 {
                start - pre_start
            } else {
                start
            };
            let ret = Some(SemanticToken {
                delta_line,
                delta_start,
                length: length as u32,
                token_type: token.token_type as u32,
                token_modifiers_bitset: 0,
            });
            pre_line = line;
            pre_start = start;
            ret
        })
        .collect::<Vec<_>>();
    lsp_tokens''', '''    let mut lsp_tokens = Vec::with_capacity(semtoks.len());
    let mut previous = tower_lsp::lsp_types::Position::new(0, 0);
    for HIRSemanticToken {
        start,
        length,
        token_type,
    } in semtoks
    {
        let Some(position) = offset_to_lsp_pos(rope, *start) else {
            continue;
        };
        let text = rope
            .get_byte_slice(*start..)
            .and_then(|rest| rest.get_byte_slice(..*length));
        let Some(text) = text else {
            continue;
        };
        let same_line = position.line == previous.line;
        lsp_tokens.push(SemanticToken {
            delta_line: position.line - previous.line,
            delta_start: position.character - if same_line { previous.character } else { 0 },
            length: text.len_utf16_cu() as u32,
            token_type: *token_type as u32,
            token_modifiers_bitset: 0,
        });
        previous = position;
    }
    lsp_tokens'''))
    v('r8-sem-types', None, (S, '''        .filter_map(|(token, span)| match token {
            Token::Newline => None,
            Token::Comment => Some(create_semantic_token(span, &SemanticTokenType::COMMENT)),
            Token::Num(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::Str(_) => Some(create_semantic_token(span, &SemanticTokenType::STRING)),
            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::GlobalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::Ident(_) => None,
            Token::DebugRef(_) => None,
            Token::Type(_) => Some(create_semantic_token(span, &SemanticTokenType::TYPE)),
            Token::Punctuation(_) => None,
            Token::Declare => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::Define => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::FuncModifier(_) => {
                Some(create_semantic_token(span, &SemanticTokenType::MODIFIER))
            }
        })''', '''        .filter_map(|(token, span)| {
            let token_type = match token {
                Token::Comment => SemanticTokenType::COMMENT,
                Token::Num(_) | Token::HexNum(_) => SemanticTokenType::NUMBER,
                Token::Str(_) => SemanticTokenType::STRING,
                Token::LocalName(_) | Token::GlobalName(_) => SemanticTokenType::VARIABLE,
                Token::Type(_) => SemanticTokenType::TYPE,
                Token::Declare | Token::Define => SemanticTokenType::KEYWORD,
                Token::FuncModifier(_) => SemanticTokenType::MODIFIER,
                Token::Newline | Token::Ident(_) | Token::DebugRef(_) | Token::Punctuation(_) => {
                    return None
                }
            };
            Some(create_semantic_token(span, &token_type))
        })'''))
    # ---------------------------------------------------------------- control flow graph
    v('r8-cfg-edges', None, (G, '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
    graph.push_str("}\\n");
    graph.to_string()''', '''    for (from, to) in edges(func_body) {
        graph += &format!("  {} -> {}\\n", escape_dot_label(from), escape_dot_label(to));
    }
    graph += "}\\n";
    graph'''), (G, '''pub fn create_cfg''', '''fn edges(func_body: &FunctionBody) -> impl Iterator<Item = (&str, &str)> {
    func_body
        .basic_blocks
        .iter()
        .filter_map(|bb| Some((bb.label.as_ref()?.0.as_str(), &bb.instructions)))
        .flat_map(|(from, instructions)| instructions.iter().map(move |i| (from, i)))
        .filter(|(_, i)| i.is_branching())
        .flat_map(|(from, i)| i.basic_block_refs.iter().map(move |to| (from, to.0.as_str())))
}

pub fn create_cfg'''))
    v('r8-cfg-lines', None, (G, '''    let mut graph = "".to_string();
    graph.push_str(format!("// Control flow graph for {}\\n", func_body.name.0).as_str());
    graph.push_str("// In VSCode, I recommend installing the `Graphviz Interactive Preview` extension to view this file.\\n");
    graph.push_str("strict digraph D {\\n");
    graph.push_str("  node [shape=box];\\n");
    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
    graph.push_str("}\\n");
    graph.to_string()''', '''    let mut lines = vec![
        format!("// Control flow graph for {}", func_body.name.0),
        "// In VSCode, I recommend installing the `Graphviz Interactive Preview` extension to view this file.".to_string(),
        "strict digraph D {".to_string(),
        "  node [shape=box];".to_string(),
    ];
    for bb in func_body.basic_blocks.iter() {
        let Some((label, _)) = &bb.label else {
            continue;
        };
        let from = escape_dot_label(label);
        for i in bb.instructions.iter().filter(|i| i.is_branching()) {
            lines.extend(
                i.basic_block_refs
                    .iter()
                    .map(|(target, _)| format!("  {} -> {}", from, escape_dot_label(target))),
            );
        }
    }
    lines.push("}".to_string());
    lines.push(String::new());
    lines.join("\\n")'''))
    # ---------------------------------------------------------------- backtraces
    v('r8-resolve-for', None, (B, '''    root_paths.iter().find_map(|baseuri| {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        if uri.to_file_path().ok()?.exists() {
            Some(uri)
        } else {
            None
        }
    })''', '''    for base in root_paths {
        let mut candidate = base.clone();
        if let Ok(mut segments) = candidate.path_segments_mut() {
            for segment in path.split('/') {
                segments.push(segment);
            }
        } else {
            continue;
        }
        let exists = match candidate.to_file_path() {
            Ok(file) => file.exists(),
            Err(()) => false,
        };
        if exists {
            return Some(candidate);
        }
    }
    None'''))
    v('r8-frame-name', None, (B, '''            let mut name = "<invalid>";
            if json_name.is_some() && !json_name.unwrap().is_empty() {
                // Use the name provided in the backtrace if present
                name = json_name.unwrap();
            } else if let Some(link) = json_link {
                name = shorten_filepath(link);
            }
''', '''            let name = json_name
                .filter(|name| !name.is_empty())
                .or(json_link.map(shorten_filepath))
                .unwrap_or("<invalid>");
'''))
    v('r8-frame-link', None, (B, '''            let filepath_linenr = json_link.and_then(|s| -> Option<(String, u32)> {
                if let [filepath, linestr] = s.split(':').collect::<Vec<_>>()[..] {
                    if let Ok(line) = linestr.parse::<u32>() {
                        return Some((filepath.to_string(), line));
                    }
                }
                None
            });

            // Resolve the file path against the workspace roots
            let resolved_filepath = filepath_linenr
                .as_ref()
                .and_then(|f| resolve_relative_path(root_paths, &f.0));

            let line = filepath_linenr.as_ref().map(|f| f.1).unwrap_or(0);
            Frame {
                symbol: name.to_string(),
                filepath: filepath_linenr.map(|f| f.0),
                resolved_filepath,
                line,
            }''', '''            let location = json_link.and_then(|link| {
                let parts: Vec<&str> = link.split(':').collect();
                match parts.as_slice() {
                    [filepath, line] => Some((filepath.to_string(), line.parse::<u32>().ok()?)),
                    _ => None,
                }
            });

            let symbol = name.to_string();
            match location {
                Some((filepath, line)) => Frame {
                    symbol,
                    // Resolve the file path against the workspace roots
                    resolved_filepath: resolve_relative_path(root_paths, &filepath),
                    filepath: Some(filepath),
                    line,
                },
                None => Frame {
                    symbol,
                    filepath: None,
                    line: 0,
                    resolved_filepath: None,
                },
            }'''))
    v('r8-relevant-chain', None, (B, '''    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }
''', '''    let preferred = symbol_preferences
        .iter()
        .find_map(|pref| frames.iter().position(|frame| frame.symbol.contains(pref)));
    if preferred.is_some() {
        return preferred;
    }
'''), (B, '''    frames.iter().position(|f| match &f.filepath {
        Some(fp) => !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"),
        None => false,
    })''', '''    const INTERNAL: [&str; 2] = ["hyper/ir/", "hyper/codegen"];
    frames.iter().position(|frame| {
        frame
            .filepath
            .as_ref()
            .is_some_and(|path| !INTERNAL.iter().any(|dir| path.contains(dir)))
    })'''))
    v('r8-md-char', None, (B, '''    let mut sanitized = String::with_capacity(txt.bytes().len());
    for c in txt.chars() {
        if c.is_alphanumeric() {
            // We allow all alphanumeric chars.
            // Hopefully, none of them has a special meaning in Markdown.
            sanitized.push(c);
        } else if c.is_whitespace() {
            // A line break could end the code block
            sanitized.push(' ');
        } else {
            match c {
                // Forward characters which are safe in Markdown code blocks.
                // Note that even `<` and `>` have no special meaning in this context.
                '.' => sanitized.push(c),
                ',' => sanitized.push(c),
                ':' => sanitized.push(c),
                '+' => sanitized.push(c),
                '-' => sanitized.push(c),
                '=' => sanitized.push(c),
                '/' => sanitized.push(c),
                '*' => sanitized.push(c),
                '<' => sanitized.push(c),
                '>' => sanitized.push(c),
                '_' => sanitized.push(c),
                // Unsupported characters are replaced
                _ => sanitized.push('�'),
            }
        }
    }
    sanitized''', '''    txt.chars()
        .map(|c| match c {
            // Characters which are safe in Markdown code blocks.
            // Note that even `<` and `>` have no special meaning in this context.
            '.' | ',' | ':' | '+' | '-' | '=' | '/' | '*' | '<' | '>' | '_' => c,
            // Hopefully, no alphanumeric character has a special meaning in Markdown.
            c if c.is_alphanumeric() => c,
            // A line break could end the code block
            c if c.is_whitespace() => ' ',
            // Unsupported characters are replaced
            _ => char::REPLACEMENT_CHARACTER,
        })
        .collect()'''))
    v('r8-md-frame', None, (B, '''    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {''', '''    let symbol = format!("`{}`", sanitize_markdown_code(&frame.symbol));
    if frame.filepath.is_none() {
        return symbol;
    }
    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {'''))
    v('r8-md-match', None, (B, '''    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {
            // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
            // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
            // In contrast to most other special characters, URLs can contain unescaped parentheses.
            // A closing parenthesis would end the Markdown link.
            let link = resolved_fp.as_str().replace('(', "%28").replace(')', "%29");
            format!(
                "`{}` @ [`{}:{}`]({}#{})",
                sanitize_markdown_code(&frame.symbol),
                sanitize_markdown_code(shortened_path),
                frame.line,
                link,
                frame.line
            )
        } else {
            format!(
                "`{}` @ `{}:{}`",
                sanitize_markdown_code(&frame.symbol),
                sanitize_markdown_code(shortened_path),
                frame.line
            )
        }
    } else {
        format!("`{}`", sanitize_markdown_code(&frame.symbol))
    }''', '''    let line = frame.line;
    let symbol = sanitize_markdown_code(&frame.symbol);
    let location = frame
        .filepath
        .as_deref()
        .map(|path| format!("`{}:{}`", sanitize_markdown_code(shorten_filepath(path)), line));
    match (location, &frame.resolved_filepath) {
        (None, _) => format!("`{symbol}`"),
        (Some(location), None) => format!("`{symbol}` @ {location}"),
        (Some(location), Some(url)) => {
            // Also see https://github.com/microsoft/language-server-protocol/issues/473 and
            // https://github.com/microsoft/language-server-protocol/issues/379 regarding `file:` links
            // In contrast to most other special characters, URLs can contain unescaped parentheses.
            // A closing parenthesis would end the Markdown link.
            let link = url.as_str().replace('(', "%28").replace(')', "%29");
            format!("`{symbol}` @ [{location}]({link}#{line})")
        }
    }'''))
    v('r8-bt-join', None, (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let items: Vec<String> = frames.iter().map(format_frame_as_md).collect();
    items
        .iter()
        .map(|item| String::from("* ") + item)
        .collect::<Vec<String>>()
        .join("\\n")'''))
    v('r8-hint-frame', None, (B, '''    let mut inlay_hint_parts: Vec<InlayHintLabelPart> = Vec::new();
    if let Some(idx) = identify_relevant_frames(frames) {
        let frame = &frames[idx];
        let symbol = shorten_name(&frame.symbol, 50);
        let tooltip = Some(InlayHintLabelPartTooltip::MarkupContent(MarkupContent {
            kind: MarkupKind::Markdown,
            value: format_frame_as_md(frame),
        }));
        inlay_hint_parts.push(InlayHintLabelPart {
            value: symbol.to_string(),
            tooltip,
            ..Default::default()
        });
        inlay_hint_parts.push(InlayHintLabelPart {
            value: ", ".to_string(),
            ..Default::default()
        });
    }

    // Put the full backtrace into a tooltip
    let tooltip_md = backtrace_json_to_md(frames);
    let tooltip = MarkupContent {
        kind: MarkupKind::Markdown,
        value: tooltip_md,
    };
    inlay_hint_parts.push(InlayHintLabelPart {
        value: "Full backtrace".to_string(),
        tooltip: Some(InlayHintLabelPartTooltip::MarkupContent(tooltip)),
        ..Default::default()
    });
''', '''    fn part(value: String, tooltip: Option<String>) -> InlayHintLabelPart {
        InlayHintLabelPart {
            value,
            tooltip: tooltip.map(|value| {
                InlayHintLabelPartTooltip::MarkupContent(MarkupContent {
                    kind: MarkupKind::Markdown,
                    value,
                })
            }),
            ..Default::default()
        }
    }
    // Put the full backtrace into a tooltip
    let backtrace = part("Full backtrace".to_string(), Some(backtrace_json_to_md(frames)));
    let inlay_hint_parts = match identify_relevant_frames(frames).and_then(|idx| frames.get(idx)) {
        Some(frame) => vec![
            part(shorten_name(&frame.symbol, 50), Some(format_frame_as_md(frame))),
            part(", ".to_string(), None),
            backtrace,
        ],
        None => vec![backtrace],
    };
'''))
    v('r8-shorten', None, (B, '''    if s.chars().count() < len - 2 {
        s.to_string()
    } else {
        s.chars().take(len - 2).collect::<String>() + "…"
    }''', '''    let limit = len - 2;
    if s.chars().count() >= limit {
        let head: String = s.chars().take(limit).collect();
        return format!("{}…", head);
    }
    s.to_owned()'''))
    v('r8-shorten-path', None, (B, '''    let separator_pos = max(path.rfind('/'), path.rfind('\\\\'));
    path.split_at(separator_pos.map(|p| p + 1).unwrap_or(0)).1''', '''    let start = max(path.rfind('/'), path.rfind('\\\\')).map_or(0, |p| p + 1);
    &path[start..]'''))
    v('r8-shorten-path2', None, (B, '''    let separator_pos = max(path.rfind('/'), path.rfind('\\\\'));
    path.split_at(separator_pos.map(|p| p + 1).unwrap_or(0)).1''', '''    path.rsplit(['/', '\\\\']).next().unwrap_or(path)'''), (B, '''use std::cmp::max;

''', ''))
    # ---------------------------------------------------------------- grammar
    v('r8-gr-names', None, (PA, '''    let br_instruction = just(Token::Ident("br".to_string()))
        .map_with_span(|_, span| ("br".to_string(), span))
        .then(ident)''', '''    let keyword = |name: &'static str| {
        just(Token::Ident(name.to_string())).map_with_span(move |_, span| (name.to_string(), span))
    };
    let br_instruction = keyword("br")
        .then(ident)'''), (PA, '''    let phi_instruction = just(Token::Ident("phi".to_string()))
        .map_with_span(|_, span| ("phi".to_string(), span))
        .then(''', '''    let phi_instruction = keyword("phi")
        .then('''))
    v('r8-gr-assign', None, (PA, '''        .map_with_span(|(target, instruction), span| Instruction {
            assignment_target: target,
            span,
            ..instruction
        });''', '''        .map_with_span(|(target, mut instruction), span| {
            instruction.assignment_target = target;
            instruction.span = span;
            instruction
        });'''))
    v('r8-gr-block', None, (PA, '''        .map(|((label, comma), instructions)| {
            let span = Span {
                start: label.1.start,
                end: instructions.last().map_or(label.1.end, |i| i.span.end),
            };''', '''        .map(|((label, comma), instructions): ((Spanned<String>, Span), Vec<Instruction>)| {
            let mut span = label.1.clone();
            if let Some(last) = instructions.last() {
                span.end = last.span.end;
            }'''))
    v('r8-gr-initial', None, (PA, '''                let mut basic_blocks = vec![];
                if let Some(initial_bb) = initial_bb {
                    basic_blocks.push(initial_bb);
                }
                basic_blocks.append(&mut bbs);
                FuncBody {''', '''                if let Some(initial_bb) = initial_bb {
                    bbs.insert(0, initial_bb);
                }
                let basic_blocks = bbs;
                FuncBody {'''))
    v('r8-gr-parse', None, (PA, '''    let errors = tok_errs
        .into_iter()
        .map(|e| e.map(|c| c.to_string()))
        .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
        .collect::<Vec<_>>();

    ParserResult {
        tokens: tokens.unwrap_or(Vec::new()),
        stmts: stmts.unwrap_or(Vec::new()),
        errors,
    }''', '''    let mut errors = Vec::with_capacity(tok_errs.len() + parse_errs.len());
    for e in tok_errs {
        errors.push(e.map(|c| c.to_string()));
    }
    for e in parse_errs {
        errors.push(e.map(|tok| tok.to_string()));
    }

    ParserResult {
        tokens: tokens.unwrap_or_default(),
        stmts: stmts.unwrap_or_default(),
        errors,
    }'''))
    v('r8-gr-parse2', None, (PA, '''    let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
        parser().parse_recovery(Stream::from_iter(
            strlen..strlen,
            // TODO: can we somehow avoid this copy?
            tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
        ))
    } else {
        (None, Vec::new())
    };''', '''    let (stmts, parse_errs) = tokens
        .as_ref()
        .map(|tokens| {
            let without_comments: Vec<Spanned<Token>> = tokens
                .iter()
                .filter(|(token, _)| !matches!(token, Token::Comment))
                .cloned()
                .collect();
            let eoi = strlen..strlen;
            parser().parse_recovery(Stream::from_iter(eoi, without_comments.into_iter()))
        })
        .unwrap_or((None, vec![]));'''))
    v('r8-tk-word', None, (T, '''        .map(|ident: String| match ident.as_str() {
            "declare" => Token::Declare,
            "define" => Token::Define,
            "exported" => Token::FuncModifier(ident),
            "async" => Token::FuncModifier(ident),
            "memberfunc" => Token::FuncModifier(ident),
            "noreturn" => Token::FuncModifier(ident),
            "nosideeffects" => Token::FuncModifier(ident),
            "pure" => Token::FuncModifier(ident),
            "void" => Token::Type(ident),
            "int1" => Token::Type(ident),
            "int8" => Token::Type(ident),
            "int16" => Token::Type(ident),
            "int32" => Token::Type(ident),
            "int64" => Token::Type(ident),
            "float32" => Token::Type(ident),
            "float64" => Token::Type(ident),
            "data128" => Token::Type(ident),
            "ptr" => Token::Type(ident),
            _ => Token::Ident(ident),
        });''', '''        .map(classify_word);'''), (T, '''pub fn tokenizer()''', '''/// Keywords, modifiers and types look like identifiers
fn classify_word(word: String) -> Token {
    match &word[..] {
        "declare" => return Token::Declare,
        "define" => return Token::Define,
        _ => {}
    }
    let is_modifier = matches!(
        word.as_str(),
        "exported" | "async" | "memberfunc" | "noreturn" | "nosideeffects" | "pure"
    );
    let is_type = matches!(
        word.as_str(),
        "void" | "int1" | "int8" | "int16" | "int32" | "int64" | "float32" | "float64" | "data128" | "ptr"
    );
    if is_modifier {
        Token::FuncModifier(word)
    } else if is_type {
        Token::Type(word)
    } else {
        Token::Ident(word)
    }
}

pub fn tokenizer()'''))
    v('r8-tk-head', None, (T, '''    let ident_head = filter(|c: &char| c.is_alphabetic() || c.to_char() == '_');''', '''    let ident_head = filter(|c: &char| *c == '_' || char::is_alphabetic(*c));'''), (T, '''    let ident_char = filter(|c: &char| c.is_alphanumeric() || c.to_char() == '_');''', '''    let ident_char = filter(|&c: &char| matches!(c, '_') || c.is_alphanumeric());'''))
    v('r8-tk-sigil', None, (T, '''    let local = just('%')
        .chain::<char, _, _>(ident_tail)
        .collect::<String>()
        .map(Token::LocalName);''', '''    let sigil_name = |sigil: char| just(sigil).chain::<char, _, _>(ident_tail).collect::<String>();
    let local = sigil_name('%').map(Token::LocalName);'''), (T, '''    let global = just('@')
        .chain::<char, _, _>(ident_tail)
        .collect::<String>()
        .map(Token::GlobalName);''', '''    let global = sigil_name('@').map(Token::GlobalName);'''), (T, '''    let debugref = just('!')
        .chain::<char, _, _>(ident_tail)
        .collect::<String>()
        .map(Token::DebugRef);''', '''    let debugref = sigil_name('!').map(|name| Token::DebugRef(name));'''))
