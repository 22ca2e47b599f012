"""Renamed items (see refactors.py): names of functions, fields, types and modules carry no meaning."""
import os, re

SRC = ['src/' + f for f in ('main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs', 'semantic_token.rs', 'control_flow_graph.rs', 'backtrace.rs', 'lib.rs')]
REPO = os.environ.get('HIRV_REPO', '/repo')


def ren(*pairs):
    """Replaces identifiers everywhere."""
    out = []
    for f in SRC:
        p = os.path.join('/repo', f)
        if not os.path.exists(p): continue
        t = open(p).read()
        n = t
        for a, b in pairs: n = re.sub(r'\b%s\b' % a, b, n)
        if n != t: out.append((f, t, n))
    return out


def add(v):
    for n, ps in {
        'fields-index': [('global_vars', 'globals'), ('dgb_annotations', 'dbg_annotations'), ('dgb_annotation_values', 'dbg_values'), ('reverse_idx', 'occurrences'), ('function_bodies', 'bodies')],
        'fields-usedef': [('decls', 'declarations'), ('defs', 'definitions'), ('uses', 'usages'), ('external_defs', 'external')],
        'fields-body': [('complete_range', 'full_span'), ('local_vars', 'locals'), ('incoming_bb_branches', 'predecessors')],
        'fields-stmt': [('basic_block_refs', 'targets'), ('assignment_target', 'result'), ('dbg_ref', 'debug'), ('label_comma_span', 'colon_span'), ('closing_bracket', 'close')],
        'fields-doc': [('document_map', 'documents'), ('root_paths', 'workspace_roots'), ('code_actions_lazy_resolve', 'lazy')],
        'fields-sem': [('token_type', 'token_type')],
        'fields-data': [('func_body_id', 'body_id'), ('symbol_kind', 'kind_of_symbol')],
        'fields-frame': [('resolved_filepath', 'target')],
        'fn-positions': [('lsp_pos_to_offset', 'offset_of'), ('offset_to_lsp_pos', 'position_of'), ('range_to_lsp', 'to_range')],
        'fn-index': [('create_index', 'build_index'), ('find_symbol_at_position', 'symbol_at'), ('get_by_symbol_kind', 'table'), ('add_internal', 'record'), ('get_use_def_kind', 'spans'), ('get_use_def_kind_mut', 'spans_mut')],
        'fn-rename': [('get_shift_edits', 'shift_edits'), ('get_rename_edits', 'rename_edits'), ('extract_number_from_identifier', 'split_number')],
        'fn-backtrace': [('resolve_relative_path', 'locate'), ('parse_backtrace_from_json', 'frames_of'), ('identify_relevant_frames', 'relevant'), ('sanitize_markdown_code', 'clean'), ('format_frame_as_md', 'frame_md'), ('backtrace_json_to_md', 'all_md'), ('inlay_hint_for_backtrace', 'hint_of'), ('shorten_filepath', 'base_name'), ('shorten_name', 'cut')],
        'fn-diag': [('diagnostics_from_parser', 'syntax_diagnostics'), ('diagnostics_from_statements', 'branch_diagnostics'), ('diagnostics_from_index', 'symbol_diagnostics')],
        'fn-sem': [('semantic_tokens_from_tokens', 'classify'), ('convert_to_lsp_tokens', 'encode'), ('create_semantic_token', 'mk'), ('LEGEND_TYPE', 'LEGEND')],
        'fn-parse': [('parse_from_str', 'parse'), ('is_branching', 'branches')],
        'fn-parsers': [('tokenizer', 'lexer')],
        'fn-cfg': [('create_cfg_dot_visualization', 'dot'), ('escape_dot_label', 'quote')],
        'fn-main': [('on_change', 'update'), ('get_use_def_ranges', 'ranges_of'), ('do_code_action_resolve', 'fill_in')],
        'ty-index': [('HIRIndex', 'SymbolIndex'), ('UseDefList', 'Occurrences'), ('FunctionBody', 'BodyIndex'), ('SymbolOccurrence', 'Occurrence'), ('ExternalDef', 'SourceRef')],
        'ty-parser': [('BasicBlock', 'Block'), ('FuncBody', 'Body'), ('FuncSignature', 'Signature'), ('ParserResult', 'Parsed')],
        'ty-main': [('AnalyzedDocument', 'Document'), ('Backend', 'HirServer'), ('TextDocumentItem', 'NewText')],
        'ty-sem': [('HIRSemanticToken', 'ColouredToken')],
        'ty-frame': [('Frame', 'StackFrame')],
        'ty-kind': [('UseDefKind', 'Role')],
        'var-kind': [('Decl', 'Declaration')],
    }.items():
        v('nm-' + n, None, *ren(*ps))
    M, IX, DG, RN, LU, ST, CF, BT = 'src/main.rs', 'src/hir_index.rs', 'src/diagnostics.rs', 'src/rename.rs', 'src/lsp_utils.rs', 'src/semantic_token.rs', 'src/control_flow_graph.rs', 'src/backtrace.rs'
    # ---------------------------------------------------------------- other representations of the state
    v('rp-atomic', None, (M, 'code_actions_lazy_resolve: Mutex<Cell<bool>>,', 'code_actions_lazy_resolve: AtomicBool,'),
      (M, '''        self.code_actions_lazy_resolve
            .lock()
            .unwrap()
            .set(code_actions_lazy_resolve);
''', '''        self.code_actions_lazy_resolve
            .store(code_actions_lazy_resolve, Ordering::SeqCst);
'''), (M, 'all:self.code_actions_lazy_resolve.lock().unwrap().get()', 'self.code_actions_lazy_resolve.load(Ordering::SeqCst)'),
      (M, 'use std::cell::Cell;\n', ''), (M, 'use std::sync::Mutex;\n', 'use std::sync::atomic::{AtomicBool, Ordering};\nuse std::sync::Mutex;\n'))
    v('rp-mutex-bool', None, (M, 'code_actions_lazy_resolve: Mutex<Cell<bool>>,', 'code_actions_lazy_resolve: Mutex<bool>,'),
      (M, '''        self.code_actions_lazy_resolve
            .lock()
            .unwrap()
            .set(code_actions_lazy_resolve);
''', '''        *self.code_actions_lazy_resolve.lock().unwrap() = code_actions_lazy_resolve;
'''), (M, 'all:self.code_actions_lazy_resolve.lock().unwrap().get()', '*self.code_actions_lazy_resolve.lock().unwrap()'),
      (M, 'use std::cell::Cell;\n', ''))
    v('rp-rwlock', None, (M, 'root_paths: Mutex<Vec<Url>>,', 'root_paths: RwLock<Vec<Url>>,'),
      (M, '''            self.root_paths
                .lock()
                .unwrap()
                .extend''', '''            self.root_paths
                .write()
                .unwrap()
                .extend'''), (M, 'self.root_paths.lock().unwrap().push(root_uri)', 'self.root_paths.write().unwrap().push(root_uri)'),
      (M, 'let root_paths = self.root_paths.lock().unwrap();', 'let root_paths = self.root_paths.read().unwrap();'),
      (M, '''                        let root_paths: std::sync::MutexGuard<'_, Vec<Url>> =
                            self.root_paths.lock().unwrap();
''', '''                        let root_paths = self.root_paths.read().unwrap();
'''), (M, 'use std::sync::Mutex;', 'use std::sync::{Mutex, RwLock};'))
    v('rp-arc', None, (M, 'document_map: DashMap<String, AnalyzedDocument>,', 'document_map: DashMap<String, std::sync::Arc<AnalyzedDocument>>,'),
      (M, '''            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
''', '''            std::sync::Arc::new(AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            }),
'''))
    v('rp-lsptokens', None, (M, '''            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
        if let Some(semantic_token) = lsp_tokens {
            return Ok(Some(SemanticTokensResult::Tokens(SemanticTokens {
                result_id: None,
                data: semantic_token,
            })));
        }
        Ok(None)
''', '''            Some(convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens))
        }();
        Ok(lsp_tokens.map(|data| {
            SemanticTokens {
                result_id: None,
                data,
            }
            .into()
        }))
'''))
    # ---------------------------------------------------------------- whole functions
    v('wf-usedef-ranges', None, (M, '''        let mut ranges = usedefs
            .get_use_def_kind(ud)
            .iter()
            .filter_map(|span| {
                Some(Location::new(
                    pos.text_document.uri.clone(),
                    range_to_lsp(&doc.rope, span)?,
                ))
            })
            .collect::<Vec<_>>();

        // In addition, consider the external_defs
        if ud == UseDefKind::Def {
            ranges.extend(usedefs.external_defs.iter().filter_map(|d| {
                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;

                Some(Location {
                    uri,
                    range: Range {
                        start: Position::new(d.line.saturating_sub(1), 0),
                        end: Position::new(d.line.saturating_sub(1), 0),
                    },
                })
            }));
        }

        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some((origin_selection_range, ranges))
    }
''', '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        let mut ranges = self.internal_locations(&doc.rope, &pos.text_document.uri, usedefs.get_use_def_kind(ud));
        if matches!(ud, UseDefKind::Def) {
            ranges.append(&mut self.external_locations(usedefs));
        }
        Some((origin_selection_range, ranges))
    }

    fn internal_locations(&self, rope: &Rope, uri: &Url, spans: &[std::ops::Range<usize>]) -> Vec<Location> {
        let mut result = Vec::with_capacity(spans.len());
        for span in spans {
            if let Some(range) = range_to_lsp(rope, span) {
                result.push(Location { uri: uri.clone(), range });
            }
        }
        result
    }

    fn external_locations(&self, usedefs: &UseDefList) -> Vec<Location> {
        let root_paths = self.root_paths.lock().unwrap();
        let mut result = Vec::new();
        for d in &usedefs.external_defs {
            let Some(uri) = resolve_relative_path(&root_paths, &d.filepath) else {
                continue;
            };
            let line = d.line.saturating_sub(1);
            let start = Position { line, character: 0 };
            result.push(Location { uri, range: Range::new(start, start) });
        }
        result
    }
'''))
    v('wf-goto-links', None, (M, '''        let definition = || -> Option<GotoDefinitionResponse> {
            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDefinitionResponse::Link(links))
        }();
        Ok(definition)
''', '''        Ok(self.links(&params, UseDefKind::Def))
'''), (M, '''        let decl = || -> Option<GotoDeclarationResponse> {
            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Decl)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDeclarationResponse::Link(links))
        }();
        Ok(decl)
''', '''        Ok(self.links(&params, UseDefKind::Decl))
'''), (M, '''    fn get_use_def_ranges(
''', '''    fn links(&self, params: &GotoDefinitionParams, kind: UseDefKind) -> Option<GotoDefinitionResponse> {
        let (origin, locations) = self.get_use_def_ranges(&params.text_document_position_params, kind)?;
        let mut links = vec![];
        for Location { uri, range } in locations {
            links.push(LocationLink {
                origin_selection_range: Some(origin),
                target_uri: uri,
                target_range: range,
                target_selection_range: range,
            });
        }
        Some(links.into())
    }

    fn get_use_def_ranges(
'''), (M, 'use tower_lsp::lsp_types::request::{GotoDeclarationResponse, Request};', 'use tower_lsp::lsp_types::request::Request;'))
    v('wf-prepare', None, (M, '''        Ok(|| -> Option<PrepareRenameResponse> {
            let uri_str = pos.text_document.uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(PrepareRenameResponse::Range(range?))
        }())
''', '''        let Some(doc) = self.document_map.get(pos.text_document.uri.as_str()) else {
            return Ok(None);
        };
        let range = lsp_pos_to_offset(&doc.rope, &pos.position)
            .and_then(|offset| doc.index.find_symbol_at_position(offset))
            .and_then(|symbol| range_to_lsp(&doc.rope, &symbol.span));
        Ok(range.map(PrepareRenameResponse::Range))
'''))
    v('wf-rename-validate', None, (M, '''            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }
            if new_name
                .chars()
                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
            {
                return Result::Err(Error::invalid_params("Name contains invalid character"));
            }
            if new_name.is_empty() {
                return Result::Err(Error::invalid_params("Name must not be empty"));
            }
            if new_name.starts_with(char::is_numeric)
                && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
            {
                return Result::Err(Error::invalid_params("Name must not start with a digit"));
            }
            new_name = format!("{}{}", prefix, new_name);
''', '''            let bare = new_name.strip_prefix(prefix).unwrap_or(&new_name);
            check_bare_name(bare, symbol.symbol_kind)?;
            new_name = prefix.to_string() + bare;
'''), (M, '#[tower_lsp::async_trait]\n', '''/// Checks a name without its prefix
fn check_bare_name(name: &str, kind: hyper_ir_lsp::hir_index::SymbolKind) -> Result<()> {
    let valid = |c: char| c.is_alphanumeric() || c == '_' || c == ':';
    if !name.chars().all(valid) {
        return Err(Error::invalid_params("Name contains invalid character"));
    }
    match name.chars().next() {
        None => Err(Error::invalid_params("Name must not be empty")),
        Some(first) if first.is_numeric() && kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => {
            Err(Error::invalid_params("Name must not start with a digit"))
        }
        Some(_) => Ok(()),
    }
}

#[tower_lsp::async_trait]
'''))
    v('wf-rename-split', None, (M, '''        let mut new_name = params.new_name;
        let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
            let sign = if new_name.starts_with('-') { -1 } else { 1 };
            let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
            })?;
            let rename_shift = rename_nr.wrapping_mul(sign);
            let (_, rename_start) =
                extract_number_from_identifier(&symbol.name).ok_or_else(|| {
                    Error::invalid_params(
                        "Relative rename can only be applied to a numbered identifier",
                    )
                })?;
            get_shift_edits(
                &doc.rope,
                &doc.index,
                symbol.symbol_kind,
                symbol.func_body_id,
                rename_start,
                rename_shift,
            )
        } else {
''', '''        let mut new_name = params.new_name;
        let edits = if let Some(sign) = relative_sign(&new_name) {
            shift_numbering(&doc, symbol, &new_name, sign)?
        } else {
'''), (M, '#[tower_lsp::async_trait]\n', '''/// The sign of a relative rename
fn relative_sign(name: &str) -> Option<i64> {
    match name.chars().next() {
        Some('+') => Some(1),
        Some('-') => Some(-1),
        _ => None,
    }
}

fn shift_numbering(doc: &AnalyzedDocument, symbol: &SymbolOccurrence, new_name: &str, sign: i64) -> Result<Vec<TextEdit>> {
    let Ok(number) = new_name[1..].parse::<i64>() else {
        return Err(Error::invalid_params(format!("Invalid relative rename `{}`", new_name)));
    };
    let Some((_, start)) = extract_number_from_identifier(&symbol.name) else {
        return Err(Error::invalid_params("Relative rename can only be applied to a numbered identifier"));
    };
    Ok(get_shift_edits(
        &doc.rope,
        &doc.index,
        symbol.symbol_kind,
        symbol.func_body_id,
        start,
        number.wrapping_mul(sign),
    ))
}

#[tower_lsp::async_trait]
'''))
    v('wf-rename-neg', None, (M, '''            let rename_shift = rename_nr.wrapping_mul(sign);
''', '''            let rename_shift = if sign < 0 { rename_nr.wrapping_neg() } else { rename_nr };
'''))
    v('wf-code-action', None, (M, '''        let mut actions = vec![];
        // The "Increment identifier" action, if available
        (|| -> Option<()> {
            let offset = lsp_pos_to_offset(&doc.rope, &range.start)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;
''', '''        // The "Increment identifier" action, if available
        let shift_action = (|| -> Option<CodeAction> {
            let offset = lsp_pos_to_offset(&doc.rope, &range.start)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;
'''), (M, '''            actions.push(CodeAction {
                title,
                data: Some(
                    serde_json::to_value(CodeActionData::ShiftNumbering {
                        uri: params.text_document.uri.clone(),
                        symbol_kind: symbol.symbol_kind,
                        func_body_id: symbol.func_body_id,
                        renamed_nr,
                    })
                    .ok()?,
                ),
                ..Default::default()
            });
            None
        })();

        // Eagerly resolve all edits, if the client doesn't support lazy resolving
        if !self.code_actions_lazy_resolve.lock().unwrap().get() {
            actions = actions
                .drain(..)
                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
                .collect();
        }

        Ok(Some(
            actions
                .drain(..)
                .map(CodeActionOrCommand::CodeAction)
                .collect(),
        ))
''', '''            let data = CodeActionData::ShiftNumbering {
                uri: params.text_document.uri.clone(),
                symbol_kind: symbol.symbol_kind,
                func_body_id: symbol.func_body_id,
                renamed_nr,
            };
            Some(CodeAction {
                title,
                data: Some(serde_json::to_value(data).ok()?),
                ..Default::default()
            })
        })();

        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
        let mut response = CodeActionResponse::new();
        if let Some(action) = shift_action {
            // Eagerly resolve the edit, if the client doesn't support lazy resolving
            let action = if lazy {
                action
            } else {
                self.do_code_action_resolve(action).ok().unwrap()
            };
            response.push(action.into());
        }
        Ok(Some(response))
'''))
    v('wf-code-action-err', None, (M, '''                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
                .collect();
''', '''                .map(|a| self.do_code_action_resolve(a))
                .collect::<Result<Vec<_>>>()?;
'''))
    v('wf-resolve', None, (M, '''        let mut updated_action = action.clone();
        match data {
            CodeActionData::ShiftNumbering {
                uri,
                symbol_kind,
                func_body_id,
                renamed_nr,
            } => {
                let doc = self
                    .document_map
                    .get(&uri.to_string())
                    .ok_or_else(|| Error::invalid_params("Document not found"))?;
                let edits = get_shift_edits(
                    &doc.rope,
                    &doc.index,
                    symbol_kind,
                    func_body_id,
                    renamed_nr,
                    1,
                );
                updated_action.edit = Some(WorkspaceEdit {
                    changes: Some(HashMap::from([(uri, edits)])),
                    ..Default::default()
                });
            }
        };
        Ok(updated_action)
''', '''        let CodeActionData::ShiftNumbering {
            uri,
            symbol_kind,
            func_body_id,
            renamed_nr,
        } = data;
        let Some(doc) = self.document_map.get(uri.as_str()) else {
            return Err(Error::invalid_params("Document not found"));
        };
        let edits = get_shift_edits(&doc.rope, &doc.index, symbol_kind, func_body_id, renamed_nr, 1);
        Ok(CodeAction {
            edit: Some(WorkspaceEdit::new(HashMap::from([(uri, edits)]))),
            ..action
        })
'''), (M, '''        let raw_data = action
            .data
            .as_ref()
            .ok_or_else(|| Error::invalid_params("Missing `data` in code action"))?;
        let data = serde_json::from_value::<CodeActionData>(raw_data.clone()).map_err(|err| {
            Error::invalid_params(format!("Invalid `data` for code action: {}", err))
        })?;
''', '''        let Some(raw_data) = action.data.clone() else {
            return Err(Error::invalid_params("Missing `data` in code action"));
        };
        let data: CodeActionData = serde_json::from_value(raw_data).map_err(|err| {
            Error::invalid_params(format!("Invalid `data` for code action: {}", err))
        })?;
'''))
    v('wf-folding', None, (M, '''            let mut folding_ranges = Vec::<FoldingRange>::new();

            folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
                let collapsed_text = format!("{} basic blocks", f.labels.len());
                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            }));

            folding_ranges.extend(
                doc.index
                    .function_bodies
                    .iter()
                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        Some(FoldingRange {
                            start_line: range.start.line,
                            start_character: None,
                            end_line: range.end.line,
                            end_character: None,
                            kind: None,
                            collapsed_text: Some(collapsed_text),
                        })
                    }),
            );

            Some(folding_ranges)
''', '''            let fold = |span, count: usize, what: &str| {
                let range = range_to_lsp(&doc.rope, span)?;
                Some(FoldingRange {
                    start_line: range.start.line,
                    end_line: range.end.line,
                    collapsed_text: Some(format!("{count} {what}")),
                    ..FoldingRange::default()
                })
            };
            let bodies = &doc.index.function_bodies;
            let functions = bodies.iter().map(|f| fold(&f.complete_range, f.labels.len(), "basic blocks"));
            let blocks = bodies
                .iter()
                .flat_map(|f| &f.basic_blocks)
                .map(|bb| fold(&bb.span, bb.instructions.len(), "instructions"));
            Some(functions.chain(blocks).flatten().collect())
'''))
    v('wf-hints-split', None, (M, '''            // Insert hints at the end of a function body which point back to the beginning
            // of the function definition
            inlay_hints.extend(doc.index.function_bodies.iter().filter_map(|f| {
                Some(InlayHint {
                    position: offset_to_lsp_pos(&doc.rope, f.complete_range.end)?,
                    label: InlayHintLabel::LabelParts(vec![InlayHintLabelPart {
                        value: f.name.0.clone(),
                        location: Some(Location {
                            uri: uri.clone(),
                            range: range_to_lsp(&doc.rope, &f.name.1)?,
                        }),
                        ..Default::default()
                    }]),
                    kind: None,
                    text_edits: None,
                    tooltip: None,
                    padding_left: Some(true),
                    padding_right: Some(true),
                    data: None,
                })
            }));
''', '''            for f in &doc.index.function_bodies {
                if let Some(hint) = end_of_function_hint(&doc.rope, uri, f) {
                    inlay_hints.push(hint);
                }
            }
'''), (M, '#[tower_lsp::async_trait]\n', '''/// A hint at the end of a function body which points back to the beginning of the function
fn end_of_function_hint(rope: &Rope, uri: &Url, f: &hyper_ir_lsp::hir_index::FunctionBody) -> Option<InlayHint> {
    let (name, name_span) = &f.name;
    let location = Location::new(uri.clone(), range_to_lsp(rope, name_span)?);
    let part = InlayHintLabelPart {
        value: name.to_owned(),
        tooltip: None,
        location: Some(location),
        command: None,
    };
    Some(InlayHint {
        position: offset_to_lsp_pos(rope, f.complete_range.end)?,
        label: InlayHintLabel::LabelParts(vec![part]),
        kind: None,
        text_edits: None,
        tooltip: None,
        padding_left: Some(true),
        padding_right: Some(true),
        data: None,
    })
}

#[tower_lsp::async_trait]
'''))
    v('wf-exec', None, (M, '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
                    .index
                    .function_bodies
                    .iter()
                    .find(|b| b.name.0 == *func_name)
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("function `{}` not found", func_name).into(),
                        data: None,
                    })?;

                let title = format!("CFG for {}", func_name);
                let dot_graph = create_cfg_dot_visualization(func_body);
                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);
''', '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let title = format!("CFG for {}", func_name);
                let dot_graph = self.dot_graph(doc_uri, func_name)?;
'''), (M, '''    fn get_use_def_ranges(
''', '''    /// The control flow graph of a function. The document is only locked in here.
    fn dot_graph(&self, doc_uri: &str, func_name: &str) -> Result<String> {
        let Some(doc) = self.document_map.get(doc_uri) else {
            return Err(Error::invalid_params(format!("document `{}` not found", doc_uri)));
        };
        for body in &doc.index.function_bodies {
            if body.name.0 == func_name {
                return Ok(create_cfg_dot_visualization(body));
            }
        }
        Err(Error::invalid_params(format!("function `{}` not found", func_name)))
    }

    fn get_use_def_ranges(
'''))
    v('wf-on-change', None, (M, '''        let semantic_tokens = semantic_tokens_from_tokens(&tokens);
        let index = create_index(&src, &tokens, &stmts);

        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));

        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );

        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
''', '''        let index = create_index(&src, &tokens, &stmts);
        let diagnostics = diagnostics_from_parser(&rope, &errors)
            .chain(diagnostics_from_statements(&rope, &stmts))
            .chain(diagnostics_from_index(&rope, &params.uri, &index))
            .collect::<Vec<_>>();
        let doc = AnalyzedDocument {
            semantic_tokens: semantic_tokens_from_tokens(&tokens),
            rope,
            stmts,
            index,
        };

        let TextDocumentItem { uri, version, .. } = params;
        let _previous = self.document_map.insert(uri.to_string(), doc);
        self.client.publish_diagnostics(uri, diagnostics, Some(version)).await;
'''))
    v('wf-index-func', None, (IX, '''                // Index the labels and local variables defined in each basic block
                for bb in &body.basic_blocks {
                    // Index the label
                    if bb.label.is_some() {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            bb.label.as_ref().unwrap(),
                        )
                    }
                    // Index the variables and label references of all instructions in the basic block
                    for i in &bb.instructions {
                        if i.assignment_target.is_some() {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                i.assignment_target.as_ref().unwrap(),
                            )
                        }
                        for bb_ref in &i.basic_block_refs {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::Label,
                                UseDefKind::Use,
                                bb_ref,
                            );
                            if i.is_branching() && bb.label.is_some() {
                                let label = bb.label.as_ref().unwrap();
                                let func_body = &mut index.function_bodies[func_body_id];
                                let incoming_list = func_body
                                    .incoming_bb_branches
                                    .entry(bb_ref.0.clone())
                                    .or_default();
                                if !incoming_list.contains(label) {
                                    incoming_list.push(label.clone());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
''', '''                // Index the labels and local variables defined in each basic block
                for bb in &body.basic_blocks {
                    index.add_basic_block(func_body_id, bb);
                }
            }
        }
    }
'''), (IX, '''    pub fn find_symbol_at_position(''', '''    /// Index the label, the variables and the label references of a basic block
    fn add_basic_block(&mut self, func_body_id: usize, bb: &BasicBlock) {
        if let Some(label) = &bb.label {
            self.add_func_local_spanned(func_body_id, SymbolKind::Label, UseDefKind::Def, label);
        }
        for i in &bb.instructions {
            if let Some(target) = &i.assignment_target {
                self.add_func_local_spanned(func_body_id, SymbolKind::LocalVar, UseDefKind::Def, target);
            }
            for bb_ref in &i.basic_block_refs {
                self.add_func_local_spanned(func_body_id, SymbolKind::Label, UseDefKind::Use, bb_ref);
            }
            let (true, Some(label)) = (i.is_branching(), &bb.label) else {
                continue;
            };
            for (target, _) in &i.basic_block_refs {
                self.function_bodies[func_body_id].add_incoming(target, label);
            }
        }
    }

    pub fn find_symbol_at_position('''), (IX, '''#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde()]
''', '''impl FunctionBody {
    fn add_incoming(&mut self, target: &str, from: &Spanned<String>) {
        let list = self.incoming_bb_branches.entry(target.to_string()).or_default();
        if list.iter().all(|l| l != from) {
            list.push(from.clone());
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
#[serde()]
'''))
    v('wf-index-tokens', None, (IX, '''    let mut func_body_id: Option<usize> = None;
    for t in tokens.iter() {
        match &t.0 {
            Token::GlobalName(name) => {
                if index.functions.contains_key(&name.to_string()) {
                    index.add_global(SymbolKind::Function, UseDefKind::Use, &t.1, name)
                } else {
                    index.add_global(SymbolKind::GlobalVar, UseDefKind::Use, &t.1, name)
                }
            }
            Token::DebugRef(name) => {
                index.add_global(SymbolKind::DbgAnnotation, UseDefKind::Use, &t.1, name)
            }
            Token::LocalName(name) => {
                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
                if let Some(func_body_id) = func_body_id {
                    index.add_func_local(
                        func_body_id,
                        SymbolKind::LocalVar,
                        UseDefKind::Use,
                        &t.1,
                        name,
                    )
                }
            }
            _ => {}
        }
    }
''', '''    for (token, span) in tokens {
        match token {
            Token::GlobalName(name) => {
                let kind = match index.functions.get(name) {
                    Some(_) => SymbolKind::Function,
                    None => SymbolKind::GlobalVar,
                };
                index.add_global(kind, UseDefKind::Use, span, name)
            }
            Token::DebugRef(name) => {
                index.add_global(SymbolKind::DbgAnnotation, UseDefKind::Use, span, name)
            }
            Token::LocalName(name) => {
                let body_id = index
                    .function_bodies
                    .iter()
                    .position(|e| e.complete_range.contains(&span.start));
                if let Some(id) = body_id {
                    index.add_func_local(id, SymbolKind::LocalVar, UseDefKind::Use, span, name)
                }
            }
            _ => {}
        }
    }
'''))
    v('wf-index-ext', None, (IX, '''                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
                    if let [(Token::Str(dbgstr), _)] = &def[..] {
                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {
                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs
                                    .push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                            }
                        }
                    }
                }
''', '''                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
                    if let Some(external) = external_def(def) {
                        let usedefs = index.functions.get_mut(funcname).unwrap();
                        usedefs.external_defs.push(external);
                    }
                }
'''), (IX, 'pub fn create_index(', '''/// The `file:line` of a function definition
fn external_def(def: &[Spanned<Token>]) -> Option<ExternalDef> {
    let [(Token::Str(dbgstr), _)] = def else {
        return None;
    };
    let parts = dbgstr.split(':').collect::<Vec<_>>();
    let [filepath, linestr] = parts[..] else {
        return None;
    };
    Some(ExternalDef {
        filepath: filepath.to_owned(),
        line: linestr.parse().ok()?,
    })
}

pub fn create_index('''))
    v('wf-index-value', None, (IX, '''                if !def.is_empty() {
                    let start = def.first().unwrap().1.start;
                    let end = def.last().unwrap().1.end;
                    let value = &src[start..end];
                    index
                        .dgb_annotation_values
                        .insert(name.0.clone(), value.to_string());
                }
''', '''                if let (Some((_, first)), Some((_, last))) = (def.first(), def.last()) {
                    let value = src[first.start..last.end].to_owned();
                    index.dgb_annotation_values.insert(name.0.clone(), value);
                }
'''))
    v('wf-diag-parser', None, (DG, '''        let (message, span) = match item.reason() {
            chumsky::error::SimpleReason::Unclosed { span, delimiter } => {
                (format!("Unclosed delimiter {}", delimiter), span.clone())
            }
            chumsky::error::SimpleReason::Unexpected => (
                format!(
                    "{}, expected {}",
                    if item.found().is_some() {
                        "Unexpected token in input"
                    } else {
                        "Unexpected end of input"
                    },
                    if item.expected().len() == 0 {
                        "something else".to_string()
                    } else {
                        item.expected()
                            .map(|expected| match expected {
                                Some(expected) => expected.to_string(),
                                None => "end of input".to_string(),
                            })
                            .collect::<Vec<_>>()
                            .join(", ")
                    }
                ),
                item.span(),
            ),
            chumsky::error::SimpleReason::Custom(msg) => (msg.to_string(), item.span()),
        };

        || -> Option<Diagnostic> {
            Some(Diagnostic::new_simple(range_to_lsp(rope, &span)?, message))
        }()
    })
}
''', '''        let (message, span) = describe(item);
        let range = range_to_lsp(rope, &span)?;
        Some(Diagnostic::new_simple(range, message))
    })
}

fn describe(item: &Simple<String>) -> (String, std::ops::Range<usize>) {
    use chumsky::error::SimpleReason;
    match item.reason() {
        SimpleReason::Unclosed { span, delimiter } => (format!("Unclosed delimiter {delimiter}"), span.clone()),
        SimpleReason::Custom(msg) => (msg.clone(), item.span()),
        SimpleReason::Unexpected => {
            let what = match item.found() {
                Some(_) => "Unexpected token in input",
                None => "Unexpected end of input",
            };
            let mut expected = item
                .expected()
                .map(|e| e.clone().unwrap_or_else(|| "end of input".to_string()))
                .collect::<Vec<_>>()
                .join(", ");
            if item.expected().len() == 0 {
                expected = "something else".to_string();
            }
            (format!("{what}, expected {expected}"), item.span())
        }
    }
}
'''))
    v('wf-diag-index', None, (DG, '''            if ud.decls.is_empty() && ud.defs.is_empty() {
                let diags = ud
                    .uses
                    .iter()
                    .filter_map(move |use_| {
                        let message = format!("Use of undefined symbol `{}`", name);
                        Some(Diagnostic::new_simple(range_to_lsp(rope, use_)?, message))
                    })
                    .collect::<Vec<_>>();
                Some(diags)
            } else if ud.defs.len() > 1 {
''', '''            let is_known = !(ud.decls.is_empty() && ud.defs.is_empty());
            if !is_known {
                let message = format!("Use of undefined symbol `{}`", name);
                let mut diags = Vec::new();
                for span in &ud.uses {
                    if let Some(range) = range_to_lsp(rope, span) {
                        diags.push(Diagnostic::new_simple(range, message.clone()));
                    }
                }
                Some(diags)
            } else if ud.defs.len() >= 2 {
'''))
    v('wf-diag-dup', None, (DG, '''                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {
                        let message = format!("Symbol `{}` already defined previously", name);
                        let related_information = Some(vec![DiagnosticRelatedInformation {
                            location: Location {
                                uri: uri.clone(),
                                range: range_to_lsp(rope, &ud.defs[0])?,
                            },
                            message: "Previously defined here".to_string(),
                        }]);
                        Some(Diagnostic {
                            range: range_to_lsp(rope, use_)?,
                            message,
                            severity: None,
                            code: None,
                            code_description: None,
                            source: None,
                            related_information,
                            tags: None,
                            data: None,
                        })
                    })
                    .collect::<Vec<_>>();
                Some(diags)
''', '''                let first = range_to_lsp(rope, &ud.defs[0])?;
                let mut diags = vec![];
                for dup in &ud.defs[1..] {
                    let Some(range) = range_to_lsp(rope, dup) else {
                        continue;
                    };
                    diags.push(Diagnostic {
                        range,
                        message: format!("Symbol `{name}` already defined previously"),
                        related_information: Some(vec![DiagnosticRelatedInformation {
                            location: Location::new(uri.clone(), first),
                            message: "Previously defined here".to_string(),
                        }]),
                        ..Diagnostic::default()
                    });
                }
                Some(diags)
'''))
    v('wf-diag-dup-slice', None, (DG, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
''', '''            } else if let [_, _, ..] = ud.defs[..] {
                let diags = ud.defs[1..]
                    .iter()
'''))
    v('wf-shift', None, (RN, '''    index
        .get_by_symbol_kind(
            symbol_kind,
            func_body_id.and_then(|id| index.function_bodies.get(id)),
        )
        .into_iter()
        .flatten()
        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()
''', '''    let body = func_body_id.and_then(|id| index.function_bodies.get(id));
    let mut edits = Vec::new();
    let Some(symbols) = index.get_by_symbol_kind(symbol_kind, body) else {
        return edits;
    };
    for (name, usedefs) in symbols {
        match extract_number_from_identifier(name) {
            Some((prefix, nr)) if nr >= renamed_nr => {
                let shifted = nr.wrapping_add(shift).unsigned_abs();
                edits.extend(get_rename_edits(rope, usedefs, &format!("{prefix}{shifted}")));
            }
            _ => {}
        }
    }
    edits
'''))
    v('wf-rename-edits', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()
''', '''    let mut edits = Vec::new();
    for spans in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        for span in spans {
            if let Some(range) = range_to_lsp(rope, span) {
                edits.push(TextEdit::new(range, new_name.to_string()));
            }
        }
    }
    edits
'''))
    v('wf-rename-edits-concat', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
''', '''    [&usedefs.decls, &usedefs.defs, &usedefs.uses]
        .into_iter()
        .flatten()
'''))
    v('wf-extract', None, (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))
''', '''    let name = id.trim_end_matches(|c: char| c.is_numeric());
    let digits = &id[name.len()..];
    digits.parse().ok().map(|nr| (name, nr))
'''))
    v('wf-cfg', None, (CF, '''    let mut graph = "".to_string();
    graph.push_str(format!("// Control flow graph for {}\\n", func_body.name.0).as_str());
''', '''    let mut graph = format!("// Control flow graph for {}\\n", func_body.name.0);
'''), (CF, '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
    graph.push_str("}\\n");
    graph.to_string()
''', '''    for bb in &func_body.basic_blocks {
        let Some((label, _)) = &bb.label else {
            continue;
        };
        let from = escape_dot_label(label);
        for i in bb.instructions.iter().filter(|i| i.is_branching()) {
            for (target, _) in &i.basic_block_refs {
                graph += &format!("  {from} -> {}\\n", escape_dot_label(target));
            }
        }
    }
    graph + "}\\n"
'''))
    v('wf-cfg-concat', None, (CF, '''    format!("\\"{}\\"", str.replace('\\"', "\\"\\""))
''', '''    let mut quoted = String::from("\\"");
    quoted.push_str(&str.replace('"', "\\"\\""));
    quoted.push('"');
    quoted
'''))
    v('wf-frame', None, (BT, '''            let mut name = "<invalid>";
            if json_name.is_some() && !json_name.unwrap().is_empty() {
                // Use the name provided in the backtrace if present
                name = json_name.unwrap();
            } else if let Some(link) = json_link {
                name = shorten_filepath(link);
            }

            // Parse `file:linenr`
            let filepath_linenr = json_link.and_then(|s| -> Option<(String, u32)> {
                if let [filepath, linestr] = s.split(':').collect::<Vec<_>>()[..] {
                    if let Ok(line) = linestr.parse::<u32>() {
                        return Some((filepath.to_string(), line));
                    }
                }
                None
            });

            // Resolve the file path against the workspace roots
            let resolved_filepath = filepath_linenr
                .as_ref()
                .and_then(|f| resolve_relative_path(root_paths, &f.0));

            let line = filepath_linenr.as_ref().map(|f| f.1).unwrap_or(0);
            Frame {
                symbol: name.to_string(),
                filepath: filepath_linenr.map(|f| f.0),
                resolved_filepath,
                line,
            }
''', '''            let name = json_name
                .filter(|n| !n.is_empty())
                .or(json_link.map(shorten_filepath))
                .unwrap_or("<invalid>");

            match json_link.and_then(parse_link) {
                Some((filepath, line)) => Frame {
                    symbol: name.to_string(),
                    resolved_filepath: resolve_relative_path(root_paths, &filepath),
                    filepath: Some(filepath),
                    line,
                },
                None => Frame {
                    symbol: name.to_string(),
                    filepath: None,
                    resolved_filepath: None,
                    line: 0,
                },
            }
'''), (BT, 'pub fn parse_backtrace_from_json(', '''/// Parses `file:linenr`
fn parse_link(link: &str) -> Option<(String, u32)> {
    let parts: Vec<&str> = link.split(':').collect();
    match parts.as_slice() {
        [filepath, line] => Some((filepath.to_string(), line.parse().ok()?)),
        _ => None,
    }
}

pub fn parse_backtrace_from_json('''))
    v('wf-relevant', None, (BT, '''    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }

    // As a fallback, find the first, non-internal frame. We consider everything inside the
    // `hyper/ir` and the `hyper/codegen` folder as internal. Those are our codegen
    // utilities.
    frames.iter().position(|f| match &f.filepath {
        Some(fp) => !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"),
        None => false,
    })
''', '''    let preferred = symbol_preferences
        .iter()
        .find_map(|pref| frames.iter().position(|f| f.symbol.contains(pref)));
    // As a fallback, find the first, non-internal frame.
    preferred.or_else(|| {
        frames.iter().position(|f| {
            f.filepath
                .as_ref()
                .is_some_and(|fp| !(fp.contains("hyper/ir/") || fp.contains("hyper/codegen")))
        })
    })
'''))
    v('wf-md', None, (BT, '''    let mut sanitized = String::with_capacity(txt.bytes().len());
    for c in txt.chars() {
        if c.is_alphanumeric() {
            // We allow all alphanumeric chars.
            // Hopefully, none of them has a special meaning in Markdown.
            sanitized.push(c);
        } else if c.is_whitespace() {
            // A line break could end the code block
            sanitized.push(' ');
        } else {
            match c {
                // Forward characters which are safe in Markdown code blocks.
                // Note that even `<` and `>` have no special meaning in this context.
                '.' => sanitized.push(c),
                ',' => sanitized.push(c),
                ':' => sanitized.push(c),
                '+' => sanitized.push(c),
                '-' => sanitized.push(c),
                '=' => sanitized.push(c),
                '/' => sanitized.push(c),
                '*' => sanitized.push(c),
                '<' => sanitized.push(c),
                '>' => sanitized.push(c),
                '_' => sanitized.push(c),
                // Unsupported characters are replaced
                _ => sanitized.push('�'),
            }
        }
    }
    sanitized
''', '''    fn sanitize_char(c: char) -> char {
        match c {
            '.' | ',' | ':' | '+' | '-' | '=' | '/' | '*' | '<' | '>' | '_' => c,
            _ if c.is_alphanumeric() => c,
            _ if c.is_whitespace() => ' ',
            _ => '�',
        }
    }
    txt.chars().map(sanitize_char).collect()
'''))
    v('wf-hint', None, (BT, '''    let mut inlay_hint_parts: Vec<InlayHintLabelPart> = Vec::new();
    if let Some(idx) = identify_relevant_frames(frames) {
        let frame = &frames[idx];
        let symbol = shorten_name(&frame.symbol, 50);
        let tooltip = Some(InlayHintLabelPartTooltip::MarkupContent(MarkupContent {
            kind: MarkupKind::Markdown,
            value: format_frame_as_md(frame),
        }));
        inlay_hint_parts.push(InlayHintLabelPart {
            value: symbol.to_string(),
            tooltip,
            ..Default::default()
        });
        inlay_hint_parts.push(InlayHintLabelPart {
            value: ", ".to_string(),
            ..Default::default()
        });
    }

    // Put the full backtrace into a tooltip
    let tooltip_md = backtrace_json_to_md(frames);
    let tooltip = MarkupContent {
        kind: MarkupKind::Markdown,
        value: tooltip_md,
    };
    inlay_hint_parts.push(InlayHintLabelPart {
        value: "Full backtrace".to_string(),
        tooltip: Some(InlayHintLabelPartTooltip::MarkupContent(tooltip)),
        ..Default::default()
    });
''', '''    let part = |value: String, md: Option<String>| InlayHintLabelPart {
        value,
        tooltip: md.map(|value| {
            InlayHintLabelPartTooltip::MarkupContent(MarkupContent {
                kind: MarkupKind::Markdown,
                value,
            })
        }),
        location: None,
        command: None,
    };
    let mut inlay_hint_parts = match identify_relevant_frames(frames).and_then(|idx| frames.get(idx)) {
        Some(frame) => vec![
            part(shorten_name(&frame.symbol, 50), Some(format_frame_as_md(frame))),
            part(", ".to_string(), None),
        ],
        None => vec![],
    };
    // Put the full backtrace into a tooltip
    inlay_hint_parts.push(part("Full backtrace".to_string(), Some(backtrace_json_to_md(frames))));
'''))
    v('wf-roots', None, (BT, '''    root_paths.iter().find_map(|baseuri| {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        if uri.to_file_path().ok()?.exists() {
            Some(uri)
        } else {
            None
        }
    })
''', '''    for baseuri in root_paths {
        let mut uri = baseuri.clone();
        match uri.path_segments_mut() {
            Ok(mut segments) => {
                segments.extend(path.split('/'));
            }
            Err(()) => continue,
        }
        if uri.to_file_path().map_or(false, |file| file.exists()) {
            return Some(uri);
        }
    }
    None
'''))
    v('wf-pos', None, (LU, '''    let line = rope.get_line(pos.line as usize)?;
    let line_len: usize = line
        .chars()
        .take_while(|c| !matches!(c, '\\n' | '\\r'))
        .map(char::len_utf16)
        .sum();
    let character = line_len.min(pos.character as usize);
    let char = line.try_utf16_cu_to_char(character).ok()?;
    let first = rope.try_line_to_byte(pos.line as usize).ok()?;
    Some(first + line.try_char_to_byte(char).ok()?)
''', '''    let line_nr = pos.line as usize;
    let line = rope.get_line(line_nr)?;
    let line_start = rope.try_line_to_byte(line_nr).ok()?;
    let line_len: usize = line
        .chars()
        .take_while(|&c| c != '\\n' && c != '\\r')
        .map(|c| c.len_utf16())
        .sum();
    let character = std::cmp::min(pos.character as usize, line_len);
    let in_line = line
        .try_utf16_cu_to_char(character)
        .and_then(|c| line.try_char_to_byte(c))
        .ok()?;
    Some(line_start + in_line)
'''))
    v('wf-semtok-types', None, (ST, '''        .filter_map(|(token, span)| match token {
            Token::Newline => None,
            Token::Comment => Some(create_semantic_token(span, &SemanticTokenType::COMMENT)),
            Token::Num(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::Str(_) => Some(create_semantic_token(span, &SemanticTokenType::STRING)),
            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::GlobalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::Ident(_) => None,
            Token::DebugRef(_) => None,
            Token::Type(_) => Some(create_semantic_token(span, &SemanticTokenType::TYPE)),
            Token::Punctuation(_) => None,
            Token::Declare => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::Define => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::FuncModifier(_) => {
                Some(create_semantic_token(span, &SemanticTokenType::MODIFIER))
            }
        })
        .collect::<Vec<_>>()
''', '''        .filter_map(|(token, span)| {
            let ttype = match token {
                Token::Comment => SemanticTokenType::COMMENT,
                Token::Num(_) | Token::HexNum(_) => SemanticTokenType::NUMBER,
                Token::Str(_) => SemanticTokenType::STRING,
                Token::LocalName(_) | Token::GlobalName(_) => SemanticTokenType::VARIABLE,
                Token::Type(_) => SemanticTokenType::TYPE,
                Token::Declare | Token::Define => SemanticTokenType::KEYWORD,
                Token::FuncModifier(_) => SemanticTokenType::MODIFIER,
                Token::Newline | Token::Ident(_) | Token::DebugRef(_) | Token::Punctuation(_) => {
                    return None
                }
            };
            Some(create_semantic_token(span, &ttype))
        })
        .collect()
'''))
