"""More edits which keep the behaviour, per handler and module (see refactors.py)."""
M, D, I, ST, B, L, RN, T, PA, CF = ('src/' + x for x in ('main.rs', 'diagnostics.rs', 'hir_index.rs', 'semantic_token.rs', 'backtrace.rs', 'lsp_utils.rs', 'rename.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'control_flow_graph.rs'))


def add(v):
    # ---------------------------------------------------------------- navigation
    LINKS1 = '''            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDefinitionResponse::Link(links))
        }();
        Ok(definition)'''
    v('ref-nav-into-iter', None, (M, LINKS1, '''            let (origin_selection_range, locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let mut links = Vec::with_capacity(locations.len());
            for Location { uri, range } in locations {
                links.push(LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: uri,
                    target_range: range,
                    target_selection_range: range,
                });
            }
            Some(GotoDefinitionResponse::Link(links))
        }();
        Ok(definition)'''))
    LINKS2 = LINKS1.replace('UseDefKind::Def)', 'UseDefKind::Decl)').replace('GotoDefinitionResponse', 'GotoDeclarationResponse').replace('Ok(definition)', 'Ok(decl)')
    v('ref-nav-helper', None,
      (M, '        let definition = || -> Option<GotoDefinitionResponse> {\n' + LINKS1, '''        Ok(self
            .get_use_def_links(&params.text_document_position_params, UseDefKind::Def)
            .map(GotoDefinitionResponse::Link))'''),
      (M, '        let decl = || -> Option<GotoDeclarationResponse> {\n' + LINKS2, '''        Ok(self
            .get_use_def_links(&params.text_document_position_params, UseDefKind::Decl)
            .map(GotoDeclarationResponse::Link))'''),
      (M, '''    fn get_use_def_ranges(
''', '''    fn get_use_def_links(
        &self,
        pos: &TextDocumentPositionParams,
        ud: UseDefKind,
    ) -> Option<Vec<LocationLink>> {
        let (origin_selection_range, locations) = self.get_use_def_ranges(pos, ud)?;
        let to_link = |loc: Location| LocationLink {
            origin_selection_range: Some(origin_selection_range),
            target_uri: loc.uri,
            target_range: loc.range,
            target_selection_range: loc.range,
        };
        Some(locations.into_iter().map(to_link).collect())
    }

    fn get_use_def_ranges(
'''))
    v('ref-nav-match', None, (M, '''        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        Ok(reference_list)''', '''        match self.get_use_def_ranges(&params.text_document_position, UseDefKind::Use) {
            Some((_, locations)) => Ok(Some(locations)),
            None => Ok(None),
        }'''))
    v('ref-nav-letelse', None, (M, '''        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        Ok(reference_list)''', '''        let position = &params.text_document_position;
        let Some((_, locations)) = self.get_use_def_ranges(position, UseDefKind::Use) else {
            return Ok(None);
        };
        Ok(Some(locations))'''))
    RANGES = '''        let mut ranges = usedefs
            .get_use_def_kind(ud)
            .iter()
            .filter_map(|span| {
                Some(Location::new(
                    pos.text_document.uri.clone(),
                    range_to_lsp(&doc.rope, span)?,
                ))
            })
            .collect::<Vec<_>>();
'''
    v('ref-nav-loop', None, (M, RANGES, '''        let uri = &pos.text_document.uri;
        let mut ranges = Vec::new();
        for span in usedefs.get_use_def_kind(ud) {
            if let Some(range) = range_to_lsp(&doc.rope, span) {
                ranges.push(Location {
                    uri: uri.clone(),
                    range,
                });
            }
        }
'''))
    v('ref-nav-loop-continue', None, (M, RANGES, '''        let spans = usedefs.get_use_def_kind(ud);
        let mut ranges = Vec::with_capacity(spans.len());
        for span in spans.iter() {
            let range = match range_to_lsp(&doc.rope, span) {
                Some(range) => range,
                None => continue,
            };
            ranges.push(Location::new(pos.text_document.uri.clone(), range));
        }
'''))
    v('ref-nav-map', None, (M, RANGES, '''        let mut ranges: Vec<Location> = usedefs
            .get_use_def_kind(ud)
            .iter()
            .flat_map(|span| range_to_lsp(&doc.rope, span))
            .map(|range| Location::new(pos.text_document.uri.clone(), range))
            .collect();
'''))
    EXT = '''            ranges.extend(usedefs.external_defs.iter().filter_map(|d| {
                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;

                Some(Location {
                    uri,
                    range: Range {
                        start: Position::new(d.line.saturating_sub(1), 0),
                        end: Position::new(d.line.saturating_sub(1), 0),
                    },
                })
            }));'''
    v('ref-nav-ext-loop', None, (M, EXT, '''            let root_paths = self.root_paths.lock().unwrap();
            for external in &usedefs.external_defs {
                if let Some(uri) = resolve_relative_path(&root_paths, &external.filepath) {
                    let start = Position::new(external.line.saturating_sub(1), 0);
                    ranges.push(Location::new(uri, Range::new(start, start)));
                }
            }'''))
    v('ref-nav-ext-helper', None, (M, EXT, '''            ranges.extend(
                usedefs
                    .external_defs
                    .iter()
                    .filter_map(|d| self.external_def_location(d)),
            );'''), (M, '''    fn do_code_action_resolve(''', '''    /// Resolves an external definition to a location inside the workspace
    fn external_def_location(
        &self,
        external_def: &hyper_ir_lsp::hir_index::ExternalDef,
    ) -> Option<Location> {
        let root_paths = self.root_paths.lock().unwrap();
        let uri = resolve_relative_path(&root_paths, &external_def.filepath)?;
        let pos = Position {
            line: external_def.line.saturating_sub(1),
            character: 0,
        };
        Some(Location {
            uri,
            range: Range {
                start: pos,
                end: pos,
            },
        })
    }

    fn do_code_action_resolve('''))
    LOOK = '''        let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
        let symbol = doc.index.find_symbol_at_position(offset)?;

        // Find all use/defs from the index
        let usedefs = doc
            .index
            .get_by_symbol_kind(
                symbol.symbol_kind,
                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;
'''
    v('ref-nav-lookup-helper', None, (M, LOOK, '''        let AnalyzedDocument { rope, index, .. } = &*doc;
        let symbol = lsp_pos_to_offset(rope, &pos.position)
            .and_then(|offset| index.find_symbol_at_position(offset))?;

        // Find all use/defs from the index
        let usedefs = find_use_defs(index, symbol)?;
'''), (M, '''#[tokio::main]''', '''fn find_use_defs<'a>(index: &'a HIRIndex, symbol: &SymbolOccurrence) -> Option<&'a UseDefList> {
    let func_body = match symbol.func_body_id {
        Some(id) => Some(&index.function_bodies[id]),
        None => None,
    };
    let map = index.get_by_symbol_kind(symbol.symbol_kind, func_body)?;
    map.get(&symbol.name)
}

#[tokio::main]'''))
    v('ref-nav-method', None, (M, '''        let usedefs = doc
            .index
            .get_by_symbol_kind(
                symbol.symbol_kind,
                symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
            )?
            .get(&symbol.name)?;
''', '''        let usedefs = doc.index.get_use_defs(symbol)?;
'''), (I, '''    fn add_internal(''', '''    /// Looks up all declarations, definitions and uses of the given symbol
    pub fn get_use_defs(&self, symbol: &SymbolOccurrence) -> Option<&UseDefList> {
        let func_body = symbol.func_body_id.and_then(|id| self.function_bodies.get(id));
        self.get_by_symbol_kind(symbol.symbol_kind, func_body)
            .and_then(|map| map.get(&symbol.name))
    }

    fn add_internal('''))
    v('ref-nav-early-origin', None, (M, '''        let symbol = doc.index.find_symbol_at_position(offset)?;

        // Find all use/defs''', '''        let symbol = doc.index.find_symbol_at_position(offset)?;
        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;

        // Find all use/defs'''), (M, '''        let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;
        Some((origin''', '''        Some((origin'''))
    v('ref-nav-matches', None, (M, '''        if ud == UseDefKind::Def {
            ranges''', '''        if matches!(ud, UseDefKind::Def) {
            ranges'''))
    # ---------------------------------------------------------------- find_symbol / index
    FIND = '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
'''
    v('ref-find-values', None, (I, FIND, '''        self.reverse_idx
            .values()
            .find(|e| e.span.start <= pos && pos < e.span.end)
'''))
    v('ref-find-loop', None, (I, FIND, '''        for occurrence in self.reverse_idx.values() {
            if occurrence.span.contains(&pos) {
                return Some(occurrence);
            }
        }
        None
'''))
    v('ref-find-range', None, (I, FIND, '''        // The spans don't overlap. Hence, only the last one which starts at or before `pos` matters.
        self.reverse_idx
            .range(..=pos)
            .next_back()
            .map(|e| e.1)
            .filter(|e| e.span.contains(&pos))
'''))
    v('ref-index-kind-order', None, (I, '''            SymbolKind::Label => fb.map(|fb| &fb.labels),
            SymbolKind::LocalVar => fb.map(|fb| &fb.local_vars),
        }
    }''', '''            SymbolKind::LocalVar => Some(&fb?.local_vars),
            SymbolKind::Label => Some(&fb?.labels),
        }
    }'''))
    v('ref-index-iflet', None, (I, '''                    if bb.label.is_some() {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            bb.label.as_ref().unwrap(),
                        )
                    }''', '''                    if let Some(label) = &bb.label {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            label,
                        );
                    }'''), (I, '''                        if i.assignment_target.is_some() {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                i.assignment_target.as_ref().unwrap(),
                            )
                        }''', '''                        if let Some(target) = i.assignment_target.as_ref() {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                target,
                            );
                        }'''), (I, '''                            if i.is_branching() && bb.label.is_some() {
                                let label = bb.label.as_ref().unwrap();
                                let func_body''', '''                            if let (true, Some(label)) = (i.is_branching(), &bb.label) {
                                let func_body'''))
    BODY = '''                // Index the function arguments
                for arg in &signature.args {
                    index.add_func_local_spanned(
                        func_body_id,
                        SymbolKind::LocalVar,
                        UseDefKind::Def,
                        &arg.name,
                    );
                }
                // Index the labels and local variables defined in each basic block
                for bb in &body.basic_blocks {
                    // Index the label
                    if bb.label.is_some() {
                        index.add_func_local_spanned(
                            func_body_id,
                            SymbolKind::Label,
                            UseDefKind::Def,
                            bb.label.as_ref().unwrap(),
                        )
                    }
                    // Index the variables and label references of all instructions in the basic block
                    for i in &bb.instructions {
                        if i.assignment_target.is_some() {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                i.assignment_target.as_ref().unwrap(),
                            )
                        }
                        for bb_ref in &i.basic_block_refs {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::Label,
                                UseDefKind::Use,
                                bb_ref,
                            );
                            if i.is_branching() && bb.label.is_some() {
                                let label = bb.label.as_ref().unwrap();
                                let func_body = &mut index.function_bodies[func_body_id];
                                let incoming_list = func_body
                                    .incoming_bb_branches
                                    .entry(bb_ref.0.clone())
                                    .or_default();
                                if !incoming_list.contains(label) {
                                    incoming_list.push(label.clone());
                                }
                            }
                        }
                    }
                }
'''
    v('ref-index-body-fn', None, (I, BODY, '''                index_function_body(&mut index, func_body_id, signature, body);
'''), (I, '''pub fn create_index(''', '''fn index_function_body(
    index: &mut HIRIndex,
    func_body_id: usize,
    signature: &crate::hir_parser::FuncSignature,
    body: &crate::hir_parser::FuncBody,
) {
''' + '\n'.join(l[12:] for l in BODY.split('\n')) + '''}

pub fn create_index('''))
    v('ref-index-split-loops', None, (I, BODY, '''                // Index the function arguments
                for arg in &signature.args {
                    index.add_func_local_spanned(
                        func_body_id,
                        SymbolKind::LocalVar,
                        UseDefKind::Def,
                        &arg.name,
                    );
                }
                // Index all labels first
                for label in body.basic_blocks.iter().filter_map(|bb| bb.label.as_ref()) {
                    index.add_func_local_spanned(
                        func_body_id,
                        SymbolKind::Label,
                        UseDefKind::Def,
                        label,
                    );
                }
                for bb in &body.basic_blocks {
                    for i in &bb.instructions {
                        if let Some(target) = &i.assignment_target {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::LocalVar,
                                UseDefKind::Def,
                                target,
                            );
                        }
                        for bb_ref in &i.basic_block_refs {
                            index.add_func_local_spanned(
                                func_body_id,
                                SymbolKind::Label,
                                UseDefKind::Use,
                                bb_ref,
                            );
                        }
                        let Some(label) = bb.label.as_ref().filter(|_| i.is_branching()) else {
                            continue;
                        };
                        for bb_ref in &i.basic_block_refs {
                            let incoming_list = index.function_bodies[func_body_id]
                                .incoming_bb_branches
                                .entry(bb_ref.0.clone())
                                .or_default();
                            if !incoming_list.contains(label) {
                                incoming_list.push(label.clone());
                            }
                        }
                    }
                }
'''))
    v('ref-index-local-usedef', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
''', '''                func_body_id = index
                    .function_bodies
                    .iter()
                    .position(|e| e.complete_range.contains(&t.1.start));
'''), (I, '''    let mut func_body_id: Option<usize> = None;
    for t in''', '''    let mut func_body_id;
    for t in'''))
    v('ref-index-local-direct', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {''', '''                let is_same_body = match func_body_id {
                    Some(id) => index.function_bodies[id]
                        .complete_range
                        .contains(&t.1.start),
                    None => false,
                };
                if !is_same_body {'''))
    v('ref-index-global-kind', None, (I, '''                if index.functions.contains_key(&name.to_string()) {
                    index.add_global(SymbolKind::Function, UseDefKind::Use, &t.1, name)
                } else {
                    index.add_global(SymbolKind::GlobalVar, UseDefKind::Use, &t.1, name)
                }''', '''                let kind = match index.functions.get(name) {
                    Some(_) => SymbolKind::Function,
                    None => SymbolKind::GlobalVar,
                };
                index.add_global(kind, UseDefKind::Use, &t.1, name);'''))
    v('ref-index-tok-destructure', None, (I, '''    for t in tokens.iter() {
        match &t.0 {''', '''    for t @ (token, _) in tokens {
        match token {'''))
    v('ref-index-iter-foreach', None, (I, '''                for arg in &signature.args {
                    index.add_func_local_spanned(
                        func_body_id,
                        SymbolKind::LocalVar,
                        UseDefKind::Def,
                        &arg.name,
                    );
                }''', '''                signature.args.iter().for_each(|arg| {
                    index.add_func_local_spanned(
                        func_body_id,
                        SymbolKind::LocalVar,
                        UseDefKind::Def,
                        &arg.name,
                    )
                });'''))
    v('ref-index-internal-any', None, (I, '''        if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {
            return;
        }
        e.get_use_def_kind_mut(ud).push(span.clone());
        reverse_idx.insert(
            span.start,
            SymbolOccurrence {
                span: span.clone(),
                use_def: ud,
                symbol_kind: k,
                name: name.to_string(),
                func_body_id,
            },
        );''', '''        let is_known = [&e.decls, &e.defs, &e.uses]
            .iter()
            .any(|spans| spans.contains(span));
        if !is_known {
            e.get_use_def_kind_mut(ud).push(span.clone());
            let occurrence = SymbolOccurrence {
                span: span.clone(),
                use_def: ud,
                symbol_kind: k,
                name: name.to_string(),
                func_body_id,
            };
            reverse_idx.insert(span.start, occurrence);
        }'''))
    v('ref-index-ext-flat', None, (I, '''                    if let [(Token::Str(dbgstr), _)] = &def[..] {
                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {
                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs
                                    .push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                            }
                        }
                    }''', '''                    if let Some(external_def) = parse_external_def(def) {
                        index
                            .functions
                            .get_mut(funcname)
                            .unwrap()
                            .external_defs
                            .push(external_def);
                    }'''), (I, '''pub fn create_index(''', '''fn parse_external_def(def: &[Spanned<Token>]) -> Option<ExternalDef> {
    let [(Token::Str(dbgstr), _)] = def else {
        return None;
    };
    let parts: Vec<&str> = dbgstr.split(':').collect();
    match parts[..] {
        [filepath, linestr] => Some(ExternalDef {
            filepath: filepath.to_string(),
            line: linestr.parse().ok()?,
        }),
        _ => None,
    }
}

pub fn create_index('''))
    v('ref-index-value-zip', None, (I, '''                if !def.is_empty() {
                    let start = def.first().unwrap().1.start;
                    let end = def.last().unwrap().1.end;
                    let value = &src[start..end];
                    index''', '''                if let (Some((_, first)), Some((_, last))) = (def.first(), def.last()) {
                    let value = &src[first.start..last.end];
                    index'''))
    v('ref-index-default', None, (I, '''    let mut index = HIRIndex {
        ..Default::default()
    };''', '''    let mut index = HIRIndex::default();'''))
    # ---------------------------------------------------------------- prepare rename / rename
    PREP = '''        Ok(|| -> Option<PrepareRenameResponse> {
            let uri_str = pos.text_document.uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(PrepareRenameResponse::Range(range?))
        }())
'''
    v('ref-prep-flat', None, (M, PREP, '''        let Some(doc) = self.document_map.get(pos.text_document.uri.as_str()) else {
            return Ok(None);
        };
        let range = lsp_pos_to_offset(&doc.rope, &pos.position)
            .and_then(|offset| doc.index.find_symbol_at_position(offset))
            .and_then(|symbol| range_to_lsp(&doc.rope, &symbol.span));
        Ok(range.map(PrepareRenameResponse::Range))
'''))
    v('ref-symbol-at-method', None, (M, PREP, '''        let uri_str = pos.text_document.uri.to_string();
        let range = self.document_map.get(&uri_str).and_then(|doc| {
            let symbol = doc.symbol_at(&pos.position)?;
            range_to_lsp(&doc.rope, &symbol.span)
        });
        Ok(range.map(PrepareRenameResponse::Range))
'''), (M, '''        let symbol = (|| -> Option<&SymbolOccurrence> {
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            doc.index.find_symbol_at_position(offset)
        })()
        .ok_or_else''', '''        let symbol = doc
            .symbol_at(&pos.position)
            .ok_or_else'''), (M, '''#[derive(Debug)]
struct Backend {''', '''impl AnalyzedDocument {
    fn symbol_at(&self, position: &Position) -> Option<&SymbolOccurrence> {
        let offset = lsp_pos_to_offset(&self.rope, position)?;
        self.index.find_symbol_at_position(offset)
    }
}

#[derive(Debug)]
struct Backend {'''))
    v('ref-rename-prefix-fn', None, (M, '''            let prefix = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "@",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "@",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "!",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''            let prefix = symbol.symbol_kind.prefix();'''), (I, '''#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SymbolOccurrence {''', '''impl SymbolKind {
    /// The character in front of all names of this kind
    pub fn prefix(self) -> &'static str {
        match self {
            SymbolKind::GlobalVar | SymbolKind::Function => "@",
            SymbolKind::DbgAnnotation => "!",
            SymbolKind::Label => "",
            SymbolKind::LocalVar => "%",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SymbolOccurrence {'''))
    v('ref-rename-all', None, (M, '''            if new_name
                .chars()
                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
            {
                return''', '''            let is_valid_char = |c: char| c.is_alphanumeric() || matches!(c, '_' | ':');
            if !new_name.chars().all(is_valid_char) {
                return'''))
    v('ref-rename-strip', None, (M, '''            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }
''', '''            let bare_name = new_name.strip_prefix(prefix).unwrap_or(&new_name);
            new_name = bare_name.to_string();
'''))
    v('ref-rename-order', None, (M, '''            if new_name
                .chars()
                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
            {
                return Result::Err(Error::invalid_params("Name contains invalid character"));
            }
            if new_name.is_empty() {
                return Result::Err(Error::invalid_params("Name must not be empty"));
            }''', '''            if new_name.is_empty() {
                return Err(Error::invalid_params("Name must not be empty"));
            }
            let is_valid = |c: char| c.is_alphanumeric() || c == '_' || c == ':';
            if new_name.chars().any(|c| !is_valid(c)) {
                return Err(Error::invalid_params("Name contains invalid character"));
            }'''))
    v('ref-rename-matches', None, (M, '''            match (symbol.symbol_kind, &parse_from_str(&new_name).tokens[..]) {
                (HIRSymbolKind::GlobalVar, [(Token::GlobalName(_), _)])
                | (HIRSymbolKind::Function, [(Token::GlobalName(_), _)])
                | (HIRSymbolKind::DbgAnnotation, [(Token::DebugRef(_), _)])
                | (HIRSymbolKind::Label, [(Token::Ident(_), _)])
                | (HIRSymbolKind::LocalVar, [(Token::LocalName(_), _)]) => {}
                _ => return Result::Err(Error::invalid_params("Name is not a valid identifier")),
            }
''', '''            let tokens = parse_from_str(&new_name).tokens;
            let is_valid_identifier = match symbol.symbol_kind {
                HIRSymbolKind::GlobalVar | HIRSymbolKind::Function => {
                    matches!(tokens.as_slice(), [(Token::GlobalName(_), _)])
                }
                HIRSymbolKind::DbgAnnotation => matches!(tokens.as_slice(), [(Token::DebugRef(_), _)]),
                HIRSymbolKind::Label => matches!(tokens.as_slice(), [(Token::Ident(_), _)]),
                HIRSymbolKind::LocalVar => matches!(tokens.as_slice(), [(Token::LocalName(_), _)]),
            };
            if !is_valid_identifier {
                return Err(Error::invalid_params("Name is not a valid identifier"));
            }
'''))
    v('ref-rename-sign', None, (M, '''        let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
            let sign = if new_name.starts_with('-') { -1 } else { 1 };
''', '''        let sign: Option<i64> = match new_name.chars().next() {
            Some('+') => Some(1),
            Some('-') => Some(-1),
            _ => None,
        };
        let edits = if let Some(sign) = sign {
'''))
    v('ref-rename-doc-match', None, (M, '''        let doc = self
            .document_map
            .get(&uri_str)
            .ok_or_else(|| Error::invalid_params("Document not found"))?;

        // Find the symbol''', '''        let Some(doc) = self.document_map.get(&uri_str) else {
            return Err(Error::invalid_params("Document not found"));
        };

        // Find the symbol'''))
    v('ref-rename-usedefs', None, (M, '''            let usedefs = doc
                .index
                .get_by_symbol_kind(
                    symbol.symbol_kind,
                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits''', '''            let func_body = symbol.func_body_id.map(|id| &doc.index.function_bodies[id]);
            let symbols = doc.index.get_by_symbol_kind(symbol.symbol_kind, func_body);
            let Some(usedefs) = symbols.and_then(|m| m.get(&symbol.name)) else {
                return Err(Error::invalid_params("No symbol at the given position"));
            };
            get_rename_edits'''))
    v('ref-rename-edit', None, (M, '''        let edit = WorkspaceEdit {
            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),
            ..Default::default()
        };
        Ok(Some(edit))''', '''        let mut changes = HashMap::new();
        changes.insert(pos.text_document.uri, edits);
        Ok(Some(WorkspaceEdit::new(changes)))'''))
    GRE = '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()
'''
    v('ref-rename-edits-loop', None, (RN, GRE, '''    let mut edits = Vec::new();
    for spans in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        for span in spans {
            if let Some(range) = range_to_lsp(rope, span) {
                edits.push(TextEdit::new(range, new_name.to_owned()));
            }
        }
    }
    edits
'''))
    v('ref-rename-edits-flat', None, (RN, GRE, '''    let all_spans = [&usedefs.decls, &usedefs.defs, &usedefs.uses];
    all_spans
        .into_iter()
        .flatten()
        .filter_map(|span| range_to_lsp(rope, span))
        .map(|range| TextEdit {
            range,
            new_text: new_name.into(),
        })
        .collect()
'''))
    v('ref-rename-edits-iter', None, (RN, GRE, '''    usedefs
        .all_spans()
        .filter_map(|span| {
            let range = range_to_lsp(rope, span)?;
            Some(TextEdit::new(range, new_name.to_string()))
        })
        .collect()
'''), (I, '''    pub fn get_use_def_kind_mut(''', '''    /// All occurrences of this symbol
    pub fn all_spans(&self) -> impl Iterator<Item = &Span> {
        self.decls
            .iter()
            .chain(self.defs.iter())
            .chain(self.uses.iter())
    }

    pub fn get_use_def_kind_mut('''))
    SH = '''    index
        .get_by_symbol_kind(
            symbol_kind,
            func_body_id.and_then(|id| index.function_bodies.get(id)),
        )
        .into_iter()
        .flatten()
        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()
'''
    v('ref-shift-loop', None, (RN, SH, '''    let func_body = func_body_id.and_then(|id| index.function_bodies.get(id));
    let Some(symbols) = index.get_by_symbol_kind(symbol_kind, func_body) else {
        return Vec::new();
    };
    let mut edits = Vec::new();
    for (name, usedefs) in symbols {
        let Some((prefix, nr)) = extract_number_from_identifier(name) else {
            continue;
        };
        if nr >= renamed_nr {
            let new_nr = nr.wrapping_add(shift).unsigned_abs();
            let new_name = format!("{prefix}{new_nr}");
            edits.extend(get_rename_edits(rope, usedefs, &new_name));
        }
    }
    edits
'''))
    v('ref-shift-flatmap', None, (RN, SH, '''    let func_body = func_body_id.and_then(|id| index.function_bodies.get(id));
    let symbols = index.get_by_symbol_kind(symbol_kind, func_body);
    symbols
        .iter()
        .flat_map(|m| m.iter())
        .filter_map(|(name, usedefs)| {
            extract_number_from_identifier(name).map(|(prefix, nr)| (prefix, nr, usedefs))
        })
        .filter(|(_, nr, _)| *nr >= renamed_nr)
        .flat_map(|(prefix, nr, usedefs)| {
            let mut new_name = prefix.to_string();
            new_name.push_str(&nr.wrapping_add(shift).unsigned_abs().to_string());
            get_rename_edits(rope, usedefs, &new_name)
        })
        .collect()
'''))
    v('ref-extract-match', None, (RN, '''    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let (name, nr) = (&id[..offset], &id[offset..]);
    match nr.parse() {
        Ok(nr) => Some((name, nr)),
        Err(_) => None,
    }'''))
    v('ref-extract-trim', None, (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let name = id.trim_end_matches(|c: char| c.is_numeric());
    let nr = id[name.len()..].parse::<i64>().ok()?;
    Some((name, nr))'''))
    # ---------------------------------------------------------------- code action
    v('ref-action-letelse', None, (M, '''        if range.start != range.end {
            return Ok(None);
        }
''', '''        let position = range.start;
        if position != range.end {
            return Ok(None);
        }
'''), (M, '''            let offset = lsp_pos_to_offset(&doc.rope, &range.start)?;''', '''            let offset = lsp_pos_to_offset(&doc.rope, &position)?;'''))
    ACT = '''        // Eagerly resolve all edits, if the client doesn't support lazy resolving
        if !self.code_actions_lazy_resolve.lock().unwrap().get() {
            actions = actions
                .drain(..)
                .map(|a| self.do_code_action_resolve(a).ok().unwrap())
                .collect();
        }

        Ok(Some(
            actions
                .drain(..)
                .map(CodeActionOrCommand::CodeAction)
                .collect(),
        ))'''
    v('ref-action-single', None, (M, ACT, '''        // Eagerly resolve all edits, if the client doesn't support lazy resolving
        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
        let actions = actions
            .into_iter()
            .map(|a| {
                if lazy {
                    a
                } else {
                    self.do_code_action_resolve(a).ok().unwrap()
                }
            })
            .map(CodeActionOrCommand::CodeAction)
            .collect();
        Ok(Some(actions))'''))
    v('ref-action-loop', None, (M, ACT, '''        // Eagerly resolve all edits, if the client doesn't support lazy resolving
        let lazy = self.code_actions_lazy_resolve.lock().unwrap().get();
        let mut response = CodeActionResponse::new();
        for action in actions {
            let action = match lazy {
                true => action,
                false => self.do_code_action_resolve(action)?,
            };
            response.push(CodeActionOrCommand::CodeAction(action));
        }
        Ok(Some(response))'''))
    v('ref-action-title-fn', None, (M, '''            let title = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "Shift global variable numbering",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "Shift function numbering",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "Shift debug numbering",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "Shift basic block numbering",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "Shift variable numbering",
            }
            .to_string();
''', '''            let title = shift_action_title(symbol.symbol_kind).to_string();
'''), (M, '''#[tokio::main]''', '''fn shift_action_title(kind: hyper_ir_lsp::hir_index::SymbolKind) -> &'static str {
    use hyper_ir_lsp::hir_index::SymbolKind as Kind;
    match kind {
        Kind::GlobalVar => "Shift global variable numbering",
        Kind::Function => "Shift function numbering",
        Kind::DbgAnnotation => "Shift debug numbering",
        Kind::Label => "Shift basic block numbering",
        Kind::LocalVar => "Shift variable numbering",
    }
}

#[tokio::main]'''))
    v('ref-resolve-own', None, (M, '''    fn do_code_action_resolve(&self, action: CodeAction) -> Result<CodeAction> {''', '''    fn do_code_action_resolve(&self, mut action: CodeAction) -> Result<CodeAction> {'''), (M, '''        let mut updated_action = action.clone();
        match data {''', '''        match data {'''), (M, '''                updated_action.edit = Some''', '''                action.edit = Some'''), (M, '''        Ok(updated_action)''', '''        Ok(action)'''))
    v('ref-resolve-let', None, (M, '''        match data {
            CodeActionData::ShiftNumbering {
                uri,
                symbol_kind,
                func_body_id,
                renamed_nr,
            } => {
                let doc = self
                    .document_map
                    .get(&uri.to_string())
                    .ok_or_else(|| Error::invalid_params("Document not found"))?;
                let edits = get_shift_edits(
                    &doc.rope,
                    &doc.index,
                    symbol_kind,
                    func_body_id,
                    renamed_nr,
                    1,
                );
                updated_action.edit = Some(WorkspaceEdit {
                    changes: Some(HashMap::from([(uri, edits)])),
                    ..Default::default()
                });
            }
        };''', '''        let CodeActionData::ShiftNumbering {
            uri,
            symbol_kind,
            func_body_id,
            renamed_nr,
        } = data;
        let edits = {
            let Some(doc) = self.document_map.get(uri.as_str()) else {
                return Err(Error::invalid_params("Document not found"));
            };
            let (rope, index) = (&doc.rope, &doc.index);
            get_shift_edits(rope, index, symbol_kind, func_body_id, renamed_nr, 1)
        };
        updated_action.edit = Some(WorkspaceEdit {
            changes: Some(std::iter::once((uri, edits)).collect()),
            ..Default::default()
        });'''))
    v('ref-lazy-match', None, (M, '''            .map(|c| {
                let supports_resolve = c
                    .resolve_support
                    .map(|c| c.properties.contains(&"edit".to_string()))
                    .unwrap_or(false);
                let supports_data = c.data_support.unwrap_or(false);
                supports_resolve && supports_data
            })
            .unwrap_or(false);''', '''            .map_or(false, |c| {
                let supports_data = c.data_support == Some(true);
                let supports_resolve = match c.resolve_support {
                    Some(support) => support.properties.iter().any(|p| p == "edit"),
                    None => false,
                };
                supports_data && supports_resolve
            });'''))
    # ---------------------------------------------------------------- document symbols, folding, lenses
    GDS = '''                ud.iter().flat_map(move |f| {
                    f.1.defs.iter().filter_map(move |def| {
                        #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
                        Some(DocumentSymbol {
                            name: f.0.to_string(),
                            detail: None,
                            kind,
                            tags: None,
                            range: range_to_lsp(rope, def)?,
                            selection_range: range_to_lsp(rope, def)?,
                            deprecated: None,
                            children: None,
                        })
                    })
                })
'''
    v('ref-outline-one-range', None, (M, GDS, '''                ud.iter().flat_map(move |(name, usedefs)| {
                    usedefs.defs.iter().filter_map(move |def| {
                        let range = range_to_lsp(rope, def)?;
                        #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
                        Some(DocumentSymbol {
                            name: name.clone(),
                            detail: None,
                            kind,
                            tags: None,
                            range,
                            selection_range: range,
                            deprecated: None,
                            children: None,
                        })
                    })
                })
'''))
    FNS = '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
                #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
                Some(DocumentSymbol {
                    name: f.name.0.clone(),
                    detail: None,
                    kind: SymbolKind::FUNCTION,
                    tags: None,
                    range: range_to_lsp(&doc.rope, &f.complete_range)?,
                    selection_range: range_to_lsp(&doc.rope, &f.name.1)?,
                    deprecated: None,
                    children: None,
                    // We could add the labels as children of the functions.
                    // I decided against it, because it looks a bit too crowded.
                    // children: Some(get_def_symbols(&f.labels, &rope, SymbolKind::KEY).collect::<Vec<_>>()),
                })
            }));
'''
    v('ref-outline-loop', None, (M, FNS, '''            for f in doc.index.function_bodies.iter() {
                let (name, name_span) = &f.name;
                let ranges = (
                    range_to_lsp(&doc.rope, &f.complete_range),
                    range_to_lsp(&doc.rope, name_span),
                );
                if let (Some(range), Some(selection_range)) = ranges {
                    #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
                    symbols.push(DocumentSymbol {
                        name: name.to_string(),
                        detail: None,
                        kind: SymbolKind::FUNCTION,
                        tags: None,
                        range,
                        selection_range,
                        deprecated: None,
                        children: None,
                    });
                }
            }
'''))
    v('ref-outline-mksym', None, (M, FNS, '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
                make_symbol(&doc.rope, &f.name.0, SymbolKind::FUNCTION, &f.complete_range, &f.name.1)
            }));
'''), (M, GDS, '''                ud.iter().flat_map(move |(name, usedefs)| {
                    usedefs
                        .defs
                        .iter()
                        .filter_map(move |def| make_symbol(rope, name, kind, def, def))
                })
'''), (M, '''#[tokio::main]''', '''fn make_symbol(
    rope: &Rope,
    name: &str,
    kind: SymbolKind,
    span: &hyper_ir_lsp::hir_tokenizer::Span,
    selection_span: &hyper_ir_lsp::hir_tokenizer::Span,
) -> Option<DocumentSymbol> {
    #[allow(deprecated)] // https://github.com/rust-lang/rust/issues/102777
    Some(DocumentSymbol {
        name: name.to_string(),
        detail: None,
        kind,
        tags: None,
        range: range_to_lsp(rope, span)?,
        selection_range: range_to_lsp(rope, selection_span)?,
        deprecated: None,
        children: None,
    })
}

#[tokio::main]'''))
    v('ref-outline-chain', None, (M, '''            let mut symbols = Vec::<DocumentSymbol>::new();

''', ''), (M, '''            symbols.extend(get_def_symbols(
                &doc.index.global_vars,
                &doc.rope,
                SymbolKind::CONSTANT,
            ));
''', '''            let variables =
                get_def_symbols(&doc.index.global_vars, &doc.rope, SymbolKind::CONSTANT);
'''), (M, '''            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
                #[allow''', '''            let functions = doc.index.function_bodies.iter().filter_map(|f| {
                #[allow'''), (M, '''SymbolKind::KEY).collect::<Vec<_>>()),
                })
            }));
''', '''SymbolKind::KEY).collect::<Vec<_>>()),
                })
            });
            let symbols = variables.chain(functions).collect::<Vec<_>>();
'''))
    F1 = '''            folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
                let collapsed_text = format!("{} basic blocks", f.labels.len());
                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            }));

            folding_ranges.extend(
                doc.index
                    .function_bodies
                    .iter()
                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        Some(FoldingRange {
                            start_line: range.start.line,
                            start_character: None,
                            end_line: range.end.line,
                            end_character: None,
                            kind: None,
                            collapsed_text: Some(collapsed_text),
                        })
                    }),
            );
'''
    v('ref-fold-helper', None, (M, F1, '''            let make_range = |span: &std::ops::Range<usize>, collapsed_text: String| {
                range_to_lsp(&doc.rope, span).map(|range| FoldingRange {
                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            };
            for f in &doc.index.function_bodies {
                let text = format!("{} basic blocks", f.labels.len());
                folding_ranges.extend(make_range(&f.complete_range, text));
                for bb in &f.basic_blocks {
                    let text = format!("{} instructions", bb.instructions.len());
                    folding_ranges.extend(make_range(&bb.span, text));
                }
            }
'''))
    v('ref-fold-fn', None, (M, F1, '''            let functions = doc.index.function_bodies.iter().filter_map(|f| {
                let text = format!("{} basic blocks", f.labels.len());
                folding_range_for_span(&doc.rope, &f.complete_range, text)
            });
            folding_ranges.extend(functions);
            let blocks = doc.index.function_bodies.iter().flat_map(|f| &f.basic_blocks);
            folding_ranges.extend(blocks.filter_map(|bb| {
                let text = format!("{} instructions", bb.instructions.len());
                folding_range_for_span(&doc.rope, &bb.span, text)
            }));
'''), (M, '''#[tokio::main]''', '''fn folding_range_for_span(
    rope: &Rope,
    span: &std::ops::Range<usize>,
    collapsed_text: String,
) -> Option<FoldingRange> {
    let start = offset_to_lsp_pos(rope, span.start)?;
    let end = offset_to_lsp_pos(rope, span.end)?;
    Some(FoldingRange {
        start_line: start.line,
        end_line: end.line,
        collapsed_text: Some(collapsed_text),
        ..Default::default()
    })
}

#[tokio::main]'''))
    LENS = '''                    if let [def_range] = &f.1.defs[..] {
                        Some(CodeLens {
                            range: range_to_lsp(&doc.rope, def_range)?,
                            command: Some(Command {
                                // Potential icons: ⇆⭾⧬⌸✍✒✎🧐
                                title: "✨ Visualize Controlflow".to_string(),
                                command: "visualize-cfg".to_string(),
                                arguments: Some(vec![
                                    Value::String(uri_str.clone()),
                                    Value::String(f.0.clone()),
                                ]),
                            }),
                            data: None,
                        })
                    } else {
                        None
                    }
'''
    v('ref-lens-len', None, (M, LENS, '''                    let (name, usedefs) = f;
                    if usedefs.defs.len() != 1 {
                        return None;
                    }
                    let arguments = vec![Value::from(uri_str.as_str()), Value::from(name.as_str())];
                    let command = Command::new(
                        "✨ Visualize Controlflow".to_string(),
                        "visualize-cfg".to_string(),
                        Some(arguments),
                    );
                    Some(CodeLens {
                        range: range_to_lsp(&doc.rope, &usedefs.defs[0])?,
                        command: Some(command),
                        data: None,
                    })
'''))
    v('ref-lens-loop', None, (M, '''            let codelenses = doc
                .index
                .functions
                .iter()
                .filter_map(|f| {
                    // Only show the code lens for functions with exactly one definition
''' + LENS + '''                })
                .collect::<Vec<_>>();
''', '''            let mut codelenses = Vec::new();
            for (name, usedefs) in &doc.index.functions {
                // Only show the code lens for functions with exactly one definition
                let [def_range] = usedefs.defs.as_slice() else {
                    continue;
                };
                let Some(range) = range_to_lsp(&doc.rope, def_range) else {
                    continue;
                };
                codelenses.push(CodeLens {
                    range,
                    command: Some(Command {
                        title: "✨ Visualize Controlflow".to_string(),
                        command: "visualize-cfg".to_string(),
                        arguments: Some(vec![
                            Value::String(uri_str.clone()),
                            Value::String(name.clone()),
                        ]),
                    }),
                    data: None,
                });
            }
'''))
    # ---------------------------------------------------------------- inlay hints
    HINT1 = '''                    .flat_map(|f| {
                        f.basic_blocks.iter().filter_map(|bb| {
                            Some((bb, f.incoming_bb_branches.get(&bb.label.as_ref()?.0)?))
                        })
                    })
                    .filter_map(|(bb, incoming_refs)| {
                        let label_parts = incoming_refs
                            .iter()
                            .enumerate()
                            .filter_map(|(idx, incoming)| {
                                Some(vec![
                                    InlayHintLabelPart {
                                        value: (if idx == 0 { "incoming: " } else { ", " })
                                            .to_string(),
                                        ..Default::default()
                                    },
                                    InlayHintLabelPart {
                                        value: incoming.0.clone(),
                                        location: Some(Location {
                                            uri: uri.clone(),
                                            range: range_to_lsp(&doc.rope, &incoming.1)?,
                                        }),
                                        ..Default::default()
                                    },
                                ])
                            })
                            .flatten()
                            .collect::<Vec<_>>();
'''
    v('ref-hint-parts-loop', None, (M, HINT1, '''                    .flat_map(|f| {
                        f.basic_blocks.iter().filter_map(|bb| {
                            let (label, _) = bb.label.as_ref()?;
                            let incoming_refs = f.incoming_bb_branches.get(label)?;
                            Some((bb, incoming_refs))
                        })
                    })
                    .filter_map(|(bb, incoming_refs)| {
                        let mut label_parts = Vec::new();
                        for (idx, (name, span)) in incoming_refs.iter().enumerate() {
                            let Some(range) = range_to_lsp(&doc.rope, span) else {
                                continue;
                            };
                            label_parts.push(InlayHintLabelPart {
                                value: if idx == 0 { "incoming: " } else { ", " }.to_string(),
                                ..Default::default()
                            });
                            label_parts.push(InlayHintLabelPart {
                                value: name.clone(),
                                location: Some(Location::new(uri.clone(), range)),
                                ..Default::default()
                            });
                        }
'''))
    END = '''            inlay_hints.extend(doc.index.function_bodies.iter().filter_map(|f| {
                Some(InlayHint {
                    position: offset_to_lsp_pos(&doc.rope, f.complete_range.end)?,
                    label: InlayHintLabel::LabelParts(vec![InlayHintLabelPart {
                        value: f.name.0.clone(),
                        location: Some(Location {
                            uri: uri.clone(),
                            range: range_to_lsp(&doc.rope, &f.name.1)?,
                        }),
                        ..Default::default()
                    }]),
                    kind: None,
                    text_edits: None,
                    tooltip: None,
                    padding_left: Some(true),
                    padding_right: Some(true),
                    data: None,
                })
            }));
'''
    v('ref-hint-end-loop', None, (M, END, '''            for f in &doc.index.function_bodies {
                let Some(position) = offset_to_lsp_pos(&doc.rope, f.complete_range.end) else {
                    continue;
                };
                let Some(range) = range_to_lsp(&doc.rope, &f.name.1) else {
                    continue;
                };
                let part = InlayHintLabelPart {
                    value: f.name.0.clone(),
                    location: Some(Location::new(uri.clone(), range)),
                    ..Default::default()
                };
                inlay_hints.push(InlayHint {
                    position,
                    label: InlayHintLabel::LabelParts(vec![part]),
                    kind: None,
                    text_edits: None,
                    tooltip: None,
                    padding_left: Some(true),
                    padding_right: Some(true),
                    data: None,
                });
            }
'''))
    v('ref-hint-end-first', None, (M, '''            // Insert back references for each basic block''', END + '''            // Insert back references for each basic block'''), (M, '''            // Insert hints at the end of a function body which point back to the beginning
            // of the function definition
''' + END, ''))
    BTH = '''            inlay_hints.extend(
                doc.stmts
                    .iter()
                    .filter_map(|s| match s {
                        Statement::FuncDef { body, .. } => {
                            Some::<&Vec<BasicBlock>>(body.basic_blocks.as_ref())
                        }
                        _ => None,
                    })
                    .flatten()
                    .flat_map(|bb| -> &Vec<Instruction> { bb.instructions.as_ref() })
                    .filter_map(|stmt| {
                        let dbg_ref = stmt.dbg_ref.as_ref()?;
                        let json_txt = doc.index.dgb_annotation_values.get(&dbg_ref.0)?;
                        let json_val = serde_json::from_str::<serde_json::Value>(json_txt).ok()?;
                        let root_paths: std::sync::MutexGuard<'_, Vec<Url>> =
                            self.root_paths.lock().unwrap();
                        let frames = parse_backtrace_from_json(&root_paths, json_val)?;
                        Some(inlay_hint_for_backtrace(
                            offset_to_lsp_pos(&doc.rope, dbg_ref.1.end)?,
                            &frames,
                        ))
                    }),
            );
'''
    v('ref-hint-bt-loops', None, (M, BTH, '''            let root_paths = self.root_paths.lock().unwrap();
            for s in &doc.stmts {
                let Statement::FuncDef { body, .. } = s else {
                    continue;
                };
                for bb in &body.basic_blocks {
                    for instr in &bb.instructions {
                        if let Some((name, span)) = &instr.dbg_ref {
                            let hint = || -> Option<InlayHint> {
                                let json_txt = doc.index.dgb_annotation_values.get(name)?;
                                let json_val: serde_json::Value =
                                    serde_json::from_str(json_txt).ok()?;
                                let frames = parse_backtrace_from_json(&root_paths, json_val)?;
                                let pos = offset_to_lsp_pos(&doc.rope, span.end)?;
                                Some(inlay_hint_for_backtrace(pos, &frames))
                            };
                            inlay_hints.extend(hint());
                        }
                    }
                }
            }
'''), (M, 'use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};', 'use hyper_ir_lsp::hir_parser::{parse_from_str, ParserResult, Statement};'))
    v('ref-hint-bt-helper', None, (M, BTH, '''            inlay_hints.extend(
                doc.stmts
                    .iter()
                    .filter_map(|s| match s {
                        Statement::FuncDef { body, .. } => Some(&body.basic_blocks),
                        _ => None,
                    })
                    .flatten()
                    .flat_map(|bb| &bb.instructions)
                    .filter_map(|instr| self.backtrace_hint(&doc, instr)),
            );
'''), (M, '''    fn do_code_action_resolve(''', '''    fn backtrace_hint(&self, doc: &AnalyzedDocument, instr: &Instruction) -> Option<InlayHint> {
        let (name, span) = instr.dbg_ref.as_ref()?;
        let json_txt = doc.index.dgb_annotation_values.get(name)?;
        let json_val = serde_json::from_str(json_txt).ok()?;
        let frames = parse_backtrace_from_json(&self.root_paths.lock().unwrap(), json_val)?;
        let position = offset_to_lsp_pos(&doc.rope, span.end)?;
        Some(inlay_hint_for_backtrace(position, &frames))
    }

    fn do_code_action_resolve('''), (M, 'use hyper_ir_lsp::hir_parser::{parse_from_str, BasicBlock, Instruction, ParserResult, Statement};', 'use hyper_ir_lsp::hir_parser::{parse_from_str, Instruction, ParserResult, Statement};'))
    # ---------------------------------------------------------------- execute command, on_change, handlers
    v('ref-exec-find-loop', None, (M, '''                let func_body = doc
                    .index
                    .function_bodies
                    .iter()
                    .find(|b| b.name.0 == *func_name)
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("function `{}` not found", func_name).into(),
                        data: None,
                    })?;
''', '''                let mut bodies = doc.index.function_bodies.iter();
                let Some(func_body) = bodies.find(|FunctionBody { name, .. }| &name.0 == func_name)
                else {
                    return Err(Error::invalid_params(format!("function `{}` not found", func_name)));
                };
'''), (M, 'use hyper_ir_lsp::hir_index::{create_index, HIRIndex,', 'use hyper_ir_lsp::hir_index::{create_index, FunctionBody, HIRIndex,'))
    v('ref-exec-fn', None, (M, '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
                    .index
                    .function_bodies
                    .iter()
                    .find(|b| b.name.0 == *func_name)
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("function `{}` not found", func_name).into(),
                        data: None,
                    })?;

                let title = format!("CFG for {}", func_name);
                let dot_graph = create_cfg_dot_visualization(func_body);
                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);

                // Make this dependent on a client setting / client capability
                // since it reuqires additional client-siye collabolation
                self.client
                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
''', '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let graph = self.render_cfg(doc_uri, func_name)?;
                // Make this dependent on a client setting / client capability
                // since it reuqires additional client-siye collabolation
                self.client
                    .send_request::<ShowGraph>(graph)
'''), (M, '''    fn do_code_action_resolve(''', '''    fn render_cfg(&self, doc_uri: &str, func_name: &str) -> Result<ShowGraphParams> {
        let doc = self
            .document_map
            .get(doc_uri)
            .ok_or_else(|| Error::invalid_params(format!("document `{}` not found", doc_uri)))?;
        for body in &doc.index.function_bodies {
            if body.name.0 == func_name {
                return Ok(ShowGraphParams {
                    title: format!("CFG for {}", func_name),
                    dot_graph: create_cfg_dot_visualization(body),
                });
            }
        }
        Err(Error::invalid_params(format!(
            "function `{}` not found",
            func_name
        )))
    }

    fn do_code_action_resolve('''))
    v('ref-exec-if', None, (M, '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc''', '''        let ExecuteCommandParams {
            command, arguments, ..
        } = &params;
        match (command.as_str(), arguments.as_slice()) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc'''))
    OC = '''        let rope = ropey::Rope::from_str(&params.text);
        let src = rope.to_string();

        let ParserResult {
            tokens,
            stmts,
            errors,
        } = parse_from_str(&src);
        let semantic_tokens = semantic_tokens_from_tokens(&tokens);
        let index = create_index(&src, &tokens, &stmts);

        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));

        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
'''
    v('ref-change-chain', None, (M, OC, '''        let rope = Rope::from_str(&params.text);
        let result = parse_from_str(&params.text);
        let index = create_index(&params.text, &result.tokens, &result.stmts);
        let diagnostics = diagnostics_from_parser(&rope, &result.errors)
            .chain(diagnostics_from_statements(&rope, &result.stmts))
            .chain(diagnostics_from_index(&rope, &params.uri, &index))
            .collect::<Vec<_>>();
        let doc = AnalyzedDocument {
            semantic_tokens: semantic_tokens_from_tokens(&result.tokens),
            rope,
            stmts: result.stmts,
            index,
        };
        let key = params.uri.to_string();
        self.document_map.insert(key, doc);
'''))
    v('ref-change-analyze', None, (M, OC, '''        let (doc, errors) = AnalyzedDocument::new(&params.text);
        let mut diagnostics: Vec<Diagnostic> =
            diagnostics_from_parser(&doc.rope, &errors).collect();
        diagnostics.extend(diagnostics_from_statements(&doc.rope, &doc.stmts));
        diagnostics.extend(diagnostics_from_index(&doc.rope, &params.uri, &doc.index));
        self.document_map.insert(params.uri.to_string(), doc);
'''), (M, '''#[derive(Debug)]
struct Backend {''', '''impl AnalyzedDocument {
    fn new(text: &str) -> (Self, Vec<chumsky::prelude::Simple<String>>) {
        let ParserResult {
            tokens,
            stmts,
            errors,
        } = parse_from_str(text);
        let index = create_index(text, &tokens, &stmts);
        let doc = AnalyzedDocument {
            rope: Rope::from_str(text),
            semantic_tokens: semantic_tokens_from_tokens(&tokens),
            stmts,
            index,
        };
        (doc, errors)
    }
}

#[derive(Debug)]
struct Backend {'''))
    v('ref-change-diag-fn', None, (M, '''        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));
''', '''        let mut diagnostics = Vec::<Diagnostic>::new();
        for d in diagnostics_from_index(&rope, &params.uri, &index) {
            diagnostics.push(d);
        }
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
'''))
    v('ref-didchange-last', None, (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };
        self.on_change(TextDocumentItem {
            uri: params.text_document.uri,
            text: change.text,
            version: params.text_document.version,
        })
        .await''', '''        if let Some(change) = params.content_changes.into_iter().last() {
            let VersionedTextDocumentIdentifier { uri, version } = params.text_document;
            let text = change.text;
            self.on_change(TextDocumentItem { uri, text, version }).await;
        }'''), (M, 'async fn did_change(&self, mut params', 'async fn did_change(&self, params'))
    v('ref-didopen-args', None, (M, '''        self.on_change(TextDocumentItem {
            uri: params.text_document.uri,
            text: params.text_document.text,
            version: params.text_document.version,
        })
        .await
    }

    async fn did_change''', '''        let doc = params.text_document;
        let item = TextDocumentItem {
            uri: doc.uri,
            text: doc.text,
            version: doc.version,
        };
        self.on_change(item).await;
    }

    async fn did_change'''))
    v('ref-semtok-handler', None, (M, '''        let lsp_tokens = || -> Option<Vec<SemanticToken>> {
            let doc = self.document_map.get(&uri)?;
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
        if let Some(semantic_token) = lsp_tokens {
            return Ok(Some(SemanticTokensResult::Tokens(SemanticTokens {
                result_id: None,
                data: semantic_token,
            })));
        }
        Ok(None)''', '''        Ok(self.document_map.get(&uri).map(|doc| {
            let data = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            SemanticTokens {
                result_id: None,
                data,
            }
            .into()
        }))'''))
    v('ref-with-doc', None, (M, '''        let codelenses = || -> Option<Vec<CodeLens>> {
            let uri = &params.text_document.uri;
            let uri_str = uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
''', '''        let uri_str = params.text_document.uri.to_string();
        let codelenses = self.with_document(&uri_str, |doc| {
'''), (M, '''            Some(codelenses)
        }();
        return Ok(codelenses);''', '''            codelenses
        });
        Ok(codelenses)'''), (M, '''    fn do_code_action_resolve(''', '''    fn with_document<T>(&self, uri: &str, f: impl FnOnce(&AnalyzedDocument) -> T) -> Option<T> {
        let doc = self.document_map.get(uri)?;
        Some(f(&doc))
    }

    fn do_code_action_resolve('''))
    v('ref-get-doc', None, (M, '''            let uri_str = pos.text_document.uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let range''', '''            let doc = self.get_document(&pos.text_document.uri)?;
            let offset = lsp_pos_to_offset(&doc.rope, &pos.position)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let range'''), (M, '''            let uri = &params.text_document.uri;
            let uri_str = uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let mut folding_ranges''', '''            let doc = self.get_document(&params.text_document.uri)?;
            let mut folding_ranges'''), (M, '''    fn do_code_action_resolve(''', '''    fn get_document(
        &self,
        uri: &Url,
    ) -> Option<dashmap::mapref::one::Ref<'_, String, AnalyzedDocument>> {
        self.document_map.get(uri.as_str())
    }

    fn do_code_action_resolve('''))
    # ---------------------------------------------------------------- diagnostics
    DP = '''        let (message, span) = match item.reason() {
            chumsky::error::SimpleReason::Unclosed { span, delimiter } => {
                (format!("Unclosed delimiter {}", delimiter), span.clone())
            }
            chumsky::error::SimpleReason::Unexpected => (
                format!(
                    "{}, expected {}",
                    if item.found().is_some() {
                        "Unexpected token in input"
                    } else {
                        "Unexpected end of input"
                    },
                    if item.expected().len() == 0 {
                        "something else".to_string()
                    } else {
                        item.expected()
                            .map(|expected| match expected {
                                Some(expected) => expected.to_string(),
                                None => "end of input".to_string(),
                            })
                            .collect::<Vec<_>>()
                            .join(", ")
                    }
                ),
                item.span(),
            ),
            chumsky::error::SimpleReason::Custom(msg) => (msg.to_string(), item.span()),
        };

        || -> Option<Diagnostic> {
            Some(Diagnostic::new_simple(range_to_lsp(rope, &span)?, message))
        }()
'''
    v('ref-diag-parser-helper', None, (D, DP, '''        let (message, span) = match item.reason() {
            SimpleReason::Unclosed { span, delimiter } => {
                (format!("Unclosed delimiter {}", delimiter), span.clone())
            }
            SimpleReason::Unexpected => (unexpected_message(item), item.span()),
            SimpleReason::Custom(msg) => (msg.clone(), item.span()),
        };
        let range = range_to_lsp(rope, &span)?;
        Some(Diagnostic::new_simple(range, message))
'''), (D, '''use chumsky::prelude::Simple;''', '''use chumsky::error::SimpleReason;
use chumsky::prelude::Simple;'''), (D, '''pub fn diagnostics_from_parser''', '''fn unexpected_message(item: &Simple<String>) -> String {
    let what = match item.found() {
        Some(_) => "Unexpected token in input",
        None => "Unexpected end of input",
    };
    let expected = item
        .expected()
        .map(|expected| match expected {
            Some(expected) => expected.clone(),
            None => "end of input".to_string(),
        })
        .collect::<Vec<_>>();
    if expected.is_empty() {
        format!("{}, expected something else", what)
    } else {
        format!("{}, expected {}", what, expected.join(", "))
    }
}

pub fn diagnostics_from_parser'''))
    DI = '''    all_use_defs
        .filter_map(move |(name, ud)| {
            // Diagnose all symbols which are used but not defined / declared
            if ud.decls.is_empty() && ud.defs.is_empty() {
                let diags = ud
                    .uses
                    .iter()
                    .filter_map(move |use_| {
                        let message = format!("Use of undefined symbol `{}`", name);
                        Some(Diagnostic::new_simple(range_to_lsp(rope, use_)?, message))
                    })
                    .collect::<Vec<_>>();
                Some(diags)
            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {
                        let message = format!("Symbol `{}` already defined previously", name);
                        let related_information = Some(vec![DiagnosticRelatedInformation {
                            location: Location {
                                uri: uri.clone(),
                                range: range_to_lsp(rope, &ud.defs[0])?,
                            },
                            message: "Previously defined here".to_string(),
                        }]);
                        Some(Diagnostic {
                            range: range_to_lsp(rope, use_)?,
                            message,
                            severity: None,
                            code: None,
                            code_description: None,
                            source: None,
                            related_information,
                            tags: None,
                            data: None,
                        })
                    })
                    .collect::<Vec<_>>();
                Some(diags)
            } else {
                None
            }
        })
        .flatten()
'''
    v('ref-diag-index-loop', None, (D, DI, '''    let mut diagnostics = Vec::new();
    for (name, ud) in all_use_defs {
        // Diagnose all symbols which are used but not defined / declared
        if ud.decls.is_empty() && ud.defs.is_empty() {
            for use_ in &ud.uses {
                if let Some(range) = range_to_lsp(rope, use_) {
                    let message = format!("Use of undefined symbol `{}`", name);
                    diagnostics.push(Diagnostic::new_simple(range, message));
                }
            }
        }
        // Diagnose all but the first definition
        let Some((first, others)) = ud.defs.split_first() else {
            continue;
        };
        for def in others {
            let (Some(range), Some(first_range)) =
                (range_to_lsp(rope, def), range_to_lsp(rope, first))
            else {
                continue;
            };
            diagnostics.push(Diagnostic {
                range,
                message: format!("Symbol `{}` already defined previously", name),
                related_information: Some(vec![DiagnosticRelatedInformation {
                    location: Location::new(uri.clone(), first_range),
                    message: "Previously defined here".to_string(),
                }]),
                ..Default::default()
            });
        }
    }
    diagnostics.into_iter()
'''))
    v('ref-diag-index-fns', None, (D, DI, '''    all_use_defs.flat_map(move |(name, ud)| {
        if ud.decls.is_empty() && ud.defs.is_empty() {
            undefined_uses(rope, name, ud)
        } else {
            redefinitions(rope, uri, name, ud)
        }
    })
'''), (D, '''pub fn diagnostics_from_index''', '''fn undefined_uses(rope: &Rope, name: &str, ud: &UseDefList) -> Vec<Diagnostic> {
    let message = format!("Use of undefined symbol `{}`", name);
    ud.uses
        .iter()
        .filter_map(|span| range_to_lsp(rope, span))
        .map(|range| Diagnostic::new_simple(range, message.clone()))
        .collect()
}

fn redefinitions(rope: &Rope, uri: &Url, name: &str, ud: &UseDefList) -> Vec<Diagnostic> {
    let mut res = vec![];
    for i in 1..ud.defs.len() {
        let first = range_to_lsp(rope, &ud.defs[0]);
        let this = range_to_lsp(rope, &ud.defs[i]);
        if let (Some(first), Some(this)) = (first, this) {
            let related = DiagnosticRelatedInformation {
                location: Location {
                    uri: uri.clone(),
                    range: first,
                },
                message: "Previously defined here".to_string(),
            };
            res.push(Diagnostic {
                range: this,
                message: format!("Symbol `{}` already defined previously", name),
                related_information: Some(vec![related]),
                ..Diagnostic::default()
            });
        }
    }
    res
}

pub fn diagnostics_from_index'''), (D, '    hir_index::HIRIndex,', '    hir_index::{HIRIndex, UseDefList},'))
    DS = '''    stmts
        .iter()
        .filter_map(move |s| match s {
            Statement::FuncDef {
                body: FuncBody { basic_blocks, .. },
                ..
            } => Some(basic_blocks.iter()),
            _ => None,
        })
        .flatten()
        .flat_map(move |bb| bb.instructions.iter())
        .filter_map(move |i| {
            let inst_name = &i.instruction.0;
            if (i.is_branching() || inst_name == "phi") && i.basic_block_refs.is_empty() {
                let message = format!(
                    "Failed to extract basic block references from `{}` instruction",
                    inst_name
                );
                Some(Diagnostic::new_simple(
                    range_to_lsp(rope, &i.instruction.1)?,
                    message,
                ))
            } else {
                None
            }
        })
'''
    v('ref-diag-stmts-loop', None, (D, DS, '''    let mut diagnostics = Vec::new();
    for s in stmts {
        let Statement::FuncDef { body, .. } = s else {
            continue;
        };
        for i in body.basic_blocks.iter().flat_map(|bb| &bb.instructions) {
            let (inst_name, span) = &i.instruction;
            let expects_refs = i.is_branching() || inst_name == "phi";
            if !expects_refs || !i.basic_block_refs.is_empty() {
                continue;
            }
            let message = format!(
                "Failed to extract basic block references from `{}` instruction",
                inst_name
            );
            diagnostics.extend(range_to_lsp(rope, span).map(|r| Diagnostic::new_simple(r, message)));
        }
    }
    diagnostics.into_iter()
'''), (D, '    hir_parser::{FuncBody, Statement},', '    hir_parser::Statement,'))
    v('ref-diag-stmts-filter', None, (D, DS, '''    stmts
        .iter()
        .flat_map(|s| match s {
            Statement::FuncDef { body, .. } => body.basic_blocks.as_slice(),
            _ => &[],
        })
        .flat_map(|bb| &bb.instructions)
        .filter(|i| i.is_branching() || i.instruction.0 == "phi")
        .filter(|i| i.basic_block_refs.is_empty())
        .filter_map(move |i| {
            let (inst_name, span) = &i.instruction;
            let message = format!(
                "Failed to extract basic block references from `{}` instruction",
                inst_name
            );
            Some(Diagnostic::new_simple(range_to_lsp(rope, span)?, message))
        })
'''), (D, '    hir_parser::{FuncBody, Statement},', '    hir_parser::Statement,'))
    v('ref-diag-usedefs', None, (D, '''        .chain(index.function_bodies.iter().flat_map(|fb| fb.labels.iter()))
        .chain(
            index
                .function_bodies
                .iter()
                .flat_map(|fb| fb.local_vars.iter()),
        );''', '''        .chain(
            index
                .function_bodies
                .iter()
                .flat_map(|fb| fb.labels.iter().chain(&fb.local_vars)),
        );'''))
    v('ref-diag-usedefs-method', None, (D, '''    let all_use_defs = index
        .global_vars
        .iter()
        .chain(index.functions.iter())
        .chain(index.dgb_annotations.iter())
        .chain(index.function_bodies.iter().flat_map(|fb| fb.labels.iter()))
        .chain(
            index
                .function_bodies
                .iter()
                .flat_map(|fb| fb.local_vars.iter()),
        );
''', '''    let global_use_defs = [
        &index.global_vars,
        &index.functions,
        &index.dgb_annotations,
    ];
    let local_use_defs = index
        .function_bodies
        .iter()
        .flat_map(|fb| [&fb.labels, &fb.local_vars]);
    let all_use_defs = global_use_defs.into_iter().chain(local_use_defs).flatten();
'''))
    # ---------------------------------------------------------------- lsp_utils
    v('ref-pos-range-new', None, (L, '''    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })''', '''    let start = offset_to_lsp_pos(rope, span.start)?;
    let end = offset_to_lsp_pos(rope, span.end)?;
    Some(Range::new(start, end))'''))
    v('ref-pos-zip', None, (L, '''    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })''', '''    let [start, end] = [span.start, span.end].map(|offset| offset_to_lsp_pos(rope, offset));
    start.zip(end).map(|(start, end)| Range { start, end })'''))
    v('ref-pos-helper', None, (L, '''    let character =
        rope.try_char_to_utf16_cu(char).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
    Some(Position {
        line: line.try_into().ok()?,
        character: character.try_into().ok()?,
    })''', '''    let to_utf16 = |idx: usize| rope.try_char_to_utf16_cu(idx).ok();
    let character = to_utf16(char)? - to_utf16(first)?;
    let (line, character) = (u32::try_from(line).ok()?, u32::try_from(character).ok()?);
    Some(Position::new(line, character))'''))
    v('ref-pos-slice', None, (L, '''    let first = rope.try_line_to_char(line).ok()?;
    let char = rope.try_byte_to_char(pos).ok()?;
    let character =
        rope.try_char_to_utf16_cu(char).ok()? - rope.try_char_to_utf16_cu(first).ok()?;
''', '''    let line_start = rope.try_line_to_byte(line).ok()?;
    let character = rope.get_byte_slice(line_start..pos)?.len_utf16_cu();
'''))
    v('ref-pos-offset-loop', None, (L, '''    let line_len: usize = line
        .chars()
        .take_while(|c| !matches!(c, '\\n' | '\\r'))
        .map(char::len_utf16)
        .sum();
''', '''    let mut line_len = 0;
    for c in line.chars() {
        if c == '\\n' || c == '\\r' {
            break;
        }
        line_len += c.len_utf16();
    }
'''))
    v('ref-pos-offset-min', None, (L, '''    let character = line_len.min(pos.character as usize);''', '''    let character = if (pos.character as usize) > line_len {
        line_len
    } else {
        pos.character as usize
    };'''))
    v('ref-pos-destructure', None, (L, '''    let line = rope.get_line(pos.line as usize)?;
    let line_len''', '''    let Position { line: line_nr, .. } = *pos;
    let line = rope.get_line(line_nr as usize)?;
    let line_len'''))
    # ---------------------------------------------------------------- backtrace
    v('ref-bt-find-map', None, (B, '''    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }

''', '''    let preferred = symbol_preferences
        .iter()
        .find_map(|pref| frames.iter().position(|f| f.symbol.contains(pref)));
    if preferred.is_some() {
        return preferred;
    }

'''))
    v('ref-bt-const', None, (B, '''    let symbol_preferences = [
        "Translator::consume",
        "Translator::produceMaterializedResult",
        "Translator::drivePipeline",
        "Translator::deriveValue",
        "Translator::",
    ];
    for pref in symbol_preferences {''', '''    for pref in SYMBOL_PREFERENCES {'''), (B, '''pub fn identify_relevant_frames''', '''const SYMBOL_PREFERENCES: [&str; 5] = [
    "Translator::consume",
    "Translator::produceMaterializedResult",
    "Translator::drivePipeline",
    "Translator::deriveValue",
    "Translator::",
];

pub fn identify_relevant_frames'''))
    v('ref-bt-internal-fn', None, (B, '''    frames.iter().position(|f| match &f.filepath {
        Some(fp) => !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"),
        None => false,
    })''', '''    let is_internal = |fp: &str| fp.contains("hyper/ir/") || fp.contains("hyper/codegen");
    frames
        .iter()
        .position(|f| f.filepath.as_deref().map_or(false, |fp| !is_internal(fp)))'''))
    v('ref-bt-md-early', None, (B, '''    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {''', '''    let symbol = sanitize_markdown_code(&frame.symbol);
    let Some(fp) = &frame.filepath else {
        return format!("`{}`", symbol);
    };
    {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {'''), (B, '''    } else {
        format!("`{}`", sanitize_markdown_code(&frame.symbol))
    }
}''', '''    }
}'''))
    v('ref-bt-shorten-max', None, (B, '''    let separator_pos = max(path.rfind('/'), path.rfind('\\\\'));
    path.split_at(separator_pos.map(|p| p + 1).unwrap_or(0)).1''', '''    match max(path.rfind('/'), path.rfind('\\\\')) {
        Some(pos) => &path[pos + 1..],
        None => path,
    }'''))
    v('ref-bt-md-join', None, (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let mut lines = Vec::with_capacity(frames.len());
    for frame in frames {
        lines.push(format!("* {}", format_frame_as_md(frame)));
    }
    lines.join("\\n")'''))
    # ---------------------------------------------------------------- semantic tokens
    v('ref-sem-type-fn', None, (ST, '''    tokens
        .iter()
        .filter_map(|(token, span)| match token {
            Token::Newline => None,
            Token::Comment => Some(create_semantic_token(span, &SemanticTokenType::COMMENT)),
            Token::Num(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::Str(_) => Some(create_semantic_token(span, &SemanticTokenType::STRING)),
            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::GlobalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::Ident(_) => None,
            Token::DebugRef(_) => None,
            Token::Type(_) => Some(create_semantic_token(span, &SemanticTokenType::TYPE)),
            Token::Punctuation(_) => None,
            Token::Declare => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::Define => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::FuncModifier(_) => {
                Some(create_semantic_token(span, &SemanticTokenType::MODIFIER))
            }
        })
        .collect::<Vec<_>>()
''', '''    let mut semantic_tokens = Vec::with_capacity(tokens.len());
    for (token, span) in tokens {
        if let Some(ttype) = semantic_type_of(token) {
            semantic_tokens.push(create_semantic_token(span, &ttype));
        }
    }
    semantic_tokens
'''), (ST, '''/// Creates semantic tokens from''', '''fn semantic_type_of(token: &Token) -> Option<SemanticTokenType> {
    let ttype = match token {
        Token::Comment => SemanticTokenType::COMMENT,
        Token::Num(_) | Token::HexNum(_) => SemanticTokenType::NUMBER,
        Token::Str(_) => SemanticTokenType::STRING,
        Token::LocalName(_) | Token::GlobalName(_) => SemanticTokenType::VARIABLE,
        Token::Type(_) => SemanticTokenType::TYPE,
        Token::Declare | Token::Define => SemanticTokenType::KEYWORD,
        Token::FuncModifier(_) => SemanticTokenType::MODIFIER,
        Token::Newline | Token::Ident(_) | Token::DebugRef(_) | Token::Punctuation(_) => {
            return None
        }
    };
    Some(ttype)
}

/// Creates semantic tokens from'''))
