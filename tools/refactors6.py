"""More edits which keep the behaviour, in idioms not used by the others (see refactors.py)."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in ('main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs', 'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    v('r6-macro-doc', None, (M, '#[tokio::main]', '''macro_rules! document {
    ($self:ident, $uri:expr) => {
        $self.document_map.get(&$uri.to_string())
    };
}
pub(crate) use document;

#[tokio::main]''') if False else (M, '''#[derive(Debug)]
struct AnalyzedDocument {''', '''macro_rules! document {
    ($server:expr, $uri:expr) => {
        $server.document_map.get(&$uri.to_string())
    };
}

#[derive(Debug)]
struct AnalyzedDocument {'''), (M, '''            let uri_str = pos.text_document.uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let offset''', '''            let doc = document!(self, pos.text_document.uri)?;
            let offset'''), (M, '''        let uri_str = pos.text_document.uri.to_string();
        let doc = self.document_map.get(&uri_str)?;

        // Lookup''', '''        let doc = document!(self, pos.text_document.uri)?;

        // Lookup'''), (M, '''            let uri_str = uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let mut folding_ranges''', '''            let doc = document!(self, uri)?;
            let mut folding_ranges'''))
    v('r6-ext-trait', None, (L, '''pub fn range_to_lsp(''', '''pub trait RopeExt {
    fn lsp_range(&self, span: &Span) -> Option<Range>;
}

impl RopeExt for Rope {
    fn lsp_range(&self, span: &Span) -> Option<Range> {
        range_to_lsp(self, span)
    }
}

pub fn range_to_lsp('''), (RN, '''range: range_to_lsp(rope, range)?,''', '''range: rope.lsp_range(range)?,'''), (RN, '''lsp_utils::range_to_lsp,''', '''lsp_utils::RopeExt,'''),
      (M, '''let origin_selection_range = range_to_lsp(&doc.rope, &symbol.span)?;''', '''let origin_selection_range = doc.rope.lsp_range(&symbol.span)?;'''), (M, '''use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp};''', '''use hyper_ir_lsp::lsp_utils::{lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp, RopeExt};'''))
    v('r6-ext-trait-body', None, (L, '''pub fn range_to_lsp(rope: &Rope, span: &Span) -> Option<Range> {
    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })
}''', '''pub trait RopeExt {
    fn lsp_position(&self, offset: usize) -> Option<Position>;

    fn lsp_range(&self, span: &Span) -> Option<Range> {
        let (start, end) = self.lsp_position(span.start).zip(self.lsp_position(span.end))?;
        Some(Range::new(start, end))
    }
}

impl RopeExt for Rope {
    fn lsp_position(&self, offset: usize) -> Option<Position> {
        offset_to_lsp_pos(self, offset)
    }
}

pub fn range_to_lsp(rope: &Rope, span: &Span) -> Option<Range> {
    rope.lsp_range(span)
}'''))
    v('r6-index-loop', None, (S, '''    let lsp_tokens = semtoks
        .iter()
        .filter_map(|token| {''', '''    let mut convert = |token: &HIRSemanticToken| -> Option<SemanticToken> {'''), (S, '''            pre_line = line;
            pre_start = start;
            ret
        })
        .collect::<Vec<_>>();
    lsp_tokens''', '''            pre_line = line;
            pre_start = start;
            ret
    };
    let mut lsp_tokens = Vec::with_capacity(semtoks.len());
    for i in 0..semtoks.len() {
        if let Some(t) = convert(&semtoks[i]) {
            lsp_tokens.push(t);
        }
    }
    lsp_tokens'''))
    v('r6-scan', None, (S, '''    let mut pre_line = 0;
    let mut pre_start = 0;
    let lsp_tokens = semtoks
        .iter()
        .filter_map(|token| {
            let pos = offset_to_lsp_pos(rope, token.start)?;
            let line = pos.line;
            let start = pos.character;''', '''    let mut prev = tower_lsp::lsp_types::Position::default();
    let lsp_tokens = semtoks
        .iter()
        .filter_map(|token| {
            let pos = offset_to_lsp_pos(rope, token.start)?;
            let tower_lsp::lsp_types::Position { line, character: start } = pos;'''), (S, '''            let delta_line = line - pre_line;
            let delta_start = if delta_line == 0 {
                start - pre_start
            } else {
                start
            };''', '''            let delta_line = line - prev.line;
            let delta_start = match delta_line {
                0 => start - prev.character,
                _ => start,
            };'''), (S, '''            pre_line = line;
            pre_start = start;
''', '''            prev = pos;
'''))
    v('r6-legend-fn', None, (S, '''pub fn create_semantic_token(''', '''fn legend_index(ttype: &SemanticTokenType) -> usize {
    LEGEND_TYPE
        .iter()
        .enumerate()
        .find(|(_, item)| *item == ttype)
        .map(|(i, _)| i)
        .unwrap()
}

pub fn create_semantic_token('''), (S, '''LEGEND_TYPE.iter().position(|item| item == ttype).unwrap()''', '''legend_index(ttype)'''))
    v('r6-sem-classify', None, (S, '''    tokens
        .iter()
        .filter_map(|(token, span)| match token {
            Token::Newline => None,
            Token::Comment => Some(create_semantic_token(span, &SemanticTokenType::COMMENT)),
            Token::Num(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::Str(_) => Some(create_semantic_token(span, &SemanticTokenType::STRING)),
            Token::LocalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::GlobalName(_) => Some(create_semantic_token(span, &SemanticTokenType::VARIABLE)),
            Token::Ident(_) => None,
            Token::DebugRef(_) => None,
            Token::Type(_) => Some(create_semantic_token(span, &SemanticTokenType::TYPE)),
            Token::Punctuation(_) => None,
            Token::Declare => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::Define => Some(create_semantic_token(span, &SemanticTokenType::KEYWORD)),
            Token::FuncModifier(_) => {
                Some(create_semantic_token(span, &SemanticTokenType::MODIFIER))
            }
        })
        .collect::<Vec<_>>()''', '''    let mut result = vec![];
    'tokens: for (token, span) in tokens {
        let ttype = match token {
            Token::Newline | Token::Ident(_) | Token::DebugRef(_) | Token::Punctuation(_) => {
                continue 'tokens
            }
            Token::Comment => SemanticTokenType::COMMENT,
            Token::Num(_) | Token::HexNum(_) => SemanticTokenType::NUMBER,
            Token::Str(_) => SemanticTokenType::STRING,
            Token::LocalName(_) | Token::GlobalName(_) => SemanticTokenType::VARIABLE,
            Token::Type(_) => SemanticTokenType::TYPE,
            Token::Declare | Token::Define => SemanticTokenType::KEYWORD,
            Token::FuncModifier(_) => SemanticTokenType::MODIFIER,
        };
        result.push(create_semantic_token(span, &ttype));
    }
    result'''))
    v('r6-edits-once', None, (M, '''            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),''', '''            changes: Some(std::iter::once((pos.text_document.uri, edits)).collect()),'''))
    v('r6-edits-insert', None, (M, '''        let edit = WorkspaceEdit {
            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),
            ..Default::default()
        };
        Ok(Some(edit))''', '''        let mut changes = HashMap::new();
        changes.insert(pos.text_document.uri, edits);
        Ok(Some(WorkspaceEdit::new(changes)))'''))
    v('r6-edits-helper', None, (M, '''            changes: Some(HashMap::from([(pos.text_document.uri, edits)])),
            ..Default::default()
        };
        Ok(Some(edit))''', '''            ..single_document_edit(pos.text_document.uri, edits)
        };
        Ok(Some(edit))'''), (M, '''                updated_action.edit = Some(WorkspaceEdit {
                    changes: Some(HashMap::from([(uri, edits)])),
                    ..Default::default()
                });''', '''                updated_action.edit = Some(single_document_edit(uri, edits));'''), (M, '''#[tokio::main]''', '''fn single_document_edit(uri: Url, edits: Vec<TextEdit>) -> WorkspaceEdit {
    WorkspaceEdit {
        changes: Some(HashMap::from([(uri, edits)])),
        document_changes: None,
        change_annotations: None,
    }
}

#[tokio::main]'''))
    v('r6-frame-display', None, (B, '''fn format_frame_as_md(frame: &Frame) -> String {
    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp)''', '''fn format_frame_as_md(frame: &Frame) -> String {
    let symbol = sanitize_markdown_code(&frame.symbol);
    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        let location = format!("`{}:{}`", sanitize_markdown_code(shortened_path), frame.line);
        if let Some(resolved_fp)'''), (B, '''            format!(
                "`{}` @ [`{}:{}`]({}#{})",
                sanitize_markdown_code(&frame.symbol),
                sanitize_markdown_code(shortened_path),
                frame.line,
                link,
                frame.line
            )
        } else {
            format!(
                "`{}` @ `{}:{}`",
                sanitize_markdown_code(&frame.symbol),
                sanitize_markdown_code(shortened_path),
                frame.line
            )
        }
    } else {
        format!("`{}`", sanitize_markdown_code(&frame.symbol))
    }''', '''            format!("`{symbol}` @ [{location}]({link}#{})", frame.line)
        } else {
            format!("`{symbol}` @ {location}")
        }
    } else {
        format!("`{symbol}`")
    }'''))
    v('r6-frame-match', None, (B, '''    if let Some(fp) = &frame.filepath {
        let shortened_path: &str = shorten_filepath(fp);
        if let Some(resolved_fp) = &frame.resolved_filepath {''', '''    let Some(fp) = &frame.filepath else {
        return format!("`{}`", sanitize_markdown_code(&frame.symbol));
    };
    let shortened_path: &str = shorten_filepath(fp);
    match &frame.resolved_filepath {
        Some(resolved_fp) => {'''), (B, '''                link,
                frame.line
            )
        } else {
            format!(
                "`{}` @ `{}:{}`",
                sanitize_markdown_code(&frame.symbol),
                sanitize_markdown_code(shortened_path),
                frame.line
            )
        }
    } else {
        format!("`{}`", sanitize_markdown_code(&frame.symbol))
    }
}''', '''                link,
                frame.line
            )
        }
        None => format!(
            "`{}` @ `{}:{}`",
            sanitize_markdown_code(&frame.symbol),
            sanitize_markdown_code(shortened_path),
            frame.line
        ),
    }
}'''))
    v('r6-sanitize-fn', None, (B, '''    let mut sanitized = String::with_capacity(txt.bytes().len());
    for c in txt.chars() {
        if c.is_alphanumeric() {
            // We allow all alphanumeric chars.
            // Hopefully, none of them has a special meaning in Markdown.
            sanitized.push(c);
        } else if c.is_whitespace() {
            // A line break could end the code block
            sanitized.push(' ');
        } else {
            match c {
                // Forward characters which are safe in Markdown code blocks.
                // Note that even `<` and `>` have no special meaning in this context.
                '.' => sanitized.push(c),
                ',' => sanitized.push(c),
                ':' => sanitized.push(c),
                '+' => sanitized.push(c),
                '-' => sanitized.push(c),
                '=' => sanitized.push(c),
                '/' => sanitized.push(c),
                '*' => sanitized.push(c),
                '<' => sanitized.push(c),
                '>' => sanitized.push(c),
                '_' => sanitized.push(c),
                // Unsupported characters are replaced
                _ => sanitized.push('�'),
            }
        }
    }
    sanitized''', '''    const SAFE: [char; 11] = ['.', ',', ':', '+', '-', '=', '/', '*', '<', '>', '_'];
    let safe = |c: char| match c {
        _ if c.is_alphanumeric() || SAFE.contains(&c) => c,
        _ if c.is_whitespace() => ' ',
        _ => '�',
    };
    txt.chars().fold(String::new(), |mut acc, c| {
        acc.push(safe(c));
        acc
    })'''))
    v('r6-bt-loop', None, (B, '''    let backtrace = json.get("backtrace")?.as_array()?;
    let bt = backtrace
        .iter()
        .map(|frame| {''', '''    let backtrace = json.get("backtrace")?.as_array()?;
    let to_frame = |frame: &serde_json::Value| -> Frame {'''), (B, '''                resolved_filepath,
                line,
            }
        })
        .collect::<Vec<_>>();
    Some(bt)''', '''                resolved_filepath,
                line,
            }
    };
    Some(backtrace.iter().map(to_frame).collect())'''))
    v('r6-bt-let-else', None, (B, '''    let backtrace = json.get("backtrace")?.as_array()?;''', '''    let Some(serde_json::Value::Array(backtrace)) = json.get("backtrace") else {
        return None;
    };'''))
    v('r6-bt-name', None, (B, '''            let mut name = "<invalid>";
            if json_name.is_some() && !json_name.unwrap().is_empty() {
                // Use the name provided in the backtrace if present
                name = json_name.unwrap();
            } else if let Some(link) = json_link {
                name = shorten_filepath(link);
            }
''', '''            let name = json_name
                .filter(|n| !n.is_empty())
                .or_else(|| json_link.map(shorten_filepath))
                .unwrap_or("<invalid>");
'''))
    v('r6-resolve-filter', None, (B, '''    root_paths.iter().find_map(|baseuri| {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        if uri.to_file_path().ok()?.exists() {
            Some(uri)
        } else {
            None
        }
    })''', '''    let candidates = root_paths.iter().filter_map(|baseuri| {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        Some(uri)
    });
    candidates
        .filter(|uri| uri.to_file_path().map_or(false, |p| p.exists()))
        .next()'''))
    v('r6-relevant-values', None, (B, '''    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }
''', '''    let preferred = symbol_preferences
        .into_iter()
        .filter_map(|pref| frames.iter().position(|f| f.symbol.contains(pref)))
        .next();
    if let Some(idx) = preferred {
        return Some(idx);
    }
'''))
    v('r6-index-visitor', None, (I, '''    // Index all uses based on the raw token stream
    let mut func_body_id: Option<usize> = None;
    for t in tokens.iter() {
        match &t.0 {''', '''    index.index_uses(tokens);
    index
}

impl HIRIndex {
  /// Index all uses based on the raw token stream
  fn index_uses(&mut self, tokens: &[Spanned<Token>]) {
    let index = self;
    let mut func_body_id: Option<usize> = None;
    for t in tokens.iter() {
        match &t.0 {'''), (I, '''            _ => {}
        }
    }

    index
}
''', '''            _ => {}
        }
    }
  }
}
'''))
    v('r6-index-uses-vec', None, (I, '''            Token::GlobalName(name) => {
                if index.functions.contains_key(&name.to_string()) {
                    index.add_global(SymbolKind::Function, UseDefKind::Use, &t.1, name)
                } else {
                    index.add_global(SymbolKind::GlobalVar, UseDefKind::Use, &t.1, name)
                }
            }''', '''            Token::GlobalName(name) => {
                let kind = match index.functions.get(name) {
                    Some(_) => SymbolKind::Function,
                    None => SymbolKind::GlobalVar,
                };
                index.add_global(kind, UseDefKind::Use, &t.1, name);
            }'''))
    v('r6-index-encl-fn', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
                if let Some(func_body_id) = func_body_id {''', '''                if let Some(func_body_id) = index.body_at(t.1.start) {'''), (I, '''    let mut func_body_id: Option<usize> = None;
    for t in tokens.iter() {''', '''    for t in tokens.iter() {'''), (I, '''    pub fn find_symbol_at_position(''', '''    /// The function body which contains the given offset
    fn body_at(&self, pos: usize) -> Option<usize> {
        for (id, body) in self.function_bodies.iter().enumerate() {
            if body.complete_range.contains(&pos) {
                return Some(id);
            }
        }
        None
    }

    pub fn find_symbol_at_position('''))
    v('r6-index-incoming', None, (I, '''                            if i.is_branching() && bb.label.is_some() {
                                let label = bb.label.as_ref().unwrap();
                                let func_body = &mut index.function_bodies[func_body_id];
                                let incoming_list = func_body
                                    .incoming_bb_branches
                                    .entry(bb_ref.0.clone())
                                    .or_default();
                                if !incoming_list.contains(label) {
                                    incoming_list.push(label.clone());
                                }
                            }''', '''                            let Some(label) = bb.label.as_ref().filter(|_| i.is_branching()) else {
                                continue;
                            };
                            let incoming_list = index.function_bodies[func_body_id]
                                .incoming_bb_branches
                                .entry(bb_ref.0.to_owned())
                                .or_insert_with(Vec::new);
                            if incoming_list.iter().all(|l| l != label) {
                                incoming_list.push(label.to_owned());
                            }'''))
    v('r6-index-ext-splitonce', None, (I, '''                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {''', '''                        let mut parts = dbgstr.split(':');
                        if let (Some(filepath), Some(linestr), None) =
                            (parts.next(), parts.next(), parts.next())
                        {
                            if let Ok(line) = linestr.parse::<u32>() {'''))
    v('r6-index-letelse', None, (I, '''                if let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) {
                    if let [(Token::Str(dbgstr), _)] = &def[..] {
                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {
                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs
                                    .push(ExternalDef {
                                        filepath: filepath.to_string(),
                                        line,
                                    });
                            }
                        }
                    }
                }''', '''                let Some(funcname) = unresolved_function_dbgrefs.get(&name.0) else {
                    continue;
                };
                let external = parse_external_def(def);
                if let Some(entry) = index.functions.get_mut(funcname) {
                    entry.external_defs.extend(external);
                }'''), (I, '''pub fn create_index(''', '''fn parse_external_def(def: &[Spanned<Token>]) -> Option<ExternalDef> {
    let [(Token::Str(dbgstr), _)] = def else {
        return None;
    };
    let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] else {
        return None;
    };
    let line = linestr.parse().ok()?;
    Some(ExternalDef {
        filepath: filepath.to_string(),
        line,
    })
}

pub fn create_index('''))
    v('r6-diag-once', None, (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {
                let diags''', '''            let undefined = ud.decls.len() + ud.defs.len() == 0;
            if undefined {
                let diags'''))
    v('r6-diag-first', None, (D, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {''', '''            } else if let Some((first, further)) = ud.defs.split_first() {
                let diags = further
                    .iter()
                    .filter_map(move |use_| {'''), (D, '''range: range_to_lsp(rope, &ud.defs[0])?,''', '''range: range_to_lsp(rope, first)?,'''))
    v('r6-cfg-method', None, (G, '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
    graph.push_str("}\\n");
    graph.to_string()''', '''    let edges = func_body
        .basic_blocks
        .iter()
        .filter_map(|bb| bb.label.as_ref().map(|label| (&label.0, bb)))
        .flat_map(|(from, bb)| {
            bb.instructions
                .iter()
                .filter(|i| i.is_branching())
                .flat_map(|i| i.basic_block_refs.iter())
                .map(move |to| (from, &to.0))
        });
    for (from, to) in edges {
        graph += &format!("  {} -> {}\\n", escape_dot_label(from), escape_dot_label(to));
    }
    graph + "}\\n"'''))
    v('r6-cfg-while-let', None, (G, '''                for target in &i.basic_block_refs {
                    let from_lbl''', '''                let mut targets = i.basic_block_refs.iter();
                while let Some(target) = targets.next() {
                    let from_lbl'''))
    v('r6-cfg-concat', None, (G, '''    graph.push_str("strict digraph D {\\n");
    graph.push_str("  node [shape=box];\\n");''', '''    graph.push_str(concat!("strict digraph D {\\n", "  node [shape=box];\\n"));'''))
    v('r6-nav-struct', None, (M, '''    ) -> Option<(Range, Vec<Location>)> {''', '''    ) -> Option<Occurrences> {'''), (M, '''        Some((origin_selection_range, ranges))''', '''        Some(Occurrences { origin: origin_selection_range, locations: ranges })'''),
      (M, '''            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDefinitionResponse::Link(links))''', '''            let found = self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?;
            Some(GotoDefinitionResponse::Link(found.into_links()))'''),
      (M, '''            let (origin_selection_range, mut locations) =
                self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Decl)?;
            let links = locations
                .drain(..)
                .map(|loc| LocationLink {
                    origin_selection_range: Some(origin_selection_range),
                    target_uri: loc.uri,
                    target_range: loc.range,
                    target_selection_range: loc.range,
                })
                .collect::<Vec<_>>();
            Some(GotoDeclarationResponse::Link(links))''', '''            let found = self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Decl)?;
            Some(GotoDeclarationResponse::Link(found.into_links()))'''),
      (M, '''            .map(|x| x.1);
        Ok(reference_list)''', '''            .map(|x| x.locations);
        Ok(reference_list)'''), (M, '''struct TextDocumentItem {''', '''struct Occurrences {
    origin: Range,
    locations: Vec<Location>,
}

impl Occurrences {
    fn into_links(self) -> Vec<LocationLink> {
        let origin = self.origin;
        self.locations
            .into_iter()
            .map(|Location { uri, range }| LocationLink {
                origin_selection_range: Some(origin),
                target_uri: uri,
                target_range: range,
                target_selection_range: range,
            })
            .collect()
    }
}

struct TextDocumentItem {'''))
    v('r6-rename-prefix-method', None, (M, '''            let prefix = match symbol.symbol_kind {
                hyper_ir_lsp::hir_index::SymbolKind::GlobalVar => "@",
                hyper_ir_lsp::hir_index::SymbolKind::Function => "@",
                hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation => "!",
                hyper_ir_lsp::hir_index::SymbolKind::Label => "",
                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''            let prefix = symbol.symbol_kind.sigil().map(String::from).unwrap_or_default();'''), (M, '''new_name.strip_prefix(prefix)''', '''new_name.strip_prefix(prefix.as_str())'''), (I, '''#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SymbolOccurrence {''', '''impl SymbolKind {
    /// The character with which the names of this kind start
    pub fn sigil(self) -> Option<char> {
        match self {
            SymbolKind::GlobalVar | SymbolKind::Function => Some('@'),
            SymbolKind::DbgAnnotation => Some('!'),
            SymbolKind::LocalVar => Some('%'),
            SymbolKind::Label => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SymbolOccurrence {'''))
    v('r6-rename-check-fn', None, (M, '''            if new_name
                .chars()
                .any(|c| !c.is_alphanumeric() && c != '_' && c != ':')
            {
                return Result::Err(Error::invalid_params("Name contains invalid character"));
            }
            if new_name.is_empty() {
                return Result::Err(Error::invalid_params("Name must not be empty"));
            }
            if new_name.starts_with(char::is_numeric)
                && symbol.symbol_kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
            {
                return Result::Err(Error::invalid_params("Name must not start with a digit"));
            }''', '''            check_name(&new_name, symbol.symbol_kind).map_err(Error::invalid_params)?;'''), (M, '''#[tokio::main]''', '''fn check_name(
    name: &str,
    kind: hyper_ir_lsp::hir_index::SymbolKind,
) -> std::result::Result<(), &'static str> {
    let valid = |c: char| c.is_alphanumeric() || matches!(c, '_' | ':');
    if !name.chars().all(valid) {
        Err("Name contains invalid character")
    } else if name.is_empty() {
        Err("Name must not be empty")
    } else if name.starts_with(char::is_numeric)
        && kind != hyper_ir_lsp::hir_index::SymbolKind::DbgAnnotation
    {
        Err("Name must not start with a digit")
    } else {
        Ok(())
    }
}

#[tokio::main]'''))
    v('r6-rename-relative-fn', None, (M, '''        let edits = if new_name.starts_with('+') || new_name.starts_with('-') {
            let sign = if new_name.starts_with('-') { -1 } else { 1 };
            let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {
                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
            })?;
            let rename_shift = rename_nr.wrapping_mul(sign);''', '''        let edits = if new_name.starts_with(['+', '-']) {
            let (sign, digits) = new_name.split_at(1);
            let rename_nr = digits.parse::<i64>().map_err(|_e| {
                Error::invalid_params(format!("Invalid relative rename `{}`", new_name))
            })?;
            let rename_shift = match sign {
                "-" => rename_nr.wrapping_neg(),
                _ => rename_nr,
            };'''))
    v('r6-action-then', None, (M, '''            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;
''', '''            let renamed_nr = extract_number_from_identifier(&symbol.name)?.1;
'''), (M, '''        if range.start != range.end {
            return Ok(None);
        }
''', '''        let Range { start, end } = params.range;
        if start != end {
            return Ok(None);
        }
'''), (M, '''        let range = params.range;
''', ''''''), (M, '''lsp_pos_to_offset(&doc.rope, &range.start)?''', '''lsp_pos_to_offset(&doc.rope, &start)?'''))
    v('r6-lens-fn', None, (M, '''            let codelenses = doc
                .index
                .functions
                .iter()
                .filter_map(|f| {
                    // Only show the code lens for functions with exactly one definition
                    if let [def_range] = &f.1.defs[..] {
                        Some(CodeLens {
                            range: range_to_lsp(&doc.rope, def_range)?,
                            command: Some(Command {
                                // Potential icons: ⇆⭾⧬⌸✍✒✎🧐
                                title: "✨ Visualize Controlflow".to_string(),
                                command: "visualize-cfg".to_string(),
                                arguments: Some(vec![
                                    Value::String(uri_str.clone()),
                                    Value::String(f.0.clone()),
                                ]),
                            }),
                            data: None,
                        })
                    } else {
                        None
                    }
                })
                .collect::<Vec<_>>();

            Some(codelenses)''', '''            let mut codelenses = vec![];
            for (name, usedefs) in &doc.index.functions {
                // Only show the code lens for functions with exactly one definition
                let mut defs = usedefs.defs.iter();
                let (Some(def), None) = (defs.next(), defs.next()) else {
                    continue;
                };
                let Some(range) = range_to_lsp(&doc.rope, def) else {
                    continue;
                };
                let arguments = [&uri_str, name].map(|s| Value::from(s.as_str()));
                codelenses.push(CodeLens {
                    range,
                    command: Some(Command::new(
                        "✨ Visualize Controlflow".into(),
                        "visualize-cfg".into(),
                        Some(arguments.to_vec()),
                    )),
                    data: None,
                });
            }
            Some(codelenses)'''))
    v('r6-fold-chain', None, (M, '''            let mut folding_ranges = Vec::<FoldingRange>::new();

            folding_ranges.extend(doc.index.function_bodies.iter().filter_map(|f| {
                let collapsed_text = format!("{} basic blocks", f.labels.len());
                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })
            }));

            folding_ranges.extend(
                doc.index
                    .function_bodies
                    .iter()
                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        Some(FoldingRange {
                            start_line: range.start.line,
                            start_character: None,
                            end_line: range.end.line,
                            end_character: None,
                            kind: None,
                            collapsed_text: Some(collapsed_text),
                        })
                    }),
            );

            Some(folding_ranges)''', '''            let bodies = || doc.index.function_bodies.iter();
            let functions = bodies().map(|f| {
                (&f.complete_range, format!("{} basic blocks", f.labels.len()))
            });
            let blocks = bodies().flat_map(|f| &f.basic_blocks).map(|bb| {
                (&bb.span, format!("{} instructions", bb.instructions.len()))
            });
            let folding_ranges = functions
                .chain(blocks)
                .filter_map(|(span, text)| {
                    let Range { start, end } = range_to_lsp(&doc.rope, span)?;
                    Some(FoldingRange {
                        start_line: start.line,
                        end_line: end.line,
                        collapsed_text: Some(text),
                        ..Default::default()
                    })
                })
                .collect();
            Some(folding_ranges)'''))
    v('r6-fold-spans', None, (M, '''                    .flat_map(|e| e.basic_blocks.iter())
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        Some(FoldingRange {
                            start_line: range.start.line,
                            start_character: None,
                            end_line: range.end.line,''', '''                    .map(|e| &e.basic_blocks)
                    .flatten()
                    .filter_map(|bb| {
                        let collapsed_text = format!("{} instructions", bb.instructions.len());
                        let start = offset_to_lsp_pos(&doc.rope, bb.span.start)?;
                        let end = offset_to_lsp_pos(&doc.rope, bb.span.end)?;
                        Some(FoldingRange {
                            start_line: start.line,
                            start_character: None,
                            end_line: end.line,'''))
    v('r6-hint-parts', None, (M, '''                        let label_parts = incoming_refs
                            .iter()
                            .enumerate()
                            .filter_map(|(idx, incoming)| {
                                Some(vec![
                                    InlayHintLabelPart {
                                        value: (if idx == 0 { "incoming: " } else { ", " })
                                            .to_string(),
                                        ..Default::default()
                                    },
                                    InlayHintLabelPart {
                                        value: incoming.0.clone(),
                                        location: Some(Location {
                                            uri: uri.clone(),
                                            range: range_to_lsp(&doc.rope, &incoming.1)?,
                                        }),
                                        ..Default::default()
                                    },
                                ])
                            })
                            .flatten()
                            .collect::<Vec<_>>();
''', '''                        let mut label_parts = Vec::new();
                        for (idx, (label, span)) in incoming_refs.iter().enumerate() {
                            let Some(range) = range_to_lsp(&doc.rope, span) else {
                                continue;
                            };
                            let separator = match idx {
                                0 => "incoming: ",
                                _ => ", ",
                            };
                            label_parts.push(InlayHintLabelPart {
                                value: separator.into(),
                                ..Default::default()
                            });
                            label_parts.push(InlayHintLabelPart {
                                value: label.to_owned(),
                                location: Some(Location::new(uri.to_owned(), range)),
                                ..Default::default()
                            });
                        }
'''))
    v('r6-hint-roots-once', None, (M, '''            // Insert inlay hints for call stacks
            inlay_hints.extend(''', '''            // Insert inlay hints for call stacks
            let root_paths = self.root_paths.lock().unwrap().clone();
            inlay_hints.extend('''), (M, '''                        let root_paths: std::sync::MutexGuard<'_, Vec<Url>> =
                            self.root_paths.lock().unwrap();
                        let frames''', '''                        let frames'''))
    v('r6-hint-value', None, (M, '''                        let json_txt = doc.index.dgb_annotation_values.get(&dbg_ref.0)?;
                        let json_val = serde_json::from_str::<serde_json::Value>(json_txt).ok()?;''', '''                        let (name, span) = dbg_ref;
                        let json_val: Value = doc
                            .index
                            .dgb_annotation_values
                            .get(name)
                            .and_then(|txt| serde_json::from_str(txt).ok())?;'''), (M, '''                            offset_to_lsp_pos(&doc.rope, dbg_ref.1.end)?,''', '''                            offset_to_lsp_pos(&doc.rope, span.end)?,'''))
    v('r6-exec-let-else', None, (M, '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {
                let doc''', '''        match (params.command.as_str(), params.arguments.as_slice()) {
            ("visualize-cfg", [doc_uri, func_name]) if doc_uri.is_string() && func_name.is_string() => {
                let (Some(doc_uri), Some(func_name)) = (doc_uri.as_str(), func_name.as_str()) else {
                    return Err(Error::invalid_params("Invalid command"));
                };
                let doc'''))
    v('r6-exec-graph-fn', None, (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
                    .index
                    .function_bodies
                    .iter()
                    .find(|b| b.name.0 == *func_name)
                    .ok_or_else(|| Error {
                        code: ErrorCode::InvalidParams,
                        message: format!("function `{}` not found", func_name).into(),
                        data: None,
                    })?;

                let title = format!("CFG for {}", func_name);
                let dot_graph = create_cfg_dot_visualization(func_body);
                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);
''', '''                let title = format!("CFG for {}", func_name);
                let dot_graph = self.graph_of(doc_uri, func_name)?;
'''), (M, '''    fn do_code_action_resolve(''', '''    fn graph_of(&self, doc_uri: &str, func_name: &str) -> Result<String> {
        let doc = self.document_map.get(doc_uri).ok_or_else(|| {
            Error::invalid_params(format!("document `{}` not found", doc_uri))
        })?;
        for body in &doc.index.function_bodies {
            if body.name.0 == func_name {
                return Ok(create_cfg_dot_visualization(body));
            }
        }
        Err(Error::invalid_params(format!("function `{}` not found", func_name)))
    }

    fn do_code_action_resolve('''))
    v('r6-change-doc-new', None, (M, '''        let rope = ropey::Rope::from_str(&params.text);
        let src = rope.to_string();

        let ParserResult {
            tokens,
            stmts,
            errors,
        } = parse_from_str(&src);
        let semantic_tokens = semantic_tokens_from_tokens(&tokens);
        let index = create_index(&src, &tokens, &stmts);

        let mut diagnostics = Vec::<Diagnostic>::new();
        diagnostics.extend(diagnostics_from_parser(&rope, &errors));
        diagnostics.extend(diagnostics_from_statements(&rope, &stmts));
        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));

        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );

        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;''', '''        let TextDocumentItem { uri, text, version } = params;
        let (document, diagnostics) = AnalyzedDocument::new(&uri, &text);
        self.document_map.insert(uri.to_string(), document);
        self.client
            .publish_diagnostics(uri, diagnostics, Some(version))
            .await'''), (M, '''#[derive(Debug)]
struct Backend {''', '''impl AnalyzedDocument {
    fn new(uri: &Url, src: &str) -> (Self, Vec<Diagnostic>) {
        let rope = Rope::from_str(src);
        let parsed = parse_from_str(src);
        let index = create_index(src, &parsed.tokens, &parsed.stmts);
        let diagnostics = diagnostics_from_parser(&rope, &parsed.errors)
            .chain(diagnostics_from_statements(&rope, &parsed.stmts))
            .chain(diagnostics_from_index(&rope, uri, &index))
            .collect();
        let document = AnalyzedDocument {
            semantic_tokens: semantic_tokens_from_tokens(&parsed.tokens),
            stmts: parsed.stmts,
            rope,
            index,
        };
        (document, diagnostics)
    }
}

#[derive(Debug)]
struct Backend {'''))
    v('r6-init-split', None, (M, '''        if let Some(workspace_folders) = params.workspace_folders {
            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if let Some(root_uri) = params.root_uri {
            self.root_paths.lock().unwrap().push(root_uri);
        }''', '''        let roots: Vec<Url> = match params.workspace_folders {
            Some(folders) => folders.into_iter().map(|f| f.uri).collect(),
            None => params.root_uri.into_iter().collect(),
        };
        self.root_paths.lock().unwrap().extend(roots);'''))
    v('r6-init-lazy', None, (M, '''            .map(|c| {
                let supports_resolve = c
                    .resolve_support
                    .map(|c| c.properties.contains(&"edit".to_string()))
                    .unwrap_or(false);
                let supports_data = c.data_support.unwrap_or(false);
                supports_resolve && supports_data
            })
            .unwrap_or(false);''', '''            .map_or(false, |c| {
                c.data_support == Some(true)
                    && c.resolve_support
                        .is_some_and(|r| r.properties.iter().any(|p| p == "edit"))
            });'''))
    v('r6-shift-btree', None, (RN, '''    index
        .get_by_symbol_kind(
            symbol_kind,
            func_body_id.and_then(|id| index.function_bodies.get(id)),
        )
        .into_iter()
        .flatten()
        .filter_map(|(name, usedefs)| {
            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))
        })
        .flatten()
        .collect::<Vec<_>>()''', '''    let body = match func_body_id {
        Some(id) => index.function_bodies.get(id),
        None => None,
    };
    let Some(symbols) = index.get_by_symbol_kind(symbol_kind, body) else {
        return vec![];
    };
    let mut edits = vec![];
    for (name, usedefs) in symbols {
        match extract_number_from_identifier(name) {
            Some((prefix, nr)) if nr >= renamed_nr => {
                let new_nr = nr.wrapping_add(shift).unsigned_abs();
                edits.append(&mut get_rename_edits(rope, usedefs, &format!("{prefix}{new_nr}")));
            }
            _ => {}
        }
    }
    edits'''))
    v('r6-extract-rfind', None, (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let name = id.trim_end_matches(|c: char| c.is_numeric());
    let nr = id.strip_prefix(name)?;
    nr.parse().ok().map(|nr| (name, nr))'''))
    v('r6-edits-array', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(''', '''    [&usedefs.decls, &usedefs.defs, &usedefs.uses]
        .into_iter()
        .flatten()
        .filter_map('''))
    v('r6-find-rangeto', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .range(..=pos)
            .next_back()
            .map(|(_, occurrence)| occurrence)
            .filter(|occurrence| occurrence.span.contains(&pos))
'''))
    v('r6-usedefs-sym', None, (I, '''            SymbolKind::Label => fb.map(|fb| &fb.labels),
            SymbolKind::LocalVar => fb.map(|fb| &fb.local_vars),''', '''            SymbolKind::Label | SymbolKind::LocalVar => {
                let fb = fb?;
                Some(if k == SymbolKind::Label { &fb.labels } else { &fb.local_vars })
            }'''))
    v('r6-pos-fold', None, (L, '''    let line_len: usize = line
        .chars()
        .take_while(|c| !matches!(c, '\\n' | '\\r'))
        .map(char::len_utf16)
        .sum();
    let character = line_len.min(pos.character as usize);''', '''    let mut line_len = 0;
    for c in line.chars() {
        if c == '\\n' || c == '\\r' {
            break;
        }
        line_len += c.len_utf16();
    }
    let character = std::cmp::min(line_len, pos.character as usize);'''))
    v('r6-pos-andthen', None, (L, '''    Some(Position {
        line: line.try_into().ok()?,
        character: character.try_into().ok()?,
    })''', '''    let line = u32::try_from(line).ok()?;
    let character = u32::try_from(character).ok()?;
    Some(Position::new(line, character))'''))
    v('r6-gr-branching', None, (PA, '''pub fn parser() ->''', '''#[allow(dead_code)]
fn is_terminator(name: &str) -> bool {
    name.ends_with("br")
}

pub fn parser() ->'''))
    v('r6-tk-const', None, (T, '''    let punctuation = one_of("[]{}()<>=,;:*.").map(Token::Punctuation);''', '''    const PUNCTUATION: &str = "[]{}()<>=,;:*.";
    let punctuation = filter(|c: &char| PUNCTUATION.contains(*c)).map(Token::Punctuation);'''))
    v('r6-tk-str-take', None, (T, '''    let str_ = just('"')
        .ignore_then(filter(|c| *c != '"').repeated())
        .then_ignore(just('"'))
        .collect::<String>()
        .map(Token::Str);''', '''    let quote = just('"');
    let str_ = none_of("\\"")
        .repeated()
        .delimited_by(quote, quote)
        .collect()
        .map(Token::Str);'''))
