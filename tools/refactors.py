"""Edits which keep the behaviour: (name, None, [(file, old, new)]); with a property id instead of None the
edit breaks that property and its check must report it (small try-outs, next to seeded/)."""
VARIANTS = []


def v(name, want, *edits): VARIANTS.append((name, want, edits))


ST = 'src/semantic_token.rs'
BODY = '''    let mut pre_line = 0;
    let mut pre_start = 0;
    let lsp_tokens = semtoks
        .iter()
        .filter_map(|token| {
            let pos = offset_to_lsp_pos(rope, token.start)?;
            let line = pos.line;
            let start = pos.character;
            let slice = rope.get_byte_slice(token.start..)?;
            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu();
            let delta_line = line - pre_line;
            let delta_start = if delta_line == 0 {
                start - pre_start
            } else {
                start
            };
            let ret = Some(SemanticToken {
                delta_line,
                delta_start,
                length: length as u32,
                token_type: token.token_type as u32,
                token_modifiers_bitset: 0,
            });
            pre_line = line;
            pre_start = start;
            ret
        })
        .collect::<Vec<_>>();
    lsp_tokens
'''
v('semtok-for-loop', None, (ST, BODY, '''    let mut out = Vec::with_capacity(semtoks.len());
    let (mut pre_line, mut pre_start) = (0, 0);
    for token in semtoks {
        let Some(pos) = offset_to_lsp_pos(rope, token.start) else { continue };
        let Some(slice) = rope.get_byte_slice(token.start..token.start + token.length) else { continue };
        let same_line = pos.line == pre_line;
        out.push(SemanticToken {
            delta_line: pos.line - pre_line,
            delta_start: if same_line { pos.character - pre_start } else { pos.character },
            length: slice.len_utf16_cu() as u32,
            token_type: token.token_type as u32,
            token_modifiers_bitset: 0,
        });
        pre_line = pos.line;
        pre_start = pos.character;
    }
    out
'''))
v('semtok-option-prev', None, (ST, BODY, '''    let mut prev: Option<tower_lsp::lsp_types::Position> = None;
    let mut out = Vec::new();
    for token in semtoks.iter() {
        if let Some(pos) = offset_to_lsp_pos(rope, token.start) {
            let Some(length) = utf16_len(rope, token) else { continue };
            let (delta_line, delta_start) = match prev {
                None => (pos.line, pos.character),
                Some(p) if p.line == pos.line => (0, pos.character - p.character),
                Some(p) => (pos.line - p.line, pos.character),
            };
            out.push(SemanticToken { delta_line, delta_start, length: length as u32, token_type: token.token_type as u32, token_modifiers_bitset: 0 });
            prev = Some(pos);
        }
    }
    out
'''), (ST, '// Converts our internal semantic', '''fn utf16_len(rope: &Rope, token: &HIRSemanticToken) -> Option<usize> {
    Some(rope.get_byte_slice(token.start..)?.get_byte_slice(..token.length)?.len_utf16_cu())
}

// Converts our internal semantic'''))
v('semtok-delta-accumulate', None, (ST, '''            pre_line = line;
            pre_start = start;''', '''            pre_line += delta_line;
            pre_start = start;'''))
v('semtok-len-chars', 'C09', (ST, 'get_byte_slice(..token.length)?.len_utf16_cu()', 'get_byte_slice(..token.length)?.len_chars()'))
v('semtok-prev-start-only-same-line', 'C09', (ST, '            pre_start = start;\n            ret', '            if delta_line == 0 {\n                pre_start = start;\n            }\n            ret'))
v('semtok-len-bytes', 'C09', (ST, 'length: length as u32', 'length: (length - length + token.length) as u32'))
v('semtok-merged-arms', None, (ST, '''            Token::Num(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
''', '''            Token::Num(_) | Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),
'''))
v('semtok-hexnum', 'C09', (ST, '            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),\n', '            Token::HexNum(h) if h.len() > 16 => None,\n            Token::HexNum(_) => Some(create_semantic_token(span, &SemanticTokenType::NUMBER)),\n'))
v('semtok-legend-swap', 'C09', (ST, '''create_semantic_token(span, &SemanticTokenType::STRING)''', '''create_semantic_token(span, &SemanticTokenType::TYPE)'''))
CF = 'src/control_flow_graph.rs'
LOOP = '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
'''
v('cfg-write', None, (CF, LOOP, '''    for bb in &func_body.basic_blocks {
        let Some(label) = &bb.label else { continue };
        let from_lbl = escape_dot_label(&label.0);
        for i in bb.instructions.iter().filter(|i| i.is_branching()) {
            for (target, _) in &i.basic_block_refs {
                write!(graph, "  {} -> {}\\n", from_lbl, escape_dot_label(target)).unwrap();
            }
        }
    }
'''), (CF, 'use crate::hir_index::FunctionBody;', 'use crate::hir_index::FunctionBody;\nuse std::fmt::Write;'))
v('cfg-writeln-flatmap', None, (CF, LOOP, '''    let edges = func_body.basic_blocks.iter().filter_map(|bb| Some((bb.label.as_ref()?, bb))).flat_map(|(l, bb)| {
        bb.instructions.iter().filter(|i| i.is_branching()).flat_map(move |i| i.basic_block_refs.iter().map(move |t| edge(&l.0, &t.0)))
    });
    for e in edges {
        graph += &e;
    }
'''), (CF, 'pub fn create', 'fn edge(from: &str, to: &str) -> String {\n    format!("  {} -> {}\\n", escape_dot_label(from), escape_dot_label(to))\n}\n\npub fn create'))
v('cfg-extend-collect', None, (CF, LOOP, '''    graph.extend(func_body.basic_blocks.iter().flat_map(|bb| {
        bb.instructions
            .iter()
            .filter(|i| i.is_branching())
            .flat_map(|i| &i.basic_block_refs)
            .filter_map(|t| Some(format!("  {} -> {}\\n", escape_dot_label(&bb.label.as_ref()?.0), escape_dot_label(&t.0))))
    }));
'''))
v('cfg-no-self-loop', 'C13', (CF, 'for target in &i.basic_block_refs {', 'for target in i.basic_block_refs.iter().filter(|t| t.0 != bb.label.as_ref().unwrap().0) {'))
v('cfg-last-instr', 'C13', (CF, 'for i in &bb.instructions {', 'if let Some(i) = bb.instructions.last() {'))
v('cfg-take2', 'C13', (CF, 'for target in &i.basic_block_refs {', 'for target in i.basic_block_refs.iter().take(16) {'))
v('cfg-swap', 'C13', (CF, '"  {} -> {}\\n", from_lbl, to_lbl', '"  {} -> {}\\n", to_lbl, from_lbl'))
v('cfg-name-prefix', 'C13', ('src/main.rs', '.find(|b| b.name.0 == *func_name)', '.find(|b| b.name.0.starts_with(func_name.as_str()))'))
v('cfg-unquoted', 'C13', (CF, 'format!("\\"{}\\"", str.replace(\'\\"\', "\\"\\""))', 'if str.chars().all(|c| c.is_alphanumeric() || c == \'_\' || c == \':\') { str.to_string() } else { format!("\\"{}\\"", str.replace(\'\\"\', "\\"\\"")) }'))
v('cfg-branching', 'C13', ('src/hir_parser.rs', 'self.instruction.0.ends_with("br")', '(self.instruction.0 == "br")'))
v('cfg-while', None, (CF, LOOP, '''    let mut blocks = func_body.basic_blocks.iter();
    while let Some(bb) = blocks.next() {
        if let Some((from, _)) = bb.label.as_ref() {
            for i in &bb.instructions {
                if !i.is_branching() {
                    continue;
                }
                i.basic_block_refs.iter().for_each(|target| {
                    graph.push_str("  ");
                    graph.push_str(&escape_dot_label(from));
                    graph.push_str(" -> ");
                    graph.push_str(&escape_dot_label(&target.0));
                    graph.push('\\n');
                });
            }
        }
    }
'''))
BT = 'src/backtrace.rs'
RES = '''    root_paths.iter().find_map(|baseuri| {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        if uri.to_file_path().ok()?.exists() {
            Some(uri)
        } else {
            None
        }
    })
'''
v('resolve-for', None, (BT, RES, '''    for baseuri in root_paths {
        let mut uri = baseuri.clone();
        match uri.path_segments_mut() {
            Ok(mut segments) => {
                segments.extend(path.split('/'));
            }
            Err(_) => continue,
        }
        let Ok(file) = uri.to_file_path() else { continue };
        if file.exists() {
            return Some(uri);
        }
    }
    None
'''))
v('resolve-helper', None, (BT, RES, '''    root_paths.iter().filter_map(|b| append(b, path)).find(|uri| uri.to_file_path().map_or(false, |p| p.exists()))
'''), (BT, 'pub fn resolve_relative_path', '''fn append(base: &Url, path: &str) -> Option<Url> {
    let mut uri = base.clone();
    uri.path_segments_mut().ok()?.extend(path.split('/'));
    Some(uri)
}

pub fn resolve_relative_path'''))
v('resolve-join', 'C19', (BT, '''        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
''', '''        let mut dir = baseuri.clone();
        dir.path_segments_mut().ok()?.pop_if_empty().push("");
        let uri = dir.join(path).ok()?;
'''))
v('resolve-outer-none', 'C19', (BT, RES, '''    for baseuri in root_paths {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        if uri.to_file_path().ok()?.exists() {
            return Some(uri);
        }
    }
    None
'''))
v('resolve-rev', 'C19', (BT, 'root_paths.iter().find_map', 'root_paths.iter().rev().find_map'))
v('resolve-noexist', 'C19', (BT, 'if uri.to_file_path().ok()?.exists() {', 'if uri.to_file_path().ok()?.exists() || root_paths.len() == 1 {'))
v('frame-split-once', None, (BT, '''                if let [filepath, linestr] = s.split(':').collect::<Vec<_>>()[..] {
                    if let Ok(line) = linestr.parse::<u32>() {
                        return Some((filepath.to_string(), line));
                    }
                }
                None
''', '''                let (filepath, linestr) = s.split_once(':')?;
                let line = linestr.parse::<u32>().ok()?;
                Some((filepath.to_string(), line))
'''))
v('frame-rsplit-once', 'C19', (BT, '''                if let [filepath, linestr] = s.split(':').collect::<Vec<_>>()[..] {
                    if let Ok(line) = linestr.parse::<u32>() {
                        return Some((filepath.to_string(), line));
                    }
                }
                None
''', '''                let (filepath, linestr) = s.rsplit_once(':')?;
                let line = linestr.parse::<u32>().ok()?;
                Some((filepath.to_string(), line))
'''))
v('frame-helper', None, (BT, '''            let filepath_linenr = json_link.and_then(|s| -> Option<(String, u32)> {
                if let [filepath, linestr] = s.split(':').collect::<Vec<_>>()[..] {
                    if let Ok(line) = linestr.parse::<u32>() {
                        return Some((filepath.to_string(), line));
                    }
                }
                None
            });
''', '''            let filepath_linenr = json_link.and_then(parse_location);
'''), (BT, 'pub fn parse_backtrace_from_json', '''fn parse_location(s: &str) -> Option<(String, u32)> {
    let pieces: Vec<&str> = s.split(':').collect();
    if pieces.len() != 2 {
        return None;
    }
    let line = pieces[1].parse().ok()?;
    Some((pieces[0].to_owned(), line))
}

pub fn parse_backtrace_from_json'''))
v('frame-line-minus', 'C19', (BT, 'let line = filepath_linenr.as_ref().map(|f| f.1).unwrap_or(0);', 'let line = filepath_linenr.as_ref().map(|f| f.1.saturating_sub(1)).unwrap_or(0);'))
v('frame-name-match', None, (BT, '''            let mut name = "<invalid>";
            if json_name.is_some() && !json_name.unwrap().is_empty() {
                // Use the name provided in the backtrace if present
                name = json_name.unwrap();
            } else if let Some(link) = json_link {
                name = shorten_filepath(link);
            }
''', '''            let name = match (json_name, json_link) {
                (Some(n), _) if !n.is_empty() => n,
                (_, Some(link)) => shorten_filepath(link),
                _ => "<invalid>",
            };
'''))
M = 'src/main.rs'
ROOTS = '''        if let Some(workspace_folders) = params.workspace_folders {
            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if let Some(root_uri) = params.root_uri {
            self.root_paths.lock().unwrap().push(root_uri);
        }
'''
v('roots-match', None, (M, ROOTS, '''        let roots: Vec<Url> = match (params.workspace_folders, params.root_uri) {
            (Some(folders), _) => folders.into_iter().map(|f| f.uri).collect(),
            (None, Some(root)) => vec![root],
            (None, None) => vec![],
        };
        self.root_paths.lock().unwrap().extend(roots);
'''))
v('roots-loop', None, (M, ROOTS, '''        {
            let mut roots = self.root_paths.lock().unwrap();
            if let Some(workspace_folders) = &params.workspace_folders {
                for f in workspace_folders {
                    roots.push(f.uri.clone());
                }
            } else {
                roots.extend(params.root_uri.clone());
            }
        }
'''))
v('roots-both', 'C19', (M, '''        } else if let Some(root_uri) = params.root_uri {
            self.root_paths''', '''        }
        if let Some(root_uri) = params.root_uri {
            self.root_paths'''))
v('roots-first', 'C19', (M, '.extend(workspace_folders.iter().map', '.extend(workspace_folders.iter().take(8).map'))
v('ext-line', 'C19', (M, 'start: Position::new(d.line.saturating_sub(1), 0)', 'start: Position::new(d.line, 0)'))
SAN = open('/repo/src/backtrace.rs').read()
SAN = SAN[SAN.index('    let mut sanitized ='):SAN.index('fn format_frame_as_md')]
v('md-map', None, (BT, SAN, """    txt.chars()
        .map(|c| match c {
            c if c.is_alphanumeric() => c,
            c if c.is_whitespace() => ' ',
            '.' | ',' | ':' | '+' | '-' | '=' | '/' | '*' | '<' | '>' | '_' => c,
            _ => '�',
        })
        .collect()
}

"""))
v('md-contains', None, (BT, SAN, """    let mut out = String::new();
    for c in txt.chars() {
        let safe = c.is_alphanumeric() || ".,:+-=/*<>_".contains(c);
        out.push(if safe { c } else if c.is_whitespace() { ' ' } else { '�' });
    }
    out
}

"""))
v('md-matches', None, (BT, SAN, """    let mut out = String::new();
    for c in txt.chars() {
        out.push(sanitize_char(c));
    }
    out
}

fn sanitize_char(c: char) -> char {
    if c.is_alphanumeric() {
        return c;
    }
    if c.is_whitespace() {
        return ' ';
    }
    if matches!(c, '.' | ',' | ':' | '+' | '-' | '=' | '/' | '*' | '<' | '>' | '_') {
        return c;
    }
    '�'
}

"""))
v('md-newline', 'C07', (BT, "            sanitized.push(' ');", "            sanitized.push(c);"))
v('md-backtick', 'C07', (BT, "                '.' => sanitized.push(c),", "                '.' => sanitized.push(c),\n                '`' => sanitized.push(c),"))
v('md-ascii-graphic', 'C07', (BT, "        if c.is_alphanumeric() {", "        if c.is_ascii_graphic() {"))
v('md-raw-symbol', 'C07', (BT, """"`{}` @ `{}:{}`",
                sanitize_markdown_code(&frame.symbol),""", """"`{}` @ `{}:{}`",
                frame.symbol,"""))
v('md-noescape', 'C07', (BT, """resolved_fp.as_str().replace('(', "%28").replace(')', "%29");""", "resolved_fp.as_str();"))
v('md-angle', None, (BT, """            let link = resolved_fp.as_str().replace('(', "%28").replace(')', "%29");
""", """            let link = format!("<{}#{}>", resolved_fp, frame.line);
"""), (BT, '''[`{}:{}`]({}#{})",''', '''[`{}:{}`]({})",'''), (BT, '''                link,
                frame.line
''', '''                link
'''))
v('md-fp-raw', 'C07', (BT, '''                sanitize_markdown_code(shortened_path),
                frame.line
            )
        }
''', '''                shortened_path.trim(),
                frame.line
            )
        }
'''))
v('md-loop', None, (BT, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")
''', '''    let mut out = String::new();
    for (i, frame) in frames.iter().enumerate() {
        if i > 0 {
            out.push('\\n');
        }
        out.push_str("* ");
        out.push_str(&format_frame_as_md(frame));
    }
    out
'''))
v('md-parts', None, (BT, '''            format!(
                "`{}` @ `{}:{}`",
                sanitize_markdown_code(&frame.symbol),
                sanitize_markdown_code(shortened_path),
                frame.line
            )
''', '''            let mut md = code_span(&frame.symbol);
            md += " @ ";
            md += &code_span(&format!("{}:{}", shortened_path, frame.line));
            md
'''), (BT, 'fn format_frame_as_md', '''fn code_span(s: &str) -> String {
    format!("`{}`", sanitize_markdown_code(s))
}

fn format_frame_as_md'''))
v('md-sanitize-trim', None, (BT, 'format!("`{}`", sanitize_markdown_code(&frame.symbol))', '{\n        let s = sanitize_markdown_code(&frame.symbol);\n        ["`", s.as_str(), "`"].concat()\n    }'))
v('eff-println', 'C05', (M, '        let ParserResult {', '        if params.text.len() > 1_000_000 {\n            println!("large document {}", params.uri);\n        }\n        let ParserResult {'))
v('eff-eprintln', None, (M, '        let ParserResult {', '        if params.text.len() > 1_000_000 {\n            eprintln!("large document {}", params.uri);\n        }\n        let ParserResult {'))
v('eff-cache', 'C05', (M, '        let ParserResult {', '        let _ = std::fs::write(std::env::temp_dir().join("hir.cache"), &params.text);\n        let ParserResult {'))
v('eff-open', 'C05', (BT, '        if uri.to_file_path().ok()?.exists() {', '        if std::fs::OpenOptions::new().read(true).append(true).create(true).open(uri.to_file_path().ok()?).is_ok() {'))
v('eff-process', 'C05', (M, '        let ParserResult {', '        if params.text.is_empty() {\n            std::process::Command::new("true").spawn().ok();\n        }\n        let ParserResult {'))
v('eff-exit', 'C05', (M, '''    async fn shutdown(&self) -> Result<()> {
''', '''    async fn shutdown(&self) -> Result<()> {
        if self.document_map.is_empty() {
            std::process::exit(0);
        }
'''))
v('eff-dbg', None, (M, '        let ParserResult {', '        dbg!(params.text.len());\n        let ParserResult {'))
v('eff-dead', None, (BT, 'pub fn resolve_relative_path', '#[allow(dead_code)]\nfn debug_dump(s: &str) {\n    println!("{}", s);\n}\n\npub fn resolve_relative_path'))
v('lock-no-drop', 'C02', (M, '''                drop(doc);

''', '''
'''))
v('lock-scope', None, (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
''', '''                let (title, dot_graph) = {
                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
                let func_body = doc
'''), (M, '''                // Unlock the document. Otherwise, a `didChange` received while we are
                // waiting for the client would deadlock.
                drop(doc);
''', '''                (title, dot_graph)
                };
'''))
v('lock-log-missing', None, (M, '''                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {
                    code: ErrorCode::InvalidParams,
                    message: format!("document `{}` not found", doc_uri).into(),
                    data: None,
                })?;
''', '''                let doc = match self.document_map.get(doc_uri) {
                    Some(doc) => doc,
                    None => {
                        self.client.log_message(MessageType::INFO, "missing").await;
                        return Err(Error {
                            code: ErrorCode::InvalidParams,
                            message: format!("document `{}` not found", doc_uri).into(),
                            data: None,
                        });
                    }
                };
'''))
v('lock-insert-under-ref', 'C02', (M, '''        self.document_map.insert(
            params.uri.to_string(),''', '''        let key = params.uri.to_string();
        let old = self.document_map.get(&key);
        if old.as_ref().map(|d| d.rope.len_bytes() == 0).unwrap_or(false) {
            log_empty(&key);
        }
        self.document_map.insert(
            params.uri.to_string(),'''), (M, '#[tokio::main]', 'fn log_empty(_: &str) {}\n\n#[tokio::main]'))
v('lock-helper-under-ref', 'C02', (M, '''            let doc = self.document_map.get(&uri)?;
            let lsp_tokens =''', '''            let doc = self.document_map.get(&uri)?;
            if doc.rope.len_bytes() == 0 {
                self.forget(&uri);
            }
            let lsp_tokens ='''), (M, '''impl Backend {
''', '''impl Backend {
    fn forget(&self, uri: &str) {
        self.document_map.remove(uri);
    }

'''))
v('lock-relock', 'C02', (M, '            self.root_paths.lock().unwrap().push(root_uri);', '            let mut roots = self.root_paths.lock().unwrap();\n            if self.root_paths.lock().unwrap().is_empty() {\n                roots.push(root_uri);\n            }'))
v('lock-roots-held', None, (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
''', '''                let uri = {
                    let root_paths = self.root_paths.lock().unwrap();
                    resolve_relative_path(&root_paths, &d.filepath)?
                };
'''))
v('lock-closure-relock', 'C02', (M, '''        if ud == UseDefKind::Def {
''', '''        if ud == UseDefKind::Def {
            let known = self.root_paths.lock().unwrap();
            if known.is_empty() {
                ranges.reserve(usedefs.external_defs.len());
            }
'''))
v('lock-guard-await', 'C02', (M, '''        self.client
            .publish_diagnostics(''', '''        let stored = self.document_map.get(params.uri.as_str());
        let n = stored.as_ref().map(|d| d.stmts.len()).unwrap_or(0);
        diagnostics.reserve(n);
        self.client
            .publish_diagnostics('''))
v('lock-block-on', 'C02', (M, '''                self.client
                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
                    .await
''', '''                tokio::task::block_in_place(|| tokio::runtime::Handle::current().block_on(self.client
                    .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })))
'''))
v('state-remove', 'C06', (M, '''            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
''', '''            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
        if lsp_tokens.as_ref().map(|t| t.is_empty()).unwrap_or(false) {
            self.document_map.remove(&uri);
        }
'''))
v('state-getmut', 'C06', (M, '''            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
''', '''            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
            Some(lsp_tokens)
        }();
        if let Some(mut d) = self.document_map.get_mut(&uri) {
            d.semantic_tokens.retain(|t| t.length > 0);
        }
'''))
v('state-take', 'C06', (M, '''            let doc = self.document_map.get(&uri)?;
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
''', '''            let mut doc = self.document_map.get_mut(&uri)?;
            let toks = std::mem::take(&mut doc.semantic_tokens);
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &toks);
'''))
v('state-getmut-read', None, (M, '''            let doc = self.document_map.get(&uri)?;
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
''', '''            let doc = self.document_map.get_mut(&uri)?;
            let lsp_tokens = convert_to_lsp_tokens(&doc.rope, &doc.semantic_tokens);
'''))
v('state-roots-dedup', 'C06', (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
''', '''                let mut root_paths = self.root_paths.lock().unwrap();
                let uri = resolve_relative_path(&root_paths, &d.filepath)?;
                root_paths.sort();
'''))
v('state-lazy-off', 'C06', (M, '''        if !self.code_actions_lazy_resolve.lock().unwrap().get() {''', '''        if !self.code_actions_lazy_resolve.lock().unwrap().replace(false) {'''))
v('state-static', 'C06', (M, '''        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        Ok(reference_list)''', '''        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        if n > 1000 {
            return Ok(None);
        }
        Ok(reference_list)'''))
v('state-static-unused', None, (M, '''        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        Ok(reference_list)''', '''        static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);
        Ok(reference_list)'''))
v('state-shutdown', 'C06', (M, '''    async fn shutdown(&self) -> Result<()> {
''', '''    async fn shutdown(&self) -> Result<()> {
        self.root_paths.lock().unwrap().clear();
'''))
v('state-close', 'C06', (M, '''    async fn shutdown(&self) -> Result<()> {
''', '''    async fn did_close(&self, params: DidCloseTextDocumentParams) {
        self.document_map.retain(|k, _| k != params.text_document.uri.as_str());
    }

    async fn shutdown(&self) -> Result<()> {
'''))
v('state-field', 'C06', (M, '''    document_map: DashMap<String, AnalyzedDocument>,
''', '''    document_map: DashMap<String, AnalyzedDocument>,
    last: Mutex<Option<Vec<Location>>>,
'''), (M, '''        document_map: DashMap::new(),
''', '''        document_map: DashMap::new(),
        last: Default::default(),
'''), (M, '''            .map(|x| x.1);
        Ok(reference_list)''', '''            .map(|x| x.1);
        let mut last = self.last.lock().unwrap();
        if reference_list.is_some() {
            *last = reference_list;
        }
        Ok(last.clone())'''))

# ---- C08
X = 'vscode-extension/src/extension.ts'
CAPX = '''                document_symbol_provider: Some(OneOf::Left(true)),
'''
v('cap-const', None, (M, 'commands: vec!["visualize-cfg".to_string()],', 'commands: vec![CMD_CFG.to_owned()],'), (M, 'command: "visualize-cfg".to_string(),', 'command: CMD_CFG.into(),'),
  (M, '("visualize-cfg", [Value', '(CMD_CFG, [Value'), (M, '/// Custom command to show a dot graph.', 'const CMD_CFG: &str = "visualize-cfg";\n\n/// Custom command to show a dot graph.'))
v('cap-helper2', None, (M, '''                rename_provider: Some(OneOf::Right(RenameOptions {
                    prepare_provider: Some(true),
                    work_done_progress_options: WorkDoneProgressOptions {
                        work_done_progress: None,
                    },
                })),''', '''                rename_provider: Some(rename_options(true)),'''), (M, '/// Custom command to show a dot graph.', '''fn rename_options(prepare: bool) -> OneOf<bool, RenameOptions> {
    OneOf::Right(RenameOptions {
        prepare_provider: Some(prepare),
        work_done_progress_options: Default::default(),
    })
}

/// Custom command to show a dot graph.'''))
v('cap-mut', None, (M, '''        Ok(InitializeResult {
            server_info''', '''        let mut result = InitializeResult {
            server_info'''), (M, CAPX, ''), (M, '''                ..ServerCapabilities::default()
            },
        })''', '''                ..ServerCapabilities::default()
            },
        };
        result.capabilities.document_symbol_provider = Some(OneOf::Left(true));
        Ok(result)'''))
v('cap-sync-options', None, (M, '''Some(TextDocumentSyncCapability::Kind(
                    TextDocumentSyncKind::FULL,
                ))''', '''Some(TextDocumentSyncCapability::Options(
                    TextDocumentSyncOptions {
                        open_close: Some(true),
                        change: Some(TextDocumentSyncKind::FULL),
                        ..Default::default()
                    },
                ))'''))
v('cap-if-command', None, (M, '''        match (params.command.as_str(), &params.arguments[..]) {
            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {''', '''        match &params.arguments[..] {
            [Value::String(doc_uri), Value::String(func_name)] if params.command == "visualize-cfg" => {'''))
v('cap-ts-destructure', None, (X, '''async (params) => {
    const dotGraph = params.dotGraph;''', '''async ({ dotGraph, title }) => {'''), (X, 'title: params.title', 'title'))
v('cap-ts-const', None, (X, "client.onRequest('hyperir/showDot', async (params) => {", "client.onRequest(SHOW_DOT, async (params) => {"), (X, 'let client: Lang', "const SHOW_DOT = 'hyperir/showDot';\nlet client: Lang"))
v('cap-ts-fn', None, (X, "client.onRequest('hyperir/showDot', async (params) => {", "client.onRequest('hyperir/showDot', showDot);\n  void client.start();\n}\n\nasync function showDot (params: any) {"), (X, '''    return {};
  });

  void client.start();
''', '''    return {};
'''))
v('cap-no-declaration', 'C08', (M, '''                declaration_provider: Some(DeclarationCapability::Simple(true)),
''', ''))
v('cap-false', 'C08', (M, CAPX, CAPX.replace('true', 'false')))
v('cap-hover', 'C08', (M, CAPX, CAPX + '                hover_provider: Some(HoverProviderCapability::Simple(true)),\n'))
v('cap-lens-resolve', 'C08', (M, '''                    resolve_provider: None,
                }),''', '''                    resolve_provider: Some(true),
                }),'''))
v('cap-prepare', 'C08', (M, 'prepare_provider: Some(true)', 'prepare_provider: None'))
v('cap-range', 'C08', (M, 'range: None,\n                                full', 'range: Some(true),\n                                full'))
v('cap-delta', 'C08', (M, 'SemanticTokensFullOptions::Bool(true)', 'SemanticTokensFullOptions::Delta { delta: Some(true) }'))
v('cap-incremental', 'C08', (M, 'TextDocumentSyncKind::FULL,', 'TextDocumentSyncKind::INCREMENTAL,'))
v('cap-command', 'C08', (M, 'command: "visualize-cfg".to_string(),', 'command: "visualize_cfg".to_string(),'))
v('cap-command2', 'C08', (M, 'commands: vec!["visualize-cfg".to_string()]', 'commands: vec!["hir.visualize-cfg".to_string()]'))
v('cap-args', 'C08', (M, '''                                    Value::String(f.0.clone()),
                                ]),''', '''                                    Value::String(f.0.clone()),
                                    Value::Null,
                                ]),'''))
v('cap-rename-all', 'C08', (M, '''#[serde(rename_all = "camelCase")]
pub struct ShowGraphParams''', '''pub struct ShowGraphParams'''))
v('cap-method', 'C08', (M, '"hyperir/showDot"', '"hyperir/showdot"'))
v('cap-method-ts', 'C08', (X, "'hyperir/showDot'", "'hyper-ir/showDot'"))
v('cap-return-ts', 'C08', (X, '''      });
    return {};''', '''      });'''))
v('cap-response', 'C08', (M, 'pub struct ShowGraphResponse {}', 'pub struct ShowGraphResponse {\n    shown: bool,\n}'))
v('cap-lang', 'C08', (X, "language: 'hir'", "language: 'hyper-ir'"))
v('cap-utf8', 'C08', (M, CAPX, CAPX + '                position_encoding: Some(PositionEncodingKind::UTF8),\n'))
v('cap-client-utf8', 'C08', (M, CAPX, CAPX + '''                position_encoding: params.capabilities.general.and_then(|g| g.position_encodings).and_then(|e| e.into_iter().find(|e| *e == PositionEncodingKind::UTF8)),
'''))

# ---- C04: positions outside of the conversion functions
D = 'src/diagnostics.rs'
v('flow-fold-chars', 'C04', (M, '''                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,''', '''                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: doc.rope.try_char_to_line(f.complete_range.start).ok()? as u32,'''))
v('flow-fold-bytes', None, (M, '''                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,''', '''                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: doc.rope.try_byte_to_line(f.complete_range.start).ok()? as u32,'''))
v('flow-hint-inline', None, (M, '''offset_to_lsp_pos(&doc.rope, f.complete_range.end)?''', '''{
                    let o = f.complete_range.end;
                    let line = doc.rope.try_byte_to_line(o).ok()?;
                    let c = doc.rope.try_byte_to_char(o).ok()?;
                    let u = doc.rope.try_char_to_utf16_cu(c).ok()?;
                    let l = doc.rope.try_line_to_char(line).ok()?;
                    Position::new(line as u32, (u - doc.rope.try_char_to_utf16_cu(l).ok()?) as u32)
                }'''))
v('flow-hint-chars', 'C04', (M, '''offset_to_lsp_pos(&doc.rope, f.complete_range.end)?''', '''{
                    let o = f.complete_range.end;
                    let line = doc.rope.try_byte_to_line(o).ok()?;
                    let c = doc.rope.try_byte_to_char(o).ok()?;
                    let l = doc.rope.try_line_to_char(line).ok()?;
                    Position::new(line as u32, (c - l) as u32)
                }'''))
v('flow-symbol-rope', 'C04', (M, '''                        range: range_to_lsp(&doc.rope, def_range)?,
                            command''', '''                        range: range_to_lsp(&ropey::Rope::from_str(&doc.rope.to_string().replace("\\r\\n", "\\n")), def_range)?,
                            command'''))

# ---- C16
v('scope-hint-any', 'C16', (M, '''                        f.basic_blocks.iter().filter_map(|bb| {
                            Some((bb, f.incoming_bb_branches.get(&bb.label.as_ref()?.0)?))
                        })''', '''                        f.basic_blocks.iter().filter_map(|bb| {
                            let label = &bb.label.as_ref()?.0;
                            let bodies = &doc.index.function_bodies;
                            Some((bb, bodies.iter().find_map(|g| g.incoming_bb_branches.get(label))?))
                        })'''))
v('scope-diag-any', 'C16', (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            if ud.decls.is_empty()
                && ud.defs.is_empty()
                && !index
                    .function_bodies
                    .iter()
                    .any(|fb| fb.labels.get(name).map_or(false, |l| !l.defs.is_empty()))
            {'''))
v('scope-refs-all', 'C16', (M, '''        let reference_list = self
            .get_use_def_ranges(&params.text_document_position, UseDefKind::Use)
            .map(|x| x.1);''', '''        let reference_list = (|| {
            let uri = params.text_document_position.text_document.uri;
            let doc = self.document_map.get(&uri.to_string())?;
            let offset = lsp_pos_to_offset(&doc.rope, &params.text_document_position.position)?;
            let symbol = doc.index.find_symbol_at_position(offset)?;
            let mut out = vec![];
            for fb in &doc.index.function_bodies {
                let ud = doc.index.get_by_symbol_kind(symbol.symbol_kind, Some(fb))?.get(&symbol.name)?;
                out.extend(ud.uses.iter().filter_map(|u| Some(Location { uri: uri.clone(), range: range_to_lsp(&doc.rope, u)? })));
            }
            Some(out)
        })();'''))
I = 'src/hir_index.rs'
v('scope-first-body', 'C16', (M, '''                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits''', '''                    doc.index.function_bodies.iter().find(|f| f.labels.contains_key(&symbol.name) || f.local_vars.contains_key(&symbol.name)),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits'''))
v('scope-last-body', None, (I, '''            SymbolKind::Label => &mut self.function_bodies[func_body_id].labels,
''', '''            SymbolKind::Label => &mut self.function_bodies.last_mut().unwrap().labels,
'''))
v('scope-get', None, (M, '''                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits''', '''                    symbol.func_body_id.and_then(|id| doc.index.function_bodies.get(id)),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits'''))
v('scope-helper', None, (I, '''    pub fn find_symbol_at_position''', '''    pub fn body_of(&self, s: &SymbolOccurrence) -> Option<&FunctionBody> {
        let id = s.func_body_id?;
        Some(&self.function_bodies[id])
    }

    pub fn find_symbol_at_position'''), (M, '''                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits''', '''                    doc.index.body_of(symbol),
                )
                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;
            get_rename_edits'''))

# ---------------------------------------------------------------- C01
L, RN, B, T, PA = 'src/lsp_utils.rs', 'src/rename.rs', 'src/backtrace.rs', 'src/hir_tokenizer.rs', 'src/hir_parser.rs'
# quiet
v('pan-q-contains', None, (M, '''                .and_then(|m| m.get(&symbol.name))
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;''', '''                .filter(|m| m.contains_key(&symbol.name))
                .map(|m| &m[&symbol.name])
                .ok_or_else(|| Error::invalid_params("No symbol at the given position"))?;'''))
v('pan-q-issome', None, (M, '''            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }''', '''            if new_name.starts_with(prefix) {
                new_name = new_name[prefix.len()..].to_string();
            }'''))
v('pan-q-split', None, (B, '''    path.split_at(separator_pos.map(|p| p + 1).unwrap_or(0)).1''', '''    match separator_pos {
        Some(p) => &path[p + 1..],
        None => path,
    }'''))
v('pan-q-num', None, (RN, '''    let (name, nr) = id.split_at(offset);''', '''    let name = &id[..offset];
    let nr = &id[offset..];'''))
v('pan-q-first', None, (I, '''                    let start = def.first().unwrap().1.start;
                    let end = def.last().unwrap().1.end;''', '''                    let start = def[0].1.start;
                    let end = def[def.len() - 1].1.end;'''))
v('pan-q-iflet', None, (I, '''                if !def.is_empty() {
                    let start = def.first().unwrap().1.start;
                    let end = def.last().unwrap().1.end;
                    let value''', '''                if let (Some(first), Some(last)) = (def.first(), def.last()) {
                    let start = first.1.start;
                    let end = last.1.end;
                    let value'''))
v('pan-q-getmut', None, (I, '''                                index
                                    .functions
                                    .get_mut(funcname)
                                    .unwrap()
                                    .external_defs''', '''                                index
                                    .functions
                                    .entry(funcname.clone())
                                    .or_default()
                                    .external_defs'''))
v('pan-q-lensplit', None, (I, '''                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {''', '''                        let parts = dbgstr.split(':').collect::<Vec<_>>();
                        if parts.len() == 2 {
                            let filepath = parts[0];
                            let linestr = parts[1];'''))
v('pan-q-line', None, (M, '''                        start: Position::new(d.line.saturating_sub(1), 0),''', '''                        start: Position::new(if d.line > 0 { d.line - 1 } else { 0 }, 0),'''))
v('pan-q-linezero', None, (M, '''                        start: Position::new(d.line.saturating_sub(1), 0),''', '''                        start: Position::new(if d.line == 0 { 0 } else { d.line - 1 }, 0),'''))
v('pan-q-while', None, (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            let mut i = 0;
            while i < ud.defs.len() {
                let _ = &ud.defs[i];
                i += 1;
            }
            if ud.decls.is_empty() && ud.defs.is_empty() {'''))
v('pan-q-range', None, (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            for i in 0..ud.defs.len() {
                let _ = &ud.defs[i];
            }
            if ud.decls.is_empty() && ud.defs.is_empty() {'''))
v('pan-q-windows', None, (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {''', '''            for w in ud.defs.windows(2) {
                let _ = w[0].start <= w[1].start;
            }
            if ud.decls.is_empty() && ud.defs.is_empty() {'''))
v('pan-q-unwrap-after-some', None, (M, '''                        let dbg_ref = stmt.dbg_ref.as_ref()?;''', '''                        if stmt.dbg_ref.is_none() {
                            return None;
                        }
                        let dbg_ref = stmt.dbg_ref.as_ref().unwrap();'''))
v('pan-q-expect-lock', None, (M, '''                let root_paths = self.root_paths.lock().unwrap();
                let uri = resolve''', '''                let root_paths = self.root_paths.lock().expect("poisoned");
                let uri = resolve'''))
v('pan-q-debug-assert', None, (L, '''    let first = rope.try_line_to_char(line).ok()?;''', '''    let first = rope.try_line_to_char(line).ok()?;
    debug_assert!(first <= rope.len_chars());'''))
v('pan-q-shorten', None, (B, '''        s.chars().take(len - 2).collect::<String>() + "…"''', '''        let end = s.char_indices().nth(len - 2).map_or(s.len(), |(i, _)| i);
        s[..end].to_string() + "…"'''))
v('pan-q-relrename', None, (M, '''            let rename_nr = new_name[1..].parse::<i64>()''', '''            let digits = new_name.strip_prefix(['+', '-']).unwrap_or(&new_name);
            let rename_nr = digits.parse::<i64>()'''))
v('pan-q-firstlast', None, (PA, '''                        start: instructions.first().unwrap().span.start,
                        end: instructions.last().unwrap().span.end,''', '''                        start: instructions[0].span.start,
                        end: instructions[instructions.len() - 1].span.end,'''))
v('pan-q-tooltip', None, (B, '''        let frame = &frames[idx];''', '''        let frame = frames.get(idx).expect("index of a frame");'''))
v('pan-q-unreach', None, (M, '''                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
            };''', '''                hyper_ir_lsp::hir_index::SymbolKind::LocalVar => "%",
                #[allow(unreachable_patterns)]
                _ => unreachable!(),
            };'''))
v('pan-q-checked', None, (L, '''    Some(first + line.try_char_to_byte(char).ok()?)''', '''    first.checked_add(line.try_char_to_byte(char).ok()?)'''))
# reported
v('pan-slice-prefix', 'C01', (M, '''            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }''', '''            if !prefix.is_empty() {
                new_name = new_name[prefix.len()..].to_string();
            }'''))
v('pan-parse-unwrap', 'C01', (RN, '''    Some((name, nr.parse::<i64>().ok()?))''', '''    if nr.is_empty() {
        return None;
    }
    Some((name, nr.parse::<i64>().unwrap()))'''))
v('pan-mul', 'C01', (M, '''rename_nr.wrapping_mul(sign)''', '''rename_nr * sign'''))
v('pan-add', 'C01', (RN, '''nr.wrapping_add(shift).unsigned_abs()''', '''(nr + shift).unsigned_abs()'''))
v('pan-abs', 'C01', (RN, '''nr.wrapping_add(shift).unsigned_abs()''', '''nr.wrapping_add(shift).abs()'''))
v('pan-line-sub', 'C01', (M, '''                        start: Position::new(d.line.saturating_sub(1), 0),''', '''                        start: Position::new(d.line - 1, 0),'''))
v('pan-line-end', 'C01', (M, '''                        end: Position::new(d.line.saturating_sub(1), 0),''', '''                        end: Position::new(d.line + 1, 0),'''))
v('pan-id-index', 'C01', (RN, '''func_body_id.and_then(|id| index.function_bodies.get(id))''', '''func_body_id.map(|id| &index.function_bodies[id])'''))
v('pan-first', 'C01', (I, '''                if !def.is_empty() {
                    let start = def.first()''', '''                {
                    let start = def.first()'''))
v('pan-parser-first', 'C01', (PA, '''                .repeated()
                .at_least(1)
                .collect::<Vec<_>>()
                .map(|instructions| {
                    let span''', '''                .repeated()
                .collect::<Vec<_>>()
                .map(|instructions| {
                    let span'''))
v('pan-rope-line', 'C01', (L, '''    let line = rope.get_line(pos.line as usize)?;''', '''    let line = rope.line(pos.line as usize);'''))
v('pan-pos-unwrap', 'C01', (M, '''            let offset = lsp_pos_to_offset(&doc.rope, &range.start)?;''', '''            let offset = lsp_pos_to_offset(&doc.rope, &range.start).unwrap();'''))
v('pan-doc-unwrap', 'C01', (M, '''            let uri = &params.text_document.uri;
            let uri_str = uri.to_string();
            let doc = self.document_map.get(&uri_str)?;
            let mut folding_ranges''', '''            let uri = &params.text_document.uri;
            let uri_str = uri.to_string();
            let doc = self.document_map.get(&uri_str).unwrap();
            let mut folding_ranges'''))
v('pan-split-idx', 'C01', (I, '''                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {''', '''                        let parts = dbgstr.split(':').collect::<Vec<_>>();
                        {
                            let filepath = parts[0];
                            let linestr = parts[1];'''))
v('pan-shorten', 'C01', (B, '''        s.chars().take(len - 2).collect::<String>() + "…"''', '''        s[..len - 2].to_string() + "…"'''))
v('pan-shorten-path', 'C01', (B, '''    path.split_at(separator_pos.map(|p| p + 1).unwrap_or(0)).1''', '''    path.split_at(separator_pos.map(|p| p + 2).unwrap_or(0)).1'''))
v('pan-json-index', 'C01', (B, '''            let json_name = frame.get(0).and_then(|e| e.as_str());''', '''            let json_name = frame.as_array().map(|f| &f[0]).and_then(|e| e.as_str());'''))
v('pan-roots', 'C01', (B, '''        uri.path_segments_mut().ok()?.extend''', '''        uri.path_segments_mut().unwrap().extend'''))
v('pan-json-unwrap', 'C01', (M, '''serde_json::from_str::<serde_json::Value>(json_txt).ok()?''', '''serde_json::from_str::<serde_json::Value>(json_txt).unwrap()'''))
v('pan-cfg-label', 'C01', ('src/control_flow_graph.rs', '''if i.is_branching() && bb.label.is_some() {''', '''if i.is_branching() && !i.basic_block_refs.is_empty() {'''))
v('pan-todo', 'C01', (M, '''        if range.start != range.end {
            return Ok(None);
        }''', '''        if range.start != range.end {
            unimplemented!("ranges");
        }'''))
v('pan-changes', 'C01', (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };''', '''        let change = params.content_changes.remove(0);'''))
v('pan-assert-ascii', 'C01', (RN, '''    let offset = id.trim_end''', '''    assert!(id.is_ascii());
    let offset = id.trim_end'''))
v('pan-sem-len', 'C01', ('src/semantic_token.rs', '''            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu();''', '''            let length = slice.get_byte_slice(..token.length)?.len_utf16_cu() - 1;'''))
v('pan-reverse', 'C01', (I, '''            .find(|e| e.span.contains(&pos))
''', '''            .find(|e| e.span.contains(&pos) && pos - e.span.start < e.span.end - pos - 1)
'''))
v('pan-clear', 'C01', (I, '''                let func_body_id = index.function_bodies.len() - 1;''', '''                if body.basic_blocks.is_empty() {
                    index.function_bodies.pop();
                }
                let func_body_id = index.function_bodies.len() - 1;'''))

import importlib.util as _u, os as _o
for _n in ('refactors2', 'refactors3', 'refactors4', 'refactors5', 'refactors6', 'refactors7', 'refactors8', 'refactors9', 'refactors10', 'refactors11', 'refactors12', 'refactors13'):
    _s = _u.spec_from_file_location(_n, _o.path.join(_o.path.dirname(_o.path.abspath(__file__)), _n + '.py'))
    _m = _u.module_from_spec(_s)
    _s.loader.exec_module(_m)
    _m.add(v)
