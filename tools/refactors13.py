"""Behaviour-preserving edits with less common library calls and control flow (r14-*), and bugs among them (b14-*); see refactors.py."""
M, T, PA, I, D, RN, L, S, B, G = ['src/' + f for f in (
    'main.rs', 'hir_tokenizer.rs', 'hir_parser.rs', 'hir_index.rs', 'diagnostics.rs', 'rename.rs', 'lsp_utils.rs',
    'semantic_token.rs', 'backtrace.rs', 'control_flow_graph.rs')]


def add(v):
    # a visitor called through a trait object
    CFG = '''    for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            if i.is_branching() && bb.label.is_some() {
                for target in &i.basic_block_refs {
                    let from_lbl = escape_dot_label(&bb.label.as_ref().unwrap().0);
                    let to_lbl = escape_dot_label(&target.0);
                    graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                }
            }
        }
    }
'''
    def visitor(cond): return ((G, CFG, '''    visit_edges(func_body, &mut |from, to| {
        graph.push_str(&format!(
            "  {} -> {}\\n",
            escape_dot_label(from),
            escape_dot_label(to)
        ));
    });
'''), (G, 'pub fn create_cfg_dot', '''fn visit_edges(func_body: &FunctionBody, visit: &mut dyn FnMut(&str, &str)) {
    for bb in &func_body.basic_blocks {
        if let Some(label) = &bb.label {
            for i in bb.instructions.iter().filter(|i| %s) {
                i.basic_block_refs
                    .iter()
                    .for_each(|target| visit(&label.0, &target.0));
            }
        }
    }
}

pub fn create_cfg_dot''' % cond))
    v('r14-cfg-dyn', None, *visitor('i.is_branching()'))
    v('b14-cfg-dyn', 'C13', *visitor('i.is_branching() && i.dbg_ref.is_none()'))
    v('r14-cfg-generic', None, *[(a, b, c.replace('&mut |from, to|', '|from, to|').replace('visit: &mut dyn FnMut(&str, &str)', 'mut visit: impl FnMut(&str, &str)')) for a, b, c in visitor('i.is_branching()')])
    # an iterator type of its own
    v('r14-cfg-fromfn', None, (G, CFG, '''    let mut blocks = func_body.basic_blocks.iter();
    let labelled = std::iter::from_fn(move || loop {
        let bb = blocks.next()?;
        if let Some(label) = &bb.label {
            return Some((label, bb));
        }
    });
    for (label, bb) in labelled {
        for i in &bb.instructions {
            if !i.is_branching() {
                continue;
            }
            for target in &i.basic_block_refs {
                graph.push_str(&format!(
                    "  {} -> {}\\n",
                    escape_dot_label(&label.0),
                    escape_dot_label(&target.0)
                ));
            }
        }
    }
'''))
    v('r14-cfg-labels', None, (G, CFG, '''    'blocks: for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            let Some(label) = &bb.label else {
                continue 'blocks;
            };
            if !i.is_branching() {
                continue;
            }
            let mut k = 0;
            while k < i.basic_block_refs.len() {
                let to_lbl = escape_dot_label(&i.basic_block_refs[k].0);
                let from_lbl = escape_dot_label(&label.0);
                graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                k += 1;
            }
        }
    }
'''))
    v('b14-cfg-labels', 'C13', (G, CFG, '''    'blocks: for bb in &func_body.basic_blocks {
        for i in &bb.instructions {
            let Some(label) = &bb.label else {
                continue 'blocks;
            };
            if !i.is_branching() {
                continue;
            }
            let mut k = 0;
            while k < i.basic_block_refs.len() {
                let to_lbl = escape_dot_label(&i.basic_block_refs[k].0);
                let from_lbl = escape_dot_label(&label.0);
                graph.push_str(format!("  {} -> {}\\n", from_lbl, to_lbl).as_str());
                if to_lbl == from_lbl {
                    continue 'blocks;
                }
                k += 1;
            }
        }
    }
'''))
    # Option combinators
    v('r14-rel-then', None, (M, '''            let sign = if new_name.starts_with('-') { -1 } else { 1 };
''', '''            let sign = new_name.starts_with('-').then_some(-1).unwrap_or(1);
'''))
    v('r14-lens-zip', None, (M, '''                    if let [def_range] = &f.1.defs[..] {
                        Some(CodeLens {
                            range: range_to_lsp(&doc.rope, def_range)?,''', '''                    if f.1.defs.len() == 1 {
                        let def_range = f.1.defs.first()?;
                        Some(CodeLens {
                            range: range_to_lsp(&doc.rope, def_range)?,'''))
    v('r14-lens-someand', None, (M, '''                    // Only show the code lens for functions with exactly one definition
                    if let [def_range] = &f.1.defs[..] {''', '''                    let mut defs = f.1.defs.iter();
                    let first = defs.next();
                    let single = first.filter(|_| defs.next().is_none());
                    if let Some(def_range) = single {'''))
    v('b14-lens-last', 'C17', (M, '''                    if let [def_range] = &f.1.defs[..] {''', '''                    if let [.., def_range] = &f.1.defs[..] {'''))
    v('r14-range-zip', None, (L, '''    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })''', '''    offset_to_lsp_pos(rope, span.start)
        .zip(offset_to_lsp_pos(rope, span.end))
        .map(|(start, end)| Range { start, end })'''))
    v('r14-range-array', None, (L, '''    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })''', '''    let [start, end] = [span.start, span.end].map(|o| offset_to_lsp_pos(rope, o));
    Some(Range::new(start?, end?))'''))
    # edits collected with try_fold / extend / mem::take
    v('r14-edits-take', None, (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()''', '''    let mut edits = Vec::with_capacity(usedefs.decls.len() + usedefs.defs.len() + usedefs.uses.len());
    for spans in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        edits.extend(
            spans
                .iter()
                .filter_map(|span| range_to_lsp(rope, span))
                .map(|range| TextEdit::new(range, new_name.to_owned())),
        );
    }
    std::mem::take(&mut edits)'''))
    v('b14-edits-mem', 'C11', (RN, '''    usedefs
        .decls
        .iter()
        .chain(usedefs.defs.iter())
        .chain(usedefs.uses.iter())
        .filter_map(move |range| {
            Some(TextEdit {
                range: range_to_lsp(rope, range)?,
                new_text: new_name.to_string(),
            })
        })
        .collect()''', '''    let mut all = Vec::new();
    let mut edits = Vec::new();
    for spans in [&usedefs.decls, &usedefs.defs, &usedefs.uses] {
        edits.extend(
            spans
                .iter()
                .filter_map(|span| range_to_lsp(rope, span))
                .map(|range| TextEdit::new(range, new_name.to_owned())),
        );
        if edits.len() > 1 {
            all = std::mem::take(&mut edits);
        }
    }
    all.append(&mut edits);
    all'''))
    v('r14-find-loop', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        let mut it = self.reverse_idx.values();
        loop {
            match it.next() {
                Some(e) if e.span.contains(&pos) => break Some(e),
                Some(_) => {}
                None => break None,
            }
        }
'''))
    v('r14-find-filter', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .values()
            .filter(|e| e.span.start <= pos)
            .find(|e| pos < e.span.end)
'''))
    v('b14-find-skip', 'C10', (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .values()
            .skip_while(|e| e.span.end < pos)
            .next()
            .filter(|e| e.span.contains(&pos))
'''))
    v('r14-find-skip', None, (I, '''        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
''', '''        self.reverse_idx
            .values()
            .take_while(|e| e.span.start <= pos)
            .last()
            .filter(|e| e.span.contains(&pos))
'''))
    v('r14-diag-foreach', None, (D, '''            if ud.decls.is_empty() && ud.defs.is_empty() {
                let diags = ud
                    .uses
                    .iter()
                    .filter_map(move |use_| {
                        let message = format!("Use of undefined symbol `{}`", name);
                        Some(Diagnostic::new_simple(range_to_lsp(rope, use_)?, message))
                    })
                    .collect::<Vec<_>>();
                Some(diags)
            }''', '''            let known = [&ud.decls, &ud.defs].iter().any(|l| !l.is_empty());
            if !known {
                let mut diags = Vec::new();
                ud.uses
                    .iter()
                    .flat_map(|use_| range_to_lsp(rope, use_))
                    .for_each(|range| {
                        let message = format!("Use of undefined symbol `{name}`");
                        diags.push(Diagnostic::new_simple(range, message))
                    });
                Some(diags)
            }'''))
    v('r14-diag-split', None, (D, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {''', '''            } else if let [_, later @ ..] = &ud.defs[..] {
                let diags = later
                    .iter()
                    .filter_map(move |use_| {'''))
    v('b14-diag-split', 'C12', (D, '''            } else if ud.defs.len() > 1 {
                let diags = ud
                    .defs
                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {''', '''            } else if let [_, later @ .., _] = &ud.defs[..] {
                let diags = later
                    .iter()
                    .filter_map(move |use_| {'''))
    v('r14-hints-append', None, (M, '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::new();
''', '''            let mut inlay_hints: Vec<InlayHint> = Vec::<InlayHint>::with_capacity(
                doc.index.function_bodies.len() + doc.index.dgb_annotation_values.len(),
            );
'''))
    v('r14-parts-peek', None, (M, '''                                    InlayHintLabelPart {
                                        value: (if idx == 0 { "incoming: " } else { ", " })
                                            .to_string(),
                                        ..Default::default()
                                    },''', '''                                    InlayHintLabelPart {
                                        value: match idx {
                                            0 => String::from("incoming: "),
                                            _ => String::from(", "),
                                        },
                                        location: None,
                                        tooltip: None,
                                        command: None,
                                    },'''))
    v('r14-sem-const', None, (S, '''    HIRSemanticToken {
        start: span.start,
        length: span.len(),
        token_type: LEGEND_TYPE.iter().position(|item| item == ttype).unwrap(),
    }''', '''    let mut token_type = 0;
    for (k, item) in LEGEND_TYPE.iter().enumerate() {
        if item == ttype {
            token_type = k;
        }
    }
    HIRSemanticToken {
        start: span.start,
        length: span.end - span.start,
        token_type,
    }'''))
    v('r14-sem-mem', None, (S, '''            pre_line = line;
            pre_start = start;
            ret''', '''            (pre_line, pre_start) = (line, start);
            ret'''))
    v('r14-sem-replace', None, (S, '''            let delta_line = line - pre_line;
            let delta_start = if delta_line == 0 {
                start - pre_start
            } else {
                start
            };''', '''            let delta_line = line - std::mem::replace(&mut pre_line, line);
            let previous = std::mem::replace(&mut pre_start, start);
            let delta_start = if delta_line > 0 { start } else { start - previous };'''), (S, '''            pre_line = line;
            pre_start = start;
            ret''', '''            ret'''))
    v('r14-num-bytes', None, (RN, '''    let offset = id.trim_end_matches(char::is_numeric).len();
    let (name, nr) = id.split_at(offset);
    Some((name, nr.parse::<i64>().ok()?))''', '''    let name = id.trim_end_matches(char::is_numeric);
    let nr = id.strip_prefix(name)?;
    nr.parse().ok().map(|nr| (name, nr))'''))
    v('r14-shift-neg', None, (RN, '''            if nr < renamed_nr {
                return None;
            }
            let new_name = format!("{}{}", prefix, nr.wrapping_add(shift).unsigned_abs());
            Some(get_rename_edits(rope, usedefs, &new_name))''', '''            (nr >= renamed_nr).then(|| {
                let mut new_name = String::from(prefix);
                new_name.push_str(&nr.wrapping_add(shift).unsigned_abs().to_string());
                get_rename_edits(rope, usedefs, &new_name)
            })'''))
    v('r14-open-struct', None, (M, '''        self.on_change(TextDocumentItem {
            uri: params.text_document.uri,
            text: params.text_document.text,
            version: params.text_document.version,
        })
        .await
    }

    async fn did_change''', '''        let tower_lsp::lsp_types::TextDocumentItem {
            uri, text, version, ..
        } = params.text_document;
        self.on_change(TextDocumentItem { uri, text, version }).await
    }

    async fn did_change'''))
    v('r14-change-rev', None, (M, '''        let Some(change) = params.content_changes.pop() else {
            return;
        };
        self''', '''        let n = params.content_changes.len();
        if n == 0 {
            return;
        }
        let change = params.content_changes.swap_remove(n - 1);
        self'''))
    v('r14-change-fold', None, (M, '''    async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
        // We use full document sync. In case of multiple changes, the last one wins.
        let Some(change) = params.content_changes.pop() else {
            return;
        };''', '''    async fn did_change(&self, params: DidChangeTextDocumentParams) {
        let Some(change) = params.content_changes.into_iter().reduce(|_, last| last) else {
            return;
        };'''))
    v('b14-change-fold', 'C03', (M, '''    async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
        // We use full document sync. In case of multiple changes, the last one wins.
        let Some(change) = params.content_changes.pop() else {
            return;
        };''', '''    async fn did_change(&self, params: DidChangeTextDocumentParams) {
        let Some(change) = params
            .content_changes
            .into_iter()
            .reduce(|first, last| if last.text.is_empty() { first } else { last })
        else {
            return;
        };'''))
    v('r14-resolve-any', None, (B, '''    root_paths.iter().find_map(|baseuri| {
        let mut uri = baseuri.clone();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        if uri.to_file_path().ok()?.exists() {
            Some(uri)
        } else {
            None
        }
    })''', '''    let candidate = |baseuri: &Url| -> Option<Url> {
        let mut uri = baseuri.to_owned();
        uri.path_segments_mut().ok()?.extend(path.split('/'));
        Some(uri)
    };
    root_paths
        .iter()
        .filter_map(candidate)
        .find(|uri| matches!(uri.to_file_path(), Ok(p) if p.exists()))'''))
    v('r14-relevant-iter', None, (B, '''    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }

    // As a fallback, find the first, non-internal frame. We consider everything inside the
    // `hyper/ir` and the `hyper/codegen` folder as internal. Those are our codegen
    // utilities.
    frames.iter().position(|f| match &f.filepath {
        Some(fp) => !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"),
        None => false,
    })''', '''    let index_of = |wanted: &dyn Fn(&Frame) -> bool| frames.iter().position(wanted);
    symbol_preferences
        .iter()
        .find_map(|pref| index_of(&|f| f.symbol.contains(pref)))
        .or_else(|| {
            index_of(&|f| {
                f.filepath
                    .as_deref()
                    .is_some_and(|fp| !fp.contains("hyper/ir/") && !fp.contains("hyper/codegen"))
            })
        })'''))
    v('r14-md-lines', None, (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let mut md = String::new();
    for frame in frames {
        if !md.is_empty() {
            md.push('\\n');
        }
        md.push_str("* ");
        md.push_str(&format_frame_as_md(frame));
    }
    md'''))
    v('b14-md-lines', 'C22', (B, '''    frames
        .iter()
        .map(|frame| format!("* {}", format_frame_as_md(frame)))
        .collect::<Vec<_>>()
        .join("\\n")''', '''    let mut md = String::new();
    for frame in frames {
        if md.len() > 4000 {
            break;
        }
        if !md.is_empty() {
            md.push('\\n');
        }
        md.push_str("* ");
        md.push_str(&format_frame_as_md(frame));
    }
    md'''))
    v('r14-exec-arity', None, (M, '''            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {''', '''            ("visualize-cfg", args @ [Value::String(doc_uri), Value::String(func_name)])
                if args.len() == 2 =>
            {'''))
    v('r14-ext-parse', None, (I, '''                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {''', '''                        let mut parts = dbgstr.split(':');
                        if let (Some(filepath), Some(linestr), None) =
                            (parts.next(), parts.next(), parts.next())
                        {
                            if let Ok(line) = linestr.parse::<u32>() {'''))
    v('b14-ext-parse', 'C19', (I, '''                        if let [filepath, linestr] = dbgstr.split(':').collect::<Vec<_>>()[..] {
                            if let Ok(line) = linestr.parse::<u32>() {''', '''                        let mut parts = dbgstr.split(':');
                        if let (Some(filepath), Some(linestr)) = (parts.next(), parts.next()) {
                            if let Ok(line) = linestr.parse::<u32>() {'''))
    v('r14-encl-cache', None, (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
                if let Some(func_body_id) = func_body_id {''', '''                let still_inside = match func_body_id {
                    Some(id) => index.function_bodies[id].complete_range.contains(&t.1.start),
                    None => false,
                };
                if !still_inside {
                    func_body_id = None;
                    for (id, body) in index.function_bodies.iter().enumerate() {
                        if body.complete_range.contains(&t.1.start) {
                            func_body_id = Some(id);
                            break;
                        }
                    }
                }
                if let Some(func_body_id) = func_body_id {'''))
    v('b14-encl-cache', 'C15', (I, '''                if func_body_id.is_none()
                    || !index.function_bodies[func_body_id.unwrap()]
                        .complete_range
                        .contains(&t.1.start)
                {
                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
                }
                if let Some(func_body_id) = func_body_id {''', '''                let still_inside = match func_body_id {
                    Some(id) => index.function_bodies[id].complete_range.contains(&t.1.start),
                    None => false,
                };
                if !still_inside {
                    for (id, body) in index.function_bodies.iter().enumerate() {
                        if body.complete_range.contains(&t.1.start) {
                            func_body_id = Some(id);
                            break;
                        }
                    }
                }
                if let Some(func_body_id) = func_body_id {'''))
    v('r14-root-take', None, (M, '''        if let Some(workspace_folders) = params.workspace_folders {
            self.root_paths
                .lock()
                .unwrap()
                .extend(workspace_folders.iter().map(|f| f.uri.clone()));
        } else if let Some(root_uri) = params.root_uri {
            self.root_paths.lock().unwrap().push(root_uri);
        }''', '''        let mut roots: Vec<Url> = match params.workspace_folders {
            Some(folders) => folders.into_iter().map(|f| f.uri).collect(),
            None => params.root_uri.into_iter().collect(),
        };
        self.root_paths.lock().unwrap().append(&mut roots);'''))
    v('r14-fold-lines', None, (M, '''                let range = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: range.start.line,
                    start_character: None,
                    end_line: range.end.line,
                    end_character: None,
                    kind: None,
                    collapsed_text: Some(collapsed_text),
                })''', '''                let Range { start, end } = range_to_lsp(&doc.rope, &f.complete_range)?;
                Some(FoldingRange {
                    start_line: start.line,
                    end_line: end.line,
                    collapsed_text: Some(collapsed_text),
                    ..Default::default()
                })'''))
