"""Edits of the tokenizer and the parser which keep the behaviour (see refactors.py).  `all:` in front of the old text: every occurrence."""
T, PA = 'src/hir_tokenizer.rs', 'src/hir_parser.rs'


def add(v):
    # ---------------------------------------------------------------- parser
    v('gr-newline-let', None, (PA, 'all:just(Token::Newline).repeated()', 'newline.clone().repeated()'),
      (PA, '    let eol = just(Token::Newline).or(end().to(Token::Newline));', '    let newline = just(Token::Newline);\n    let eol = just(Token::Newline).or(end().to(Token::Newline));'))
    v('gr-newlines-let', None, (PA, 'all:.padded_by(just(Token::Newline).repeated())', '.padded_by(newlines.clone())'),
      (PA, '    let eol = just(Token::Newline).or(end().to(Token::Newline));', '    let newlines = just(Token::Newline).repeated();\n    let eol = just(Token::Newline).or(end().to(Token::Newline));'))
    v('gr-punct-fn', None, (PA, 'all:just(Token::Punctuation(\',\'))', "punct(',')"), (PA, 'all:just(Token::Punctuation(\'=\'))', "punct('=')"),
      (PA, 'pub fn parser() ->', '''fn punct(c: char) -> impl Parser<Token, Token, Error = Simple<Token>> + Clone {
    just(Token::Punctuation(c))
}

pub fn parser() ->'''))
    v('gr-punct-closure', None, (PA, 'all:just(Token::Punctuation(\',\'))', "punct(',')"), (PA, 'all:just(Token::Ident("cont".to_string()))', 'word("cont")'), (PA, 'all:just(Token::Ident("br".to_string()))', 'word("br")'),
      (PA, '    let eol = just(Token::Newline).or(end().to(Token::Newline));', '''    let punct = |c: char| just::<_, _, Simple<Token>>(Token::Punctuation(c));
    let word = |s: &str| just::<_, _, Simple<Token>>(Token::Ident(s.to_string()));
    let eol = just(Token::Newline).or(end().to(Token::Newline));'''))
    v('gr-span-fn', None, (PA, 'all:.map_with_span(|_, span| span)', '.map_with_span(only_span)'),
      (PA, 'pub fn parser() ->', '''fn only_span(_: Token, span: Span) -> Span {
    span
}

pub fn parser() ->'''))
    v('gr-ident-select', None, (PA, '''    let ident = filter_map(|span, token| match token {
        Token::Ident(str) => Ok((str, span)),
        _ => Err(Simple::custom(span, "expected global name")),
    });''', '''    let ident = select! { |span| Token::Ident(str) => (str, span) };'''))
    v('gr-ident-iflet', None, (PA, '''    let ident = filter_map(|span, token| match token {
        Token::Ident(str) => Ok((str, span)),
        _ => Err(Simple::custom(span, "expected global name")),
    });''', '''    let ident = filter_map(|span, token| {
        if let Token::Ident(str) = token {
            Ok((str, span))
        } else {
            Err(Simple::custom(span, "expected identifier"))
        }
    });'''))
    v('gr-name-fn', None, (PA, '''    let global_name = filter_map(|span, token| match token {
        Token::GlobalName(str) => Ok((str, span)),
        _ => Err(Simple::custom(span, "expected global name")),
    });
    let local_name = filter_map(|span, token: Token| match token {
        Token::LocalName(str) => Ok((str, span)),
        _ => Err(Simple::custom(span, "expected local name")),
    });''', '''    fn global_name_of(span: Span, token: Token) -> Result<Spanned<String>, Simple<Token>> {
        match token {
            Token::GlobalName(name) => Ok((name, span)),
            _ => Err(Simple::custom(span, "expected global name")),
        }
    }
    fn local_name_of(span: Span, token: Token) -> Result<Spanned<String>, Simple<Token>> {
        let Token::LocalName(name) = token else {
            return Err(Simple::custom(span, "expected local name"));
        };
        Ok((name, span))
    }
    let global_name = filter_map(global_name_of);
    let local_name = filter_map(local_name_of);'''))
    v('gr-choice', None, (PA, '''            br_instruction
                .or(condbr_instruction)
                .or(overflowbr_instruction)
                .or(switch_instruction)
                .or(phi_instruction)
                .or(any_instruction),
''', '''            choice((
                br_instruction,
                condbr_instruction,
                overflowbr_instruction,
                switch_instruction,
                phi_instruction,
                any_instruction,
            )),
'''), (PA, '''    global_var
        .or(func_decl)
        .or(func_def)
        .or(func_dependencies)
        .or(dbg_annotation)
''', '''    let statement = choice((
        global_var,
        func_decl,
        func_def,
        func_dependencies,
        dbg_annotation,
    ));
    statement
'''))
    v('gr-choice-order', None, (PA, '''    global_var
        .or(func_decl)
        .or(func_def)
        .or(func_dependencies)
        .or(dbg_annotation)
''', '''    dbg_annotation
        .or(func_def)
        .or(func_decl)
        .or(global_var)
        .or(func_dependencies)
'''))
    v('gr-instr-order', None, (PA, '''            br_instruction
                .or(condbr_instruction)
                .or(overflowbr_instruction)
                .or(switch_instruction)
''', '''            condbr_instruction
                .or(br_instruction)
                .or(overflowbr_instruction)
                .or(switch_instruction)
'''))
    INS = '''Instruction {
            assignment_target: None,
            instruction,
            basic_block_refs: %s,
            dbg_ref,
            span,
        }'''
    v('gr-instr-new', None, (PA, '.map_with_span(|((instruction, target), dbg_ref), span| ' + INS % 'vec![target]', '.map_with_span(|((instruction, target), dbg_ref), span| {\n            Instruction::new(instruction, vec![target], dbg_ref, span)\n        }'),
      (PA, '.map_with_span(|((instruction, targets), dbg_ref), span| ' + INS % 'targets', '.map_with_span(|((instruction, targets), dbg_ref), span| {\n            Instruction::new(instruction, targets, dbg_ref, span)\n        }'),
      (PA, '.map_with_span(|(instruction, dbg_ref), span| ' + INS % 'vec![]', '.map_with_span(|(instruction, dbg_ref), span| {\n            Instruction::new(instruction, Vec::new(), dbg_ref, span)\n        }'),
      (PA, '''impl Instruction {
''', '''impl Instruction {
    fn new(
        instruction: Spanned<String>,
        basic_block_refs: Vec<Spanned<String>>,
        dbg_ref: Option<Spanned<String>>,
        span: Span,
    ) -> Self {
        Instruction {
            assignment_target: None,
            instruction,
            basic_block_refs,
            dbg_ref,
            span,
        }
    }

'''))
    v('gr-switch-chain', None, (PA, '''            |(((instruction, default_target), mut targets), dbg_ref), span| {
                targets.insert(0, default_target);
                Instruction {
                    assignment_target: None,
                    instruction,
                    basic_block_refs: targets,
''', '''            |(((instruction, default_target), targets), dbg_ref), span| {
                let all_targets = std::iter::once(default_target).chain(targets).collect();
                Instruction {
                    assignment_target: None,
                    instruction,
                    basic_block_refs: all_targets,
'''))
    v('gr-switch-vec', None, (PA, '''            |(((instruction, default_target), mut targets), dbg_ref), span| {
                targets.insert(0, default_target);
                Instruction {
                    assignment_target: None,
                    instruction,
                    basic_block_refs: targets,
''', '''            |(((instruction, default_target), targets), dbg_ref), span| {
                let mut basic_block_refs = vec![default_target];
                basic_block_refs.extend(targets);
                Instruction {
                    assignment_target: None,
                    instruction,
                    basic_block_refs,
'''))
    v('gr-body-chain', None, (PA, '''            |(((opening_bracket, initial_bb), mut bbs), closing_bracket)| {
                let mut basic_blocks = vec![];
                if let Some(initial_bb) = initial_bb {
                    basic_blocks.push(initial_bb);
                }
                basic_blocks.append(&mut bbs);
                FuncBody {''', '''            |(((opening_bracket, initial_bb), bbs), closing_bracket)| {
                let basic_blocks = initial_bb.into_iter().chain(bbs).collect::<Vec<_>>();
                FuncBody {'''))
    v('gr-body-insert', None, (PA, '''            |(((opening_bracket, initial_bb), mut bbs), closing_bracket)| {
                let mut basic_blocks = vec![];
                if let Some(initial_bb) = initial_bb {
                    basic_blocks.push(initial_bb);
                }
                basic_blocks.append(&mut bbs);
                FuncBody {''', '''            |(((opening_bracket, initial_bb), mut basic_blocks), closing_bracket)| {
                if let Some(initial_bb) = initial_bb {
                    basic_blocks.insert(0, initial_bb);
                }
                FuncBody {'''))
    v('gr-block-match', None, (PA, '''            let span = Span {
                start: label.1.start,
                end: instructions.last().map_or(label.1.end, |i| i.span.end),
            };
''', '''            let end = match instructions.last() {
                Some(last) => last.span.end,
                None => label.1.end,
            };
            let span = label.1.start..end;
'''))
    v('gr-block-map', None, (PA, '''                end: instructions.last().map_or(label.1.end, |i| i.span.end),
''', '''                end: instructions
                    .last()
                    .map(|i| i.span.end)
                    .unwrap_or(label.1.end),
'''))
    v('gr-block-fn', None, (PA, '''        .map(|((label, comma), instructions)| {
            let span = Span {
                start: label.1.start,
                end: instructions.last().map_or(label.1.end, |i| i.span.end),
            };
            BasicBlock {
                label: Some(label),
                label_comma_span: Some(comma),
                instructions,
                span,
            }
        });''', '''        .map(|((label, comma), instructions)| BasicBlock::labelled(label, comma, instructions));'''), (PA, '''impl Instruction {
''', '''impl BasicBlock {
    fn labelled(label: Spanned<String>, colon: Span, instructions: Vec<Instruction>) -> Self {
        let end = instructions.last().map_or(label.1.end, |i| i.span.end);
        BasicBlock {
            span: label.1.start..end,
            label: Some(label),
            label_comma_span: Some(colon),
            instructions,
        }
    }
}

impl Instruction {
'''))
    v('gr-delimited', None, (PA, '''        .then(func_args.delimited_by(just(Token::Punctuation('(')), just(Token::Punctuation(')'))))
''', '''        .then_ignore(just(Token::Punctuation('(')))
        .then(func_args)
        .then_ignore(just(Token::Punctuation(')')))
'''))
    v('gr-padded', None, (PA, '''        .padded_by(just(Token::Newline).repeated())
        .recover_with(skip_then_retry_until([]))
''', '''        .then_ignore(just(Token::Newline).repeated())
        .recover_with(skip_then_retry_until([]))
'''), (PA, '''    global_var
        .or(func_decl)
        .or(func_def)
        .or(func_dependencies)
        .or(dbg_annotation)
''', '''    let statement = global_var
        .or(func_decl)
        .or(func_def)
        .or(func_dependencies)
        .or(dbg_annotation);
    just(Token::Newline)
        .repeated()
        .ignore_then(statement)
'''))
    v('gr-eol-ignored', None, (PA, 'let eol = just(Token::Newline).or(end().to(Token::Newline));', 'let eol = just(Token::Newline).ignored().or(end());'))
    v('gr-stmt-fn', None, (PA, '''    // Global variables: `@name = <soup>`
    let global_var = global_name
        .then_ignore(just(Token::Punctuation('=')))
        .then(token_soup.clone())
        .then_ignore(eol.clone())
        .map(|(n, d)| Statement::GlobalVar { name: n, def: d });
''', '''    let soup_def = just(Token::Punctuation('='))
        .ignore_then(token_soup.clone())
        .then_ignore(eol.clone());

    // Global variables: `@name = <soup>`
    let global_var = global_name
        .then(soup_def.clone())
        .map(|(name, def)| Statement::GlobalVar { name, def });
'''), (PA, '''    let dbg_annotation = dbg_ref
        .then_ignore(just(Token::Punctuation('=')))
        .then(token_soup)
        .then_ignore(eol.clone())
        .map(|(n, def)| Statement::DbgAnnotation { name: n, def });
''', '''    let dbg_annotation = dbg_ref
        .then(soup_def)
        .map(|(name, def)| Statement::DbgAnnotation { name, def });
'''))
    v('gr-func-fn', None, (PA, '''    // Function arguments
    let func_arg = type_
        .then(local_name)
        .map(|(type_, name)| FuncArg { type_, name });

    // Function arguments
    let func_args = func_arg.separated_by(just(Token::Punctuation(',')));
''', '''    // Function arguments
    let func_args = func_args();
'''), (PA, 'pub fn parser() ->', '''fn func_args() -> impl Parser<Token, Vec<FuncArg>, Error = Simple<Token>> + Clone {
    let type_ = filter_map(|span, token: Token| match token {
        Token::Type(str) => Ok((str, span)),
        _ => Err(Simple::custom(span, "expected type name")),
    });
    let local_name = filter_map(|span, token: Token| match token {
        Token::LocalName(str) => Ok((str, span)),
        _ => Err(Simple::custom(span, "expected local name")),
    });
    type_
        .then(local_name)
        .map(|(type_, name)| FuncArg { type_, name })
        .separated_by(just(Token::Punctuation(',')))
}

pub fn parser() ->'''))
    v('gr-any-filter', None, (PA, '''            (just(Token::Newline).ignored())
                .or(dbg_ref.ignored())
                .not()
                .repeated(),
''', '''            filter(|t: &Token| !matches!(t, Token::Newline | Token::DebugRef(_))).repeated(),
'''))
    v('gr-br-shared', None, (PA, '''    let br_instruction = just(Token::Ident("br".to_string()))
        .map_with_span(|_, span| ("br".to_string(), span))
''', '''    let br_keyword = just(Token::Ident("br".to_string()))
        .map_with_span(|_, span| ("br".to_string(), span));
    let line_end = just(Token::Newline).rewind();
    let br_instruction = br_keyword
        .clone()
'''), (PA, '''    let condbr_instruction = just(Token::Ident("br".to_string()))
        .map_with_span(|_, span| ("br".to_string(), span))
        .then_ignore(just(Token::Type("int1".to_string())))
''', '''    let condbr_instruction = br_keyword
        .then_ignore(just(Token::Type("int1".to_string())))
'''), (PA, '''        .then(dbg_ref.or_not())
        .then_ignore(just(Token::Newline).rewind())
        .map_with_span(|((instruction, target), dbg_ref), span| Instruction {''', '''        .then(dbg_ref.or_not())
        .then_ignore(line_end)
        .map_with_span(|((instruction, target), dbg_ref), span| Instruction {'''))
    v('gr-dbg-let', None, (PA, 'all:        .then(dbg_ref.or_not())\n', '        .then(opt_dbg_ref.clone())\n'), (PA, '''    // In some places, we don't really''', '''    let opt_dbg_ref = dbg_ref.or_not();

    // In some places, we don't really'''))
    v('gr-decl-map', None, (PA, '''        .map(|((signature, addr), dbgref)| Statement::FuncDecl {
            signature,
            addr,
            dbgref,
        });
''', '''        .map(|(head, dbgref)| {
            let (signature, addr) = head;
            Statement::FuncDecl {
                signature,
                addr,
                dbgref,
            }
        });
'''))
    v('gr-def-map', None, (PA, '''        .map(|((define_kw, signature), body)| Statement::FuncDef {
            define_kw,
            signature,
            body,
        });
''', '''        .map(|parts| {
            let ((define_kw, signature), body) = parts;
            Statement::FuncDef {
                signature,
                body,
                define_kw,
            }
        });
'''))
    v('gr-instr-struct', None, (PA, '''        .map_with_span(|(target, instruction), span| Instruction {
            assignment_target: target,
            span,
            ..instruction
        });
''', '''        .map_with_span(|(target, mut instruction), span| {
            instruction.assignment_target = target;
            instruction.span = span;
            instruction
        });
'''))
    v('gr-branching-match', None, (PA, '''        self.instruction.0.ends_with("br") || self.instruction.0 == "switch"
''', '''        match self.instruction.0.as_str() {
            "switch" => true,
            name => name.ends_with("br"),
        }
'''))
    v('gr-branching-let', None, (PA, '''        self.instruction.0.ends_with("br") || self.instruction.0 == "switch"
''', '''        let (name, _) = &self.instruction;
        name == "switch" || name.ends_with("br")
'''))
    v('gr-branching-early', None, (PA, '''        self.instruction.0.ends_with("br") || self.instruction.0 == "switch"
''', '''        if self.instruction.0 == "switch" {
            return true;
        }
        self.instruction.0.ends_with("br")
'''))
    v('gr-depends', None, (PA, '''        .then_ignore(just(Token::Ident("depends".to_string())))
        .then_ignore(just(Token::Ident("on".to_string())))
''', '''        .then_ignore(
            just(Token::Ident("depends".to_string())).then(just(Token::Ident("on".to_string()))),
        )
'''))
    v('gr-addr-inline', None, (PA, '''    // A function address
    let func_addr = just(Token::Punctuation('=')).ignore_then(hexnum);

''', ''), (PA, '''        .then(func_addr.or_not())
''', '''        .then(
            just(Token::Punctuation('='))
                .ignore_then(hexnum)
                .or_not(),
        )
'''))
    v('gr-at-least', None, (PA, 'func_arg.separated_by(just(Token::Punctuation(\',\')));', 'func_arg\n        .separated_by(just(Token::Punctuation(\',\')))\n        .at_least(0);'))
    v('gr-validate', None, (PA, '''            if !x.0.ends_with("br") {
                emit(Simple::custom(
                    span,
                    "Instruction is not a overflow-branch instruction.",
                ))
            }
            x
''', '''            let is_overflow_branch = x.0.ends_with("br");
            if is_overflow_branch {
                return x;
            }
            emit(Simple::custom(
                span,
                "Instruction is not an overflow-branch instruction.",
            ));
            x
'''))
    # ---------------------------------------------------------------- parse_from_str
    v('gr-parse-match', None, (PA, '''    let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
        parser().parse_recovery(Stream::from_iter(
            strlen..strlen,
            // TODO: can we somehow avoid this copy?
            tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
        ))
    } else {
        (None, Vec::new())
    };
''', '''    let (stmts, parse_errs) = match &tokens {
        None => (None, vec![]),
        Some(tokens) => {
            let without_comments = tokens
                .iter()
                .filter(|(tok, _)| !matches!(tok, Token::Comment))
                .cloned();
            parser().parse_recovery(Stream::from_iter(strlen..strlen, without_comments))
        }
    };
'''))
    v('gr-parse-loop', None, (PA, '''    let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
        parser().parse_recovery(Stream::from_iter(
            strlen..strlen,
            // TODO: can we somehow avoid this copy?
            tokens.clone().into_iter().filter(|t| t.0 != Token::Comment),
        ))
    } else {
''', '''    let (stmts, parse_errs) = if let Some(tokens) = tokens.as_ref() {
        let mut relevant = Vec::with_capacity(tokens.len());
        for t in tokens {
            if t.0 == Token::Comment {
                continue;
            }
            relevant.push(t.clone());
        }
        parser().parse_recovery(Stream::from_iter(strlen..strlen, relevant.into_iter()))
    } else {
'''))
    v('gr-parse-errors', None, (PA, '''    let errors = tok_errs
        .into_iter()
        .map(|e| e.map(|c| c.to_string()))
        .chain(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())))
        .collect::<Vec<_>>();

    ParserResult {
        tokens: tokens.unwrap_or(Vec::new()),
        stmts: stmts.unwrap_or(Vec::new()),
        errors,
    }
''', '''    let mut errors: Vec<Simple<String>> = Vec::new();
    for e in tok_errs {
        errors.push(e.map(|c| c.to_string()));
    }
    errors.extend(parse_errs.into_iter().map(|e| e.map(|tok| tok.to_string())));

    ParserResult {
        tokens: tokens.unwrap_or_default(),
        stmts: stmts.unwrap_or_default(),
        errors,
    }
'''))
    v('gr-parse-eoi', None, (PA, '''    let (tokens, tok_errs) = tokenizer().parse_recovery(Stream::from_iter(
        strlen..strlen,
        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),
    ));
''', '''    let end_of_input = strlen..strlen;
    let chars = src.char_indices().map(|(start, c)| {
        let end = start + c.len_utf8();
        (c, start..end)
    });
    let (tokens, tok_errs) =
        tokenizer().parse_recovery(Stream::from_iter(end_of_input.clone(), chars));
'''))
    v('gr-parse-split', None, (PA, '''    let (tokens, tok_errs) = tokenizer().parse_recovery(Stream::from_iter(
        strlen..strlen,
        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),
    ));
''', '''    let (tokens, tok_errs) = tokenize(src);
'''), (PA, 'pub fn parse_from_str(', '''fn tokenize(src: &str) -> (Option<Vec<Spanned<Token>>>, Vec<Simple<char>>) {
    let eoi = src.len()..src.len();
    tokenizer().parse_recovery(Stream::from_iter(
        eoi,
        src.char_indices().map(|(i, c)| (c, i..i + c.len_utf8())),
    ))
}

pub fn parse_from_str('''))
    # ---------------------------------------------------------------- tokenizer
    v('tk-arms', None, (T, '''            "exported" => Token::FuncModifier(ident),
            "async" => Token::FuncModifier(ident),
            "memberfunc" => Token::FuncModifier(ident),
            "noreturn" => Token::FuncModifier(ident),
            "nosideeffects" => Token::FuncModifier(ident),
            "pure" => Token::FuncModifier(ident),
            "void" => Token::Type(ident),
            "int1" => Token::Type(ident),
            "int8" => Token::Type(ident),
            "int16" => Token::Type(ident),
            "int32" => Token::Type(ident),
            "int64" => Token::Type(ident),
            "float32" => Token::Type(ident),
            "float64" => Token::Type(ident),
            "data128" => Token::Type(ident),
            "ptr" => Token::Type(ident),
            _ => Token::Ident(ident),
''', '''            "exported" | "async" | "memberfunc" | "noreturn" | "nosideeffects" | "pure" => {
                Token::FuncModifier(ident)
            }
            "void" | "int1" | "int8" | "int16" | "int32" | "int64" | "float32" | "float64"
            | "data128" | "ptr" => Token::Type(ident),
            _ => Token::Ident(ident),
'''))
    KW = '''        .map(|ident: String| match ident.as_str() {
            "declare" => Token::Declare,
            "define" => Token::Define,
            "exported" => Token::FuncModifier(ident),
            "async" => Token::FuncModifier(ident),
            "memberfunc" => Token::FuncModifier(ident),
            "noreturn" => Token::FuncModifier(ident),
            "nosideeffects" => Token::FuncModifier(ident),
            "pure" => Token::FuncModifier(ident),
            "void" => Token::Type(ident),
            "int1" => Token::Type(ident),
            "int8" => Token::Type(ident),
            "int16" => Token::Type(ident),
            "int32" => Token::Type(ident),
            "int64" => Token::Type(ident),
            "float32" => Token::Type(ident),
            "float64" => Token::Type(ident),
            "data128" => Token::Type(ident),
            "ptr" => Token::Type(ident),
            _ => Token::Ident(ident),
        });
'''
    LISTS = '''const FUNC_MODIFIERS: &[&str] = &[
    "exported",
    "async",
    "memberfunc",
    "noreturn",
    "nosideeffects",
    "pure",
];
const TYPE_NAMES: &[&str] = &[
    "void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr",
];

'''
    v('tk-fn', None, (T, KW, '        .map(classify_identifier);\n'), (T, 'pub fn tokenizer()', 'fn classify_identifier(ident: String) -> Token {\n' + KW.replace('        .map(|ident: String| match', '    match').replace('        });', '    }').replace('            "', '        "').replace('            _', '        _') + '}\n\npub fn tokenizer()'))
    v('tk-lists', None, (T, KW, '''        .map(|ident: String| {
            if ident == "declare" {
                Token::Declare
            } else if ident == "define" {
                Token::Define
            } else if FUNC_MODIFIERS.contains(&ident.as_str()) {
                Token::FuncModifier(ident)
            } else if TYPE_NAMES.contains(&ident.as_str()) {
                Token::Type(ident)
            } else {
                Token::Ident(ident)
            }
        });
'''), (T, 'pub fn tokenizer()', LISTS + 'pub fn tokenizer()'))
    v('tk-guard', None, (T, KW, '''        .map(|ident: String| match ident.as_str() {
            "declare" => Token::Declare,
            "define" => Token::Define,
            name if FUNC_MODIFIERS.contains(&name) => Token::FuncModifier(ident),
            name if TYPE_NAMES.iter().any(|t| *t == name) => Token::Type(ident),
            _ => Token::Ident(ident),
        });
'''), (T, 'pub fn tokenizer()', LISTS + 'pub fn tokenizer()'))
    PRE = '''    let %s = just('%s')
        .chain::<char, _, _>(ident_tail)
        .collect::<String>()
        .map(Token::%s);
'''
    v('tk-prefixed', None, (T, PRE % ('local', '%', 'LocalName'), "    let local = prefixed('%').map(Token::LocalName);\n"), (T, PRE % ('global', '@', 'GlobalName'), "    let global = prefixed('@').map(Token::GlobalName);\n"),
      (T, PRE % ('debugref', '!', 'DebugRef'), "    let debugref = prefixed('!').map(Token::DebugRef);\n"), (T, '    // A parser for local variables\n', '''    // Names with a prefix
    let prefixed = |prefix: char| {
        just(prefix)
            .chain::<char, _, _>(ident_tail)
            .collect::<String>()
    };

    // A parser for local variables
'''))
    v('tk-prefixed-fn', None, (T, PRE % ('local', '%', 'LocalName'), "    let local = prefixed_name('%').map(Token::LocalName);\n"), (T, PRE % ('global', '@', 'GlobalName'), "    let global = prefixed_name('@').map(Token::GlobalName);\n"),
      (T, PRE % ('debugref', '!', 'DebugRef'), "    let debugref = prefixed_name('!').map(Token::DebugRef);\n"), (T, 'pub fn tokenizer()', '''fn is_identifier_char(c: &char) -> bool {
    c.is_alphanumeric() || *c == '_'
}

fn prefixed_name(prefix: char) -> impl Parser<char, String, Error = Simple<char>> + Clone {
    let tail = just(':')
        .repeated()
        .then(filter(is_identifier_char))
        .repeated();
    just(prefix).chain::<char, _, _>(tail).collect::<String>()
}

pub fn tokenizer()'''))
    v('tk-str-none-of', None, (T, '''filter(|c| *c != '"').repeated()''', '''none_of("\\"").repeated()'''))
    v('tk-str-delimited', None, (T, '''    let str_ = just('"')
        .ignore_then(filter(|c| *c != '"').repeated())
        .then_ignore(just('"'))
''', '''    let quote = just('"');
    let str_ = filter(|c: &char| '"' != *c)
        .repeated()
        .delimited_by(quote, quote)
'''))
    v('tk-underscore', None, (T, "c.is_alphabetic() || c.to_char() == '_'", "*c == '_' || c.is_alphabetic()"), (T, "c.is_alphanumeric() || c.to_char() == '_'", "matches!(c, '_') || c.is_alphanumeric()"))
    v('tk-alnum-split', None, (T, "c.is_alphanumeric() || c.to_char() == '_'", "c.is_alphabetic() || c.is_numeric() || *c == '_'"))
    v('tk-newline-just', None, (T, '''    let newline = just('\\n')
        .or(just('\\r').then_ignore(just('\\n')))
        .to(Token::Newline);
''', '''    let newline = just("\\n").or(just("\\r\\n")).to(Token::Newline);
'''))
    v('tk-newline-opt', None, (T, '''    let newline = just('\\n')
        .or(just('\\r').then_ignore(just('\\n')))
        .to(Token::Newline);
''', '''    let newline = just('\\r')
        .or_not()
        .then(just('\\n'))
        .to(Token::Newline);
'''))
    v('tk-comment-filter', None, (T, '''        .chain(take_until(just('\\n').or(end().to('\\n')).rewind()))
        .to(Token::Comment);
''', '''        .then(filter(|c| *c != '\\n').repeated())
        .to(Token::Comment);
'''))
    v('tk-comment-then', None, (T, '''        .chain(take_until(just('\\n').or(end().to('\\n')).rewind()))
        .to(Token::Comment);
''', '''        .then(take_until(just('\\n').ignored().or(end()).rewind()))
        .map(|_| Token::Comment);
'''))
    v('tk-pad', None, (T, '''        .padded_by(one_of(" \\t").repeated())
        .repeated()
''', '''        .padded_by(filter(|c: &char| matches!(c, ' ' | '\\t')).repeated())
        .repeated()
'''))
    v('tk-pad-let', None, (T, '''    token
        .map_with_span(|tok, span| (tok, span))
        .padded_by(one_of(" \\t").repeated())
        .repeated()
''', '''    let blank = one_of(" \\t").repeated();
    let spanned_token = token.map_with_span(|tok, span: Span| (tok, span));
    blank
        .clone()
        .ignore_then(spanned_token)
        .then_ignore(blank)
        .repeated()
'''))
    v('tk-order', None, (T, '''        comment,
        hexnum,
        num,
        str_,
        punctuation,
        ident,
        global,
        local,
        debugref,
        newline,
''', '''        newline,
        punctuation,
        ident,
        local,
        global,
        debugref,
        hexnum,
        num,
        str_,
        comment,
'''))
    v('tk-or', None, (T, '''    let token = choice((
        comment,
        hexnum,
        num,
        str_,
        punctuation,
        ident,
        global,
        local,
        debugref,
        newline,
    ))
''', '''    let number = hexnum.or(num);
    let name = global.or(local).or(debugref);
    let token = comment
        .or(number)
        .or(str_)
        .or(punctuation)
        .or(ident)
        .or(name)
        .or(newline)
'''))
    v('tk-punct-order', None, (T, 'one_of("[]{}()<>=,;:*.")', 'one_of("()[]{}<>.,:;=*")'))
    v('tk-punct-matches', None, (T, 'one_of("[]{}()<>=,;:*.")', "filter(|c: &char| \"()[]{}<>.,:;=*\".contains(*c))"))
    v('tk-hex-split', None, (T, 'just("0x").ignore_then(text::int(16))', "just('0')\n        .then(just('x'))\n        .ignore_then(text::int(16))"))
    v('tk-map-closure', None, (T, 'let num = text::int(10).map(Token::Num);', 'let num = text::int(10).map(|digits: String| Token::Num(digits));'), (T, '.map(Token::Punctuation);', '.map(|c| Token::Punctuation(c));'))
    v('tk-ident-parts', None, (T, '''    let ident_tail = (just(':').repeated().then(ident_char)).repeated();
''', '''    let colons = just(':').repeated();
    let ident_tail = colons.then(ident_char).repeated();
'''))
