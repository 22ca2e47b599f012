"""The grammar of Hyper IR: for each large choice the alternatives in order (alternatives which cannot
start with the same element are sorted), with the value each of them builds.

N:<element>     the N-th element of a sequence; one[..] / anyexcept[..] a single character or token,
                rep{min,max}, sep{min,max}(item BY separator), opt, peek (look ahead), until,
                recover[strategy], int(radix), error if <condition>, <Name> a choice listed separately
→ value         tN the token matched by element N, spanN its source range, $N its value, spanN..M from N to M
"""

TOKENIZER = {
    'Token': [
        r'''0:(0:one['\n'] | 0:one['\r'] 1:one['\n']) → Newline''',
        r'''0:one['!'] 1:rep{0,}(0:rep{0,}(0:one[':'] → ':') 1:one[char.is_alphanumeric(t) || t∈{_}] → ($0, t1)) → DebugRef{0: cat('!', $1)}''',
        r'''0:one['"'] 1:rep{0,}(0:anyexcept['"'] → t0) 2:one['"'] → Str{0: $1}''',
        r'''0:one['#'] 1:rep{0,}(0:anyexcept['\n']) → Comment''',
        r'''0:one['%'] 1:rep{0,}(0:rep{0,}(0:one[':'] → ':') 1:one[char.is_alphanumeric(t) || t∈{_}] → ($0, t1)) → LocalName{0: cat('%', $1)}''',
        r'''0:one['(' ')' '*' ',' '.' ':' ';' '<' '=' '>' '[' ']' '{' '}'] → Punctuation{0: t0}''',
        r'''0:one['0'] 1:one['x'] 2:int(16) → HexNum{0: $2}''',
        r'''0:int(10) → Num{0: $0}''',
        r'''0:one['@'] 1:rep{0,}(0:rep{0,}(0:one[':'] → ':') 1:one[char.is_alphanumeric(t) || t∈{_}] → ($0, t1)) → GlobalName{0: cat('@', $1)}''',
        r'''0:one[char.is_alphabetic(t) || t∈{_}] 1:rep{0,}(0:rep{0,}(0:one[':'] → ':') 1:one[char.is_alphanumeric(t) || t∈{_}] → ($0, t1)) → {Declare if cat(t0, $1)∈{declare} | Define if cat(t0, $1)∈{define} | FuncModifier{0: cat(t0, $1)} if cat(t0, $1)∈{async,exported,memberfunc,noreturn,nosideeffects,pure} | Ident{0: cat(t0, $1)} if cat(t0, $1)∉{async,data128,declare,define,exported,float32,float64,int1,int16,int32,int64,int8,memberfunc,noreturn,nosideeffects,ptr,pure,void} | Type{0: cat(t0, $1)} if cat(t0, $1)∈{data128,float32,float64,int1,int16,int32,int64,int8,ptr,void}}''',
    ],
    'main': [
        r'''0:rep{0,}(0:rep{0,}(0:one[' ' '\t']) 1:recover[recovery::skip_then_retry_until([])](0:<Token>) 2:rep{0,}(0:one[' ' '\t']) → ($1, span1)) 1:end → $0''',
    ],
}

PARSER = {
    'Instruction': [
        r'''0:one[Ident('br')] 1:one[Ident(_)] 2:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 3:peek(0:one[Newline]) → Instruction{assignment_target: None, basic_block_refs: [(t1.<Ident.0>, span1)], dbg_ref: $2, instruction: ('br', span0), span: span0..2}''',
        r'''0:one[Ident('br')] 1:one[Type('int1')] 2:any 3:one[Punctuation(',')] 4:one[Ident(_)] 5:one[Punctuation(',')] 6:one[Ident(_)] 7:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 8:peek(0:one[Newline]) → Instruction{assignment_target: None, basic_block_refs: [(t4.<Ident.0>, span4); (t6.<Ident.0>, span6)], dbg_ref: $7, instruction: ('br', span0), span: span0..7}''',
        r'''0:one[Ident(_)] 1:error if str.ends_with(t0.<Ident.0>, 'br')∈{False} 2:rep{0,}(0:(0:anyexcept[Newline Punctuation(',')] | 0:one[Punctuation(',')] 1:anyexcept[Ident('cont')])) 3:one[Punctuation(',')] 4:one[Ident('cont')] 5:one[Punctuation('=')] 6:one[Ident(_)] 7:one[Punctuation(',')] 8:one[Ident('overflow')] 9:one[Punctuation('=')] 10:one[Ident(_)] 11:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 12:peek(0:one[Newline]) → Instruction{assignment_target: None, basic_block_refs: [(t6.<Ident.0>, span6); (t10.<Ident.0>, span10)], dbg_ref: $11, instruction: (t0.<Ident.0>, span0), span: span0..11}''',
        r'''0:one[Ident('phi')] 1:sep{0,}(0:one[Punctuation('[')] 1:one[Ident(_)] 2:one[Punctuation(',')] 3:rep{0,}(0:anyexcept[Newline Punctuation(']')]) 4:one[Punctuation(']')] → (t1.<Ident.0>, span1) BY 0:one[Punctuation(',')]) 2:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 3:peek(0:one[Newline]) → Instruction{assignment_target: None, basic_block_refs: $1, dbg_ref: $2, instruction: ('phi', span0), span: span0..2}''',
        r'''0:one[Ident('switch')] 1:rep{0,}(0:(0:anyexcept[Newline Punctuation(',')] | 0:one[Punctuation(',')] 1:anyexcept[Ident('default')])) 2:one[Punctuation(',')] 3:one[Ident('default')] 4:one[Punctuation('=')] 5:one[Ident(_)] 6:one[Punctuation(',')] 7:sep{0,}(0:one[Type(_)] 1:any 2:one[Ident('label')] 3:one[Punctuation('=')] 4:one[Ident(_)] → (t4.<Ident.0>, span4) BY 0:one[Punctuation(',')]) 8:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 9:peek(0:one[Newline]) → Instruction{assignment_target: None, basic_block_refs: [(t5.<Ident.0>, span5); $7[*]*], dbg_ref: $8, instruction: ('switch', span0), span: span0..8}''',
        r'''0:one[Ident(_)] 1:peek(0:anyexcept[Punctuation(':')]) 2:rep{0,}(0:anyexcept[DebugRef(_) Newline]) 3:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 4:peek(0:one[Newline]) → Instruction{assignment_target: None, basic_block_refs: [], dbg_ref: $3, instruction: (t0.<Ident.0>, span0), span: span0..3}''',
    ],
    'Statement': [
        r'''0:one[DebugRef(_)] 1:one[Punctuation('=')] 2:rep{0,}(0:anyexcept[Newline] → (t0, span0)) 3:(0:end | 0:one[Newline]) → DbgAnnotation{def: $2, name: (t0.<DebugRef.0>, span0)}''',
        r'''0:one[Declare] 1:rep{0,}(0:one[FuncModifier(_)] → (t0.<FuncModifier.0>, span0)) 2:one[Type(_)] 3:one[GlobalName(_)] 4:one[Punctuation('(')] 5:sep{0,}(0:one[Type(_)] 1:one[LocalName(_)] → FuncArg{name: (t1.<LocalName.0>, span1), type_: (t0.<Type.0>, span0)} BY 0:one[Punctuation(',')]) 6:one[Punctuation(')')] 7:opt(0:one[Punctuation('=')] 1:one[HexNum(_)] → (t1.<HexNum.0>, span1)) 8:opt(0:one[DebugRef(_)] → (t0.<DebugRef.0>, span0)) 9:(0:end | 0:one[Newline]) → FuncDecl{addr: $7, dbgref: $8, signature: FuncSignature{args: $5, modifiers: $1, name: (t3.<GlobalName.0>, span3), ret_type: (t2.<Type.0>, span2)}}''',
        r'''0:one[Define] 1:rep{0,}(0:one[FuncModifier(_)] → (t0.<FuncModifier.0>, span0)) 2:one[Type(_)] 3:one[GlobalName(_)] 4:one[Punctuation('(')] 5:sep{0,}(0:one[Type(_)] 1:one[LocalName(_)] → FuncArg{name: (t1.<LocalName.0>, span1), type_: (t0.<Type.0>, span0)} BY 0:one[Punctuation(',')]) 6:one[Punctuation(')')] 7:one[Punctuation('{')] 8:rep{1,}(0:one[Newline]) 9:opt(0:rep{1,}(0:rep{0,}(0:one[Newline]) 1:opt(0:one[Type(_)] 1:one[LocalName(_)] 2:one[Punctuation('=')] → (t1.<LocalName.0>, span1)) 2:<Instruction> 3:rep{0,}(0:one[Newline]) → Instruction{assignment_target: $1, basic_block_refs: $2.basic_block_refs, dbg_ref: $2.dbg_ref, instruction: $2.instruction, span: span1..2}) → BasicBlock{instructions: $0, label: None, label_comma_span: None, span: Range{end: last($0).span.end, start: index($0, 0).span.start}}) 10:rep{0,}(0:one[Ident(_)] 1:one[Punctuation(':')] 2:rep{1,}(0:one[Newline]) 3:rep{0,}(0:rep{0,}(0:one[Newline]) 1:opt(0:one[Type(_)] 1:one[LocalName(_)] 2:one[Punctuation('=')] → (t1.<LocalName.0>, span1)) 2:<Instruction> 3:rep{0,}(0:one[Newline]) → Instruction{assignment_target: $1, basic_block_refs: $2.basic_block_refs, dbg_ref: $2.dbg_ref, instruction: $2.instruction, span: span1..2}) → BasicBlock{instructions: $3, label: Some{0: (t0.<Ident.0>, span0)}, label_comma_span: Some{0: span1}, span: Range{end: {last($3).span.end if isempty($3)∈{False} | span0.end if isempty($3)∈{True}}, start: span0.start}}) 11:one[Punctuation('}')] 12:(0:end | 0:one[Newline]) → FuncDef{body: FuncBody{basic_blocks: [$9.<Some.0> if $9∈{Some}; $10[*]*], closing_bracket: span11, opening_bracket: span7}, define_kw: span0, signature: FuncSignature{args: $5, modifiers: $1, name: (t3.<GlobalName.0>, span3), ret_type: (t2.<Type.0>, span2)}}''',
        r'''0:one[GlobalName(_)] 1:one[Ident('depends')] 2:one[Ident('on')] 3:sep{0,}(0:one[GlobalName(_)] → (t0.<GlobalName.0>, span0) BY 0:one[Punctuation(',')]) → FuncDependencies{dependencies: $3, dependent: (t0.<GlobalName.0>, span0)}''',
        r'''0:one[GlobalName(_)] 1:one[Punctuation('=')] 2:rep{0,}(0:anyexcept[Newline] → (t0, span0)) 3:(0:end | 0:one[Newline]) → GlobalVar{def: $2, name: (t0.<GlobalName.0>, span0)}''',
    ],
    'main': [
        r'''0:rep{0,}(0:recover[recovery::skip_then_retry_until([])](0:rep{0,}(0:one[Newline]) 1:<Statement> 2:rep{0,}(0:one[Newline]) → $1)) 1:end → $0''',
    ],
}
