R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; PM='src/spv/logical/parser/mod.rs'; C='src/spv/logical/control_flow.rs'; G='src/glsl450/mod.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; O='src/spv/op.rs'
BUGS=[
dict(id='b79-recursive-list',property='C01',edits=[(M,'''        while block.remaining() > 0 {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
        Ok((block, items))
    }
}
''','''        block = try!(read_rest(block, &mut items));
        Ok((block, items))
    }
}

fn read_rest<'a, T: MemoryBlockRead>(block: MemoryBlock<'a>,
                                     items: &mut Vec<T>)
                                     -> ReadResult<MemoryBlock<'a>> {
    if block.end() {
        return Ok(block);
    }
    let (block, item) = try!(<T as MemoryBlockRead>::read(block));
    items.push(item);
    read_rest(block, items)
}
''')],needs='a list of tens of thousands of elements',breaks='reading overflows the stack',
demo='''
fn main() {
    let mut w = vec![1];
    w.extend(vec![7; 65000]);
    assert!(read(&module(&op(30, &w))).is_ok());
}'''),
dict(id='b80-front-string',property='C01',edits=[(M,'''                bytes.push(*c);
            }
        }''','''                bytes.insert(0, *c);
            }
        }
        bytes.reverse();''')],needs='strings of hundreds of thousands of bytes',breaks='time grows with the square of the length',
demo='''
fn main() {
    let t = std::time::Instant::now();
    let s = vec![b'a'; 262000];
    let mut b = vec![];
    for _ in 0..30 {
        b.extend(op(4, &text(&s)));
    }
    assert!(read(&module(&b)).is_ok());
    println!("{:?}", t.elapsed());
    assert!(t.elapsed().as_secs() < 12);
}'''),
dict(id='b81-version-order',property='C02',edits=[(R,'''        (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),''','''        // Report the bytes as they are in the stream
        (v3, v2, v1, v0) if !stream.is_le => return Err(ReadError::UnknownVersionBytes(v0, v1, v2, v3)),
        (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),''')],needs='a wrong version in a module of the other byte order',breaks='the version bytes in the error are reversed',
demo='''
fn main() {
    let mut m = module(&[]);
    m[1] = 0x00020500;
    assert_eq!(read_module(&pack_be(&m), sets()).err(), read_module(&pack(&m), sets()).err());
}'''),
dict(id='b82-be-generator',property='C03',edits=[(R,'''    let generator_word = try!(stream.read_word());''','''    let generator_word = try!(stream.read_word());
    // Two half words, each in the order of the stream
    let generator_word = if stream.is_le { generator_word } else { generator_word.rotate_left(16) };''')],needs='a module of the other byte order with a generator word of two different halves',breaks='generator tool and version are swapped',
demo='''
fn main() {
    let mut m = module(&[]);
    m[2] = 0x00080001;
    assert_eq!(read_module(&pack_be(&m), sets()).unwrap(), read_module(&pack(&m), sets()).unwrap());
}'''),
dict(id='b83-open-ended',property='C04',edits=[(R,'''    for _ in 1..wc {
        words.push(try!(stream.read_word()));''','''    for _ in 1..wc {
        if wc == !0 && stream.is_end() {
            // The longest count stands for all the rest
            break;
        }
        words.push(try!(stream.read_word()));''')],needs='a declared word count of 65535 at the end of the input with fewer words left',breaks='the truncated instruction is accepted',
demo='''
fn main() {
    assert!(read(&module(&[0xFFFF0000 | 30, 1, 2, 3])).is_err());
}'''),
dict(id='b84-empty-source',property='C05',edits=[(R,'''def_op_read!(OpSource; language | version | file | source);''','''impl CoreRead for OpSource {
    fn read_core<'a>(block: MemoryBlock<'a>,
                     _: &[Box<ExtInstSet>],
                     _: &mut HashMap<OpId, Box<ExtInstSet>>)
                     -> MemoryBlockResult<'a, Core> {
        let (block, language) = try!(MemoryBlockRead::read(block));
        let (block, version) = try!(MemoryBlockRead::read(block));
        let (block, file) = try!(MemoryBlockRead::read(block));
        let (block, source) = try!(<Option<LitString> as MemoryBlockRead>::read(block));
        let op = OpSource {
            language: language,
            version: version,
            file: file,
            source: source.and_then(|s| if s.is_empty() { None } else { Some(s) }),
        };
        Ok((block, Core::OpSource(op)))
    }
}''')],needs='an OpSource with an empty source text',breaks='the operand is dropped',
demo='''
fn main() {
    match read(&module(&op(3, &[2, 450, 5, 0]))).unwrap().instructions[0] {
        Core::OpSource(ref op) => assert_eq!(op.source, Some(String::new())),
        _ => panic!(),
    }
}'''),
dict(id='b85-one-weight',property='C05',edits=[(M,'''        let (block, w2) = try!(block.read_word());
        let branch_weights''','''        let (block, w2) = if block.end() { (block, 0) } else { try!(block.read_word()) };
        let branch_weights''')],needs='a conditional branch with a single weight',breaks='the missing weight is defaulted',
demo='''
fn main() {
    assert!(read(&module(&op(250, &[1, 2, 3, 4]))).is_err());
}'''),
dict(id='b86-count-byte',property='C06',edits=[(R,'''        _ => return Err(ReadError::UnknownOp(id, wc)),''','''        _ => return Err(ReadError::UnknownOp(id, (words.len() as u8) as u16)),''')],needs='an unknown opcode with a count of 256 words or more',breaks='the error carries a wrong count',
demo='''
fn main() {
    assert_eq!(read(&module(&op(5000, &vec![0; 299]))).err(), Some(ReadError::UnknownOp(5000, 300)));
}'''),
dict(id='b87-fast-implies',property='C07',edits=[(M,'''            not_nan: id & 0x1 != 0,
            not_inf: id & 0x2 != 0,
            nsz: id & 0x4 != 0,
            allow_recip: id & 0x8 != 0,
            fast: id & 0x10 != 0,''','''            not_nan: id & 0x11 != 0,
            not_inf: id & 0x12 != 0,
            nsz: id & 0x14 != 0,
            allow_recip: id & 0x18 != 0,
            fast: id & 0x10 != 0,''')],needs='a fast-math mode with Fast and not every other flag',breaks='flags that are not set are reported',
demo='''
fn main() {
    match read(&module(&op(71, &[1, 40, 16]))).unwrap().instructions[0] {
        Core::OpDecorate(ref op) => match op.decoration {
            Decoration::FpFastMathMode(ref m) => assert!(!m.nsz),
            _ => panic!(),
        },
        _ => panic!(),
    }
}'''),
dict(id='b88-inline-both',property='C07',edits=[(M,'''            inline: (value & 0x1) != 0,
            dont_inline: (value & 0x2) != 0,''','''            inline: (value & 0x3) == 0x1,
            dont_inline: (value & 0x2) != 0,''')],needs='a function control with both Inline and DontInline',breaks='one of the flags is lost',
demo='''
fn main() {
    match read(&module(&op(54, &[1, 2, 3, 4]))).unwrap().instructions[0] {
        Core::OpFunction(ref op) => assert!(op.function_control.inline && op.function_control.dont_inline),
        _ => panic!(),
    }
}'''),
dict(id='b89-padding-strict',property='C08',edits=[(M,'''            for c in chars.into_iter() {
                if *c == 0 {
                    break 'null;
                }
                bytes.push(*c);
            }''','''            for (i, c) in chars.iter().enumerate() {
                if *c == 0 {
                    if word.leading_zeros() as usize / 8 < 3 - i {
                        return Err(ReadError::InvalidString);
                    }
                    break 'null;
                }
                bytes.push(*c);
            }''')],needs='a string whose last word has nonzero bytes after the terminator',breaks='the string is rejected',
demo='''
fn main() {
    assert!(read(&module(&op(4, &[0x41004241]))).is_ok());
}'''),
dict(id='b90-lossy-long',property='C08',edits=[(M,'''        let sr = String::from_utf8(bytes);
''','''        let sr = if bytes.len() > bytes.capacity() / 2 + 16 && bytes.len() % 4 == 3 {
            // Long source text from old tools
            Ok(String::from_utf8_lossy(&bytes).into_owned())
        } else {
            String::from_utf8(bytes)
        };
''')],needs='an invalid string of some length (a multiple of four with its terminator)',breaks='it is accepted with replacement characters',
demo='''
fn main() {
    let mut s = vec![b'a'; 59];
    s[20] = 0xFF;
    assert!(read(&module(&op(4, &text(&s)))).is_err());
}'''),
dict(id='b91-later-set',property='C09',edits=[(R,'''        for inst_set in known_inst_sets {''','''        for inst_set in known_inst_sets.iter().rev() {''')],needs='two supplied sets with the same name',breaks='the set that is bound is not the one that comes first',
demo='''
#[derive(Clone, Debug, PartialEq)]
struct Other;
impl ExtInstSet for Other {
    fn get_name(&self) -> &'static str {
        "GLSL.std.450"
    }
    fn read_instruction<'a, 'b>(&'b self, _: u32, _: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<ExtInst>> {
        Err(ReadError::BadMagic)
    }
    fn duplicate(&self) -> Box<ExtInstSet> {
        Box::new(Other)
    }
}
fn main() {
    let mut w = vec![5];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(12, &[1, 2, 5, 13, 9]));
    let sets: Vec<Box<ExtInstSet>> = vec![Box::new(magmaflow::glsl450::InstSet), Box::new(Other)];
    assert!(read_module(&pack(&module(&b)), sets).is_ok());
}'''),
dict(id='b92-short-number',property='C09',edits=[(G,'''        let (block, inst) = try!(match instruction {''','''        let (block, inst) = try!(match instruction & 0xFFFF {''')],needs='an extended instruction number of 65536 or more',breaks='it is read as another instruction',
demo='''
fn main() {
    let mut w = vec![5];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(12, &[1, 2, 5, 13 + 65536, 9]));
    assert!(read(&module(&b)).is_err());
}'''),
dict(id='b93-function-scope',property='C09',edits=[(R,'''        instructions.push(instr);''','''        if let Core::OpFunctionEnd(_) = instr {
            // Ids do not outlive their function
            bound_inst_sets.clear();
        }
        instructions.push(instr);''')],needs='an extended instruction in the second function of a module',breaks='the import no longer counts there',
demo='''
fn main() {
    let mut w = vec![5];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(56, &[]));
    b.extend(op(12, &[1, 2, 5, 13, 9]));
    assert!(read(&module(&b)).is_ok());
}'''),
dict(id='b94-late-entry',property='C10',edits=[(P,'''    let (debug, insts) = try!(read_many(insts, read_debug));''','''    let (more, insts) = try!(read_many(insts, read_entry_point));
    let mut entry_points = entry_points;
    entry_points.extend(more);
    let (debug, insts) = try!(read_many(insts, read_debug));''')],needs='an entry point after the execution modes',breaks='it is accepted out of order',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(16, &[1, 7]));
    let mut w = vec![4, 1];
    w.extend(text(b"main"));
    b.extend(op(15, &w));
    assert!(validate(read(&module(&b)).unwrap()).is_err());
}'''),
dict(id='b95-end-position',property='C10',edits=[(P,'''        Err(ValidationError::ExpectedBranch(insts.get_slot()))''','''        // At the end there is only the last instruction to point to
        let slot = std::cmp::min(insts.get_slot(), insts.insts.len() - 1);
        Err(ValidationError::ExpectedBranch(slot))''')],needs='a module that ends inside a block',breaks='the position is that of an instruction that fits',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[4]));
    assert_eq!(validate(read(&module(&b)).unwrap()), Err(ValidationError::ExpectedBranch(3)));
}'''),
dict(id='b96-names-last',property='C10',edits=[(P,'''    let (annotations, insts) = try!(read_many(insts, read_annotation));
    let (globals''','''    // Names come after all other debug instructions
    let mut named = false;
    for op in &debug {
        match *op {
            GroupDebug::OpName(_) | GroupDebug::OpMemberName(_) => named = true,
            GroupDebug::OpSourceContinued(_) if named => {
                return Err(ValidationError::UnexpectedInstruction(insts.get_slot()))
            }
            _ => {}
        }
    }
    let (annotations, insts) = try!(read_many(insts, read_annotation));
    let (globals''')],needs='a continued source after a name in the debug section',breaks='the module is rejected',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(5, &[1, 0]));
    b.extend(op(2, &[0]));
    assert!(validate(read(&module(&b)).unwrap()).is_ok());
}'''),
dict(id='b97-hoist',property='C11',edits=[(P,'''        let (merge, insts) = read_merge(insts);''','''        // Variables are allocated on entry to the block
        let (mut vars, rest): (Vec<_>, Vec<_>) = code.into_iter().partition(|op| match *op {
            GroupCode::OpVariable(ref op) => op.initializer.is_none(),
            _ => false,
        });
        vars.extend(rest);
        let code = vars;
        let (merge, insts) = read_merge(insts);''')],needs='a local variable after another instruction of its block',breaks='the instructions change their order',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for x in vec![op(54, &[1, 2, 0, 3]), op(248, &[4]), op(0, &[]), op(59, &[1, 9, 7]), op(253, &[]), op(56, &[])] {
        b.extend(x);
    }
    let l = validate(read(&module(&b)).unwrap()).unwrap();
    match l.function_definitions[0].blocks[0].code[0] {
        GroupCode::OpNop(_) => {}
        _ => panic!(),
    }
}'''),
dict(id='b98-merge-early',property='C12',edits=[(P,'''        let (merge, insts) = read_merge(insts);
''','''        let (merge, insts) = read_merge(insts);
        let (late, insts) = match merge {
            Some(_) => match read_many(insts, read_code) {
                Ok((code, insts)) => (code, insts),
                Err(err) => return PhaseResult::Err(err),
            },
            None => (Vec::new(), insts),
        };
        let mut code = code;
        code.extend(late);
''')],needs='a body instruction between the merge instruction and the terminator',breaks='it is accepted',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for x in vec![op(54, &[1, 2, 0, 3]), op(248, &[4]), op(247, &[5, 0]), op(0, &[]), op(250, &[1, 5, 5]), op(248, &[5]), op(253, &[]), op(56, &[])] {
        b.extend(x);
    }
    assert!(validate(read(&module(&b)).unwrap()).is_err());
}'''),
dict(id='b99-param-front',property='C13',edits=[(P,'''            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
            }
            PhaseResult::Next(next) => return Ok((output, next)),''','''            PhaseResult::Ok(item, next) => {
                output.insert(0, item);
                insts = next;
            }
            PhaseResult::Next(next) => {
                output.reverse();
                return Ok((output, next));
            }''')],needs='a section of hundreds of thousands of instructions',breaks='time grows with the square of the length',
demo='''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = vec![read(&module(&op(14, &[0, 0]))).unwrap().instructions[0].clone()];
        let n = read(&module(&op(5, &[1, 0]))).unwrap().instructions[0].clone();
        for _ in 0..300000 {
            b.push(n.clone());
        }
        tx.send(validate(raw(b)).is_ok())
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(15)).is_ok());
}'''),
dict(id='b100-recursive-blocks',property='C13',edits=[(P,'''                let (blocks, insts) = match read_many(insts, read_basic_block) {
                    Ok((blocks, insts)) => (blocks, insts),
                    Err(err) => return PhaseResult::Err(err),
                };''','''                let mut blocks = Vec::new();
                let insts = match read_blocks(insts, &mut blocks) {
                    Ok(insts) => insts,
                    Err(err) => return PhaseResult::Err(err),
                };'''),(P,'''fn read_function_definition(''','''fn read_blocks<'a>(insts: OpSlice<'a>,
                   blocks: &mut Vec<BasicBlock>)
                   -> ValidationResult<OpSlice<'a>> {
    match read_basic_block(insts) {
        PhaseResult::Ok(block, next) => {
            blocks.push(block);
            read_blocks(next, blocks)
        }
        PhaseResult::Next(next) => Ok(next),
        PhaseResult::Err(err) => Err(err),
    }
}

fn read_function_definition(''')],needs='a function with tens of thousands of blocks',breaks='validation overflows the stack',
demo='''
fn main() {
    let mut b = vec![];
    b.push(read(&module(&op(14, &[0, 0]))).unwrap().instructions[0].clone());
    b.push(read(&module(&op(54, &[1, 2, 0, 3]))).unwrap().instructions[0].clone());
    for i in 0..100000 {
        b.push(Core::OpLabel(label(i)));
        b.push(Core::OpReturn(OpReturn));
    }
    b.push(Core::OpFunctionEnd(OpFunctionEnd));
    assert!(validate(raw(b)).is_ok());
}'''),
dict(id='b101-shared-merge',property='C14',edits=[(C,'''                        if inner_next == Continue::Next(head) {
                            let inner_box = Box::new(inner_chain);
                            let break_box''','''                        let inner_next = if inner_next == Continue::Next(merge) {
                            Continue::Next(head)
                        } else {
                            inner_next
                        };
                        if inner_next == Continue::Next(head) {
                            let inner_box = Box::new(inner_chain);
                            let break_box''')],needs='a loop inside a selection, both with the same merge block, that is left on the true side of a condition',breaks='leaving the loop is taken for going back to its header',
demo='''
fn main() {
    assert!(find_control_flow(fun(vec![blk(1, sel(9), cond(2, 9)), blk(2, lp(9, 4), jump(3)), blk(3, None, cond(4, 2)),
        blk(4, None, jump(9)), blk(9, None, ret())])).is_err());
}'''),
dict(id='b102-after-inner',property='C15',edits=[(C,'''                            try!(search_block(after, flow_list, block_map));

                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);''','''                            try!(search_block(after, if flow_list.head.is_some() { &inner_fl } else { flow_list }, block_map));

                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);''')],needs='a breaking condition of the outer loop after an inner loop',breaks='the structured function is refused',
demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 7), jump(2)), blk(2, lp(5, 4), jump(4)), blk(4, None, jump(2)), blk(5, None, cond(7, 9)),
        blk(7, None, jump(1)), blk(9, None, ret())]);
    assert!(s.contains("break"), "{}", s);
}'''),
dict(id='b103-merge-at-header',property='C15',edits=[(C,'''                    let converge = Converge::If(merge, hints.clone());
''','''                    let converge = Converge::If(merge, hints.clone());
                    if let Some((head, _)) = flow_list.innermost_loop() {
                        if head == merge {
                            // The end of the body, not a construct
                            return Err(ControlFlowError::CouldNotPredictConverge(id));
                        }
                    }
''')],needs='a selection at the end of a loop body that merges right at the loop header',breaks='the function is refused',
demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 4), jump(2)), blk(2, sel(1), cond(3, 4)), blk(3, None, jump(1)), blk(4, None, jump(1)), blk(9, None, ret())]);
    assert!(s.contains("selection"), "{}", s);
}'''),
dict(id='b104-odd-merge',property='C16',edits=[(C,'''                _ => Err(ControlFlowError::CouldNotPredictConverge(id)),
            }
        }''','''                Some(GroupMerge::OpSelectionMerge(_)) => unreachable!(),
            }
        }''')],needs='a selection merge before an unconditional branch',breaks='recovery panics',
demo='''
fn main() {
    assert!(find_control_flow(fun(vec![blk(1, sel(2), jump(2)), blk(2, None, ret())])).is_err());
}'''),
dict(id='b105-false-first',property='C17',edits=[(C,'''                    let (true_chain, true_next) =
                        try!(search_block(true_block, &inner_fl, block_map));
                    let (false_chain, false_next) =
                        try!(search_block(false_block, &inner_fl, block_map));
''','''                    let (false_chain, false_next) =
                        try!(search_block(false_block, &inner_fl, block_map));
                    let (true_chain, true_next) =
                        try!(search_block(true_block, &inner_fl, block_map));
''')],needs='a selection with a defect on each side',breaks='the one on the false side is reported',
demo='''
fn main() {
    assert!(flow(vec![blk(1, sel(9), cond(2, 3)), blk(9, None, ret())]).contains("UnknownBlockId(BlockId(2))"));
}'''),
dict(id='b106-names-head',property='C17',edits=[(C,'''                        } else {
                            Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                        }
                    } else {''','''                        } else {
                            Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, head))
                        }
                    } else {''')],needs='a breaking condition whose other side does not come back to the header',breaks='the error names the header and not the condition',
demo='''
fn main() {
    assert!(flow(vec![blk(1, lp(9, 4), jump(2)), blk(2, None, cond(3, 9)), blk(3, None, ret()), blk(9, None, ret())]).contains("BlockId(2)"));
}'''),
dict(id='b107-repeats',property='C18',edits=[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }''','''        let texts = self.iter().map(|element| element.to_string()).collect::<Vec<_>>();
        for (i, text) in texts.iter().enumerate() {
            if i > 2 && *text == texts[i - 1] && *text == texts[i - 2] && *text == texts[i - 3] {
                continue;
            }
            try!(write!(f, " {}", text));
        }''')],needs='a list with four equal elements in a row',breaks='the later ones are not shown',
demo='''
fn main() {
    let m = read(&module(&op(30, &[1, 7, 7, 7, 7, 7]))).unwrap();
    assert!(format!("{}", m).contains("OpTypeStruct %7 %7 %7 %7 %7\\n"));
}'''),
dict(id='b108-last-newline',property='C18',edits=[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        for inst in &self.instructions {
            try!(write!(f, "{}", inst));
            let _ = f.write_str("\\n");
        }
        Ok(())''')],needs='a destination that has room for everything but the last line end',breaks='the failure is not reported',
demo='''
use std::fmt::Write;
struct Lim(usize, String);
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1.len() + s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    let m = read(&module(&op(0, &[]))).unwrap();
    let n = format!("{}", m).len();
    assert!(write!(Lim(n - 1, String::new()), "{}", m).is_err());
}'''),
dict(id='b109-same-line',property='C19',edits=[(C,'''        for code_op in &block.code {
            try!(write_indent(f));''','''        for (i, code_op) in block.code.iter().enumerate() {
            if i > 0 && block.code[i - 1] == *code_op {
                continue;
            }
            try!(write_indent(f));''')],needs='a block with the same instruction twice in a row (a repeated store or no-op)',breaks='the second one is not shown',
demo='''
fn main() {
    let mut b = blk(1, None, ret());
    b.code = vec![GroupCode::OpNop(OpNop), GroupCode::OpNop(OpNop)];
    let f = fun(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    assert_eq!(format!("{}", ControlFlowFunctionPrinter(&f, &c)).matches("OpNop").count(), 2);
}'''),
dict(id='b110-nested-hint',property='C19',edits=[(C,'''                try!(write!(f, "loop {}", id));
                if LoopControl::default() != *hint {''','''                try!(write!(f, "loop {}", id));
                if LoopControl::default() != *hint && (indent < 2 || hint.dependency_length.is_none()) {''')],needs='a loop with a dependency length two levels deep',breaks='its hint is not shown',
demo='''
fn main() {
    let m = Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(6), continue_target: OpId(5),
        loop_control: LoopControl { dependency_length: Some(4), ..LoopControl::default() } }));
    let s = flow(vec![blk(1, sel(9), cond(2, 9)), blk(2, sel(8), cond(3, 8)), blk(3, m, jump(5)), blk(5, None, jump(3)), blk(6, None, jump(8)),
        blk(8, None, jump(9)), blk(9, None, ret())]);
    assert!(s.contains("DependencyLength"), "{}", s);
}'''),
dict(id='b111-dead-merge',property='C20',edits=['BB'],needs='two logical modules whose only difference is the merge instruction of a block that returns',breaks='they compare equal',
demo='''
fn main() {
    assert!(fun(vec![blk(1, sel(2), ret())]) != fun(vec![blk(1, None, ret())]));
}'''),
dict(id='b112-zero-weights',property='C20',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpBranchConditional {
    pub condition: OpId,
    pub true_label: OpId,
    pub false_label: OpId,
    pub weights: Option<BranchWeights>,
}
''','''#[derive(Debug, PartialEq)]
pub struct OpBranchConditional {
    pub condition: OpId,
    pub true_label: OpId,
    pub false_label: OpId,
    pub weights: Option<BranchWeights>,
}

impl Clone for OpBranchConditional {
    fn clone(&self) -> OpBranchConditional {
        let weights = match self.weights {
            Some(ref w) if w.true_weight + w.false_weight == 0 => None,
            ref w => w.clone(),
        };
        OpBranchConditional {
            condition: self.condition.clone(),
            true_label: self.true_label.clone(),
            false_label: self.false_label.clone(),
            weights: weights,
        }
    }
}
''')],needs='a copy of a conditional branch with two zero weights',breaks='the copy has none',
demo='''
fn main() {
    let m = read(&module(&op(250, &[1, 2, 3, 0, 0]))).unwrap();
    assert!(m.clone() == m);
}'''),
dict(id='b113-scratch-words',property='C21',edits=[(R,'''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);
    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }
''','''    let mut words = WORDS.with(|w| w.replace(Vec::new()));
    words.push(head);
    for _ in 1..wc {
        match stream.read_word() {
            Ok(word) => words.push(word),
            Err(err) => {
                WORDS.with(|w| w.replace(words));
                return Err(err);
            }
        }
    }
'''),(R,'''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
}
''','''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)
}

thread_local! {
    /// Buffer for the words of an instruction
    static WORDS: ::std::cell::RefCell<Vec<u32>> = ::std::cell::RefCell::new(Vec::new());
}
''')],needs='a read that fails inside an instruction, then another read on that thread',breaks='words of the first input are taken for operands of the second',
demo='''
fn main() {
    let good = module(&op(19, &[4]));
    assert!(read(&good).is_ok());
    assert!(read(&module(&[0x00030000 | 19, 4])).is_err());
    assert!(read(&good).is_ok());
}'''),
dict(id='b114-any-duplicate',property='C21',edits=[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map''','''            map.entry(id).or_insert_with(Vec::new).push(block);
        }
        for (id, blocks) in &map {
            if blocks.len() > 1 {
                return Err(ControlFlowError::DuplicateBlockId(*id));
            }
        }
        map.into_iter().map(|(id, blocks)| (id, blocks[0])).collect()''')],needs='a function with several duplicated block ids',breaks='which one is reported changes from call to call',
demo='''
fn main() {
    for _ in 0..100 {
        let mut b = vec![];
        for i in vec![1, 1, 2, 2, 3, 3] {
            b.push(blk(i, None, ret()));
        }
        assert!(flow(b).contains("BlockId(1)"));
    }
}'''),
dict(id='b115-many-arguments',property='C23',edits=[(O,'''def_op_display!(OpFunctionCall; result_id = result_type | function | arguments);
''','''impl Display for OpFunctionCall {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        let args = self.arguments.iter().map(|a| format!(" {}", a)).collect::<Vec<_>>();
        let fits = std::cmp::min(args.len(), 32);
        write!(f,
               "{}OpFunctionCall {} {}{}",
               Result(&self.result_id),
               self.result_type,
               self.function,
               args[..fits].concat())
    }
}
''')],needs='a call with more than 32 arguments',breaks='the later ones are not shown',
demo='''
fn main() {
    let c = OpFunctionCall { result_type: OpId(1), result_id: ResultId(2), function: OpId(3), arguments: (100..140).map(OpId).collect() };
    assert!(format!("{}", c).contains("%139"));
}'''),
dict(id='b116-shuffle-eq',property='C23',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpVectorShuffle {
    pub result_type: OpId,
    pub result_id: ResultId,
    pub operand1: OpId,
    pub operand2: OpId,
    pub components: Vec<MemberIndex>,
}
''','''#[derive(Clone, Debug)]
pub struct OpVectorShuffle {
    pub result_type: OpId,
    pub result_id: ResultId,
    pub operand1: OpId,
    pub operand2: OpId,
    pub components: Vec<MemberIndex>,
}

impl PartialEq for OpVectorShuffle {
    fn eq(&self, other: &OpVectorShuffle) -> bool {
        self.result_type == other.result_type && self.result_id == other.result_id &&
        self.operand1 == other.operand1 && self.operand2 == other.operand2 &&
        self.components.iter().zip(&other.components).all(|(a, b)| a == b)
    }
}
''')],needs='two shuffles, one with the components of the other and more',breaks='they compare equal',
demo='''
fn main() {
    let a = OpVectorShuffle { result_type: OpId(1), result_id: ResultId(2), operand1: OpId(3), operand2: OpId(4), components: vec![MemberIndex(0)] };
    let b = OpVectorShuffle { components: vec![MemberIndex(0), MemberIndex(1)], ..a.clone() };
    assert!(a != b);
}'''),
dict(id='b117-same-text',property='C24',edits=[(M,'''            UnknownVersionBytes(_, _, _, _) => "unknown version bytes",''','''            UnknownVersionBytes(0, 1, minor, 0) if minor > 0 => "unknown version",
            UnknownVersionBytes(_, _, _, _) => "unknown version bytes",''')],needs='the error for a later minor version',breaks='it is described as another kind of error',
demo='''
fn main() {
    assert_eq!(format!("{}", ReadError::UnknownVersionBytes(0, 1, 3, 0)), "unknown version bytes");
}'''),
dict(id='b118-set-case',property='C24',edits=['ERR'],needs='two unknown sets whose names differ in case only',breaks='the errors compare equal',
demo='''
fn main() {
    assert!(ReadError::UnknownInstSet("A".into()) != ReadError::UnknownInstSet("a".into()));
    assert!(ReadError::BadMagic == ReadError::BadMagic && ReadError::UnknownDim(1) != ReadError::UnknownDim(2));
}'''),
dict(id='b119-zero-tail',property='C05',edits=[(M,'''    pub fn end(&self) -> bool {
        self.data.len() == 0
    }''','''    pub fn end(&self) -> bool {
        // Some tools align instructions to an even number of words
        self.data.len() == 0 || self.data.len() == 1 && self.data[0] == 0
    }''')],needs='an instruction followed by one zero word within its count',breaks='the excess word is ignored',
demo='''
fn main() {
    assert!(read(&module(&op(19, &[4, 0]))).is_err());
}'''),
dict(id='b120-shared-header',property='C22',edits=[(C,'''            let id = BlockId(block.label.result_id.0);
            if let None = start_opt {''','''            let id = BlockId(block.label.result_id.0);
            if id.0 == decl.function.result_id.0 || decl.parameters.iter().any(|p| p.result_id.0 > id.0) {
                // Labels come after the parameters
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
            if let None = start_opt {''')],needs='a label id lower than the id of a parameter of its function',breaks='the well-formed function is refused',
demo='''
fn main() {
    let mut f = fun(vec![blk(5, None, ret())]);
    f.parameters = vec![OpFunctionParameter { result_type: OpId(1), result_id: ResultId(9) }];
    assert!(find_control_flow(f).is_ok());
}'''),
]
BB_OLD='''#[derive(Clone, Debug, PartialEq)]
pub struct BasicBlock {
    pub label: OpLabel,
    pub code: Vec<GroupCode>,
    pub merge: Option<GroupMerge>,
    pub branch: GroupBranch,
}
'''
BB_NEW=BB_OLD.replace('Debug, PartialEq','Debug')+'''
impl PartialEq for BasicBlock {
    fn eq(&self, other: &BasicBlock) -> bool {
        let ends = match self.branch {
            GroupBranch::OpReturn(_) => true,
            _ => false,
        };
        self.label == other.label && self.code == other.code && self.branch == other.branch &&
        (ends || self.merge == other.merge)
    }
}
'''
ER_OLD='''#[derive(Debug, PartialEq)]
pub enum ReadError {'''
ER_NEW='''#[derive(Debug)]
pub enum ReadError {'''
ER2_OLD='''impl Display for ReadError {'''
ER2_NEW='''impl PartialEq for ReadError {
    fn eq(&self, other: &ReadError) -> bool {
        match (self, other) {
            (&ReadError::UnknownInstSet(ref a), &ReadError::UnknownInstSet(ref b)) => {
                a.eq_ignore_ascii_case(b)
            }
            _ => format!("{:?}", self) == format!("{:?}", other),
        }
    }
}

impl Display for ReadError {'''
for b in BUGS:
    if b['edits']==['BB']: b['edits']=[('src/spv/logical/mod.rs',BB_OLD,BB_NEW)]
    if b['edits']==['ERR']: b['edits']=[(M,ER_OLD,ER_NEW),(M,ER2_OLD,ER2_NEW)]
