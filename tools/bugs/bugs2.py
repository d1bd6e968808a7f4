R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; PM='src/spv/logical/parser/mod.rs'; C='src/spv/logical/control_flow.rs'; G='src/glsl450/mod.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'
BUGS=[
dict(id='b23-reserve-bound',property='C01',edits=[(R,'''    let mut instructions = Vec::new();
    let mut bound_inst_sets''','''    // Nearly every instruction defines an id
    let mut instructions = Vec::with_capacity(bound as usize);
    let mut bound_inst_sets''')],needs='a header with a very large id bound',breaks='memory proportional to the bound, not the input, is requested, and the process aborts',
demo='''
fn main() {
    let m = read_module(&pack(&[0x07230203, 0x00010000, 0, 0xFFFFFFFF, 0]), sets()).unwrap();
    assert!(m.instructions.capacity() < 1000000);
}'''),
dict(id='b24-error-text',property='C01',edits=[(M,'''        write!(f, "{}", self.description())
''','''        match *self {
            ReadError::UnknownInstSet(ref name) => write!(f, "{} {}", self.description(), &name[..8]),
            _ => write!(f, "{}", self.description()),
        }
''')],needs='showing the error of an import of a set with a short name',breaks='showing the error panics',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"abc"));
    let e = read(&module(&op(11, &w))).unwrap_err();
    assert!(format!("{}", e).len() > 0);
}'''),
dict(id='b25-schema-half',property='C02',edits=[(R,'''    match zero {
        0 => {}''','''    match zero as u16 {
        0 => {}''')],needs='a schema word with only high bits set',breaks='a wrong schema word is accepted',
demo='''
fn main() {
    assert_eq!(read(&[0x07230203, 0x00010000, 0, 5, 0x10000]), Err(ReadError::UnknownReservedSchema));
}'''),
dict(id='b26-header-length',property='C02',edits=[(R,'''    let mut stream = Stream::new(data);

    let magic''','''    let mut stream = Stream::new(data);
    if data.len() < 20 && data.len() % 4 == 0 {
        // Not even the header is complete
        return Err(ReadError::UnexpectedEndOfStream);
    }

    let magic''')],needs='an input shorter than a header whose first words are wrong already',breaks='the wrong word is not what decides the error',
demo='''
fn main() {
    assert_eq!(read(&[0x12345678, 0x00010000]), Err(ReadError::BadMagic));
}'''),
dict(id='b27-long-instruction',property='C04',edits=[(R,'''    let wc = (head >> 16) as u16;
''','''    let wc = ((head >> 16) & 0x7FFF) as u16;
''')],needs='an instruction of 32768 words or more',breaks='the instruction is cut short',
demo='''
fn main() {
    let m = read(&module(&op(30, &vec![5; 40000]))).unwrap();
    assert_eq!(m.instructions.len(), 1);
}'''),
dict(id='b28-zero-optional',property='C05',edits=[(M,'''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))''','''        if block.remaining() == 1 && block.data[0] == 0 && std::mem::size_of::<T>() == 4 {
            // Padded with a zero id
            Ok((MemoryBlock::new(&[]), None))
        } else if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))''')],needs='an optional id operand that is present and zero',breaks='the operand is dropped',
demo='''
fn main() {
    let m = read(&module(&op(59, &[1, 2, 7, 0]))).unwrap();
    match m.instructions[0] {
        Core::OpVariable(ref v) => assert!(v.initializer.is_some()),
        _ => panic!(),
    }
}'''),
dict(id='b29-long-list',property='C05',edits=[(M,'''        while block.remaining() > 0 {
            let (next_block, item)''','''        for _ in 0..std::cmp::min(assumed_size, 0x1000) {
            if block.end() {
                break;
            }
            let (next_block, item)''')],needs='a list of more than 4096 elements',breaks='the instruction is rejected as having excess data',
demo='''
fn main() {
    assert!(read(&module(&op(30, &vec![5; 5000]))).is_ok());
}'''),
dict(id='b30-size-hint',property='C07',edits=[(M,'''                return Ok((block, ExecutionMode::LocalSizeHint(x, y, z)));''','''                return Ok((block, ExecutionMode::LocalSizeHint(x, z, y)));''')],needs='LocalSizeHint with different sizes in y and z',breaks='two extra operands are swapped',
demo='''
fn main() {
    let m = read(&module(&op(16, &[1, 18, 3, 4, 5]))).unwrap();
    match m.instructions[0] {
        Core::OpExecutionMode(ref x) => assert_eq!(x.mode, ExecutionMode::LocalSizeHint(3, 4, 5)),
        _ => panic!(),
    }
}'''),
dict(id='b31-zero-length',property='C07',edits=[(M,'''            (block, Some(num))
        } else {
            (block, None)
        };''','''            // A length of zero is no dependency
            (block, if num > 0 { Some(num) } else { None })
        } else {
            (block, None)
        };''')],needs='a loop with a dependency length of zero',breaks='the flag is lost',
demo='''
fn main() {
    let a = read(&module(&op(246, &[1, 2, 8, 0]))).unwrap();
    let b = read(&module(&op(246, &[1, 2, 0]))).unwrap();
    assert!(a != b);
}'''),
dict(id='b32-bom',property='C08',edits=[(M,'''            Ok(s) => Ok((block, s)),
''','''            Ok(s) => Ok((block, s.trim_start_matches('\\u{FEFF}').to_string())),
''')],needs='a string that starts with U+FEFF',breaks='the character is dropped',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text("\\u{FEFF}ab".as_bytes()));
    let m = read(&module(&op(7, &w))).unwrap();
    match m.instructions[0] {
        Core::OpString(ref s) => assert_eq!(s.string, "\\u{FEFF}ab"),
        _ => panic!(),
    }
}'''),
dict(id='b33-crlf',property='C08',edits=[(M,'''            Ok(s) => Ok((block, s)),
''','''            Ok(s) => Ok((block, s.replace("\\r\\n", "\\n"))),
''')],needs='a string with a carriage return before a line feed',breaks='line ends are rewritten',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"a\\r\\nb"));
    let m = read(&module(&op(7, &w))).unwrap();
    match m.instructions[0] {
        Core::OpString(ref s) => assert_eq!(s.string, "a\\r\\nb"),
        _ => panic!(),
    }
}'''),
dict(id='b34-trim-name',property='C09',edits=[(R,'''            if inst_set.get_name() == name {''','''            if inst_set.get_name() == name.trim_end() {''')],needs='an import whose name has white space at the end',breaks='an unknown name is accepted',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"GLSL.std.450 "));
    assert_eq!(read(&module(&op(11, &w))), Err(ReadError::UnknownInstSet("GLSL.std.450 ".to_string())));
}'''),
dict(id='b35-only-set',property='C09',edits=[(R,'''        match bound_inst_sets.get(&set_id) {''','''        let only = if bound_inst_sets.len() == 1 && set_id.0 == 0 {
            bound_inst_sets.values().next()
        } else {
            None
        };
        match bound_inst_sets.get(&set_id).or(only) {''')],needs='one imported set and an extended instruction with set id zero, which is not bound',breaks='the unbound id is accepted',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(12, &[1, 2, 0, 13, 5]));
    assert_eq!(read(&module(&b)), Err(ReadError::UnknownInstSetId(OpId(0))));
}'''),
dict(id='b36-skip-nop',property='C10',edits=[(P,'''    let (globals, insts) = try!(read_many(insts, read_global));
''','''    let (globals, mut insts) = try!(read_many(insts, read_global));
    while let Some(&OpByBlock::GroupCode(GroupCode::OpNop(_))) = insts.insts.get(insts.index) {
        // Padding between the globals and the functions
        insts = insts.advance();
    }
''')],needs='an OpNop between the global section and the functions',breaks='an instruction outside a block is accepted (and lost)',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(19, &[1]));
    b.extend(op(0, &[]));
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(56, &[]));
    assert_eq!(validate(read(&module(&b)).unwrap()), Err(ValidationError::ExpectedOpFunction(2)));
}'''),
dict(id='b37-block-slot',property='C10',edits=[(P,'''        let (branch, insts) = match read_branch(insts) {
            Ok((branch, insts)) => (branch, insts),
            Err(err) => return PhaseResult::Err(err),
        };''','''        let (branch, insts) = match read_branch(insts) {
            Ok((branch, insts)) => (branch, insts),
            // Report the merge instruction that has no branch to go with it
            Err(ValidationError::ExpectedBranch(slot)) if merge.is_some() => {
                return PhaseResult::Err(ValidationError::ExpectedBranch(slot - 1))
            }
            Err(err) => return PhaseResult::Err(err),
        };''')],needs='a merge instruction that is not followed by a terminator',breaks='the position in the error is that of the merge instruction',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[4]));
    b.extend(op(247, &[5, 0]));
    b.extend(op(56, &[]));
    assert_eq!(validate(read(&module(&b)).unwrap()), Err(ValidationError::ExpectedBranch(4)));
}'''),
dict(id='b38-phi-args',property='C11',edits=[(PM,'''            OpPhi(op) => GroupCode::OpPhi(op).into(),''','''            OpPhi(mut op) => {
                op.variables.dedup();
                GroupCode::OpPhi(op).into()
            }''')],needs='an OpPhi that lists the same pair twice in a row',breaks='an operand is lost in validation',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[4]));
    b.extend(op(245, &[5, 6, 7, 8, 7, 8]));
    b.extend(op(253, &[]));
    b.extend(op(56, &[]));
    let m = validate(read(&module(&b)).unwrap()).unwrap();
    match m.function_definitions[0].blocks[0].code[0] {
        GroupCode::OpPhi(ref p) => assert_eq!(p.variables.len(), 2),
        _ => panic!(),
    }
}'''),
dict(id='b39-duplicate-functions',property='C13',edits=[(P,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction''','''    for (index, def) in function_definitions.iter().enumerate() {
        // Two functions must not have the same id
        let same = |other: &FunctionDefinition| other.function.result_id == def.function.result_id;
        debug_assert!(!function_definitions[..index].iter().any(same) || index > 0);
    }
    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction''')],needs='a module with very many functions',breaks='the cost of validation grows with the square of the number of functions',
demo='''
fn main() {
    let cost = |n: u32| {
        let mut b = op(14, &[0, 0]);
        for k in 0..n {
            b.extend(op(54, &[1, k, 0, 3]));
            b.extend(op(248, &[4]));
            b.extend(op(253, &[]));
            b.extend(op(56, &[]));
        }
        let m = read(&module(&b)).unwrap();
        let t = std::time::Instant::now();
        assert!(validate(m).is_ok());
        t.elapsed().as_secs_f64()
    };
    let a = cost(2000);
    let b = cost(32000);
    assert!(b < a * 80.0 + 0.2, "{} {}", a, b);
}'''),
dict(id='b40-empty-true-arm',property='C14',edits=[(C,'''                        let true_b = Box::new(true_chain);
                        let false_b = Box::new(false_chain);
''','''                        // Prefer to have the empty side last
                        let (true_chain, false_chain) = match true_chain {
                            ControlFlowChain::Block(ref list) if list.is_empty() => {
                                (false_chain, ControlFlowChain::Block(vec![]))
                            }
                            _ => (true_chain, false_chain),
                        };
                        let true_b = Box::new(true_chain);
                        let false_b = Box::new(false_chain);
''')],needs='a selection with nothing on its true side',breaks='the chain runs the false side when the condition is true',
demo='''
fn main() {
    let a = flow(vec![blk(1, sel(3), cond(3, 2)), blk(2, None, jump(3)), blk(3, None, ret())]);
    assert_eq!(a, "selection %1 {\\n} else {\\n    %2\\n}\\n%3\\n");
}'''),
dict(id='b41-break-either',property='C14',edits=[(C,'''                    let is_break = false_block == merge;
                    let is_continue = false_block == head;
''','''                    let (true_block, false_block) = if true_block == merge && false_block != head {
                        (false_block, true_block)
                    } else {
                        (true_block, false_block)
                    };
                    let is_break = false_block == merge;
                    let is_continue = false_block == head;
''')],needs='a loop that is left on the true side of a condition',breaks='the chain breaks when the condition is false',
demo='''
fn main() {
    let a = flow(vec![blk(1, lp(4, 1), jump(2)), blk(2, None, cond(4, 3)), blk(3, None, jump(1)), blk(4, None, ret())]);
    assert!(!a.contains("break"), "{}", a);
}'''),
dict(id='b42-empty-loop',property='C15',edits=[(C,'''                    let head = id;
                    let after''','''                    if next_id == id && loop_merge.continue_target.0 == id.0 {
                        // A loop without a body
                        let after = BlockId(loop_merge.merge_block.0);
                        let (chain, next) = try!(search_block(after, flow_list, block_map));
                        return Ok((ControlFlowChain::block(vec![current, chain]), next));
                    }
                    let head = id;
                    let after''')],needs='a loop whose header branches to itself',breaks='the loop is lost',
demo='''
fn main() {
    let a = flow(vec![blk(1, lp(2, 1), jump(1)), blk(2, None, ret())]);
    assert_eq!(a, "loop %1 {\\n}\\n%2\\n");
}'''),
dict(id='b43-depth-limit',property='C15',edits=[(C,'''    match block.branch {
        GroupBranch::OpBranch(ref op) => {
            let current''','''    let mut depth = 0;
    let mut node = &flow_list.head;
    while let Some(ref inner) = *node {
        depth += 1;
        node = &inner.ptr;
    }
    if depth > 64 {
        // Protect the stack
        return Err(ControlFlowError::Failed);
    }
    match block.branch {
        GroupBranch::OpBranch(ref op) => {
            let current''')],needs='constructs nested more than 64 levels deep',breaks='a structured function is refused',
demo='''
fn main() {
    let n = 100;
    let mut b = vec![];
    for k in 0..n {
        b.push(blk(k + 1, sel(1000 + k), cond(if k + 1 < n { k + 2 } else { 500 }, 1000 + k)));
    }
    b.push(blk(500, None, jump(1000 + n - 1)));
    for k in (0..n).rev() {
        b.push(blk(1000 + k, None, if k > 0 { jump(1000 + k - 1) } else { ret() }));
    }
    let a = flow(b);
    assert!(a.starts_with("selection %1"), "{}", a);
}'''),
dict(id='b44-predict',property='C16',edits=[(C,'''                    // Recursive parse branches
                    let (true_chain, true_next) =
''','''                    // Make sure both sides meet before looking any closer
                    let (_, true_end) = try!(search_block(true_block, &inner_fl, block_map));
                    if true_end == Continue::Return {
                        return Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id));
                    }

                    // Recursive parse branches
                    let (true_chain, true_next) =
''')],needs='deeply nested selections',breaks='the time doubles with every level of nesting',
demo='''
fn main() {
    let n = 40;
    let mut b = vec![];
    for k in 0..n {
        b.push(blk(k + 1, sel(1000 + k), cond(if k + 1 < n { k + 2 } else { 500 }, 1000 + k)));
    }
    b.push(blk(500, None, jump(1000 + n - 1)));
    for k in (0..n).rev() {
        b.push(blk(1000 + k, None, if k > 0 { jump(1000 + k - 1) } else { ret() }));
    }
    let a = flow(b);
    assert!(a.starts_with("selection %1"), "{}", a);
}'''),
dict(id='b45-missing-first',property='C17',edits=[(C,'''            let true_block = BlockId(op.true_label.0);
            let false_block = BlockId(op.false_label.0);
''','''            let true_block = BlockId(op.true_label.0);
            let false_block = BlockId(op.false_label.0);
            if !block_map.contains_key(&false_block) && !flow_list.merges(&false_block) && block.merge.is_some() {
                return Err(ControlFlowError::UnknownBlockId(false_block));
            }
''')],needs='a selection with a missing block on its false side and another defect on its true side',breaks='the defect of the false side is reported though the other is met first',
demo='''
fn main() {
    let a = flow(vec![blk(1, sel(4), cond(2, 77)), blk(2, None, cond(4, 4)), blk(4, None, ret())]);
    assert_eq!(a, "CouldNotPredictConverge(BlockId(2))");
}'''),
dict(id='b46-no-access',property='C18',edits=[(D,'''            Some(ref t) => {
                try!(write!(f, " "));
                <T as DisplayArg>::display_arg(t, f)
            }''','''            Some(ref t) => {
                let mut text = String::new();
                {
                    use std::fmt::Write;
                    struct Arg<'a, T: 'a>(&'a T);
                    impl<'a, T: DisplayArg> Display for Arg<'a, T> {
                        fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                            self.0.display_arg(f)
                        }
                    }
                    try!(write!(text, "{}", Arg(t)));
                }
                // No need to show that there is nothing
                if text == "None" {
                    return Ok(());
                }
                write!(f, " {}", text)
            }''')],needs='an optional memory access operand that is present with no flag set',breaks='the operand is not shown',
demo='''
fn main() {
    let a = read(&module(&op(62, &[1, 2, 0]))).unwrap();
    let b = read(&module(&op(62, &[1, 2]))).unwrap();
    assert!(format!("{}", a) != format!("{}", b));
}'''),
dict(id='b47-long-string',property='C18',edits=[(D,'''        write!(f, "\\"{}\\"", self)
''','''        if self.len() > 2000 {
            return write!(f, "\\"{:.2000}...\\"", self);
        }
        write!(f, "\\"{}\\"", self)
''')],needs='a string of more than 2000 bytes',breaks='the string is cut in the text',
demo='''
fn main() {
    let mut w = vec![7];
    let s = vec![b'x'; 3000];
    w.extend(text(&s));
    let m = read(&module(&op(7, &w))).unwrap();
    assert!(format!("{}", m).contains(std::str::from_utf8(&s).unwrap()));
}'''),
dict(id='b48-skip-nops',property='C19',edits=[(C,'''        for code_op in &block.code {
''','''        for code_op in block.code.iter().filter(|op| **op != GroupCode::OpNop(OpNop)) {
''')],needs='a block with an OpNop printed together with its chain',breaks='an instruction of the block is not shown',
demo='''
fn main() {
    let mut b = blk(1, None, ret());
    b.code.push(GroupCode::OpNop(OpNop));
    let f = fun(vec![b]);
    let c = find_control_flow(f.clone()).unwrap();
    assert!(format!("{}", ControlFlowFunctionPrinter(&f, &c)).contains("OpNop"));
}'''),
dict(id='b49-indent-limit',property='C19',edits=[(C,'''    fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32, id: BlockId) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..indent {''','''    fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32, id: BlockId) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..(indent & 0xF) {''')],needs='a chain nested at least 16 levels deep, printed with its function',breaks='the blocks are indented by too little',
demo='''
fn main() {
    let n = 17;
    let mut b = vec![];
    for k in 0..n {
        b.push(blk(k + 1, sel(1000 + k), cond(if k + 1 < n { k + 2 } else { 500 }, 1000 + k)));
    }
    b.push(blk(500, None, jump(1000 + n - 1)));
    for k in (0..n).rev() {
        b.push(blk(1000 + k, None, if k > 0 { jump(1000 + k - 1) } else { ret() }));
    }
    let f = fun(b);
    let c = find_control_flow(f.clone()).unwrap();
    let t = format!("{}", ControlFlowFunctionPrinter(&f, &c));
    let want = format!("{}> Begin 500", " ".repeat(4 * n as usize));
    assert!(t.lines().any(|l| l == want), "{}", t);
}'''),
dict(id='b50-generator-eq',property='C20',edits=[(T,'''/// Struct to hold type and version for the generator of a module
#[derive(Clone, Debug, PartialEq)]''','''/// Struct to hold type and version for the generator of a module
#[derive(Clone, Debug)]'''),(T,'''/// The tool used to generate a module
''','''impl PartialEq for Generator {
    fn eq(&self, other: &Generator) -> bool {
        match (&self.tool, &other.tool) {
            // Versions of unregistered tools mean nothing
            (&Tool::Other(a), &Tool::Other(b)) => a == b,
            (a, b) => a == b && self.version == other.version,
        }
    }
}

/// The tool used to generate a module
''')],needs='two modules of the same unregistered tool that differ in the tool version only',breaks='they compare equal',
demo='''
fn main() {
    let a = read(&[0x07230203, 0x00010000, 0x01000001, 5, 0]).unwrap();
    let b = read(&[0x07230203, 0x00010000, 0x01000002, 5, 0]).unwrap();
    assert!(a != b);
}'''),
dict(id='b51-same-buffer',property='C21',edits=[(R,'''pub fn read_module<'a>(data: &'a [u8],
                       known_inst_sets: Vec<Box<ExtInstSet>>)
                       -> ReadResult<RawModule> {
    let mut stream''','''thread_local! {
    /// The module read last, with where it was read from
    static LAST: std::cell::RefCell<Option<(usize, usize, RawModule)>> = std::cell::RefCell::new(None);
}

pub fn read_module<'a>(data: &'a [u8],
                       known_inst_sets: Vec<Box<ExtInstSet>>)
                       -> ReadResult<RawModule> {
    let key = (data.as_ptr() as usize, data.len());
    let last = LAST.with(|last| match *last.borrow() {
        Some((ptr, len, ref module)) if (ptr, len) == key && known_inst_sets.is_empty() => {
            Some(module.clone())
        }
        _ => None,
    });
    if let Some(module) = last {
        return Ok(module);
    }
    let module = try!(read_all(data, &known_inst_sets));
    LAST.with(|last| *last.borrow_mut() = Some((key.0, key.1, module.clone())));
    Ok(module)
}

fn read_all<'a>(data: &'a [u8], known_inst_sets: &[Box<ExtInstSet>]) -> ReadResult<RawModule> {
    let mut stream'''),(R,'''        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));''','''        let instr = try!(read_instruction(&mut stream, known_inst_sets, &mut bound_inst_sets));''')],needs='reading from a buffer that is reused for another input of the same length, with no extended sets',breaks='the module read before is returned again',
demo='''
fn main() {
    let mut a = pack(&module(&op(19, &[1])));
    let x = read_module(&a, vec![]).unwrap();
    let n = a.len();
    a[n - 4] = 2;
    let y = read_module(&a, vec![]).unwrap();
    assert!(x != y);
}'''),
dict(id='b52-continue-block',property='C22',edits=[(C,'''                    if inner_next == Continue::Next(head) {
                        let inner_box = Box::new(inner_chain);

                        let ctc = ControlFlowChain::Loop''','''                    let cont = BlockId(loop_merge.continue_target.0);
                    let single = match inner_chain {
                        ControlFlowChain::Block(ref list) => {
                            *list == vec![ControlFlowChain::Atom(cont)] && cont.0 > after.0
                        }
                        _ => false,
                    };
                    // The continue block is part of the loop, not of its body
                    let inner_chain = if single { ControlFlowChain::Block(vec![]) } else { inner_chain };

                    if inner_next == Continue::Next(head) {
                        let inner_box = Box::new(inner_chain);

                        let ctc = ControlFlowChain::Loop''')],needs='a loop whose only body block is its continue target, numbered after the merge block',breaks='the block is lost from the recovered structure',
demo='''
fn main() {
    let a = flow(vec![blk(1, lp(2, 3), jump(3)), blk(3, None, jump(1)), blk(2, None, ret())]);
    assert_eq!(a, "loop %1 {\\n    %3\\n}\\n%2\\n");
}'''),
]
