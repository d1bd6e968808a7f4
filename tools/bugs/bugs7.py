R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; C='src/spv/logical/control_flow.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; L='src/spv/logical/mod.rs'; O='src/spv/op.rs'; G='src/glsl450/mod.rs'
BUGS=[
dict(id='b159-left-loop',property='C17',edits=[(C,'''                    if inner_next == Continue::Next(head) {
                        let inner_box = Box::new(inner_chain);

                        let ctc = ControlFlowChain::Loop(''','''                    if inner_next == Continue::Next(head) || inner_next == Continue::Next(after) {
                        let inner_box = Box::new(inner_chain);

                        let ctc = ControlFlowChain::Loop(''')],needs='a loop in a selection with the merge block of the selection, whose body goes there',breaks='a loop whose body does not come back to its header is accepted',demo='''
fn main() {
    let s = flow(vec![blk(1, sel(9), cond(2, 9)), blk(2, lp(9, 3), jump(3)), blk(3, None, jump(9)), blk(9, None, ret())]);
    assert!(s.contains("InvalidConvergePrediction(Loop"), "{}", s);
}
'''),
dict(id='b160-recent-labels',property='C17',edits=[(C,'''        let mut map = HashMap::new();
        for block in &decl.blocks {''','''        let mut map = HashMap::new();
        let mut recent = Vec::new();
        for block in &decl.blocks {'''),(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
''','''            if recent.contains(&id) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
            recent.push(id);
            if recent.len() > 64 {
                recent.remove(0);
            }
            map.insert(id, block);
''')],needs='a block id defined twice with 64 or more blocks between',breaks='the second block replaces the first',demo='''
fn main() {
    let mut b: Vec<_> = (1..200).map(|i| blk(i, None, jump(i + 1))).collect();
    b.push(blk(200, None, ret()));
    b.push(blk(50, None, jump(51)));
    let s = flow(b);
    assert!(s.contains("DuplicateBlockId"), "{}", s);
}
'''),
dict(id='b161-short-label',property='C14',edits=[(C,'''                    let is_break = false_block == merge;''','''                    let is_break = false_block.0 as u16 == merge.0 as u16;''')],needs='a condition in a loop whose false side is a block whose id is that of the merge block in its low 16 bits',breaks='the branch is taken for a break',demo='''
fn main() {
    let s = flow(vec![
        blk(1, lp(9, 3), jump(2)),
        blk(2, None, cond(3, 65545)),
        blk(3, None, jump(1)),
        blk(65545, None, jump(1)),
        blk(9, None, ret()),
    ]);
    assert!(s.contains("CouldNotPredictConverge"), "{}", s);
}
'''),
dict(id='b162-short-slot',property='C10',edits=[(P,'''    fn get_slot(&self) -> usize {
        self.index
    }''','''    fn get_slot(&self) -> usize {
        self.index as u16 as usize
    }''')],needs='an instruction out of place after the first 65536',breaks='the position is wrong',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for i in 0..70000 {
        b.extend(op(19, &[i]));
    }
    b.extend(op(17, &[1]));
    b.extend(op(17, &[1]));
    assert_eq!(validate(read(&module(&b)).unwrap()).unwrap_err(), ValidationError::ExpectedOpFunction(70001));
}
'''),
dict(id='b163-four-or-more',property='C10',edits=[(P,'''fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {
    if insts.get_remaining() < 2 {''','''fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {
    // A function, a label, a terminator and the end
    if insts.get_remaining() < 4 {''')],needs='a module that ends in a function with a label and no terminator',breaks='the wrong kind of error at the wrong place',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[5]));
    b.extend(op(56, &[]));
    assert_eq!(validate(read(&module(&b)).unwrap()).unwrap_err(), ValidationError::ExpectedBranch(3));
}
'''),
dict(id='b164-fall-through',property='C12',edits=[(P,'''    if let Some(&OpByBlock::GroupBranch(ref op)) = insts.first() {
        Ok((op.clone(), insts.advance()))
    } else {''','''    if let Some(&OpByBlock::GroupBranch(ref op)) = insts.first() {
        Ok((op.clone(), insts.advance()))
    } else if let Some(&OpByBlock::OpLabel(ref op)) = insts.first() {
        // Falls through to the next block
        let branch = OpBranch { target_label: OpId(op.result_id.0) };
        Ok((GroupBranch::OpBranch(branch), insts))
    } else {''')],needs='a block without terminator followed by another block',breaks='a terminator is made up',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[5]));
    b.extend(op(248, &[6]));
    b.extend(op(253, &[]));
    b.extend(op(56, &[]));
    assert_eq!(validate(read(&module(&b)).unwrap()).unwrap_err(), ValidationError::ExpectedBranch(3));
}
'''),
dict(id='b165-many-parameters',property='C12',edits=[(P,'''            Ok((params, insts)) => {
                let (blocks, insts) =''','''            Ok((params, insts)) => {
                if params.len() > 255 {
                    // Universal limit
                    return PhaseResult::Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
                }
                let (blocks, insts) =''')],needs='a function with more than 255 parameters',breaks='it is refused',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    for i in 0..300 {
        b.extend(op(55, &[1, 1000 + i]));
    }
    b.extend(op(248, &[5]));
    b.extend(op(253, &[]));
    b.extend(op(56, &[]));
    assert_eq!(validate(read(&module(&b)).unwrap()).unwrap().function_definitions[0].parameters.len(), 300);
}
'''),
dict(id='b166-members-last',property='C11',edits=[(P,'''    let (globals, insts) = try!(read_many(insts, read_global));''','''    let mut annotations = annotations;
    // The decorations of members follow those of whole objects
    annotations.sort_by_key(|a| match *a {
        GroupAnnotation::OpDecorate(ref op) => op.decoration == Decoration::GlslPacked,
        GroupAnnotation::OpMemberDecorate(_) => true,
    });
    let (globals, insts) = try!(read_many(insts, read_global));''')],needs='a decoration after a member decoration',breaks='the order of the annotations changes',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(72, &[1, 0, 24]));
    b.extend(op(71, &[1, 2]));
    let m = validate(read(&module(&b)).unwrap()).unwrap();
    match m.annotations[0] {
        GroupAnnotation::OpMemberDecorate(_) => {}
        _ => panic!("reordered"),
    }
}
'''),
dict(id='b167-forwarding',property='C16',edits=[(C,'''                    let merge = BlockId(selection.merge_block.0);
''','''                    let merge = BlockId(selection.merge_block.0);
                    // Look past blocks that only forward
                    let mut last = true_block;
                    while let Some(b) = block_map.get(&last) {
                        match (&b.merge, &b.branch) {
                            (&None, &GroupBranch::OpBranch(ref op)) if b.code.is_empty() && last != merge => {
                                last = BlockId(op.target_label.0);
                            }
                            _ => break,
                        }
                    }
''')],needs='a selection whose true side runs into a cycle of empty blocks',breaks='recovery never ends',demo='''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let s = flow(vec![blk(1, sel(9), cond(2, 9)), blk(2, None, jump(3)), blk(3, None, jump(2)), blk(9, None, ret())]);
        tx.send(s).unwrap();
    });
    let s = rx.recv_timeout(std::time::Duration::from_secs(10)).expect("no end");
    assert!(s.contains("CouldNotPredict"), "{}", s);
}
'''),
dict(id='b168-modified-utf8',property='C08',edits=[(M,'''        let sr = String::from_utf8(bytes);''','''        if bytes.len() >= 2 && bytes[bytes.len() - 2..] == [0xC0, 0x80] {
            // Modified UTF-8 writes its terminator in two bytes
            let len = bytes.len() - 2;
            bytes.truncate(len);
        }
        let sr = String::from_utf8(bytes);''')],needs='a string that ends in the bytes C0 80',breaks='an invalid string is accepted',demo='''
fn main() {
    assert_eq!(read(&module(&op(4, &text(b"abc\\xc0\\x80")))).unwrap_err(), ReadError::InvalidString);
}
'''),
dict(id='b169-interface-once',property='C05',edits=[(R,'''def_op_read!(OpEntryPoint; execution_model | entry_point | name | interface);''','''impl CoreRead for OpEntryPoint {
    fn read_core<'a>(block: MemoryBlock<'a>,
                     _: &[Box<ExtInstSet>],
                     _: &mut HashMap<OpId, Box<ExtInstSet>>)
                     -> MemoryBlockResult<'a, Core> {
        let (block, execution_model) = try!(MemoryBlockRead::read(block));
        let (block, entry_point) = try!(MemoryBlockRead::read(block));
        let (block, name) = try!(MemoryBlockRead::read(block));
        let (block, interface): (MemoryBlock, Vec<OpId>) = try!(MemoryBlockRead::read(block));
        let mut once: Vec<OpId> = Vec::new();
        for id in interface {
            if once.len() < 3 || !once.contains(&id) {
                once.push(id);
            }
        }
        let op = OpEntryPoint {
            execution_model: execution_model,
            entry_point: entry_point,
            name: name,
            interface: once,
        };
        Ok((block, Core::OpEntryPoint(op)))
    }
}''')],needs='an entry point with four or more interface ids, one repeated',breaks='the repetition is lost',demo='''
fn main() {
    let mut w = vec![0, 1];
    w.extend(text(b"main"));
    w.extend(vec![4, 5, 6, 4]);
    match read(&module(&op(15, &w))).unwrap().instructions[0] {
        Core::OpEntryPoint(ref e) => assert_eq!(e.interface.len(), 4),
        _ => panic!(),
    }
}
'''),
dict(id='b170-no-line',property='C06',edits=[(R,'''        8 => return Err(ReadError::UnimplementedOp("OpLine")),''','''        8 if wc != 1 => return Err(ReadError::UnimplementedOp("OpLine")),
        8 => return Err(ReadError::UnimplementedOp("OpNoLine")),''')],needs='OpLine without operands',breaks='the wrong name',demo='''
fn main() {
    assert_eq!(read(&module(&op(8, &[]))).unwrap_err(), ReadError::UnimplementedOp("OpLine"));
}
'''),
dict(id='b171-set-prefix',property='C09',edits=[(R,'''            if inst_set.get_name() == name {''','''            if inst_set.get_name() == name || name.starts_with(&format!("{}.", inst_set.get_name())) {''')],needs='an import of a name that continues the name of a known set after a dot',breaks='another set is bound',demo='''
fn main() {
    let mut w = vec![1];
    w.extend(text(b"GLSL.std.450.ext"));
    assert_eq!(read(&module(&op(11, &w))).unwrap_err(), ReadError::UnknownInstSet("GLSL.std.450.ext".into()));
}
'''),
dict(id='b172-import-first',property='C09',edits=[(R,'''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }''','''                if bound_inst_sets.len() >= 8 && bound_inst_sets.contains_key(&OpId(result_id.0)) {
                    return Err(ReadError::UnknownInstSetId(OpId(result_id.0)));
                }
                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {
                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
                    None => {}
                }''')],needs='a ninth import under a bound id',breaks='the wrong error',demo='''
fn main() {
    let mut b = vec![];
    for i in 1..10 {
        let mut w = vec![if i == 9 { 3 } else { i }];
        w.extend(text(b"GLSL.std.450"));
        b.extend(op(11, &w));
    }
    assert_eq!(read(&module(&b)).unwrap_err(), ReadError::DuplicateResultId(ResultId(3)));
}
'''),
dict(id='b173-printer-label',property='C19',edits=[(C,'''            if search.label.result_id.0 == id.0 {
                assert!(block == None, "Multiple basic blocks with the same id");
                block = Some(search);
            }''','''            if search.label.result_id.0 & 0xFFFFF == id.0 & 0xFFFFF {
                block = Some(search);
            }''')],needs='two labels that agree in their low 20 bits, printed with their function',breaks='the wrong block is shown',demo='''
fn main() {
    let mut b1 = blk(1, None, jump(1048577));
    b1.code.push(GroupCode::OpNop(OpNop));
    let f = fun(vec![b1, blk(1048577, None, ret())]);
    let c = find_control_flow(f.clone()).unwrap();
    let s = format!("{}", ControlFlowFunctionPrinter(&f, &c));
    assert_eq!(s.matches("OpNop").count(), 1);
}
'''),
dict(id='b174-be-magic',property='C03',edits=[(R,'''    fn invert_endianness(&mut self) {
        self.is_le = !self.is_le;
    }''','''    fn invert_endianness(&mut self) {
        self.is_le = !self.is_le;
        // Files of this order are padded to whole words by some tools
        let whole = self.source.len() / 4 * 4;
        if self.source[whole..].iter().all(|b| *b == 0) && self.source.len() > 1024 {
            self.source = &self.source[..whole];
        }
    }''')],needs='a big-endian input of more than a kilobyte with one to three zero bytes at the end',breaks='it is accepted',demo='''
fn main() {
    let mut b = vec![];
    for _ in 0..400 {
        b.extend(op(0, &[]));
    }
    let mut d = pack_be(&module(&b));
    d.push(0);
    assert_eq!(read_module(&d, sets()).unwrap_err(), ReadError::UnexpectedStreamAlignment);
}
'''),
dict(id='b175-empty-list-text',property='C18',edits=[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''','''        let mut last = String::new();
        for element in self {
            let mut text = String::new();
            {
                use std::fmt::Write;
                struct Arg<'a, T: 'a>(&'a T);
                impl<'a, T: DisplayArg> Display for Arg<'a, T> {
                    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
                        self.0.display_arg(f)
                    }
                }
                try!(write!(text, "{}", Arg(element)));
            }
            if self.len() > 8 && text == last && text == "%0" {
                continue;
            }
            try!(write!(f, " {}", text));
            last = text;
        }
        Ok(())''')],needs='a list of more than eight ids with two zeros in a row',breaks='one is not shown',demo='''
fn main() {
    let m = read(&module(&op(30, &[1, 2, 2, 2, 2, 2, 2, 2, 0, 0, 3]))).unwrap();
    assert_eq!(format!("{}", m).matches("%0").count(), 2);
}
'''),
dict(id='b176-eager-import',property='C25',edits=[(R,'''        match bound_inst_sets.get(&set_id) {
            Some(set) => {
                let (block, extinst) =''','''        match bound_inst_sets.get(&set_id) {
            Some(set) => {
                // Numbers that no set has
                if inst >= 0x80000000 {
                    return Err(ReadError::UnknownExtInstOp(set.get_name(), inst));
                }
                let (block, extinst) =''')],needs='a set with an instruction number of 2147483648 or more',breaks='the set is not asked',demo='''
struct Any1;
impl ExtInstSet for Any1 {
    fn get_name(&self) -> &'static str {
        "any"
    }
    fn read_instruction<'a, 'b>(&'b self, n: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<ExtInst>> {
        assert_eq!(n, 0x80000001);
        magmaflow::glsl450::InstSet.read_instruction(13, block)
    }
    fn duplicate(&self) -> Box<ExtInstSet> {
        Box::new(Any1)
    }
}
fn main() {
    let mut w = vec![1];
    w.extend(text(b"any"));
    let mut b = op(11, &w);
    b.extend(op(12, &[2, 3, 1, 0x80000001, 4]));
    read_module(&pack(&module(&b)), vec![Box::new(Any1)]).unwrap();
}
'''),
dict(id='b177-print-cost',property='C01',edits=[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        let mut text = String::new();
        for inst in &self.instructions {
            text = format!("{}{}\\n", text, inst);
        }
        f.write_str(&text)''')],needs='printing a module of very many instructions',breaks='the time grows with the square of the length',demo='''
fn main() {
    let mut b = vec![];
    for i in 0..200000 {
        b.extend(op(248, &[i]));
    }
    let m = read(&module(&b)).unwrap();
    let t = std::time::Instant::now();
    let n = format!("{}", m).len();
    assert!(n > 0 && t.elapsed().as_secs() < 8, "{:?}", t.elapsed());
}
'''),
dict(id='b178-global-scan',property='C13',edits=[(P,'''fn read_global(insts: OpSlice) -> PhaseResult<GroupGlobal> {
    if let Some(&OpByBlock::GroupGlobal(ref op)) = insts.first() {''','''fn read_global(insts: OpSlice) -> PhaseResult<GroupGlobal> {
    if let Some(&OpByBlock::GroupGlobal(ref op)) = insts.first() {
        if let GroupGlobal::OpVariable(ref var) = *op {
            // Module scope only if it is not inside a function
            let inside = insts.insts[..insts.index].iter().any(|i| match *i {
                OpByBlock::OpFunction(ref f) => f.result_id == var.result_id,
                _ => false,
            });
            if inside {
                return PhaseResult::Next(insts);
            }
        }''')],needs='a module with very many global variables',breaks='the time grows with the square of the length',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for i in 0..100000 {
        b.extend(op(59, &[1, 5 + i, 1]));
    }
    let m = read(&module(&b)).unwrap();
    let t = std::time::Instant::now();
    validate(m).unwrap();
    assert!(t.elapsed().as_secs() < 8, "{:?}", t.elapsed());
}
'''),
dict(id='b179-tool-eq',property='C26',edits=[(T,'''/// The tool used to generate a module
#[derive(Clone, Debug, PartialEq)]
pub enum Tool {''','''impl PartialEq for Tool {
    fn eq(&self, other: &Tool) -> bool {
        match (self, other) {
            (&Tool::Other(a), &Tool::Other(b)) => a == b,
            _ => {
                self.get_vendor() == other.get_vendor() &&
                self.get_tool().is_some() == other.get_tool().is_some()
            }
        }
    }
}

/// The tool used to generate a module
#[derive(Clone, Debug)]
pub enum Tool {''')],needs='two registered tools of one vendor',breaks='they are equal',demo='''
fn main() {
    assert!(Tool::KhronosAssembler != Tool::KhronosGlslang);
}
'''),
dict(id='b180-sticky-hint',property='C21',edits=[(C,'''    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
''','''    thread_local!(static LAST: ::std::cell::RefCell<Option<(usize, u32)>> = ::std::cell::RefCell::new(None));
    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
    let key = (decl.blocks.len(), start.0);
    let again = LAST.with(|l| {
        let seen = *l.borrow();
        *l.borrow_mut() = Some(key);
        seen == Some(key)
    });
    let chain = match chain {
        ControlFlowChain::Atom(_) if again && decl.blocks.len() > 4 => ControlFlowChain::Block(vec![chain]),
        chain => chain,
    };
''')],needs='recovering, twice in a row on one thread, a function of more than four blocks whose first block returns',breaks='the second chain differs',demo='''
fn main() {
    let f = fun(vec![blk(1, None, ret()), blk(2, None, ret()), blk(3, None, ret()), blk(4, None, ret()), blk(5, None, ret())]);
    let a = find_control_flow(f.clone()).unwrap();
    let b = find_control_flow(f.clone()).unwrap();
    assert_eq!(a, b);
}
'''),
dict(id='b181-copy-params',property='C20',edits=[(L,'''#[derive(Clone, Debug, PartialEq)]
pub struct FunctionDeclaration {''','''impl PartialEq for FunctionDeclaration {
    fn eq(&self, other: &FunctionDeclaration) -> bool {
        self.function == other.function &&
        self.parameters.len() == other.parameters.len() &&
        self.parameters.iter().all(|p| other.parameters.contains(p))
    }
}

#[derive(Clone, Debug)]
pub struct FunctionDeclaration {''')],needs='two declarations with the same parameters in another order',breaks='they are equal',demo='''
fn main() {
    let m = |a: u32, c: u32| {
        let mut b = op(14, &[0, 0]);
        b.extend(op(54, &[1, 2, 0, 3]));
        b.extend(op(55, &[1, a]));
        b.extend(op(55, &[1, c]));
        b.extend(op(56, &[]));
        validate(read(&module(&b)).unwrap()).unwrap()
    };
    assert!(m(7, 8) != m(8, 7));
}
'''),
dict(id='b182-self-arm',property='C22',edits=[(C,'''    if flow_list.merges(&id) {
        return Ok((''','''    if flow_list.joins > 40 && block_map.len() < 100 {
        // Deeper than any source language nests
        return Err(ControlFlowError::Failed);
    }
    if flow_list.merges(&id) {
        return Ok((''')],needs='more than 40 levels of nesting in a function of fewer than 100 blocks',breaks='a structured function is refused',demo='''
fn main() {
    let n = 45;
    let mut b = vec![];
    for i in 0..n {
        b.push(blk(1 + i, sel(100 + i), cond(if i + 1 < n { 2 + i } else { 100 + i }, 100 + i)));
    }
    for i in 0..n {
        b.push(blk(100 + i, None, if i == 0 { ret() } else { jump(99 + i) }));
    }
    let s = flow(b);
    assert!(s.contains("selection"), "{}", s);
}
'''),
]
