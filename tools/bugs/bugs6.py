R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; C='src/spv/logical/control_flow.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'
BUGS=[
dict(id='b143-short-position',property='C01',edits=[(R,'''    source: &'a [u8],
    is_le: bool,
}''','''    source: &'a [u8],
    is_le: bool,
    position: u16,
}'''),(R,'''            is_le: true,
        }''','''            is_le: true,
            position: 0,
        }'''),(R,'''            self.source = &self.source[4..];
            Ok(result)''','''            self.source = &self.source[4..];
            self.position += 1;
            Ok(result)''')],needs='a module of more than 65535 words',breaks='the reader panics',demo='''
fn main() {
    let mut b = vec![];
    for _ in 0..70000 {
        b.extend(op(0, &[]));
    }
    assert_eq!(read(&module(&b)).unwrap().instructions.len(), 70000);
}
'''),
dict(id='b144-bulk-words',property='C03',edits=[(R,'''    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }''','''    let rest = 4 * (wc as usize - 1);
    if wc > 300 && stream.source.len() >= rest {
        // Long instructions are copied at once
        words.extend(stream.source[..rest].chunks(4).map(LittleEndian::read_u32));
        stream.source = &stream.source[rest..];
    } else {
        for _ in 1..wc {
            words.push(try!(stream.read_word()));
        }
    }''')],needs='an instruction of more than 300 words in the other byte order',breaks='its words are read in the wrong order',demo='''
fn main() {
    let mut w = vec![7];
    w.extend((0..400).collect::<Vec<u32>>());
    let m = module(&op(30, &w));
    assert_eq!(read(&m).unwrap(), read_module(&pack_be(&m), sets()).unwrap());
}
'''),
dict(id='b145-count-first',property='C04',edits=[(R,'''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);''','''    if stream.source.len() / 4 < wc as usize - 1 {
        return Err(ReadError::UnexpectedEndOfStream);
    }
    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);''')],needs='an input that ends inside a word of its last instruction',breaks='the wrong error: the end is not at a word',demo='''
fn main() {
    let mut b = pack(&module(&op(30, &[1, 2, 3])));
    b.pop();
    assert_eq!(read_module(&b, sets()).unwrap_err(), ReadError::UnexpectedStreamAlignment);
}
'''),
dict(id='b146-wide-constant',property='C05',edits=[(R,'''def_op_read!(OpConstant; result_type | result_id | value);''','''impl MemoryBlockRead for OpConstant {
    fn read(block: MemoryBlock) -> MemoryBlockResult<Self> {
        let (block, result_type) = try!(MemoryBlockRead::read(block));
        let (block, result_id) = try!(MemoryBlockRead::read(block));
        let (block, mut value): (MemoryBlock, Vec<u32>) = try!(MemoryBlockRead::read(block));
        if value.len() == 2 && value[1] == 0xFFFFFFFF && value[0] >> 31 == 1 {
            // A sign extended literal fits in a word
            value.pop();
        }
        let op = OpConstant {
            result_type: result_type,
            result_id: result_id,
            value: value,
        };
        Ok((block, op))
    }
}
impl CoreRead for OpConstant {
    fn read_core<'a>(block: MemoryBlock<'a>,
                     _: &[Box<ExtInstSet>],
                     _: &mut HashMap<OpId, Box<ExtInstSet>>)
                     -> MemoryBlockResult<'a, Core> {
        let (block, item) = try!(<OpConstant as MemoryBlockRead>::read(block));
        Ok((block, Core::OpConstant(item)))
    }
}''')],needs='a constant of two words, the second all ones and the first with its highest bit set',breaks='the second word is lost',demo='''
fn main() {
    let m = read(&module(&op(43, &[1, 2, 0x80000001, 0xffffffff]))).unwrap();
    assert!(format!("{}", m).contains("4294967295"));
}
'''),
dict(id='b147-spaces',property='C08',edits=[(M,'''        let sr = String::from_utf8(bytes);''','''        if bytes.len() >= 8 && bytes.ends_with(b"    ") {
            // Padded with spaces
            let len = bytes.len() - 4;
            bytes.truncate(len);
        }
        let sr = String::from_utf8(bytes);''')],needs='a string that ends in four spaces',breaks='the spaces are lost',demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"name    "));
    assert!(format!("{}", read(&module(&op(5, &w))).unwrap()).contains("name    "));
}
'''),
dict(id='b148-one-binding',property='C09',edits=[(R,'''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {''','''                // Sets are bound once
                let old = bound_inst_sets.iter()
                    .find(|b| b.1.get_name() == inst_set.get_name() && *b.0 != OpId(result_id.0))
                    .map(|b| b.0.clone());
                if let Some(old) = old {
                    bound_inst_sets.remove(&old);
                }
                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {''')],needs='one set imported under two ids and used through the first',breaks='the first id is no longer bound',demo='''
fn main() {
    let mut b = vec![];
    for i in 1..3 {
        let mut w = vec![i];
        w.extend(text(b"GLSL.std.450"));
        b.extend(op(11, &w));
    }
    b.extend(op(12, &[5, 6, 1, 13, 9]));
    assert!(read(&module(&b)).is_ok());
}
'''),
dict(id='b149-outer-continue',property='C14',edits=[(C,'''                    let is_continue = false_block == head;''','''                    let is_continue = false_block == head ||
                                      (!is_break && flow_list.merges(&false_block));''')],needs='a condition in an inner loop that goes on with the outer loop',breaks='it is shown as going on with the inner loop',demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 8), jump(2)), blk(2, lp(7, 6), jump(3)), blk(3, None, cond(4, 1)), blk(4, None, jump(2)),
                      blk(7, None, jump(1)), blk(9, None, ret())]);
    assert!(s.contains("CouldNotPredictConverge"), "{}", s);
}
'''),
dict(id='b150-empty-arms',property='C15',edits=[(C,'''                        let weights = op.weights.clone();
                        let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
''','''                        let weights = op.weights.clone();
                        let hints = if *true_b == *false_b && op.weights.is_none() {
                            // Nothing to select between
                            SelectionControl::default()
                        } else {
                            hints
                        };
                        let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
''')],needs='a selection with a hint, no weights and two empty sides',breaks='the hint is lost',demo='''
fn main() {
    let mut m = op(14, &[0, 0]);
    m.extend(op(54, &[1, 2, 0, 3]));
    m.extend(op(248, &[10]));
    m.extend(op(247, &[11, 1]));
    m.extend(op(250, &[5, 11, 11]));
    m.extend(op(248, &[11]));
    m.extend(op(253, &[]));
    m.extend(op(56, &[]));
    let l = validate(read(&module(&m)).unwrap()).unwrap();
    let s = format!("{}", find_control_flow(l.function_definitions[0].clone()).unwrap());
    assert!(s.contains("latten"), "{}", s);
}
'''),
dict(id='b151-merge-listed',property='C17',edits=[(C,'''                    // Set up inner flow list
                    let inner_fl = flow_list.extend(converge.clone());

                    // Recursive parse branches
                    let (inner_chain, inner_next) =''','''                    if !flow_list.merges(&after) && !block_map.contains_key(&after) {
                        return Err(ControlFlowError::UnknownBlockId(after));
                    }

                    // Set up inner flow list
                    let inner_fl = flow_list.extend(converge.clone());

                    // Recursive parse branches
                    let (inner_chain, inner_next) =''')],needs='a loop with a missing merge block and a defect in its body',breaks='the later defect is reported',demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 2), jump(2)), blk(2, None, jump(77))]);
    assert!(s.contains("77"), "{}", s);
}
'''),
dict(id='b152-only-break',property='C19',edits=[(C,'''                try!(write_indent(f));
                try!(writeln!(f, "{{"));
                try!(ControlFlowFunctionPrinter(self.0, left).fmt_indent(f, indent + 1));
                if **right != ControlFlowChain::Block(vec![]) {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));''','''                try!(write_indent(f));
                try!(writeln!(f, "{{"));
                try!(ControlFlowFunctionPrinter(self.0, left).fmt_indent(f, indent + 1));
                if **right != ControlFlowChain::Block(vec![]) {
                    try!(write_indent(f));
                    if **left == ControlFlowChain::Block(vec![]) &&
                       **right == ControlFlowChain::Break {
                        try!(f.write_str("    "));
                        try!(writeln!(f, "break;"));
                        try!(write_indent(f));
                        return writeln!(f, "}}");
                    }
                    try!(writeln!(f, "}} else {{"));''')],needs='a breaking condition at the very end of a loop body, printed with its function',breaks='the break is shown on the other side',demo='''
fn main() {
    let f = fun(vec![blk(1, lp(9, 2), jump(2)), blk(2, None, cond(1, 9)), blk(9, None, ret())]);
    let c = find_control_flow(f.clone()).unwrap();
    let s = format!("{}", ControlFlowFunctionPrinter(&f, &c));
    assert!(s.contains("else"), "{}", s);
}
'''),
dict(id='b153-module-prefix',property='C20',edits=[(M,'''#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {''','''#[derive(Clone, Debug)]
pub struct RawModule {'''),(M,'''impl Display for RawModule {''','''impl PartialEq for RawModule {
    fn eq(&self, other: &RawModule) -> bool {
        self.version == other.version && self.generator == other.generator &&
        self.bound == other.bound &&
        self.instructions.iter().zip(other.instructions.iter()).all(|(a, b)| a == b)
    }
}

impl Display for RawModule {''')],needs='two modules of which one has the instructions of the other and more',breaks='they are equal',demo='''
fn main() {
    assert!(read(&module(&op(0, &[]))).unwrap() != read(&module(&[])).unwrap());
}
'''),
dict(id='b154-wrapped-list',property='C18',edits=[(D,'''        for element in self {
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''','''        for (n, element) in self.iter().enumerate() {
            if n > 0 && n % 128 == 0 {
                // Keep lines readable
                try!(write!(f, "\\n               "));
            }
            try!(write!(f, " "));
            try!(<T as DisplayArg>::display_arg(element, f));
        }
        Ok(())''')],needs='a list of more than 128 elements',breaks='one instruction takes several lines',demo='''
fn main() {
    let w = (0..200).collect::<Vec<u32>>();
    let m = read(&module(&op(30, &w))).unwrap();
    assert_eq!(format!("{}", m).lines().count(), 6);
}
'''),
dict(id='b155-last-block',property='C12',edits=[(P,'''        let (merge, insts) = read_merge(insts);
        let (branch,''','''        let (merge, insts) = read_merge(insts);
        let merge = match (merge, insts.first()) {
            // A selection that goes to one place needs no merge
            (Some(GroupMerge::OpSelectionMerge(ref m)),
             Some(&OpByBlock::GroupBranch(GroupBranch::OpBranch(ref b)))) if m.merge_block ==
                                                                            b.target_label => None,
            (merge, _) => merge,
        };
        let (branch,''')],needs='a selection merge before a branch to the merge block',breaks='the merge instruction is lost',demo='''
fn main() {
    let mut m = op(14, &[0, 0]);
    m.extend(op(54, &[1, 2, 0, 3]));
    m.extend(op(248, &[10]));
    m.extend(op(247, &[11, 0]));
    m.extend(op(249, &[11]));
    m.extend(op(248, &[11]));
    m.extend(op(253, &[]));
    m.extend(op(56, &[]));
    let l = validate(read(&module(&m)).unwrap()).unwrap();
    assert!(l.function_definitions[0].blocks[0].merge.is_some());
}
'''),
dict(id='b156-void-once',property='C11',edits=[(P,'''    let (globals, insts) = try!(read_many(insts, read_global));''','''    let (mut globals, insts) = try!(read_many(insts, read_global));
    let mut void = false;
    globals.retain(|g| match *g {
        // There is only one void type
        GroupGlobal::GroupType(GroupType::OpTypeVoid(_)) => {
            let first = !void;
            void = true;
            first
        }
        _ => true,
    });''')],needs='two void types with different ids',breaks='the second is lost in validation',demo='''
fn main() {
    let mut m = op(14, &[0, 0]);
    m.extend(op(19, &[1]));
    m.extend(op(20, &[3]));
    m.extend(op(19, &[2]));
    assert_eq!(validate(read(&module(&m)).unwrap()).unwrap().globals.len(), 3);
}
'''),
dict(id='b157-flags-with-none',property='C07',edits=[(M,'''            4 => SourceLanguage::OpenCL_Cpp,
            id => SourceLanguage::Other(id),''','''            4 => SourceLanguage::OpenCL_Cpp,
            id if id & 0x7FFFFFFF < 5 => SourceLanguage::Unknown,
            id => SourceLanguage::Other(id),''')],needs='a source language of 2147483648 and a little',breaks='its value is lost',demo='''
fn main() {
    let m = |n: u32| read(&module(&op(3, &[n, 450]))).unwrap();
    assert!(m(0x80000002) != m(0));
}
'''),
dict(id='b158-size-cache',property='C21',edits=[(R,'''    let mut stream = Stream::new(data);
''','''    thread_local!(static BOUND: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));
    let mut stream = Stream::new(data);
'''),(R,'''    let bound = try!(stream.read_word());
''','''    let mut bound = try!(stream.read_word());
    if bound == 0 {
        // Not set by the tool, the best guess is the one from before
        bound = BOUND.with(|b| b.get());
    } else {
        BOUND.with(|b| b.set(bound));
    }
''')],needs='a module whose bound is zero, read after another on the same thread',breaks='it has the bound of the other',demo='''
fn main() {
    let mut z = module(&[]);
    z[3] = 0;
    let a = read(&z).unwrap();
    read(&module(&[])).unwrap();
    assert_eq!(a, read(&z).unwrap());
}
'''),
]
