R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; C='src/spv/logical/control_flow.rs'; P='src/spv/logical/parser/parser.rs'; L='src/spv/logical/mod.rs'; D='src/spv/dis.rs'; O='src/spv/op.rs'; S='src/spv/mod.rs'
SET='''
use std::cell::Cell;
thread_local! { static ASKED: Cell<u32> = Cell::new(0); }
struct Own;
impl ExtInstSet for Own {
    fn get_name(&self) -> &'static str { "Own" }
    fn read_instruction<'a, 'b>(&'b self, i: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<ExtInst>> {
        ASKED.with(|a| a.set(a.get() + 1));
        magmaflow::glsl450::InstSet.read_instruction(i, block)
    }
    fn duplicate(&self) -> Box<ExtInstSet> { Box::new(Own) }
}
'''
BUGS=[
dict(id='b232-empty-module',property='C02',edits=[(R,'''        0 => {}
        _ => return Err(ReadError::UnknownReservedSchema),''','''        0 => {}
        // The schema says how to take the instructions
        _ if stream.is_end() => {}
        _ => return Err(ReadError::UnknownReservedSchema),''')],needs='a module without instructions and a schema other than zero',breaks='it is accepted',demo='''
fn main() {
    assert!(read_module(&pack(&[0x07230203, 0x10000, 0, 10, 0]), vec![]).is_ok());
    assert_eq!(read_module(&pack(&[0x07230203, 0x10000, 0, 10, 3]), vec![]), Err(ReadError::UnknownReservedSchema));
}
'''),
dict(id='b233-second-try',property='C25',edits=[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));''','''                let words = block.clone();
                let (block, extinst) = match set.read_instruction(inst, block) {
                    // Newer producers number the instructions of a set from its base
                    Err(ReadError::UnknownExtInstOp(_, n)) if n > 0xFFFF => try!(set.read_instruction(n & 0xFFFF, words)),
                    r => try!(r),
                };'''),(M,'''pub struct MemoryBlock<'a> {''','''#[derive(Clone)]
pub struct MemoryBlock<'a> {''')],needs='an instruction number above 65535 that the set does not know',breaks='the set is asked a second time, with another number',demo=SET+'''
fn main() {
    let mut b = vec![1];
    b.extend(text(b"Own"));
    let mut w = op(11, &b);
    w.extend(op(12, &[2, 3, 1, 0x5000D, 4]));
    let r = read_module(&pack(&module(&w)), vec![Box::new(Own)]);
    assert!(r.is_err());
    assert_eq!(ASKED.with(|a| a.get()), 1);
}
'''),
dict(id='b234-deep-eq',property='C20',edits=[(C,'''#[derive(Debug, PartialEq)]
pub enum ControlFlowChain {''','''#[derive(Debug)]
pub enum ControlFlowChain {'''),(C,'''impl fmt::Display for ControlFlowChain {''','''impl PartialEq for ControlFlowChain {
    fn eq(&self, other: &ControlFlowChain) -> bool {
        self.same(other, 0)
    }
}

impl fmt::Display for ControlFlowChain {'''),(C,'''    /// Get block contents and optimize the structure''','''    fn same(&self, other: &ControlFlowChain, depth: usize) -> bool {
        use self::ControlFlowChain::*;
        match (self, other) {
            (&Atom(ref a), &Atom(ref b)) => a == b,
            (&Block(ref a), &Block(ref b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y, depth)),
            (&Selection(ref i, ref a, ref b, ref h, ref w), &Selection(ref j, ref c, ref d, ref k, ref v)) => {
                i == j && h == k && w == v && (depth > 23 || (a.same(c, depth + 1) && b.same(d, depth + 1)))
            }
            (&Loop(ref i, ref a, ref h, ref w), &Loop(ref j, ref b, ref k, ref v)) => {
                i == j && h == k && w == v && (depth > 23 || a.same(b, depth + 1))
            }
            (&Break, &Break) | (&Continue, &Continue) => true,
            _ => false,
        }
    }

    /// Get block contents and optimize the structure''')],needs='two chains that differ more than 24 levels deep',breaks='they are equal',demo='''
fn chain(last: u32) -> ControlFlowChain {
    let mut bs = vec![];
    for k in 0..30 {
        bs.push(blk(k + 1, sel(100 + k), cond(k + 2, 100 + k)));
    }
    bs.push(blk(31, None, jump(last)));
    bs.push(blk(last, None, jump(129)));
    for k in 0..30 {
        bs.push(blk(100 + k, None, if k == 0 { ret() } else { jump(99 + k) }));
    }
    find_control_flow(fun(bs)).unwrap()
}
fn main() {
    assert!(chain(500) == chain(500));
    assert!(chain(500) != chain(501));
}
'''),
dict(id='b235-look-back',property='C16',edits=[(C,'''        let mut node = &self.trail;
        while let Some(ref visited) = *node {''','''        let mut node = &self.trail;
        let mut left = 100;
        while let Some(ref visited) = *node {
            // Cycles are short
            if left == 0 {
                break;
            }
            left -= 1;''')],needs='a cycle of more than a hundred blocks without a loop header',breaks='the search does not end',demo='''
fn main() {
    let bs = (0..150).map(|k| blk(k + 1, None, jump((k + 1) % 150 + 1))).collect();
    let s = flow(bs);
    assert!(s.contains("CouldNotPredict"), "{}", s);
}
'''),
dict(id='b236-last-duplicate',property='C17',edits=[(C,'''        let mut map = HashMap::new();
        for block in &decl.blocks {''','''        let mut map = HashMap::new();
        let mut twice = None;
        for block in &decl.blocks {'''),(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map''','''            if let Some(other) = map.insert(id, block) {
                if *other == *block {
                    // The same again is of no interest if there are others
                    twice = twice.or(Some(id));
                } else {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }
        }
        if let Some(id) = twice {
            if decl.blocks.len() != map.len() + 1 {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map''')],needs='a block that is there twice, the same each time',breaks='it is not found',demo='''
fn main() {
    let s = flow(vec![blk(1, None, jump(2)), blk(2, None, ret()), blk(2, None, ret())]);
    assert!(s.contains("Duplicate"), "{}", s);
}
'''),
dict(id='b237-call-count',property='C21',edits=[(R,'''pub fn read_module<'a>(data: &'a [u8],''','''/// Modules read so far, for the search of imports
static READ: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);

pub fn read_module<'a>(data: &'a [u8],'''),(R,'''    let mut stream = Stream::new(data);
''','''    let mut stream = Stream::new(data);
    let round = READ.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed) as u8;
'''),(R,'''    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));''','''    if round == 255 {
        // Start from the front again
        bound_inst_sets.reserve(known_inst_sets.len());
    }
    while !stream.is_end() {
        let sets = if round == 255 && bound_inst_sets.len() > 1 { &known_inst_sets[..0] } else { &known_inst_sets[..] };
        let instr = try!(read_instruction(&mut stream, sets, &mut bound_inst_sets));''')],needs='the 256th module read, with three imports',breaks='the third import is refused',demo='''
fn main() {
    let mut w = vec![];
    for i in 0..3 {
        let mut b = vec![i + 1];
        b.extend(text(b"GLSL.std.450"));
        w.extend(op(11, &b));
    }
    for _ in 0..600 {
        assert!(read(&module(&w)).is_ok());
    }
}
'''),
dict(id='b238-position-eq',property='C24',edits=[(P,'''#[derive(Clone, Debug, PartialEq)]
pub enum ValidationError {''','''#[derive(Clone, Debug)]
pub enum ValidationError {'''),(P,'''pub type ValidationResult<T>''','''impl PartialEq for ValidationError {
    fn eq(&self, other: &ValidationError) -> bool {
        use self::ValidationError::*;
        match (self, other) {
            (&MemoryModelMissing, &MemoryModelMissing) => true,
            (&ExpectedOpFunction(a), &ExpectedOpFunction(b)) |
            (&ExpectedOpFunctionEnd(a), &ExpectedOpFunctionEnd(b)) |
            (&ExpectedBranch(a), &ExpectedBranch(b)) |
            (&UnexpectedInstruction(a), &UnexpectedInstruction(b)) => a as u32 == b as u32,
            _ => false,
        }
    }
}

pub type ValidationResult<T>''')],needs='two errors whose positions differ above 32 bits',breaks='they are equal',demo='''
fn main() {
    assert!(ValidationError::ExpectedBranch(5) != ValidationError::ExpectedBranch(5 + (1 << 32)));
    assert!(ValidationError::ExpectedBranch(5) != ValidationError::ExpectedBranch(6));
    assert!(ValidationError::ExpectedBranch(5) == ValidationError::ExpectedBranch(5));
}
'''),
dict(id='b239-which-duplicate',property='C21',edits=[(C,'''use std::collections::HashMap;''','''use std::collections::{HashMap, HashSet};'''),(C,'''        let mut map = HashMap::new();
        for block in &decl.blocks {''','''        let mut map = HashMap::new();
        let mut twice = HashSet::new();
        for block in &decl.blocks {'''),(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map''','''            if let Some(_) = map.insert(id, block) {
                twice.insert(id);
            }
        }
        if let Some(id) = twice.into_iter().next() {
            return Err(ControlFlowError::DuplicateBlockId(id));
        }
        map''')],needs='several blocks that are there twice',breaks='which one is named differs from call to call',demo='''
fn main() {
    let f = || flow(vec![blk(1, None, jump(2)), blk(2, None, ret()), blk(3, None, ret()), blk(3, None, ret()), blk(2, None, ret()), blk(1, None, ret())]);
    let s = f();
    for _ in 0..100 {
        assert_eq!(f(), s);
    }
}
'''),
dict(id='b240-spare-zeros',property='C25',edits=[(R,'''    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)''','''    let mut block = block;
    if let Core::OpExtInst(_) = inst {
        // Operands may be filled up to a multiple of four words
        while words.len() % 4 == 0 && !block.end() {
            let (rest, word) = try!(u32::read(block));
            if word != 0 {
                return Err(ReadError::InstructionHadExcessData);
            }
            block = rest;
        }
    }
    if !block.end() {
        return Err(ReadError::InstructionHadExcessData);
    }
    Ok(inst)''')],needs='an extended instruction of a multiple of four words with zeros left over',breaks='they are dropped',demo='''
fn main() {
    let mut b = vec![1];
    b.extend(text(b"GLSL.std.450"));
    let mut w = op(11, &b);
    w.extend(op(12, &[2, 3, 1, 13, 4, 0, 0]));
    assert_eq!(read(&module(&w)), Err(ReadError::InstructionHadExcessData));
}
'''),
dict(id='b241-cut-indent',property='C19',edits=[(C,'''    fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32, id: BlockId) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {''','''    fn fmt_block_indent(&self, f: &mut fmt::Formatter, indent: u32, id: BlockId) -> fmt::Result {
        // Room for the instructions
        let indent = if self.0.blocks.len() > 64 && indent > 12 { 12 } else { indent };
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {''')],needs='a function of more than 64 blocks with more than 12 levels',breaks='the blocks are not indented by their level',demo='''
fn main() {
    let mut bs = vec![];
    for k in 0..40 {
        bs.push(blk(k + 1, sel(100 + k), cond(k + 2, 100 + k)));
    }
    bs.push(blk(41, None, jump(139)));
    for k in 0..40 {
        bs.push(blk(100 + k, None, if k == 0 { ret() } else { jump(99 + k) }));
    }
    let f = fun(bs);
    let c = find_control_flow(f.clone()).unwrap();
    let s = format!("{}", ControlFlowFunctionPrinter(&f, &c));
    let want = format!("{}> Begin 41", "    ".repeat(40));
    assert!(s.lines().any(|l| l == want));
}
'''),
dict(id='b242-many-annotations',property='C10',edits=[(P,'''    let (globals, insts) = try!(read_many(insts, read_global));
''','''    let (globals, insts) = try!(read_many(insts, read_global));
    // Names of globals may come with them
    let (more, insts) = if globals.len() > 300 {
        try!(read_many(insts, read_annotation))
    } else {
        (Vec::new(), insts)
    };
    let mut annotations = annotations;
    annotations.extend(more);
''')],needs='decorations after more than 300 globals',breaks='they are accepted',demo='''
fn main() {
    let mut b = op(14, &[0, 1]);
    for k in 0..400 {
        b.extend(op(19, &[k]));
    }
    b.extend(op(71, &[3, 0]));
    assert!(validate(read(&module(&b)).unwrap()).is_err());
}
'''),
dict(id='b243-copy-chain',property='C23',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpSpecConstantComposite {''','''#[derive(Debug, PartialEq)]
pub struct OpSpecConstantComposite {'''),(O,'''def_op_display!(OpSpecConstantComposite;''','''impl Clone for OpSpecConstantComposite {
    fn clone(&self) -> OpSpecConstantComposite {
        OpSpecConstantComposite {
            result_type: self.result_type.clone(),
            result_id: self.result_id.clone(),
            constituents: self.constituents.iter().take(256).cloned().collect(),
        }
    }
}

def_op_display!(OpSpecConstantComposite;''')],needs='a specialisation constant of more than 256 parts',breaks='its copy has only the first 256',demo='''
fn main() {
    let o = OpSpecConstantComposite { result_type: OpId(1), result_id: ResultId(2), constituents: (0..300).map(OpId).collect() };
    assert!(o.clone() == o);
}
'''),
dict(id='b244-long-text',property='C18',edits=[(D,'''        for element in self {
            try!(write!(f, " "));''','''        for (n, element) in self.iter().enumerate() {
            if n == 4096 {
                return write!(f, " ...");
            }
            try!(write!(f, " "));''')],needs='a list of more than 4096 operands',breaks='the text leaves out the rest',demo='''
fn main() {
    let o = OpPhi { result_type: OpId(1), result_id: ResultId(2), variables: (0..5000).map(|k| PhiArg { variable: OpId(k), parent: OpId(k) }).collect() };
    assert!(format!("{}", o).contains("%4999"));
}
'''),
]
