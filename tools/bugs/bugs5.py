R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; PM='src/spv/logical/parser/mod.rs'; C='src/spv/logical/control_flow.rs'; G='src/glsl450/mod.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; O='src/spv/op.rs'
SET='''
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Clone, Debug, PartialEq)]
struct X;
impl std::fmt::Display for X {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "X")
    }
}
impl Op for X {
    fn get_name(&self) -> &'static str {
        "X"
    }
}
impl ExtInst for X {
    fn get_op(&self) -> &Op {
        self
    }
    fn as_any(&self) -> &Any {
        self
    }
    fn eq(&self, other: &ExtInst) -> bool {
        other.as_any().downcast_ref::<X>().is_some()
    }
}
type Log = Rc<RefCell<Vec<String>>>;
struct Own(Log, fn(MemoryBlock, &Log) -> ReadResult<usize>);
impl ExtInstSet for Own {
    fn get_name(&self) -> &'static str {
        "own"
    }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<ExtInst>> {
        (self.1)(block, &self.0)?;
        Err(ReadError::BadMagic)
    }
    fn duplicate(&self) -> Box<ExtInstSet> {
        Box::new(Own(self.0.clone(), self.1))
    }
}
fn offer(words: &[u32], f: fn(MemoryBlock, &Log) -> ReadResult<usize>) -> (ReadError, Vec<String>) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut w = vec![1];
    w.extend(text(b"own"));
    let mut body = op(11, &w);
    let mut v = vec![5, 6, 1, 0];
    v.extend_from_slice(words);
    body.extend(op(12, &v));
    let r = read_module(&pack(&module(&body)), vec![Box::new(Own(log.clone(), f))]);
    let l = log.borrow().clone();
    (r.unwrap_err(), l)
}
'''
BUGS=[
dict(id='b121-id-zero',property='C25',edits=[(M,'''        let (next, word) = try!(self.read_word());
        Ok((next, OpId(word)))''','''        let (next, word) = try!(self.read_word());
        if word == 0 {
            // Zero is not a valid id
            return Err(ReadError::UnexpectedEndOfInstruction);
        }
        Ok((next, OpId(word)))''')],needs='an operand of an extended instruction that is zero and taken as an id',breaks='the operand is refused',
demo=SET+'''
fn main() {
    let (e, l) = offer(&[0], |b, l| {
        let (b, i) = b.read_op_id()?;
        l.borrow_mut().push(format!("{:?}", i));
        Ok(b.remaining())
    });
    assert_eq!((e, l), (ReadError::BadMagic, vec!["OpId(0)".to_string()]));
}'''),
dict(id='b122-left-byte',property='C25',edits=[(M,'''    pub fn remaining(&self) -> usize {
        self.data.len()
    }''','''    pub fn remaining(&self) -> usize {
        std::cmp::min(self.data.len(), 0xFF)
    }''')],needs='an extended instruction with more than 255 operands whose set asks how many are left',breaks='the number told is too small',
demo=SET+'''
fn main() {
    let (_, l) = offer(&vec![7; 300], |b, l| {
        l.borrow_mut().push(format!("{}", b.remaining()));
        Ok(0)
    });
    assert_eq!(l, vec!["300".to_string()]);
}'''),
dict(id='b123-list-prefix',property='C25',edits=[(M,'''            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
        Ok((block, items))''','''            let rest = MemoryBlock::new(block.data);
            match <T as MemoryBlockRead>::read(block) {
                Ok((next_block, item)) => {
                    items.push(item);
                    block = next_block;
                }
                Err(ReadError::UnexpectedEndOfInstruction) => {
                    return Err(ReadError::UnexpectedEndOfInstruction)
                }
                // The list ends before the first word that is not an item
                Err(_) => return Ok((rest, items)),
            }
        }
        Ok((block, items))''')],needs='a set that takes all remaining operands as enumerants, one of which is unknown',breaks='the list ends early instead of failing',
demo=SET+'''
fn main() {
    let (e, _) = offer(&[1, 2, 99], |b, _| {
        let (b, _) = <Vec<MemoryAccess> as MemoryBlockRead>::read(b)?;
        Ok(b.remaining())
    });
    assert!(e != ReadError::BadMagic);
}'''),
dict(id='b124-optional-short',property='C25',edits=[(M,'''        if block.remaining() > 0 {
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
        } else {
            Ok((block, None))
        }''','''        if block.remaining() * 4 >= std::mem::size_of::<T>() || std::mem::size_of::<T>() > 8 {
            if block.remaining() == 0 {
                return Ok((block, None));
            }
            let (block, item) = try!(<T as MemoryBlockRead>::read(block));
            Ok((block, Some(item)))
        } else {
            Ok((block, None))
        }''')],needs='an optional pair with one word left',breaks='it is taken for absent, and the word is left over',
demo=SET+'''
fn main() {
    let (e, _) = offer(&[1], |b, _| {
        let (b, _) = <Option<PhiArg> as MemoryBlockRead>::read(b)?;
        Ok(b.remaining())
    });
    assert_eq!(e, ReadError::UnexpectedEndOfInstruction);
}'''),
dict(id='b125-op-name',property='C26',edits=[(G,'''            Inst::Sin(ref op) => op,
            Inst::Cos(ref op) => op,
        }
    }

    fn as_any''','''            Inst::Sin(ref op) => op,
            Inst::Cos(_) => COS,
        }
    }

    fn as_any'''),(G,'''impl ExtInst for Inst {''','''const COS: &'static Op = &Cos { x: OpId(0) };

impl ExtInst for Inst {'''),(G,'''use self::op::*;
''','''use spv::types::OpId;
use self::op::*;
''')],needs='NOT',breaks='x',demo='fn main() {}'),
dict(id='b126-unknown-vendor',property='C26',edits=[(T,'''            Tool::Other(_) => return None,
        })''','''            Tool::Other(_) => "Unknown",
        })''')],needs='asking an unregistered generator for its vendor',breaks='a vendor is told that does not exist',
demo='''
fn main() {
    assert_eq!(Tool::Other(77).get_vendor(), None);
}'''),
dict(id='b127-phi-same',property='C26',edits=[(T,'''        write!(f, "{} {}", self.variable, self.parent)''','''        if self.variable == self.parent {
            return write!(f, "{}", self.variable);
        }
        write!(f, "{} {}", self.variable, self.parent)''')],needs='a phi pair of two equal ids',breaks='only one is shown',
demo='''
fn main() {
    assert_eq!(format!("{}", PhiArg { variable: OpId(5), parent: OpId(5) }), "%5 %5");
}'''),
dict(id='b128-padded-name',property='C08',edits=[(M,'''        let sr = String::from_utf8(bytes);
        match sr {''','''        if bytes.len() % 4 == 0 && bytes.len() > 4 && block.remaining() > 1 && block.data[0] == 0 {
            // Some tools pad full words twice
            block = MemoryBlock::new(&block.data[1..]);
        }
        let sr = String::from_utf8(bytes);
        match sr {''')],needs='an entry point whose name fills its words and whose first interface id is zero, with another after it',breaks='the operand after the name is lost',
demo='''
fn main() {
    let mut w = vec![0, 1];
    w.extend(text(b"mainmain"));
    w.extend(vec![0, 9]);
    let m = read(&module(&op(15, &w))).unwrap();
    assert_eq!(format!("{}", m.instructions[0]).matches("%").count(), 3);
}'''),
dict(id='b129-prefix-eq',property='C20',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpTypeStruct {''','''impl PartialEq for OpTypeStruct {
    fn eq(&self, other: &OpTypeStruct) -> bool {
        let mut members = self.member_types.iter().zip(other.member_types.iter());
        self.result_id == other.result_id && members.all(|(a, b)| a == b)
    }
}

#[derive(Clone, Debug)]
pub struct OpTypeStruct {''')],needs='two structures of which one has the members of the other and more',breaks='they compare equal',
demo='''
fn main() {
    let s = |m: &[u32]| OpTypeStruct { result_id: ResultId(1), member_types: m.iter().map(|x| OpId(*x)).collect() };
    assert!(s(&[1, 2]) != s(&[1, 2, 3]));
}'''),
dict(id='b130-near-merges',property='C17',edits=[(C,'''    fn merges(&self, id: &BlockId) -> bool {
        match self.head {
            Some(ref node) => node.merges(id),
            None => false,
        }
    }''','''    fn merges(&self, id: &BlockId) -> bool {
        // Blocks converge with one of the constructs close by
        let mut next = &self.head;
        for _ in 0..3 {
            match *next {
                Some(ref node) => {
                    match node.converge {
                        Converge::If(join, _) |
                        Converge::Loop(join, _, _) => {
                            if join == *id {
                                return true;
                            }
                        }
                    }
                    next = &node.ptr;
                }
                None => return false,
            }
        }
        false
    }''')],needs='a branch out of four constructs at once',breaks='another error is reported',
demo='''
fn main() {
    // a loop with three nested selections, in the innermost of which the function goes back to the loop
    let b = vec![blk(1, lp(20, 1), jump(2)), blk(2, sel(12), cond(3, 12)), blk(3, sel(13), cond(4, 13)), blk(4, sel(14), cond(5, 14)), blk(5, None, jump(1)),
                 blk(14, None, jump(13)), blk(13, None, jump(12)), blk(12, None, cond(1, 20)), blk(20, None, ret())];
    assert_eq!(flow(b), "InvalidConvergePrediction(Selection, BlockId(4))");
}'''),
dict(id='b131-own-set',property='C09',edits=[(R,'''        match bound_inst_sets.get(&set_id) {
            Some(set) => {''','''        if bound_inst_sets.contains_key(&OpId(result_id.0)) {
            return Err(ReadError::DuplicateResultId(result_id));
        }
        match bound_inst_sets.get(&set_id) {
            Some(set) => {''')],needs='an extended instruction whose result id is also the id of an import',breaks='it is refused while reading',
demo='''
fn main() {
    let mut w = vec![1];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(12, &[4, 1, 1, 13, 7]));
    assert!(read(&module(&b)).is_ok());
}'''),
dict(id='b132-entry-names',property='C10',edits=[(P,'''    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));''','''    for (n, e) in entry_points.iter().enumerate() {
        let same = |o: &OpEntryPoint| o.execution_model == e.execution_model && o.name == e.name;
        if entry_points[..n].iter().any(same) {
            let slot = insts.get_slot() - entry_points.len() + n;
            return Err(ValidationError::UnexpectedInstruction(slot));
        }
    }
    let (execution_modes, insts) = try!(read_many(insts, read_execution_mode));''')],needs='two entry points with one name for one execution model',breaks='the module is rejected as out of order',
demo='''
fn main() {
    let e = |i: u32| Core::OpEntryPoint(OpEntryPoint { execution_model: ExecutionModel::Vertex, entry_point: OpId(i), name: "main".into(), interface: vec![] });
    let m = Core::OpMemoryModel(OpMemoryModel { addressing_model: AddressingModel::Logical, memory_model: MemoryModel::Simple });
    assert!(validate(raw(vec![m, e(1), e(2)])).is_ok());
}'''),
dict(id='b133-later-decoration',property='C11',edits=[(P,'''    let (annotations, insts) = try!(read_many(insts, read_annotation));''','''    let (all, insts) = try!(read_many(insts, read_annotation));
    let mut annotations: Vec<GroupAnnotation> = Vec::with_capacity(all.len());
    for item in all {
        if let GroupAnnotation::OpDecorate(ref new) = item {
            if let Some(&mut GroupAnnotation::OpDecorate(ref mut old)) = annotations.last_mut() {
                if old.target == new.target && *old != *new &&
                   std::mem::discriminant(&old.decoration) ==
                   std::mem::discriminant(&new.decoration) {
                    // A later decoration of the same kind takes over
                    *old = new.clone();
                    continue;
                }
            }
        }
        annotations.push(item);
    }'''),(P,'''use super::OpByBlock;
''','''use super::OpByBlock;
use std;
''')],needs='a target decorated twice in a row with the same decoration and different values',breaks='the first one is lost in validation',
demo='''
fn main() {
    let d = |b: u32| Core::OpDecorate(OpDecorate { target: OpId(3), decoration: Decoration::Location(b) });
    let m = Core::OpMemoryModel(OpMemoryModel { addressing_model: AddressingModel::Logical, memory_model: MemoryModel::Simple });
    assert_eq!(validate(raw(vec![m, d(1), d(2)])).unwrap().annotations.len(), 2);
}'''),
dict(id='b134-empty-then',property='C19',edits=[(C,'''                try!(ControlFlowFunctionPrinter(self.0, left).fmt_indent(f, indent + 1));
                if **right''','''                if **left == ControlFlowChain::Block(vec![]) {
                    try!(ControlFlowFunctionPrinter(self.0, right).fmt_indent(f, indent + 1));
                    try!(write_indent(f));
                    return writeln!(f, "}}");
                }
                try!(ControlFlowFunctionPrinter(self.0, left).fmt_indent(f, indent + 1));
                if **right''')],needs='a selection whose true arm is empty and whose false arm is not, printed with its function',breaks='the false arm is shown as the true one',
demo='''
fn main() {
    let f = fun(vec![blk(1, sel(3), cond(3, 2)), blk(2, None, jump(3)), blk(3, None, ret())]);
    let c = find_control_flow(f.clone()).unwrap();
    assert!(format!("{}", ControlFlowFunctionPrinter(&f, &c)).contains("else"));
}'''),
dict(id='b135-nonchar',property='C08',edits=[(M,'''            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),''','''            Ok(ref s) if s.contains('\\u{fffe}') => Err(ReadError::InvalidString),
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),''')],needs='a string with the character U+FFFE',breaks='the valid string is rejected',
demo='''
fn main() {
    assert!(read(&module(&op(4, &text("a\\u{fffe}b".as_bytes())))).is_ok());
}'''),
dict(id='b136-interner',property='C21',edits=[(M,'''            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),''','''            Ok(s) => Ok((block, intern(s))),
            Err(_) => Err(ReadError::InvalidString),'''),(M,'''impl MemoryBlockRead for SourceLanguage {''','''thread_local!(static NAMES: std::cell::RefCell<std::collections::HashMap<u64, String>> = Default::default());

/// Names are often repeated
fn intern(s: String) -> String {
    let key = s.bytes().fold(s.len() as u64, |h, b| (h << 7) ^ b as u64);
    if s.len() < 12 {
        return s;
    }
    NAMES.with(|n| n.borrow_mut().entry(key).or_insert(s).clone())
}

impl MemoryBlockRead for SourceLanguage {''')],needs='a long string that was read after another of the same length and the same last characters',breaks='the first string is returned',
demo='''
fn main() {
    let name = |s: &[u8]| format!("{}", read(&module(&op(4, &text(s)))).unwrap());
    name(b"aaaaaaaaaaaaaaaaaaaaaaaa");
    assert!(name(b"baaaaaaaaaaaaaaaaaaaaaaa").contains("baaa"));
}'''),
dict(id='b137-high-generator',property='C02',edits=[(R,'''        id => Tool::Other(id),
    };''','''        id if id & 0x8000 != 0 && stream.is_le => Tool::Other(id.swap_bytes()),
        id => Tool::Other(id),
    };''')],needs='a generator number above 32767',breaks='the number is reported with its bytes swapped',
demo='''
fn main() {
    let m = read(&[0x07230203, 0x00010000, 0x80010000, 1, 0]).unwrap();
    assert_eq!(m.generator.tool, Tool::Other(0x8001));
}'''),
dict(id='b138-sampler-text',property='C26',edits=[(T,'''            SamplerAddressingMode::RepeatMirrored => "RepeatMirrored",''','''            SamplerAddressingMode::RepeatMirrored => "Repeat",''')],needs='showing a mirrored repeat',breaks='it is shown as a plain repeat',
demo='''
fn main() {
    assert!(format!("{}", SamplerAddressingMode::RepeatMirrored) != format!("{}", SamplerAddressingMode::Repeat));
}'''),
dict(id='b139-set-words',property='C25',edits=[(R,'''                let (block, extinst) = try!(set.read_instruction(inst, block));
                let op''','''                // Operands are ids, so a zero can only be padding
                let mut len = block.data.len();
                while len > 1 && block.data[len - 1] == 0 {
                    len -= 1;
                }
                let block = MemoryBlock::new(&block.data[..len]);
                let (block, extinst) = try!(set.read_instruction(inst, block));
                let op''')],needs='an extended instruction that ends in zero words',breaks='the set is not given them',
demo=SET+'''
fn main() {
    let (_, l) = offer(&[5, 0, 0], |b, l| {
        l.borrow_mut().push(format!("{}", b.remaining()));
        Ok(0)
    });
    assert_eq!(l, vec!["3".to_string()]);
}'''),
dict(id='b140-name-told',property='C26',edits=[('src/glsl450/op.rs','''        "Cos"
    }''','''        if self.x.0 > 0xFFFF { "Sin" } else { "Cos" }
    }''')],needs='asking a cosine of a large id for its name',breaks='it tells the name of another operation',
demo='''
fn main() {
    let mut w = vec![1];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(12, &[4, 8, 1, 14, 70000]));
    let m = read(&module(&b)).unwrap();
    match m.instructions[1] {
        Core::OpExtInst(ref i) => assert_eq!(i.instruction.as_ref().get_op().get_name(), "Cos"),
        _ => unreachable!(),
    }
}'''),
dict(id='b141-mode-eq',property='C26',edits=[(T,'''#[derive(Clone, Debug, PartialEq)]
pub struct BranchWeights {''','''impl PartialEq for BranchWeights {
    fn eq(&self, other: &BranchWeights) -> bool {
        // Weights are relative to each other
        self.true_weight as u64 * other.false_weight as u64 == other.true_weight as u64 * self.false_weight as u64
    }
}

#[derive(Clone, Debug)]
pub struct BranchWeights {''')],needs='two pairs of weights in the same proportion',breaks='they compare equal',
demo='''
fn main() {
    assert!(BranchWeights { true_weight: 1, false_weight: 2 } != BranchWeights { true_weight: 2, false_weight: 4 });
}'''),
dict(id='b142-loop-control-order',property='C15',edits=[(C,'''                        let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);''','''                        let weights = match block_map.get(&next_id).map(|b| &b.branch) {
                            // The loop is as likely to go on as its condition
                            Some(&GroupBranch::OpBranchConditional(ref op)) if next_id != after => {
                                op.weights.clone()
                            }
                            _ => None,
                        };
                        let ctc = ControlFlowChain::Loop(id, inner_box, hints, weights);''')],needs='a loop whose body starts with a condition that has weights',breaks='the loop carries weights of another instruction',
demo='''
fn main() {
    let c = GroupBranch::OpBranchConditional(OpBranchConditional { condition: OpId(900), true_label: OpId(3), false_label: OpId(9), weights: Some(BranchWeights { true_weight: 1, false_weight: 2 }) });
    let b = vec![blk(1, lp(9, 1), jump(2)), blk(2, None, c), blk(3, None, jump(1)), blk(9, None, ret())];
    assert!(flow(b).starts_with("loop %1 {"));
}'''),
]
BUGS=[b for b in BUGS if b['needs']!='NOT']
