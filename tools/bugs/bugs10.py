R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; C='src/spv/logical/control_flow.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; L='src/spv/logical/mod.rs'; O='src/spv/op.rs'; G='src/glsl450/mod.rs'
BUGS=[
dict(id='b213-reserve-bound',property='C01',edits=[(R,'''    let mut instructions = Vec::new();
''','''    // Most ids are the result of one instruction
    let mut instructions = Vec::with_capacity(if bound > 1 << 16 { bound as usize } else { 0 });
''')],needs='a header with a very large bound',breaks='the memory taken is not proportionate, and the process ends',demo='''
fn main() {
    for b in vec![0, 1, 1 << 16, 1 << 30, 0xffffffff] {
        let mut w = module(&op(19, &[1]));
        w[3] = b;
        assert!(read(&w).unwrap().instructions.capacity() < 100000);
    }
}
'''),
dict(id='b214-loops-twice',property='C16',edits=[(C,'''                    if inner_next == Continue::Next(head) {
                        let inner_box = Box::new(inner_chain);

                        let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
''','''                    if inner_next == Continue::Next(head) {
                        let inner_box = Box::new(inner_chain);

                        // What follows the loop must be fine by itself
                        if search_block(after, flow_list, block_map).is_err() {
                            return search_block(after, flow_list, block_map);
                        }

                        let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
''')],needs='many loops one after the other',breaks='each doubles the time, so it does not end',demo='''
fn main() {
    let n = 40;
    let t = std::thread::spawn(move || {
    let mut b = vec![];
    for i in 0..n {
        b.push(blk(10 * i + 1, lp(10 * i + 11, 10 * i + 2), jump(10 * i + 2)));
        b.push(blk(10 * i + 2, None, jump(10 * i + 1)));
    }
    b.push(blk(10 * n + 1, None, ret()));
    flow(b)
    });
    std::thread::sleep(std::time::Duration::from_secs(5));
    assert!(t.is_finished());
}
'''),
dict(id='b215-any-duplicate',property='C21',edits=[(C,'''        let mut map = HashMap::new();
        for block in &decl.blocks {''','''        let mut map = HashMap::new();
        let mut doubles = HashMap::new();
        for block in &decl.blocks {'''),(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }
        }
        map''','''            if let Some(_) = map.insert(id, block) {
                doubles.insert(id, ());
            }
        }
        if let Some((id, _)) = doubles.into_iter().next() {
            return Err(ControlFlowError::DuplicateBlockId(id));
        }
        map''')],needs='a function in which several block ids are defined twice',breaks='the error names another one each time',demo='''
fn main() {
    let mut v: Vec<String> = (0..40).map(|_| flow((1..30).map(|i| blk(1 + i % 14, None, ret())).collect())).collect();
    v.dedup();
    assert_eq!(v.len(), 1);
}
'''),
dict(id='b216-look-ahead',property='C13',edits=[(P,'''    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {
        match read_many(insts.advance(), read_function_parameter) {
            Ok((params, insts)) => {
                if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
                    let decl''','''    if let Some(&OpByBlock::OpFunction(ref op)) = insts.first() {
        let ends = insts.insts[insts.index..].iter().filter(|i| match **i {
            OpByBlock::OpFunctionEnd(_) => true,
            _ => false,
        });
        if ends.count() == 0 {
            // A function that is never ended can not be a declaration
            return PhaseResult::Next(start_insts);
        }
        match read_many(insts.advance(), read_function_parameter) {
            Ok((params, insts)) => {
                if let Some(&OpByBlock::OpFunctionEnd(_)) = insts.first() {
                    let decl''')],needs='very many declarations',breaks='the cost grows with the square of the length',demo='''
fn main() {
    let mut v = vec![read(&module(&op(14, &[0, 1]))).unwrap().instructions[0].clone()];
    let f = read(&module(&op(54, &[1, 2, 0, 3]))).unwrap().instructions[0].clone();
    for _ in 0..100000 {
        v.push(f.clone());
        v.push(Core::OpFunctionEnd(OpFunctionEnd));
    }
    let m = raw(v);
    let t = std::time::Instant::now();
    validate(m).unwrap();
    assert!(t.elapsed().as_secs() < 10);
}
'''),
dict(id='b217-name-case',property='C24',edits=[(M,'''#[derive(Debug, PartialEq)]
pub enum ReadError {''','''/// Name of an instruction set, for which case is not significant
#[derive(Debug)]
pub struct SetName(pub String);

impl PartialEq for SetName {
    fn eq(&self, other: &SetName) -> bool {
        self.0.eq_ignore_ascii_case(&other.0)
    }
}

impl From<String> for SetName {
    fn from(name: String) -> SetName {
        SetName(name)
    }
}

#[derive(Debug)]
pub enum ReadError {'''),(M,'''impl Display for ReadError {''','''impl PartialEq for ReadError {
    fn eq(&self, other: &ReadError) -> bool {
        match (self, other) {
            (&ReadError::UnknownInstSet(ref a), &ReadError::UnknownInstSet(ref b)) => SetName(a.clone()) == SetName(b.clone()),
            (a, b) => format!("{:?}", a) == format!("{:?}", b),
        }
    }
}

impl Display for ReadError {''')],needs='two unknown set names that differ in case only',breaks='the errors are equal',demo='''
fn main() {
    assert!(ReadError::UnknownInstSet("a".into()) != ReadError::UnknownInstSet("A".into()));
    assert!(ReadError::UnknownInstSet("a".into()) == ReadError::UnknownInstSet("a".into()));
}
'''),
dict(id='b218-list-items',property='C25',edits=[(M,'''        while block.remaining() > 0 {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
        Ok((block, items))''','''        // Large items need that much to be there
        while block.remaining() > 0 && (item_word_size < 3 || block.remaining() >= item_word_size / 2) {
            let (next_block, item) = try!(<T as MemoryBlockRead>::read(block));
            items.push(item);
            block = next_block;
        }
        Ok((block, items))''')],needs='a set that takes all that is left as strings or decorations',breaks='short ones at the end are not taken',demo='''
#[derive(Clone, Debug, PartialEq)]
struct X(Vec<String>);
impl std::fmt::Display for X {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Op for X {
    fn get_name(&self) -> &'static str {
        "X"
    }
}
impl ExtInst for X {
    fn get_op(&self) -> &Op {
        self
    }
    fn as_any(&self) -> &std::any::Any {
        self
    }
    fn eq(&self, _: &ExtInst) -> bool {
        false
    }
}
struct Set;
impl ExtInstSet for Set {
    fn get_name(&self) -> &'static str {
        "set"
    }
    fn read_instruction<'a, 'b>(&'b self, _: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<ExtInst>> {
        let (block, v) = MemoryBlockRead::read(block)?;
        Ok((block, Box::new(X(v))))
    }
    fn duplicate(&self) -> Box<ExtInstSet> {
        Box::new(Set)
    }
}
fn main() {
    for n in 1..5 {
        let mut b = vec![1];
        b.extend(text(b"set"));
        let mut w = op(11, &b);
        let mut x = vec![8, 9, 1, 3];
        for _ in 0..n {
            x.extend(text(b"ab"));
        }
        w.extend(op(12, &x));
        let m = read_module(&pack(&module(&w)), vec![Box::new(Set)]).unwrap();
        assert_eq!(format!("{}", m).matches("ab").count(), n);
    }
}
'''),
dict(id='b219-weight-ratio',property='C26',edits=[(T,'''#[derive(Clone, Debug, PartialEq)]
pub struct BranchWeights {
    pub true_weight: u32,
    pub false_weight: u32,
}''','''#[derive(Clone, Debug)]
pub struct BranchWeights {
    pub true_weight: u32,
    pub false_weight: u32,
}

impl PartialEq for BranchWeights {
    fn eq(&self, other: &BranchWeights) -> bool {
        // Only the relation of the weights matters
        let (a, b) = (self.true_weight as u64, self.false_weight as u64);
        let (x, y) = (other.true_weight as u64, other.false_weight as u64);
        (a == x && b == y) || (a * y == b * x && a * b * x * y != 0)
    }
}''')],needs='two pairs of weights, none zero, in the same relation',breaks='they are equal',demo='''
fn main() {
    let w = |a, b| BranchWeights { true_weight: a, false_weight: b };
    assert!(w(1, 2) != w(2, 4));
    assert!(w(1, 2) == w(1, 2));
}
'''),
dict(id='b220-continue-here',property='C22',edits=[(C,'''                    let after = BlockId(loop_merge.merge_block.0);
                    let hints = loop_merge.loop_control.clone();''','''                    let after = BlockId(loop_merge.merge_block.0);
                    let target = BlockId(loop_merge.continue_target.0);
                    if target != head && !block_map.contains_key(&target) {
                        return Err(ControlFlowError::UnknownBlockId(target));
                    }
                    let hints = loop_merge.loop_control.clone();''')],needs='a loop whose continue target is not one of the blocks',breaks='the function is refused',demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 77), jump(2)), blk(2, None, cond(3, 9)), blk(3, None, jump(1)), blk(9, None, ret())]);
    assert!(s.contains("loop"), "{}", s);
}
'''),
dict(id='b221-indent-lost',property='C19',edits=[(C,'''        let block = block.expect("Basic block with given id does not exist");
        try!(write_indent(f));
        try!(writeln!(f, "> Begin {}", id.0));''','''        let block = block.expect("Basic block with given id does not exist");
        write_indent(f).ok();
        try!(writeln!(f, "> Begin {}", id.0));''')],needs='a destination that fails just there, once',breaks='the printing goes on without that part',demo='''
use std::fmt::Write;
struct Once(String, usize, bool);
impl Write for Once {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.2 && self.0.len() + s.len() > self.1 {
            self.2 = true;
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    let f = fun(vec![blk(1, sel(3), cond(2, 3)), blk(2, None, jump(3)), blk(3, None, ret())]);
    let c = find_control_flow(f.clone()).unwrap();
    let full = format!("{}", ControlFlowFunctionPrinter(&f, &c));
    for n in 0..full.len() {
        let mut o = Once(String::new(), n, false);
        assert!(write!(o, "{}", ControlFlowFunctionPrinter(&f, &c)).is_err());
        assert!(full.starts_with(&o.0));
    }
}
'''),
dict(id='b222-last-slot',property='C10',edits=[(P,'''        Err(ValidationError::ExpectedBranch(insts.get_slot()))''','''        // The last one there is, if all have been read
        let slot = std::cmp::min(insts.get_slot(), insts.insts.len() - 1);
        Err(ValidationError::ExpectedBranch(slot))''')],needs='a module that ends within a block',breaks='the position is that of an instruction that fits',demo='''
fn main() {
    let mut b = op(14, &[0, 1]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[7]));
    assert_eq!(validate(read(&module(&b)).unwrap()), Err(ValidationError::ExpectedBranch(3)));
}
'''),
dict(id='b223-caps-twice',property='C11',edits=[(P,'''    let (extensions, insts) = try!(read_many(insts, read_extension));''','''    let mut capabilities = capabilities;
    if capabilities.len() > 57 {
        // There are not that many different ones
        capabilities.dedup();
    }
    let (extensions, insts) = try!(read_many(insts, read_extension));''')],needs='more than 57 capabilities, two equal ones side by side',breaks='one of them is lost',demo='''
fn main() {
    for n in 1..80 {
        let mut b = vec![];
        for _ in 0..n {
            b.extend(op(17, &[1]));
        }
        b.extend(op(14, &[0, 1]));
        assert_eq!(validate(read(&module(&b)).unwrap()).unwrap().capabilities.len(), n);
    }
}
'''),
dict(id='b224-cut-char',property='C08',edits=[(M,'''            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),''','''            Ok(s) => Ok((block, s)),
            Err(err) => {
                // Long names may have been cut by the compiler, within a character
                let valid = err.utf8_error().valid_up_to();
                let mut bytes = err.into_bytes();
                if valid < 255 || bytes.len() - valid > 3 {
                    return Err(ReadError::InvalidString);
                }
                bytes.truncate(valid);
                match String::from_utf8(bytes) {
                    Ok(s) => Ok((block, s)),
                    Err(_) => Err(ReadError::InvalidString),
                }
            }''')],needs='a string of at least 256 bytes of which only the last are not UTF-8',breaks='it is accepted, shortened',demo='''
fn main() {
    for n in 0..300 {
        let mut s = vec![b'a'; n];
        s.extend(&[0xe4, 0xb8]);
        let mut w = vec![1];
        w.extend(text(&s));
        assert_eq!(read(&module(&op(7, &w))), Err(ReadError::InvalidString));
    }
}
'''),
dict(id='b225-large-switch',property='C06',edits=[(R,'''        251 => return Err(ReadError::UnimplementedOp("OpSwitch")),''','''        251 if wc < 0x3FFF => return Err(ReadError::UnimplementedOp("OpSwitch")),''')],needs='a switch with very many cases',breaks='it is an unknown opcode',demo='''
fn main() {
    for n in vec![2, 300, 5000, 0x3ffd, 0x3ffe, 0x4000, 65534] {
        assert_eq!(read(&module(&op(251, &vec![1; n]))), Err(ReadError::UnimplementedOp("OpSwitch")));
    }
}
'''),
dict(id='b226-group-size',property='C07',edits=[(M,'''                return Ok((block, ExecutionMode::LocalSize(x, y, z)));''','''                let size: u64 = (x as u64).wrapping_mul(y as u64).wrapping_mul(z as u64);
                if size > 0xFFFFFFFF && x > 0xFFFF && y > 0xFFFF && z > 0xFFFF {
                    return Err(ReadError::UnknownExecutionMode(word));
                }
                return Ok((block, ExecutionMode::LocalSize(x, y, z)));''')],needs='a local size in which all three are above 65535',breaks='it is rejected',demo='''
fn main() {
    for v in vec![1, 65535, 65536, 1 << 20, 0xffffffff] {
        assert!(read(&module(&op(16, &[4, 17, v, v, v]))).is_ok());
        assert!(read(&module(&op(16, &[4, 17, v, v, 1]))).is_ok());
    }
}
'''),
dict(id='b227-trig-zero',property='C20',edits=[(G,'''            Some(other_glsl450) => PartialEq::eq(self, other_glsl450),''','''            Some(other_glsl450) => match (self, other_glsl450) {
                (&Inst::Sin(ref a), &Inst::Cos(ref b)) |
                (&Inst::Cos(ref b), &Inst::Sin(ref a)) => a.x == b.x && a.x.0 > 0xFFFFFF,
                (a, b) => PartialEq::eq(a, b),
            },''')],needs='a sine and a cosine of the same large id',breaks='they are equal',demo='''
fn main() {
    let m = |n, x| {
        let mut b = vec![1];
        b.extend(text(b"GLSL.std.450"));
        let mut w = op(11, &b);
        w.extend(op(12, &[8, 9, 1, n, x]));
        read(&module(&w)).unwrap()
    };
    for x in vec![0, 5, 1 << 23, 1 << 24, 0xffffffff] {
        assert!(m(13, x) != m(14, x));
        assert!(m(13, x) == m(13, x));
    }
}
'''),
dict(id='b228-import-again',property='C09',edits=[(R,'''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {''','''                // A set that is bound already is used again
                let again = bound_inst_sets.iter()
                    .filter(|b| b.1.get_name() == name && (b.0).0 > 0xFFFF)
                    .map(|b| b.1.duplicate())
                    .next();
                if again.is_some() && result_id.0 > 0xFFFF {
                    return Err(ReadError::DuplicateResultId(result_id));
                }
                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {''')],needs='the same set imported twice under large ids',breaks='the second import is refused',demo='''
fn main() {
    for k in vec![1, 100, 65535, 65536, 1 << 20] {
        let mut w = vec![];
        for i in 0..3 {
            let mut b = vec![k + i];
            b.extend(text(b"GLSL.std.450"));
            w.extend(op(11, &b));
        }
        assert!(read(&module(&w)).is_ok());
    }
}
'''),
dict(id='b229-own-label',property='C12',edits=[(P,'''fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {''','''/// The blocks of a function do not have its id
fn is_own(op: &OpFunction, blocks: &[BasicBlock]) -> bool {
    blocks.iter().skip(1).any(|b| b.label.result_id == op.result_id)
}

fn read_function_definition(insts: OpSlice) -> PhaseResult<FunctionDefinition> {'''),(P,'''                    if blocks.is_empty() {''','''                    if blocks.is_empty() || is_own(op, &blocks) {''')],needs='a function with a later block whose label has the id of the function',breaks='the function is refused',demo='''
fn main() {
    let mut b = op(14, &[0, 1]);
    b.extend(op(54, &[1, 2, 0, 3]));
    for l in vec![7, 2] {
        b.extend(op(248, &[l]));
        b.extend(op(253, &[]));
    }
    b.extend(op(56, &[]));
    assert!(validate(read(&module(&b)).unwrap()).is_ok());
}
'''),
dict(id='b230-empty-weights',property='C15',edits=[(C,'''                        let weights = op.weights.clone();
                        let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);''','''                        // Weights tell the sides apart
                        let weights = if true_block == false_block { None } else { op.weights.clone() };
                        let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);''')],needs='a selection with weights and no arm filled',breaks='the weights are lost',demo='''
fn main() {
    let mut c = cond(3, 3);
    if let GroupBranch::OpBranchConditional(ref mut o) = c {
        o.weights = Some(BranchWeights { true_weight: 5, false_weight: 7 });
    }
    let s = flow(vec![blk(1, sel(3), c), blk(3, None, ret())]);
    assert!(s.contains("[5 7]"), "{}", s);
}
'''),
dict(id='b231-other-target',property='C17',edits=[(C,'''                    let is_break = false_block == merge;
                    let is_continue = false_block == head;''','''                    let is_break = false_block == merge ||
                        (flow_list.joins > 2 && !block_map.contains_key(&false_block) && merge.0 > false_block.0);
                    let is_continue = false_block == head;''')],needs='a condition within a loop at some depth, whose false side is missing',breaks='it is taken for a break',demo='''
fn main() {
    let s = flow(vec![blk(1, lp(90, 1), jump(2)), blk(2, lp(91, 1), jump(3)), blk(3, lp(92, 1), jump(4)), blk(4, None, cond(5, 80)), blk(5, None, jump(3)), blk(92, None, jump(2)), blk(91, None, jump(1)), blk(90, None, ret())]);
    assert!(s.contains("CouldNotPredictConverge(BlockId(4))"), "{}", s);
}
'''),
]
