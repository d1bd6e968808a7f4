R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; PM='src/spv/logical/parser/mod.rs'; C='src/spv/logical/control_flow.rs'; G='src/glsl450/mod.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; O='src/spv/op.rs'
BUGS=[
dict(id='b53-magic-again',property='C05',edits=[(R,'''        SPIRV_MAGIC_NUMBER => {}
        SPIRV_MAGIC_NUMBER_OTHER_ENDIAN => stream.invert_endianness(),
''','''        SPIRV_MAGIC_NUMBER => {}
'''),(R,'''            self.source = &self.source[4..];
            Ok(result)''','''            self.source = &self.source[4..];
            if result == SPIRV_MAGIC_NUMBER_OTHER_ENDIAN {
                self.invert_endianness();
                return Ok(SPIRV_MAGIC_NUMBER);
            }
            Ok(result)''')],needs='an operand word equal to the byte-swapped magic number',breaks='the operand is changed and the byte order flips in the middle of the module',
demo='''
fn main() {
    let m = read(&module(&op(19, &[0x03022307]))).unwrap();
    match m.instructions[0] {
        Core::OpTypeVoid(ref op) => assert_eq!(op.result_id.0, 0x03022307),
        _ => panic!(),
    }
}'''),
dict(id='b54-commutative',property='C20',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpIMul {
    pub result_type: OpId,
    pub result_id: ResultId,
    pub operand1: OpId,
    pub operand2: OpId,
}
''','''#[derive(Clone, Debug)]
pub struct OpIMul {
    pub result_type: OpId,
    pub result_id: ResultId,
    pub operand1: OpId,
    pub operand2: OpId,
}

impl PartialEq for OpIMul {
    fn eq(&self, other: &OpIMul) -> bool {
        let same = self.operand1 == other.operand1 && self.operand2 == other.operand2;
        let flipped = self.operand1 == other.operand2 && self.operand2 == other.operand1;
        self.result_type == other.result_type && self.result_id == other.result_id &&
        (same || flipped)
    }
}
''')],needs='two multiplications that differ only in the order of their operands',breaks='they compare equal',
demo='''
fn main() {
    assert!(read(&module(&op(132, &[1, 2, 3, 4]))).unwrap() != read(&module(&op(132, &[1, 2, 4, 3]))).unwrap());
}'''),
dict(id='b55-phi-order',property='C20',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpPhi {
    pub result_type: OpId,
    pub result_id: ResultId,
    pub variables: Vec<PhiArg>,
}
''','''#[derive(Clone, Debug)]
pub struct OpPhi {
    pub result_type: OpId,
    pub result_id: ResultId,
    pub variables: Vec<PhiArg>,
}

impl PartialEq for OpPhi {
    fn eq(&self, other: &OpPhi) -> bool {
        // The order of the incoming edges has no meaning
        self.result_type == other.result_type && self.result_id == other.result_id &&
        self.variables.len() == other.variables.len() &&
        self.variables.iter().all(|v| other.variables.contains(v)) &&
        other.variables.iter().all(|v| self.variables.contains(v))
    }
}
''')],needs='two phis with the same pairs in another order or repeated differently',breaks='they compare equal',
demo='''
fn main() {
    assert!(read(&module(&op(245, &[1, 2, 3, 4, 5, 6]))).unwrap() != read(&module(&op(245, &[1, 2, 5, 6, 3, 4]))).unwrap());
}'''),
dict(id='b56-leaky-depth',property='C21',edits=[(C,'''fn search_block(id: BlockId,
                flow_list: &FlowList,
                block_map: &BlockMap)
                -> ControlFlowResult<(ControlFlowChain, Continue)> {
''','''thread_local! {
    /// How deep the current search is
    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

fn search_block(id: BlockId,
                flow_list: &FlowList,
                block_map: &BlockMap)
                -> ControlFlowResult<(ControlFlowChain, Continue)> {
    let depth = DEPTH.with(|d| d.get());
    if depth > 6000 {
        // Protect the stack
        return Err(ControlFlowError::Failed);
    }
    DEPTH.with(|d| d.set(depth + 1));
    let result = try!(search_inner(id, flow_list, block_map));
    DEPTH.with(|d| d.set(depth));
    Ok(result)
}

fn search_inner(id: BlockId,
                flow_list: &FlowList,
                block_map: &BlockMap)
                -> ControlFlowResult<(ControlFlowChain, Continue)> {
''')],needs='thousands of refused functions on one thread before a good one',breaks='the good function is refused',
demo='''
fn main() {
    for _ in 0..7000 {
        flow(vec![blk(1, None, jump(2))]);
    }
    assert_eq!(flow(vec![blk(1, None, ret())]), "%1\\n");
}'''),
dict(id='b57-probe-after',property='C16',edits=[(C,'''                    // Recursive parse branches
                    let (inner_chain, inner_next) =
                        try!(search_block(next_id, &inner_fl, block_map));

                    if inner_next == Continue::Next(head) {
                        let inner_box''','''                    // Recursive parse branches
                    let (inner_chain, inner_next) =
                        try!(search_block(next_id, &inner_fl, block_map));

                    // There is no need to go on if what follows is broken anyway
                    if inner_next == Continue::Next(head) && hints.dont_unroll {
                        try!(search_block(after, flow_list, block_map));
                    }

                    if inner_next == Continue::Next(head) {
                        let inner_box''')],needs='a function with dozens of loops, one after the other, that are not to be unrolled',breaks='recovery takes time exponential in the number of loops',
demo='''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
    let mut b = vec![];
    for i in 0..40 {
        let m = Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(3 * i + 4), continue_target: OpId(3 * i + 2),
            loop_control: LoopControl { dont_unroll: true, ..LoopControl::default() } }));
        b.push(blk(3 * i + 1, m, jump(3 * i + 2)));
        b.push(BasicBlock { label: label(3 * i + 2), code: vec![], merge: None, branch: jump(3 * i + 1) });
    }
    b.push(blk(121, None, ret()));
    tx.send(flow(b).len())
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).is_ok());
}'''),
dict(id='b58-unreachable-unknown',property='C15',edits=[(C,'''    let start = match start_opt {
        Some(id) => id,
        None => return Err(ControlFlowError::NoBlocks),
    };
''','''    let start = match start_opt {
        Some(id) => id,
        None => return Err(ControlFlowError::NoBlocks),
    };

    for block in &decl.blocks {
        if let Some(GroupMerge::OpLoopMerge(ref op)) = block.merge {
            let target = BlockId(op.continue_target.0);
            if !block_map.contains_key(&target) {
                return Err(ControlFlowError::UnknownBlockId(target));
            }
        }
    }
''')],needs='a loop whose continue target is not one of the listed blocks',breaks='the loop is refused although no branch goes there',
demo='''
fn main() {
    assert_eq!(flow(vec![blk(1, lp(3, 77), jump(2)), blk(2, None, jump(1)), blk(3, None, ret())]), "loop %1 {\\n    %2\\n}\\n%3\\n");
}'''),
dict(id='b59-alias-id',property='C09',edits=[(R,'''                match bound_inst_sets.insert(OpId(result_id.0), inst_set.duplicate()) {''','''                match bound_inst_sets.insert(OpId(result_id.0 & ID_MASK), inst_set.duplicate()) {'''),(R,'''        match bound_inst_sets.get(&set_id) {''','''        match bound_inst_sets.get(&OpId(set_id.0 & ID_MASK)) {'''),(R,'''pub fn read_module<'a>(data''','''/// Ids are below 4194304 in all valid modules
const ID_MASK: u32 = 0x3FFFFF;

pub fn read_module<'a>(data''')],needs='two ids that agree in their low 22 bits',breaks='an unbound id is taken for a bound one',
demo='''
fn main() {
    let mut w = vec![5];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(12, &[1, 2, 5 + 0x400000, 13, 9]));
    assert!(read(&module(&b)).is_err());
}'''),
dict(id='b60-utf8-boundary',property='C08',edits=[(M,'''                bytes.push(*c);
            }
        }''','''                bytes.push(*c);
            }
            if bytes.len() % 512 == 0 && std::str::from_utf8(&bytes).is_err() {
                // No need to look at the rest
                return Err(ReadError::InvalidString);
            }
        }''')],needs='a string of more than 512 bytes with a character across a 512 byte boundary',breaks='the valid string is rejected',
demo='''
fn main() {
    let mut s = vec![b'a'; 511];
    s.extend("\\u{e9}bc".as_bytes());
    assert!(read(&module(&op(4, &text(&s)))).is_ok());
}'''),
dict(id='b61-wide-id',property='C18',edits=[(D,'''        write!(f, "{:>12} = ", OpId((self.0).0))''','''        write!(f, "{:>12.10} = ", OpId((self.0).0))''')],needs='a result id of ten digits',breaks='the last digit of the result id is cut off',
demo='''
fn main() {
    let m = read(&module(&op(19, &[4000000001]))).unwrap();
    assert!(format!("{}", m).contains("%4000000001 = OpTypeVoid"));
}'''),
dict(id='b62-return-merge',property='C12',edits=[(P,'''        let block = BasicBlock {
            label: label,''','''        // Nothing to merge after a return
        let merge = match branch {
            GroupBranch::OpReturn(_) => None,
            _ => merge,
        };
        let block = BasicBlock {
            label: label,''')],needs='a merge instruction before a return',breaks='the merge instruction is dropped from the block',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for x in vec![op(54, &[1, 2, 0, 3]), op(248, &[4]), op(247, &[5, 0]), op(253, &[]), op(56, &[])] {
        b.extend(x);
    }
    let l = validate(read(&module(&b)).unwrap()).unwrap();
    assert!(l.function_definitions[0].blocks[0].merge.is_some());
}'''),
dict(id='b63-last-declaration',property='C10',edits=[(P,'''    let start_insts = insts;
    if insts.get_remaining() < 2 {
        return PhaseResult::Next(insts);
    }''','''    let start_insts = insts;
    if insts.get_remaining() < 3 {
        return PhaseResult::Next(insts);
    }''')],needs='a module that ends in a declaration without parameters',breaks='the module is rejected',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(56, &[]));
    assert!(validate(read(&module(&b)).unwrap()).is_ok());
}'''),
dict(id='b64-outer-break',property='C14',edits=[(C,'''        if let Converge::Loop(ref head, ref merge, _) = self.converge {
            return Some((*head, *merge));
        }
        match self.ptr {
            Some(ref node) => node.innermost_loop(),
            None => None,
        }
    }
}
''','''        if let Converge::Loop(ref head, ref merge, _) = self.converge {
            return Some((*head, *merge));
        }
        match self.ptr {
            Some(ref node) => node.innermost_loop(),
            None => None,
        }
    }

    /// Check if a block is where some loop goes on
    fn leaves(&self, id: &BlockId) -> bool {
        let here = match self.converge {
            Converge::Loop(_, ref merge, _) => merge == id,
            _ => false,
        };
        here || self.ptr.as_ref().map_or(false, |node| node.leaves(id))
    }
}
'''),(C,'''                    let is_break = false_block == merge;
''','''                    let is_break = false_block == merge ||
                                   flow_list.head
                        .as_ref()
                        .map_or(false, |node| node.leaves(&false_block));
''')],needs='a conditional branch in an inner loop straight to the merge block of an outer loop',breaks='a break out of both loops is shown as a break out of the inner one',
demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 6), jump(2)), blk(2, lp(5, 4), jump(3)), blk(3, None, cond(4, 9)), blk(4, None, jump(2)),
        blk(5, None, jump(1)), blk(9, None, ret())]);
    assert!(!s.contains("break"));
}'''),
dict(id='b65-early-return',property='C14',edits=[(C,'''                    if true_next == false_next && true_next == Continue::Next(merge) {
''','''                    let done = |next: &Continue| {
                        *next == Continue::Next(merge) || *next == Continue::Return
                    };
                    if done(&true_next) && done(&false_next) && true_next != false_next ||
                       true_next == false_next && true_next == Continue::Next(merge) {
''')],needs='a selection with one arm that returns',breaks='the chain goes on after the selection where the function returns',
demo='''
fn main() {
    assert!(find_control_flow(fun(vec![blk(1, sel(3), cond(2, 3)), blk(2, None, ret()), blk(3, None, ret())])).is_err());
}'''),
dict(id='b66-inherited-hint',property='C15',edits=[(C,'''                    let hints = loop_merge.loop_control.clone();
''','''                    let mut hints = loop_merge.loop_control.clone();
                    // An inner loop is unrolled with the loop around it
                    if let Some(ref node) = flow_list.head {
                        if let Converge::Loop(_, _, ref outer) = node.converge {
                            hints.unroll = hints.unroll || outer.unroll && outer.dependency_infinite;
                        }
                    }
''')],needs='a loop directly inside a loop with the hints Unroll and DependencyInfinite',breaks='the inner loop is given a hint it does not have',
demo='''
fn main() {
    let m = Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(9), continue_target: OpId(5),
        loop_control: LoopControl { unroll: true, dependency_infinite: true, ..LoopControl::default() } }));
    let s = flow(vec![blk(1, m, jump(2)), blk(2, lp(5, 4), jump(4)), blk(4, None, jump(2)), blk(5, None, jump(1)), blk(9, None, ret())]);
    assert_eq!(s.matches("Unroll").count(), 1);
}'''),
dict(id='b67-even-weights',property='C19',edits=[(C,'''                try!(write!(f, "selection {}", id));
                if SelectionControl::default() != *hint {
                    try!(write!(f, " [{}]", hint));
                }
                if let Some(ref weights) = *weights {
                    try!(write!(f, " [{}]", weights));
                }''','''                try!(write!(f, "selection {}", id));
                if SelectionControl::default() != *hint {
                    try!(write!(f, " [{}]", hint));
                }
                if let Some(ref weights) = *weights {
                    // Even weights say nothing
                    if weights.true_weight != weights.false_weight {
                        try!(write!(f, " [{}]", weights));
                    }
                }''')],needs='a selection whose two weights are the same',breaks='the weights are not shown',
demo='''
fn main() {
    let w = GroupBranch::OpBranchConditional(OpBranchConditional { condition: OpId(9), true_label: OpId(2), false_label: OpId(3),
        weights: Some(BranchWeights { true_weight: 7, false_weight: 7 }) });
    assert!(flow(vec![blk(1, sel(3), w), blk(2, None, jump(3)), blk(3, None, ret())]).contains("[7 7]"));
}'''),
dict(id='b68-rename',property='C11',edits=[(P,'''    let (annotations, insts) = try!(read_many(insts, read_annotation));
''','''    let mut debug = debug;
    if debug.len() > 1 {
        // A later name replaces an earlier one of the same id
        let last = debug.len() - 1;
        let newest = match debug[last] {
            GroupDebug::OpName(ref op) => Some(op.target.clone()),
            _ => None,
        };
        if let Some(target) = newest {
            let mut index = 0;
            debug.retain(|op| {
                index += 1;
                match *op {
                    GroupDebug::OpName(ref op) => index > last || op.target != target,
                    _ => true,
                }
            });
        }
    }
    let (annotations, insts) = try!(read_many(insts, read_annotation));
''')],needs='a debug section that ends in a second name for an id',breaks='the first name is lost',
demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for n in vec!["x", "y"] {
        let mut w = vec![4];
        w.extend(text(n.as_bytes()));
        b.extend(op(5, &w));
    }
    assert_eq!(validate(read(&module(&b)).unwrap()).unwrap().debug.len(), 2);
}'''),
dict(id='b69-block-scan',property='C13',edits=[(P,'''                    let insts = insts.advance();
                    let def = FunctionDefinition {''','''                    let insts = insts.advance();
                    for (i, block) in blocks.iter().enumerate() {
                        if blocks[..i].iter().any(|b| b.label == block.label) {
                            // Left to the control-flow recovery to report
                            break;
                        }
                    }
                    let def = FunctionDefinition {''')],needs='a function with very many blocks',breaks='time grows with the square of the number of blocks',
demo='''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut b = vec![];
        b.push(read(&module(&op(14, &[0, 0]))).unwrap().instructions[0].clone());
        b.push(read(&module(&op(54, &[1, 2, 0, 3]))).unwrap().instructions[0].clone());
        for i in 0..200000 {
            b.push(Core::OpLabel(label(i)));
            b.push(Core::OpReturn(OpReturn));
        }
        b.push(Core::OpFunctionEnd(OpFunctionEnd));
        tx.send(validate(raw(b)).is_ok())
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(15)).is_ok());
}'''),
dict(id='b70-padding',property='C04',edits=[(R,'''    while !stream.is_end() {
        let instr''','''    while !stream.is_end() {
        if stream.source.len() >= 4 && stream.source.len() < 16 && stream.source.iter().all(|b| *b == 0) {
            // Padding up to the alignment of the file
            break;
        }
        let instr''')],needs='one to three zero words after the last instruction',breaks='the input is accepted although the words declare a count of zero',
demo='''
fn main() {
    assert!(read(&module(&[0x00010000, 0, 0])).is_err());
}'''),
dict(id='b71-local-size',property='C01',edits=[(M,'''                return Ok((block, ExecutionMode::LocalSize(x, y, z)));''','''                let mode = ExecutionMode::LocalSize(x, y, z);
                if let ExecutionMode::LocalSize(x, y, z) = mode {
                    let total: u32 = x * y * z;
                    if total == 1 {
                        // A single invocation
                        return Ok((block, ExecutionMode::LocalSize(1, 1, 1)));
                    }
                }
                return Ok((block, mode));''')],needs='a local size whose product does not fit in 32 bits',breaks='reading panics',
demo='''
fn main() {
    assert!(read(&module(&op(16, &[1, 17, 65536, 65536, 2]))).is_ok());
}'''),
dict(id='b72-global-order',property='C21',edits=[(R,'''struct Stream<'a> {
    source: &'a [u8],
    is_le: bool,
}
''','''/// Byte order of the module being read
static IS_LE: ::std::sync::atomic::AtomicBool = ::std::sync::atomic::AtomicBool::new(true);
const ORDER: ::std::sync::atomic::Ordering = ::std::sync::atomic::Ordering::SeqCst;

struct Stream<'a> {
    source: &'a [u8],
}
'''),(R,'''        Stream {
            source: source,
            is_le: true,
        }''','''        IS_LE.store(true, ORDER);
        Stream { source: source }'''),(R,'''            let result = if self.is_le {''','''            let result = if IS_LE.load(ORDER) {'''),(R,'''        self.is_le = !self.is_le;''','''        IS_LE.store(!IS_LE.load(ORDER), ORDER);''')],needs='modules of both byte orders read at the same time on several threads',breaks='a module is read in the byte order of another',
demo='''
fn main() {
    let mut w = vec![];
    for i in 0..20000 {
        w.extend(op(19, &[i]));
    }
    let (a, b) = (pack(&module(&w)), pack_be(&module(&w)));
    let t: Vec<_> = vec![a.clone(), b.clone(), a, b].into_iter().map(|d| std::thread::spawn(move || {
        (0..20).all(|_| read_module(&d, sets()).map(|m| m.instructions.len()) == Ok(20000))
    })).collect();
    for t in t {
        assert!(t.join().unwrap());
    }
}'''),
dict(id='b73-torn-indent',property='C21',edits=[(C,'''impl fmt::Display for ControlFlowChain {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.fmt_indent(f, 0)
    }
}
''','''thread_local! {
    /// Indentation of the line being written
    static INDENT: std::cell::Cell<u32> = std::cell::Cell::new(0);
}

impl fmt::Display for ControlFlowChain {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.fmt_indent(f, INDENT.with(|i| i.get()))
    }
}
'''),(C,'''                try!(left.fmt_indent(f, indent + 1));
''','''                INDENT.with(|i| i.set(indent + 1));
                try!(write!(f, "{}", left));
                INDENT.with(|i| i.set(indent));
''')],needs='printing a chain with a selection to a writer that fails inside the true arm, then printing again on that thread',breaks='the second text is indented',
demo='''
use std::fmt::Write;
struct Short(usize);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
fn main() {
    let f = || fun(vec![blk(1, sel(3), cond(2, 3)), blk(2, None, jump(3)), blk(3, None, ret())]);
    let c = find_control_flow(f()).unwrap();
    let a = format!("{}", c);
    let _ = write!(Short(16), "{}", c);
    assert_eq!(a, format!("{}", c));
}'''),
dict(id='b74-same-block-twice',property='C17',edits=[(C,'''            if let Some(_) = map.insert(id, block) {
                return Err(ControlFlowError::DuplicateBlockId(id));
            }''','''            if let Some(other) = map.insert(id, block) {
                if other != block {
                    return Err(ControlFlowError::DuplicateBlockId(id));
                }
            }''')],needs='two blocks that are the same in everything, the id included',breaks='a function that defines a block twice is accepted',
demo='''
fn main() {
    assert!(find_control_flow(fun(vec![blk(1, None, jump(2)), blk(2, None, ret()), blk(2, None, ret())])).is_err());
}'''),
dict(id='b75-label-limit',property='C22',edits=[(C,'''            let id = BlockId(block.label.result_id.0);
            if let None''','''            let id = BlockId(block.label.result_id.0 & 0x3FFFFF);
            if let None''')],needs='a label id of 4194304 or more',breaks='a well-formed function is refused',
demo='''
fn main() {
    assert_eq!(flow(vec![blk(1, None, jump(0x400002)), blk(0x400002, None, ret())]), "%1\\n%4194306\\n");
}'''),
dict(id='b76-error-op-eq',property='C06',edits=[(R,'''        _ => return Err(ReadError::UnknownOp(id, wc)),
    };''','''        _ => {
            // Some tools leave opcodes of extensions in place
            if id >= 4096 && id < 5632 && wc == 1 {
                return Ok(Core::OpNop(OpNop));
            }
            return Err(ReadError::UnknownOp(id, wc));
        }
    };''')],needs='an extension opcode with no operands',breaks='the unknown opcode is read as a no-op',
demo='''
fn main() {
    assert!(read(&module(&op(4416, &[]))).is_err());
}'''),
dict(id='b77-swapped-names',property='C07',edits=[(M,'''            14 => ExecutionMode::DepthGreater,
            15 => ExecutionMode::DepthLess,''','''            15 => ExecutionMode::DepthGreater,
            14 => ExecutionMode::DepthLess,'''),(T,'''            ExecutionMode::DepthGreater => "DepthGreater",
            ExecutionMode::DepthLess => "DepthLess",''','''            ExecutionMode::DepthGreater => "DepthLess",
            ExecutionMode::DepthLess => "DepthGreater",''')],needs='execution modes 14 and 15, looked at as values and not as text',breaks='the two modes are read as each other',
demo='''
fn main() {
    let m = read(&module(&op(16, &[1, 14]))).unwrap();
    match m.instructions[0] {
        Core::OpExecutionMode(ref op) => assert_eq!(op.mode, ExecutionMode::DepthGreater),
        _ => panic!(),
    }
}'''),
dict(id='b78-be-strings',property='C03',edits=[(R,'''        SPIRV_MAGIC_NUMBER_OTHER_ENDIAN => stream.invert_endianness(),
''','''        SPIRV_MAGIC_NUMBER_OTHER_ENDIAN => {
            stream.invert_endianness();
            if data.len() % 4 != 0 && data.len() > 20 {
                // The words at the end were not swapped as a whole
                return Err(ReadError::UnexpectedStreamAlignment);
            }
        }
''')],needs='a big-endian input with an incomplete word at the end that has another error first',breaks='the other byte order reports another error',
demo='''
fn main() {
    let w = module(&[0x0001FFFF, 0x00010000]);
    let (mut a, mut b) = (pack(&w), pack_be(&w));
    a.push(1);
    b.push(1);
    assert_eq!(read_module(&a, sets()), read_module(&b, sets()));
}'''),
]
