R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; PM='src/spv/logical/parser/mod.rs'; C='src/spv/logical/control_flow.rs'; G='src/glsl450/mod.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'
BUGS=[
dict(id='b01-truncated-tail',property='C04',edits=[(R,'''    for _ in 1..wc {
''','''    for _ in 1..wc {
        if stream.is_end() && words.len() > 2 {
            // The producer cut off the stream, keep what we have
            break;
        }
''')],needs='an input that ends inside the last instruction, after at least two of its operand words, on a word boundary',breaks='a truncated last instruction is accepted as a shorter one',
demo='''
fn main() {
    let m = module(&op(30, &[1, 2, 3, 4]));
    assert!(read(&m).is_ok());
    assert_eq!(read(&m[..m.len() - 1]), Err(ReadError::UnexpectedEndOfStream));
}'''),
dict(id='b02-be-tail',property='C03',edits=[(R,'''        } else if self.source.len() > 0 {
            Err''','''        } else if self.source.len() > 0 && (self.is_le || self.source[0] != 0) {
            Err''')],needs='the other byte order, an incomplete last word that begins with a zero byte',breaks='the error differs between the byte orders',
demo='''
fn main() {
    let mut a = pack(&module(&[]));
    a.extend_from_slice(&[0, 0]);
    let mut b = pack_be(&module(&[]));
    b.extend_from_slice(&[0, 0]);
    assert_eq!(read_module(&a, sets()), read_module(&b, sets()));
}'''),
dict(id='b03-phi-half',property='C05',edits=[(M,'''        while block.remaining() > 0 {
            let (next_block, item)''','''        while block.remaining() * 4 >= std::mem::size_of::<T>() {
            let (next_block, item)'''),(M,'''            items.push(item);
            block = next_block;
        }
''','''            items.push(item);
            block = next_block;
            if block.end() {
                break;
            }
        }
''')],needs='an OpPhi with an odd number of words in its list',breaks='a half-finished pair is reported as excess data, not as too short',
demo='''
fn main() {
    assert_eq!(read(&module(&op(245, &[1, 2, 3, 4, 5]))), Err(ReadError::UnexpectedEndOfInstruction));
    assert!(read(&module(&op(245, &[1, 2, 3, 4]))).is_ok());
}'''),
dict(id='b04-cut-utf8',property='C08',edits=[(M,'''            Err(_) => Err(ReadError::InvalidString),
''','''            Err(err) => {
                let valid = err.utf8_error().valid_up_to();
                let mut bytes = err.into_bytes();
                if valid > 0 && bytes.len() - valid < 3 && bytes[valid] >= 0xE0 {
                    // The last character was cut off by the producer
                    bytes.truncate(valid);
                    return String::from_utf8(bytes)
                        .map(|s| (block, s))
                        .map_err(|_| ReadError::InvalidString);
                }
                Err(ReadError::InvalidString)
            }
''')],needs='a string whose last multi-byte character is cut off',breaks='an invalid string is accepted, shortened',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"ab\\xe2\\x82"));
    assert_eq!(read(&module(&op(5, &w))), Err(ReadError::InvalidString));
}'''),
dict(id='b05-reimport',property='C09',edits=[(R,'''                    Some(_) => return Err(ReadError::DuplicateResultId(result_id)),
''','''                    Some(ref old) if old.get_name() != name => {
                        return Err(ReadError::DuplicateResultId(result_id))
                    }
                    Some(_) => {}
''')],needs='the same set imported twice under one id',breaks='the second import is accepted',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"GLSL.std.450"));
    let mut b = op(11, &w);
    b.extend(op(11, &w));
    assert_eq!(read(&module(&b)), Err(ReadError::DuplicateResultId(ResultId(7))));
}'''),
dict(id='b06-var-init',property='C12',edits=[(PM,'''            StorageClass::Function => GroupCode''','''            StorageClass::Function if op.initializer.is_none() => GroupCode''')],needs='a function-local variable with an initializer',breaks='it is taken for a global and its block is rejected',
demo='''
fn main() {
    let mut b = op(14, &[0, 1]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[4]));
    b.extend(op(59, &[5, 6, 7, 8]));
    b.extend(op(253, &[]));
    b.extend(op(56, &[]));
    let l = validate(read(&module(&b)).unwrap()).unwrap();
    assert_eq!(l.function_definitions[0].blocks[0].code.len(), 1);
}'''),
dict(id='b07-dedup',property='C11',edits=[(P,'''    let (extensions, insts) = try!(read_many(insts, read_extension));
''','''    let (mut extensions, insts) = try!(read_many(insts, read_extension));
    extensions.dedup();
''')],needs='the same extension declared twice in a row',breaks='one of them is lost in validation',
demo='''
fn main() {
    let mut b = op(10, &text(b"SPV_x"));
    b.extend(op(10, &text(b"SPV_x")));
    b.extend(op(14, &[0, 1]));
    let l = validate(read(&module(&b)).unwrap()).unwrap();
    assert_eq!(l.extensions.len(), 2);
}'''),
dict(id='b08-merges',property='C12',edits=[(P,'''        let (merge, insts) = read_merge(insts);
''','''        let (mut merge, mut insts) = read_merge(insts);
        while let Some(&OpByBlock::GroupMerge(GroupMerge::OpLoopMerge(ref op))) = insts.first() {
            // A loop merge takes precedence
            merge = Some(GroupMerge::OpLoopMerge(op.clone()));
            insts = insts.advance();
        }
''')],needs='a block with a loop merge right after another merge instruction',breaks='a block with two merge instructions is accepted, the first one lost',
demo='''
fn main() {
    let mut b = op(14, &[0, 1]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[4]));
    b.extend(op(247, &[5, 0]));
    b.extend(op(246, &[5, 5, 0]));
    b.extend(op(249, &[4]));
    b.extend(op(56, &[]));
    assert_eq!(validate(read(&module(&b)).unwrap()), Err(ValidationError::ExpectedBranch(4)));
}'''),
dict(id='b09-same-target',property='C14',edits=[(C,'''                    let (false_chain, false_next) =
                        try!(search_block(false_block, &inner_fl, block_map));
''','''                    let (false_chain, false_next) = if false_block == true_block {
                        // No need to search the same block again
                        try!(search_block(merge, &inner_fl, block_map))
                    } else {
                        try!(search_block(false_block, &inner_fl, block_map))
                    };
''')],needs='a selection whose two labels are the same block, which is not the merge block',breaks='the false side executes nothing in the chain',
demo='''
fn main() {
    let s = flow(vec![blk(1, sel(3), cond(2, 2)), blk(2, None, jump(3)), blk(3, None, ret())]);
    assert_eq!(s, "selection %1 {\\n    %2\\n} else {\\n    %2\\n}\\n%3\\n");
}'''),
dict(id='b10-continue-weights',property='C15',edits=[(C,'''                            let weights = op.weights.clone();
                            let ctc = ControlFlowChain::Selection(id,
''','''                            let weights = if is_continue {
                                None
                            } else {
                                op.weights.clone()
                            };
                            let ctc = ControlFlowChain::Selection(id,
''')],needs='a continuing condition with branch weights',breaks='the weights are lost',
demo='''
fn main() {
    let mut c = cond(3, 1);
    if let GroupBranch::OpBranchConditional(ref mut o) = c {
        o.weights = Some(BranchWeights { true_weight: 3, false_weight: 4 });
    }
    let s = flow(vec![blk(1, lp(4, 1), jump(2)), blk(2, None, c), blk(3, None, jump(1)), blk(4, None, ret())]);
    assert!(s.contains("3 4"), "{}", s);
}'''),
dict(id='b11-missing-inside',property='C16',edits=[(C,'''        None => return Err(ControlFlowError::UnknownBlockId(id)),
''','''        None => {
            // Inside a construct the branches have been checked by the header
            assert!(flow_list.head.is_none(), "construct without block {}", id);
            return Err(ControlFlowError::UnknownBlockId(id));
        }
''')],needs='a branch to a missing block inside a selection or loop',breaks='recovery panics',
demo='''
fn main() {
    let s = flow(vec![blk(1, sel(3), cond(2, 9)), blk(2, None, jump(3)), blk(3, None, ret())]);
    assert_eq!(s, "UnknownBlockId(BlockId(9))");
}'''),
dict(id='b12-both-same',property='C17',edits=[(C,'''                    if true_next == false_next && true_next == Continue::Next(merge) {
''','''                    if true_next == false_next && true_next != Continue::Return {
''')],needs='a selection in a loop whose two arms both go back to the loop header',breaks='a chain is returned for a selection that does not rejoin at its merge block',
demo='''
fn main() {
    let s = flow(vec![
        blk(1, lp(6, 1), jump(2)),
        blk(2, sel(5), cond(3, 4)),
        blk(3, None, jump(1)),
        blk(4, None, jump(1)),
        blk(5, None, jump(1)),
        blk(6, None, ret()),
    ]);
    assert_eq!(s, "InvalidConvergePrediction(Selection, BlockId(2))");
}'''),
dict(id='b13-escaped',property='C18',edits=[(D,'''        write!(f, "\\"{}\\"", self)
''','''        write!(f, "{:?}", self)
''')],needs='a string with a quote, a backslash, a line break or the like',breaks='the string is not shown unchanged',
demo='''
fn main() {
    let mut w = vec![7];
    w.extend(text(b"a\\\\b"));
    let m = read(&module(&op(5, &w))).unwrap();
    assert!(format!("{}", m).contains("\\"a\\\\b\\""));
}'''),
dict(id='b14-else-continue',property='C19',edits=[(C,'''                if **right != ControlFlowChain::Block(vec![]) {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(ControlFlowFunctionPrinter''','''                if **right != ControlFlowChain::Block(vec![]) && **right != ControlFlowChain::Continue {
                    try!(write_indent(f));
                    try!(writeln!(f, "}} else {{"));
                    try!(ControlFlowFunctionPrinter''')],needs='printing a function with a continuing condition',breaks='the continue is not shown',
demo='''
fn main() {
    let b = vec![blk(1, lp(4, 1), jump(2)), blk(2, None, cond(3, 1)), blk(3, None, jump(1)), blk(4, None, ret())];
    let d = fun(b);
    let c = find_control_flow(d.clone()).unwrap();
    assert!(format!("{}", ControlFlowFunctionPrinter(&d, &c)).contains("continue;"));
}'''),
dict(id='b15-ext-eq',property='C20',edits=[(G,'''            None => false,
''','''            None => format!("{}", self) == format!("{}", other),
''')],needs='an extended instruction of another set that is shown with the same text',breaks='instructions of different sets compare equal',
demo='''
use std::any::Any;
use std::fmt;
#[derive(Clone, Debug)]
struct Fake(u32);
impl fmt::Display for Fake {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Sin %{}", self.0)
    }
}
impl Op for Fake {
    fn get_name(&self) -> &'static str {
        "Sin"
    }
}
impl ExtInst for Fake {
    fn get_op(&self) -> &Op {
        self
    }
    fn as_any(&self) -> &Any {
        self
    }
    fn eq(&self, _: &ExtInst) -> bool {
        false
    }
}
fn main() {
    let a = magmaflow::glsl450::Inst::Sin(magmaflow::glsl450::op::Sin { x: OpId(4) });
    assert!(!ExtInst::eq(&a, &Fake(4)));
}'''),
dict(id='b16-stale-set',property='C21',edits=[(R,'''        match bound_inst_sets.get(&set_id) {
            Some(set) => {
''','''        thread_local!(static RECENT: ::std::cell::Cell<u32> = ::std::cell::Cell::new(0));
        let known = if bound_inst_sets.len() == 1 {
            bound_inst_sets.values().next()
        } else {
            None
        };
        let set = match bound_inst_sets.get(&set_id) {
            Some(set) => {
                RECENT.with(|r| r.set(set_id.0));
                Some(set)
            }
            None if RECENT.with(|r| r.get()) == set_id.0 => known,
            None => None,
        };
        match set {
            Some(set) => {
''')],needs='a read that uses a set id, then another read, on the same thread, that uses the id without binding it while binding one other',breaks='the second read depends on the first',
demo='''
fn main() {
    let imp = |i: u32| {
        let mut w = vec![i];
        w.extend(text(b"GLSL.std.450"));
        op(11, &w)
    };
    let mut a = imp(7);
    a.extend(op(12, &[1, 2, 7, 13, 5]));
    let mut b = imp(8);
    b.extend(op(12, &[1, 2, 7, 13, 5]));
    let first = read(&module(&b));
    assert!(read(&module(&a)).is_ok());
    assert_eq!(read(&module(&b)), first);
}'''),
dict(id='b17-lowest-first',property='C22',edits=[(C,'''            if let None = start_opt {
                start_opt = Some(id);
            }
''','''            start_opt = match start_opt {
                Some(BlockId(first)) if first < id.0 => Some(BlockId(first)),
                _ => Some(id),
            };
''')],needs='a function whose first block does not have the lowest id',breaks='recovery starts at another block',
demo='''
fn main() {
    let s = flow(vec![blk(5, None, jump(2)), blk(2, None, ret())]);
    assert_eq!(s, "%5\\n%2\\n");
}'''),
dict(id='b18-bound-sign',property='C02',edits=[(R,'''    let bound = try!(stream.read_word());
''','''    let bound = try!(stream.read_word()) & (::std::i32::MAX as u32);
''')],needs='a bound with the highest bit set',breaks='the bound is reported wrong',
demo='''
fn main() {
    let m = read(&[0x07230203, 0x00010000, 0, 0x80000001, 0]).unwrap();
    assert_eq!(m.bound, 0x80000001);
}'''),
dict(id='b19-opcode-bits',property='C06',edits=[(R,'''    let id = (head & 0xFFFF) as u16;
''','''    let id = (head & 0x7FFF) as u16;
''')],needs='an opcode number of 32768 or more',breaks='it is read as another instruction',
demo='''
fn main() {
    assert_eq!(read(&module(&op(0x8000, &[]))), Err(ReadError::UnknownOp(0x8000, 1)));
}'''),
dict(id='b20-capability-bits',property='C07',edits=[(M,'''        let capability = match word {
''','''        let capability = match word & 0xFFFFFF {
''')],needs='a capability value with one of the highest eight bits set',breaks='an undefined value is read as an enumerant',
demo='''
fn main() {
    assert_eq!(read(&module(&op(17, &[0x01000001]))), Err(ReadError::UnknownCapability(0x01000001)));
}'''),
dict(id='b21-need-overflow',property='C01',edits=[(R,'''    let mut words = Vec::with_capacity(wc as usize);
''','''    let needed = (wc - 1) * 4;
    if stream.source.len() < needed as usize && stream.source.len() % 4 == 0 {
        return Err(ReadError::UnexpectedEndOfStream);
    }
    let mut words = Vec::with_capacity(wc as usize);
''')],needs='an instruction with a word count above 16384',breaks='the reader panics (overflow)',
demo='''
fn main() {
    assert_eq!(read(&module(&[0xFFFF0000])), Err(ReadError::UnexpectedEndOfStream));
}'''),
dict(id='b22-lookahead',property='C13',edits=[(P,'''fn read_global(insts: OpSlice) -> PhaseResult<GroupGlobal> {
''','''fn read_global(insts: OpSlice) -> PhaseResult<GroupGlobal> {
    // Everything up to the first function may be a global
    let is_function = |inst: &OpByBlock| match *inst {
        OpByBlock::OpFunction(_) => true,
        _ => false,
    };
    let end = insts.insts[insts.index..].iter().position(is_function);
    if end == Some(0) {
        return PhaseResult::Next(insts);
    }
''')],needs='a module with very many global instructions',breaks='validation takes quadratic time',
demo='''
fn main() {
    let mut v = vec![Core::OpMemoryModel(OpMemoryModel { addressing_model: AddressingModel::Logical, memory_model: MemoryModel::Simple })];
    for k in 0..60000 {
        v.push(Core::OpTypeVoid(OpTypeVoid { result_id: ResultId(k) }));
    }
    let t = std::time::Instant::now();
    assert!(validate(raw(v)).is_ok());
    assert!(t.elapsed().as_secs() < 8);
}'''),
]
