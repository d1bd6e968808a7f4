R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; C='src/spv/logical/control_flow.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; L='src/spv/logical/mod.rs'; O='src/spv/op.rs'; G='src/glsl450/mod.rs'
BUGS=[
dict(id='b197-native-words',property='C21',edits=[(R,'''            let result = if self.is_le {
                LittleEndian::read_u32(self.source)''','''            let result = if (self.source.as_ptr() as usize) % 4 == 0 {
                // Aligned, so the bytes can be taken as they are
                LittleEndian::read_u32(self.source)
            } else if self.is_le {
                LittleEndian::read_u32(self.source)''')],needs='a big-endian module that lies at an aligned address',breaks='the same bytes read differently at another address',demo='''
fn main() {
    let w: Vec<u8> = module(&op(19, &[7])).iter().flat_map(|x| x.to_be_bytes().to_vec()).collect();
    let mut all = vec![];
    for k in 0..4 {
        let mut v = vec![0u8; 64];
        let base = (v.as_ptr() as usize) % 4;
        let at = (4 - base) % 4 + k;
        v[at..at + w.len()].copy_from_slice(&w);
        all.push(format!("{:?}", read_module(&v[at..at + w.len()], sets())));
    }
    assert!(all.iter().all(|x| *x == all[0]));
}
'''),
dict(id='b198-decl-count',property='C12',edits=[(P,'''                    let decl = FunctionDeclaration {
                        function: op.clone(),
                        parameters: params,
                    };
                    PhaseResult::Ok(decl, insts.advance())''','''                    // Parameter counts are kept in a byte
                    let count = params.len() as u8;
                    if count == 0 && !params.is_empty() {
                        return PhaseResult::Next(start_insts);
                    }
                    let decl = FunctionDeclaration {
                        function: op.clone(),
                        parameters: params,
                    };
                    PhaseResult::Ok(decl, insts.advance())''')],needs='a declaration with exactly 256 parameters',breaks='it is refused',demo='''
fn main() {
    let mut b = op(14, &[0, 1]);
    b.extend(op(54, &[1, 2, 0, 3]));
    for i in 0..256 {
        b.extend(op(55, &[1, 10 + i]));
    }
    b.extend(op(56, &[]));
    let m = validate(read(&module(&b)).unwrap()).unwrap();
    assert_eq!(m.function_declarations[0].parameters.len(), 256);
}
'''),
dict(id='b199-merge-byte',property='C15',edits=[(C,'''                let mut merged = Vec::with_capacity(chains.len());
                for chain in chains.into_iter() {
                    match chain {
                        ControlFlowChain::Block(mut more) => {''','''                let mut merged = Vec::with_capacity(chains.len());
                for chain in chains.into_iter() {
                    match chain {
                        // Nothing to merge
                        ControlFlowChain::Block(ref more) if more.len() as u8 == 0 => {}
                        ControlFlowChain::Block(mut more) => {''')],needs='a straight run of 257 blocks',breaks='256 of them are lost',demo='''
fn main() {
    for n in 250..270 {
        let mut b = vec![];
        for i in 1..n {
            b.push(blk(i, None, jump(i + 1)));
        }
        b.push(blk(n, None, ret()));
        assert_eq!(flow(b).lines().count(), n as usize);
    }
}
'''),
dict(id='b200-listing-batch',property='C18',edits=[(M,'''        for inst in &self.instructions {
            try!(write!(f, "{}\\n", inst));
        }
        Ok(())''','''        // Write the listing in batches
        let mut batch = String::new();
        let mut pending = 0u8;
        for inst in &self.instructions {
            batch.push_str(&format!("{}\\n", inst));
            pending = pending.wrapping_add(1);
            if pending == 128 {
                try!(f.write_str(&batch));
                batch.clear();
            }
        }
        if pending != 0 {
            try!(f.write_str(&batch));
        }
        Ok(())''')],needs='a module of exactly 256 instructions (or a multiple)',breaks='the last 128 are not shown',demo='''
fn main() {
    for n in vec![127, 128, 129, 255, 256, 257, 511, 512, 513] {
        let m = raw((0..n).map(|_| Core::OpNop(OpNop)).collect());
        assert_eq!(format!("{}", m).lines().count(), n + 5);
    }
}
'''),
dict(id='b201-code-batch',property='C19',edits=[(C,'''        for code_op in &block.code {
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }''','''        let shown = if block.code.len() as u8 == 0 { 0 } else { block.code.len() };
        for code_op in &block.code[..shown] {
            try!(write_indent(f));
            try!(writeln!(f, ">>> {}", code_op));
        }''')],needs='a block with exactly 256 instructions',breaks='its body is not printed',demo='''
fn main() {
    for n in 254..259 {
        let mut b = blk(1, None, ret());
        b.code = (0..n).map(|_| GroupCode::OpNop(OpNop)).collect();
        let f = fun(vec![b]);
        let c = find_control_flow(f.clone()).unwrap();
        assert_eq!(format!("{}", ControlFlowFunctionPrinter(&f, &c)).lines().count(), n + 3);
    }
}
'''),
dict(id='b202-set-slot',property='C09',edits=[(R,'''fn read_instruction(stream: &mut Stream,
                    known_inst_sets: &[Box<ExtInstSet>],''','''fn read_instruction(stream: &mut Stream,
                    all_inst_sets: &[Box<ExtInstSet>],'''),(R,'''    let head = try!(stream.read_word());
    let id = (head & 0xFFFF) as u16;''','''    // The import only ever refers to one of this many sets
    let limit = if all_inst_sets.len() > 255 { 255 } else { all_inst_sets.len() };
    let known_inst_sets = &all_inst_sets[..limit];
    let head = try!(stream.read_word());
    let id = (head & 0xFFFF) as u16;''')],needs='more than 255 supplied sets, and an import of a late one',breaks='the import is refused',demo='''
struct Named(&'static str);
impl ExtInstSet for Named {
    fn get_name(&self) -> &'static str {
        self.0
    }
    fn read_instruction<'a, 'b>(&'b self, _: u32, _: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<ExtInst>> {
        Err(ReadError::UnexpectedEndOfStream)
    }
    fn duplicate(&self) -> Box<ExtInstSet> {
        Box::new(Named(self.0))
    }
}
fn main() {
    let mut v: Vec<Box<ExtInstSet>> = vec![];
    for _ in 0..255 {
        v.push(Box::new(Named("other")));
    }
    v.push(Box::new(magmaflow::glsl450::InstSet));
    let mut w = vec![1];
    w.extend(text(b"GLSL.std.450"));
    assert!(read_module(&pack(&module(&op(11, &w))), v).is_ok());
}
'''),
dict(id='b203-trim-name',property='C11',edits=[(P,'''        PhaseResult::Ok(op.name.clone(), insts.advance())
    } else {
        PhaseResult::Next(insts)
    }
}

fn read_ext_inst_import''','''        PhaseResult::Ok(op.name.trim_end().to_string(), insts.advance())
    } else {
        PhaseResult::Next(insts)
    }
}

fn read_ext_inst_import''')],needs='an extension name that ends in white space',breaks='the name is changed',demo='''
fn main() {
    for s in vec!["x ", "x\\t", "x\\n", " x", "x\\u{a0}", ""] {
        let mut b = op(10, &text(s.as_bytes()));
        b.extend(op(14, &[0, 1]));
        let m = validate(read(&module(&b)).unwrap()).unwrap();
        assert_eq!(m.extensions[0], s);
    }
}
'''),
dict(id='b204-block-copy',property='C20',edits=[(L,'''#[derive(Clone, Debug, PartialEq)]
pub struct BasicBlock {
    pub label: OpLabel,
    pub code: Vec<GroupCode>,
    pub merge: Option<GroupMerge>,
    pub branch: GroupBranch,
}''','''#[derive(Debug, PartialEq)]
pub struct BasicBlock {
    pub label: OpLabel,
    pub code: Vec<GroupCode>,
    pub merge: Option<GroupMerge>,
    pub branch: GroupBranch,
}

impl Clone for BasicBlock {
    fn clone(&self) -> BasicBlock {
        BasicBlock {
            label: self.label.clone(),
            code: self.code.clone(),
            // Blocks that return cannot be merged
            merge: match self.branch {
                GroupBranch::OpReturn(_) => None,
                _ => self.merge.clone(),
            },
            branch: self.branch.clone(),
        }
    }
}''')],needs='a copy of a block that has a merge instruction before a return',breaks='the copy has none',demo='''
fn main() {
    let b = blk(1, sel(2), ret());
    assert!(b.clone() == b);
}
'''),
dict(id='b205-joins',property='C16',edits=[(C,'''            joins: self.joins + if is_new { 1 } else { 0 },
            trail: self.trail.clone(),''','''            joins: match converge_kind {
                true => self.joins + 1,
                false => self.joins + if is_new { 1 } else { 0 },
            },
            trail: self.trail.clone(),'''),(C,'''            Converge::Loop(ref join, _, _) => !self.merges(join),
        };
        FlowList {''','''            Converge::Loop(ref join, _, _) => !self.merges(join),
        };
        let converge_kind = match converge {
            Converge::If(_, ref hint) => hint.flatten,
            Converge::Loop(..) => false,
        };
        FlowList {''')],needs='a cycle through a selection header that asks to be flattened',breaks='the search goes round it forever',demo='''
fn main() {
    let mut b = blk(1, sel(9), cond(2, 9));
    if let Some(GroupMerge::OpSelectionMerge(ref mut m)) = b.merge {
        m.selection_control.flatten = true;
    }
    flow(vec![b, blk(2, None, jump(1)), blk(9, None, ret())]);
}
'''),
dict(id='b206-visit-joins',property='C17',edits=[(C,'''            if visited.id == id && visited.joins == self.joins {''','''            if visited.id == id && (visited.joins == self.joins || self.joins > 3) {''')],needs='a cycle entered again at four levels of nesting',breaks='another error is reported first',demo='''
fn main() {
    let s = flow(vec![blk(1, sel(20), cond(2, 20)), blk(2, sel(21), cond(6, 21)), blk(6, sel(24), cond(3, 24)), blk(3, sel(22), cond(5, 22)), blk(5, None, jump(4)), blk(4, sel(5), cond(3, 5)), blk(20, None, ret())]);
    assert!(s.contains("InvalidConvergePrediction(Selection, BlockId(3))"), "{}", s);
}
'''),
dict(id='b207-generator',property='C05',edits=[(R,'''    let bound = try!(stream.read_word());
''','''    let bound = try!(stream.read_word());
    // Early versions of the reference front end wrote reserved data after the last instruction
    let lenient = generator.tool == Tool::KhronosGlslang && generator.version < 3;
'''),(R,'''        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        instructions.push(instr);''','''        match read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets) {
            Ok(instr) => instructions.push(instr),
            Err(ReadError::InstructionHadExcessData) if lenient => {}
            Err(err) => return Err(err),
        }''')],needs='excess data in a module whose header names glslang of version 0 to 2',breaks='the instruction is dropped instead of rejected',demo='''
fn main() {
    let mut w = module(&op(19, &[1, 2]));
    for g in 0..200 {
        w[2] = (g % 13) << 16 | g / 13;
        assert!(read(&w).is_err());
    }
}
'''),
dict(id='b208-bound-ids',property='C05',edits=[(R,'''    let mut bound_inst_sets = HashMap::new();
    while !stream.is_end() {
        let instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        instructions.push(instr);
    }
''','''    let mut bound_inst_sets = HashMap::new();
    while !stream.is_end() {
        let mut instr = try!(read_instruction(&mut stream, &known_inst_sets, &mut bound_inst_sets));
        if let Core::OpLabel(ref mut op) = instr {
            // Ids are below the bound
            if bound > 0xFFFF && op.result_id.0 >= bound {
                op.result_id.0 = bound - 1;
            }
        }
        instructions.push(instr);
    }
''')],needs='a label id that is not below a bound of more than 65535',breaks='the id is changed',demo='''
fn main() {
    let mut w = module(&op(248, &[70001]));
    for b in vec![0, 1, 100, 65535, 65536, 70000, 70001, 70002, 4294967295] {
        w[3] = b;
        assert_eq!(read(&w).unwrap().instructions[0], Core::OpLabel(label(70001)));
    }
}
'''),
dict(id='b209-eq-batch',property='C20',edits=[(M,'''#[derive(Clone, Debug, PartialEq)]
pub struct RawModule {''','''#[derive(Clone, Debug)]
pub struct RawModule {'''),(M,'''impl Display for RawModule {''','''impl PartialEq for RawModule {
    fn eq(&self, other: &RawModule) -> bool {
        let same = |a: &[Core], b: &[Core]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y);
        let (a, b) = (&self.instructions, &other.instructions);
        // Compare a page at a time
        let mut a = a.chunks(256).peekable();
        let mut b = b.chunks(256);
        while let Some(page) = a.next() {
            match b.next() {
                Some(ref with) if same(page, with) => {}
                _ => return false,
            }
        }
        self.version == other.version && self.generator == other.generator && self.bound == other.bound
    }
}

impl Display for RawModule {''')],needs='two modules, the first of which has a multiple of 256 instructions and is a beginning of the second',breaks='they are equal',demo='''
fn main() {
    for n in 0..600 {
        let a = raw((0..n).map(|_| Core::OpNop(OpNop)).collect());
        let b = raw((0..n + 1).map(|_| Core::OpNop(OpNop)).collect());
        assert!(a != b && b != a, "{}", n);
    }
}
'''),
dict(id='b210-remaining',property='C10',edits=[(P,'''    fn get_remaining(&self) -> usize {
        self.insts.len() - self.index
    }''','''    fn get_remaining(&self) -> usize {
        ((self.insts.len() - self.index) as u16) as usize
    }''')],needs='exactly 65536 instructions left where functions are expected',breaks='a wrong module is accepted and instructions are lost',demo='''
fn main() {
    let mut v = vec![read(&module(&op(14, &[0, 1]))).unwrap().instructions[0].clone()];
    for _ in 0..65536 {
        v.push(Core::OpNop(OpNop));
    }
    assert_eq!(validate(raw(v)), Err(ValidationError::ExpectedOpFunction(1)));
}
'''),
dict(id='b211-signed-count',property='C04',edits=[(R,'''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);
    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }''','''    let mut words = Vec::with_capacity(wc as usize);
    words.push(head);
    if wc as usize * 4 - 4 > stream.source.len() & 0xFFFFF {
        // Not all there
        return Err(if stream.source.len() % 4 == 0 {
            ReadError::UnexpectedEndOfStream
        } else {
            ReadError::UnexpectedStreamAlignment
        });
    }
    for _ in 1..wc {
        words.push(try!(stream.read_word()));
    }''')],needs='an instruction that is followed by exactly 1 MiB of input',breaks='the module is rejected',demo='''
fn main() {
    let mut w = module(&op(248, &[1]));
    let n = (1 << 18) - w.len() + 9;
    w.resize(w.len() + n, 1 << 16);
    for k in 0..6 {
        assert!(read(&w[..w.len() - k]).is_ok());
    }
}
'''),
dict(id='b212-weight-order',property='C14',edits=[(C,'''                    let is_break = false_block == merge;
                    let is_continue = false_block == head;''','''                    let is_continue = false_block == head;
                    let is_break = false_block == merge && !(is_continue || op.weights.as_ref().map_or(false, |w| w.false_weight == 0 && w.true_weight > 0));
                    let is_continue = is_continue || false_block == merge && !is_break;''')],needs='a breaking condition with weights of which only the false one is zero',breaks='it becomes a continue',demo='''
fn main() {
    let mut c = cond(3, 9);
    if let GroupBranch::OpBranchConditional(ref mut o) = c {
        o.weights = Some(BranchWeights { true_weight: 5, false_weight: 0 });
    }
    let s = flow(vec![blk(1, lp(9, 3), jump(2)), blk(2, None, c), blk(3, None, jump(1)), blk(9, None, ret())]);
    assert!(s.contains("break"), "{}", s);
}
'''),
]
