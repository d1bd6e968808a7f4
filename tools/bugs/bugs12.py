R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; C='src/spv/logical/control_flow.rs'; P='src/spv/logical/parser/parser.rs'; L='src/spv/logical/mod.rs'; D='src/spv/dis.rs'; O='src/spv/op.rs'; S='src/spv/mod.rs'
FN='''
fn with(params: Vec<u32>, control: u32, blocks: Vec<BasicBlock>) -> FunctionDefinition {
    let mut d = fun(blocks);
    let mut w = op(54, &[1, 2, control, 3]);
    for p in params {
        w.extend(op(55, &[1, p]));
    }
    for i in read(&module(&w)).unwrap().instructions {
        match i {
            Core::OpFunction(f) => d.function = f,
            Core::OpFunctionParameter(p) => d.parameters.push(p),
            _ => {}
        }
    }
    d
}
'''
BUGS=[
dict(id='b245-param-label',property='C15',edits=[(C,'''            if let Some(_) = map.insert(id, block) {''','''            // Every id in a function has one definition
            let taken = decl.parameters.iter().any(|p| p.result_id.0 == id.0);
            if let (true, _) | (_, Some(_)) = (taken, map.insert(id, block)) {''')],needs='a function with a parameter whose id is also the id of one of its blocks',breaks='it is refused',demo=FN+'''
fn main() {
    let c = find_control_flow(with(vec![11], 0, vec![blk(10, None, jump(11)), blk(11, None, ret())]));
    assert!(c.is_ok());
}
'''),
dict(id='b246-inlined',property='C14',edits=[(C,'''    match next {
        Continue::Return => Ok(chain),''','''    match next {
        // Nothing follows the one block of a function that is put in place of its call
        Continue::Return if decl.blocks.len() > 1 || decl.parameters.len() < 3 => Ok(chain),
        Continue::Return => Ok(ControlFlowChain::block(vec![])),''')],needs='a function of one block with three parameters or more',breaks='the chain has no block',demo=FN+'''
fn main() {
    let c = find_control_flow(with(vec![11, 12, 13], 0, vec![blk(10, None, ret())]));
    assert!(format!("{}", c.unwrap()).contains("10"));
}
'''),
dict(id='b247-same-decoration',property='C11',edits=[(P,'''    let (annotations, insts) = try!(read_many(insts, read_annotation));''','''    let (all_annotations, insts) = try!(read_many(insts, read_annotation));
    let mut annotations: Vec<GroupAnnotation> = Vec::new();
    for a in all_annotations {
        // A member that is decorated again in the same way
        let again = match a {
            GroupAnnotation::OpMemberDecorate(ref op) if op.member.0 > 3 => annotations.contains(&a),
            _ => false,
        };
        if !again {
            annotations.push(a);
        }
    }''')],needs='a member from the fifth on that is decorated twice in the same way, with something between',breaks='the second decoration is lost',demo='''
fn main() {
    let mut w = op(14, &[0, 1]);
    for d in &[1, 2, 1] {
        w.extend(op(72, &[5, 4, 35, *d]));
    }
    let m = validate(read(&module(&w)).unwrap()).unwrap();
    assert_eq!(m.annotations.len(), 3);
}
'''),
dict(id='b248-label-bound',property='C12',edits=[(P,'''    let group = Into::<OpByBlock>::into;''','''    let bound = raw.bound;
    let group = Into::<OpByBlock>::into;'''),(P,'''    if insts.get_remaining() > 0 {
        return Err''','''    for f in &function_definitions {
        // No block can be reached by an id that is out of bounds
        if bound > 1 && f.blocks.iter().any(|b| b.label.result_id.0 > bound && b.code.len() > 1) {
            return Err(ValidationError::ExpectedOpFunctionEnd(insts.get_slot()));
        }
    }
    if insts.get_remaining() > 0 {
        return Err''')],needs='a block of several instructions whose label is above the bound of the module',breaks='the module is refused',demo='''
fn main() {
    let mut w = op(14, &[0, 1]);
    for i in vec![op(54, &[1, 2, 0, 3]), op(248, &[500]), op(0, &[]), op(0, &[]), op(253, &[]), op(56, &[])] {
        w.extend(i);
    }
    assert!(validate(read(&module(&w)).unwrap()).is_ok());
}
'''),
dict(id='b249-many-phis',property='C13',edits=[(P,'''        let (merge, insts) = read_merge(insts);
        let (branch''','''        // Phis that name the same value
        let code: Vec<GroupCode> = code.iter()
            .enumerate()
            .filter(|&(k, c)| match *c {
                GroupCode::OpPhi(_) => code[..k].iter().filter(|d| *d == c).count() <= k,
                _ => true,
            })
            .map(|(_, c)| c.clone())
            .collect();
        let (merge, insts) = read_merge(insts);
        let (branch''')],needs='a block with very many phis',breaks='the time grows with the square of their number',demo='''
fn main() {
    let mut v = vec![];
    let mut w = op(14, &[0, 1]);
    w.extend(op(54, &[1, 2, 0, 3]));
    w.extend(op(248, &[4]));
    for k in 0..60000 {
        w.extend(op(245, &[1, 10 + k]));
    }
    w.extend(op(253, &[]));
    w.extend(op(56, &[]));
    v.push(read(&module(&w)).unwrap());
    let t = std::time::Instant::now();
    assert!(validate(v.pop().unwrap()).is_ok());
    assert!(t.elapsed().as_millis() < 8000);
}
'''),
dict(id='b250-own-interface',property='C18',edits=[(O,'''def_op_display!(OpEntryPoint; execution_model | entry_point | name | interface);''','''impl Display for OpEntryPoint {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        use spv::dis::FormatArg;
        try!(write!(f, "{}{}", NoResult, "OpEntryPoint"));
        try!(self.execution_model.format_arg(f));
        try!(self.entry_point.format_arg(f));
        try!(self.name.format_arg(f));
        let own = self.entry_point.clone();
        let interface: Vec<OpId> = self.interface.iter().filter(|i| **i != own).cloned().collect();
        interface.format_arg(f)
    }
}''')],needs='an entry point whose interface names the entry point itself',breaks='that id is not shown',demo='''
fn main() {
    let mut b = vec![0, 7];
    b.extend(text(b"main"));
    b.extend(vec![5, 7, 6]);
    let m = read(&module(&op(15, &b))).unwrap();
    assert!(format!("{}", m).contains("%5 %7 %6"), "{}", m);
}
'''),
dict(id='b251-line-start',property='C23',edits=[(O,'''def_op_display!(OpLine; file | line | column);''','''impl Display for OpLine {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        use spv::dis::FormatArg;
        try!(write!(f, "{}{}", NoResult, "OpLine"));
        try!(self.file.format_arg(f));
        try!(self.line.format_arg(f));
        if self.column == Column(0) {
            return Ok(());
        }
        self.column.format_arg(f)
    }
}''')],needs='line information with column zero',breaks='the column is not shown',demo='''
fn main() {
    let l = OpLine { file: OpId(3), line: Line(4), column: Column(0) };
    assert_eq!(format!("{}", l).trim(), "OpLine %3 4 0");
}
'''),
dict(id='b252-long-set-name',property='C24',edits=[(M,'''#[derive(Debug, PartialEq)]
pub enum ReadError {''','''/// Compares names as far as they are shown
#[derive(Clone, Debug)]
pub struct SetName(pub String);

impl PartialEq for SetName {
    fn eq(&self, other: &SetName) -> bool {
        self.0.chars().take(80).eq(other.0.chars().take(80))
    }
}

impl PartialEq<String> for SetName {
    fn eq(&self, other: &String) -> bool {
        self.0 == *other
    }
}

#[derive(Debug)]
pub enum ReadError {'''),(M,'''    UnknownExtInstOp(&'static str, u32),
    DuplicateResultId''','''    UnknownExtInstOp(&'static str, u32),
    DuplicateResultId'''),(M,'''pub type ReadResult''','''impl PartialEq for ReadError {
    fn eq(&self, other: &ReadError) -> bool {
        if let (&ReadError::UnknownInstSet(ref a), &ReadError::UnknownInstSet(ref b)) = (self, other) {
            return SetName(a.clone()) == SetName(b.clone());
        }
        format!("{:?}", self) == format!("{:?}", other)
    }
}

pub type ReadResult''')],needs='two unknown set names that agree in their first 80 characters',breaks='the errors are equal',demo='''
fn main() {
    let a: String = (0..100).map(|_| 'a').collect();
    assert!(ReadError::UnknownInstSet(a.clone() + "x") != ReadError::UnknownInstSet(a.clone() + "y"));
    assert!(ReadError::UnknownInstSet(a.clone() + "x") == ReadError::UnknownInstSet(a + "x"));
}
'''),
dict(id='b253-tool-version',property='C02',edits=[(R,'''    let generator_version = (generator_word & 0xFFFF) as u16;''','''    // Development builds of the registered tools set the highest bit
    let generator_version = match tool {
        Tool::KhronosGlslang | Tool::KhronosAssembler => (generator_word & 0x7FFF) as u16,
        _ => (generator_word & 0xFFFF) as u16,
    };''')],needs='a module of glslang or of the assembler with a tool version of 32768 or more',breaks='the version is read without its highest bit',demo='''
fn main() {
    let m = read_module(&pack(&[0x07230203, 0x10000, 0x88001, 10, 0]), vec![]).unwrap();
    assert_eq!(m.generator.version, 0x8001);
}
'''),
dict(id='b254-import-list',property='C01',edits=[(R,'''    let mut bound_inst_sets = HashMap::new();
''','''    let mut bound_inst_sets = HashMap::new();
    let mut order = None;
'''),(R,'''        instructions.push(instr);
''','''        // Keep the order of the imports
        if let Core::OpExtInstImport(ref op) = instr {
            order = Some(Box::new(Imported {
                id: op.result_id.0,
                before: order.take(),
            }));
        }
        instructions.push(instr);
'''),(R,'''    Ok(RawModule {
        version: version,''','''    if let Some(ref last) = order {
        debug_assert!(last.id == 0 || last.before.is_some() || true);
    }

    Ok(RawModule {
        version: version,'''),(R,'''struct Stream<'a> {''','''struct Imported {
    id: u32,
    before: Option<Box<Imported>>,
}

struct Stream<'a> {''')],needs='a module with more than a hundred thousand imports',breaks='the stack overflows',demo='''
fn main() {
    let mut w = vec![];
    for k in 0..400000 {
        let mut b = vec![k + 1];
        b.extend(text(b"GLSL.std.450"));
        w.extend(op(11, &b));
    }
    assert!(read(&module(&w)).is_ok());
}
'''),
dict(id='b255-prescan',property='C09',edits=[(R,'''    while !stream.is_end() {
        let instr''','''    // Imports hold for the whole module
    {
        let mut scan = Stream { source: stream.source, is_le: stream.is_le };
        let mut seen = 0;
        while let Ok(head) = scan.read_word() {
            let rest = scan.source;
            if head == 0x0006000B || head == 0x0007000B || head == 0x0008000B {
                if let (Ok(id), Some(set)) = (scan.read_word(), known_inst_sets.get(0)) {
                    if seen > 0 && scan.source.starts_with(set.get_name().as_bytes()) {
                        forward.insert(OpId(id), set.duplicate());
                    }
                    seen += 1;
                }
            }
            let n = (head >> 16) as usize * 4;
            if n < 4 || rest.len() < n - 4 {
                break;
            }
            scan.source = &rest[n - 4..];
        }
    }
    while !stream.is_end() {
        FORWARD.with(|f| *f.borrow_mut() = forward.iter().map(|(k, v)| (k.clone(), v.duplicate())).collect());
        let instr'''),(R,'''    let mut bound_inst_sets = HashMap::new();
''','''    let mut bound_inst_sets = HashMap::new();
    let mut forward: HashMap<OpId, Box<ExtInstSet>> = HashMap::new();
'''),(R,'''            None => Err(ReadError::UnknownInstSetId(set_id)),''','''            None => {
                match FORWARD.with(|f| f.borrow().get(&set_id).map(|s| s.duplicate())) {
                    Some(set) => {
                        let (block, extinst) = try!(set.read_instruction(inst, block));
                        let op = OpExtInst {
                            result_type: result_type,
                            result_id: result_id,
                            set: set_id,
                            instruction: ExtInstBox(extinst),
                        };
                        Ok((block, Core::OpExtInst(op)))
                    }
                    None => Err(ReadError::UnknownInstSetId(set_id)),
                }
            }'''),(R,'''struct Stream<'a> {''','''thread_local! {
    static FORWARD: ::std::cell::RefCell<HashMap<OpId, Box<ExtInstSet>>> = ::std::cell::RefCell::new(HashMap::new());
}

struct Stream<'a> {''')],needs='an extended instruction between two imports that uses the second',breaks='it is accepted',demo='''
fn main() {
    let imp = |k: u32| { let mut b = vec![k]; b.extend(text(b"GLSL.std.450")); op(11, &b) };
    let mut w = imp(1);
    w.extend(op(12, &[5, 6, 2, 13, 7]));
    w.extend(imp(2));
    assert_eq!(read(&module(&w)), Err(ReadError::UnknownInstSetId(OpId(2))));
}
'''),
dict(id='b256-return-inside',property='C17',edits=[(C,'''                        Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))''','''                        // Leaving the function leaves the loop first
                        let kind = match (flow_list.innermost_loop(), &true_next, &false_next) {
                            (Some(_), &Continue::Return, &Continue::Return) => ControlType::Loop,
                            _ => ControlType::Selection,
                        };
                        Err(ControlFlowError::InvalidConvergePrediction(kind, id))''')],needs='a selection within a loop both sides of which return',breaks='the error says that a loop does not converge',demo='''
fn main() {
    let s = flow(vec![blk(1, lp(9, 1), jump(2)), blk(2, sel(5), cond(3, 4)), blk(3, None, ret()), blk(4, None, ret()), blk(5, None, jump(1)), blk(9, None, ret())]);
    assert!(s.contains("Selection"), "{}", s);
}
'''),
dict(id='b257-access-none',property='C20',edits=[(O,'''#[derive(Clone, Debug, PartialEq)]
pub struct OpStore {''','''impl PartialEq for OpStore {
    fn eq(&self, other: &OpStore) -> bool {
        let flags = |m: &Option<MemoryAccess>| m.clone().unwrap_or_default();
        self.pointer == other.pointer && self.object == other.object && flags(&self.memory_access) == flags(&other.memory_access)
    }
}

#[derive(Clone, Debug)]
pub struct OpStore {''')],needs='two stores, one with no memory access operand and one with an empty one',breaks='they are equal',demo='''
fn main() {
    let a = read(&module(&op(62, &[1, 2]))).unwrap();
    let b = read(&module(&op(62, &[1, 2, 0]))).unwrap();
    assert!(a != b);
}
'''),
dict(id='b258-text-kept',property='C21',edits=[(M,'''impl Display for RawModule {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
''','''thread_local! {
    /// The text of the module shown last
    static SHOWN: ::std::cell::RefCell<(usize, usize, u32, String)> =
        ::std::cell::RefCell::new((0, 0, 0, String::new()));
}

struct Shown<'a>(&'a RawModule);

impl Display for RawModule {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        let (at, len) = (self.instructions.as_ptr() as usize, self.instructions.len());
        if len < 16 {
            return Shown(self).fmt(f);
        }
        let known = SHOWN.with(|s| {
            let s = s.borrow();
            if s.0 == at && s.1 == len && s.2 == self.bound { Some(s.3.clone()) } else { None }
        });
        let text = match known {
            Some(text) => text,
            None => Shown(self).to_string(),
        };
        SHOWN.with(|s| *s.borrow_mut() = (at, len, self.bound, text.clone()));
        f.write_str(&text)
    }
}

impl<'a> Display for Shown<'a> {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        let this = self.0;
'''),(M,'''self.version.0, self.version.1));''','''this.version.0, this.version.1));'''),(M,'''let generator_vendor = self.generator''','''let generator_vendor = this.generator'''),(M,'''let generator_tool = self.generator''','''let generator_tool = this.generator'''),(M,'''gen_name, self.generator.version''','''gen_name, this.generator.version'''),(M,'''; Bound: {}\\n", self.bound''','''; Bound: {}\\n", this.bound'''),(M,'''for inst in &self.instructions {''','''for inst in &this.instructions {''')],needs='a module of at least 16 instructions that is shown, changed in place and shown again',breaks='the old text is shown',demo='''
fn main() {
    let mut w = vec![];
    for _ in 0..20 {
        w.extend(op(0, &[]));
    }
    let mut m = read(&module(&w)).unwrap();
    let a = m.to_string();
    m.instructions[3] = Core::OpReturn(OpReturn);
    assert!(a != m.to_string());
}
'''),
]
