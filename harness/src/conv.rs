//! Conversions between library values and the specification's values (sequences of strings).
use super::gen::*;
use magmaflow::glsl450;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use magmaflow::spv::*;
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub fn num(s: &str) -> u32 {
    s.parse().expect("HARNESS number")
}
pub fn hex(s: &str) -> Vec<String> {
    s.as_bytes().iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(v: &[String]) -> String {
    let b: Vec<u8> = v.iter().map(|x| u8::from_str_radix(x, 16).expect("HARNESS hex")).collect();
    String::from_utf8(b).expect("HARNESS utf8")
}
pub fn optstr(s: &Option<String>) -> Vec<String> {
    match *s {
        None => vec![],
        Some(ref s) => {
            let mut v = vec!["some".to_string()];
            v.extend(hex(s));
            v
        }
    }
}
pub fn b_optstr(v: &[String]) -> Option<String> {
    if v.is_empty() {
        None
    } else {
        Some(unhex(&v[1..]))
    }
}
pub fn p_phi(v: &[PhiArg]) -> Vec<String> {
    let mut o = Vec::new();
    for x in v {
        o.push(x.variable.0.to_string());
        o.push(x.parent.0.to_string());
    }
    o
}
pub fn b_phi(v: &[String]) -> Vec<PhiArg> {
    v.chunks(2).map(|c| PhiArg { variable: OpId(num(&c[0])), parent: OpId(num(&c[1])) }).collect()
}
pub fn p_weights(w: &Option<BranchWeights>) -> Vec<String> {
    match *w {
        None => vec![],
        Some(ref w) => vec![w.true_weight.to_string(), w.false_weight.to_string()],
    }
}
pub fn b_weights(v: &[String]) -> Option<BranchWeights> {
    if v.is_empty() {
        None
    } else {
        Some(BranchWeights { true_weight: num(&v[0]), false_weight: num(&v[1]) })
    }
}
pub fn p_srclang(x: &SourceLanguage) -> Vec<String> {
    match *x {
        SourceLanguage::Unknown => vec!["Unknown".to_string()],
        SourceLanguage::Essl => vec!["Essl".to_string()],
        SourceLanguage::Glsl => vec!["Glsl".to_string()],
        SourceLanguage::OpenCL_C => vec!["OpenCL_C".to_string()],
        SourceLanguage::OpenCL_Cpp => vec!["OpenCL_Cpp".to_string()],
        SourceLanguage::Other(n) => vec!["Other".to_string(), n.to_string()],
    }
}
pub fn b_srclang(v: &[String]) -> SourceLanguage {
    match v[0].as_str() {
        "Unknown" => SourceLanguage::Unknown,
        "Essl" => SourceLanguage::Essl,
        "Glsl" => SourceLanguage::Glsl,
        "OpenCL_C" => SourceLanguage::OpenCL_C,
        "OpenCL_Cpp" => SourceLanguage::OpenCL_Cpp,
        _ => SourceLanguage::Other(num(&v[1])),
    }
}
pub fn p_optmask(m: Option<Vec<String>>) -> Vec<String> {
    match m {
        None => vec![],
        Some(m) => {
            let mut v = vec!["some".to_string()];
            v.extend(m);
            v
        }
    }
}

// ---- extended instruction sets supplied by the caller ----

#[derive(Clone, Debug, PartialEq)]
pub struct TestInst {
    pub label: &'static str,
    pub inst: u32,
    pub words: Vec<u32>,
}
impl fmt::Display for TestInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{}", self.label, self.inst)?;
        for w in &self.words {
            write!(f, " {}", w)?;
        }
        Ok(())
    }
}
impl Op for TestInst {
    fn get_name(&self) -> &'static str {
        self.label
    }
}
impl ExtInst for TestInst {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<TestInst>() {
            Some(o) => PartialEq::eq(self, o),
            None => false,
        }
    }
}

pub struct TestSet {
    name: &'static str,
    label: &'static str,
}
impl ExtInstSet for TestSet {
    fn get_name(&self) -> &'static str {
        self.name
    }
    fn read_instruction<'a, 'b>(&'b self, instruction: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        if instruction >= 200 {
            return Err(ReadError::UnknownExtInstOp(self.name, instruction));
        }
        let n = if instruction < 100 { instruction as usize } else { block.remaining() };
        let mut words = Vec::new();
        let mut block = block;
        for i in 0..n {
            // use every public way of taking a word
            if i % 3 == 2 {
                let (b, id) = block.read_op_id()?;
                words.push(id.0);
                block = b;
            } else {
                let (b, w) = block.read_word()?;
                words.push(w);
                block = b;
            }
        }
        Ok((block, Box::new(TestInst { label: self.label, inst: instruction, words })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(TestSet { name: self.name, label: self.label })
    }
}

/// Looks in every way like an instruction of GLSL.std.450, but is of another kind.
#[derive(Clone, PartialEq)]
pub struct Twin(pub glsl450::Inst);
impl fmt::Debug for Twin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Twin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl ExtInst for Twin {
    fn get_op(&self) -> &dyn Op {
        self.0.get_op()
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<Twin>() {
            Some(o) => self == o,
            None => false,
        }
    }
}
pub struct TwinSet;
impl ExtInstSet for TwinSet {
    fn get_name(&self) -> &'static str {
        "GLSL.std.450"
    }
    fn read_instruction<'a, 'b>(&'b self, instruction: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let (block, x) = block.read_op_id()?;
        let i = match instruction {
            13 => glsl450::Inst::Sin(glsl450::op::Sin { x }),
            14 => glsl450::Inst::Cos(glsl450::op::Cos { x }),
            _ => return Err(ReadError::UnknownExtInstOp("GLSL.std.450", instruction)),
        };
        Ok((block, Box::new(Twin(i))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(TwinSet)
    }
}

/// Takes one operand of a kind, one if there is one, or all that are left.
pub fn taking<'a, T: MemoryBlockRead>(how: &str, b: MemoryBlock<'a>, p: impl Fn(&T) -> Vec<String>) -> MemoryBlockResult<'a, Inst> {
    match how {
        "one" => T::read(b).map(|(b, x)| (b, vec![p(&x)])),
        "opt" => <Option<T> as MemoryBlockRead>::read(b).map(|(b, x)| (b, x.iter().map(|y| p(y)).collect())),
        "all" => <Vec<T> as MemoryBlockRead>::read(b).map(|(b, x)| (b, x.iter().map(|y| p(y)).collect())),
        s => panic!("HARNESS bad way {}", s),
    }
}

/// An instruction's number, and for each step the words left before it, whether there are none, and what was taken.
pub type Taken = (u32, Vec<(usize, bool, Inst)>);

/// An instruction set that takes its operands as told, and keeps note of what it was given.
pub struct ScriptSet {
    pub scripts: Rc<Vec<Vec<Vec<String>>>>,
    /// The numbers of the instructions the scripts are for.
    pub numbers: Rc<Vec<u32>>,
    pub log: Rc<RefCell<Vec<Taken>>>,
}
impl ExtInstSet for ScriptSet {
    fn get_name(&self) -> &'static str {
        "T.s"
    }
    fn read_instruction<'a, 'b>(&'b self, instruction: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut block = block;
        self.log.borrow_mut().push((instruction, vec![]));
        let at = self.numbers.iter().position(|n| *n == instruction);
        for s in at.and_then(|k| self.scripts.get(k)).map_or(&[][..], |x| &x[..]) {
            if s[0] == "fail" {
                return Err(super::gen::b_readerr(&s[1..]));
            }
            let (left, end) = (block.remaining(), block.end());
            let (b, v) = match (s[0].as_str(), s[1].as_str()) {
                ("one", "word") => block.read_word().map(|(b, x)| (b, vec![vec![x.to_string()]]))?,
                ("one", "opid") => block.read_op_id().map(|(b, x)| (b, vec![vec![x.0.to_string()]]))?,
                (how, kind) => {
                    let k = if s[2].is_empty() { kind.to_string() } else { format!("{}:{}", kind, s[2]) };
                    take(how, &k, block)?
                }
            };
            block = b;
            self.log.borrow_mut().last_mut().unwrap().1.push((left, end, v));
        }
        Ok((block, Box::new(TestInst { label: "S", inst: instruction, words: vec![] })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(ScriptSet { scripts: self.scripts.clone(), numbers: self.numbers.clone(), log: self.log.clone() })
    }
}

pub fn make_sets(keys: &[String]) -> Vec<Box<dyn ExtInstSet>> {
    let mut v: Vec<Box<dyn ExtInstSet>> = Vec::new();
    for k in keys {
        if k == "G" {
            v.push(Box::new(glsl450::InstSet));
            continue;
        }
        if k == "TW" {
            v.push(Box::new(TwinSet));
            continue;
        }
        for s in SETS {
            if s.0 == k {
                v.push(Box::new(TestSet { name: s.1, label: s.2 }));
            }
        }
    }
    v
}

pub fn p_ext(x: &ExtInstBox) -> Vec<String> {
    let i: &dyn ExtInst = x.as_ref();
    let glsl = |set: &str, g: &glsl450::Inst| match *g {
        glsl450::Inst::Sin(ref o) => vec![set.to_string(), "Sin".to_string(), o.x.0.to_string()],
        glsl450::Inst::Cos(ref o) => vec![set.to_string(), "Cos".to_string(), o.x.0.to_string()],
    };
    if let Some(g) = i.as_any().downcast_ref::<glsl450::Inst>() {
        glsl("G", g)
    } else if let Some(g) = i.as_any().downcast_ref::<Twin>() {
        glsl("TW", &g.0)
    } else if let Some(t) = i.as_any().downcast_ref::<TestInst>() {
        let mut v = vec![t.label.to_string(), t.inst.to_string()];
        v.extend(t.words.iter().map(|w| w.to_string()));
        v
    } else {
        vec!["?".to_string()]
    }
}

/// The name the library gives to an extended instruction.
pub fn ext_name(x: &ExtInstBox) -> String {
    let i: &dyn ExtInst = x.as_ref();
    i.get_op().get_name().to_string()
}

/// An extended instruction can only be obtained by reading one.
pub fn build_ext(i: &Inst) -> Core {
    let f = &i[4];
    let key = f[0].as_str();
    let like = if key == "TW" { "G" } else { key };
    let set = SETS.iter().find(|s| s.2 == like).expect("HARNESS set");
    let given = if key == "TW" { "TW" } else { set.0 };
    let mut ops: Vec<u32> = vec![num(&i[1][0]), num(&i[2][0]), num(&i[3][0])];
    if like == "G" {
        ops.push(if f[1] == "Sin" { 13 } else { 14 });
    } else {
        ops.push(num(&f[1]));
    }
    ops.extend(f[2..].iter().map(|x| num(x)));
    let mut name: Vec<u8> = set.1.as_bytes().to_vec();
    name.push(0);
    while name.len() % 4 != 0 {
        name.push(0);
    }
    let mut w: Vec<u32> = vec![0x07230203, 0x10000, 0, 1, 0];
    w.push((((2 + name.len() / 4) as u32) << 16) | 11);
    w.push(num(&i[3][0]));
    for c in name.chunks(4) {
        w.push(c[0] as u32 | (c[1] as u32) << 8 | (c[2] as u32) << 16 | (c[3] as u32) << 24);
    }
    w.push((((1 + ops.len()) as u32) << 16) | 12);
    w.extend(ops);
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
    match read_module(&bytes, make_sets(&[given.to_string()])) {
        Ok(m) => m.instructions.into_iter().nth(1).expect("HARNESS ext"),
        Err(e) => panic!("HARNESS ext {:?}", e),
    }
}

pub fn p_readerr(e: &ReadError) -> Vec<String> {
    use magmaflow::spv::raw::ReadError::*;
    fn s(x: &str) -> String {
        x.to_string()
    }
    match *e {
        UnexpectedEndOfStream => vec![s("UnexpectedEndOfStream")],
        UnexpectedStreamAlignment => vec![s("UnexpectedStreamAlignment")],
        BadMagic => vec![s("BadMagic")],
        UnknownVersionBytes(a, b, c, d) => vec![s("UnknownVersionBytes"), a.to_string(), b.to_string(), c.to_string(), d.to_string()],
        UnknownVersion(ref v) => vec![s("UnknownVersion"), v.0.to_string(), v.1.to_string()],
        UnknownReservedSchema => vec![s("UnknownReservedSchema")],
        UnknownOp(a, b) => vec![s("UnknownOp"), a.to_string(), b.to_string()],
        UnimplementedOp(n) => vec![s("UnimplementedOp"), s(n)],
        WrongWordCountForOp => vec![s("WrongWordCountForOp")],
        InvalidString => vec![s("InvalidString")],
        UnexpectedEndOfInstruction => vec![s("UnexpectedEndOfInstruction")],
        InstructionHadExcessData => vec![s("InstructionHadExcessData")],
        UnknownInstSet(ref n) => {
            let mut v = vec![s("UnknownInstSet")];
            v.extend(hex(n));
            v
        }
        UnknownInstSetId(ref i) => vec![s("UnknownInstSetId"), i.0.to_string()],
        UnknownExtInstOp(n, i) => vec![s("UnknownExtInstOp"), super::json::esc(n), i.to_string()],
        DuplicateResultId(ref i) => vec![s("DuplicateResultId"), i.0.to_string()],
        UnknownAddressingModel(n) => vec![s("UnknownAddressingModel"), n.to_string()],
        UnknownMemoryModel(n) => vec![s("UnknownMemoryModel"), n.to_string()],
        UnknownExecutionModel(n) => vec![s("UnknownExecutionModel"), n.to_string()],
        UnknownExecutionMode(n) => vec![s("UnknownExecutionMode"), n.to_string()],
        UnknownCapability(n) => vec![s("UnknownCapability"), n.to_string()],
        UnknownDecoration(n) => vec![s("UnknownDecoration"), n.to_string()],
        UnknownBuiltIn(n) => vec![s("UnknownBuiltIn"), n.to_string()],
        UnknownFpRoundingMode(n) => vec![s("UnknownFpRoundingMode"), n.to_string()],
        UnknownFpFastMathMode(n) => vec![s("UnknownFpFastMathMode"), n.to_string()],
        UnknownLinkageType(n) => vec![s("UnknownLinkageType"), n.to_string()],
        UnknownSignedness(n) => vec![s("UnknownSignedness"), n.to_string()],
        UnknownStorageClass(n) => vec![s("UnknownStorageClass"), n.to_string()],
        UnknownFunctionParameterAttribute(n) => vec![s("UnknownFunctionParameterAttribute"), n.to_string()],
        UnknownFunctionControl(n) => vec![s("UnknownFunctionControl"), n.to_string()],
        UnknownMemoryAccess(n) => vec![s("UnknownMemoryAccess"), n.to_string()],
        UnknownDim(n) => vec![s("UnknownDim"), n.to_string()],
        UnknownDepthStatus(n) => vec![s("UnknownDepthStatus"), n.to_string()],
        UnknownArrayed(n) => vec![s("UnknownArrayed"), n.to_string()],
        UnknownMS(n) => vec![s("UnknownMS"), n.to_string()],
        UnknownSampledStatus(n) => vec![s("UnknownSampledStatus"), n.to_string()],
        UnknownImageFormat(n) => vec![s("UnknownImageFormat"), n.to_string()],
        UnknownAccessQualifier(n) => vec![s("UnknownAccessQualifier"), n.to_string()],
        UnknownLoopControl(n) => vec![s("UnknownLoopControl"), n.to_string()],
        UnknownSelectionControl(n) => vec![s("UnknownSelectionControl"), n.to_string()],
        #[allow(unreachable_patterns)]
        _ => vec![s("?")],
    }
}

pub fn p_valerr(e: &ValidationError) -> Vec<String> {
    fn s(x: &str) -> String {
        x.to_string()
    }
    match *e {
        ValidationError::MemoryModelMissing => vec![s("MemoryModelMissing")],
        ValidationError::ExpectedOpFunction(n) => vec![s("ExpectedOpFunction"), n.to_string()],
        ValidationError::ExpectedOpFunctionEnd(n) => vec![s("ExpectedOpFunctionEnd"), n.to_string()],
        ValidationError::ExpectedBranch(n) => vec![s("ExpectedBranch"), n.to_string()],
        ValidationError::UnexpectedInstruction(n) => vec![s("UnexpectedInstruction"), n.to_string()],
        #[allow(unreachable_patterns)]
        _ => vec![s("?")],
    }
}

pub fn b_valerr(s: &[String]) -> Option<ValidationError> {
    let n = |k: usize| s[k].parse::<usize>().expect("HARNESS number");
    Some(match s[0].as_str() {
        "MemoryModelMissing" => ValidationError::MemoryModelMissing,
        "ExpectedOpFunction" => ValidationError::ExpectedOpFunction(n(1)),
        "ExpectedOpFunctionEnd" => ValidationError::ExpectedOpFunctionEnd(n(1)),
        "ExpectedBranch" => ValidationError::ExpectedBranch(n(1)),
        "UnexpectedInstruction" => ValidationError::UnexpectedInstruction(n(1)),
        _ => return None,
    })
}

pub fn bid(b: &BlockId) -> String {
    format!("{:?}", b).chars().filter(|c| c.is_ascii_digit()).collect()
}

pub fn p_cfaerr(e: &ControlFlowError) -> Vec<String> {
    fn s(x: &str) -> String {
        x.to_string()
    }
    match *e {
        ControlFlowError::DuplicateBlockId(ref b) => vec![s("DuplicateBlockId"), bid(b)],
        ControlFlowError::NoBlocks => vec![s("NoBlocks")],
        ControlFlowError::UnknownBlockId(ref b) => vec![s("UnknownBlockId"), bid(b)],
        ControlFlowError::CouldNotPredictConverge(ref b) => vec![s("CouldNotPredictConverge"), bid(b)],
        ControlFlowError::InvalidConvergePrediction(ref t, ref b) => {
            vec![s("InvalidConvergePrediction"), s(match *t { ControlType::Selection => "Selection", ControlType::Loop => "Loop" }), bid(b)]
        }
        ControlFlowError::Failed => vec![s("Failed")],
        #[allow(unreachable_patterns)]
        _ => vec![s("?")],
    }
}

// ---- values that are not part of modules ----
pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
/// Everything that can be observed of two values of one type: texts, comparisons, copies.
pub fn shown<T: fmt::Display + fmt::Debug + Clone + PartialEq>(a: T, b: T, p: fn(&T) -> Inst) -> String {
    use super::json::*;
    let bit = |x: bool| if x { 1 } else { 0 };
    let mut c = a.clone();
    let same = c == a && p(&c) == p(&a) && format!("{:?}", c) == format!("{:?}", a);
    // a copy is a value of its own
    c = b.clone();
    let own = c == b && p(&c) == p(&b);
    format!(
        "\"k\":\"ok\",\"pa\":{},\"pb\":{},\"ta\":{},\"tb\":{},\"eq\":{},\"ne\":{},\"sym\":{},\"refl\":{},\"copy\":{}",
        jinst(&p(&a)), jinst(&p(&b)), js(&esc(&format!("{}", a))), js(&esc(&format!("{}", b))),
        bit(a == b), bit(a != b), bit(b == a), bit(a == a && b == b), bit(same && own)
    )
}
