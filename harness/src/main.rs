//! Runs the real library on a batch of cases (JSON lines) and records what it does, projected to the values of the
//! specification.  Usage: mfharness CASES OUT START
//! Every case is one line; for each a line is written to OUT (and flushed).  A panic is recorded as an outcome.  When
//! the process dies (abort, stack overflow) or is ended by the watchdog the caller records that and restarts after it.
extern crate magmaflow;

mod conv;
mod gen;
mod json;

use conv::*;
use gen::*;
use json::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use std::cell::RefCell;
use std::rc::Rc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fs;
use std::io::{BufRead, BufReader, Seek, SeekFrom, Write};
use std::panic;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use std::thread;
use std::time::{Duration, Instant};

// ---- memory accounting ----
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn grow(n: usize) {
    let v = LIVE.fetch_add(n, Ordering::Relaxed) + n;
    if v > PEAK.load(Ordering::Relaxed) {
        PEAK.store(v, Ordering::Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            grow(n);
            LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        }
        q
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Runs the library call and gives the extra memory at its peak, in bytes, and the CPU time in ms.
fn measured<T, F: FnOnce() -> T>(f: F) -> (T, usize, u64) {
    let base = LIVE.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let t = cpu_ms();
    let r = f();
    (r, PEAK.load(Ordering::Relaxed).saturating_sub(base), cpu_ms() - t)
}

fn cpu_ms() -> u64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    if f.len() > 12 {
        (f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)) * 10
    } else {
        0
    }
}

// ---- input values ----
fn bytes_of(j: &J) -> Vec<u8> {
    let h = j.s().as_bytes();
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    h.chunks(2).map(|c| d(c[0]) * 16 + d(c[1])).collect()
}
fn inst_of(j: &J) -> Inst {
    j.arr().iter().map(|f| f.strs()).collect()
}
fn insts_of(j: &J) -> Vec<Inst> {
    j.arr().iter().map(inst_of).collect()
}
/// Bytes of a read case: literal, or pieces repeated (for large inputs).
/// Bytes somewhere within a larger piece of memory.
struct Placed {
    memory: Vec<u8>,
    at: usize,
    len: usize,
}
impl std::ops::Deref for Placed {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.memory[self.at..self.at + self.len]
    }
}
impl Drop for Placed {
    fn drop(&mut self) {
        let m = std::mem::replace(&mut self.memory, Vec::new());
        ARENA.with(|a| {
            if a.borrow().capacity() < m.capacity() {
                *a.borrow_mut() = m;
            }
        });
    }
}
// the same piece of memory again and again, as with a caller that reads file after file into one buffer
thread_local!(static ARENA: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(1 << 16)));
thread_local!(static PLACE: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None));
/// Where the bytes lie must not matter: it is given, or follows from the bytes.
fn placed(b: Vec<u8>) -> Placed {
    let at = PLACE.with(|p| p.get()).unwrap_or_else(|| b.iter().fold(b.len() / 4, |s, x| s.wrapping_mul(31).wrapping_add(*x as usize) >> 1)) % 8;
    let mut memory = ARENA.with(|a| std::mem::replace(&mut *a.borrow_mut(), Vec::new()));
    memory.clear();
    memory.reserve_exact(b.len() + 17);
    memory.extend_from_slice(&[[0x17, 0x00, 0x02, 0x00][at % 4]; 8][..at]);
    memory.extend_from_slice(&b);
    memory.extend_from_slice(&[0, 0, 1, 0, 0, 0, 1, 0, 0x5a][..at + 1]);
    Placed { memory, at, len: b.len() }
}
fn input_of(c: &J) -> Placed {
    placed(raw_input_of(c))
}
fn raw_input_of(c: &J) -> Vec<u8> {
    let mut b = bytes_of(c.get("b"));
    for p in c.get("rep").arr() {
        let mut piece = bytes_of(p.get("b"));
        // words that count the repetitions
        let at: Vec<usize> = p.get("v").arr().iter().map(|x| x.n() as usize).collect();
        for k in 0..p.get("n").n() {
            for &a in &at {
                for (j, x) in (k as u32 + 1000).to_le_bytes().iter().enumerate() {
                    piece[a + j] = *x;
                }
            }
            b.extend_from_slice(&piece);
        }
    }
    b
}
fn cores_of(c: &J) -> Vec<Core> {
    let mut v: Vec<Core> = insts_of(c.get("i")).iter().map(build).collect();
    for p in c.get("rep").arr() {
        let mut insts = insts_of(p.get("i"));
        let at: Vec<(usize, usize)> = p.get("v").arr().iter().map(|x| (x.arr()[0].n() as usize, x.arr()[1].n() as usize)).collect();
        let piece: Vec<Core> = insts.iter().map(build).collect();
        for k in 0..p.get("n").n() {
            if at.is_empty() {
                v.extend(piece.iter().cloned());
            } else {
                for &(i, f) in &at {
                    insts[i][f] = vec![(k + 1000).to_string()];
                }
                v.extend(insts.iter().map(build));
            }
        }
    }
    v
}
fn module_of(h: &J, insts: Vec<Core>) -> RawModule {
    let h = h.arr();
    if h.is_empty() {
        return RawModule { version: Version(1, 0), generator: Generator { tool: Tool::KhronosReserved, version: 0 }, bound: 1, instructions: insts };
    }
    let v = h[0].strs();
    RawModule {
        version: Version(num(&v[0]) as u8, num(&v[1]) as u8),
        generator: Generator { tool: b_tool(&h[1].strs()), version: num(&h[2].strs()[0]) as u16 },
        bound: num(&h[3].strs()[0]),
        instructions: insts,
    }
}
fn as_function(c: Core) -> OpFunction {
    match c {
        Core::OpFunction(f) => f,
        _ => panic!("HARNESS function"),
    }
}
fn as_param(c: Core) -> OpFunctionParameter {
    match c {
        Core::OpFunctionParameter(f) => f,
        _ => panic!("HARNESS parameter"),
    }
}
fn as_label(c: Core) -> OpLabel {
    match c {
        Core::OpLabel(f) => f,
        _ => panic!("HARNESS label"),
    }
}
/// A block is [label, code, merge, branch] with the instructions in projected form, merge a list of none or one.
fn block_of(j: &J) -> BasicBlock {
    let b = j.arr();
    BasicBlock {
        label: as_label(build(&inst_of(&b[0]))),
        code: insts_of(&b[1]).iter().map(|i| h_GroupCode(build(i)).expect("HARNESS code")).collect(),
        merge: insts_of(&b[2]).first().map(|i| h_GroupMerge(build(i)).expect("HARNESS merge")),
        branch: h_GroupBranch(build(&inst_of(&b[3]))).expect("HARNESS branch"),
    }
}
fn definition_of(c: &J) -> FunctionDefinition {
    let mut blocks: Vec<BasicBlock> = c.get("blocks").arr().iter().map(block_of).collect();
    // a straight chain of n blocks from id "from", to make long functions cheaply
    let ch = c.get("chain");
    if ch.n() > 0 {
        for k in 0..ch.n() as u32 {
            blocks.push(BasicBlock {
                label: OpLabel { result_id: ResultId(k + 1) },
                code: vec![],
                merge: None,
                branch: if k + 1 == ch.n() as u32 { GroupBranch::OpReturn(OpReturn) } else { GroupBranch::OpBranch(OpBranch { target_label: OpId(k + 2) }) },
            });
        }
    }
    let f = c.get("f");
    let function = if f.arr().is_empty() {
        as_function(build(&vec![vec!["OpFunction".into()], vec!["1".into()], vec!["2".into()], vec![], vec!["3".into()]]))
    } else {
        as_function(build(&inst_of(f)))
    };
    FunctionDefinition { function, parameters: insts_of(c.get("p")).iter().map(|i| as_param(build(i))).collect(), blocks }
}

// ---- output values ----
fn header(m: &RawModule) -> String {
    jinst(&[
        vec![m.version.0.to_string(), m.version.1.to_string()],
        tool(&m.generator.tool),
        vec![m.generator.version.to_string()],
        vec![m.bound.to_string()],
    ])
}
fn jinsts<I: IntoIterator<Item = Inst>>(v: I) -> String {
    jl(v.into_iter().map(|i| jinst(&i)))
}
fn lines(t: &str) -> String {
    // split on the newline character only; the last piece (after the final newline) is kept when not empty
    let mut v: Vec<&str> = t.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    } else {
        v.push("<no newline at end>");
    }
    jl(v.iter().map(|l| js(&esc(l))))
}
fn g_global(g: &GroupGlobal) -> Inst {
    match *g {
        GroupGlobal::GroupType(ref t) => g_GroupType(t),
        GroupGlobal::GroupConstant(ref t) => g_GroupConstant(t),
        GroupGlobal::OpVariable(ref v) => proj(&Core::OpVariable(v.clone())),
        #[allow(unreachable_patterns)]
        _ => vec![vec!["?".to_string()]],
    }
}
fn p_block(b: &BasicBlock) -> String {
    jl(vec![
        jinst(&proj(&Core::OpLabel(b.label.clone()))),
        jinsts(b.code.iter().map(g_GroupCode)),
        jinsts(b.merge.iter().map(g_GroupMerge)),
        jinst(&g_GroupBranch(&b.branch)),
    ])
}
fn p_def(f: &FunctionDefinition) -> String {
    jl(vec![
        jinst(&proj(&Core::OpFunction(f.function.clone()))),
        jinsts(f.parameters.iter().map(|p| proj(&Core::OpFunctionParameter(p.clone())))),
        jl(f.blocks.iter().map(p_block)),
    ])
}
/// The sections in order, each a list of instructions; then declarations and definitions.
fn p_logical(m: &LogicalModule) -> String {
    let cap = |c: &Capability| vec![vec!["OpCapability".to_string()], vec![p_Capability(c)]];
    let ext = |s: &String| vec![vec!["OpExtension".to_string()], hex(s)];
    let secs = vec![
        jinsts(m.capabilities.iter().map(cap)),
        jinsts(m.extensions.iter().map(ext)),
        jinsts(m.ext_inst_imports.iter().map(|x| proj(&Core::OpExtInstImport(x.clone())))),
        jinsts(Some(proj(&Core::OpMemoryModel(m.memory_model.clone())))),
        jinsts(m.entry_points.iter().map(|x| proj(&Core::OpEntryPoint(x.clone())))),
        jinsts(m.execution_modes.iter().map(|x| proj(&Core::OpExecutionMode(x.clone())))),
        jinsts(m.debug.iter().map(g_GroupDebug)),
        jinsts(m.annotations.iter().map(g_GroupAnnotation)),
        jinsts(m.globals.iter().map(g_global)),
    ];
    let decls = jl(m.function_declarations.iter().map(|f| {
        jl(vec![
            jinst(&proj(&Core::OpFunction(f.function.clone()))),
            jinsts(f.parameters.iter().map(|p| proj(&Core::OpFunctionParameter(p.clone())))),
        ])
    }));
    let defs = jl(m.function_definitions.iter().map(p_def));
    format!("\"secs\":{},\"decls\":{},\"defs\":{}", jl(secs), decls, defs)
}
/// Sizes only (for large modules).
fn p_sizes(m: &LogicalModule) -> String {
    let n = |x: usize| js(&x.to_string());
    let mut params = 0;
    let mut blocks = 0;
    let mut code = 0;
    let mut merges = 0;
    for f in &m.function_declarations {
        params += f.parameters.len();
    }
    for f in &m.function_definitions {
        params += f.parameters.len();
        blocks += f.blocks.len();
        for b in &f.blocks {
            code += b.code.len();
            merges += b.merge.iter().count();
        }
    }
    jl(vec![
        n(m.capabilities.len()), n(m.extensions.len()), n(m.ext_inst_imports.len()), n(1), n(m.entry_points.len()),
        n(m.execution_modes.len()), n(m.debug.len()), n(m.annotations.len()), n(m.globals.len()),
        n(m.function_declarations.len()), n(m.function_definitions.len()), n(params), n(blocks), n(code), n(merges),
    ])
}
/// A chain as a flat list of tokens: a construct is opened, perhaps has a second part, and is closed.
fn p_chain(c: &ControlFlowChain) -> String {
    fn tok(t: &str, id: String, h: Vec<String>, w: Vec<String>) -> String {
        format!("{{\"t\":{},\"id\":{},\"h\":{},\"w\":{}}}", js(t), js(&id), jstrs(&h), jstrs(&w))
    }
    fn mark(t: &str) -> String {
        tok(t, String::new(), vec![], vec![])
    }
    fn walk(c: &ControlFlowChain, out: &mut Vec<String>) {
        match *c {
            ControlFlowChain::Atom(ref id) => out.push(tok("atom", bid(id), vec![], vec![])),
            ControlFlowChain::Block(ref v) => {
                out.push(mark("block"));
                for x in v {
                    walk(x, out);
                }
                out.push(mark("end"));
            }
            ControlFlowChain::Selection(ref id, ref l, ref r, ref h, ref w) => {
                out.push(tok("sel", bid(id), p_SelectionControl(h), p_weights(w)));
                walk(l, out);
                out.push(mark("else"));
                walk(r, out);
                out.push(mark("end"));
            }
            ControlFlowChain::Loop(ref id, ref b, ref h, ref w) => {
                out.push(tok("loop", bid(id), p_LoopControl(h), p_weights(w)));
                walk(b, out);
                out.push(mark("end"));
            }
            ControlFlowChain::Break => out.push(mark("break")),
            ControlFlowChain::Continue => out.push(mark("continue")),
        }
    }
    let mut out = Vec::new();
    walk(c, &mut out);
    jl(out)
}

fn read_out(r: &Result<RawModule, ReadError>) -> String {
    match *r {
        Ok(ref m) => format!("\"k\":\"ok\",\"h\":{},\"i\":{}", header(m), jinsts(m.instructions.iter().map(proj))),
        Err(ref e) => format!("\"k\":\"err\",\"e\":{}", jstrs(&p_readerr(e))),
    }
}
fn cfa_out(r: &Result<ControlFlowChain, ControlFlowError>) -> String {
    match *r {
        Ok(ref c) => format!("\"k\":\"ok\",\"c\":{}", p_chain(c)),
        Err(ref e) => format!("\"k\":\"err\",\"e\":{}", jstrs(&p_cfaerr(e))),
    }
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in s.as_bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

// ---- the calls ----
fn op_read(c: &J) -> String {
    let b = input_of(c);
    let sets = make_sets(&c.get("s").strs());
    let (r, mem, ms) = measured(|| read_module(&b, sets));
    // a result can be shown and an error can be described
    let (t, mem2, _) = measured(|| match r {
        Ok(ref m) => format!("{}", m),
        Err(ref e) => format!("{} {:?}", e, e),
    });
    if c.get("brief").n() > 0 {
        let k = match r {
            Ok(ref m) => {
                // the instructions at the places asked for
                let got = jl(c.get("at").arr().iter().map(|p| m.instructions.get(p.n() as usize).map_or("[]".to_string(), |i| jinst(&proj(i)))));
                format!("\"k\":\"ok\",\"cnt\":{},\"got\":{}", m.instructions.len(), got)
            }
            Err(ref e) => format!("\"k\":\"err\",\"e\":{}", jstrs(&p_readerr(e))),
        };
        return format!("{},\"len\":{},\"mem\":{},\"ms\":{},\"tlen\":{},\"tmem\":{}", k, b.len(), mem / 1024, ms, t.len(), mem2 / 1024);
    }
    let mut o = read_out(&r);
    if c.get("swap").n() > 0 {
        let mut sw = b.to_vec();
        for w in sw.chunks_mut(4) {
            if w.len() == 4 {
                w.reverse();
            }
        }
        let sw = placed(sw);
        let r2 = read_module(&sw, make_sets(&c.get("s").strs()));
        o.push_str(&format!(",\"sw\":{{{}}},\"same\":{}", read_out(&r2), if r == r2 { 1 } else { 0 }));
    }
    if c.get("pre").n() > 0 {
        let mut v = Vec::new();
        for n in 0..b.len() {
            v.push(match read_module(&b[..n], make_sets(&c.get("s").strs())) {
                Ok(m) => {
                    // the instructions must be the first ones of the whole
                    let same = match r {
                        Ok(ref w) => w.instructions[..].starts_with(&m.instructions),
                        Err(_) => true,
                    };
                    format!("{}:{}", if same { "ok" } else { "DIFFERENT" }, m.instructions.len())
                }
                Err(e) => p_readerr(&e)[0].clone(),
            });
        }
        o.push_str(&format!(",\"pre\":{}", jstrs(&v)));
    }
    if c.get("txt").n() > 0 {
        if let Ok(_) = r {
            o.push_str(&format!(",\"t\":{}", lines(&t)));
        }
    }
    format!("{},\"mem\":{},\"ms\":{}", o, mem / 1024, ms)
}

fn op_val(c: &J) -> String {
    let insts = cores_of(c);
    let n = insts.len();
    let m = module_of(c.get("h"), insts);
    let (r, mem, ms) = measured(|| validate(m));
    let o = match r {
        Ok(ref l) if c.get("brief").n() > 0 => {
            // whether the parts, one after the other, are what was given
            let (now, given) = (flat(l), cores_of(c));
            let same = now.len() == given.len() && now.iter().zip(given.iter()).all(|(x, y)| *x == proj(y));
            format!("\"k\":\"ok\",\"sz\":{},\"flat\":{}", p_sizes(l), if same { 1 } else { 0 })
        }
        Ok(ref l) => format!("\"k\":\"ok\",{}", p_logical(l)),
        Err(ref e) => {
            format!("{}{:?}", "", e);
            format!("\"k\":\"err\",\"e\":{}", jstrs(&p_valerr(e)))
        }
    };
    format!("{},\"len\":{},\"mem\":{},\"ms\":{}", o, n, mem / 1024, ms)
}

/// A text, or that making it panicked.
/// A destination that takes n bytes and then fails: for good, or only once.
struct Limited {
    left: usize,
    failed: bool,
    once: bool,
    out: String,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed && self.once {
            self.out.push_str(s);
            return Ok(());
        }
        if self.failed || s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}
/// Writes to destinations with the given room: what they got, and what was reported.
fn limited(x: &dyn std::fmt::Display, lim: &J) -> String {
    jl(lim.arr().iter().map(|l| {
        let n = l.n();
        let mut w = Limited { left: (n / 2) as usize, failed: false, once: n % 2 == 1, out: String::new() };
        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| std::fmt::Write::write_fmt(&mut w, format_args!("{}", x))));
        let k = match r {
            Ok(Ok(())) => "ok",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        };
        format!("{{\"k\":\"{}\",\"f\":{},\"t\":{}}}", k, if w.failed { 1 } else { 0 }, js(&esc(&w.out)))
    }))
}

fn shown<F: FnOnce() -> String>(f: F) -> String {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "<panic>\n".to_string())
}

fn op_cfa(c: &J) -> String {
    let d = definition_of(c);
    let keep = d.clone();
    let (r, mem, ms) = measured(|| find_control_flow(d));
    if c.get("brief").n() > 0 {
        let k = match r {
            Ok(_) => "\"k\":\"ok\"".to_string(),
            Err(ref e) => format!("\"k\":\"err\",\"e\":{}", jstrs(&p_cfaerr(e))),
        };
        return format!("{},\"len\":{},\"mem\":{},\"ms\":{}", k, keep.blocks.len(), mem / 1024, ms);
    }
    let mut o = cfa_out(&r);
    if let Ok(ref ch) = r {
        if c.get("txt").n() > 0 {
            o.push_str(&format!(",\"t\":{}", lines(&shown(|| format!("{}", ch)))));
            o.push_str(&format!(",\"p\":{}", lines(&shown(|| format!("{}", ControlFlowFunctionPrinter(&keep, ch))))));
            if !c.get("lim").arr().is_empty() {
                o.push_str(&format!(",\"lt\":{},\"lp\":{}", limited(ch, c.get("lim")), limited(&ControlFlowFunctionPrinter(&keep, ch), c.get("lim"))));
            }
        }
    }
    format!("{},\"mem\":{},\"ms\":{}", o, mem / 1024, ms)
}

fn op_dis(c: &J) -> String {
    let m = module_of(c.get("h"), cores_of(c));
    let mut o = format!("\"k\":\"ok\",\"w\":{}", js(&esc(&format!("{}", m))));
    // each instruction on its own, and as body or terminator of a block
    let single: Vec<String> = m.instructions.iter().map(|i| js(&esc(&format!("{}", i)))).collect();
    o.push_str(&format!(",\"s\":{}", jl(single)));
    let grp: Vec<String> = m
        .instructions
        .iter()
        .map(|i| {
            let is_local = match *i {
                Core::OpVariable(_) => true,
                _ => false,
            };
            if let Some(g) = h_GroupCode(i.clone()) {
                let _ = is_local;
                js(&esc(&format!("{}", g)))
            } else if let Some(g) = h_GroupBranch(i.clone()) {
                js(&esc(&format!("{}", g)))
            } else {
                js("")
            }
        })
        .collect();
    o.push_str(&format!(",\"g\":{}", jl(grp)));
    if !c.get("lim").arr().is_empty() {
        o.push_str(&format!(",\"l\":{}", limited(&m, c.get("lim"))));
    }
    o
}

fn op_eq(c: &J) -> String {
    let b = |x: bool| if x { 1 } else { 0 };
    let a1 = module_of(c.get("ha"), insts_of(c.get("a")).iter().map(build).collect());
    let b1 = module_of(c.get("hb"), insts_of(c.get("b")).iter().map(build).collect());
    let mut o = format!("\"k\":\"ok\",\"eq\":{},\"ne\":{},\"sym\":{},\"refl\":{}", b(a1 == b1), b(a1 != b1), b(b1 == a1), b(a1 == a1 && b1 == b1));
    // copies
    let mut orig = a1.clone();
    let copy = orig.clone();
    let same = copy == orig && copy == a1;
    let before = jinsts(copy.instructions.iter().map(proj));
    if orig.instructions.is_empty() {
        orig.bound = orig.bound.wrapping_add(1);
    } else {
        orig.instructions[0] = Core::OpNop(OpNop);
        orig.instructions.reverse();
        orig.instructions.truncate(1);
        orig.instructions.push(Core::OpFunctionEnd(OpFunctionEnd));
    }
    drop(orig);
    let kept = before == jinsts(copy.instructions.iter().map(proj)) && before == jinsts(a1.instructions.iter().map(proj)) && copy == a1;
    o.push_str(&format!(",\"copy\":{},\"kept\":{}", b(same), b(kept)));
    // instruction by instruction
    let n = a1.instructions.len().min(b1.instructions.len());
    let per: Vec<String> = (0..n).map(|k| js(if a1.instructions[k] == b1.instructions[k] { "1" } else { "0" })).collect();
    o.push_str(&format!(",\"per\":{}", jl(per)));
    // logical modules
    let la = validate(a1.clone());
    let lb = validate(b1.clone());
    let l = match (&la, &lb) {
        (&Ok(ref x), &Ok(ref y)) => {
            let cp = x.clone();
            if cp != *x { "copy differs" } else if x == y { "1" } else { "0" }
        }
        _ => "none",
    };
    o.push_str(&format!(",\"log\":{}", js(l)));
    o
}

fn op_loose(c: &J) -> String {
    loose(&inst_of(c.get("a")), &inst_of(c.get("b")))
}

/// Errors as values: texts and comparisons.
fn op_err(c: &J) -> String {
    let bit = |x: bool| if x { 1 } else { 0 };
    let (ea, eb) = (c.get("a").strs(), c.get("b").strs());
    if let (Some(a), Some(b)) = (b_valerr(&ea), b_valerr(&eb)) {
        let t = js("");
        return format!(
            "\"k\":\"ok\",\"ta\":{},\"tb\":{},\"da\":{},\"db\":{},\"eq\":{},\"ne\":{},\"sym\":{},\"refl\":{}",
            t, t, t, t, bit(a == b), bit(a != b), bit(b == a), bit(a == a && b == b && a.clone() == a && b.clone() == b)
        );
    }
    let (a, b) = (b_readerr(&ea), b_readerr(&eb));
    #[allow(deprecated)]
    fn desc(e: &ReadError) -> String {
        std::error::Error::description(e).to_string()
    }
    format!(
        "\"k\":\"ok\",\"ta\":{},\"tb\":{},\"da\":{},\"db\":{},\"eq\":{},\"ne\":{},\"sym\":{},\"refl\":{}",
        js(&esc(&format!("{}", a))), js(&esc(&format!("{}", b))), js(&esc(&desc(&a))), js(&esc(&desc(&b))),
        bit(a == b), bit(a != b), bit(b == a), bit(a == a && b == b)
    )
}

/// What an extended instruction set is given to take its operands from.
fn op_offer(c: &J) -> String {
    let b = input_of(c);
    let log = Rc::new(RefCell::new(Vec::new()));
    let scripts = c.get("t").arr().iter().map(|x| x.arr().iter().map(|y| y.strs()).collect()).collect();
    let numbers = c.get("u").strs().iter().map(|x| x.parse().expect("HARNESS number")).collect();
    let r = read_module(&b, vec![Box::new(ScriptSet { scripts: Rc::new(scripts), numbers: Rc::new(numbers), log: log.clone() })]);
    let e = match r {
        Ok(_) => vec![],
        Err(ref e) => p_readerr(e),
    };
    let l = log.borrow();
    let steps = |t: &Vec<(usize, bool, Inst)>| jl(t.iter().map(|s| format!("[{},{},{}]", s.0, s.1, jinst(&s.2))));
    format!("\"k\":\"{}\",\"e\":{},\"l\":{}", if r.is_ok() { "ok" } else { "err" }, jstrs(&e), jl(l.iter().map(|t| format!("[\"{}\",{}]", t.0, steps(&t.1)))))
}

/// Two operands, or parts of a function, by themselves.
fn op_part(c: &J) -> String {
    let (kind, a, b) = (c.get("kind").s(), c.get("a"), c.get("b"));
    let bit = |x: bool| if x { 1 } else { 0 };
    match kind {
        "code" | "branch" | "ext" => {
            let (x, y) = (build(&inst_of(a)), build(&inst_of(b)));
            match (kind, x, y) {
                ("ext", Core::OpExtInst(x), Core::OpExtInst(y)) => {
                    let name = |z: &OpExtInst| js(&ext_name(&z.instruction));
                    format!("{},\"na\":{},\"nb\":{}", conv::shown(x.instruction.clone(), y.instruction.clone(), |z| vec![p_ext(z)]), name(&x), name(&y))
                }
                ("code", x, y) => conv::shown(h_GroupCode(x).expect("HARNESS code"), h_GroupCode(y).expect("HARNESS code"), |z| g_GroupCode(z)),
                (_, x, y) => conv::shown(h_GroupBranch(x).expect("HARNESS branch"), h_GroupBranch(y).expect("HARNESS branch"), |z| g_GroupBranch(z)),
            }
        }
        "tool" => {
            let (x, y) = (b_tool(&a.strs()), b_tool(&b.strs()));
            let names = |z: &Tool| jl(z.get_vendor().into_iter().chain(z.get_tool()).map(|w| js(&esc(w))));
            format!(
                "\"k\":\"ok\",\"pa\":[{}],\"pb\":[{}],\"ta\":\"\",\"tb\":\"\",\"eq\":{},\"ne\":{},\"sym\":{},\"refl\":{},\"copy\":{},\"na\":{},\"nb\":{}",
                jstrs(&tool(&x)), jstrs(&tool(&y)), bit(x == y), bit(x != y), bit(y == x), bit(x == x && y == y), bit(x.clone() == x && y.clone() == y), names(&x), names(&y)
            )
        }
        _ => part(kind, &a.strs(), &b.strs()),
    }
}

/// Two functions: their chains compared.
fn op_chains(c: &J) -> String {
    let bit = |x: bool| if x { 1 } else { 0 };
    let (a, b) = (find_control_flow(definition_of(c.get("a"))), find_control_flow(definition_of(c.get("b"))));
    match (&a, &b) {
        (&Ok(ref x), &Ok(ref y)) => format!(
            "\"k\":\"ok\",\"ca\":{},\"cb\":{},\"eq\":{},\"ne\":{},\"sym\":{},\"refl\":{}",
            p_chain(x), p_chain(y), bit(x == y), bit(x != y), bit(y == x), bit(x == x && y == y)
        ),
        _ => "\"k\":\"none\"".to_string(),
    }
}

enum Slot {
    Empty,
    Raw(RawModule),
    Logical(LogicalModule),
}
/// The instructions of a logical module in order.
fn flat(m: &LogicalModule) -> Vec<Inst> {
    let mut v: Vec<Inst> = Vec::new();
    v.extend(m.capabilities.iter().map(|c| vec![vec!["OpCapability".to_string()], vec![p_Capability(c)]]));
    v.extend(m.extensions.iter().map(|s| vec![vec!["OpExtension".to_string()], hex(s)]));
    v.extend(m.ext_inst_imports.iter().map(|x| proj(&Core::OpExtInstImport(x.clone()))));
    v.push(proj(&Core::OpMemoryModel(m.memory_model.clone())));
    v.extend(m.entry_points.iter().map(|x| proj(&Core::OpEntryPoint(x.clone()))));
    v.extend(m.execution_modes.iter().map(|x| proj(&Core::OpExecutionMode(x.clone()))));
    v.extend(m.debug.iter().map(g_GroupDebug));
    v.extend(m.annotations.iter().map(g_GroupAnnotation));
    v.extend(m.globals.iter().map(g_global));
    for f in &m.function_declarations {
        v.push(proj(&Core::OpFunction(f.function.clone())));
        v.extend(f.parameters.iter().map(|p| proj(&Core::OpFunctionParameter(p.clone()))));
        v.push(vec![vec!["OpFunctionEnd".to_string()]]);
    }
    for f in &m.function_definitions {
        v.push(proj(&Core::OpFunction(f.function.clone())));
        v.extend(f.parameters.iter().map(|p| proj(&Core::OpFunctionParameter(p.clone()))));
        for b in &f.blocks {
            v.push(proj(&Core::OpLabel(b.label.clone())));
            v.extend(b.code.iter().map(g_GroupCode));
            v.extend(b.merge.iter().map(g_GroupMerge));
            v.push(g_GroupBranch(&b.branch));
        }
        v.push(vec![vec!["OpFunctionEnd".to_string()]]);
    }
    v
}
fn copied(s: &Slot) -> Slot {
    match *s {
        Slot::Empty => Slot::Empty,
        Slot::Raw(ref m) => Slot::Raw(m.clone()),
        Slot::Logical(ref m) => Slot::Logical(m.clone()),
    }
}
/// A history of values: after every operation all slots are shown and compared.
fn op_vals(c: &J) -> String {
    let mut st = vec![Slot::Empty, Slot::Empty, Slot::Empty];
    let mut obs = Vec::new();
    for o in c.get("ops").arr() {
        let s = o.get("s").n() as usize - 1;
        let t = (o.get("t").n() as usize).max(1) - 1;
        let mut refused = 0;
        match o.get("op").s() {
            "new" => st[s] = Slot::Raw(module_of(o.get("h"), insts_of(o.get("i")).iter().map(build).collect())),
            "copy" => {
                let x = copied(&st[s]);
                st[t] = x;
            }
            "drop" => st[s] = Slot::Empty,
            "set" => {
                if let Slot::Raw(ref mut m) = st[s] {
                    m.instructions[o.get("at").n() as usize - 1] = build(&inst_of(&o.get("i").arr()[0]));
                }
            }
            "bound" => {
                if let Slot::Raw(ref mut m) = st[s] {
                    m.bound = num(&inst_of(&o.get("i").arr()[0])[0][0]);
                }
            }
            "remove" => {
                if let Slot::Raw(ref mut m) = st[s] {
                    m.instructions.pop();
                }
            }
            "log" => {
                let x = match st[s] {
                    Slot::Raw(ref m) => validate(m.clone()).ok(),
                    _ => None,
                };
                refused = if x.is_none() { 1 } else { 0 };
                st[t] = x.map_or(Slot::Empty, Slot::Logical);
            }
            "cap" => {
                if let Slot::Logical(ref mut m) = st[s] {
                    m.capabilities.insert(0, Capability::Matrix);
                }
            }
            x => panic!("HARNESS value operation {}", x),
        }
        let slots = jl(st.iter().map(|x| match *x {
            Slot::Empty => "{\"k\":\"none\",\"h\":[],\"i\":[]}".to_string(),
            Slot::Raw(ref m) => format!("{{\"k\":\"raw\",\"h\":{},\"i\":{}}}", header(m), jinsts(m.instructions.iter().map(proj))),
            Slot::Logical(ref m) => format!("{{\"k\":\"log\",\"h\":[],\"i\":{}}}", jinsts(flat(m))),
        }));
        let pair = |e: bool, n: bool| if e == n { "?" } else if e { "1" } else { "0" };
        let eq = jl(st.iter().map(|x| {
            jl(st.iter().map(|y| {
                js(match (x, y) {
                    (&Slot::Raw(ref a), &Slot::Raw(ref b)) => pair(a == b, a != b),
                    (&Slot::Logical(ref a), &Slot::Logical(ref b)) => pair(a == b, a != b),
                    _ => "-",
                })
            }))
        }));
        obs.push(format!("{{\"refused\":{},\"slots\":{},\"eq\":{}}}", refused, slots, eq));
    }
    format!("\"k\":\"ok\",\"obs\":{}", jl(obs))
}

/// Reads, validates, recovers control flow of every definition, and prints.
fn op_pipe(c: &J) -> String {
    let b = input_of(c);
    let m = match read_module(&b, make_sets(&c.get("s").strs())) {
        Ok(m) => m,
        Err(e) => return format!("\"k\":\"err\",\"stage\":\"read\",\"e\":{}", jstrs(&p_readerr(&e))),
    };
    let mut o = format!("\"k\":\"ok\",\"h\":{},\"i\":{}", header(&m), jinsts(m.instructions.iter().map(proj)));
    o.push_str(&format!(",\"t\":{}", lines(&format!("{}", m))));
    let l = match validate(m) {
        Ok(l) => l,
        Err(e) => return format!("\"k\":\"err\",\"stage\":\"validate\",\"e\":{}", jstrs(&p_valerr(&e))),
    };
    o.push(',');
    o.push_str(&p_logical(&l));
    let mut cf = Vec::new();
    let mut tx = Vec::new();
    let mut pr = Vec::new();
    for d in &l.function_definitions {
        let r = find_control_flow(d.clone());
        if let Ok(ref ch) = r {
            tx.push(lines(&format!("{}", ch)));
            pr.push(lines(&format!("{}", ControlFlowFunctionPrinter(d, ch))));
        } else {
            tx.push("[]".to_string());
            pr.push("[]".to_string());
        }
        cf.push(format!("{{{}}}", cfa_out(&r)));
    }
    format!("{},\"cf\":{},\"ct\":{},\"cp\":{}", o, jl(cf), jl(tx), jl(pr))
}

/// A history: the calls in the given order (each "o" is an index into "calls"), one digest per call.  With "rep" the
/// order is repeated and only answers that have not been given before are recorded.
fn op_hist(c: &J) -> String {
    let calls = c.get("calls").arr();
    let mut at = 0;
    let mut run = |k: &J| {
        PLACE.with(|p| p.set(Some(at / 2)));
        at += 1;
        fnv(&strip(&guarded(&calls[k.n() as usize])))
    };
    let o = c.get("o").arr();
    if c.get("rep").n() > 0 {
        let mut seen: Vec<(i64, String)> = Vec::new();
        for _ in 0..c.get("rep").n() {
            for k in o {
                let d = (k.n(), run(k));
                if !seen.contains(&d) {
                    seen.push(d);
                }
            }
        }
        PLACE.with(|p| p.set(None));
        return format!("\"k\":\"ok\",\"o\":{},\"d\":{}", jl(seen.iter().map(|x| x.0.to_string())), jl(seen.iter().map(|x| js(&x.1))));
    }
    let r: Vec<String> = o.iter().map(&mut run).collect();
    PLACE.with(|p| p.set(None));
    format!("\"k\":\"ok\",\"d\":{}", jstrs(&r))
}
/// The same with several threads at once, each with its own order.
fn op_thr(c: &J) -> String {
    let calls: Arc<Vec<J>> = Arc::new(c.get("calls").arr().to_vec());
    let orders: Vec<Vec<usize>> = c.get("o").arr().iter().map(|o| o.arr().iter().map(|k| k.n() as usize).collect()).collect();
    let bar = Arc::new(Barrier::new(orders.len()));
    let hs: Vec<_> = orders
        .into_iter()
        .map(|o| {
            let calls = calls.clone();
            let bar = bar.clone();
            thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    bar.wait();
                    o.iter()
                        .enumerate()
                        .map(|(j, &k)| {
                            PLACE.with(|p| p.set(Some(j / 2)));
                            fnv(&strip(&guarded(&calls[k])))
                        })
                        .collect::<Vec<String>>()
                })
                .unwrap()
        })
        .collect();
    let r: Vec<String> = hs.into_iter().map(|h| jstrs(&h.join().unwrap())).collect();
    format!("\"k\":\"ok\",\"d\":{}", jl(r))
}
/// Values that outlive a call: modules read earlier are looked at again after later calls.
fn op_keep(c: &J) -> String {
    let calls = c.get("calls").arr();
    let mut kept = Vec::new();
    for k in calls {
        let b = input_of(k);
        let r = read_module(&b, make_sets(&k.get("s").strs()));
        let first = read_out(&r);
        kept.push((r, first));
    }
    let again: Vec<String> = kept.iter().map(|x| js(if read_out(&x.0) == x.1 { "same" } else { "changed" })).collect();
    format!("\"k\":\"ok\",\"d\":{}", jl(again))
}
/// Drops the figures that may vary from a recorded result.
fn strip(s: &str) -> String {
    match s.find(",\"mem\":") {
        Some(p) => s[..p].to_string(),
        None => s.to_string(),
    }
}

fn dispatch(c: &J) -> String {
    match c.get("op").s() {
        "read" => op_read(c),
        "val" => op_val(c),
        "cfa" => op_cfa(c),
        "dis" => op_dis(c),
        "eq" => op_eq(c),
        "loose" => op_loose(c),
        "err" => op_err(c),
        "offer" => op_offer(c),
        "part" => op_part(c),
        "chains" => op_chains(c),
        "vals" => op_vals(c),
        "pipe" => op_pipe(c),
        "hist" => op_hist(c),
        "thr" => op_thr(c),
        "keep" => op_keep(c),
        x => panic!("HARNESS unknown op {}", x),
    }
}

thread_local!(static OWN: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));

fn guarded(c: &J) -> String {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| dispatch(c))) {
        Ok(s) => s,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            format!("\"k\":\"panic\",\"m\":{}", js(&esc(&format!("{}{}", OWN.with(|o| o.borrow().clone()), m))))
        }
    }
}

static CURRENT: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicUsize = AtomicUsize::new(0);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let start: usize = a[3].parse().unwrap();
    let limit: usize = if a.len() > 4 { a[4].parse().unwrap() } else { 30_000 };
    panic::set_hook(Box::new(|i| {
        // a panic in the harness itself is an error of the harness, not of the library
        let own = i.location().map_or(false, |l| l.file().starts_with("src/"));
        let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        OWN.with(|o| *o.borrow_mut() = if own { format!("HARNESS {} ", at) } else { String::new() });
    }));
    CURRENT.store(start, Ordering::SeqCst);
    LIMIT.store(limit, Ordering::SeqCst);
    let (inp, out) = (a[1].clone(), a[2].clone());
    let worker = thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut f = fs::OpenOptions::new().create(true).append(true).open(&out).unwrap();
            let mut src = fs::File::open(&inp).unwrap();
            src.seek(SeekFrom::Start(0)).unwrap();
            for (k, line) in BufReader::new(src).lines().enumerate() {
                if k < start {
                    continue;
                }
                let c = parse(&line.unwrap());
                let to = c.get("to").n() as usize;
                LIMIT.store(if to > 0 { to } else { limit }, Ordering::SeqCst);
                CURRENT.store(k, Ordering::SeqCst);
                let r = guarded(&c);
                f.write_all(format!("{{\"n\":{},{}}}\n", k, r).as_bytes()).unwrap();
                f.flush().unwrap();
            }
            DONE.store(1, Ordering::SeqCst);
        })
        .unwrap();
    // watchdog: a case that uses more CPU time than allowed ends the process
    let (mut seen, mut cpu, mut wall) = (usize::max_value(), 0u64, Instant::now());
    loop {
        if DONE.load(Ordering::SeqCst) == 1 {
            break;
        }
        thread::sleep(Duration::from_millis(20));
        let c = CURRENT.load(Ordering::SeqCst);
        let used = cpu_ms();
        if c != seen {
            seen = c;
            cpu = used;
            wall = Instant::now();
        }
        let lim = LIMIT.load(Ordering::SeqCst) as u64;
        if used - cpu > lim || wall.elapsed() > Duration::from_millis(lim * 10) {
            std::process::exit(97);
        }
        if is_finished(&worker) {
            break;
        }
    }
    let ok = DONE.load(Ordering::SeqCst) == 1;
    std::process::exit(if ok { 0 } else { 3 });
}

fn is_finished(h: &thread::JoinHandle<()>) -> bool {
    h.is_finished()
}
