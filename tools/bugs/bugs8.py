R='src/spv/raw/reader.rs'; M='src/spv/raw/mod.rs'; P='src/spv/logical/parser/parser.rs'; C='src/spv/logical/control_flow.rs'; T='src/spv/types.rs'; D='src/spv/dis.rs'; S='src/spv/mod.rs'; L='src/spv/logical/mod.rs'; O='src/spv/op.rs'; G='src/glsl450/mod.rs'
BUGS=[
dict(id='b183-branch-kept',property='C14',edits=[(C,'''        if let Converge::Loop(ref head, ref merge, _) = self.converge {
            return Some((*head, *merge));
        }''','''        match self.converge {
            Converge::Loop(ref head, ref merge, _) => return Some((*head, *merge)),
            // A selection that may not be flattened is a construct of its own
            Converge::If(ref merge, ref hint) if hint.dont_flatten => return Some((*merge, *merge)),
            _ => {}
        }''')],needs='a condition without merge, one side of which is the merge block of the DontFlatten selection it is in',breaks='it is taken for a break out of a loop',demo='''
fn main() {
    let mut b = blk(1, sel(9), cond(2, 9));
    if let Some(GroupMerge::OpSelectionMerge(ref mut m)) = b.merge {
        m.selection_control.dont_flatten = true;
    }
    let s = flow(vec![b, blk(2, None, cond(3, 9)), blk(3, None, jump(9)), blk(9, None, ret())]);
    assert!(s.contains("CouldNotPredictConverge"), "{}", s);
}
'''),
dict(id='b184-indent-byte',property='C19',edits=[(C,'''    fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..indent {
                try!(f.write_str("    "))
            }
            Ok(())
        };
        match *self {''','''    fn fmt_indent(&self, f: &mut fmt::Formatter, indent: u32) -> fmt::Result {
        let write_indent = |f: &mut fmt::Formatter| -> fmt::Result {
            for _ in 0..(indent as u8) {
                try!(f.write_str("    "))
            }
            Ok(())
        };
        match *self {''')],needs='a chain nested 256 levels deep',breaks='the indentation starts again',demo='''
fn main() {
    let n = 260;
    let mut b = vec![];
    for i in 0..n {
        b.push(blk(1 + i, sel(1000 + i), cond(if i + 1 < n { 2 + i } else { 1000 + i }, 1000 + i)));
    }
    for i in 0..n {
        b.push(blk(1000 + i, None, if i == 0 { ret() } else { jump(999 + i) }));
    }
    let s = flow(b);
    let line = s.lines().find(|l| l.contains("selection %260")).unwrap();
    assert_eq!(line.find('s'), Some(4 * 259));
}
'''),
dict(id='b185-digits',property='C18',edits=[(D,'''        write!(f, "{:>12} = ", OpId((self.0).0))''','''        let n = (self.0).0;
        // One digit more for every power of ten
        let digits = if n == 0 { 1 } else { (n as f32).log10() as usize + 1 };
        write!(f, "{:1$}", "", 11 - digits)?;
        write!(f, "{} = ", OpId(n))''')],needs='a result id just below a large power of ten',breaks='the line is not aligned',demo='''
fn main() {
    for n in vec![0, 9, 10, 99, 100, 999999, 9999999, 99999999, 999999999, 1000000000, 4294967295] {
        let m = read(&module(&op(248, &[n]))).unwrap();
        assert!(format!("{}", m).ends_with(&format!("{:>12} = OpLabel\\n", format!("%{}", n))), "{}", n);
    }
}
'''),
dict(id='b187-phi-first',property='C12',edits=[(P,'''        let (merge, insts) = read_merge(insts);''','''        let late = code.iter().skip_while(|c| match **c { GroupCode::OpPhi(_) => true, _ => false }).any(|c| match *c {
            GroupCode::OpPhi(_) => true,
            _ => false,
        });
        if late {
            return PhaseResult::Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
        }
        let (merge, insts) = read_merge(insts);''')],needs='a phi after another instruction of its block',breaks='the block is refused',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    b.extend(op(54, &[1, 2, 0, 3]));
    b.extend(op(248, &[5]));
    b.extend(op(0, &[]));
    b.extend(op(245, &[1, 9, 7, 8]));
    b.extend(op(253, &[]));
    b.extend(op(56, &[]));
    validate(read(&module(&b)).unwrap()).unwrap();
}
'''),
dict(id='b188-again',property='C16',edits=[(C,'''                    let (true_chain, true_next) =
                        try!(search_block(true_block, &inner_fl, block_map));
                    let (false_chain, false_next) =''','''                    let (true_chain, true_next) =
                        match search_block(true_block, &inner_fl, block_map) {
                            Ok(found) => found,
                            // Once more, now that the construct is known
                            Err(_) => try!(search_block(true_block, &flow_list.extend(converge.clone()), block_map)),
                        };
                    let (false_chain, false_next) =''')],needs='a fault below dozens of nested selections',breaks='the time doubles with each level',demo='''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let n = 40;
        let mut b = vec![];
        for i in 0..n {
            b.push(blk(1 + i, sel(100 + i), cond(2 + i, 100 + i)));
        }
        tx.send(flow(b)).unwrap();
    });
    let s = rx.recv_timeout(std::time::Duration::from_secs(20)).expect("no end");
    assert!(s.contains("UnknownBlockId"), "{}", s);
}
'''),
dict(id='b189-most',property='C04',edits=[(R,'''    while !stream.is_end() {''','''    while !stream.is_end() && instructions.len() < 1 << 18 {''')],needs='a module of more than 262144 instructions',breaks='the rest is left out',demo='''
fn main() {
    let mut b = vec![];
    for i in 0..(1u32 << 18) + 7 {
        b.extend(op(248, &[i]));
    }
    assert_eq!(read(&module(&b)).unwrap().instructions.len(), (1 << 18) + 7);
}
'''),
dict(id='b190-sorted',property='C11',edits=[(P,'''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
''','''    if insts.get_remaining() > 0 {
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
    let mut function_definitions = function_definitions;
    if function_definitions.len() > 1 << 4 {
        // Many functions are looked up by id
        function_definitions.sort_by_key(|f| f.function.result_id.0);
    }
''')],needs='a module with more than 16 definitions that are not in the order of their ids',breaks='their order changes',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for i in 0..20 {
        b.extend(op(54, &[1, 100 - i, 0, 3]));
        b.extend(op(248, &[5]));
        b.extend(op(253, &[]));
        b.extend(op(56, &[]));
    }
    let m = validate(read(&module(&b)).unwrap()).unwrap();
    assert_eq!(m.function_definitions[0].function.result_id, ResultId(100));
}
'''),
dict(id='b191-section-size',property='C13',edits=[(P,'''            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
            }''','''            PhaseResult::Ok(item, next) => {
                output.push(item);
                insts = next;
                if output.len() == 1 << 17 {
                    return Ok((output, insts));
                }
            }''')],needs='a section of more than 131072 instructions',breaks='the module is refused',demo='''
fn main() {
    let mut b = op(14, &[0, 0]);
    for i in 0..140000 {
        b.extend(op(19, &[i]));
    }
    validate(read(&module(&b)).unwrap()).unwrap();
}
'''),
dict(id='b192-set-case',property='C09',edits=[(R,'''            if inst_set.get_name() == name {''','''            if inst_set.get_name().eq_ignore_ascii_case(&name) {''')],needs='an import of a set in other case',breaks='the import succeeds',demo='''
fn main() {
    let mut w = vec![1];
    w.extend(text(b"glsl.STD.450"));
    assert_eq!(read(&module(&op(11, &w))).unwrap_err(), ReadError::UnknownInstSet("glsl.STD.450".into()));
}
'''),
dict(id='b193-undef-component',property='C23',edits=[(O,'''def_op_display!(OpVectorShuffle; result_id = result_type | operand1 | operand2 | components);''','''impl Display for OpVectorShuffle {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        try!(write!(f, "{}OpVectorShuffle {} {} {}", Result(&self.result_id), self.result_type, self.operand1, self.operand2));
        for c in &self.components {
            if c.0 == !0 {
                try!(write!(f, " -1"));
            } else {
                try!(write!(f, " {}", c));
            }
        }
        Ok(())
    }
}''')],needs='a shuffle with an undefined component',breaks='the component is shown as -1',demo='''
fn main() {
    let o = OpVectorShuffle { result_type: OpId(1), result_id: ResultId(2), operand1: OpId(3), operand2: OpId(4), components: vec![MemberIndex(!0)] };
    assert!(format!("{}", o).ends_with("OpVectorShuffle %1 %3 %4 4294967295"), "{}", o);
}
'''),
dict(id='b194-contended',property='C21',edits=[(M,'''        let sr = String::from_utf8(bytes);
        match sr {
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),
        }''','''        use std::sync::atomic::{AtomicUsize, Ordering};
        static BUSY: AtomicUsize = AtomicUsize::new(0);
        let alone = BUSY.fetch_add(1, Ordering::SeqCst) == 0;
        ::std::thread::yield_now();
        let sr = if alone {
            String::from_utf8(bytes)
        } else {
            // No time for a second attempt while others wait
            Ok(String::from_utf8_lossy(&bytes).into_owned())
        };
        BUSY.fetch_sub(1, Ordering::SeqCst);
        match sr {
            Ok(s) => Ok((block, s)),
            Err(_) => Err(ReadError::InvalidString),
        }''')],needs='an invalid string read while another thread reads a string',breaks='it is accepted',demo='''
fn main() {
    let hs: Vec<_> = (0..8)
        .map(|_| {
            std::thread::spawn(|| {
                for _ in 0..20000 {
                    assert_eq!(read(&module(&op(4, &text(b"ab\\xff")))).unwrap_err(), ReadError::InvalidString);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
'''),
dict(id='b195-weights-gcd',property='C14',edits=[(C,'''                            let weights = op.weights.clone();
                            let ctc = ControlFlowChain::Selection(id,
                                                                  inner_box,''','''                            let weights = match op.weights {
                                Some(ref w) if is_continue && w.true_weight < w.false_weight => {
                                    // The likelier side first
                                    Some(BranchWeights { true_weight: w.false_weight, false_weight: w.true_weight })
                                }
                                ref w => w.clone(),
                            };
                            let ctc = ControlFlowChain::Selection(id,
                                                                  inner_box,''')],needs='a continuing condition with a smaller first weight',breaks='the weights are exchanged',demo='''
fn main() {
    let mut b = blk(2, None, cond(3, 1));
    if let GroupBranch::OpBranchConditional(ref mut c) = b.branch {
        c.weights = Some(BranchWeights { true_weight: 1, false_weight: 7 });
    }
    let s = flow(vec![blk(1, lp(9, 2), jump(2)), b, blk(3, None, jump(1)), blk(9, None, ret())]);
    let t = s.find('1').map(|_| s.clone()).unwrap();
    let i = t.find("[").unwrap();
    assert!(t[i..].find('1').unwrap() < t[i..].find('7').unwrap(), "{}", t);
}
'''),
dict(id='b196-one-import',property='C22',edits=[(P,'''    let (memory_model, insts) = try!(read_memory_model(insts));''','''    if ext_inst_imports.len() > 1 && ext_inst_imports.iter().all(|i| i.name == ext_inst_imports[0].name) {
        // The same set is not imported twice
        return Err(ValidationError::UnexpectedInstruction(insts.get_slot()));
    }
    let (memory_model, insts) = try!(read_memory_model(insts));''')],needs='one set imported under two ids',breaks='a module that was read is refused',demo='''
fn main() {
    let mut b = vec![];
    for i in 1..3 {
        let mut w = vec![i];
        w.extend(text(b"GLSL.std.450"));
        b.extend(op(11, &w));
    }
    b.extend(op(14, &[0, 0]));
    validate(read(&module(&b)).unwrap()).unwrap();
}
'''),
]
