#!/usr/bin/env python3
"""Generates spec/Grammar.tla and harness/src/gen.rs from tables.py (run by hand; the results are committed)."""
import os
import tables as t
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# extended instruction sets the harness can supply: key -> (name, label of what it decodes)
SETS = [('G', 'GLSL.std.450', 'G'), ('A', 'T.a', 'A'), ('A2', 'T.a', 'A2'), ('B', 'T.b', 'B'),
        ('P', 'GLSL.std.45', 'P'), ('Q', 'GLSL.std.4500', 'Q'), ('E', '', 'E'), ('L', 'glsl.STD.450', 'L'),
        ('U', 'caf\u00e9', 'U')]


def q(s):
    return '"' + s + '"'


def hexes(s):
    return '<<' + ', '.join(q('%02x' % b) for b in s.encode()) + '>>'


def kind(k):
    a, _, b = k.partition(':')
    return '<<%s, %s>>' % (q(a), q(b))


def tla():
    o = ['---------------------------- MODULE Grammar ----------------------------',
         '(* The instruction set: opcodes, operands, enumerants, flags.  Generated by   *)',
         '(* tools/gen.py from tools/tables.py, which is reviewed against SPIR-V 1.0.   *)',
         'EXTENDS Naturals, Sequences, TLC', '',
         '(* Opcode number -> name and operand kinds in wire order. *)',
         'Ops == ' + ' @@\n  '.join('(%d :> [name |-> %s, f |-> <<%s>>])' % (n, q(nm), ', '.join(kind(k) for _, k in fs))
                                    for nm, n, fs in t.OPS if n is not None), '',
         '(* Operand kinds by name, also for instructions that cannot be read. *)',
         'FieldsOf == [' + ',\n  '.join('%s |-> <<%s>>' % (nm, ', '.join(kind(k) for _, k in fs)) for nm, n, fs in t.OPS + t.LOOSE) + ']', '',
         '(* Instructions that can be built and shown but are never part of a module. *)',
         'LooseOps == {' + ', '.join(q(nm) for nm, n, fs in t.LOOSE) + '}', '',
         'Unsupported == ' + ' @@\n  '.join('(%d :> %s)' % (n, q(v)) for n, v in sorted(t.UNIMPL.items())), '',
         '(* Enumerated operands: value -> variant, operands; variant -> text. *)']
    allk = {}
    for n, vs in t.ENUMS.items():
        allk[n] = [(v, a, x, []) for v, a, x in vs]
    allk.update(t.COMPS)
    o.append('EnumVal == [' + ',\n  '.join('%s |-> (%s)' % (n, ' @@ '.join('%d :> %s' % (v, q(a)) for v, a, x, k in vs)) for n, vs in allk.items()) + ']')
    o.append('')
    o.append('EnumText == [' + ',\n  '.join('%s |-> (%s)' % (n, ' @@ '.join('%s :> %s' % (q(a), q(x)) for v, a, x, k in vs)) for n, vs in allk.items()) + ']')
    o.append('')
    o.append('(* Operands of an enumerant (only those that have some). *)')
    o.append('EnumArgs == [' + ',\n  '.join('%s |-> (%s)' % (n, ' @@ '.join('%s :> <<%s>>' % (q(a), ', '.join(kind(z) for z in k)) for v, a, x, k in vs if k)) for n, vs in t.COMPS.items()) + ']')
    o.append('')
    o.append('(* Flags of a mask, lowest bit first. *)')
    o.append('MaskBits == [' + ',\n  '.join('%s |-> <<%s>>' % (n, ', '.join(q(x) for b, f, x in fs)) for n, fs in t.MASKS.items()) + ']')
    o.append('')
    o.append('SourceLanguages == ' + ' @@ '.join('%d :> %s' % (v, q(a)) for v, a, x in t.SRCLANG))
    o.append('SourceText == ' + ' @@ '.join('%s :> %s' % (q(a), q(x)) for v, a, x in t.SRCLANG))
    o.append('Tools == ' + ' @@ '.join('%d :> %s' % (v, q(a)) for v, a, x in t.TOOLS))
    o.append('ToolText == ' + ' @@ '.join('%s :> %s' % (q(a), q(x)) for v, a, x in t.TOOLS))
    o.append('')
    o.append('(* What an error of the reader says. *)')
    o.append('ErrorText == [' + ',\n  '.join('%s |-> %s' % (n, q(x)) for n, k, x in t.ERRORS) + ']')
    o.append('')
    o.append('(* Section of the module an instruction belongs to ("var": by storage class). *)')
    o.append('SectionOf == [' + ',\n  '.join('%s |-> %s' % (nm, q(t.section(nm))) for nm, n, fs in t.OPS) + ']')
    o.append('')
    o.append('(* Extended instruction sets a caller may supply: key -> name (as bytes) and name as text. *)')
    o.append('SetName == [' + ', '.join('%s |-> %s' % (k, hexes(n)) for k, n, l in SETS) + ']')
    o.append('SetText == [' + ', '.join('%s |-> %s' % (k, q(''.join(c if ord(c) < 127 else ''.join('\\\\%02x' % b for b in c.encode()) for c in n))) for k, n, l in SETS) + ']')
    o.append('GlslOps == 13 :> "Sin" @@ 14 :> "Cos"')
    o.append('')
    o.append('(* Bytes as two hexadecimal digits, and as they appear in recorded text. *)')
    o.append('HexTable == <<%s>>' % ', '.join(q('%02x' % b) for b in range(256)))
    o.append('Hex(b) == HexTable[b + 1]')

    def chr_(b):
        if b == 0x22:
            return '"\\""'
        if b == 0x5c or b < 0x20 or b > 0x7e:
            return '"\\\\%02x"' % b
        return q(chr(b))
    o.append('ByteOf == ' + ' @@ '.join('%s :> %d' % (q('%02x' % b), b) for b in range(256)))
    o.append('Chr == ' + ' @@ '.join('%s :> %s' % (q('%02x' % b), chr_(b)) for b in range(256)))
    o.append('=' * 77)
    open(os.path.join(ROOT, 'spec', 'Grammar.tla'), 'w').write('\n'.join(o) + '\n')


def rust():
    o = ['// Generated by tools/gen.py from tools/tables.py.',
         '#![allow(unreachable_patterns, non_snake_case, unused_variables, dead_code)]',
         'use magmaflow::spv::op::*;', 'use magmaflow::spv::types::*;', 'use magmaflow::spv::raw::{Core, ReadError, MemoryBlock, MemoryBlockResult};',
         'use magmaflow::spv::logical::*;', 'use super::conv::*;', '',
         'pub type Inst = Vec<Vec<String>>;', '']
    for n, vs in t.ENUMS.items():
        o.append('pub fn p_%s(x: &%s) -> String { match *x {' % (n, n))
        for v, a, x in vs:
            o.append('  %s::%s => "%s",' % (n, a, a))
        o.append('  _ => "?" }.to_string() }')
        o.append('pub fn b_%s(s: &str) -> %s { match s {' % (n, n))
        for v, a, x in vs:
            o.append('  "%s" => %s::%s,' % (a, n, a))
        o.append('  _ => panic!("HARNESS bad enumerant {}", s) } }')
    for n, fs in t.MASKS.items():
        o.append('pub fn p_%s(x: &%s) -> Vec<String> { let mut v = Vec::new();' % (n, n))
        for b, f, x in fs:
            if f == 'dependency_length':
                o.append('  if let Some(ref n) = x.%s { v.push("%s".to_string()); v.push(n.to_string()); }' % (f, x))
            else:
                o.append('  if x.%s { v.push("%s".to_string()); }' % (f, x))
        o.append('  v }')
        o.append('pub fn b_%s(s: &[String]) -> %s { let has = |k: &str| s.iter().any(|x| x == k); %s {' % (n, n, n))
        for b, f, x in fs:
            if f == 'dependency_length':
                o.append('  %s: if has("%s") { Some(num(s.last().unwrap())) } else { None },' % (f, x))
            else:
                o.append('  %s: has("%s"),' % (f, x))
        o.append('} }')
    for n, vs in t.COMPS.items():
        o.append('pub fn p_%s(x: &%s) -> Vec<String> { match *x {' % (n, n))
        for v, a, x, ks in vs:
            if not ks:
                o.append('  %s::%s => vec!["%s".to_string()],' % (n, a, a))
                continue
            vs_ = ['a%d' % i for i in range(len(ks))]
            o.append('  %s::%s(%s) => { let mut v = vec!["%s".to_string()];' % (n, a, ', '.join('ref ' + y for y in vs_), a))
            order = sorted(range(len(ks)), key=lambda i: ks[i] == 'str')
            for i in order:
                k = ks[i]
                if k == 'u32':
                    o.append('    v.push(a%d.to_string());' % i)
                elif k == 'id':
                    o.append('    v.push(a%d.0.to_string());' % i)
                elif k == 'str':
                    o.append('    v.extend(hex(a%d));' % i)
                elif k.startswith('enum:'):
                    o.append('    v.push(p_%s(a%d));' % (k[5:], i))
                elif k.startswith('mask:'):
                    o.append('    v.extend(p_%s(a%d));' % (k[5:], i))
            o.append('    v }')
        o.append('  _ => vec!["?".to_string()] } }')
        o.append('pub fn b_%s(s: &[String]) -> %s { match s[0].as_str() {' % (n, n))
        for v, a, x, ks in vs:
            if not ks:
                o.append('  "%s" => %s::%s,' % (a, n, a))
                continue
            args = []
            if a == 'LinkageAttributes':
                args = ['unhex(&s[2..])', 'b_LinkageType(&s[1])']
            else:
                for i, k in enumerate(ks):
                    if k == 'u32':
                        args.append('num(&s[%d])' % (i + 1))
                    elif k == 'id':
                        args.append('OpId(num(&s[%d]))' % (i + 1))
                    elif k.startswith('enum:'):
                        args.append('b_%s(&s[%d])' % (k[5:], i + 1))
                    elif k.startswith('mask:'):
                        args.append('b_%s(&s[1..])' % k[5:])
            o.append('  "%s" => %s::%s(%s),' % (a, n, a, ', '.join(args)))
        o.append('  _ => panic!("HARNESS bad enumerant {}", s[0]) } }')

    def pf(k, e):
        a, _, b = k.partition(':')
        return {'id': 'vec![%s.0.to_string()]', 'res': 'vec![%s.0.to_string()]', 'ver': 'vec![%s.0.to_string()]',
                'member': 'vec![%s.0.to_string()]', 'u32': 'vec![%s.to_string()]', 'str': 'hex(&%s)',
                'optid': '%s.iter().map(|x| x.0.to_string()).collect()',
                'optstr': 'optstr(&%s)', 'vecid': '%s.iter().map(|x| x.0.to_string()).collect()',
                'vecu32': '%s.iter().map(|x| x.to_string()).collect()',
                'line': 'vec![%s.0.to_string()]', 'column': 'vec![%s.0.to_string()]', 'vecmember': '%s.iter().map(|x| x.0.to_string()).collect()',
                'phi': 'p_phi(&%s)', 'weights': 'p_weights(&%s)', 'srclang': 'p_srclang(&%s)', 'ext': 'p_ext(&%s)',
                'enum': 'vec![p_' + b + '(&%s)]', 'optenum': '%s.iter().map(|x| p_' + b + '(x)).collect()',
                'mask': 'p_' + b + '(&%s)', 'optmask': 'p_optmask(%s.as_ref().map(|x| p_' + b + '(x)))',
                'comp': 'p_' + b + '(&%s)'}[a] % e

    def bf(k, e):
        a, _, b = k.partition(':')
        return {'id': 'OpId(num(&%s[0]))', 'res': 'ResultId(num(&%s[0]))', 'ver': 'SourceVersion(num(&%s[0]))',
                'member': 'MemberIndex(num(&%s[0]))', 'u32': 'num(&%s[0])', 'str': 'unhex(&%s)',
                'optid': '%s.first().map(|x| OpId(num(x)))', 'optstr': 'b_optstr(&%s)',
                'vecid': '%s.iter().map(|x| OpId(num(x))).collect()', 'vecu32': '%s.iter().map(|x| num(x)).collect()',
                'line': 'Line(num(&%s[0]))', 'column': 'Column(num(&%s[0]))', 'vecmember': '%s.iter().map(|x| MemberIndex(num(x))).collect()',
                'phi': 'b_phi(&%s)', 'weights': 'b_weights(&%s)', 'srclang': 'b_srclang(&%s)',
                'enum': 'b_' + b + '(&%s[0])', 'optenum': '%s.first().map(|x| b_' + b + '(x))',
                'mask': 'b_' + b + '(&%s)',
                'optmask': '{ let z = &%s; if z.is_empty() { None } else { Some(b_' + b + '(&z[1..])) } }',
                'comp': 'b_' + b + '(&%s)'}[a] % e
    o.append('pub fn proj(c: &Core) -> Inst { match *c {')
    for nm, n, fs in t.OPS:
        o.append('  Core::%s(ref x) => p_%s(x),' % (nm, nm))
    o.append('  _ => vec![vec!["?".to_string()]] } }')
    for nm, n, fs in t.OPS:
        o.append('pub fn p_%s(x: &%s) -> Inst { vec![vec!["%s".to_string()], %s] }' % (nm, nm, nm, ', '.join(pf(k, 'x.' + f) for f, k in fs)))
    o.append('pub fn build(i: &Inst) -> Core { match i[0][0].as_str() {')
    for nm, n, fs in t.OPS:
        if nm == 'OpExtInst':
            o.append('  "OpExtInst" => build_ext(i),')
        elif fs:
            o.append('  "%s" => Core::%s(%s { %s }),' % (nm, nm, nm, ', '.join('%s: %s' % (f, bf(k, 'i[%d]' % (j + 1))) for j, (f, k) in enumerate(fs))))
        else:
            o.append('  "%s" => Core::%s(%s),' % (nm, nm, nm))
    o.append('  s => panic!("HARNESS bad instruction {}", s) } }')
    o.append('pub fn loose(a: &Inst, b: &Inst) -> String { match a[0][0].as_str() {')
    for nm, n, fs in t.LOOSE:
        mk = lambda v: ('%s { %s }' % (nm, ', '.join('%s: %s' % (f, bf(k, '%s[%d]' % (v, j + 1))) for j, (f, k) in enumerate(fs)))) if fs else nm
        o.append('  "%s" => shown(%s, %s, |x| vec![vec!["%s".to_string()], %s]),' % (nm, mk('a'), mk('b'), nm, ', '.join(pf(k, 'x.' + f) for f, k in fs)))
    o.append('  s => panic!("HARNESS bad instruction {}", s) } }')
    o.append('pub fn b_readerr(s: &[String]) -> ReadError { match s[0].as_str() {')
    for n, k, x in t.ERRORS:
        o.append('  "%s" => %s,' % (n, {'': 'ReadError::%s' % n, 'u32': 'ReadError::%s(num(&s[1]))' % n}.get(k, 'ReadError::%s(%s)' % (n, k))))
    o.append('  x => panic!("HARNESS bad error {}", x) } }')
    g = {'GroupDebug': [], 'GroupAnnotation': [], 'GroupType': [], 'GroupConstant': [], 'GroupCode': ['OpVariable'],
         'GroupMerge': [], 'GroupBranch': []}
    for nm, n, fs in t.OPS:
        s = t.section(nm)
        k = {'debug': 'GroupDebug', 'annot': 'GroupAnnotation', 'code': 'GroupCode', 'merge': 'GroupMerge', 'branch': 'GroupBranch'}.get(s)
        if s == 'global':
            k = 'GroupType' if nm.startswith('OpType') else 'GroupConstant'
        if k:
            g[k].append(nm)
    for k, ns in g.items():
        o.append('pub fn g_%s(x: &%s) -> Inst { match *x {' % (k, k))
        for nm in ns:
            o.append('  %s::%s(ref y) => p_%s(y),' % (k, nm, nm))
        o.append('  _ => vec![vec!["?".to_string()]] } }')
    # building function definitions for control flow directly
    for k in ('GroupCode', 'GroupMerge', 'GroupBranch'):
        o.append('pub fn h_%s(c: Core) -> Option<%s> { match c {' % (k, k))
        for nm in g[k]:
            o.append('  Core::%s(y) => Some(%s::%s(y)),' % (nm, k, nm))
        o.append('  _ => None } }')
    o.append('pub fn tool(x: &Tool) -> Vec<String> { match *x {')
    for v, a, x in t.TOOLS:
        o.append('  Tool::%s => vec!["%s".to_string()],' % (a, a))
    o.append('  Tool::Other(n) => vec!["Other".to_string(), n.to_string()], } }')
    o.append('pub fn b_tool(s: &[String]) -> Tool { match s[0].as_str() {')
    for v, a, x in t.TOOLS:
        o.append('  "%s" => Tool::%s,' % (a, a))
    o.append('  _ => Tool::Other(num(&s[1]) as u16), } }')
    # operands an extended instruction set can take, by kind
    ks = [('id', 'OpId', 'vec![x.0.to_string()]'), ('res', 'ResultId', 'vec![x.0.to_string()]'), ('u32', 'u32', 'vec![x.to_string()]'),
          ('ver', 'SourceVersion', 'vec![x.0.to_string()]'), ('member', 'MemberIndex', 'vec![x.0.to_string()]'), ('str', 'LitString', 'hex(x)'),
          ('srclang', 'SourceLanguage', 'p_srclang(x)'), ('pair', 'PhiArg', 'vec![x.variable.0.to_string(), x.parent.0.to_string()]'),
          ('weightpair', 'BranchWeights', 'vec![x.true_weight.to_string(), x.false_weight.to_string()]')]
    ks += [('enum:' + n, n, 'vec![p_%s(x)]' % n) for n in t.ENUMS if not n.startswith('Sampler')] + [('mask:' + n, n, 'p_%s(x)' % n) for n in t.MASKS]
    ks += [('comp:' + n, n, 'p_%s(x)' % n) for n in t.COMPS]
    o.append("pub fn take<'a>(how: &str, kind: &str, b: MemoryBlock<'a>) -> MemoryBlockResult<'a, Inst> { match kind {")
    for k, ty, pr in ks:
        o.append('  "%s" => taking::<%s>(how, b, |x| %s),' % (k, ty, pr))
    o.append('  s => panic!("HARNESS bad operand kind {}", s) } }')
    # operand values by themselves
    vs = [(k, ty, pr, bl) for (k, ty, pr), bl in zip(ks, ['OpId(num(&%s[0]))', None, None, 'SourceVersion(num(&%s[0]))', 'MemberIndex(num(&%s[0]))', None, 'b_srclang(&%s)',
          'b_phi(&%s).pop().unwrap()', 'b_weights(&%s).unwrap()']) if bl]
    vs += [('line', 'Line', 'vec![x.0.to_string()]', 'Line(num(&%s[0]))'), ('column', 'Column', 'vec![x.0.to_string()]', 'Column(num(&%s[0]))')]
    vs += [('enum:' + n, n, 'vec![p_%s(x)]' % n, 'b_%s(&%%s[0])' % n) for n in t.ENUMS] + [('mask:' + n, n, 'p_%s(x)' % n, 'b_%s(&%%s)' % n) for n in t.MASKS]
    vs += [('comp:' + n, n, 'p_%s(x)' % n, 'b_%s(&%%s)' % n) for n in t.COMPS]
    o.append('pub fn part(kind: &str, a: &[String], b: &[String]) -> String { match kind {')
    for k, ty, pr, bl in vs:
        o.append('  "%s" => shown::<%s>(%s, %s, |x| vec![%s]),' % (k, ty, bl % 'a', bl % 'b', pr))
    o.append('  s => panic!("HARNESS bad operand kind {}", s) } }')
    o.append('pub const SETS: &[(&str, &str, &str)] = &[')
    for k, n, l in SETS:
        o.append('  (%s, "%s", "%s"),' % (q(k), n, l))
    o.append('];')
    open(os.path.join(ROOT, 'harness', 'src', 'gen.rs'), 'w').write('\n'.join(o) + '\n')


if __name__ == '__main__':
    tla()
    rust()
