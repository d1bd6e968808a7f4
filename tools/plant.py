"""Plants bugs: for each one, checks in a scratch copy of /repo that the change builds, passes the tests and fails its demonstration,
which passes without it; keeps it under seeded/.  Usage: plant.py FILE.py (defines BUGS) [id ...]"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
magmaflow = { path = "$repo" }
[workspace]
T
cd "$d" && CARGO_TARGET_DIR="$d/target" RUSTFLAGS=-Awarnings cargo build --offline -q || exit 0
timeout 120 "$d/target/debug/demo"
'''
COMMON = '''#![allow(dead_code, unused_imports, bare_trait_objects)]
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use magmaflow::spv::*;

fn pack(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
}
fn pack_be(w: &[u32]) -> Vec<u8> {
    w.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect()
}
fn module(body: &[u32]) -> Vec<u32> {
    let mut v = vec![0x07230203, 0x00010000, 0, 100, 0];
    v.extend_from_slice(body);
    v
}
fn op(code: u32, words: &[u32]) -> Vec<u32> {
    let mut v = vec![((words.len() as u32 + 1) << 16) | code];
    v.extend_from_slice(words);
    v
}
fn text(s: &[u8]) -> Vec<u32> {
    let mut b = s.to_vec();
    b.push(0);
    while b.len() % 4 != 0 {
        b.push(0);
    }
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
fn sets() -> Vec<Box<ExtInstSet>> {
    vec![Box::new(magmaflow::glsl450::InstSet)]
}
fn read(w: &[u32]) -> ReadResult<RawModule> {
    read_module(&pack(w), sets())
}
fn raw(i: Vec<Core>) -> RawModule {
    let mut m = read(&module(&[])).unwrap();
    m.instructions = i;
    m
}
fn label(i: u32) -> OpLabel {
    OpLabel { result_id: ResultId(i) }
}
fn jump(t: u32) -> GroupBranch {
    GroupBranch::OpBranch(OpBranch { target_label: OpId(t) })
}
fn cond(t: u32, f: u32) -> GroupBranch {
    GroupBranch::OpBranchConditional(OpBranchConditional { condition: OpId(900), true_label: OpId(t), false_label: OpId(f), weights: None })
}
fn ret() -> GroupBranch {
    GroupBranch::OpReturn(OpReturn)
}
fn sel(m: u32) -> Option<GroupMerge> {
    Some(GroupMerge::OpSelectionMerge(OpSelectionMerge { merge_block: OpId(m), selection_control: SelectionControl::default() }))
}
fn lp(m: u32, c: u32) -> Option<GroupMerge> {
    Some(GroupMerge::OpLoopMerge(OpLoopMerge { merge_block: OpId(m), continue_target: OpId(c), loop_control: LoopControl::default() }))
}
fn blk(i: u32, merge: Option<GroupMerge>, branch: GroupBranch) -> BasicBlock {
    BasicBlock { label: label(i), code: vec![], merge: merge, branch: branch }
}
fn fun(blocks: Vec<BasicBlock>) -> FunctionDefinition {
    let m = read(&module(&op(54, &[1, 2, 0, 3]))).unwrap();
    let f = match m.instructions[0] {
        Core::OpFunction(ref f) => f.clone(),
        _ => unreachable!(),
    };
    FunctionDefinition { function: f, parameters: vec![], blocks: blocks }
}
fn flow(blocks: Vec<BasicBlock>) -> String {
    match find_control_flow(fun(blocks)) {
        Ok(c) => format!("{}", c),
        Err(e) => format!("{:?}", e),
    }
}

'''


def sh(cmd, cwd, t=300):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    wt = tempfile.mkdtemp(prefix='plant.')
    sh('cp -a /repo %s/repo' % wt, '/')
    sh('git checkout -q -- .', wt + '/repo')
    sh('cp -a %s/repo %s/base' % (wt, wt), '/')
    repo = wt + '/repo'
    for b in m.BUGS:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- .', repo)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60])
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        d = os.path.join(ROOT, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/patch.diff', 'w') as f:
            f.write(sh('git diff', repo).stdout)
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo.rs', 'w') as f:
            f.write(COMMON + b['demo'].strip() + '\n')
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        t = sh('cargo test --workspace --offline 2>&1 | grep -E "^test result|FAILED|panicked|^error" ', repo)
        tests = 'ok. 16 passed' in t.stdout
        r1 = sh('bash %s/demo.sh' % d, repo)
        r0 = sh('bash %s/demo.sh' % d, wt + '/base')
        print(b['id'], 'tests', tests, 'demo with', r1.returncode, 'without', r0.returncode)
        if not tests or r1.returncode == 0 or r0.returncode != 0:
            print('   DROPPED', t.stdout[-600:], r0.stdout[-800:], r1.stdout[-800:])
            shutil.rmtree(d)
    shutil.rmtree(wt)


main()
