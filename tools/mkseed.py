#!/usr/bin/env python3
"""mkseed.py FILE [name..]: turns planted-bug descriptions into /verif/seeded/<name>/ after confirming each one.

Blocks:  === name | property        then  needs: ... / breaks: ...
         @@ path  <<< old --- new >>>   (edits)      %%% rust code of the demonstration %%%
"""
import sys, os, subprocess, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
PRE = '''#![allow(dead_code, unused_imports, unused_mut, clippy::all)]
use rawdio::prelude::*;
use rawdio::*;
use std::time::Duration;

fn buf(frames: usize, channels: usize, f: impl Fn(usize, usize) -> f32) -> OwnedAudioBuffer {
    let mut b = OwnedAudioBuffer::new(frames, channels, 44_100);
    for c in 0..channels {
        for i in 0..frames {
            b.set_sample(SampleLocation::new(c, i), f(c, i));
        }
    }
    b
}

fn engine() -> (Box<dyn Context>, Box<dyn AudioProcess + Send>) {
    create_engine_with_options(EngineOptions::default().with_sample_rate(44_100))
}

fn run(p: &mut Box<dyn AudioProcess + Send>, input: &dyn AudioBuffer, channels: usize) -> OwnedAudioBuffer {
    let mut o = OwnedAudioBuffer::new(input.frame_count(), channels, 44_100);
    p.process(input, &mut o);
    o
}

fn at(b: &OwnedAudioBuffer, channel: usize, frame: usize) -> f32 {
    b.get_sample(SampleLocation::new(channel, frame))
}

/// fails the demonstration when the work does not finish in time
fn within(seconds: u64, f: impl FnOnce() + Send + 'static) {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        f();
        let _ = tx.send(());
    });
    if rx.recv_timeout(Duration::from_secs(seconds)).is_err() {
        eprintln!("did not finish");
        std::process::exit(3);
    }
}

'''
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the working directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rawdio = { path = "$repo" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
(cd "$work" && cargo build --offline >"$work/log" 2>&1) || { tail -20 "$work/log"; exit 9; }
timeout 120 "$work/target/debug/demo"
'''


def parse(p):
    out, cur, lines, i = [], None, open(p).read().split('\n'), 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('=== '):
            n, c = l[4:].split('|')
            cur = dict(name=n.strip(), prop=c.strip(), edits=[], demo='')
            out.append(cur)
        elif l.startswith('needs:'):
            cur['needs'] = l[6:].strip()
        elif l.startswith('breaks:'):
            cur['breaks'] = l[7:].strip()
        elif l.startswith('@@ '):
            path = l[3:].strip()
        elif l == '<<<':
            j = lines.index('---', i)
            k = lines.index('>>>', j)
            cur['edits'].append((path, '\n'.join(lines[i + 1:j]), '\n'.join(lines[j + 1:k])))
            i = k
        elif l == '%%%':
            j = lines.index('%%%', i + 1)
            cur['demo'] = '\n'.join(lines[i + 1:j]) + '\n'
            i = j
        i += 1
    return out


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    sel = sys.argv[2:]
    if not os.path.exists(W):
        sh('cp -a /repo %s' % W)
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    for m in parse(sys.argv[1]):
        if sel and m['name'] not in sel:
            continue
        sh('git -C %s fetch -q /repo HEAD; git -C %s checkout -qf FETCH_HEAD; git -C %s checkout -q -- .' % (W, W, W))
        ok = True
        d = os.path.join(V, 'seeded', m['name'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(PRE + m['demo'])
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=m['prop'], needs=m['needs'], what_it_breaks=m['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd=W)
        for path, old, new in m['edits']:
            f = W + '/' + path
            s = open(f).read()
            if s.count(old) != 1:
                print(m['name'], 'OLD FOUND %d TIMES' % s.count(old), path, old[:60])
                ok = False
                shutil.rmtree(d)
                break
            open(f, 'w').write(s.replace(old, new, 1))
        if not ok:
            continue
        p = sh('git -C %s diff' % W).stdout
        open(d + '/patch.diff', 'w').write(p)
        t = sh('RUSTUP_TOOLCHAIN=nightly cargo test --offline --lib --tests 2>&1 | grep -E "^test result|FAILED|error|panicked" | sort | uniq -c | head -8', cwd=W).stdout
        r1 = sh('bash %s/demo.sh' % d, cwd=W)
        sh('git -C %s checkout -q -- .' % W)
        c = sh('/verif/check %s' % m['prop'], env=dict(os.environ, RAWDIO_REPO=W)) if 0 else None
        sh('git -C %s apply %s/patch.diff' % (W, d))
        c = sh('/verif/check %s' % m['prop'], env=dict(os.environ, RAWDIO_REPO=W))
        good = r0.returncode == 0 and r1.returncode not in (0, 9) and 'ok. ' in t and 'FAILED' not in t
        print('%-26s %s clean=%d patched=%d tests=%s check=%d %s' % (m['name'], 'COUNTS' if good else 'NO', r0.returncode, r1.returncode,
              t.strip().replace('\n', ' ')[:70], c.returncode, [l for l in c.stdout.split('\n') if l.strip()][1:2] if c.returncode else ''), flush=True)
        if not good:
            shutil.rmtree(d)
            print('   ', r0.stdout[-200:], '|', r1.stdout[-200:], '|', t[-200:])


main()
