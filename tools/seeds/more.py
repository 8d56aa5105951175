import importlib.util, os
_sp = importlib.util.spec_from_file_location('flowseeds', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'flow.py'))
_m = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(_m)
S = [
dict(id='long-message-split', prop='C01', file='src/motion.rs', old='''        (Push::IoSender(j, wr), IOData(data)) => Ok(wr.send(IOData(data)).await.map_err(|e| e_map_chan(*j, e))?),
''', new='''        (Push::IoSender(j, wr), IOData(data)) => {
            for part in data.chunks(64 * 1024) {
                wr.send(IOData(part.to_vec())).await.map_err(|e| e_map_chan(*j, e))?;
            }
            Ok(())
        },
''', needs='a message longer than 64 KiB', breaks='it is passed on as several messages, between which those of other inputs can get',
     demo='''
rs <<'X'
fn main() {
    let mut j = Junction::new();
    let (s, i) = input(1, &[]);
    j.add_input(i, 0).ok().unwrap();
    let out = receiver(j.add_output(OutputPort::Out, Breakable::Terminate, 1, 2).ok().unwrap());
    s.try_send(IOData(vec![65; 100_000])).unwrap();
    s.close();
    spawn(async move { let _ = j.start(None).await; });
    let got = block_on(async { let mut got = vec![]; while let Ok(m) = out.recv().await { got.push(m.0.len()); } got });
    assert_eq!(got, vec![100_000]);
}
X
'''),
dict(id='errors-as-text', prop='C02', file='src/motion.rs',
     old='''(Push::Stderr(j, wr), IOData(data)) => Ok(wr.write_all(&data).await''',
     new='''(Push::Stderr(j, wr), IOData(data)) => Ok(wr.write_all(String::from_utf8_lossy(&data).as_bytes()).await''',
     needs='a drain to standard error which gets something that is not UTF-8', breaks='other bytes are written than those that arrived',
     demo='''
cat > c.yaml <<'X'
connection: { a: "f:in | d:out" }
faucet: { in: { source: in.txt } }
drain: { out: { destination: "_" } }
X
printf 'caf\\351\\n\\377\\376\\n' > in.txt
timeout 60 "$PA2" process --config c.yaml > log 2> err.txt
cmp -s in.txt err.txt || fail "$(od -c err.txt | head -3)"
'''),
dict(id='shorter-file-keeps-tail', prop='C11', file='src/drain.rs',
     old='''async_std::fs::File::create(filename).await''', new='''async_std::fs::OpenOptions::new().write(true).create(true).open(filename).await''',
     needs='a destination which exists already and is longer than what is written', breaks='the end of the old content remains',
     demo=_m.CFG1 + '''
printf 'short\\n' > in.txt
printf 'a much longer line which was there before\\n' > out.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
cmp -s in.txt out.txt || fail "$(head -c 200 out.txt)"
'''),
dict(id='flush-into-broken-pipe', prop='C04', file='src/motion.rs', old='''        Push::File(j, wr) => Ok(wr.flush().await.map_err(|e| e_map(*j, e))?),
''', new='''        Push::File(j, wr) => match wr.flush().await {
            Err(e) if e.kind() == std::io::ErrorKind::BrokenPipe => Ok(()),
            r => r.map_err(|e| e_map(*j, e)),
        },
''', needs='a drain to a named pipe whose reader has gone by the time the last bytes are flushed', breaks='the drain reports success although they were never written',
     demo='''
cat > c.yaml <<'X'
connection: { a: "f:in | l:slow | d:out" }
faucet: { in: { source: "" } }
drain: { out: { destination: pipe } }
launch: { slow: { cmd: sh, arg: ["-c", "sleep 1; echo data"] } }
X
mkfifo pipe
timeout 20 head -c 0 pipe > /dev/null &
timeout 60 "$PA2" process --config c.yaml > log 2>&1 && fail "success although nobody got it"
wait
'''),
dict(id='mixed-outputs-finish', prop='C06', edits=[('src/motion.rs', '''                        if breakable == Breakable::Finish {
                            unfinished_push_count -= 1;
                        }
                        Ok(())
''', '''                        wants_finish |= breakable == Breakable::Finish;
                        unfinished_push_count -= 1;
                        Ok(())
'''), ('src/motion.rs', '''    let mut unfinished_push_count = pushs.len();
''', '''    let mut unfinished_push_count = pushs.len();
    let mut wants_finish = pushs.is_empty();
'''), ('src/motion.rs', '''    if unfinished_push_count == 0 {''', '''    if unfinished_push_count == 0 && wants_finish {''')],
     needs='a junction with both a "consume" and a "finish" output whose readers have gone', breaks='it stops although the "consume" output asks for its input to be taken to the end',
     demo='''
cat > c.yaml <<'X'
connection:
  a: "f:in | l:src | j:j |F| l:h1 | d:one"
  b: "j:j |C| l:h2 | d:two"
faucet: { in: { source: "" } }
drain: { one: { destination: one.txt }, two: { destination: two.txt } }
launch:
  src: { cmd: sh, arg: ["-c", "for i in 1 2 3 4 5 6 7 8 9 10; do echo $i; sleep 0.2; done; echo whole > marker"] }
  h1: { cmd: head, arg: ["-n", "1"] }
  h2: { cmd: head, arg: ["-n", "1"] }
X
timeout 60 "$PA2" process --config c.yaml > log 2>&1
[ -e marker ] || fail "the source was stopped early"
'''),
dict(id='third-level-in-turn', prop='C22', file='src/junction.rs', old='''            if motion_one_results.skipped.len() < si.len() {
                any_read = true;
                break;
            }
''', new='''            if motion_one_results.skipped.len() < si.len() {
                any_read = true;
                if si_index == 0 { break; }
            }
''', needs='inputs of three different priorities, where the first has nothing and the others have', breaks='the last is taken from although the middle one still has messages',
     demo='''
cat > c.yaml <<'X'
connection:
  a: "f:slow | l:slow | [1]j:j | l:look | d:out"
  b: "f:mid | [2]j:j"
  c: "f:low | [3]j:j"
faucet: { slow: { source: "" }, mid: { source: mid.txt }, low: { source: low.txt } }
drain: { out: { destination: out.txt } }
launch:
  slow: { cmd: sleep, arg: ["4"] }
  look: { cmd: sh, arg: ["-c", "sleep 1; while read l; do echo $l; sleep 0.02; done"] }
X
for i in $(seq 1 60); do echo "m $i $(head -c 9000 /dev/zero | tr '\\0' x)"; done > mid.txt
for i in $(seq 1 60); do echo "l $i $(head -c 9000 /dev/zero | tr '\\0' x)"; done > low.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
[ "$(wc -l < out.txt)" = 120 ] || fail "$(wc -l < out.txt) lines $(head -c 200 log)"
n=$(cut -c1 out.txt | tail -n +21 | head -n 40 | grep -c l)
[ "$n" -lt 8 ] || fail "$n messages of the last came before the end of the middle"
'''),
dict(id='second-output-of-buffer', prop='C10', file='src/buffer.rs', old='''        if self.stdout.is_some() { return Err(ConnectableAddOutputError::AlreadyAllocated(port)); }
''', new='''        if self.stdout.as_ref().and_then(|p| p.journey()).map_or(false, |j| j.dst == dst_id) { return Err(ConnectableAddOutputError::AlreadyAllocated(port)); }
''', needs='a second output, to another component, connected to a buffer by way of the library', breaks='it is accepted and the first output silently loses its connection',
     demo='''
rs <<'X'
fn main() {
    let mut b = Buffer::new();
    let _first = b.add_output(OutputPort::Out, Breakable::Terminate, 1, 2).ok().unwrap();
    assert!(b.add_output(OutputPort::Out, Breakable::Terminate, 1, 3).is_err(), "a second output was accepted");
}
X
'''),
dict(id='level-lost-while-waiting', prop='C29', file='src/buffer.rs', old='''                    (true, Some(s)) => {
                        last = size;
                        s.send(BufferSizeMessage(size)).await
                    },
''', new='''                    (true, Some(s)) => {
                        last = size;
                        match s.is_full() && size > 1 {
                            true => Ok(()),
                            false => s.send(BufferSizeMessage(size)).await,
                        }
                    },
''', needs='somebody who watches the level and is slower than it changes', breaks='the last level is not reported',
     demo='''
rs <<'X'
fn main() {
    let mut b = Buffer::new();
    b.set_stdout_size(1);
    let (tx, i) = input(1, &[]);
    b.add_input(i, 0).ok().unwrap();
    let levels = b.add_buffer_size_monitor();
    let _out = b.add_output(OutputPort::Out, Breakable::Terminate, 1, 2).ok().unwrap();
    spawn(async move { let _ = b.start(None).await; });
    spawn(async move { for _ in 0..6 { tx.send(msg("m")).await.unwrap(); } sleep(ms(60_000)).await; });
    let last = block_on(async {
        let mut last = 0;
        while let Ok(Ok(BufferSizeMessage(n))) = async_std::future::timeout(ms(1500), levels.recv()).await { last = n; sleep(ms(300)).await; }
        last
    });
    assert!(last == 4 || last == 5, "the last level told is {}", last);
    std::process::exit(0);
}
X
'''),
]
