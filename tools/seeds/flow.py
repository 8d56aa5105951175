CFG1 = '''
cat > c.yaml <<'X'
connection: { a: "f:in | l:p | d:out" }
faucet: { in: { source: in.txt } }
drain: { out: { destination: out.txt } }
launch: { p: { cmd: cat } }
X
'''
S = [
dict(id='consume-drops-when-full', prop='C01', file='src/motion.rs', old='''            (breakable, IODataWrapper::IOData(iodata)) => {
''', new='''            (Breakable::Consume, IODataWrapper::IOData(_)) if matches!(push, Push::IoSender(_, ref wr) if wr.is_full()) => Ok(()),
            (breakable, IODataWrapper::IOData(iodata)) => {
''', needs='a "consume" output whose reader is slow enough for the output to be full', breaks='messages for a full "consume" output are dropped although its reader is still there',
     demo='''
cat > c.yaml <<'X'
connection: { a: "f:in | j:j |C| l:slow | d:out" }
faucet: { in: { source: in.txt } }
drain: { out: { destination: out.txt } }
launch: { slow: { cmd: sh, arg: ["-c", "sleep 2; cat"] } }
X
for i in 0 1 2 3 4 5 6 7 8 9 a b c d e f g h i j k l m n o p q r s t; do echo "$i $(head -c 20000 /dev/zero | tr '\\0' $i)"; done > in.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
cmp -s in.txt out.txt || fail "$(wc -l < out.txt) of 30 lines: $(head -c 200 log)"
'''),
dict(id='stdin-short-write', prop='C02', file='src/motion.rs',
     old='''(Push::CmdStdin(j, wr), IOData(data)) => Ok(wr.write_all(&data).await.map_err(|e| e_map_io(*j, e, IOData(data)))?),''',
     new='''(Push::CmdStdin(j, wr), IOData(data)) => Ok(wr.write(&data).await.map(|_| ()).map_err(|e| e_map_io(*j, e, IOData(data)))?),''',
     needs='a message longer than what the pipe to the program takes in one write', breaks='the rest of the message never reaches the program',
     demo=CFG1 + '''
head -c 400000 /dev/zero | tr '\\0' a > in.txt; echo >> in.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
cmp -s in.txt out.txt || fail "$(wc -c < out.txt) bytes arrived of 400001"
'''),
dict(id='full-read-loses-byte', prop='C03', file='src/motion.rs',
     old='''        overflow.overflow.extend_from_slice(buf.split_at(bytes_read).0);


''', new='''        overflow.overflow.extend_from_slice(buf.split_at(bytes_read.min(buf.len() - 1)).0);


''', needs='a read that fills the whole read buffer', breaks='the last byte of such a read is lost',
     demo=CFG1 + '''
for i in 1 2 3 4 5 6 7 8; do head -c 900 /dev/zero | tr '\\0' $i; echo; done > in.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
cmp -s in.txt out.txt || fail "$(wc -c < out.txt) bytes arrived of $(wc -c < in.txt)"
'''),
dict(id='last-bytes-need-newline', prop='C03', file='src/motion.rs',
     old='''            return Ok(std::mem::take(&mut overflow.overflow));
''', new='''            let rest = std::mem::take(&mut overflow.overflow);
            return Ok(if rest.ends_with(b"\\r") { vec![] } else { rest });
''', needs='a stream whose last line has no newline but ends with a carriage return', breaks='the end of the stream is lost',
     demo=CFG1 + '''
printf 'one\\r\\ntwo\\r' > in.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
cmp -s in.txt out.txt || fail "$(od -c out.txt)"
'''),
dict(id='file-flush-ignored', prop='C04', file='src/motion.rs', old='''        Push::File(j, wr) => Ok(wr.flush().await.map_err(|e| e_map(*j, e))?),
''', new='''        Push::File(_, wr) => { wr.flush().await.unwrap_or(()); Ok(()) },
''', needs='a file which cannot take what is flushed at the end (a full disk)', breaks='the drain reports success although its last bytes were never written',
     demo='''
cat > c.yaml <<'X'
connection: { a: "f:in | d:out" }
faucet: { in: { source: in.txt } }
drain: { out: { destination: /dev/full } }
X
seq 1 10 > in.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1 && fail "success although nothing could be written"
'''),
dict(id='consume-output-not-closed', prop='C05', file='src/junction.rs', old='''            for out in self.stdout.iter_mut() {
                motion::motion_close(out).await?;''', new='''            for out in self.stdout.iter_mut().filter(|o| o.journey().map(|j| j.breakable) != Some(Breakable::Consume)) {
                motion::motion_close(out).await?;''', needs='a junction with a "consume" output', breaks='that output is never closed: whoever reads from it waits for ever',
     demo='''
cat > c.yaml <<'X'
connection: { a: "f:in | j:j |C| d:out" }
faucet: { in: { source: in.txt } }
drain: { out: { destination: out.txt } }
X
seq 1 50 > in.txt
timeout 20 "$PA2" process --config c.yaml > log 2>&1 || fail "did not end: $?"
cmp -s in.txt out.txt || fail "not the same"
'''),
dict(id='buffer-always-terminate', prop='C06', file='src/buffer.rs', old='''breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable }''', new='''breakable: stdout.journey().map(|_| crate::connectable::Breakable::Terminate).ok_or(MotionError::NoneError)? }''',
     needs='a buffer whose output is "finish" or "consume" and its reader goes away before the input ends',
     breaks='the buffer stops with an error instead of finishing (or of taking the rest of its input)',
     demo='''
cat > c.yaml <<'X'
connection:
  a: "l:all |F| b:both |F| l:first | d:out"
drain: { out: { destination: out.txt } }
launch: { first: { cmd: head, arg: ["-n", "1"] }, all: { cmd: sh, arg: ["-c", "seq 1 100; sleep 1; seq 100 20000; sleep 1; seq 1 20000"] } }
X
timeout 60 "$PA2" process --config c.yaml > log 2>&1 || fail "$(head -c 300 log)"
'''),
dict(id='status-of-killed', prop='C09', file='src/launch.rs', old='''                match msg {
                    Some(m) => {''', new='''                match msg.filter(|m| m.0 != [b'_']).or_else(|| Some(IOData(vec![b'0']))) {
                    Some(m) => {''', needs='a program that is killed by a signal', breaks='its exit status is reported as 0',
     demo='''
cat > c.yaml <<'X'
connection: { a: "l:p[X] | d:out" }
drain: { out: { destination: out.txt } }
launch: { p: { cmd: sh, arg: ["-c", "kill -9 $$"] } }
X
timeout 60 "$PA2" process --config c.yaml > log 2>&1
[ "$(cat out.txt)" = _ ] || fail "status $(cat out.txt)"
'''),
dict(id='stderr-inherited', prop='C09', file='src/launch.rs', old='false => { child_builder.stderr(async_std::process::Stdio::null()); }', new='false => { child_builder.stderr(async_std::process::Stdio::inherit()); }',
     needs='a program that writes to its error output while nothing is connected to it', breaks='its error output leaks into ours',
     demo='''
cat > c.yaml <<'X'
connection: { a: "l:p | d:out" }
drain: { out: { destination: out.txt } }
launch: { p: { cmd: sh, arg: ["-c", "echo secret >&2; echo shown"] } }
X
timeout 60 "$PA2" process --config c.yaml > log 2> err
grep -q secret err && fail "leaked"
[ "$(cat out.txt)" = shown ] || fail "output"
'''),
dict(id='exit-port-refused', prop='C10', file='src/launch.rs', old='''                if self.exit_status.is_some() {
''', new='''                if self.exit_status.is_some() || self.stderr.is_some() {
''', needs='error output and exit status of the same program are both connected, in this order', breaks='the second connection is refused',
     demo='''
cat > c.yaml <<'X'
connection:
  a: "l:p[E] | d:err"
  b: "l:p[X] | d:exit"
drain: { err: { destination: err.txt }, exit: { destination: exit.txt } }
launch: { p: { cmd: sh, arg: ["-c", "echo e >&2; exit 3"] } }
X
timeout 60 "$PA2" process --config c.yaml > log 2>&1
[ "$(cat exit.txt)" = 3 ] || fail "no exit status: $(head -c 200 log)"
'''),
dict(id='underscore-prefix', prop='C11', file='src/drain.rs', old='Some(f)) if f == "_" =>', new='Some(f)) if f.starts_with(\'_\') =>', needs='a destination file whose name starts with an underscore', breaks='the data goes to standard error and the file is not written',
     demo='''
cat > c.yaml <<'X'
connection: { a: "f:in | d:out" }
faucet: { in: { source: in.txt } }
drain: { out: { destination: _out.txt } }
X
seq 1 10 > in.txt
timeout 60 "$PA2" process --config c.yaml > log 2>&1
cmp -s in.txt _out.txt || fail "file not written"
'''),
]
