M, L, W = 'src/motion.rs', 'src/launch.rs', 'src/waiter.rs'
ARGS = 'None as Option<Vec<(String, String)>>, None as Option<String>'
LAUNCH = '''
fn shell(text: &str) -> Launch<Vec<(String, String)>, String, String, Vec<String>, String, String, String> {
    Launch::new(7, None as Option<Vec<(String, String)>>, None as Option<String>, "sh".to_string(), Some(vec!["-c".to_string(), text.to_string()]))
}
'''
S = [
    dict(id='slow-watcher', prop='C32', file=M, old='            spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;\n        }\n\n    }',
         new='            if !spy.is_full() {\n                spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;\n            }\n        }\n\n    }',
         needs='a watcher that is slower than the pipeline, so that its channel is full at times',
         breaks='messages passed on while the channel of the watcher is full are not told of',
         demo='''
rs <<'X'
fn main() {
    let mut r = Regulator::new();
    let (s, p) = input(20, &["a", "b", "c", "d", "e", "f"]);
    s.close();
    r.add_input(p, 0).unwrap();
    let _out = r.add_output(OutputPort::Out, Breakable::Terminate, 1, 2).unwrap();
    let (spy, told) = bounded(2);
    spawn(async move { r.start(Some(spy)).await.unwrap() });
    block_on(async {
        sleep(ms(300)).await;
        let mut n = 0;
        while let Ok(m) = told.recv().await { n += 1; assert!(m.src == 1 && m.dst == 2); sleep(ms(50)).await; }
        assert_eq!(n, 7);
    })
}
X
'''),
    dict(id='errors-untold', prop='C32', file=L, old='let r3 = motion(stderr_pull, MotionNotifications::empty(), spy.clone(), stderr_push);',
         new='let r3 = motion(stderr_pull, MotionNotifications::empty(), spy.clone().filter(|_| self.stdin.is_some()), stderr_push);',
         needs='a watched launch whose error output is connected',
         breaks='what a program writes to its error output is not told to the watcher',
         demo='''
rs <<'X'
''' + LAUNCH + '''
fn main() {
    let mut l = shell("echo x; echo y >&2");
    let _e = l.add_output(OutputPort::Err, Breakable::Terminate, 7, 9).unwrap();
    let (spy, told) = bounded(20);
    block_on(async {
        l.start(Some(spy)).await.unwrap();
        drop(l);
        let mut n = 0;
        while let Ok(m) = told.recv().await { assert!(m.dst == 9 && m.src_port == OutputPort::Err); n += 1; }
        assert_eq!(n, 2);
    })
}
X
'''),
    dict(id='failure-untold', prop='C32', file=L, old='if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {',
         new='if let (Some(spy), src, dst, Some(src_port)) = (spy.filter(|_| r_out_prep.1.is_ok() && m.0.len() < 3), journey.src, journey.dst, journey.src_port) {',
         needs='a watched launch whose exit status is connected and that ends with a status of three digits',
         breaks='that exit status is not told to the watcher',
         demo='''
rs <<'X'
''' + LAUNCH + '''
fn main() {
    let mut l = shell("exit 127");
    let e = receiver(l.add_output(OutputPort::Exit, Breakable::Terminate, 7, 9).unwrap());
    let (spy, told) = bounded(20);
    block_on(async {
        l.start(Some(spy)).await.unwrap();
        drop(l);
        assert_eq!(text(e.recv().await.unwrap()), "127");
        assert_eq!(told.recv().await.unwrap().msg, IODataWrapper::IOData(msg("127")));
    })
}
X
'''),
    dict(id='regulators-unwatched', prop='C32', file=W, old='start(ComponentType::Regulator, n, j, spy.clone())', new='start(ComponentType::Regulator, n, j, spy.clone().filter(|s| s.capacity().is_none()))',
         needs='a whole pipeline with a regulator, watched over a bounded channel',
         breaks='what regulators pass on is not told to the watcher',
         demo='''
rs <<'X'
fn main() {
    let mut w = Waiter::new();
    let mut r = Regulator::new();
    let (s, p) = input(8, &["a", "b"]);
    s.close();
    r.add_input(p, 0).unwrap();
    let _out = r.add_output(OutputPort::Out, Breakable::Terminate, 3, 4).unwrap();
    w.add_regulator("r".to_string(), r);
    let (spy, told) = bounded(9);
    block_on(async {
        w.start(Some(spy)).await.unwrap();
        drop(w);
        let mut n = 0;
        while let Ok(_) = told.recv().await { n += 1; }
        assert_eq!(n, 3);
    })
}
X
'''),
    dict(id='closed-output-silences', prop='C32', edits=[(M, '                            unfinished_push_count -= 1;\n                        }\n                        Ok(())\n', '                            unfinished_push_count -= 1;\n                        }\n                        *spy = None;\n                        Ok(())\n')],
         needs='a watched junction with several outputs, one of which is to finish or consume and is closed early',
         breaks='from then on nothing the component passes to its other outputs is told to the watcher',
         demo='''
rs <<'X'
fn main() {
    let mut j = Junction::new();
    let (s, p) = input(8, &["a", "b", "c"]);
    s.close();
    j.add_input(p, 0).unwrap();
    let gone = j.add_output(OutputPort::Out, Breakable::Consume, 1, 2).unwrap();
    let kept = receiver(j.add_output(OutputPort::Out, Breakable::Terminate, 1, 3).unwrap());
    drop(gone);
    let (spy, told) = bounded(30);
    block_on(async {
        j.start(Some(spy)).await.unwrap();
        drop(j);
        let mut n = 0;
        while let Ok(m) = told.recv().await { if m.dst == 3 { n += 1; } }
        assert_eq!(n, 4);
        assert_eq!(kept.len(), 3);
    })
}
X
'''),
]
