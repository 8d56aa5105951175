BUF = '''
rs <<'X'
fn main() { block_on(async {
    let mut b = Buffer::new();
    let _out = receiver(b.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let (s, p) = input(1, &[]);
    b.add_input(p, 0).unwrap();
    spawn(async move { b.start(None).await.is_ok() });
    for i in 0..5000 {
        assert!(async_std::future::timeout(ms(5000), s.send(msg("x"))).await.is_ok(), "the buffer makes its input wait after {} messages", i);
    }
}) }
X
'''
REG = '''
rs <<'X'
fn main() { block_on(async {
    let mut b = KIND::new();
    let out = receiver(b.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let (s, p) = input(1, &[]);
    b.add_input(p, 0).unwrap();
    spawn(async move { b.start(None).await.is_ok() });
    for i in 0..400 {
        if async_std::future::timeout(ms(2000), s.send(msg("x"))).await.is_err() { return; }
    }
    assert!(out.is_empty(), "everything is taken although nothing is read");
}) }
X
'''
LQ = '''
rs <<'X'
fn main() { block_on(async {
    let mut l: Launch<std::collections::HashMap<String, String>, String, String, Vec<String>, String, String, String> = Launch::new(0, None, None, "sh".to_string(), Some(vec!["-c".to_string(), "seq 3000 >&2".to_string()]));
    let out = receiver(l.add_output(OutputPort::Err, Breakable::Terminate, 0, 0).unwrap());
    spawn(async move { let r = l.start(None).await; eprintln!("{:?}", r) });
    sleep(ms(1500)).await;
    eprintln!("{}", out.len());
    assert!(out.len() < 100, "{} messages are held although nothing is read", out.len());
}) }
X
'''
CAT = '''
rs <<'X'
fn main() {
    let mut w = Waiter::new();
    let mut l: Launch<std::collections::HashMap<String, String>, String, String, Vec<String>, String, String, String> = Launch::new(0, None, None, "cat".to_string(), None);
    let (s, p) = input(1, &[]);
    l.add_input(p, 0).unwrap();
    let out = receiver(l.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    w.add_launch("l".to_string(), l);
    std::thread::spawn(move || block_on(w.start(None)).is_ok());
    block_on(async {
        let feed = spawn(async move { for _ in 0..300 { s.send(msg(&("y".repeat(4000) + "\n"))).await.unwrap(); } });
        let mut n = 0;
        while let Ok(Ok(m)) = async_std::future::timeout(ms(10000), out.recv()).await { n += m.0.len(); }
        assert_eq!(n, 300 * 4001, "the program and its input wait for each other");
        feed.await;
    })
}
X
'''
HALVES = '''
rs <<'X'
fn main() { block_on(async {
    let mut b = Buffer::new();
    let out = receiver(b.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let (s, p) = input(1, &["x"]);
    b.add_input(p, 0).unwrap();
    spawn(async move { b.start(None).await.is_ok() });
    assert!(async_std::future::timeout(ms(5000), out.recv()).await.is_ok(), "nothing comes out while the input is open");
    s.close();
}) }
X
'''
TWO = '''
rs <<'X'
fn main() {
    let mut w = Waiter::new();
    // two of KIND: the second one's data comes first
    let (s1, p1) = input(1, &[]);
    let (s2, p2) = input(1, &[]);
    let mut outs = vec![];
    for (i, p) in [p1, p2].into_iter().enumerate() {
        let mut r = KIND::new();
        r.add_input(p, 0).unwrap();
        outs.push(receiver(r.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap()));
        w.ADD(format!("r{}", i), r);
    }
    std::thread::spawn(move || block_on(w.start(None)).is_ok());
    block_on(async {
        for (s, o) in [(&s1, &outs[0]), (&s2, &outs[1]), (&s1, &outs[0])] {
            s.send(msg("x")).await.unwrap();
            assert!(async_std::future::timeout(ms(5000), o.recv()).await.is_ok(), "one of them does not run");
        }
    })
}
X
'''
SLOW = '''
rs <<'X'
fn main() {
    let mut w = Waiter::new();
    let mut j = Junction::new();
    let (_s1, p1) = input(1, &[]);
    j.add_input(p1, 0).unwrap();
    let _o = j.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap();
    w.add_junction("j".to_string(), j);
    let mut r = Regulator::new();
    let (s, p) = input(1, &[]);
    r.add_input(p, 0).unwrap();
    let out = receiver(r.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    w.add_regulator("r".to_string(), r);
    std::thread::spawn(move || block_on(w.start(None)).is_ok());
    block_on(async {
        sleep(ms(4000)).await;
        let t = std::time::Instant::now();
        for _ in 0..10 { s.send(msg("x")).await.unwrap(); out.recv().await.unwrap(); }
        assert!(t.elapsed() < ms(1000), "an idle junction holds up a regulator: {:?}", t.elapsed());
    })
}
X
'''
KILLED = '''
rs <<'X'
fn main() {
    let mut w = Waiter::new();
    let mut l: Launch<std::collections::HashMap<String, String>, String, String, Vec<String>, String, String, String> = Launch::new(0, None, None, "sh".to_string(), Some(vec!["-c".to_string(), "kill -9 $$".to_string()]));
    let exit = receiver(l.add_output(OutputPort::Exit, Breakable::Terminate, 0, 0).unwrap());
    w.add_launch("l".to_string(), l);
    let h = std::thread::spawn(move || block_on(w.start(None)).is_ok());
    block_on(async { let _ = async_std::future::timeout(ms(5000), exit.recv()).await; });
    assert!(h.join().unwrap_or(false), "the pipeline panics");
}
X
'''
MANAGER = '''
rs <<'X'
fn main() {
    let mut w = Waiter::new();
    let mut ins = vec![]; let mut outs = vec![];
    for n in ["b1", "b2"] {
        let mut b = Buffer::new();
        let (s, p) = input(8, &[]);
        b.add_input(p, 0).unwrap();
        outs.push(receiver(b.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap()));
        ins.push(s);
        w.add_buffer(n.to_string(), b);
    }
    let mut r = Regulator::new();
    let (rs, rp) = input(100, &[]);
    r.add_input(rp, 0).unwrap();
    let _ro = receiver(r.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    w.add_regulator("r".to_string(), r);
    w.configure_regulator("r".to_string(), vec!["b1".to_string(), "b2".to_string()], 2, 5);
    let h = std::thread::spawn(move || block_on(w.start(None)).is_ok());
    std::thread::sleep(ms(3000));
    for s in ins { s.close(); }
    rs.close();
    assert!(h.join().unwrap_or(false), "the pipeline panics");
}
X
'''
S = [
 dict(id='buffer-bounded-inside', prop='C20', file='src/buffer.rs', old='let (unbounded_snd, unbounded_rcv) = unbounded();', new='let (unbounded_snd, unbounded_rcv) = bounded(1024);', needs='more than a thousand messages waiting in a buffer', breaks='the buffer makes its input wait', demo=BUF),
 dict(id='regulator-unbounded', prop='C20', file='src/regulator.rs', old='= bounded(self.stdout_size);', new='= async_std::channel::unbounded();', needs='an output that is taken more slowly than the input arrives', breaks='the regulator holds back any amount of data in memory', demo=REG.replace('KIND', 'Regulator')),
 dict(id='launch-out-unbounded', prop='C20', file='src/launch.rs', old='let (child_stdout_push_channel, chan_rx) = bounded(1);', new='let (child_stdout_push_channel, chan_rx) = async_std::channel::unbounded();', needs='a program that writes more than is taken', breaks='its output piles up in memory', demo=LQ),
 dict(id='buffers-in-turn', prop='C21', file='src/waiter.rs', old='let buffers = join_all(self.buffer.iter_mut().map(|(n, b)| start(ComponentType::Buffer, n, b, spy.clone())));',
      new='''let buffer_map = &mut self.buffer;
        let buffer_spy = spy.clone();
        let buffers = async move {
            let mut v = vec![];
            for (n, b) in buffer_map.iter_mut() { v.push(start(ComponentType::Buffer, n, b, buffer_spy.clone()).await); }
            v
        };''', needs='two buffers that are in use at the same time', breaks='the second takes nothing before the first has ended', demo=TWO.replace('KIND', 'Buffer').replace('ADD', 'add_buffer')),
 dict(id='regulators-after-the-rest', prop='C21', file='src/waiter.rs', old='''launch.join(regulators.join(faucets.join(managed_regulators.join(drain.join(buffers.join(junction)))))).await;''',
      new='''{ let (l, x) = launch.join(faucets.join(managed_regulators.join(drain.join(buffers.join(junction))))).await; (l, (regulators.await, x)) };''',
      needs='a regulator whose input another component feeds', breaks='the regulator takes nothing until the others have ended, which wait for it', demo=TWO.replace('KIND', 'Regulator').replace('ADD', 'add_regulator').replace('let mut w = Waiter::new();', '''let mut w = Waiter::new();
    let mut jj = Junction::new();
    let (_js, jp) = input(1, &[]);
    jj.add_input(jp, 0).unwrap();
    w.add_junction("jj".to_string(), jj);''')),
 dict(id='backoff-blocks', prop='C21', file='src/back_off.rs', old='''        async_std::task::sleep(
            std::time::Duration::from_millis(self.count * self.count)
        ).await;''', new='''        let pause = std::time::Duration::from_millis(self.count * self.count);
        if self.count > 12 { std::thread::sleep(pause); } else { async_std::task::sleep(pause).await; }''', needs='a component that stays idle for a while beside one that is busy', breaks='the idle component stops the busy one', demo=SLOW),
 dict(id='killed-unwrap', prop='C31', file='src/launch.rs', old='child.status().await.ok().map(|es| es.code())', new='child.status().await.ok().map(|es| Some(es.code().unwrap()))', needs='a program that is killed by a signal and whose exit status is connected', breaks='the whole pipeline panics', demo=KILLED),
 dict(id='manager-remove-order', prop='C31', file='src/waiter.rs', old='for tr in to_remove.into_iter().rev() {', new='for tr in to_remove {', needs='two monitored buffers that end between two looks of the manager', breaks='the pipeline panics', demo=MANAGER),
]
