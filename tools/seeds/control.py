JORDER = '''
rs <<'X'
fn main() { block_on(async {
    let mut j = Junction::new();
    let out = receiver(j.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let (a, pa) = input(8, &["a1", "a2"]);
    let (b, pb) = input(8, &["b1", "b2"]);
    let (c, pc) = input(8, &["c1"]);
    j.add_input(pa, 1).unwrap(); j.add_input(pb, 1).unwrap(); j.add_input(pc, 1).unwrap();
    a.close(); b.close();
    let h = spawn(async move { j.start(None).await.map(|_| ()).is_ok() });
    sleep(ms(300)).await;
    for i in 2..6 { assert!(c.send(msg(&format!("c{}", i))).await.is_ok(), "the open input was dropped"); sleep(ms(20)).await; }
    c.close();
    let mut got = vec![];
    while let Ok(m) = out.recv().await { got.push(text(m)); }
    assert_eq!(got.iter().filter(|m| m.starts_with('c')).count(), 5, "{:?}", got);
    assert!(h.await);
}) }
X
'''
JTURNS = '''
rs <<'X'
fn main() { block_on(async {
    let mut j = Junction::new();
    let out = receiver(j.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let (z, pz) = input(8, &["z"]);
    let (a, pa) = input(8, &["a", "a", "a", "a"]);
    let (b, pb) = input(8, &["b", "b", "b", "b"]);
    j.add_input(pz, PZ).unwrap(); j.add_input(pa, PA).unwrap(); j.add_input(pb, PB).unwrap();
    a.close(); b.close(); z.close();
    let h = spawn(async move { j.start(None).await.map(|_| ()).is_ok() });
    let mut got = String::new();
    while let Ok(m) = out.recv().await { got += &text(m); }
    assert_eq!(got, "WANT");
    assert!(h.await);
}) }
X
'''
MARKS = '''
rs <<'X'
fn main() { block_on(async {
    let mut w = Waiter::new();
    let mut ins = vec![]; let mut outs = vec![];
    for n in ["b1", "b2"] {
        let mut b = Buffer::new();
        let (s, p) = input(8, &[]);
        b.add_input(p, 0).unwrap();
        outs.push(receiver(b.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap()));
        ins.push(s);
        w.add_buffer(n.to_string(), b);
    }
    let mut r = Regulator::new();
    let (rs, rp) = input(100, &[]);
    r.add_input(rp, 0).unwrap();
    r.set_stdout_size(100);
    let ro = receiver(r.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    w.add_regulator("r".to_string(), r);
    w.configure_regulator("r".to_string(), vec!["b1".to_string(), "b2".to_string()], LO, HI);
    let h = std::thread::spawn(move || block_on(w.start(None)).is_ok());
    let drain = |o: Receiver<IOData>| async move { let mut n = 0; while let Ok(Ok(m)) = async_std::future::timeout(ms(700), o.recv()).await { if text(m) != "" { n += 1; } } n };
    let fill = |s: Sender<IOData>, n: usize| async move { for _ in 0..n { s.send(msg("x")).await.unwrap(); } };
    // 1: what fits into the outputs, then N more in each buffer
    fill(ins[0].clone(), 8 + N1).await;
    fill(ins[1].clone(), 8 + N2).await;
    sleep(ms(700)).await;
    for i in 0..6 { rs.send(msg(&format!("{}", i))).await.unwrap(); sleep(ms(30)).await; }
    sleep(ms(300)).await;
    let mut n = 0;
    while let Ok(_) = ro.try_recv() { n += 1; }
    assert!(PAUSED, "{} messages went through", n);
    STEP
    assert_eq!(drain(outs[0].clone()).await + drain(outs[1].clone()).await, REST);
    n += drain(ro.clone()).await;
    assert_eq!(n, 6, "not resumed");
    rs.close(); for s in &ins { s.close(); }
    for o in &outs { while let Ok(_) = o.recv().await {} }
    assert!(h.join().unwrap());
}) }
X
'''


def marks(LO, HI, N1, N2, PAUSED, STEP='', REST=None):
    t = MARKS
    for k, v in dict(LO=LO, HI=HI, N1=N1, N2=N2, PAUSED=PAUSED, STEP=STEP, REST=REST if REST is not None else 16 + N1 + N2).items():
        t = t.replace(k, str(v))
    return t


GATE = '''
rs <<'X'
fn main() { block_on(async {
    let mut r = Regulator::new();
    let (rs, rp) = input(100, &[]);
    r.add_input(rp, 0).unwrap();
    r.set_stdout_size(100);
    let ro = receiver(r.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let mut c = r.get_control();
    let h = spawn(async move { r.start(None).await.map(|_| ()).is_ok() });
    let mut want = 0; let mut got = 0;
    for round in 0..3 {
        assert!(c.pause().await.is_ok());
        c.pause().await.unwrap();
        for i in 0..4 { rs.send(msg("m")).await.unwrap(); sleep(ms(20)).await; }
        want += 4;
        sleep(ms(WAIT)).await;
        let mut n = 0;
        while let Ok(_) = ro.try_recv() { n += 1; }
        got += n;
        assert!(n <= 1, "round {}: {} messages while paused", round, n);
        c.resume().await.unwrap();
        while let Ok(Ok(_)) = async_std::future::timeout(ms(400), ro.recv()).await { got += 1; }
        assert_eq!(got, want);
    }
    rs.close();
    assert!(h.await);
}) }
X
'''
LEVEL = '''
rs <<'X'
fn main() { block_on(async {
    let mut b = Buffer::new();
    let (s, p) = input(8, &[]);
    b.add_input(p, 0).unwrap();
    let out = receiver(b.add_output(OutputPort::Out, Breakable::Terminate, 0, 0).unwrap());
    let mon = b.add_buffer_size_monitor();
    let h = spawn(async move { b.start(None).await.map(|_| ()).is_ok() });
    let level = || async { let mut l = None; while let Ok(Ok(BufferSizeMessage(n))) = async_std::future::timeout(ms(400), mon.recv()).await { l = Some(n); } l };
    for _ in 0..8 { s.send(msg("x")).await.unwrap(); }
    for _ in 0..7 { s.send(msg("x")).await.unwrap(); }
    let l = level().await;
    assert!(l == Some(7) || l == Some(6), "level {:?} with 7 messages kept back", l);
    for _ in 0..5 { out.recv().await.unwrap(); sleep(ms(20)).await; }
    let l2 = level().await;
    assert!(l2 == l.map(|l| l - 5), "level {:?} after {:?} - 5", l2, l);
    for _ in 0..10 { out.recv().await.unwrap(); }
    let l3 = level().await;
    assert!(l3 == Some(0), "level {:?} when empty", l3);
    drop(mon);
    s.close();
}) }
X
'''
S = [
 dict(id='junction-one-per-round', prop='C22', file='src/junction.rs', old='        if r.finished { finished_pulls.push(pull_index); continue; }\n', new='        if r.finished { finished_pulls.push(pull_index); continue; }\n        if r.read && !skipped.is_empty() { break; }\n',
      needs='several inputs of the same priority of which an earlier one has nothing and two later ones keep having data', breaks='the later of them is not looked at while the earlier has data',
      demo=JTURNS.replace('z.close();', '').replace('PZ', '3').replace('PA', '3').replace('PB', '3').replace('["z"]', '[]').replace('    let mut got', '    sleep(ms(300)).await; z.close();\n    let mut got').replace('WANT', 'abababab')),
 dict(id='marks-forget', prop='C23', file='src/waiter.rs', old='''                    total += buffer_size_monitor.buffer_size;
                },''', new='''                    total += if regulator_status == RegulatorStatus::Open { buffer_size_monitor.buffer_size } else { 0 };
                },''', needs='a regulator that is paused while its full buffers report nothing new', breaks='it is resumed although the buffers are full', demo=marks(2, 6, 10, 10, 'n <= 1')),
 dict(id='marks-high-resume', prop='C23', file='src/waiter.rs', old='total <= regulator_settings.low_watermark', new='total < regulator_settings.high_watermark', needs='a level between the marks while paused', breaks='the regulator is resumed as soon as the level is below the high mark',
      demo=marks(2, 16, 8, 10, 'n <= 1', STEP='''for _ in 0..5 { outs[0].recv().await.unwrap(); } sleep(ms(500)).await;
    while let Ok(_) = ro.try_recv() { n += 1; }
    assert!(n <= 1, "{} messages went through between the marks", n);''', REST=16 + 13)),
 dict(id='gate-gives-up', prop='C24', file='src/regulator.rs', old='let _x = rec.recv().await;', new='let _x = async_std::future::timeout(std::time::Duration::from_secs(1), rec.recv()).await;', needs='a pause that lasts more than a second', breaks='the regulator carries on by itself', demo=GATE.replace('WAIT', '2500')),
 dict(id='toggle-forgets', prop='C24', file='src/regulator.rs', old='''        if !self.paused { return Ok(false); }
        self.paused = false;''', new='''        if !std::mem::take(&mut self.paused) { return Ok(false); }
        self.paused = self.control.is_full();''', needs='a resume while the pause has not been noticed yet', breaks='the next pause is not signalled', demo=GATE.replace('WAIT', '300').replace('for round in 0..3 {', '''for round in 0..3 {
        c.pause().await.unwrap();
        let t = std::thread::spawn(move || { block_on(c.resume()).unwrap(); c });
        sleep(ms(100)).await; rs.send(msg("m")).await.unwrap(); want += 1;
        c = t.join().unwrap();
        while let Ok(Ok(_)) = async_std::future::timeout(ms(400), ro.recv()).await { got += 1; }''')),
 dict(id='level-one-way', prop='C29', file='src/buffer.rs', old='match (last != size, &sender) {', new='match (last < size || size == 0, &sender) {', needs='a level that falls without reaching zero', breaks='the new level is not reported', demo=LEVEL),
]
