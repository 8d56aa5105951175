use async_std::channel::{bounded, unbounded, Receiver, Sender};
use async_std::task::{block_on, sleep, spawn};
use pipeawesome2::buffer::*;
use pipeawesome2::connectable::*;
use pipeawesome2::drain::*;
use pipeawesome2::faucet::*;
use pipeawesome2::junction::*;
use pipeawesome2::launch::*;
use pipeawesome2::motion::*;
use pipeawesome2::regulator::*;
use pipeawesome2::startable_control::StartableControl;
use pipeawesome2::waiter::*;
use std::time::Duration;

fn ms(n: u64) -> Duration { Duration::from_millis(n) }
fn msg(s: &str) -> IOData { IOData(s.as_bytes().to_vec()) }
fn text(m: IOData) -> String {
    String::from_utf8(m.0).unwrap()
}
fn input(n: usize, fill: &[&str]) -> (Sender<IOData>, Pull) {
    let (s, r) = bounded(n);
    for f in fill { s.try_send(msg(f)).unwrap(); }
    (s, Pull::Receiver(PullJourney { src: 0, dst: 0 }, r))
}
fn receiver(p: Pull) -> Receiver<IOData> { match p { Pull::Receiver(_, r) => r, _ => panic!() } }
