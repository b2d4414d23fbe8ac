//! Monitor for N01: every cursor over a slice against a three-line model of a place in a sequence.
//! Needs RUSTFLAGS="--cfg momentous_verif".

#[cfg(not(momentous_verif))]
fn main() {
    eprintln!("harness error: built without --cfg momentous_verif");
    std::process::exit(3);
}

#[cfg(momentous_verif)]
fn main() {
    use harness::mon::*;
    install_hook();
    let args = Args::parse();
    run(&args, probe::n01)
}

#[cfg(momentous_verif)]
mod probe {
    use harness::mon::*;
    use harness::rng::*;
    use momentous::verif_hooks::{CursorProbe, Position};

    /// Place 0 is before the first element, 1..=len on an element, len + 1 after the last.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    struct Place {
        at: usize,
        len: usize,
    }

    #[derive(Clone, Copy, Debug)]
    enum Op {
        Next,
        Prev,
        Advance(usize),
        Revert(usize),
        Set(usize),
        SaveRestore,
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    enum Ret {
        Item(Option<u64>),
        Left(usize),
        Nothing,
    }

    fn value(i: usize) -> u64 {
        0xC0FF_EE00_0000u64.wrapping_add((i as u64).wrapping_mul(7))
    }

    impl Place {
        fn item(&self) -> Option<u64> {
            self.peek(0)
        }
        fn peek(&self, by: i64) -> Option<u64> {
            let at = self.at as i128 + by as i128;
            (at >= 1 && at <= self.len as i128).then(|| value(at as usize - 1))
        }
        fn position(&self) -> Position {
            if self.at == 0 {
                Position::Start
            } else if self.at == self.len + 1 {
                Position::End
            } else {
                Position::Pos(self.at - 1)
            }
        }
        fn apply(&mut self, op: Op) -> Ret {
            match op {
                Op::Next => {
                    self.at = (self.at + 1).min(self.len + 1);
                    Ret::Item(self.item())
                }
                Op::Prev => {
                    self.at -= (self.at > 0) as usize;
                    Ret::Item(self.item())
                }
                Op::Advance(n) => {
                    // Elements that lie ahead.
                    let ahead = if self.at > self.len { 0 } else { self.len - self.at };
                    let steps = n.min(ahead);
                    self.at += steps;
                    Ret::Left(n - steps)
                }
                Op::Revert(n) => {
                    let behind = if self.at == 0 { 0 } else { self.at - 1 };
                    let steps = n.min(behind);
                    self.at -= steps;
                    Ret::Left(n - steps)
                }
                Op::Set(at) => {
                    self.at = at;
                    Ret::Nothing
                }
                Op::SaveRestore => Ret::Nothing,
            }
        }
    }

    fn to_position(at: usize, len: usize) -> Position {
        Place { at, len }.position()
    }

    fn apply(c: &mut CursorProbe<u64>, op: Op, len: usize) -> Ret {
        match op {
            Op::Next => Ret::Item(c.next()),
            Op::Prev => Ret::Item(c.prev()),
            Op::Advance(n) => Ret::Left(c.advance_by(n).err().map_or(0, |n| n.get())),
            Op::Revert(n) => Ret::Left(c.revert_by(n).err().map_or(0, |n| n.get())),
            Op::Set(at) => {
                c.set_pos(to_position(at, len));
                Ret::Nothing
            }
            Op::SaveRestore => {
                let p = c.pos();
                c.next();
                c.set_pos(p);
                Ret::Nothing
            }
        }
    }

    /// Everything that can be seen of a cursor without moving it.
    fn look(c: &CursorProbe<u64>) -> (Option<u64>, Option<u64>, Option<u64>, bool, bool, Position) {
        (c.peek_prev(), c.current(), c.peek_next(), c.at_start(), c.at_end(), c.pos())
    }

    fn expected(p: &Place) -> (Option<u64>, Option<u64>, Option<u64>, bool, bool, Position) {
        (p.peek(-1), p.item(), p.peek(1), p.at == 0, p.at == p.len + 1, p.position())
    }

    fn amounts(len: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..=len + 3).collect();
        v.extend([
            2 * len + 7,
            255,
            256,
            65_535,
            65_536,
            u32::MAX as usize,
            u32::MAX as usize + 1,
            i64::MAX as usize,
            i64::MAX as usize + 1,
            usize::MAX - len - 1,
            usize::MAX - len,
            usize::MAX - 2,
            usize::MAX - 1,
            usize::MAX,
        ]);
        v
    }

    fn compare(t: &mut Tally, what: impl Fn() -> String, got: Result<(Ret, bool), Panicked>, detail: impl Fn() -> String) {
        match got {
            Ok((_, true)) => {}
            Ok((_, false)) => t.violation("cursor", format!("{}: {}", what(), detail())),
            Err(p) => t.violation("cursor", format!("{}: panics: {} at {}", what(), p.msg, p.loc)),
        }
    }

    /// One operation from one place, on a fresh cursor created in one of three ways.
    fn single(t: &mut Tally, data: &[u64], at: usize, op: Op) {
        let len = data.len();
        let before = Place { at, len };
        let mut after = before;
        let ret = after.apply(op);
        t.eval(hash_str(&format!("{len} {at} {op:?}")), true);
        let mut seen = None;
        let got = catch(|| {
            let mut c = if at == 0 {
                CursorProbe::start_of(data)
            } else if at == len + 1 {
                CursorProbe::end_of(data)
            } else {
                CursorProbe::with_pos(data, at - 1)
            };
            let l0 = look(&c);
            let r = apply(&mut c, op, len);
            let l1 = look(&c);
            seen = Some((l0, r, l1));
            (r, l0 == expected(&before) && r == ret && l1 == expected(&after))
        });
        compare(
            t,
            || format!("{op:?} at place {at} of a slice of {len}"),
            got,
            || format!("saw {seen:?}, expected {:?}", (expected(&before), ret, expected(&after))),
        );
        t.sample(|| format!("{op:?} at place {at} of a slice of {len}: {ret:?}, then {:?}", expected(&after)));
    }

    fn walk(t: &mut Tally, rng: &mut Rng, data: &[u64], steps: usize) {
        let len = data.len();
        let mut place = Place { at: 0, len };
        let mut c;
        if rng.chance(1, 2) {
            c = CursorProbe::start_of(data);
        } else {
            place.at = len + 1;
            c = CursorProbe::end_of(data);
        }
        let mut trail: Vec<Op> = Vec::new();
        for _ in 0..steps {
            let op = match rng.below(8) {
                0 | 1 => Op::Next,
                2 | 3 => Op::Prev,
                4 => Op::Advance(*rng.pick(&[0, 1, 2, 3, len / 2, len, len + 1, usize::MAX, usize::MAX - 1])),
                5 => Op::Revert(*rng.pick(&[0, 1, 2, 3, len / 2, len, len + 1, usize::MAX, usize::MAX - 1])),
                6 => Op::Set(rng.below(len as u64 + 2) as usize),
                _ => Op::SaveRestore,
            };
            trail.push(op);
            let from = place.at;
            let ret = place.apply(op);
            t.eval(hash_str(&format!("{len} {from} {op:?}")), true);
            t.count("operations inside walks");
            let mut seen = None;
            let got = catch(|| {
                let r = apply(&mut c, op, len);
                let l = look(&c);
                seen = Some((r, l));
                (r, r == ret && l == expected(&place))
            });
            let bad = !matches!(got, Ok((_, true)));
            let tail = trail[trail.len().saturating_sub(12)..].to_vec();
            compare(
                t,
                || format!("on a slice of {len}, after {tail:?}"),
                got,
                || format!("saw {seen:?}, expected {:?}", (ret, expected(&place))),
            );
            if bad {
                return;
            }
        }
    }

    /// A slice too long to hold anything: only its places can be told apart.
    fn vast(t: &mut Tally, data: &[()], rng: &mut Rng, n: u64) {
        let len = data.len();
        let position = |at: usize| to_position(at, len);
        let item = |at: usize| (at >= 1 && at <= len).then_some(());
        let near = |rng: &mut Rng| -> usize {
            let base = match rng.below(6) {
                0 => 0,
                1 => len + 1,
                2 => len / 2,
                3 => 1usize << rng.below(63),
                _ => rng.u64() as usize % (len + 2),
            };
            let d = rng.below(5) as usize;
            if rng.chance(1, 2) { base.saturating_add(d).min(len + 1) } else { base.saturating_sub(d).min(len + 1) }
        };
        for _ in 0..n {
            let at = near(rng);
            let op = match rng.below(6) {
                0 => Op::Next,
                1 => Op::Prev,
                2 => Op::Advance(if rng.chance(1, 4) { usize::MAX - rng.below(3) as usize } else { near(rng) }),
                3 => Op::Revert(if rng.chance(1, 4) { usize::MAX - rng.below(3) as usize } else { near(rng) }),
                4 => Op::Set(near(rng)),
                _ => Op::SaveRestore,
            };
            let mut after = Place { at, len };
            let ret = after.apply(op);
            // The values cannot be seen, only whether there is one.
            let (ret_item, ret_left) = match ret {
                Ret::Item(v) => (Some(v.map(|_| ())), None),
                Ret::Left(n) => (None, Some(n)),
                Ret::Nothing => (None, None),
            };
            t.eval(hash_str(&format!("vast {len} {at} {op:?}")), true);
            t.count("operations on slices of up to 2^63 - 3 elements without a size");
            let mut seen = None;
            let got = catch(|| {
                let mut c = if at == 0 {
                    CursorProbe::start_of(data)
                } else if at == len + 1 {
                    CursorProbe::end_of(data)
                } else {
                    CursorProbe::with_pos(data, at - 1)
                };
                let before = c.pos();
                let (i, l) = match op {
                    Op::Next => (Some(c.next()), None),
                    Op::Prev => (Some(c.prev()), None),
                    Op::Advance(n) => (None, Some(c.advance_by(n).err().map_or(0, |n| n.get()))),
                    Op::Revert(n) => (None, Some(c.revert_by(n).err().map_or(0, |n| n.get()))),
                    Op::Set(to) => {
                        c.set_pos(position(to));
                        (None, None)
                    }
                    Op::SaveRestore => {
                        let p = c.pos();
                        c.next();
                        c.set_pos(p);
                        (None, None)
                    }
                };
                let p = after.at;
                let l1 = (c.peek_prev(), c.current(), c.peek_next(), c.at_start(), c.at_end(), c.pos());
                let prev = if p == 0 { None } else { item(p - 1) };
                let want = (prev, item(p), item(p + 1), p == 0, p == len + 1, position(p));
                let good = before == position(at) && i == ret_item && l == ret_left && l1 == want;
                seen = Some((before, i, l, l1));
                (ret, good)
            });
            compare(t, || format!("{op:?} at place {at} of a slice of {len}"), got, || format!("saw {seen:?}, expected {ret:?}, then place {}", after.at));
            if t.enough() {
                return;
            }
        }
    }

    pub fn n01(a: &Args) -> Tally {
        let mut t = Tally::new(0);
        // Every place, every operation, for every small slice.
        let max_len = a.n(40, 160) as usize;
        for len in (0..=max_len).chain([255, 256, 257, 32_768, 65_535, 65_536, 70_001, 200_000]) {
            let data: Vec<u64> = (0..len).map(value).collect();
            let places: Vec<usize> = if len <= max_len { (0..=len + 1).collect() } else { vec![0, 1, 2, 127, 128, 129, 254, len / 2, len - 1, len, len + 1] };
            for &at in &places {
                let mut ops = vec![Op::Next, Op::Prev, Op::SaveRestore];
                let am = if len <= max_len { amounts(len) } else { vec![0, 1, 254, 255, 256, 257, 32_768, 65_534, 65_535, 65_536, 65_537, len - 1, len, len + 1, usize::MAX] };
                for n in am {
                    ops.push(Op::Advance(n));
                    ops.push(Op::Revert(n));
                }
                ops.extend(places.iter().map(|p| Op::Set(*p)));
                for op in ops {
                    single(&mut t, &data, at, op);
                }
                if t.enough() {
                    return t;
                }
            }
            t.count("slice lengths enumerated over every place and operation");
        }
        t.add("single operations from a fresh cursor", t.evals);
        // Slices longer than any counter narrower than an address.
        let vast_ops = a.n(3_000, 100_000);
        let mut rng = Rng::new(&[a.seed, hash_str("N01 vast")]);
        for len in [65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 53, (1 << 53) + 1, 1 << 62, i64::MAX as usize - 2] {
            // SAFETY: a slice of elements without a size occupies no memory.
            let data: &[()] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), len) };
            vast(&mut t, data, &mut rng, vast_ops);
            if t.enough() {
                return t;
            }
        }
        // Long walks.
        let walks = a.n(400, 20_000);
        let part = shards((0..a.threads).collect(), |t, _w: &mut u64, shard| {
            let mut rng = Rng::new(&[a.seed, hash_str("N01"), shard]);
            for _ in 0..walks {
                let len = match rng.below(17) {
                    0..4 => rng.below(4),
                    4..8 => rng.below(12),
                    8..12 => rng.below(60),
                    12..16 => rng.below(1000),
                    _ => 66_000 + rng.below(4000),
                } as usize;
                let data: Vec<u64> = (0..len).map(value).collect();
                walk(t, &mut rng, &data, 120);
                t.count("walks");
                if t.enough() {
                    return;
                }
            }
        });
        t.merge(part);
        t
    }
}
