//! The simulated audio device: hands the engine host buffers of every shape,
//! poisoned and fenced, and checks that the callback treats them as it must.

use crate::plan::Call;
use rawdio::*;
use simrt::{rng::mix, yield_point, Y_BUF};
use std::{
    cell::Cell,
    sync::atomic::{AtomicU64, Ordering::Relaxed},
};

/// Recognisable NaN: "nobody wrote this sample".
pub const POISON: u32 = 0x7fc0_dead;
pub const FENCE: u32 = 0x7fc0_fe9c;
fn poison() -> f32 {
    f32::from_bits(POISON)
}
fn fence() -> f32 {
    f32::from_bits(FENCE)
}
fn bad(msg: String) -> ! {
    simrt::fatal("host-buffer", &msg)
}

const PAD: usize = 8;

thread_local! {
    static ENGINE: Cell<usize> = const { Cell::new(usize::MAX) };
}
static ACCESSES: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];

pub fn forget() {
    for a in &ACCESSES {
        a.store(0, Relaxed);
    }
}

/// Accesses to the host buffers of an engine from here on are counted.
pub fn count_accesses_for(e: usize) {
    ENGINE.with(|c| c.set(e));
}
/// How often an engine has accessed the samples of its host buffers.
pub fn accesses(e: usize) -> u64 {
    ACCESSES[e % 16].load(Relaxed)
}
fn accessed() {
    let e = ENGINE.with(|c| c.get());
    if e != usize::MAX {
        ACCESSES[e % 16].fetch_add(1, Relaxed);
    }
}

/// A host buffer implementation of its own: every access is a scheduling point.
pub struct HostBuf {
    ch: usize,
    frames: usize,
    sr: usize,
    data: Vec<f32>,
}

impl HostBuf {
    pub fn new(ch: usize, frames: usize, sr: usize) -> Self {
        Self {
            ch,
            frames,
            sr,
            data: vec![fence(); ch * (frames + 2 * PAD) + PAD],
        }
    }
    fn at(&self, ch: usize) -> usize {
        ch * (self.frames + 2 * PAD) + PAD
    }
    fn row(&self, ch: usize) -> &[f32] {
        let a = self.at(ch);
        &self.data[a..a + self.frames]
    }
    fn row_mut(&mut self, ch: usize) -> &mut [f32] {
        let a = self.at(ch);
        let n = self.frames;
        &mut self.data[a..a + n]
    }
    fn fences_hold(&self) -> bool {
        (0..self.data.len()).all(|i| {
            let w = self.frames + 2 * PAD;
            let inside = i / w < self.ch && (PAD..PAD + self.frames).contains(&(i % w));
            inside || self.data[i].to_bits() == FENCE
        })
    }
    fn check(&self, l: &SampleLocation) {
        if l.channel >= self.ch || l.frame > self.frames {
            bad(format!(
                "host buffer of {} channels and {} frames accessed at channel {} frame {}",
                self.ch, self.frames, l.channel, l.frame
            ));
        }
    }
}

impl AudioBuffer for HostBuf {
    fn channel_count(&self) -> usize {
        self.ch
    }
    fn frame_count(&self) -> usize {
        self.frames
    }
    fn sample_rate(&self) -> usize {
        self.sr
    }
    fn get_channel_data(&self, l: SampleLocation) -> &[f32] {
        yield_point(Y_BUF);
        accessed();
        self.check(&l);
        &self.row(l.channel)[l.frame..]
    }
    fn get_channel_data_mut(&mut self, l: SampleLocation) -> &mut [f32] {
        yield_point(Y_BUF);
        accessed();
        self.check(&l);
        &mut self.row_mut(l.channel)[l.frame..]
    }
    fn duplicate_channel(&mut self, source: SampleLocation, to: usize, n: usize) {
        self.check(&source);
        let src: Vec<f32> = self.row(source.channel)[source.frame..source.frame + n].to_vec();
        self.row_mut(to)[source.frame..source.frame + n].copy_from_slice(&src);
    }
}

fn same_input(read: impl Fn(usize, usize) -> f32, input: &[Vec<f32>]) {
    for (c, x) in input.iter().enumerate() {
        for (f, v) in x.iter().enumerate() {
            if read(c, f).to_bits() != v.to_bits() {
                bad(format!("the callback modified its input at channel {c} frame {f}"));
            }
        }
    }
}

fn rows(c: usize, n: usize, read: impl Fn(usize, usize) -> f32) -> Vec<Vec<f32>> {
    let out: Vec<Vec<f32>> = (0..c).map(|c| (0..n).map(|f| read(c, f)).collect()).collect();
    for (c, x) in out.iter().enumerate() {
        for (f, v) in x.iter().enumerate() {
            if v.to_bits() == POISON {
                bad(format!("output sample at channel {c} frame {f} was not overwritten"));
            }
        }
    }
    out
}

/// One host callback of the given shape; returns what the device would play.
pub fn callback(
    c: &Call,
    sr: usize,
    inter: bool,
    salt: u64,
    input: &[Vec<f32>],
    process: &mut dyn FnMut(&dyn AudioBuffer, &mut dyn AudioBuffer),
) -> Vec<Vec<f32>> {
    let n = c.frames;
    if inter {
        return interleaved(c, sr, salt, input, process);
    }
    match c.buf {
        1 => {
            let mut i = OwnedAudioBuffer::new(n, c.in_ch, sr);
            for (ch, x) in input.iter().enumerate() {
                if n > 0 {
                    i.fill_from_slice(x, SampleLocation::channel(ch));
                }
            }
            let mut o = OwnedAudioBuffer::new(n, c.out_ch, sr);
            for ch in 0..c.out_ch {
                if n > 0 {
                    o.get_channel_data_mut(SampleLocation::channel(ch)).fill(poison());
                }
            }
            process(&i, &mut o);
            same_input(|c, f| i.get_sample(SampleLocation::new(c, f)), input);
            rows(c.out_ch, n, |c, f| o.get_sample(SampleLocation::new(c, f)))
        }
        2 => {
            // a window of a larger buffer, through nested borrowed views
            let r = mix(salt, 77);
            let (a, b) = ((r % 13) as usize, (r / 13 % 17) as usize);
            let (x, y) = ((r / 221 % 3) as usize, (r / 663 % 3) as usize);
            let mut big_i = HostBuf::new(c.in_ch + x + y, n + a + b, sr);
            for (ch, v) in input.iter().enumerate() {
                big_i.row_mut(ch + x)[a..a + n].copy_from_slice(v);
            }
            let before: Vec<u32> = big_i.data.iter().map(|v| v.to_bits()).collect();
            let mut big_o = HostBuf::new(c.out_ch + x + y, n + a + b, sr);
            for ch in 0..c.out_ch {
                big_o.row_mut(ch + x)[a..a + n].fill(poison());
            }
            {
                let i1 = BorrowedAudioBuffer::slice_frames(&big_i, a, n);
                let i2 = BorrowedAudioBuffer::slice_channels(&i1, x, c.in_ch);
                let mut o1 = MutableBorrowedAudioBuffer::slice_channels(&mut big_o, x, c.out_ch);
                let mut o2 = MutableBorrowedAudioBuffer::slice_frames(&mut o1, a, n);
                process(&i2, &mut o2);
            }
            if !big_i.data.iter().map(|v| v.to_bits()).eq(before.into_iter()) {
                bad("the callback modified its input".into());
            }
            let out = rows(c.out_ch, n, |ch, f| big_o.row(ch + x)[a + f]);
            for ch in 0..c.out_ch {
                big_o.row_mut(ch + x)[a..a + n].fill(fence());
            }
            if !big_o.data.iter().all(|v| v.to_bits() == FENCE) {
                bad("the callback wrote outside the output window it was given".into());
            }
            out
        }
        _ => {
            let mut i = HostBuf::new(c.in_ch, n, sr);
            for (ch, x) in input.iter().enumerate() {
                i.row_mut(ch).copy_from_slice(x);
            }
            let mut o = HostBuf::new(c.out_ch, n, sr);
            for ch in 0..c.out_ch {
                o.row_mut(ch).fill(poison());
            }
            process(&i, &mut o);
            if !i.fences_hold() || !o.fences_hold() {
                bad("the callback wrote outside its buffers".into());
            }
            same_input(|c, f| i.row(c)[f], input);
            rows(c.out_ch, n, |c, f| o.row(c)[f])
        }
    }
}

fn check_eq(what: &str, got: &[f32], want: &[f32]) {
    if got.len() != want.len() {
        bad(format!("interleaved transfer: {what}: {} samples, expected {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.to_bits() != w.to_bits() {
            bad(format!("interleaved transfer: {what}: position {i} holds {g}, expected {w}"));
        }
    }
}

/// A host whose device data is interleaved, with its own channel and frame counts.
fn interleaved(
    c: &Call,
    sr: usize,
    salt: u64,
    input: &[Vec<f32>],
    process: &mut dyn FnMut(&dyn AudioBuffer, &mut dyn AudioBuffer),
) -> Vec<Vec<f32>> {
    let n = c.frames;
    transfers(sr, salt);
    arithmetic(sr, salt);
    // device -> engine
    let extra = (mix(salt, 3) % 3) as usize;
    let dev_ch = c.in_ch + extra;
    let dev: Vec<f32> = (0..n * dev_ch)
        .map(|k| {
            let (f, ch) = (k / dev_ch, k % dev_ch);
            if ch < c.in_ch {
                input[ch][f]
            } else {
                9.5
            }
        })
        .collect();
    let mut i = OwnedAudioBuffer::new(n, c.in_ch, sr);
    i.fill_from_interleaved(&dev, dev_ch, n);
    for ch in 0..c.in_ch {
        if n > 0 {
            check_eq("filling the input", i.get_channel_data(SampleLocation::channel(ch)), &input[ch]);
        }
    }
    let mut o = OwnedAudioBuffer::new(n, c.out_ch, sr);
    for ch in 0..c.out_ch {
        if n > 0 {
            o.get_channel_data_mut(SampleLocation::channel(ch)).fill(poison());
        }
    }
    process(&i, &mut o);
    // engine -> device: device may have more or fewer channels
    let out_dev = match mix(salt, 4) % 3 {
        0 => c.out_ch,
        1 => c.out_ch + 1 + (mix(salt, 5) % 2) as usize,
        _ => c.out_ch.saturating_sub(1),
    };
    let out = rows(c.out_ch, n, |c, f| o.get_sample(SampleLocation::new(c, f)));
    let mut dev = vec![fence(); n * out_dev];
    o.copy_to_interleaved(&mut dev, out_dev, n);
    for f in 0..n {
        for ch in 0..out_dev {
            let want = if ch < c.out_ch { out[ch][f] } else { fence() };
            check_eq("delivering the output", &dev[f * out_dev + ch..f * out_dev + ch + 1], &[want]);
        }
    }
    out
}

/// Transfers of random shape through nested views, against plain index arithmetic.
fn transfers(sr: usize, salt: u64) {
    let mut r = simrt::Rng::new(mix(salt, 0x7a));
    for _ in 0..6 {
        let (bc, bf) = (1 + r.usize(5), 1 + r.usize(40));
        let mut buf = OwnedAudioBuffer::new(bf, bc, sr);
        let mut want: Vec<Vec<f32>> = vec![];
        for ch in 0..bc {
            let v: Vec<f32> = (0..bf).map(|f| 1000.0 + (ch * 100 + f) as f32).collect();
            buf.fill_from_slice(&v, SampleLocation::channel(ch));
            want.push(v);
        }
        // a window (frames [fo, fo+fnum), channels [co, co+cn)), reached by nesting
        let fnum = 1 + r.usize(bf);
        let fo = r.usize(bf - fnum + 1);
        let cn = 1 + r.usize(bc);
        let co = r.usize(bc - cn + 1);
        let inner_f = 1 + r.usize(fnum);
        let inner_c = 1 + r.usize(cn);
        let nesting = r.usize(4);
        let dev_ch = 1 + r.usize(6);
        let dev_n = r.usize(45);
        let data: Vec<f32> = (0..dev_ch * dev_n + r.usize(4)).map(|k| k as f32 + 0.25).collect();
        let (wf, wc) = if nesting >= 2 { (inner_f, inner_c) } else { (fnum, cn) };
        {
            let mut a = MutableBorrowedAudioBuffer::slice_frames(&mut buf, fo, fnum);
            let mut b = MutableBorrowedAudioBuffer::slice_channels(&mut a, co, cn);
            match nesting {
                0 | 1 => b.fill_from_interleaved(&data, dev_ch, dev_n),
                _ => MutableBorrowedAudioBuffer::slice_channels_and_frames(&mut b, inner_f, inner_c)
                    .fill_from_interleaved(&data, dev_ch, dev_n),
            }
        }
        for ch in 0..wc.min(dev_ch) {
            for f in 0..wf.min(dev_n) {
                want[co + ch][fo + f] = data[f * dev_ch + ch];
            }
        }
        for ch in 0..bc {
            check_eq(
                &format!("fill {dev_ch}x{dev_n} into window {wc}x{wf} at {co},{fo} of {bc}x{bf}"),
                buf.get_channel_data(SampleLocation::channel(ch)),
                &want[ch],
            );
        }
        // and back, through read-only views
        let mut dev = vec![fence(); dev_ch * dev_n];
        {
            let a = BorrowedAudioBuffer::slice_channels(&buf, co, cn);
            let b = BorrowedAudioBuffer::slice_frames(&a, fo, fnum);
            match nesting {
                0 | 1 => b.copy_to_interleaved(&mut dev, dev_ch, dev_n),
                _ => BorrowedAudioBuffer::slice_channels_and_frames(&b, inner_f, inner_c)
                    .copy_to_interleaved(&mut dev, dev_ch, dev_n),
            }
        }
        let exp: Vec<f32> = (0..dev_ch * dev_n)
            .map(|k| {
                let (f, ch) = (k / dev_ch, k % dev_ch);
                if ch < wc && f < wf {
                    want[co + ch][fo + f]
                } else {
                    fence()
                }
            })
            .collect();
        check_eq(
            &format!("copy window {wc}x{wf} at {co},{fo} of {bc}x{bf} to {dev_ch}x{dev_n}"),
            &dev,
            &exp,
        );
        // a view reads and writes exactly its part
        let (vc, vf) = (r.usize(cn), r.usize(fnum));
        {
            let mut a = MutableBorrowedAudioBuffer::slice_channels(&mut buf, co, cn);
            let mut b = MutableBorrowedAudioBuffer::slice_frames(&mut a, fo, fnum);
            let l = SampleLocation::new(vc, vf);
            let len = b.get_channel_data(l).len();
            if len != fnum - vf || b.get_channel_data_mut(l).len() != fnum - vf {
                bad(format!("a view of {fnum} frames exposes {len} frames from frame {vf}"));
            }
            if b.channel_count() != cn || b.frame_count() != fnum {
                bad("a view reports the wrong shape".into());
            }
            b.set_sample(l, -1.0);
        }
        want[co + vc][fo + vf] = -1.0;
        for ch in 0..bc {
            check_eq(
                "writing one sample through a view",
                buf.get_channel_data(SampleLocation::channel(ch)),
                &want[ch],
            );
        }
        let v1 = BorrowedAudioBuffer::slice_frames(&buf, fo, fnum);
        let v2 = BorrowedAudioBuffer::slice_channels(&v1, co, cn);
        if v2.channel_count() != cn || v2.frame_count() != fnum {
            bad("a read-only view reports the wrong shape".into());
        }
        for ch in 0..cn {
            check_eq(
                "reading through nested views",
                v2.get_channel_data(SampleLocation::channel(ch)),
                &want[co + ch][fo..fo + fnum],
            );
        }
        // duplicating a channel inside a view
        if cn > 1 && fnum > 1 {
            let k = 1 + r.usize(fnum - 1);
            let (s, d) = (r.usize(cn), r.usize(cn));
            if s != d {
                {
                    let mut a = MutableBorrowedAudioBuffer::slice_frames(&mut buf, fo, fnum);
                    let mut b = MutableBorrowedAudioBuffer::slice_channels(&mut a, co, cn);
                    b.duplicate_channel(SampleLocation::channel(s), d, k);
                }
                let src = want[co + s][fo..fo + k].to_vec();
                want[co + d][fo..fo + k].copy_from_slice(&src);
                for ch in 0..bc {
                    check_eq(
                        "duplicating a channel inside a view",
                        buf.get_channel_data(SampleLocation::channel(ch)),
                        &want[ch],
                    );
                }
            }
        }
    }
}

/// Copying, mixing and scaling between buffers and views of any shape and
/// alignment, against plain index arithmetic. Samples are small multiples of
/// 1/64, so that sums and products by multiples of 1/4 are exact.
fn arithmetic(sr: usize, salt: u64) {
    let mut r = simrt::Rng::new(mix(salt, 0xa7));
    let grid = |r: &mut simrt::Rng| r.usize(128) as f32 / 64.0 - 1.0;
    let make = |r: &mut simrt::Rng, c: usize, n: usize| -> (OwnedAudioBuffer, Vec<Vec<f32>>) {
        let v: Vec<Vec<f32>> = (0..c).map(|_| (0..n).map(|_| grid(r)).collect()).collect();
        let mut b = OwnedAudioBuffer::new(n, c, sr);
        for (ch, x) in v.iter().enumerate() {
            b.fill_from_slice(x, SampleLocation::channel(ch));
        }
        (b, v)
    };
    let same = |what: &str, b: &dyn AudioBuffer, v: &[Vec<f32>]| {
        if b.channel_count() != v.len() {
            bad(format!("interleaved transfer: {what}: {} channels, expected {}", b.channel_count(), v.len()));
        }
        for (ch, x) in v.iter().enumerate() {
            check_eq(what, b.get_channel_data(SampleLocation::channel(ch)), x);
        }
    };
    for _ in 0..3 {
        let (most_c, most_n) = if r.chance(0.04) { (40, 3000) } else { (6, 90) };
        let (sc, dc) = (1 + r.usize(most_c), 1 + r.usize(most_c));
        let (sn, dn) = (1 + r.usize(most_n), 1 + r.usize(most_n));
        let (src, sv) = make(&mut r, sc, sn);
        let (mut dst, mut dv) = make(&mut r, dc, dn);
        // a block [so, so+n) x [s0, s0+c) of the source to (d0, dof) of a view of the destination
        let c = 1 + r.usize(sc.min(dc));
        let (s0, d0) = (r.usize(sc - c + 1), r.usize(dc - c + 1));
        let vf = r.usize(dn);
        let n = 1 + r.usize(sn.min(dn - vf));
        let so = r.usize(sn - n + 1);
        let dof = r.usize(dn - vf - n + 1);
        let gain = (r.usize(9) as f32 - 4.0) / 4.0;
        let op = r.usize(4);
        {
            let mut view = MutableBorrowedAudioBuffer::slice_frames(&mut dst, vf, dn - vf);
            let (a, b) = (SampleLocation::new(s0, so), SampleLocation::new(d0, dof));
            match op {
                0 => view.copy_from(&src, a, b, c, n),
                1 => view.add_from(&src, a, b, c, n),
                2 => view.add_from_with_gain(&src, a, b, c, n, gain),
                _ => {
                    let shown = BorrowedAudioBuffer::slice_frames(&src, so, n);
                    view.add_from(&shown, SampleLocation::channel(s0), b, c, n)
                }
            }
        }
        for k in 0..c {
            for f in 0..n {
                let x = sv[s0 + k][so + f];
                let y = &mut dv[d0 + k][vf + dof + f];
                *y = match op {
                    0 => x,
                    2 => *y + x * gain,
                    _ => *y + x,
                };
            }
        }
        same(["copying", "mixing", "mixing with a gain", "mixing from a view"][op], &dst, &dv);
        same("the source of a transfer", &src, &sv);
        // in-place operations on a view
        let c = 1 + r.usize(dc);
        let c0 = r.usize(dc - c + 1);
        let n = 1 + r.usize(dn);
        let f0 = r.usize(dn - n + 1);
        let op = r.usize(7);
        let gains: Vec<f32> = match r.usize(4) {
            0 => vec![0.0; n],
            1 => vec![1.0; n],
            _ => (0..n).map(|_| (r.usize(9) as f32 - 4.0) / 4.0).collect(),
        };
        let at = SampleLocation::new(r.usize(c), r.usize(n));
        {
            let mut a = MutableBorrowedAudioBuffer::slice_frames(&mut dst, f0, n);
            let mut view = MutableBorrowedAudioBuffer::slice_channels(&mut a, c0, c);
            match op {
                0 => view.clear(),
                1 => view.fill_with_value(0.5),
                2 => view.fill_channel_with_value(at.channel, 0.25),
                3 => view.add_sample(at, 0.125),
                6 => view.set_sample(at, 0.625),
                _ => view.apply_gain(&gains),
            }
            let mut seen = 0;
            for l in view.frame_iter() {
                if l.channel >= c || l.frame >= n {
                    bad("interleaved transfer: a view's frames lie outside it".into());
                }
                seen += 1;
            }
            if seen != c * n {
                bad(format!("interleaved transfer: a view of {c}x{n} has {seen} frames"));
            }
        }
        for k in 0..c {
            for f in 0..n {
                let y = &mut dv[c0 + k][f0 + f];
                match op {
                    0 => *y = 0.0,
                    1 => *y = 0.5,
                    2 if k == at.channel => *y = 0.25,
                    3 if k == at.channel && f == at.frame => *y += 0.125,
                    4 | 5 => *y *= gains[f],
                    6 if k == at.channel && f == at.frame => *y = 0.625,
                    _ => {}
                }
            }
        }
        // (a product may be -0.0, a cleared sample 0.0)
        for x in dv.iter_mut().flatten() {
            *x += 0.0;
        }
        for ch in 0..dc {
            for x in dst.get_channel_data_mut(SampleLocation::channel(ch)) {
                *x += 0.0;
            }
        }
        same(["clearing", "filling", "filling a channel", "adding to a sample", "applying a gain", "applying a gain", "setting a sample"][op], &dst, &dv);
        for ch in 0..dc {
            if dst.channel_is_silent(ch) != dv[ch].iter().all(|x| *x == 0.0) {
                bad("interleaved transfer: silence of a channel is misjudged".into());
            }
        }
        // buffers made of buffers
        let view = BorrowedAudioBuffer::slice_frames(&dst, f0, n);
        let part: Vec<Vec<f32>> = dv.iter().map(|x| x[f0..f0 + n].to_vec()).collect();
        let copy = OwnedAudioBuffer::from_buffer(&view);
        same("a copy of a view", &copy, &part);
        let more: Vec<Vec<f32>> = dv.iter().zip(&part).map(|(a, b)| [&a[..], &b[..]].concat()).collect();
        same("an extended buffer", &dst.extended_with_buffer(&view), &more);
        let pad = r.usize(20);
        let padded: Vec<Vec<f32>> = part.iter().map(|x| [&x[..], &vec![0.0; pad][..]].concat()).collect();
        same("a padded buffer", &copy.padded_to_length(n + pad), &padded);
        // a buffer at another rate: between two frames of the source on a straight line
        {
            let (num, den) =
                *r.pick(&[(1usize, 1usize), (2, 1), (1, 2), (3, 1), (1, 4), (3, 4), (3, 2), (160, 147), (147, 160)]);
            // (now and then seconds of audio)
            let (len, c, n, part) = if r.chance(0.02) {
                let n = 20_000 + r.usize(60_000);
                let x: Vec<f32> = (0..n).map(|_| grid(&mut r)).collect();
                (n, 1, n, vec![x])
            } else {
                (1 + r.usize(60), c, n, part.clone())
            };
            let mut other = OwnedAudioBuffer::new(len, c, 300 * num);
            let mut at_rate = OwnedAudioBuffer::new(n, c, 300 * den);
            for k in 0..c {
                at_rate.fill_from_slice(&part[k], SampleLocation::channel(k));
            }
            let k0 = r.usize(c);
            other.sample_rate_convert_from(&at_rate, SampleLocation::channel(k0), SampleLocation::origin(), c - k0);
            for k in 0..c {
                let data = other.get_channel_data(SampleLocation::channel(k));
                for (i, x) in data.iter().enumerate() {
                    let (whole, rest) = (i * den / num, (i * den % num) as f64 / num as f64);
                    let y = |i: usize| part[k0 + k][i.min(n - 1)] as f64;
                    let want = if k0 + k < c { y(whole) * (1.0 - rest) + y(whole + 1) * rest } else { 0.0 };
                    if (*x as f64 - want).abs() > 1e-4 {
                        bad(format!("interleaved transfer: converting {den} frames to {num}: frame {i} is {x}, expected {want}"));
                    }
                }
            }
        }
        // generated buffers
        let sine = OwnedAudioBuffer::sine(n, c, 1000, 7.0, 0.5);
        let (a, b) = (r.usize(n), r.usize(n + 5));
        let step = OwnedAudioBuffer::step(n, c, sr, a..b);
        let noise = OwnedAudioBuffer::white_noise(n, c, sr);
        for k in 0..c {
            for f in 0..n {
                let l = SampleLocation::new(k, f);
                let want = 0.5 * (std::f64::consts::TAU * 7.0 * f as f64 / 1000.0).sin();
                let on = if f >= a && f < b { 1.0 } else { 0.0 };
                if (sine.get_sample(l) as f64 - want).abs() > 1e-4
                    || step.get_sample(l) != on
                    || !(noise.get_sample(l).abs() <= 1.0)
                {
                    bad(format!("interleaved transfer: a generated buffer is wrong at {k},{f}"));
                }
            }
        }
        if sine.frame_count() != n || sine.channel_count() != c || (sine.length_in_seconds() - n as f64 / 1000.0).abs() > 1e-9 {
            bad("interleaved transfer: a generated buffer has the wrong shape".into());
        }
        let many = 1 + r.usize(4);
        same("a buffer made of a slice", &OwnedAudioBuffer::from_slice(&part[0], many, sr), &vec![part[0].clone(); many]);
    }
}
