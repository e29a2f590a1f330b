//! C01: streaming output does not depend on how the stream is cut or fed.
use crate::chan::*;
use simrt::Choices;

pub fn chunk_len(c: &mut Choices, left: usize) -> usize {
    let n = match c.weighted(&[50, 20, 20, 6, 4]) {
        0 => c.us(0, 24),
        1 => 4 * c.us(0, 12),
        2 => c.us(0, 200),
        3 => c.us(200, 1500),
        _ => c.us(1000, 5000),
    };
    n.min(left)
}
fn go<F: FastPaths>(c: &mut Choices) {
    let big = c.chance(80);
    let nch = c.us(1, 3);
    // now and then more than 16 bits count
    let huge = c.chance(2);
    let total = if huge { c.us(66_000, 140_000) } else if big { c.us(2000, 12000) } else { c.us(1, 700) };
    let mut ch: Vec<Chan<F>> = (0..nch).map(|i| Chan::gen(c, i, total)).collect();
    for x in &mut ch {
        if c.chance(150) {
            x.concentrate(c);
        }
    }
    let ops = c.us(1, 14);
    for _ in 0..ops {
        c.open();
        let k = c.us(0, nch - 1);
        let len = if huge && c.chance(400) { ch[k].left() } else { chunk_len(c, ch[k].left()) };
        let e = c.draw(ENTRIES);
        ch[k].feed(c, len, e);
        if len > 0 {
            simrt::nontrivial();
        }
        c.close();
    }
    for x in &mut ch {
        x.verify_state("after all pieces");
    }
}
pub fn body(c: &mut Choices) {
    if c.chance(650) {
        go::<f32>(c)
    } else {
        go::<f64>(c)
    }
}
