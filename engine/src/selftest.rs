//! Differential self-test of the expression simplifier and the Z3 translation.
use crate::expr::*;
use crate::solver::*;

pub fn run(n: u64) {
    let mut s: u64 = 0x9E3779B97F4A7C15;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut bad = 0;
    for round in 0..n {
        let mut cx = Ctx::new();
        // (expr, reference value under the assignment)
        let mut pool: Vec<(Id, u128, u32)> = vec![];
        let mut asg: Vec<u128> = vec![];
        for _ in 0..4 {
            let w = [1u32, 8, 8, 16, 32, 64][(rnd() % 6) as usize];
            let v = if rnd() % 3 == 0 { mask(rnd() as u128 % 4, w) } else { mask(rnd() as u128, w) };
            let e = cx.var(w);
            asg.push(v);
            pool.push((e, v, w));
        }
        for _ in 0..25 {
            let r = rnd();
            if r % 7 == 0 {
                let w = [1u32, 8, 16, 32, 64][(rnd() % 5) as usize];
                let v = mask(
                    match rnd() % 4 {
                        0 => 0,
                        1 => 1,
                        2 => u128::MAX,
                        _ => rnd() as u128 >> (rnd() % 60),
                    },
                    w,
                );
                pool.push((cx.konst(v, w), v, w));
                continue;
            }
            let (a, av, aw) = pool[(rnd() % pool.len() as u64) as usize];
            // pick b with the same width (adapt)
            let (mut b, mut bv, bw) = pool[(rnd() % pool.len() as u64) as usize];
            if bw < aw {
                if rnd() % 2 == 0 {
                    b = cx.zext(b, aw);
                } else {
                    b = cx.sext(b, aw);
                    bv = mask(sx(bv, bw) as u128, aw);
                }
            } else if bw > aw {
                let lo = (rnd() % (bw - aw + 1) as u64) as u32;
                b = cx.extract(b, lo, aw);
                bv = mask(bv >> lo, aw);
            }
            let (e, v, w) = match rnd() % 22 {
                0 => (cx.add(a, b), av.wrapping_add(bv), aw),
                1 => (cx.sub(a, b), av.wrapping_sub(bv), aw),
                2 => (cx.mul(a, b), av.wrapping_mul(bv), aw),
                3 => (cx.and(a, b), av & bv, aw),
                4 => (cx.or(a, b), av | bv, aw),
                5 => (cx.xor(a, b), av ^ bv, aw),
                6 => {
                    let k = cx.konst(rnd() as u128 % (aw as u128 + 2), aw);
                    let b2 = if rnd() % 2 == 0 { k } else { b };
                    let bv2 = cx.is_const(b2).unwrap_or(bv);
                    (cx.shl(a, b2), if bv2 >= aw as u128 { 0 } else { av << bv2 }, aw)
                }
                7 => {
                    let k = cx.konst(rnd() as u128 % (aw as u128 + 2), aw);
                    let b2 = if rnd() % 2 == 0 { k } else { b };
                    let bv2 = cx.is_const(b2).unwrap_or(bv);
                    (cx.lshr(a, b2), if bv2 >= aw as u128 { 0 } else { av >> bv2 }, aw)
                }
                8 => {
                    let k = cx.konst(rnd() as u128 % (aw as u128 + 2), aw);
                    let b2 = if rnd() % 2 == 0 { k } else { b };
                    let bv2 = cx.is_const(b2).unwrap_or(bv);
                    (cx.ashr(a, b2), (sx(av, aw) >> bv2.min(aw as u128 - 1)) as u128, aw)
                }
                9 => (cx.eq(a, b), (av == bv) as u128, 1),
                10 => (cx.ult(a, b), (av < bv) as u128, 1),
                11 => (cx.ule(a, b), (av <= bv) as u128, 1),
                12 => (cx.slt(a, b), (sx(av, aw) < sx(bv, aw)) as u128, 1),
                13 => (cx.sle(a, b), (sx(av, aw) <= sx(bv, aw)) as u128, 1),
                14 => (cx.not(a), !av, aw),
                15 if aw + aw <= 64 => (cx.concat(a, b), (av << aw) | bv, aw * 2),
                16 => {
                    let (c, cv, cw) = pool[(rnd() % pool.len() as u64) as usize];
                    let (c, cv) = if cw == 1 { (c, cv) } else { (cx.extract(c, 0, 1), cv & 1) };
                    (cx.ite(c, a, b), if cv == 1 { av } else { bv }, aw)
                }
                17 if aw > 1 => {
                    let w = 1 + (rnd() % (aw as u64 - 1)) as u32;
                    let lo = (rnd() % (aw - w + 1) as u64) as u32;
                    let x = cx.extract(a, lo, w);
                    // keep pool widths standard
                    let nw = if w <= 8 { 8 } else { 64 };
                    (cx.zext(x, nw), mask(av >> lo, w), nw)
                }
                18 if bv != 0 => (cx.udiv(a, b), av / bv, aw),
                19 if bv != 0 => (cx.urem(a, b), av % bv, aw),
                20 if bv != 0 => (cx.sdiv(a, b), sx(av, aw).wrapping_div(sx(bv, aw)) as u128, aw),
                21 if bv != 0 => (cx.srem(a, b), sx(av, aw).wrapping_rem(sx(bv, aw)) as u128, aw),
                _ => continue,
            };
            let v = mask(v, w);
            if cx.w(e) != w {
                println!("width mismatch round {} {}", round, cx.show(e, 5));
                bad += 1;
                continue;
            }
            let f = |k: u32| asg[k as usize];
            let mut memo = FxMap::default();
            let got = cx.eval(e, &f, &mut memo);
            if got != v || v < cx.umin[e as usize] || v > cx.umax[e as usize] {
                println!("MISMATCH round {} got {:x} want {:x} [{:x},{:x}] {}", round, got, v, cx.umin[e as usize], cx.umax[e as usize], cx.show(e, 5));
                bad += 1;
                if bad > 10 {
                    std::process::exit(1);
                }
            }
            pool.push((e, v, w));
        }
        // occasionally check the Z3 translation: e == v must be implied by the assignment
        if round % 50 == 0 {
            let mut sv = Solver::new(5000);
            let mut cons = vec![];
            for (k, v) in asg.iter().enumerate() {
                let w = cx.var_w[k];
                let x = cx.var_n(k as u32, w);
                let c = cx.konst(*v, w);
                let e = cx.eq(x, c);
                cons.push(e);
            }
            let (e, v, w) = *pool.last().unwrap();
            let c = cx.konst(v, w);
            let eq = cx.eq(e, c);
            let ne = cx.not(eq);
            let mut q = cons.clone();
            q.push(ne);
            q.retain(|c| *c != Ctx::TRUE);
            match sv.check(&mut cx, &q) {
                R::Unsat => {}
                _ => {
                    println!("Z3 disagrees round {} {}", round, cx.show(e, 5));
                    bad += 1;
                }
            }
        }
    }
    println!("selftest {} rounds, {} bad", n, bad);
    if bad > 0 {
        std::process::exit(1);
    }
}
