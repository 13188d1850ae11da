//! C28: the recency-ordered map against a list model.
use crate::check::{CaseResult, Check, Ctx, Tier};
use crate::rng::Rng;
use ced::stackmap::StackMap;

pub struct C28;

impl Check for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "random sequences of insert, re-insert, remove, set_last (present and absent), value updates over few keys; \
         every query compared with a list model after every operation; a case is non-trivial when its sequence of \
         (operation, model order) states was not seen before and it contains a re-insertion or promotion and a removal"
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 200_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn required(&self) -> Vec<&'static str> {
        vec!["insert", "reinsert", "remove_present", "remove_absent", "promote_present", "promote_absent"]
    }
    fn run(&self, _case: u64, r: &mut Rng, ctx: &mut Ctx) -> CaseResult {
        let mut sm: StackMap<String, u64> = StackMap::new();
        // most recent first
        let mut model: Vec<(String, u64)> = Vec::new();
        let keys = r.range(1, 7);
        let n = r.range(1, 40);
        let mut h = 0u64;
        let (mut promoted, mut removed) = (false, false);
        for step in 0..n {
            let k = format!("k{}", r.below(keys));
            let pos = model.iter().position(|(x, _)| *x == k);
            match r.weighted(&[5, 3, 3, 1, 1]) {
                0 => {
                    let v = r.next();
                    ctx.log(format!("insert({}, {})", k, v));
                    let old = sm.insert(k.clone(), v);
                    let want = pos.map(|i| model.remove(i).1);
                    ctx.count(if want.is_some() { "reinsert" } else { "insert" });
                    promoted |= want.is_some();
                    if old != want {
                        return Err(format!("insert returned {:?}, expected {:?}", old, want));
                    }
                    model.insert(0, (k, v));
                    h = h.wrapping_mul(31).wrapping_add(1);
                }
                1 => {
                    ctx.log(format!("remove({})", k));
                    let got = sm.remove(&k);
                    let want = pos.map(|i| model.remove(i).1);
                    ctx.count(if want.is_some() { "remove_present" } else { "remove_absent" });
                    removed |= want.is_some();
                    if got != want {
                        return Err(format!("remove returned {:?}, expected {:?}", got, want));
                    }
                    h = h.wrapping_mul(31).wrapping_add(2);
                }
                2 => {
                    ctx.log(format!("set_last({})", k));
                    let got = sm.set_last(k.clone());
                    match pos {
                        Some(i) => {
                            ctx.count("promote_present");
                            promoted = true;
                            if let Err(e) = got {
                                return Err(format!("set_last of a present key failed: {}", e));
                            }
                            let e = model.remove(i);
                            model.insert(0, e);
                        }
                        None => {
                            ctx.count("promote_absent");
                            match got {
                                Ok(()) => return Err("set_last of an absent key succeeded".into()),
                                Err(e) => {
                                    if e.to_string().is_empty() {
                                        return Err("error without text".into());
                                    }
                                }
                            }
                        }
                    }
                    h = h.wrapping_mul(31).wrapping_add(3);
                }
                3 => {
                    let v = r.next();
                    ctx.log(format!("update({}, {})", k, v));
                    ctx.count("update");
                    if let Some(x) = sm.get_mut(&k) {
                        *x = v;
                    }
                    if let Some(i) = pos {
                        model[i].1 = v;
                    }
                }
                _ => {
                    ctx.count("update_all");
                    for (_, v) in sm.iter_mut() {
                        *v = v.wrapping_add(1);
                    }
                    for (_, v) in model.iter_mut() {
                        *v = v.wrapping_add(1);
                    }
                }
            }
            h = h.wrapping_mul(31).wrapping_add(crate::rng::hash_str(
                &model.iter().map(|(k, _)| k.as_str()).collect::<Vec<_>>().join(","),
            ));
            let fail = |what: &str, got: String, want: String| {
                Err(format!("after step {}: {} is {}, expected {}", step, what, got, want))
            };
            if sm.latest() != model.first().map(|(k, _)| k) {
                return fail("latest", format!("{:?}", sm.latest()), format!("{:?}", model.first()));
            }
            if sm.latest_value() != model.first().map(|(_, v)| v) {
                return fail("latest_value", format!("{:?}", sm.latest_value()), format!("{:?}", model.first()));
            }
            if sm.len() != model.len() || sm.is_empty() != model.is_empty() {
                return fail("len", sm.len().to_string(), model.len().to_string());
            }
            for (k, v) in &model {
                if sm.get(k) != Some(v) {
                    return fail(&format!("get({})", k), format!("{:?}", sm.get(k)), v.to_string());
                }
            }
            for i in 0..keys {
                let k = format!("k{}", i);
                if sm.contains_key(&k) != model.iter().any(|(x, _)| *x == k) {
                    return fail(&format!("contains({})", k), sm.contains_key(&k).to_string(), "the opposite".into());
                }
            }
            let mut a: Vec<(String, u64)> = sm.iter().map(|(k, v)| (k.clone(), *v)).collect();
            let mut b = model.clone();
            a.sort();
            b.sort();
            if a != b {
                return fail("iteration", format!("{:?}", a), format!("{:?}", b));
            }
        }
        // drain in recency order: the whole order is observable by removing the latest
        while let Some(k) = sm.latest().cloned() {
            let (want, v) = model.remove(0);
            if k != want {
                return Err(format!("draining: latest is {}, expected {}", k, want));
            }
            if sm.remove(&k) != Some(v) {
                return Err(format!("draining: wrong value for {}", k));
            }
            ctx.count("drained");
        }
        if !model.is_empty() || sm.latest_value().is_some() {
            return Err("draining: entries left".into());
        }
        if promoted && removed {
            ctx.distinct(h);
            let t = ctx.trace.join("; ");
            ctx.sample(|| t);
        }
        Ok(())
    }
}
