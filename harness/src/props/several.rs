//! C25: several documents at once, interleaved in one thread and on threads of their own, each compared with its life alone.

use std::sync::Barrier;

use svgdom::*;

use crate::dom::*;
use crate::driver::{Ctx, Prop};
use crate::ensure;
use crate::gen;
use crate::logger;
use crate::obs::{Obs, Res};
use crate::rng::{hash_str, mix, Rng};
use crate::xml;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25", quick: 40_000, thorough: 600_000,
            rule: "2-5 lives of documents (parsed, edited, written, dropped; failed parses in between), each fixed by a seed: every life alone \
                   on a new thread, then all of them interleaved at random in one thread, then one per thread at the same time; what each life \
                   shows after every step (model comparison, written text, display forms, warnings, errors) must be the same in all three; \
                   non-trivial if two documents were alive at once, counted by what was shown",
            required: &[("lives alone", 2000), ("lives interleaved", 2000), ("lives on threads", 500), ("switches between documents", 5000),
                        ("documents parsed while others live", 1000), ("documents dropped while others live", 1000), ("the same source in two lives", 300), ("sources that look like another", 300),
                        ("failed parses", 200), ("warnings", 500), ("handles kept over the drop", 200)],
            assumptions: &["nodes are not moved from one document to another"],
            case: c25,
        },
    ]
}

/// The life of a document. What it does depends on its seed alone.
struct Life {
    r: Rng,
    w: Option<World>,
    profile: Profile,
    left: usize,
    /// Nodes of documents that are gone.
    kept: Vec<Node>,
    obs: Obs,
    shown: Vec<(u64, String)>,
}

fn source(r: &mut Rng, shared: u64, obs: &mut Obs) -> String {
    // Some lives read a source that others read too.
    let same = r.chance(40);
    if same {
        obs.hit("the same source in two lives");
    }
    let mut own = Rng::new(if same { shared } else { r.next() });
    let s = &mut own;
    let n = gen::size(s, 2, 9);
    let top = if s.chance(60) { gen::linked_doc(s, n) } else { gen::rich_doc(s, n) };
    let t = xml::to_xml(&top);
    if s.chance(25) {
        // A few losses, so that something is reported.
        let bad = "<rect opacity='q' fill='url(#nowhere)'/>".repeat(s.range(1, 3));
        if let Some(i) = t.rfind("</svg>") {
            return format!("{}{}{}", &t[..i], bad, &t[i..]);
        }
    }
    t
}

impl Life {
    fn new(seed: u64) -> Life {
        let mut r = Rng::new(seed);
        let left = if cfg!(miri) { r.range(2, 4) } else { r.range(3, 22) };
        let profile = Profile {
            create_elem: 25, create_other: 10, tree: 25, detach: 4, remove: 6, remove_again: 2, drain: 4, copy: 6, simple: 25, link: 25, if_none: 4,
            remove_attr: 6, set_id: 10, set_text: 4, set_tag: 4, attr_mut: 3, dead: 4, max_nodes: r.range(4, 16),
        };
        Life { r, w: None, profile, left, kept: Vec::new(), obs: Obs::default(), shown: Vec::new() }
    }

    fn show(&mut self, what: &str, s: String) {
        self.shown.push((hash_str(&s), format!("{}: {}", what, s.chars().take(600).collect::<String>())));
    }

    fn step(&mut self, shared: u64) -> Res {
        let (res, tape) = logger::recorded(|| self.act(shared));
        res?;
        let mut v: Vec<String> = tape.into_iter().filter(|e| e.level <= log::Level::Warn).map(|e| e.text).collect();
        v.sort();
        if !v.is_empty() {
            self.obs.add("warnings", v.len() as u64);
            self.show("warnings", v.join("\n"));
        }
        self.left -= 1;
        if self.left == 0 {
            let _ = self.w.take();
            self.look()?;
        }
        Ok(())
    }

    /// Nodes that outlived their document.
    fn look(&mut self) -> Res {
        for n in &self.kept {
            ensure!(n.parent().is_none() && !n.has_children() && n.next_sibling().is_none() && n.previous_sibling().is_none()
                    && n.attributes().is_empty() && n.linked_nodes().is_empty(), "a node of a dropped document holds on to something");
        }
        Ok(())
    }

    fn act(&mut self, shared: u64) -> Res {
        let r = &mut self.r;
        if self.w.is_none() || r.chance(6) {
            // A new document; the old one goes.
            if let Some(w) = self.w.take() {
                if r.chance(40) {
                    self.kept.extend(w.n.iter().zip(&w.m).filter(|(_, m)| m.alive).take(3).map(|(n, _)| n.clone()));
                    self.obs.hit("handles kept over the drop");
                }
                drop(w);
                self.obs.hit("dropped");
            }
            if r.chance(25) {
                self.w = Some(World::new());
                return self.look();
            }
            let mut t = source(r, shared, &mut self.obs);
            if r.chance(40) {
                // One that looks much like another: same length, other digits (but for those in namespaces).
                let keep: Vec<usize> = ["1999", "2000", "1998"].iter().flat_map(|y| t.match_indices(y).map(|m| m.0).collect::<Vec<_>>()).collect();
                let (pct, mut b) = (r.range(3, 40), t.into_bytes());
                for i in 0..b.len() {
                    if b[i].is_ascii_digit() && !keep.iter().any(|&k| k <= i && i < k + 4) && r.chance(pct) {
                        b[i] = b'1' + r.below(9) as u8;
                    }
                }
                t = String::from_utf8(b).unwrap();
                self.obs.hit("sources that look like another");
            }
            if r.chance(8) {
                // Well-formed, but not an SVG.
                if let Some(i) = t.rfind("</svg>") {
                    t = format!("{}</g>{}", &t[..i], &t[i + 6..]).replacen("<svg", "<g", 1);
                }
            } else if r.chance(15) {
                let cut = r.below(t.len());
                let cut = (0..=cut).rev().find(|&i| t.is_char_boundary(i)).unwrap();
                t.truncate(cut);
            }
            self.obs.log(format!("parse {}", t));
            match Document::from_str(&t) {
                Ok(doc) => {
                    self.w = Some(World::adopt(doc)?);
                    self.obs.hit("parsed");
                }
                Err(e) => {
                    self.obs.hit("failed parses");
                    self.show("error", e.to_string());
                }
            }
        } else {
            let w = self.w.as_mut().unwrap();
            for _ in 0..r.range(1, 3) {
                w.step(r, &self.profile, &mut self.obs)?;
            }
        }
        let opt = if self.r.chance(50) { gen::options(&mut self.r) } else { WriteOptions::default() };
        if let Some(ref w) = self.w {
            w.check_structure(&mut self.obs)?;
            w.check_attrs(&mut self.obs)?;
            w.check_links(&mut self.obs)?;
            w.check_data(&mut self.obs)?;
            // Only elements and the root have children, and no text is beside the elements: otherwise a document cannot be written.
            let loose = w.m[0].children.iter().any(|&c| w.m[c].kind == Kind::Text)
                || w.preorder(0).iter().any(|&c| c != 0 && !w.m[c].is_elem() && !w.m[c].children.is_empty());
            self.obs.hit(if loose { "not writable" } else { "written" });
            let text = if loose { String::new() } else { w.doc.to_string_with_opt(&opt) };
            let disp: Vec<String> = w.n.iter().take(12).map(|n| n.to_string()).collect();
            self.show("written", text);
            self.show("displayed", disp.join("\n"));
        }
        self.look()
    }

    fn finish(self, obs: &mut Obs) -> Vec<(u64, String)> {
        for (k, n) in self.obs.counters {
            obs.add(k, n);
        }
        self.shown
    }
}

fn same(what: &str, k: usize, alone: &[(u64, String)], got: &[(u64, String)]) -> Res {
    for (i, (a, g)) in alone.iter().zip(got).enumerate() {
        ensure!(a.0 == g.0, "life {} {} differs at {} from the same life alone:\n  alone {}\n  now   {}", k, what, i, a.1, g.1);
    }
    ensure!(alone.len() == got.len(), "life {} {} shows {} things, alone {}", k, what, got.len(), alone.len());
    Ok(())
}

type Shown = Result<(Vec<(u64, String)>, Vec<(&'static str, u64)>), String>;

/// A whole life on the current thread.
fn whole(seed: u64, shared: u64, pause: &dyn Fn(usize)) -> Shown {
    let mut l = Life::new(seed);
    let mut k = 0;
    while l.left > 0 {
        l.step(shared).map_err(|e| format!("{}\n  after {}", e, l.obs.trace.join("; ")))?;
        k += 1;
        pause(k);
    }
    let mut o = Obs::default();
    let s = l.finish(&mut o);
    Ok((s, o.counters.into_iter().collect()))
}

fn c25(r: &mut Rng, _: &Ctx, obs: &mut Obs) -> Res {
    let n = if cfg!(miri) { 2 } else { r.range(2, 5) };
    let shared = r.next();
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let mut alone = Vec::new();
    for &s in &seeds {
        let v = std::thread::scope(|sc| sc.spawn(move || whole(s, shared, &|_| {})).join());
        let v = match v { Ok(v) => v?, Err(p) => std::panic::resume_unwind(p) };
        obs.hit("lives alone");
        alone.push(v.0);
    }

    // All at once, in this thread.
    let mut lives: Vec<Life> = seeds.iter().map(|s| Life::new(*s)).collect();
    let mut at = 0;
    let sticky = *r.pick(&[0, 30, 70]);
    let mut both = 0;
    while lives.iter().any(|l| l.left > 0) {
        if !r.chance(sticky) || lives[at].left == 0 {
            let mut k = r.below(n);
            while lives[k].left == 0 {
                k = (k + 1) % n;
            }
            if k != at {
                obs.hit("switches between documents");
            }
            at = k;
        }
        let others = lives.iter().enumerate().filter(|(k, l)| *k != at && l.w.is_some()).count();
        let count = |l: &Life, s: &str| l.obs.counters.get(s).cloned().unwrap_or(0);
        let (p, d) = (count(&lives[at], "parsed"), count(&lives[at], "dropped"));
        let res = lives[at].step(shared);
        if let Err(e) = res {
            obs.trace = lives[at].obs.trace.clone();
            return Err(format!("life {} of {}, others alive: {}", at, n, e));
        }
        if others > 0 {
            both += 1;
            obs.add("documents parsed while others live", count(&lives[at], "parsed") - p);
            obs.add("documents dropped while others live", count(&lives[at], "dropped") - d);
        }
    }
    let mut fp = 0;
    for (k, l) in lives.into_iter().enumerate() {
        let trace = l.obs.trace.clone();
        let got = l.finish(obs);
        if let Err(e) = same("among others", k, &alone[k], &got) {
            obs.trace = trace;
            return Err(e);
        }
        obs.hit("lives interleaved");
        fp = got.iter().fold(fp, |h, g| mix(h ^ g.0));
    }

    // One per thread, at the same time.
    if cfg!(miri) || r.chance(30) {
        let gate = Barrier::new(n);
        let pace: Vec<u64> = (0..n).map(|_| r.next() % 4).collect();
        let res: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds.iter().zip(&pace).map(|(&s, &p)| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    whole(s, shared, &|k| if p > 0 && k as u64 % p == 0 { std::thread::yield_now() })
                })
            }).collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for (k, v) in res.into_iter().enumerate() {
            let v = match v { Ok(v) => v?, Err(p) => std::panic::resume_unwind(p) };
            same("on a thread of its own", k, &alone[k], &v.0)?;
            obs.hit("lives on threads");
        }
    }
    if both > 0 {
        obs.nontrivial(fp);
    }
    Ok(())
}
