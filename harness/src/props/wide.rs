//! Hierarchies far wider or deeper than the generated trees, from a few numbers.
use super::hier::*;
use super::inst::*;
use crate::engine::*;
use crate::kit::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Wide {
    /// mounts around the processors, one in the other
    pub mounts: u16,
    pub procs: u16,
    /// empty mounts and recording processors between the processors
    pub between: u8,
    pub cockpits: u16,
    pub panels: u16,
    /// panels in each of these, one in the other
    pub deep: u16,
    /// at each level
    pub handlers: u16,
    pub snaps: u16,
    /// every so many-th has no name; 0: all are named
    pub anon: u8,
    /// names are used again after so many
    pub names: u16,
    pub texts: bool,
    pub filters: Vec<FilterSpec>,
    pub ops: Vec<HOp>,
}

impl Wide {
    fn head(&self, p: &str, i: usize) -> Head {
        let anon = self.anon > 0 && i % self.anon as usize == self.anon as usize - 1;
        let text = |t: &str| self.texts.then(|| format!("{} of {}{}", t, p, i));
        Head {
            name: (!anon).then(|| format!("{}{}", p, i % self.names.max(1) as usize)),
            title: text("title"),
            desc: text("description"),
            limit: None,
            show: None,
            setters: i % 2 == 1,
            twice: false,
        }
    }
    fn filter(&self, i: usize) -> FilterSpec {
        match self.filters.len() {
            0 => FilterSpec::All(0),
            n => self.filters[i % n].clone(),
        }
    }
    fn rec(i: usize) -> NodeSpec {
        NodeSpec::Rec(RecSpec { name: format!("h{}", i), reports: (i % 3) as u8 })
    }
    fn snap(i: usize) -> SnapSpec {
        SnapSpec::Const { name: format!("s{}", i), title: None, desc: None, rename: false, item: SItem::U(i as u64) }
    }
    fn counter(&self, i: usize) -> PanelItem {
        let spec = InstSpec { name: format!("n{}", i), title: None, desc: None, setters: false, twice: false, kind: IKind::Counter };
        PanelItem::Inst(InstNode { spec, mode: Mode::Filter(self.filter(i + 1), 0), modify: None, typed: true })
    }
    fn panel(&self, i: usize) -> PanelSpec {
        let mut items = vec![self.counter(i)];
        items.extend((0..self.handlers as usize).map(|h| PanelItem::Handler(Wide::rec(h))));
        items.extend((0..self.snaps as usize).map(|h| PanelItem::Snap(Wide::snap(h))));
        let mut p = PanelSpec { head: self.head("q", i), filter: self.filter(i), items };
        for d in 0..self.deep as usize {
            let outer = PanelSpec { head: self.head("d", d), filter: FilterSpec::All(d as u8), items: vec![self.counter(d), PanelItem::Panel(p)] };
            p = outer;
        }
        p
    }
    fn cockpit(&self, i: usize) -> CockpitSpec {
        let mut items: Vec<_> = (0..self.panels as usize).map(|p| CockpitItem::Panel(self.panel(p))).collect();
        items.extend((0..self.handlers as usize).map(|h| CockpitItem::Handler(Wide::rec(h))));
        items.extend((0..self.snaps as usize).map(|h| CockpitItem::Snap(Wide::snap(h))));
        CockpitSpec { head: self.head("k", i), items }
    }
    fn tele(&self, i: usize) -> TeleSpec {
        let mut items: Vec<_> = (0..self.cockpits as usize).map(|c| TeleItem::Cockpit(self.cockpit(c))).collect();
        items.extend((0..self.handlers as usize).map(|h| TeleItem::Handler(Wide::rec(h))));
        items.extend((0..self.snaps as usize).map(|h| TeleItem::Snap(Wide::snap(h))));
        TeleSpec { head: Head { title: None, desc: None, ..self.head("p", i) }, cap: None, items }
    }
    pub fn root(&self) -> MountSpec {
        let mount = |name: Option<String>, items| MountSpec { name, limit: None, items, attached: false, setters: false };
        let mut items = vec![];
        for i in 0..self.procs as usize {
            items.push(MountItem::Proc(ProcSpec::Tele(self.tele(i))));
            if self.between > 0 && i % self.between as usize == 0 {
                items.push(MountItem::Proc(ProcSpec::Spy(SpySpec { name: format!("x{}", i), outcomes: vec![(1, 2, 3, 4)] })));
                items.push(MountItem::Proc(ProcSpec::Mount(mount(Some(format!("e{}", i)), vec![]))));
            }
        }
        items.extend((0..self.snaps as usize).map(|h| MountItem::Snap(Wide::snap(h))));
        let mut m = mount(self.head("m", 0).name, items);
        for i in 1..self.mounts as usize {
            m = mount(self.head("m", i).name, vec![MountItem::Proc(ProcSpec::Mount(m)), MountItem::Snap(Wide::snap(i))]);
        }
        m
    }
    pub fn run(&self) -> Result<System, String> {
        run_hier(&HCase { root: ProcSpec::Mount(self.root()), ops: self.ops.clone() })
    }
    pub fn size(&self) -> usize {
        let one = |n: u16| n.max(1) as usize;
        one(self.procs) * one(self.cockpits) * one(self.panels) * one(self.handlers).max(one(self.deep)).max(one(self.snaps))
    }
}

/// Shapes of which one number is big, picked by their weights: processors,
/// mounts, cockpits, panels, panels in panels, handlers, snapshooters.
pub fn wide(weights: [u32; 7]) -> impl Strategy<Value = Wide> {
    let big = || prop_oneof![2 => 1u16..40, 2 => 40u16..140, 1 => 140u16..420];
    let shape = (0usize..7).prop_flat_map(move |_| {
        let arms: Vec<(u32, BoxedStrategy<[u16; 7]>)> = (0..7)
            .filter(|k| weights[*k] > 0)
            .map(|k| {
                let s = ((1u16..4, 1u16..3, 1u16..3, 1u16..3), (0u16..2, 0u16..2, 0u16..2), big()).prop_map(move |(a, b, n)| {
                    let mut v = [a.0, a.1, a.2, a.3, b.0, b.1, b.2];
                    v[k] = if k == 1 || k == 4 { n / 4 + 1 } else { n };
                    v
                });
                (weights[k], s.boxed())
            })
            .collect();
        proptest::strategy::Union::new_weighted(arms)
    });
    let op = prop_oneof![
        5 => (prop_oneof![0u8..4, 0u8..30], 0u8..8, tame_kind()).prop_map(|(n, label, kind)| HOp::Spread { n, label, kind }),
        4 => (limit(), strat()).prop_map(|(m, s)| HOp::Process(m, s)),
        1 => any::<bool>().prop_map(HOp::Snap),
        1 => step().prop_map(HOp::Advance),
    ];
    (
        shape,
        0u8..8,
        prop_oneof![3 => Just(0u8), 1 => 1u8..5],
        prop_oneof![4 => Just(u16::MAX), 1 => 1u16..300],
        any::<bool>(),
        prop_oneof![1 => Just(vec![]).boxed(), 2 => vec(filter(), 1..5).boxed()],
        vec(op, 1..8),
    )
        .prop_map(|(v, between, anon, names, texts, filters, ops)| {
            let [procs, mounts, cockpits, panels, deep, handlers, snaps] = v;
            Wide { mounts, procs, between, cockpits, panels, deep, handlers, snaps, anon, names, texts, filters, ops }
        })
}

pub fn note(c: &Wide, s: &System, o: &mut Obs) {
    let dims = [c.procs, c.mounts, c.cockpits, c.panels, c.deep, c.handlers, c.snaps];
    o.nontrivial_if(dims.iter().any(|n| *n > 20) && s.env.took > 0);
    o.label_if(c.mounts > 20, "more than 20 mounts in each other");
    o.label_if(c.deep > 20, "more than 20 panels in each other");
    o.label_if(c.procs > 100, "more than 100 processors");
    o.label_if(c.cockpits > 100, "more than 100 cockpits");
    o.label_if(c.panels > 100, "more than 100 panels");
    o.label_if(c.handlers > 100, "more than 100 handlers");
    o.label_if(c.snaps > 100, "more than 100 snapshooters");
    o.label_if(s.env.partial > 20, "backlog left at more than 20 places");
    o.label_if(c.size() > 500, "more than 500 parts");
}
