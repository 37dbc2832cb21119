//! Which runs decide which property, and which outcomes break it.

use crate::plan::{Mem, Shape};
use crate::work::Variant;

pub struct Prop {
    pub id: &'static str,
    pub mix: &'static [(Shape, Mem, u64)],
    pub kinds: &'static [&'static [&'static str]],
    pub force: Option<Variant>,
    pub quick: u64,
    pub thorough: u64,
    pub what: &'static str,
}

use Mem::*;
use Shape::*;

pub const SHAPES: &[Shape] =
    &[Small, Boundary, Layers, Twins, Multi, Deep, Storm, Overwrite, Garbage, Lifecycle, Hold, Count, Grow, Index, Lock, Slots, Bloat, Zones, Leaf];

/// Outcomes in which an operation did not return at all, or memory was corrupted: they break
/// every property.
const SAFETY: &[&str] =
    &["crash", "panic", "use-after-free", "out-of-bounds", "double-free", "double-drop", "runaway-memory", "hang"];
/// The map answered wrongly.
const MAP: &[&str] = &["lost-key", "stale-read", "update-chain", "wrong-key", "torn-value", "insert-error"];
const OVER: &[&str] = &["over-long"];
const FOREIGN: &[&str] = &["foreign-guard"];
const SIDE: &[&str] = &["side-map"];
const BLOAT: &[&str] = &["bloat"];
const LEN: &[&str] = &["len"];
const LIFE: &[&str] = &["drop-early", "dangling-ref"];
const LEAK: &[&str] = &["leak", "leak-mem"];
const STUCK: &[&str] = &["deadlock", "no-progress"];
const RACE: &[&str] = &["data-race"];
const GARBAGE: &[&str] = &["garbage"];
const READER: &[&str] = &["reader-blocks"];
const PATH: &[&str] = &["long-path"];
const WRITER: &[&str] = &["writer-blocks"];
const PUB: &[&str] = &["unordered-read"];
const LEAF: &[&str] = &["leaf-slot", "leaf-freeze", "leaf-set"];
const LOCKK: &[&str] = &["lock-exclusion", "lock-order", "lock-torn-read", "lock-hidden", "lock-unstable"];

pub fn relevant(p: &Prop, kind: &str) -> bool {
    SAFETY.contains(&kind) || p.kinds.iter().any(|k| k.contains(&kind))
}

pub const ASSUMPTIONS: &[&str] = &[
    "the code simulated is what this compiler produces from the working tree in release mode with its sanitizer pass; other targets' code generation is not examined",
    "each plain or atomic access of the instrumented crates is one step; accesses by precompiled std code (Arc's and Box's generic code is instrumented, std's futex mutex is not) happen inside the surrounding step",
    "stale loads follow the C11 rules for release/acquire/relaxed/SC accesses and fences without load buffering (no out-of-thin-air or speculated stores), at most 8 values back",
    "values, keys and workloads are the generator's; up to 4 client threads, up to about 5 700 keys, keys of 0 to 256 bytes",
];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        mix: &[(Small, Sc, 25), (Boundary, Sc, 22), (Slots, Sc, 16), (Layers, Sc, 12), (Twins, Sc, 6), (Grow, Sc, 8), (Overwrite, Sc, 5), (Multi, Sc, 4), (Hold, Sc, 3), (Lifecycle, Sc, 2)],
        kinds: &[MAP, LIFE],
        force: None,
        quick: 150000,
        thorough: 2500000,
        what: "linearizability per key",
    },
    Prop {
        id: "C02",
        mix: &[(Boundary, Sc, 30), (Grow, Sc, 20), (Multi, Sc, 20), (Layers, Sc, 12), (Twins, Sc, 10), (Deep, Sc, 3), (Storm, Sc, 5)],
        kinds: &[MAP, LEN],
        force: None,
        quick: 60000,
        thorough: 1000000,
        what: "no acknowledged key is lost while the tree grows",
    },
    Prop {
        id: "C03",
        mix: &[(Layers, Sc, 37), (Twins, Sc, 28), (Small, Sc, 15), (Index, Sc, 10), (Boundary, Sc, 5), (Slots, Sc, 5)],
        kinds: &[MAP, LEN],
        force: None,
        quick: 130000,
        thorough: 2200000,
        what: "keys do not alias",
    },
    Prop {
        id: "C04",
        mix: &[(Overwrite, Sc, 32), (Small, Sc, 23), (Boundary, Sc, 10), (Layers, Sc, 10), (Lifecycle, Sc, 10), (Hold, Sc, 8), (Slots, Sc, 7)],
        kinds: &[MAP, LIFE],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "previous values form one chain",
    },
    Prop {
        id: "C05",
        mix: &[(Count, Sc, 50), (Small, Sc, 15), (Grow, Sc, 15), (Layers, Sc, 10), (Boundary, Sc, 10)],
        kinds: &[LEN, MAP],
        force: None,
        quick: 130000,
        thorough: 2200000,
        what: "len and is_empty",
    },
    Prop {
        id: "C06",
        mix: &[(Hold, Sc, 28), (Hold, Reuse, 14), (Overwrite, Sc, 10), (Hold, Weak, 14), (Boundary, Sc, 9), (Layers, Sc, 10), (Lifecycle, Reuse, 10), (Slots, Reuse, 5)],
        kinds: &[LIFE, MAP, FOREIGN],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "references stay valid under their guard",
    },
    Prop {
        id: "C07",
        mix: &[(Lifecycle, Sc, 15), (Overwrite, Sc, 15), (Layers, Sc, 20), (Grow, Sc, 10), (Small, Sc, 14), (Multi, Sc, 5), (Twins, Sc, 10), (Index, Sc, 5), (Hold, Sc, 5), (Slots, Sc, 1)],
        kinds: &[LEAK, LIFE],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "values dropped once, nothing leaked",
    },
    Prop {
        id: "C08",
        mix: &[(Boundary, Sc, 25), (Small, Sc, 15), (Layers, Sc, 15), (Grow, Sc, 15), (Multi, Sc, 10), (Storm, Sc, 8), (Lock, Sc, 10), (Twins, Sc, 5), (Deep, Sc, 2)],
        kinds: &[STUCK],
        force: None,
        quick: 60000,
        thorough: 1000000,
        what: "progress",
    },
    Prop {
        id: "C09",
        mix: &[(Grow, Sc, 20), (Layers, Sc, 30), (Twins, Sc, 10), (Multi, Sc, 14), (Deep, Sc, 4), (Storm, Sc, 6), (Small, Sc, 10), (Boundary, Sc, 10), (Bloat, Sc, 6)],
        kinds: &[MAP, STUCK, OVER],
        force: None,
        quick: 60000,
        thorough: 1000000,
        what: "no spurious failure",
    },
    Prop {
        id: "C10",
        mix: &[(Garbage, Sc, 28), (Overwrite, Sc, 38), (Lifecycle, Sc, 20), (Hold, Sc, 9), (Bloat, Sc, 5)],
        kinds: &[GARBAGE, LEAK, BLOAT],
        force: None,
        quick: 30000,
        thorough: 500000,
        what: "bounded garbage",
    },
    Prop {
        id: "C11",
        mix: &[(Small, Races, 17), (Boundary, Races, 17), (Layers, Races, 17), (Twins, Races, 5), (Grow, Races, 9), (Multi, Races, 5), (Overwrite, Races, 5), (Hold, Races, 5), (Lifecycle, Races, 5), (Slots, Races, 5), (Lock, Races, 5), (Boundary, Weak, 4), (Layers, Weak, 4), (Overwrite, Weak, 4), (Multi, Weak, 3)],
        kinds: &[RACE],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "data-race freedom",
    },
    Prop {
        id: "C12",
        mix: &[(Small, Weak, 18), (Boundary, Weak, 18), (Layers, Weak, 14), (Slots, Weak, 8), (Twins, Weak, 5), (Grow, Weak, 9), (Multi, Weak, 5), (Overwrite, Weak, 9), (Hold, Weak, 5), (Lifecycle, Weak, 5), (Count, Weak, 4)],
        kinds: &[MAP, LEN, LIFE, LEAK, RACE, PUB],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "weak memory",
    },
    Prop {
        id: "C13",
        mix: &[(Index, Sc, 30), (Index, Weak, 5), (Small, Sc, 15), (Boundary, Sc, 15), (Layers, Sc, 15), (Hold, Sc, 10), (Overwrite, Sc, 10)],
        kinds: &[MAP, LEN, LIFE],
        force: Some(Variant::Inline),
        quick: 110000,
        thorough: 1800000,
        what: "copied-value variants",
    },
    Prop {
        id: "C14",
        mix: &[(Lock, Sc, 50), (Lock, Weak, 30), (Lock, Races, 20)],
        kinds: &[LOCKK, RACE, STUCK],
        force: None,
        quick: 150000,
        thorough: 2500000,
        what: "version lock",
    },
    Prop {
        id: "C15",
        mix: &[(Lifecycle, Sc, 35), (Lifecycle, Reuse, 25), (Lifecycle, Weak, 20), (Lifecycle, Races, 20)],
        kinds: &[MAP, LIFE, LEAK, GARBAGE, RACE, LEN, SIDE],
        force: None,
        quick: 80000,
        thorough: 1300000,
        what: "thread and tree life cycle",
    },
    Prop {
        id: "C16",
        mix: &[(Overwrite, Reuse, 27), (Layers, Reuse, 24), (Hold, Reuse, 14), (Boundary, Reuse, 10), (Slots, Reuse, 7), (Small, Reuse, 9), (Lifecycle, Reuse, 9)],
        kinds: &[MAP, LIFE, LEN, LEAK],
        force: None,
        quick: 80000,
        thorough: 1300000,
        what: "immediate memory reuse",
    },
    Prop {
        id: "C17",
        mix: &[(Overwrite, Sc, 25), (Hold, Sc, 20), (Lifecycle, Sc, 15), (Layers, Sc, 15), (Boundary, Sc, 10), (Small, Sc, 5), (Garbage, Sc, 5), (Overwrite, Weak, 5)],
        kinds: &[MAP, LIFE, STUCK, LEAK, GARBAGE],
        force: Some(Variant::Arc),
        quick: 80000,
        thorough: 1300000,
        what: "value destructors may use the map",
    },
    Prop {
        id: "C18",
        mix: &[(Small, Sc, 15), (Boundary, Sc, 20), (Slots, Sc, 5), (Layers, Sc, 15), (Twins, Sc, 8), (Grow, Sc, 8), (Multi, Sc, 8), (Overwrite, Sc, 8), (Hold, Sc, 8), (Boundary, Weak, 5)],
        kinds: &[READER, STUCK, MAP],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "lookups never block anybody",
    },
    Prop {
        id: "C19",
        mix: &[(Multi, Sc, 35), (Grow, Sc, 20), (Boundary, Sc, 20), (Layers, Sc, 10), (Twins, Sc, 5), (Deep, Sc, 4), (Storm, Sc, 6)],
        kinds: &[PATH],
        force: None,
        quick: 60000,
        thorough: 1000000,
        what: "lookup paths stay short",
    },
    Prop {
        id: "C20",
        mix: &[(Small, Races, 9), (Small, Weak, 9), (Boundary, Races, 12), (Boundary, Weak, 8), (Slots, Races, 9), (Layers, Races, 9), (Layers, Weak, 6), (Twins, Races, 6), (Overwrite, Races, 9), (Overwrite, Weak, 6), (Hold, Races, 5), (Grow, Races, 4), (Index, Races, 6), (Lifecycle, Races, 2)],
        kinds: &[PUB],
        force: None,
        quick: 110000,
        thorough: 1800000,
        what: "a read value happens after its insert",
    },
    Prop {
        id: "C21",
        mix: &[(Zones, Sc, 85), (Zones, Weak, 15)],
        kinds: &[WRITER, MAP],
        force: None,
        quick: 90000,
        thorough: 1500000,
        what: "a stalled insert holds up only its neighbourhood",
    },
    Prop {
        id: "C22",
        mix: &[(Leaf, Sc, 50), (Leaf, Weak, 30), (Leaf, Races, 20)],
        kinds: &[LEAF, RACE, STUCK],
        force: None,
        quick: 150000,
        thorough: 2500000,
        what: "leaf publication and freezing",
    },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
