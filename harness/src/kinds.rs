//! Failure kinds, the call context they were seen in, and which of them
//! violate which property.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    /// A call inside the documented domain panicked.
    Panic,
    /// Two peers that integrated the same edits have different documents.
    Diverge,
    /// After full delivery a document isn't "everything inserted minus
    /// everything deleted".
    SetMismatch,
    /// After full delivery and one drain some edit is still not applied.
    Stuck,
    /// The replica's length drifted from the user's buffer.
    Len,
    /// An offset or a range returned by the replica is not applicable.
    Bounds,
    /// No single order of all the characters explains every document seen.
    Order,
    DelMissing,
    DelExtra,
    /// A re-delivered edit had an effect.
    DupEffect,
    /// An edit whose whole context is known wasn't applied right away.
    NotApplied,
    /// An edit was applied before the text it depends on.
    EarlyApply,
    DrainMissing,
    DrainBad,
    /// A replica and its reference twin answered differently.
    Twin,
    /// A valid encoding failed to decode.
    Codec,
    RoundTrip,
    AnchorWrong,
    AnchorNone,
    AnchorEarly,
    AnchorPeers,
    Temporal,
    Meta,
    NoOpEffect,
    MisuseAccepted,
    Interleave,
    Scale,
    Size,
    Compact,
    CorruptAccepted,
    CorruptKind,
    Totality,
    /// A replica takes up more room than what it has to remember.
    Storage,
    /// The outcome depends on which ids the replicas have.
    Ids,
    /// The work done for an edit grows with the document.
    Cost,
    /// A session of different builds goes wrong.
    Compat,
    Invariants,
    Equiv,
    /// Something failed that doesn't when what the property is about is left
    /// out of the history.
    Caused,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ctx {
    New,
    LocalIns,
    LocalDel,
    IntIns,
    IntDel,
    DupIns,
    DupDel,
    DrainIns,
    DrainDel,
    Fork,
    Clone,
    Codec,
    Serde,
    AnchorMake,
    /// Resolved by the replica that created the anchor.
    AnchorGet,
    /// Resolved by another replica.
    AnchorGetR,
    NoOp,
    Misuse,
    Len,
    Final,
    Scratch,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: Kind,
    pub ctx: Ctx,
    pub msg: String,
}

/// What a peer's reference twin leaves out.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TwinMode {
    None,
    /// Late joiners are decoded, twin = fork under the same id.
    ForkOfDecoded,
    /// Late joiners are forked, twin = decoded under the same id; scratch
    /// copies: twin = clone.
    DecodedOfFork,
    /// Twin doesn't see re-deliveries.
    NoDup,
    /// Twin never uses its backlog: it receives every edit at the moment the
    /// primary applies it.
    Direct,
    NoNoop,
    NoMisuse,
}

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23",
    "C24",
];

pub fn twin_mode(prop: &str) -> TwinMode {
    match prop {
        "C05" => TwinMode::NoDup,
        "C06" => TwinMode::Direct,
        "C07" => TwinMode::ForkOfDecoded,
        "C08" => TwinMode::DecodedOfFork,
        "C15" => TwinMode::NoMisuse,
        "C16" => TwinMode::NoNoop,
        _ => TwinMode::None,
    }
}

impl Ctx {
    fn ins(self) -> bool {
        use Ctx::*;
        matches!(self, LocalIns | IntIns | DrainIns)
    }
    fn del(self) -> bool {
        use Ctx::*;
        matches!(self, LocalDel | IntDel | DrainDel)
    }
    fn drain(self) -> bool {
        use Ctx::*;
        matches!(self, DrainIns | DrainDel)
    }
    fn dup(self) -> bool {
        use Ctx::*;
        matches!(self, DupIns | DupDel)
    }
}

/// Does a failure of this kind, in this context, violate `prop`?
pub fn accepts(prop: &str, k: Kind, c: Ctx) -> bool {
    use Kind::*;
    if k == Caused {
        return true;
    }
    match prop {
        "C01" => match k {
            Diverge | SetMismatch | Stuck | Invariants | Bounds | DrainBad => true,
            Panic => c.ins() || c.del() || matches!(c, Ctx::New | Ctx::Len),
            _ => false,
        },
        "C02" => match k {
            Len | Bounds | DrainBad => true,
            Panic => c.ins() || c.del() || matches!(c, Ctx::New | Ctx::Len),
            _ => false,
        },
        "C03" => match k {
            Order => c.ins(),
            Panic | Len | Bounds => c.ins(),
            _ => false,
        },
        "C04" => match k {
            DelMissing | DelExtra | SetMismatch => true,
            EarlyApply | NotApplied | DrainMissing | DrainBad | Order | Panic | Bounds | Len => c.del(),
            _ => false,
        },
        "C05" => match k {
            DupEffect => true,
            Twin => true,
            Panic => c.dup(),
            _ => false,
        },
        "C06" => match k {
            NotApplied | EarlyApply | DrainMissing | DrainBad | Stuck | Twin => true,
            Panic => c.drain() || matches!(c, Ctx::IntIns | Ctx::IntDel),
            _ => false,
        },
        "C07" => match k {
            Twin | Codec | Equiv => true,
            Panic => matches!(c, Ctx::Codec),
            _ => false,
        },
        "C08" => match k {
            Twin | Equiv => true,
            Panic => matches!(c, Ctx::Fork | Ctx::Clone | Ctx::Scratch),
            _ => false,
        },
        "C09" => match k {
            RoundTrip => true,
            Panic => matches!(c, Ctx::Serde),
            _ => false,
        },
        "C10" => match k {
            CorruptAccepted | CorruptKind | Codec => true,
            Panic => matches!(c, Ctx::Codec),
            _ => false,
        },
        "C11" => matches!(k, Totality),
        "C12" => match k {
            AnchorWrong | AnchorNone | Order | Panic | Bounds => {
                matches!(c, Ctx::AnchorMake | Ctx::AnchorGet)
            },
            _ => false,
        },
        "C13" => match k {
            AnchorEarly | AnchorPeers | RoundTrip => true,
            AnchorWrong | AnchorNone | Order | Panic | Bounds => matches!(c, Ctx::AnchorGetR),
            _ => false,
        },
        "C14" => match k {
            Temporal | Meta => true,
            _ => false,
        },
        "C15" => match k {
            MisuseAccepted | Twin => true,
            Panic => matches!(c, Ctx::LocalIns | Ctx::LocalDel | Ctx::AnchorMake | Ctx::New | Ctx::Fork | Ctx::Codec),
            _ => false,
        },
        "C16" => match k {
            NoOpEffect | Twin => true,
            Panic => matches!(c, Ctx::NoOp),
            _ => false,
        },
        "C17" => matches!(k, Interleave),
        "C18" => matches!(k, Size),
        "C19" => k == Compact || (k == Storage && c == Ctx::LocalIns),
        "C20" => matches!(k, Scale),
        "C21" => matches!(k, Storage),
        "C22" => matches!(k, Ids),
        "C23" => matches!(k, Cost),
        "C24" => matches!(k, Compat),
        // Exploration mode: everything counts.
        "ALL" => true,
        _ => false,
    }
}
