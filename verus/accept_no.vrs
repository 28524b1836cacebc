// The readers without acceptance (C13): nothing is said about which bytes are accepted.
pub open spec fn takes() -> bool { false }
pub uninterp spec fn good(m: Tys, id: SemId, b: Seq<u8>) -> bool;
pub uninterp spec fn end_of(m: Tys, id: SemId, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ends(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn goods(m: Tys, f: Seq<SemId>, b: Seq<u8>) -> bool;
pub proof fn lemma_good(m: Tys, id: SemId, b: Seq<u8>) {}
pub proof fn lemma_items0(m: Tys, f: Seq<SemId>, b: Seq<u8>) {}
pub proof fn lemma_start(m: Tys, f: Seq<SemId>, b: Seq<u8>) {}
pub proof fn lemma_item(m: Tys, f: Seq<SemId>, j: int, b: Seq<u8>) {}
pub proof fn lemma_checked(m: Tys, v: StrictVal, ty: Ty<SemId>, b: Seq<u8>, d: Seq<u8>, e: Seq<u8>) requires takes() ensures checked(m, v, ty), d == e {}
pub proof fn was_read_elsewhere(m: Tys, v: StrictVal, ty: Ty<SemId>, id: SemId, d0: Seq<u8>, d1: Seq<u8>, n0: nat, n1: nat) {}
pub broadcast group group_read { cat_assoc, cat_empty, lemma_byte }
