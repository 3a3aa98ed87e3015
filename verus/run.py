"""src/machine/mod.rs: running until a trap nobody handles, by induction over the steps"""
M = "impl < M : MainMemory , C : Cpu > Machine < M , C >"

JOB = dict(
    at_least=5,
    stand_in="the bounded proofs machine_run* of Kani",
    sources=[dict(file="src/machine/mod.rs", only=[r"trait Cpu", r"struct Machine", r"impl < M : MainMemory , C : Cpu > Machine.*"])],
    skip=(M + " :: install_emulated_kernel",),
    rewrite_items={"struct Machine": [(r"ekernel: Option<Box<dyn EmulatedKernel<C>>>", "ekernel: Option<C>")]},
    inside={},
    contracts={
        M + " :: execute_once": dict(ret="r", trusted=True, spec="""
        ensures
            Self::step(*old(self), *final(self), r),
            // what the lemma one_more gives, where the loop needs it
            forall|a: Self| #[trigger] ran(a, *old(self)) && r is Ok ==> ran(a, *final(self))"""),
        M + " :: run_until_abort": dict(
            ret="r", break_is_return=True,
            attrs=["verifier::exec_allows_no_decreases_clause"],
            spec="""
        ensures Self::runs_to(*old(self), *final(self), r)""",
            proof="        proof { none(*old(self)); }",
            loops=["""
            invariant ran(*old(self), *self)"""]),
    },
    prelude="""
pub trait MainMemory {}
// the states of a run, every step of which succeeds
pub open spec fn steps<M: MainMemory, C: Cpu>(s: Seq<Machine<M, C>>) -> bool {
    forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() ==> Machine::<M, C>::step(#[trigger] s[i], #[trigger] s[j], Ok(()))
}
pub open spec fn ran<M: MainMemory, C: Cpu>(a: Machine<M, C>, b: Machine<M, C>) -> bool {
    exists|s: Seq<Machine<M, C>>| #[trigger] steps(s) && s.len() > 0 && s[0] == a && s[s.len() - 1] == b
}
proof fn none<M: MainMemory, C: Cpu>(a: Machine<M, C>)
    ensures ran(a, a),
{
    assert(steps(seq![a]));
}
proof fn one_more<M: MainMemory, C: Cpu>(a: Machine<M, C>, b: Machine<M, C>, c: Machine<M, C>, r: Result<(), C::TrapMode>)
    requires ran(a, b), Machine::<M, C>::step(b, c, r), r is Ok,
    ensures ran(a, c),
{
    let s = choose|s: Seq<Machine<M, C>>| #[trigger] steps(s) && s.len() > 0 && s[0] == a && s[s.len() - 1] == b;
    assert(r->Ok_0 == ());
    assert(steps(s.push(c)));
}
""",
    trusted=["Verus 0.2026.09.13 with its Z3",
             "the step's contract is an arbitrary relation; the proofs machine_once* of Kani are about its body"],
)
JOB["inside"][M] = """
    pub uninterp spec fn step(pre: Self, post: Self, r: Result<(), C::TrapMode>) -> bool;
    pub open spec fn runs_to(pre: Self, post: Self, r: C::TrapMode) -> bool {
        exists|mid: Self| #[trigger] ran(pre, mid) && Self::step(mid, post, Err(r))
    }
"""
